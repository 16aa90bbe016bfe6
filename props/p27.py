"""Moving sources: a microphone receives at time t what the source emitted at the time te for which
te plus travel time from the position at te is t."""
import math

from symx.lib import ac, cat, np, run

from . import p26
from .p26 import dists, sig

BOUNDS = ('signals of up to 8 samples, upsampled 1-4 times, 2 microphones, block sizes 1..9, given subsonic trajectories and speeds up to Mach 0.5, '
          'start times -2..2 samples; signals symbolic')
ASSUMPTIONS = ['the upsampled signal and the splines of the trajectory are given (scipy)', 'te is exact to a tenth of an upsampled sample']
TRAJ = {'still': {-30.0: (0.5, 0.25, 1.0), 30.0: (0.5, 0.25, 1.0)},
        'line': {-30.0: (-15.0, 0.5, 1.0), 30.0: (15.0, 0.5, 1.0)},
        'away': {-30.0: (0, 0, 0.5), -2.0: (0, 0, 0.5), 0.0: (0.1, 0, 0.75), 2.0: (0.6, 0, 1.0), 10.0: (3.5, 1.0, 2.0), 30.0: (8.0, 3.0, 3.0)},
        'toward': {-30.0: (-12.0, 0.25, 0.0), 30.0: (12.0, 0.25, 0.0)}}


def emission(tr, mpos, t, cs):
    """time of emission by bisection"""
    lo, hi = -30.0, 30.0
    for _ in range(80):
        te = (lo + hi) / 2
        d = float(np.sqrt(((np.array(tr.location(te)) - mpos) ** 2).sum()))
        if te + d / cs > t:
            hi = te
        else:
            lo = te
    return te, d


def moving(c, T, ups, nums, names):
    name = c.choice('trajectory', names)
    up = c.choice('up', ups)
    num = c.choice('num', nums)
    start, start_t = c.choice('start', [(0.0, 0.0), (1.25, 0.0), (0.0, -1.5), (2.0, 0.5), (-1.0, -2.0)])
    s = sig(c, 's', T, up)
    m = p26.mics(2)
    tr = ac().Trajectory(points=TRAJ[name])
    p = ac().MovingPointSource(signal=s, mics=m, env=ac().Environment(c=1.0), up=up, trajectory=tr, start=start, start_t=start_t)
    bl = run(p, num)
    out = cat(bl, 2)
    c.true('blocks', all(len(b) == num for b in bl[:-1]) and all(len(b) for b in bl))
    n = T * up
    for i in range(T):
        at = [emission(tr, m.pos[:, j], start + i, 1.0) for j in range(2)]
        pos = [(te - start_t) * up for te, _ in at]
        if i >= len(out):
            c.true('ends only behind the end of the signal', max(pos) > n - 0.65)
            break
        for j in range(2):
            te, d = at[j]
            x = pos[j]
            ks = {math.floor(x + 0.5 - 0.12), math.floor(x + 0.5 + 0.12)}
            if x < 0:
                ks |= {k + 1 for k in ks}
            v = np.array(tr.location(te, 1))
            tol = 0.3 / up * float(np.sqrt(v @ v)) / d / d + 1e-6
            close(c, 'emitted sample over distance', out[i, j], [s.u[k % n] / d for k in sorted(ks)], tol)


def close(c, label, got, alts, tol):
    if len(alts) == 1:
        return c.near(label, got, alts[0], tol)
    r = False
    for a in alts:
        r = ((got - a <= tol) & (a - got <= tol)) | r
    c.true(label, r)


def still(c, T, up, kinds):
    """a source that does not move is a stationary source"""
    a = ac()
    kind = c.choice('kind', kinds)
    num = c.choice('num', [1, 3, 9])
    start, start_t = c.choice('start', [(0.0, 0.0), (1.25, 0.0), (0.0, -1.5), (2.0, 0.5)])
    s = sig(c, 's', T, up)
    m = p26.mics(2)
    k = dict(signal=s, mics=m, env=a.Environment(c=1.0), up=up, start=start, start_t=start_t)
    tr = a.Trajectory(points=TRAJ['still'])
    loc = TRAJ['still'][30.0]
    if kind == 'point':
        p, q = a.PointSource(loc=loc, **k), a.MovingPointSource(trajectory=tr, conv_amp=c.bool('conv'), **k)
    elif kind == 'dipole':
        p, q = a.PointSourceDipole(loc=loc, **k), a.MovingPointSourceDipole(trajectory=tr, **k)
    else:
        k.update(num_sources=2, source_strength=[1.0, 0.5], length=2.0, direction=(1.0, 0, 0))
        p, q = a.LineSource(loc=loc, **k), a.MovingLineSource(trajectory=tr, **k)
    x, y = cat(run(p, num), 2), cat(run(q, num), 2)
    top = T if start == start_t == 0 else T - 4
    c.true('samples', len(y) >= top)
    n = min(len(y), len(x))
    late = [max(0.0, -min(0.0, start - start_t - d)) for d in dists(loc, m.pos)]
    for j in range(2):
        i0 = int(math.ceil(late[j])) + (1 if kind != 'point' else 0)
        if kind == 'dipole':
            c.near('a moving dipole at rest is a dipole', y[i0:n, j], x[i0:n, j], 2e-4)
        elif kind == 'line':
            c.near('a moving line at rest is a line', y[i0:n, j], x[i0:n, j], 1e-6)
        else:
            c.near('a moving source at rest is a source', y[i0:n, j], x[i0:n, j], 1e-6)


def convection(c, T):
    """a source is louder towards its direction of motion by the square of the Doppler factor"""
    s = sig(c, 's', T, 1)
    m = ac().MicGeom()
    m.mpos_tot = np.array([[0.0, 0.0], [0, 0], [0, 0.0]])
    dirn = c.choice('dir', [1, -1])
    tr = ac().Trajectory(points={-30.0: (-15.0 * dirn + 5.0, 0, 0), 30.0: (15.0 * dirn + 5.0, 0, 0)})
    k = dict(signal=s, mics=m, env=ac().Environment(c=1.0), up=1, trajectory=tr, start_t=-8.0)
    x = cat(run(ac().MovingPointSource(conv_amp=True, **k), T), 2)
    y = cat(run(ac().MovingPointSource(conv_amp=False, **k), T), 2)
    n = min(len(x), len(y))
    c.true('samples', n >= 2)
    # motion along x away from the microphones (dir 1) or towards them
    c.near('convective amplification', x[:n] * (1 + 0.5 * dirn) ** 2, y[:n], 1e-6)


def scenarios(tier):
    th = tier == 'thorough'
    return [dict(name='moving', fn=moving, params=dict(T=10 if th else 8, ups=[1, 2, 4] if th else [1, 3], nums=[1, 2, 3, 4, 7, 9] if th else [1, 3, 9], names=list(TRAJ)), cost=9),
            dict(name='still', fn=still, params=dict(T=8, up=2, kinds=['point', 'dipole']), cost=4),
            dict(name='still line', fn=still, params=dict(T=8, up=2, kinds=['line']), cost=4),
            dict(name='convection', fn=convection, params=dict(T=8), cost=2)]
