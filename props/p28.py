"""Time domain beamforming: the sum over the microphones of the signals at emission time plus travel
time, linearly interpolated between samples, weighted by the steering vector amplitudes."""
import math

from symx import core
from symx.lib import ac, cat, np, run, src, ssum

from .bfh import TYPES, dist, posneg, steering

BOUNDS = ('1-2 grid points, 1-3 microphones, up to 9 samples (thorough 12), block sizes 1..10, delays of 0.5 to 3 samples as symbolic reals in the '
          'definition, fixed geometries and trajectories elsewhere, all steering types, up to 2 iterations of CLEAN-T; sample values symbolic')
ASSUMPTIONS = ['single precision is treated as exact', 'parallel loops of the compiled kernels give the same result in any order',
               'the splines of a trajectory (scipy) are given']
# microphone positions: distances to origin 0.5, 1, 1
MICS = np.array([[0.5, 0, 1.0], [0, 1.0, 0], [0, 0, 0.0]])


def amps(c, rm, r0, stype):
    n = len(rm)
    sq = core.sqrt if c.symbolic else np.sqrt
    s = ssum([1 / (x * x) for x in rm])
    if stype == 'classic':
        return [1.0 / n] * n
    if stype == 'inverse':
        return [x / r0 / n for x in rm]
    if stype == 'true level':
        return [1 / (r0 * x * s) for x in rm]
    return [1 / (x * sq(s * n)) for x in rm]


def terms(p, i, rm, a, cs, w=None):
    """delayed and weighted signal of every microphone for emission sample i"""
    out = []
    for m in range(len(rm)):
        d = rm[m] / cs
        k = int(d)
        fr = d - k
        out.append((p[i + k, m] * (1 - fr) + p[i + k + 1, m] * fr) * a[m] * (1 if w is None else w[m]))
    return out


def power(c, ts, rdiag):
    s = ssum(ts)
    return posneg(c, s * s - ssum([t * t for t in ts])) if rdiag else s * s


def same_power(c, label, got, want, near):
    # the sign of a rounding error may decide which of two equal numbers is taken
    if near:
        c.near(label, got, want, 1e-6)
    else:
        c.eq(label, got, want)


def definition(c, T, ng, nm, nums, one=False):
    """cs = 1 per sample: distances are delays in samples"""
    stype = c.choice('type', TYPES[2:3] if one else TYPES)
    kind = c.choice('kind', ['signal', 'power', 'without autopower'][:1 if one else 3])
    rm, r0 = dist(c, ng, nm)
    p = c.array('p', (T, nm), -2, 2)
    num = c.choice('num', nums)
    cls = ac().BeamformerTime if kind == 'signal' else ac().BeamformerTimeSq
    bf = cls(source=src(p, fs=8.0, reuse=True), steer=steering(rm, r0, stype, cs=8.0))
    if kind != 'signal':
        bf.r_diag = kind != 'power'
    out = cat(run(bf, num), ng)
    top = max(int(x) for x in np.ravel(rm))
    c.true('all emission times with complete data', max(0, T - top - 2) <= len(out) <= max(0, T - top - 1))
    for i in range(len(out)):
        for g in range(ng):
            ts = terms(p, i, rm[g], amps(c, rm[g], r0[g], stype), 1.0)
            if kind == 'signal':
                c.eq('delay and sum', out[i, g], ssum(ts))
            else:
                same_power(c, 'power', out[i, g], power(c, ts, bf.r_diag), bf.r_diag)


def point_grid(n):
    g = ac().ImportGrid()
    g.gpos_file = np.array([[0, 0.5], [0, 0.25], [1.0, 1.5]])[:, :n]
    return g


def real_steer(stype='true level', n=2, nm=3, cs=1.0, ref=1.0):
    a = ac()
    m = a.MicGeom()
    m.pos_total = MICS[:, :nm]
    return a.SteeringVector(grid=point_grid(n), mics=m, env=a.Environment(c=cs), steer_type=stype, ref=ref)


def rings(pos):
    """weights for a constant power per area: mean one, proportional to the root of the area per microphone of a ring"""
    r = np.sqrt((pos * pos).sum(0))
    r = np.round(r / r.max(), 1)
    u = sorted(set(r))
    b = [0] + [(u[i] + u[i + 1]) / 2 for i in range(len(u) - 1)]
    b.append(1.5 * u[-1] - 0.5 * b[-1])
    w = [math.sqrt((b[i + 1] ** 2 - b[i] ** 2) / sum(1 for x in r if x == u[i])) for i in range(len(u))]
    return [w[u.index(x)] / np.mean(w) for x in r]


def weighted(c, T, nums):
    """spatial weights are applied once to every sample, whatever the block size"""
    kind = c.choice('kind', ['fixed', 'trajectory'])
    p = c.array('p', (T, 3), -2, 2)
    num = c.choice('num', nums)
    st = real_steer('classic')
    if kind == 'fixed':
        bf = ac().BeamformerTime(source=src(p, fs=1.0, reuse=True), steer=st, weights='power')
    else:
        tr = ac().Trajectory(points={0: (0, 0, 0), 40.0: (0, 0, 0)})
        bf = ac().BeamformerTimeTraj(source=src(p, fs=1.0, reuse=True), steer=st, weights='power', trajectory=tr)
    out = cat(run(bf, num), 2)
    w = rings(MICS)
    c.true('length', T - 4 <= len(out))
    for i in range(len(out)):
        for g in range(2):
            c.eq('weighted sum', out[i, g], ssum(terms(p, i, st.rm[g], [1 / 3] * 3, 1.0, w)))


TRAJ = {'still': {0: (0, 0, 0), 40.0: (0, 0, 0)},
        'line': {0: (0.5, 0, 0), 40.0: (4.5, 0, 2.0)},
        'curve': {0: (0, 0, 0), 4.0: (0.5, 0.25, 0), 8.0: (1.5, 0.25, 0.5), 20.0: (2.0, 1.5, 0.5)},
        'short': {0: (0, 0, 0), 5.0: (1.0, 0, 0)}}


def moving(c, T, nums, names):
    """the grid moves along the trajectory and is, with a reference vector, turned into its direction"""
    name = c.choice('trajectory', names)
    kind = c.choice('kind', ['signal', 'power', 'without autopower'])
    stype = c.choice('type', TYPES)
    rvec = c.choice('rvec', [(0, 0, 0), (0, 0, 1.0), (0.5, 0, 2.0)] if name != 'still' else [(0, 0, 0)])
    ref = c.choice('ref', [1.0, 0.0, (0.5, 0, 0.25)])
    prec = c.choice('precision', [64, 32])
    num = c.choice('num', nums)
    c.assume(kind == 'signal' or (stype == 'true level' and ref == 1.0))
    c.assume(ref == 1.0 or stype in ('inverse', 'true level'))
    c.assume(prec == 64 or (stype == 'true location' or kind == 'power'))
    p = c.array('p', (T, 3), -2, 2)
    tr = ac().Trajectory(points=TRAJ[name])
    st = real_steer(stype, ref=ref)
    cls = ac().BeamformerTimeTraj if kind == 'signal' else ac().BeamformerTimeSqTraj
    bf = cls(source=src(p, fs=1.0, reuse=True), steer=st, trajectory=tr, rvec=np.array(rvec), precision=prec)
    if kind != 'signal':
        bf.r_diag = kind != 'power'
    out = cat(run(bf, num), 2)
    i = -1
    while True:
        i += 1
        if i >= TRAJ_END[name]:
            break
        pos = positions(tr, float(i), st.grid.pos, rvec)
        rm = np.sqrt(((pos[:, :, None] - MICS[:, None, :]) ** 2).sum(0))
        if i + int(rm.max()) + 1 >= T:
            break
        if i >= len(out):
            c.true('no more than one sample missing at the end', i + int(rm.max()) + 2 >= T)
            break
        for g in range(2):
            r0 = ref if np.isscalar(ref) and ref > 0 else np.sqrt(((pos[:, g] - np.array(ref)) ** 2).sum())
            ts = terms(p, i, rm[g], amps(c, rm[g], r0, stype), 1.0)
            v = ssum(ts) if kind == 'signal' else power(c, ts, bf.r_diag)
            if prec == 64:
                same_power(c, 'moving ' + kind, out[i, g], v, kind == 'without autopower')
            else:
                c.near('moving, single precision', out[i, g], v, 1e-4)
    c.true('nothing after the end of the data or the trajectory', len(out) <= i)


TRAJ_END = {'still': 40, 'line': 40, 'curve': 20, 'short': 5}


def positions(tr, t, gpos, rvec):
    loc = np.array(tr.location(t))
    if all(x == 0 for x in rvec):
        return gpos + loc[:, None]
    v = np.array(tr.location(t, 1))
    ex = v / np.sqrt(v @ v)
    ey = np.cross(rvec, ex)
    ey = ey / np.sqrt(ey @ ey)
    ez = np.cross(ex, ey)
    return np.outer(ex, gpos[0]) + np.outer(ey, gpos[1]) + np.outer(ez, gpos[2]) + loc[:, None]


def same_as_fixed(c, T, nums):
    """a trajectory that stays at the origin changes nothing, and the block size neither"""
    sq = c.bool('power')
    p = c.array('p', (T, 3), -2, 2)
    a = ac()
    n1, n2 = c.choice('num', nums)
    tr = a.Trajectory(points=TRAJ['still'])
    st = real_steer('true level')
    k = dict(r_diag=False) if sq else {}
    o1 = cat(run((a.BeamformerTimeSq if sq else a.BeamformerTime)(source=src(p, fs=1.0, reuse=True), steer=st, **k), n1), 2)
    o2 = cat(run((a.BeamformerTimeSqTraj if sq else a.BeamformerTimeTraj)(source=src(p, fs=1.0, reuse=True), steer=st, trajectory=tr, **k), n2), 2)
    n = min(len(o1), len(o2))
    c.true('length', abs(len(o1) - len(o2)) <= 1 and n > 0)
    c.eq('same output', o1[:n], o2[:n])


def clean(c, T, n_iter, traj, nm=2):
    """every iteration moves a part of the strongest signal to the output and takes the corresponding signals from
    the microphones; it is dropped and the calculation stops if the total does not decrease"""
    a = ac()
    kind = c.choice('kind', ['signal', 'power', 'without autopower'])
    damp = c.choice('damp', [0.5, 1.0])
    # direction of the data given, so that powers are quadratic in two unknowns
    u = c.real('u', -2, 2)
    v = c.real('v', -2, 2)
    shape = np.array([[1, 2, -1, 1, 0.5, 2, -1, 0], [2, -1, 1, 1, 0, 1, 1, -2.]]).T[:T]
    p = np.array([[shape[i, m] * (u if (i + m) % 2 else v) for m in range(nm)] for i in range(T)])
    if c.symbolic:
        from symx.arrays import SymArray
        p = p.view(SymArray)
    st = real_steer('true level', 2, nm)
    cls = {('signal', 0): a.BeamformerCleant, ('signal', 1): a.BeamformerCleantTraj}.get(
        (kind, traj), a.BeamformerCleantSqTraj if traj else a.BeamformerCleantSq)
    k = dict(trajectory=a.Trajectory(points=TRAJ['still']), precision=64) if traj else {}
    bf = cls(source=src(p, fs=1.0, reuse=True), steer=st, damp=damp, n_iter=n_iter, **k)
    rd = kind == 'without autopower'
    if kind != 'signal':
        bf.r_diag = rd
    out = cat(run(bf, T), 2)
    rm = st.rm
    top = int(rm.max())
    N = T - top - (1 if traj else 2)
    c.same('length', len(out), N)
    q = np.array(p, copy=True, subok=True)
    gam = [[0] * 2 for _ in range(N)]
    gau = [[0] * 2 for _ in range(N)]

    def beam(q):
        ts = [[terms(q, i, rm[g], amps(c, rm[g], 1.0, 'true level'), 1.0) for g in range(2)] for i in range(N)]
        phi = [[ssum(t) for t in r] for r in ts]
        aut = [[ssum([x * x for x in t]) for t in r] for r in ts]
        pw = [ssum([phi[i][g] * phi[i][g] - (aut[i][g] if rd else 0) for i in range(N)]) for g in range(2)]
        if rd:
            for x in pw:
                c.assume((x >= 0.01) | (x <= -0.01))
            pw = [x if x > 0 else 0 for x in pw]
        return phi, aut, pw

    def clear(x, y):
        # rounding errors may decide otherwise
        if x is not y:
            c.assume((x - y >= 0.01) | (x - y <= -0.01))
    phi, aut, pw = beam(q)
    for it in range(n_iter):
        if not (rd and pw == [0, 0]):
            clear(pw[0], pw[1])
        g = 1 if pw[1] > pw[0] else 0
        for m in range(nm):
            d = rm[g, m]
            k = int(d)
            last = N + k + 1 if d > k or not traj else N + k + 1
            for j in range(k, last):
                # signal of the grid point at emission time j - d, kept constant before its first and after its last sample
                x = j - d
                if x <= 0:
                    s = phi[0][g]
                elif x >= N - 1:
                    s = phi[N - 1][g]
                else:
                    i = int(math.floor(x))
                    s = phi[i][g] * (1 - (x - i)) + phi[i + 1][g] * (x - i)
                q[j, m] = q[j, m] - damp * s / rm[g, m]
        nphi, naut, npw = beam(q)
        if not (rd and npw + pw == [0] * 4):
            clear(npw[0] + npw[1], pw[0] + pw[1])
        if not (npw[0] + npw[1] < pw[0] + pw[1]):
            break
        for i in range(N):
            gam[i][g] = gam[i][g] + damp * phi[i][g]
            gau[i][g] = aut[i][g]
        phi, aut, pw = nphi, naut, npw
    for i in range(N):
        for g in range(2):
            w = gam[i][g] if kind == 'signal' else gam[i][g] * gam[i][g] - (damp * damp * gau[i][g] if rd else 0)
            same_power(c, 'part moved to the output', out[i, g], w, rd)


def scenarios(tier):
    th = tier == 'thorough'
    return [dict(name='definition', fn=definition, params=dict(T=6 if th else 5, ng=1, nm=2, nums=[1, 2, 3, 7] if th else [1, 3]), cost=20),
            dict(name='definition, two points', fn=definition, params=dict(T=6 if th else 5, ng=2, nm=2, nums=[1, 2, 3, 4, 9] if th else [2], one=True), cost=20),
            dict(name='weighted', fn=weighted, params=dict(T=9 if th else 7, nums=[1, 2, 3, 4, 5, 6, 7, 10] if th else [1, 2, 4, 10]), cost=9),
            dict(name='moving', fn=moving, params=dict(T=9 if th else 8, nums=[1, 2, 3, 4, 5, 6, 7, 10] if th else [2, 3, 10], names=list(TRAJ)), cost=30),
            dict(name='same as fixed', fn=same_as_fixed, params=dict(T=9, nums=[(1, 4), (4, 3), (2, 2), (5, 1), (10, 10), (3, 10)]), cost=9),
            dict(name='clean', fn=clean, params=dict(T=6, n_iter=1, traj=0), cost=9),
            dict(name='clean, moving', fn=clean, params=dict(T=6, n_iter=1, traj=1), cost=9),
            dict(name='clean, two iterations', fn=clean, params=dict(T=5, n_iter=2, traj=0), cost=9)]
