"""Stationary sources: every microphone receives the source signal delayed by distance over speed of sound
and divided by the distance; compositions of sources are sums."""
import math

from symx.lib import ac, cat, np, run, ssum

from .bfh import classes

BOUNDS = ('signals of up to 6 samples, upsampled 1-3 times, 1-3 microphones, block sizes 1..8, distances of 0.5 to 8 sample intervals (symbolic reals for monopoles, '
          'given positions for dipoles and lines), start times -3..20 samples, up to 3 monopoles per line, up to 3 mixed sources; signals and weights symbolic')
ASSUMPTIONS = ['the upsampled signal is given (scipy.signal.resample)', 'sample numbers more than 0.01 away from the middle between two upsampled samples']
_c = {}


def sig(c, name, n, up, rms=False):
    """signal generator with given upsampled samples"""
    if not _c:
        from traits.api import Any, Float, Int, Property

        class Sig(ac().SignalGenerator):
            u = Any()
            up = Int(1)
            digest = Property(depends_on=['num_samples'])

            def _get_digest(self):
                return 'sig'

            def signal(self):
                return self.u[::self.up].copy()

            def usignal(self, factor):
                assert factor == self.up
                return self.u.copy()

        class Seeded(ac().NoiseGenerator):
            """a different signal for every seed"""
            u = Any()
            taps = Int(1)
            reads = Any()
            digest = Property(depends_on=['rms', 'seed', 'taps'])

            def _get_digest(self):
                return 'seeded%r,%r,%r' % (self.rms, self.seed, self.taps)

            def signal(self):
                self.reads.append((self.seed, self.rms, self.taps))
                return (self.u * self.rms + self.seed) * self.taps

            def usignal(self, factor):
                return self.signal()
        _c.update(Sig=Sig, Seeded=Seeded)
    s = _c['Sig']()
    s.u = c.array(name, (n * up,), -2, 2)
    s.up = up
    s.sample_freq = 1.0
    s.num_samples = n
    return s


def mics(n):
    m = ac().MicGeom()
    m.mpos_tot = np.array([[0.5, 3.0, -1.5], [0, 0.5, 1.0], [0, 0, 0.25]])[:, :n]
    return m


def near_half(c, x):
    """x is well away from the middle between two integers"""
    k = int(math.floor(x)) if not c.symbolic else None
    return k


def arrival(c, u, x):
    """the upsampled sample next to position x, from a signal that is repeated"""
    k = int(x + 50.5) - 50
    c.assume((x - k >= -0.49) & (x - k <= 0.49))
    return k


def point(c, T, nm, up, nums, pads, starts):
    pad = c.choice('prepadding', pads)
    num = c.choice('num', nums)
    start = c.choice('start', starts)
    start_t = c.choice('start_t', [0.0, 1.5])
    s = sig(c, 's', T, up)
    rm = c.array('rm', (1, nm), 0.5, 3, pos=True)
    env = classes()['DistEnv'](R=rm, R0=rm, c=1.0)
    if nm == 1:
        env.R0 = rm
    p = ac().PointSource(signal=s, mics=mics(nm), env=env, prepadding=pad, up=up, start=start, start_t=start_t)
    out = run(p, num)
    c.same('all samples', [len(b) for b in out], [num] * (T // num) + [T % num] * (T % num > 0))
    out = cat(out, nm)
    n = T * up
    for i in range(T):
        for m in range(nm):
            x = (i - rm[0, m] + start - start_t) * up
            k = arrival(c, s.u, x)
            if pad == 'zeros' and k <= 0 and x < 0:
                c.eq('silent before the arrival', out[i, m], 0)
            elif k > 0 or x >= 0:
                c.eq('delayed and attenuated', out[i, m] * rm[0, m], s.u[k % n])
            else:
                # before the start of the signal: its end, up to one upsampled sample
                a, b = s.u[k % n], s.u[(k + 1) % n]
                v = out[i, m] * rm[0, m]
                c.true('end of the signal before its start', (v == a) | (v == b))


def dists(loc, mpos):
    return np.sqrt(((np.array(loc, float).reshape(3, 1) - mpos) ** 2).sum(0))


def value(c, label, out, u, parts, up, shift):
    """out is the sum of factor * signal at position x; positions before the signal start may be one sample off"""
    import itertools
    alts = []
    for f, x in parts:
        x = (x + shift) * up
        k = math.floor(x + 0.5)
        ks = {k} if x >= 0 and abs(x + 0.5 - round(x + 0.5)) > 1e-6 else {k, k + 1} if x < 0 else {k, k - 1}
        alts.append([f * u[j % len(u)] for j in sorted(ks)])
    want = [ssum(t) for t in itertools.product(*alts)]
    if len(want) == 1:
        return c.eq(label, out, want[0])
    if c.symbolic:
        r = False
        for w in want:
            r = (out == w) | r
        c.true(label, r)
    else:
        c.true(label, any(abs(out - w) <= 1e-7 * (1 + abs(w)) for w in want))


def line(c, T, up, nums):
    """a line is the sum of equally spaced monopoles with the given strengths"""
    num = c.choice('num', nums)
    ns = c.choice('sources', [1, 2, 3])
    length = c.choice('length', [1.5, 3.0])
    direction = c.choice('direction', [(1.0, 0, 0), (0, 2.0, 1.0)])
    start_t = c.choice('start_t', [0.0, -2.0])
    s = sig(c, 's', T, up)
    w = [1.0, 0.5, -2.0][:ns]
    m = mics(2)
    loc = (0.3, 0.1, 1.2)
    p = ac().LineSource(signal=s, mics=m, env=ac().Environment(c=1.0), up=up, loc=loc, length=length, num_sources=ns, source_strength=w,
                        direction=direction, start_t=start_t)
    out = run(p, num)
    c.same('all samples', [len(b) for b in out], [num] * (T // num) + [T % num] * (T % num > 0))
    out = cat(out, 2)
    if c.bool('again'):
        c.eq('the same result again', out, cat(run(p, num), 2))
        return
    d = np.array(direction) / np.sqrt(np.dot(direction, direction))
    for mi in range(2):
        r = [dists(np.array(loc) + d * length / ns * j, m.pos)[mi] for j in range(ns)]
        for i in range(T):
            value(c, 'sum of monopoles', out[i, mi], s.u, [(w[j] / r[j], i - r[j]) for j in range(ns)], up, -start_t)


def incoherent(c, T):
    """every monopole of an incoherent line has its own signal, the same in every calculation, scaled by its strength only"""
    ns = c.choice('sources', [2, 3])
    sig(c, 'unused', 1, 1)
    s = _c['Seeded'](u=c.array('s', (T,), -2, 2), reads=[], num_samples=T, sample_freq=1.0, rms=2.0, seed=5, taps=3)
    m = mics(2)
    p = ac().LineSource(signal=s, mics=m, env=ac().Environment(c=1.0), up=1, loc=(0, 0, 1.0), num_sources=ns, source_strength=[1.0, 0.5, 2.0][:ns],
                        coherence='incoherent')
    o1 = cat(run(p, 3), 2)
    rd = s.reads[:] if s.reads else None
    o2 = cat(run(p, 3), 2)
    c.eq('the same result again', o1, o2)
    c.same('generator unchanged', (s.seed, s.rms, s.taps), (5, 2.0, 3))
    if rd:
        c.same('different seeds', len({r[0] for r in rd[-ns:]}), ns)
        c.true('same kind of noise', all(r[1:] == (2.0, 3) for r in rd))


def dipole(c, T, up, nums):
    """two monopoles of opposite sign, a small distance apart along the direction"""
    num = c.choice('num', nums)
    direction = c.choice('direction', [(0, 0, 1.0), (2.0, 0, 0), (1.0, -1.0, 0.5)])
    start_t = c.choice('start_t', [0.0, -1.0])
    s = sig(c, 's', T, up)
    m = mics(2)
    loc = (0.3, 0.1, 1.2)
    p = ac().PointSourceDipole(signal=s, mics=m, env=ac().Environment(c=1.0), up=up, loc=loc, direction=direction, start_t=start_t)
    out = run(p, num)
    c.same('all samples', [len(b) for b in out], [num] * (T // num) + [T % num] * (T % num > 0))
    out = cat(out, 2)
    mag = np.sqrt(np.dot(direction, direction)) * 1e-5
    d = np.array(direction) * 1e-5 / mag * mag / 2
    r0, r1, r2 = dists(loc, m.pos), dists(np.array(loc) + d, m.pos), dists(np.array(loc) - d, m.pos)
    for i in range(T):
        for mi in range(2):
            value(c, 'difference of two monopoles', out[i, mi] * (mag / r0[mi]), s.u, [(1 / r1[mi], i - r1[mi]), (-1 / r2[mi], i - r2[mi])], up, -start_t)


def noise(c, T, nums):
    """channels are the noise of the given kind for successive or given seeds"""
    sig(c, 'unused', 1, 1)
    num = c.choice('num', nums)
    seeds = c.choice('seeds', [[], [7, 3, 7]])
    s = _c['Seeded'](u=c.array('s', (T,), -2, 2), reads=[], num_samples=T, sample_freq=1.0, rms=0.5, seed=5, taps=3)
    p = ac().UncorrelatedNoiseSource(signal=s, mics=mics(3), seed=seeds)
    out = run(p, num)
    c.same('all samples', [len(b) for b in out], [num] * (T // num) + [T % num] * (T % num > 0))
    out = cat(out, 3)
    for j, seed in enumerate(seeds or [5, 6, 7]):
        c.eq('channel', out[:, j], (s.u * 0.5 + seed) * 3)
    c.same('generator unchanged', (s.seed, s.rms, s.taps), (5, 0.5, 3))


def mixer(c, T, nums):
    """weighted sum of all sources, whatever the block size and the kinds of sources"""
    a = ac()
    num = c.choice('num', nums)
    order = c.choice('order', [['point', 'dipole'], ['dipole', 'point'], ['line', 'point', 'noise'], ['noise', 'line'], ['dipole']])
    s = sig(c, 's', T, 1)
    m = mics(2)
    k = dict(signal=s, mics=m, env=a.Environment(c=1.0), up=1, loc=(0.3, 0.1, 1.2))
    wn = _c['Seeded'](u=c.array('n', (T,), -2, 2), reads=[], num_samples=T, sample_freq=1.0)
    make = {'point': lambda: a.PointSource(**k), 'dipole': lambda: a.PointSourceDipole(**k), 'line': lambda: a.LineSource(num_sources=2, source_strength=[1.0, 0.5], **k),
            'noise': lambda: a.UncorrelatedNoiseSource(signal=wn, mics=m)}
    srcs = [make[x]() for x in order]
    weighted = c.bool('weighted')
    w = [2.0, -0.5, 1.5][:len(order)] if weighted else [1.0] * len(order)
    mix = a.SourceMixer(sources=srcs, weights=np.array(w) if weighted else [])
    out = run(mix, num)
    c.same('all samples', [len(b) for b in out], [num] * (T // num) + [T % num] * (T % num > 0))
    out = cat(out, 2)
    parts = [cat(run(make[x](), T), 2) for x in order]
    c.eq('weighted sum', out, ssum([x * y for x, y in zip(parts, w)]))
    c.same('channels and samples', (mix.num_channels, mix.num_samples, mix.sample_freq), (2, T, 1.0))


def convolved(c, T, nk, nums):
    """every channel is the signal convolved with its kernel"""
    num = c.choice('num', nums)
    s = sig(c, 's', T, 1)
    ker = np.array([[1.0, 0.5], [0, -1.0], [2.0, 0.25], [-0.5, 1.0]])[:nk]
    p = ac().PointSourceConvolve(signal=s, mics=mics(2), kernel=ker)
    out = cat(run(p, num), 2)
    for i in range(T):
        for m in range(2):
            c.near('convolution', out[i, m], ssum([ker[j, m] * s.u[i - j] for j in range(nk) if i >= j]), 1e-9)


def scenarios(tier):
    th = tier == 'thorough'
    return [dict(name='point', fn=point, params=dict(T=5 if th else 4, nm=1, up=2, nums=[1, 2, 3, 4, 8], pads=['loop', 'zeros'], starts=[0.0, 1.25, 20.0]), cost=20),
            dict(name='point, two microphones', fn=point, params=dict(T=4, nm=2, up=1, nums=[1, 3, 8] if th else [3], pads=['zeros', 'loop'], starts=[0.0, 0.25]), cost=20),
            dict(name='point, long delay', fn=point, params=dict(T=2, nm=1, up=2, nums=[1, 2, 3], pads=['zeros', 'loop'], starts=[-3.0, -6.0]), cost=9),
            dict(name='line', fn=line, params=dict(T=6 if th else 5, up=3, nums=[1, 2, 5, 8]), cost=9),
            dict(name='incoherent', fn=incoherent, params=dict(T=4), cost=2),
            dict(name='dipole', fn=dipole, params=dict(T=6 if th else 5, up=2, nums=[1, 2, 5, 8]), cost=9),
            dict(name='noise', fn=noise, params=dict(T=5, nums=[1, 2, 3, 5, 8]), cost=2),
            dict(name='mixer', fn=mixer, params=dict(T=6, nums=[1, 2, 3, 4, 6, 9]), cost=9),
            dict(name='convolved', fn=convolved, params=dict(T=5, nk=3, nums=[1, 2, 3, 5, 8]), cost=5)]
