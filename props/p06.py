"""Processing blocks leave the data of their source alone, do not rely on a block staying valid after
the next one was requested, and can be run again; mixers deliver the sum over the common length."""
from symx.lib import _classes, ac, cat, new, np, run, src, ssum
from symx.patch import setattrs

from .p01 import KINDS as K1

BOUNDS = ('sources of 1..5 samples (spectral chains: 8), 2 channels, block sizes 1..4 (thorough 1..7 each); mixers with up to 3 sources of independent '
          'lengths 1..4 and symbolic weights; all sample values symbolic')
ASSUMPTIONS = ['filters: concrete coefficients of one design per class']


def _rf(s):
    r = ac().RFFT(source=s, scaling='amplitude', window='Hanning')
    r.block_size = 4
    return r


KINDS = dict(K1)
KINDS.update({
    'sourcemixer': lambda x, s: ac().SourceMixer(sources=[s, src(x + 1, fs=64.0, tag='o')], weights=np.array([2.0, 3.0])),
    'calib': lambda x, s: ac().Calib(source=s, data=np.array([2.0, 3.0])),
    'rfft': lambda x, s: _rf(s),
    'irfft': lambda x, s: ac().IRFFT(source=_rf(s)),
    'autopower': lambda x, s: ac().AutoPowerSpectra(source=_rf(s)),
    'crosspower': lambda x, s: ac().CrossPowerSpectra(source=_rf(s)),
    'cross_avg': lambda x, s: ac().Average(source=ac().CrossPowerSpectra(source=_rf(s)), num_per_average=2),
    'reverse2': lambda x, s: ac().TimeReverse(source=ac().TimeReverse(source=s)),
})
SPECTRAL = ('rfft', 'irfft', 'autopower', 'crosspower', 'cross_avg')
del KINDS['cache_off']


def _poison(c, b):
    if c.symbolic:
        b[...] = c.new_garbage()
    else:
        b[...] = float('nan')


def own_memory(c, kind, Tmax, nmax):
    """the same result from a source that keeps its blocks and from one that reuses their memory"""
    T = c.cint('T', 1, Tmax) if kind not in SPECTRAL else c.choice('T', [3, 4, 8])
    num = c.cint('num', 1, nmax)
    x = c.array('x', (T, 2), -2, 2)
    ref = run(KINDS[kind](x, src(x, fs=64.0)), num)

    class Reuse(_classes()['Src']):
        def result(self, num):
            last = None
            for i in range(0, len(self.d), num):
                b = self.d[i:i + num].copy()
                if last is not None:
                    _poison(c, last)
                last = b
                yield b
    s = Reuse()
    s.d, s.sample_freq, s.num_samples, s.num_channels, s.tag = x, 64.0, T, 2, 'src'
    got = run(KINDS[kind](x, s), num)
    c.same('number of blocks', len(got), len(ref))
    for a, b in zip(got, ref):
        c.eq('block', a, b)


def leaves_data(c, kind, Tmax, nmax):
    """recorded data is the same after any number of runs, and so are the results"""
    T = c.cint('T', 1, Tmax) if kind not in SPECTRAL else c.choice('T', [3, 4, 8])
    num = c.cint('num', 1, nmax)
    x = c.array('x', (T, 2), -2, 2)
    data = x.copy()
    ts = new(ac().TimeSamples, data=data, sample_freq=64.0)
    p = KINDS[kind](x, ts)
    ref = run(KINDS[kind](x, src(x, fs=64.0)), num)
    for k in range(2):
        got = run(p, num)
        c.eq('recorded data', ts.data, x)
        c.same('number of blocks', len(got), len(ref))
        for a, b in zip(got, ref):
            c.eq('block in run %d' % k, a, b)


def mixer(c, nsrc, Tmax, nmax):
    Ts = [c.cint('T%d' % i, 1, Tmax) for i in range(nsrc)]
    num = c.cint('num', 1, nmax)
    xs = [c.array('x%d' % i, (t, 1), -2, 2) for i, t in enumerate(Ts)]
    m = ac().Mixer(source=src(xs[0]), sources=[src(x, tag='m%d' % i) for i, x in enumerate(xs[1:])])
    n = min(Ts)
    got = run(m, num)
    c.eq('sum over the common length', cat(got, 1), ssum([x[:n] for x in xs]))
    c.true('full blocks', all(b.shape[0] == num for b in got[:-1]))


def sourcemixer(c, nsrc, T, nmax):
    num = c.cint('num', 1, nmax)
    xs = [c.array('x%d' % i, (T, 2), -2, 2) for i in range(nsrc)]
    w = c.array('w', (nsrc,), -2, 2)
    use = c.bool('weighted')
    m = ac().SourceMixer(sources=[src(x, tag='m%d' % i) for i, x in enumerate(xs)])
    if use:
        setattrs(m, weights=w)
    c.eq('weighted sum', cat(run(m, num)), ssum([x * (w[i] if use else 1) for i, x in enumerate(xs)]))
    c.same('announced samples', int(m.num_samples), T)
    c.same('announced channels', int(m.num_channels), 2)
    w2 = c.array('v', (nsrc,), -2, 2)
    setattrs(m, weights=w2)
    c.eq('new weights', cat(run(m, num)), ssum([x * w2[i] for i, x in enumerate(xs)]))


def shared(c, T, num):
    """one recording feeding several blocks at once"""
    x = c.array('x', (T, 1), -2, 2)
    ts = new(ac().TimeSamples, data=x.copy(), sample_freq=64.0)
    a = ac().SourceMixer(sources=[ts, ts], weights=np.array([2.0, 3.0]))
    b = ac().Mixer(source=ts, sources=[ts])
    p = ac().TimePower(source=ts)
    ga, gb, gp = a.result(num), b.result(num), p.result(num)
    out = {0: [], 1: [], 2: []}
    live = [0, 1, 2]
    s = 0
    while live:
        i = c.choice('s%d' % s, live)
        s += 1
        try:
            out[i].append(next((ga, gb, gp)[i]).copy())
        except StopIteration:
            live.remove(i)
    c.eq('weighted', cat(out[0]), 5 * x)
    c.eq('twice', cat(out[1]), 2 * x)
    c.eq('power', cat(out[2]), x * x)


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    T, n = (7, 7) if big else (5, 4)
    opts = dict(max_s=1500 if big else 300, max_paths=20000)
    for k in KINDS:
        out.append(dict(name='memory_' + k, fn=own_memory, params=dict(kind=k, Tmax=T, nmax=n), opts=opts))
        out.append(dict(name='data_' + k, fn=leaves_data, params=dict(kind=k, Tmax=T, nmax=n), opts=opts))
    out.append(dict(name='mixer2', fn=mixer, params=dict(nsrc=2, Tmax=T, nmax=n), opts=opts))
    out.append(dict(name='mixer3', fn=mixer, params=dict(nsrc=3, Tmax=4, nmax=3), opts=opts))
    out.append(dict(name='sourcemixer', fn=sourcemixer, params=dict(nsrc=3, T=3, nmax=4), opts=opts))
    out.append(dict(name='shared', fn=shared, params=dict(T=2, num=1), opts=opts))
    return out
