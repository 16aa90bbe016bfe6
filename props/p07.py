"""Elementary signal operations deliver their definition."""
import math

from symx.lib import ac, cat, new, np, run, src, ssum
from symx.patch import setattrs

BOUNDS = ('signals of 1..6 samples (thorough 1..9), 1..3 channels, block sizes 1..7 (thorough 1..10), averaging lengths 1..4 (thorough 1..6); '
          'sample values and weights symbolic; time constants of all three weightings at two sampling frequencies')
ASSUMPTIONS = []


def power(c, T, nmax):
    num = c.cint('num', 1, nmax)
    x = c.array('x', (T, 2), -2, 2)
    c.eq('square', cat(run(ac().TimePower(source=src(x)), num)), x * x)


def cumavg(c, T, nmax):
    num = c.cint('num', 1, nmax)
    x = c.array('x', (T, 2), -2, 2)
    want = np.array([[ssum(x[:n + 1, k]) / (n + 1) for k in range(2)] for n in range(T)])
    c.eq('running mean', cat(run(ac().TimeCumAverage(source=src(x)), num)), want)


def reverse(c, T, nmax):
    num = c.cint('num', 1, nmax)
    x = c.array('x', (T, 2), -2, 2)
    p = ac().TimeReverse(source=src(x))
    c.eq('reversed', cat(run(p, num)), x[::-1])
    c.eq('twice reversed', cat(run(ac().TimeReverse(source=p), num)), x)


def average(c, T, nmax, amax, spectral=False):
    num = c.cint('num', 1, nmax)
    nav = c.cint('nav', 1, amax)
    if spectral:
        s = new_spec(c, T)
        x = s.d
    else:
        x = c.array('x', (T, 2), -2, 2)
        s = src(x, fs=24.0)
    p = ac().Average(source=s, num_per_average=nav)
    n = T // nav
    got = run(p, num)
    want = [[ssum(x[i * nav:(i + 1) * nav, k]) / nav for k in range(x.shape[1])] for i in range(n)]
    c.same('number of averages', sum(len(b) for b in got), n)
    c.same('announced number', int(p.num_samples), n)
    c.same('announced rate', p.sample_freq, 24.0 / nav)
    if n:
        c.eq('mean', cat(got), np.array(want))


def new_spec(c, T):
    from symx.lib import _classes
    x = c.array('x', (T, 2), -2, 2, kind='cplx')
    s = _classes()['SpecSrc']()
    s.d = x
    s.sample_freq, s.num_channels, s.num_samples = 24.0, 1, T
    s.num_freqs = 2
    return s


def expavg(c, T, nmax):
    """first-order low pass with the time constant of the weighting"""
    num = c.cint('num', 1, nmax)
    w = c.choice('weight', ['F', 'S', 'I'])
    fs = c.choice('fs', [8.0, 64.0])
    x = c.array('x', (T, 2), -2, 2)
    tau = {'F': 0.125, 'S': 1.0, 'I': 0.035}[w]
    a = 1 - math.exp(-1 / tau / fs)
    y = np.zeros(2)
    want = []
    for n in range(T):
        y = y * (1 - a) + x[n] * a
        want.append(y)
    p = ac().TimeExpAverage(source=src(x, fs=fs), weight=w)
    c.eq('exponential average', cat(run(p, num)), np.array(want))
    p.weight = 'S'
    q = ac().TimeExpAverage(source=src(x, fs=fs), weight='S')
    c.eq('changed weighting', cat(run(p, num)), cat(run(q, num)))


def chanmix(c, T, nch, nmax):
    num = c.cint('num', 1, nmax)
    x = c.array('x', (T, nch), -2, 2)
    w = c.array('w', (nch,), -2, 2)
    one = c.array('g', (1,), -2, 2)
    p = ac().ChannelMixer(source=src(x))
    c.eq('plain sum', cat(run(p, num)), np.array([[ssum(r)] for r in x]))
    c.same('one channel announced', int(p.num_channels), 1)
    p = new(ac().ChannelMixer, source=src(x), weights=w)
    c.eq('weighted sum', cat(run(p, num)), np.array([[ssum(r * w)] for r in x]))
    setattrs(p, weights=one)
    c.eq('common factor', cat(run(p, num)), np.array([[ssum(r) * one[0]] for r in x]))
    bad = c.choice('bad', [n for n in (2, 3, 4) if n != nch])
    p.weights = np.ones(bad)
    try:
        run(p, num)
        c.true('wrong number of weights is refused', False)
    except ValueError:
        c.true('wrong number of weights is refused', True)


def scenarios(tier):
    big = tier == 'thorough'
    Ts = range(1, 10) if big else (1, 2, 5, 6)
    n = 10 if big else 7
    out = []
    for T in Ts:
        for f in (power, cumavg, reverse, expavg):
            out.append(dict(name='%s_%d' % (f.__name__, T), fn=f, params=dict(T=T, nmax=min(n, T + 1))))
        for sp in (False, True):
            out.append(dict(name='average_%d_%d' % (T, sp), fn=average, params=dict(T=T, nmax=4 if big else 3, amax=6 if big else 4, spectral=sp)))
    for nch in (1, 2, 3):
        out.append(dict(name='chanmix_%d' % nch, fn=chanmix, params=dict(T=3, nch=nch, nmax=4)))
    return out
