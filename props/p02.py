"""Sample and channel selection delivers exactly the selected part, block size independent."""
from symx.lib import ac, np, run, cat, src, new, setattrs

BOUNDS = ('1..6 samples (thorough 1..8), block sizes 1..5 (thorough 1..9), every start/stop in -T-1..T+1 or open, every '
          'subset of invalid channels of 2 (thorough 3) channels; all sample values symbolic')


def _expect(c, T, nch, x):
    s = c.cint('start', -T - 1, T + 1)
    stop = None if c.bool('open') else c.cint('stop', -T - 1, T + 1)
    inv = [i for i in range(nch) if c.bool('inv%d' % i)]
    return s, stop, inv


def select(c, cls, T, nch, nmax, chans):
    x = c.array('x', (T, nch), -2, 2)
    s = c.cint('start', -T - 1, T + 1)
    stop = None if c.bool('open') else c.cint('stop', -T - 1, T + 1)
    inv = c.choice('inv', chans)
    num = c.cint('num', 1, nmax)
    if cls == 'out':
        o = ac().MaskedTimeOut(source=src(x), start=s, stop=stop, invalid_channels=inv)
    else:
        o = new(ac().MaskedTimeSamples, data=x, start=s, stop=stop, invalid_channels=inv, sample_freq=8.0)
    keep = [i for i in range(nch) if i not in inv]
    sl = list(range(T))[slice(s, stop)]
    if not sl:
        try:
            got = run(o, num)
        except OSError:
            c.true('empty selection refused', True)
            return
        c.same('empty selection delivers nothing', sum(len(b) for b in got), 0)
        return
    c.same('announced samples', int(o.num_samples), len(sl))
    c.same('announced channels', int(o.num_channels), len(keep))
    got = run(o, num)
    c.true('full blocks', all(len(b) == num for b in got[:-1]) and 1 <= len(got[-1]) <= num)
    c.eq('selected part', cat(got), x[sl][:, keep])


def change(c, cls, T, num):
    """changing the selection of an object already used takes effect"""
    x = c.array('x', (T, 2), -2, 2)
    if cls == 'out':
        o = ac().MaskedTimeOut(source=src(x))
    else:
        o = new(ac().MaskedTimeSamples, data=x, sample_freq=8.0)
    c.eq('all', cat(run(o, num)), x)
    s = c.cint('start', 0, T - 1)
    e = c.cint('stop', s + 1, T)
    ch = c.choice('inv', [[], [0], [1]])
    d0 = o.digest
    o.start, o.stop, o.invalid_channels = s, e, ch
    keep = [i for i in range(2) if i not in ch]
    c.eq('new part', cat(run(o, num)), x[s:e][:, keep])
    c.same('announced samples', int(o.num_samples), e - s)
    c.same('announced channels', int(o.num_channels), len(keep))
    if (s, e, ch) != (0, T, []):
        c.true('identity changed', o.digest != d0)


def calib(c, T):
    """the deprecated calibration of masked samples uses the factors of the kept channels"""
    x = c.array('x', (T, 3), -2, 2)
    f = c.array('f', (3,), 0.5, 2)
    inv = c.choice('inv', [[], [0], [1], [0, 2]])
    cal = new(ac().Calib, data=f)
    o = new(ac().MaskedTimeSamples, data=x, sample_freq=8.0, invalid_channels=inv, calib=cal)
    keep = [i for i in range(3) if i not in inv]
    num = c.cint('num', 1, T)
    c.eq('calibrated', cat(run(o, num)), x[:, keep] * f[keep][np.newaxis])


def plain(c, T):
    x = c.array('x', (T, 2), -2, 2)
    num = c.cint('num', 1, T + 1)
    o = new(ac().TimeSamples, data=x, sample_freq=8.0)
    got = run(o, num)
    c.same('announced samples', int(o.num_samples), T)
    c.eq('all samples', cat(got), x)
    f = c.array('f', (2,), 0.5, 2)
    c.eq('calibrated', cat(run(new(ac().TimeSamples, data=x, sample_freq=8.0, calib=new(ac().Calib, data=f)), num)),
         x * f[np.newaxis])


def calib_block(c, T):
    """calibration block: channel factors, excluded factors skipped"""
    f = c.array('f', (3,), 0.5, 2)
    inv = c.choice('inv', [[], [0], [1], [2], [0, 2]])
    keep = [i for i in range(3) if i not in inv]
    x = c.array('x', (T, len(keep)), -2, 2)
    num = c.cint('num', 1, T + 1)
    o = new(ac().Calib, data=f, invalid_channels=inv, source=src(x))
    c.eq('calibrated', cat(run(o, num)), x * f[keep][np.newaxis])
    g = c.array('g', (3,), 0.5, 2)
    d0 = o.digest
    setattrs(o, data=g)
    c.eq('new factors', cat(run(o, num)), x * g[keep][np.newaxis])


def calib_spectra(c):
    """calibration of spectra: one factor per channel and line, also behind blocks that keep them"""
    a = ac()
    nch = c.choice('channels', [1, 2])
    x = c.array('x', (4, nch), -2, 2)
    f = c.array('f', (2 * nch + 1,), 0.5, 2)
    inv = c.choice('inv', [[], [0], [2]])
    keep = [i for i in range(2 * nch + (len(inv) > 0)) if i not in inv]
    r = a.RFFT(source=src(x), block_size=2, window='Rectangular')
    s = a.Average(source=r, num_per_average=1) if c.bool('average') else r
    o = new(a.Calib, data=f[:2 * nch + (len(inv) > 0)], invalid_channels=inv, source=s)
    num = c.cint('num', 1, 3)
    want = cat(run(r, num))
    c.same('calibrated spectra', tuple(cat(run(o, num)).shape), (2, 2 * nch))
    c.eq('calibrated spectra', cat(run(o, num)), want * f[keep][np.newaxis])
    for n in (2 * nch + 1, 2 * nch + 2):
        o = new(a.Calib, data=np.ones(n + 1), invalid_channels=[0] if n % 2 else [], source=s)
        try:
            next(o.result(num))
            ok = True
        except ValueError:
            ok = False
        c.same('factors that do not fit are refused', ok, False)


def scenarios(tier):
    big = tier == 'thorough'
    out = [dict(name='calib_spectra', fn=calib_spectra)]
    for cls in ('out', 'samples'):
        for T in ((1, 2, 4, 6, 8) if big else (1, 3, 5)):
            ch = [[], [0], [1]] if T < 6 else [[], [1]]
            out.append(dict(name='select_%s_%d' % (cls, T), fn=select, cost=T,
                            params=dict(cls=cls, T=T, nch=2, nmax=T + 1 if big else min(T + 1, 4), chans=ch if big or T < 5 else [[], [0]]),
                            opts=dict(max_paths=40000, max_s=3000 if big else 400)))
        out.append(dict(name='change_' + cls, fn=change, params=dict(cls=cls, T=4, num=3)))
        out.append(dict(name='three_%s' % cls, fn=select, params=dict(cls=cls, T=2, nch=3, nmax=2, chans=[[], [0], [1], [2], [0, 2], [0, 1]])))
    out.append(dict(name='calib_masked', fn=calib, params=dict(T=3)))
    out.append(dict(name='calib_block', fn=calib_block, params=dict(T=3)))
    out.append(dict(name='plain', fn=plain, params=dict(T=4)))
    return out
