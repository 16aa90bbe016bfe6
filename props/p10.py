"""Block spectra: the discrete Fourier transform of the windowed blocks, its inverse, and auto-/cross-power spectra."""
import cmath
import math

from symx.lib import ac, cat, np, run, src, ssum

BOUNDS = ('signals of 0..9 samples (thorough 0..13), 1-3 channels, FFT lengths 2 and 4 (thorough also 6, 8), all windows, overlaps and scalings, 1..4 snapshots '
          'per block; sample values symbolic, window values concrete')
ASSUMPTIONS = ['scipy.fft.rfft/irfft are the exact transforms']
WIN = {'Rectangular': np.ones, 'Hanning': np.hanning, 'Hamming': np.hamming, 'Bartlett': np.bartlett, 'Blackman': np.blackman}
OV = {'None': 1, '50%': 2, '75%': 4, '87.5%': 8}


def frames(T, bs, ov):
    out, p = [], 0.0
    while int(p) + bs <= T and p + bs <= T:
        out.append(int(p))
        p += bs / OV[ov]
    return out


def dft(x, bs):
    """explicit transform of bs samples: list over frequencies"""
    return [ssum([x[n] * cmath.exp(-2j * math.pi * f * n / bs) for n in range(bs)]) for f in range(bs // 2 + 1)]


def want_rfft(x, bs, window, ov, scaling):
    w = WIN[window](bs)
    out = []
    for p in frames(len(x), bs, ov):
        rows = []
        X = [dft([x[p + n, k] * w[n] for n in range(bs)], bs) for k in range(x.shape[1])]
        for f in range(bs // 2 + 1):
            g = 1 / math.sqrt((w * w).sum() / bs) if scaling in ('none', 'energy') else 1 / w.sum()
            if scaling != 'none' and 0 < f < bs // 2:
                g *= 2
            rows += [X[k][f] * g for k in range(x.shape[1])]
        out.append(rows)
    return out


def mk(x, bs, window='Rectangular', ov='None', scaling='none'):
    r = ac().RFFT(source=src(x, fs=16.0, reuse=True), window=window, overlap=ov, scaling=scaling)
    r.block_size = bs
    return r


def rfft(c, bs, Ts, windows, nmax):
    T = c.choice('T', Ts)
    window = c.choice('window', windows)
    ov = c.choice('ov', list(OV))
    scaling = c.choice('scaling', ['none', 'energy', 'amplitude'])
    num = c.cint('num', 1, nmax)
    x = c.array('x', (T, 2), -2, 2)
    r = mk(x, bs, window, ov, scaling)
    want = want_rfft(x, bs, window, ov, scaling)
    got = run(r, num)
    c.same('number of snapshots', sum(len(b) for b in got), len(want))
    c.same('announced number of snapshots', int(r.num_samples), len(want))
    c.true('full blocks', all(len(b) == num for b in got[:-1]))
    c.same('frequency lines', int(r.num_freqs), bs // 2 + 1)
    c.eq('frequencies', np.asarray(r.freqs), np.arange(bs // 2 + 1) * 16.0 / bs)
    if want:
        c.eq('spectrum', cat(got), np.array(want))


def inverse(c, bs, Tmax, nmax):
    """the inverse transform restores the complete blocks, for any delivered block size"""
    T = c.cint('T', 0, Tmax)
    num = c.cint('num', 1, nmax)
    x = c.array('x', (T, 2), -2, 2)
    i = ac().IRFFT(source=mk(x, bs))
    n = T // bs * bs
    got = run(i, num)
    c.same('number of samples', sum(len(b) for b in got), n)
    c.same('announced number', int(i.num_samples), n)
    c.true('full blocks', all(len(b) == num for b in got[:-1]))
    if n:
        c.eq('signal', cat(got), x[:n])


def auto(c, bs, T, nmax):
    num = c.cint('num', 1, nmax)
    scaling = c.choice('scaling', ['power', 'psd'])
    single = c.bool('single')
    x = c.array('x', (T, 2), -2, 2)
    a = ac().AutoPowerSpectra(source=mk(x, bs), scaling=scaling, single_sided=single)
    g = (2 if single else 1) / bs ** 2 * (bs * 16.0 if scaling == 'psd' else 1)
    X = want_rfft(x, bs, 'Rectangular', 'None', 'none')
    c.eq('auto power', cat(run(a, num)), np.array([[(v * v.conjugate()).real * g for v in r] for r in X]))
    if not single and scaling == 'power':
        # Parseval: two-sided power equals the mean square
        p = cat(run(a, num))
        for b in range(T // bs):
            for k in range(2):
                tot = ssum([p[b, f * 2 + k] * (2 if 0 < f < bs // 2 else 1) for f in range(bs // 2 + 1)])
                ms = ssum([x[b * bs + n, k] * x[b * bs + n, k] for n in range(bs)]) / bs
                c.eq('mean square', tot, ms)


def cross(c, bs, nb, nch, nmax):
    num = c.cint('num', 1, nmax)
    mode = c.choice('mode', ['full', 'upper', 'lower'])
    scaling = c.choice('scaling', ['power', 'psd'])
    x = c.array('x', (nb * bs, nch), -2, 2)
    o = ac().CrossPowerSpectra(source=mk(x, bs, window='Hanning' if bs > 2 else 'Rectangular'), scaling=scaling)
    o.num_channels
    o.calc_mode = mode
    X = want_rfft(x, bs, 'Hanning' if bs > 2 else 'Rectangular', 'None', 'none')
    g = 2 / bs ** 2 * (bs * 16.0 if scaling == 'psd' else 1)
    want = []
    for r in X:
        row = []
        for f in range(bs // 2 + 1):
            for i in range(nch):
                for j in range(nch):
                    if mode == 'full' or (mode == 'upper' and i <= j) or (mode == 'lower' and i >= j):
                        row.append(r[f * nch + i] * r[f * nch + j].conjugate() * g)
        want.append(row)
    got = run(o, num)
    c.same('announced channels', int(o.num_channels), len(want[0]) // (bs // 2 + 1))
    c.eq('cross power', cat(got), np.array(want))


def scenarios(tier):
    big = tier == 'thorough'
    opts = dict(max_s=3000 if big else 500, max_paths=40000)
    out = []
    for bs in ((2, 4, 6, 8) if big else (2, 4)):
        wins = list(WIN) if bs > 2 else ['Rectangular', 'Hamming']
        for w in wins:
            out.append(dict(name='rfft_%d_%s' % (bs, w), fn=rfft, opts=opts,
                            params=dict(bs=bs, Ts=[0, bs - 1, bs, bs + 1, 2 * bs + bs // 2, 13] if big else [0, bs - 1, bs, 2 * bs + 1, 4 * bs],
                                        windows=[w], nmax=4 if big else 3)))
        out.append(dict(name='inverse_%d' % bs, fn=inverse, params=dict(bs=bs, Tmax=13 if big else 9, nmax=9 if big else 6), opts=opts))
        out.append(dict(name='auto_%d' % bs, fn=auto, params=dict(bs=bs, T=2 * bs, nmax=3), opts=opts))
        for nch in (1, 2, 3):
            out.append(dict(name='cross_%d_%d' % (bs, nch), fn=cross, params=dict(bs=bs, nb=2, nch=nch, nmax=3), opts=opts))
    return out
