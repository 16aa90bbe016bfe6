"""The cross-spectral matrix is the average over the blocks of the outer products of the windowed
block spectra, Hermitian, positive semidefinite, and the same by either processing route."""
from symx.lib import ac, cat, np, run, src, ssum

from .p10 import WIN, frames, mk, want_rfft

BOUNDS = ('signals of at least one block, up to 9 samples (thorough 33), 1-3 channels, FFT lengths 2 and 4 (thorough 8), all windows and overlaps; '
          'sample values and the vector of the quadratic form symbolic')
ASSUMPTIONS = ['scipy.fft.rfft is the exact transform; single precision is treated as exact']


def ps(x, bs, window='Rectangular', ov='None', **k):
    p = ac().PowerSpectra(source=src(x, fs=16.0, reuse=True), window=window, overlap=ov, cached=False, **k)
    p.__dict__['block_size'] = bs
    return p


def parts(x, bs, window, ov):
    """list over blocks of (frequency x channel) spectra without any scaling"""
    import math
    w = WIN[window](bs)
    n = x.shape[1]
    g = math.sqrt((w * w).sum() / bs)
    return [np.array(r).reshape(bs // 2 + 1, n) * g for r in want_rfft(x, bs, window, ov, 'none')]


def definition(c, bs, nch, Ts, windows):
    T = c.choice('T', Ts)
    window = c.choice('window', windows)
    ov = c.choice('ov', ['None', '50%', '75%', '87.5%'])
    x = c.array('x', (T, nch), -2, 2)
    p = ps(x, bs, window, ov)
    w = WIN[window](bs)
    X = parts(x, bs, window, ov)
    nf = bs // 2 + 1
    csm = p.csm[:]
    c.same('shape', tuple(csm.shape), (nf, nch, nch))
    tot = np.array([[[ssum([b[f, i] * b[f, j].conjugate() for b in X]) for j in range(nch)] for i in range(nch)]
                    for f in range(nf)])
    c.eq('sum over the complete blocks', csm * (p.num_blocks * bs * (w * w).sum() / 2), tot)
    c.eq('hermitian', csm, csm.conj().transpose(0, 2, 1))
    if T % bs == 0 or (T - bs) * {'None': 1, '50%': 2, '75%': 4, '87.5%': 8}[ov] % bs == 0:
        c.eq('average over the blocks', csm, tot * (2 / bs / (w * w).sum() / len(X)))
    else:
        c.eq('normalisation for an incomplete last block', csm, tot * (2 / bs / (w * w).sum() / len(X)))


def psd(c, bs, nch):
    """v^H C v is a sum of squares for every vector v, and the diagonal is real and not negative"""
    x = c.array('x', (2 * bs, nch), -2, 2)
    v = c.array('v', (nch,), -2, 2, kind='cplx')
    ov = c.choice('ov', ['None', '50%'])
    p = ps(x, bs, 'Rectangular', ov)
    csm = p.csm[:]
    X = parts(x, bs, 'Rectangular', ov)
    for f in range(bs // 2 + 1):
        q = ssum([v[i].conjugate() * csm[f, i, j] * v[j] for i in range(nch) for j in range(nch)])
        sq = [ssum([v[i].conjugate() * b[f, i] for i in range(nch)]) for b in X]
        c.eq('quadratic form', q, ssum([(s * s.conjugate()).real for s in sq]) * (2 / bs / bs / len(X)))
        for i in range(nch):
            c.eq('diagonal is real', csm[f, i, i].imag, 0)
            c.true('diagonal is not negative', csm[f, i, i].real >= 0)


def routes(c, bs, nch):
    """block spectra, cross-power spectra and average give the same matrix"""
    ov = c.choice('ov', ['None', '50%'])
    window = c.choice('window', ['Rectangular', 'Hamming'])
    x = c.array('x', (2 * bs, nch), -2, 2)
    r = ac().RFFT(source=src(x, fs=16.0), window=window, overlap=ov)
    r.block_size = bs
    cp = ac().CrossPowerSpectra(source=r)
    nb = len(frames(2 * bs, bs, ov))
    av = cat(run(ac().Average(source=cp, num_per_average=nb), 1))
    c.eq('same matrix', av.reshape(bs // 2 + 1, nch, nch), ps(x, bs, window, ov).csm[:])


def linear(c, bs):
    """scaling the signal by a scales the matrix by a squared; permuting channels permutes it"""
    x = c.array('x', (bs, 2), -2, 2)
    a = c.real('a', -2, 2)
    k = ps(x, bs).csm[:]
    c.eq('scaled', ps(x * a, bs).csm[:], k * a * a)
    c.eq('permuted', ps(x[:, ::-1], bs).csm[:], k[:, ::-1, ::-1])


def change(c, bs):
    """after any change of the settings the matrix is the one of a new object"""
    x = c.array('x', (2 * bs, 2), -2, 2)
    y = c.array('y', (bs, 2), -2, 2)
    p = ps(x, bs)
    cur = dict(d=x, tag='src', window='Rectangular', ov='None', bs=bs)
    for s in range(2):
        p.csm
        what = c.choice('what%d' % s, ['window', 'overlap', 'source', 'block'])
        if what == 'window':
            p.window = cur['window'] = c.choice('w%d' % s, ['Hamming', 'Rectangular'])
        elif what == 'overlap':
            p.overlap = cur['ov'] = c.choice('o%d' % s, ['50%', 'None'])
        elif what == 'block':
            b = c.choice('b%d' % s, [2, bs])
            old = p.block_size
            p.__dict__['block_size'] = cur['bs'] = b
            p.trait_property_changed('block_size', old, b)
        else:
            cur['d'] = y
            p.source = src(y, fs=16.0, tag='other')
    c.eq('matrix after the changes', p.csm[:], ps(cur['d'], cur['bs'], cur['window'], cur['ov']).csm[:])


def scenarios(tier):
    big = tier == 'thorough'
    opts = dict(max_s=3000 if big else 500, max_paths=40000)
    out = []
    for bs in ((2, 4, 8) if big else (2, 4)):
        for nch in (1, 2, 3) if bs < 8 else (1, 2):
            for w in (['Rectangular', 'Hanning', 'Hamming', 'Bartlett', 'Blackman'] if bs > 2 else ['Rectangular', 'Hamming']):
                out.append(dict(name='definition_%d_%d_%s' % (bs, nch, w), fn=definition, opts=opts, cost=nch,
                                params=dict(bs=bs, nch=nch, windows=[w],
                                            Ts=[bs, bs + bs // 2, 2 * bs + 1] + ([3 * bs, 4 * bs + 1] if big else []))))
        for nch in (1, 2) if bs == 4 else (1, 2, 3):
            out.append(dict(name='psd_%d_%d' % (bs, nch), fn=psd, params=dict(bs=bs, nch=nch), opts=opts))
        out.append(dict(name='routes_%d' % bs, fn=routes, params=dict(bs=bs, nch=2), opts=opts))
        out.append(dict(name='linear_%d' % bs, fn=linear, params=dict(bs=bs), opts=opts))
        if bs > 2:
            out.append(dict(name='change_%d' % bs, fn=change, params=dict(bs=bs), opts=opts))
    return out
