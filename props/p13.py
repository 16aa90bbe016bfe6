"""Imported cross-spectral matrices behave like a new object with the same content, whatever was set or read before."""
import types

from symx import core, ident
from symx.lib import ac, np, ssum

from .bfh import hermitian, quad, steer, steering, transfer

BOUNDS = ('matrices with up to 2 lines and 2 channels (eigenvalues 2 channels, selections up to 4 lines), every Hermitian content; histories of up to 2 '
          '(thorough 3) settings of matrix, frequencies (array, list, number), index and frequency limits, each followed by a read or not; bands of 1/1 to 1/12 octave')
ASSUMPTIONS = ['the hash function is injective', 'eigenvalues of 2x2 matrices in closed form stand in for LAPACK', 'arrays are replaced, not changed in place']


def eigh(a):
    """closed form for one or two channels, off-diagonal element not zero"""
    if not any(core._is_sym(v) for v in np.ravel(a)):
        return np.linalg.eigh(np.array(a, dtype=complex))
    a = np.asarray(a)
    if a.shape == (1, 1):
        return np.array([a[0, 0].real]), np.array([[1.0]])
    p, d, b = a[0, 0].real, a[1, 1].real, a[0, 1]
    h, m = (p - d) / 2, (p + d) / 2
    bb = (b * b.conjugate()).real
    s = core.sqrt(h * h + bb)
    ev = np.empty(2, dtype=object)
    V = np.empty((2, 2), dtype=object)
    for i, l in enumerate((m - s, m + s)):
        n = core.sqrt(bb + (l - p) * (l - p))
        ev[i] = l
        V[0, i], V[1, i] = b / n, (l - p) / n
    from symx.arrays import SymArray
    return ev.view(SymArray), V.view(SymArray)


def stand_in(c):
    if c.symbolic:
        ac().spectra.linalg = types.SimpleNamespace(eigh=eigh)


def matrix(c, name, nf, nm=2):
    C = [hermitian(c, '%s%d' % (name, i), nm) for i in range(nf)]
    for m in C:
        if nm > 1:
            b = m[0, 1]
            c.assume((b.real > 0.1) if c.symbolic else b.real > 0.1)
    return np.array(C) if not c.symbolic else np.stack(C)


def content(c, C):
    """matrix, eigenvalues and eigenvectors of a new object"""
    stand_in(c)
    p = ac().PowerSpectraImport(csm=C, frequencies=np.arange(1.0, 1 + len(C)))
    return p


def decomposition(c, nf, nm):
    stand_in(c)
    C = matrix(c, 'C', nf, nm)
    p = ac().PowerSpectraImport(csm=C, frequencies=np.arange(1.0, 1 + nf))
    c.same('shape', tuple(np.shape(p.csm)), (nf, nm, nm))
    c.same('number of channels', int(p.num_channels), nm)
    c.eq('the matrix is the given one', np.asarray(p.csm), np.asarray(C))
    w, V = p.eva, p.eve
    c.same('shape of the eigenvalues', (tuple(w.shape), tuple(V.shape)), ((nf, nm), (nf, nm, nm)))
    for f in range(nf):
        for k in range(nm):
            if k:
                c.le('ascending order', w[f, k - 1], w[f, k])
            for i in range(nm):
                lhs = ssum([C[f, i, j] * V[f, j, k] for j in range(nm)])
                c.eq('eigenvectors belong to the eigenvalues', lhs, w[f, k] * V[f, i, k])
        c.eq('sum of the eigenvalues', ssum(list(w[f])), ssum([C[f, i, i].real for i in range(nm)]))
    for f in range(nf):
        c.eq('eigenvalues of one line', np.asarray(p.synthetic_ev(1.0 + f)), np.asarray(w[f]))


SET = {'csm': ['A', 'B'], 'frequencies': ['array', 'other', 'list', 'number']}
FR = {'array': np.array([1.0, 2.0]), 'other': np.array([2.0, 5.0]), 'list': [1.0, 4.0], 'number': 3.0}


def history(c, steps):
    stand_in(c)
    M = dict(A=matrix(c, 'A', 2), B=matrix(c, 'B', 1))
    val = {'csm': M, 'frequencies': FR}

    def give(p, k, v):
        x = val[k][v]
        setattr(p, k, list(x) if isinstance(x, list) else np.array(x, copy=True, subok=True) if np.ndim(x) else x)

    def limits(p, k, v):
        setattr(p, k, v)
    with ident.tokens(c):
        p = ac().PowerSpectraImport()
        last = {}
        give(p, 'frequencies', 'array')
        give(p, 'csm', 'A')
        last.update(frequencies='array', csm='A')
        sel = {}
        reads = 0
        for s in range(steps):
            if c.bool('read%d' % s):
                reads += 1
                p.csm, p.eva, p.eve, p.digest, p.basename, p.num_channels, p.fftfreq(), p.indices, p.ind_low, p.ind_high
            k = c.choice('what%d' % s, ['csm', 'frequencies', 'ind_low', 'ind_high', 'freq_range'])
            if k in SET:
                v = c.choice('v%d' % s, SET[k])
                give(p, k, v)
                last[k] = v
            else:
                v = c.choice('v%d' % s, {'ind_low': [0, 1], 'ind_high': [None, 1], 'freq_range': [(1.5, None), (0.0, 2.5)]}[k])
                limits(p, k, v)
                if k == 'freq_range':
                    sel = {k: v}
                else:
                    sel.pop('freq_range', None)
                    sel[k] = v
        n = ac().PowerSpectraImport()
        for k in ('csm', 'frequencies'):
            give(n, k, last[k])
        seldone = dict(sel)
        for k, v in seldone.items():
            limits(n, k, v)
        C = val['csm'][last['csm']]
        f = np.atleast_1d(np.array(val['frequencies'][last['frequencies']]))
        c.same('frequencies', [float(x) for x in p.fftfreq()], [float(x) for x in f])
        c.eq('matrix', np.asarray(p.csm), np.asarray(C))
        c.same('number of channels', int(p.num_channels), C.shape[1])
        c.true('identity of a new object', ident.same(p.digest, n.digest))
        c.true('name of the cache file of a new object', ident.same(p.basename, n.basename))
        c.eq('eigenvalues of a new object', np.asarray(p.eva), np.asarray(n.eva))
        c.eq('eigenvectors of a new object', np.asarray(p.eve), np.asarray(n.eve))
        if 'freq_range' not in sel or 'ind_low' not in sel:
            c.same('selection of a new object', state(p), state(n))
        o = ac().PowerSpectraImport()
        other = {'A': 'B', 'B': 'A'}[last['csm']]
        give(o, 'frequencies', last['frequencies'])
        give(o, 'csm', other)
        c.true('identity differs for another matrix', _no(ident.same(p.digest, o.digest)))


def _no(b):
    return (~b) if hasattr(b, 'e') else not b


def state(q):
    return ([int(i) for i in q.indices], int(q.ind_low), q.ind_high if q.ind_high is None else int(q.ind_high),
            [None if v is None else float(v) for v in q.freq_range])


def identity(c):
    """equal identities only for equal content"""
    A, B = matrix(c, 'A', 1), matrix(c, 'B', 1)
    f, g = c.real('f', 1, 5), c.real('g', 1, 5)
    with ident.tokens(c):
        def mk(M, x):
            p = ac().PowerSpectraImport()
            p.csm = M
            p.frequencies = np.array([x]) if not c.symbolic else np.array([x], dtype=object)
            return p
        p, q = mk(A, f), mk(B, g)
        eqs = [A[0, i, j].real == B[0, i, j].real for i in range(2) for j in range(2)]
        eqs += [A[0, 0, 1].imag == B[0, 0, 1].imag, f == g]
        s = ident.same(p.digest, q.digest)
        if c.symbolic:
            both = core.and_(*eqs)
            if s is False:
                c.true('equal identities for equal content', ~both)
            else:
                c.true('equal identities exactly for equal content', (s & both) | (~s & ~both))
        else:
            c.true('equal identities exactly for equal content', bool(s) == all(bool(e) for e in eqs))


def synthetic(c, nf, num):
    """bands of eigenvalues: sum over the lines of the band, or the next line above the lower limit"""
    stand_in(c)
    freq = np.array([1.0, 1.25, 2.0, 3.0][:nf])
    C = np.stack([hermitian(c, 'C%d' % i, 1) for i in range(nf)])
    p = ac().PowerSpectraImport(csm=C, frequencies=freq)
    x = c.real('frequency', 0.5, 4)
    lo, hi = x * 2.0 ** (-0.5 / num), x * 2.0 ** (0.5 / num)
    c.assume(lo <= freq[-1] if not c.symbolic else lo <= float(freq[-1]))
    r = p.synthetic_ev(x, num)
    inside = [i for i in range(nf) if (lo <= float(freq[i])) and (hi > float(freq[i]))]
    if inside:
        c.eq('sum over the lines of the band', r[0], ssum([C[i, 0, 0].real for i in inside]))
    else:
        nx = [i for i in range(nf) if lo <= float(freq[i])][0]
        c.eq('next line if there is none in the band', r[0], C[nx, 0, 0].real)


def single(c, nf):
    stand_in(c)
    freq = np.array([1.0, 1.25, 2.0, 3.0][:nf])
    C = np.stack([hermitian(c, 'C%d' % i, 1) for i in range(nf)])
    p = ac().PowerSpectraImport(csm=C, frequencies=freq)
    x = c.real('frequency', 0.5, 3)
    c.assume(x <= float(freq[-1]))
    r = p.synthetic_ev(x)
    nx = [i for i in range(nf) if x <= float(freq[i])][0]
    c.eq('line at the frequency or the next one', r[0], C[nx, 0, 0].real)


def refused(c):
    shape = c.choice('shape', [(2,), (2, 2), (1, 2, 3), (2, 1, 2), (1, 1, 2, 2), (2, 2, 1), (1, 2, 2), (3, 1, 1), (2, 3, 3)])
    p = ac().PowerSpectraImport(frequencies=np.array([1.0]))
    old = c.bool('old')
    if old:
        p.csm = np.ones((1, 2, 2)) * 7.0
    good = len(shape) == 3 and shape[1] == shape[2]
    X = c.array('x', shape, -1, 1)
    try:
        p.csm = X
        ok = True
    except ValueError:
        ok = False
    c.same('matrices are square, one per line', ok, good)
    if old and not ok:
        c.eq('a refused matrix is not used', np.asarray(p.csm).ravel(), np.full(4, 7.0))
    if ok:
        c.eq('an accepted matrix is used', np.asarray(p.csm), np.asarray(X))


def fmap(c):
    """a map computed from an imported matrix follows a new matrix and new frequencies"""
    a = ac()
    rm = c.array('rm', (1, 2), 0.5, 3, pos=True)
    r0 = c.array('r0', (1,), 0.5, 3, pos=True)
    s = steering(rm, r0, 'true level')
    M = dict(A=matrix(c, 'A', 1), B=matrix(c, 'B', 1))
    p = a.PowerSpectraImport(frequencies=np.array([0.5]))
    p.csm = M['A']
    b = a.BeamformerBase(freq_data=p, steer=s, r_diag=False, cached=False)
    ck, fk = 'A', 0.5
    for i in range(2):
        if c.bool('read%d' % i):
            b.result[:]
        k = c.choice('what%d' % i, ['A', 'B', 0.5, 1.0])
        if isinstance(k, str):
            p.csm = M[k]
            ck = k
        else:
            p.frequencies = np.array([k])
            fk = k
    h = steer(c, transfer(c, rm, r0, fk)[0], 'true level')
    out = b.result[:]
    c.eq('map', out[0][0], quad(h, M[ck][0]))


def scenarios(tier):
    big = tier == 'thorough'
    o = dict(max_s=3000 if big else 500, max_paths=60000)
    out = [dict(name='decomposition_1x2', fn=decomposition, params=dict(nf=1, nm=2), opts=o),
           dict(name='decomposition_2x1', fn=decomposition, params=dict(nf=2, nm=1), opts=o),
           dict(name='history', fn=history, params=dict(steps=3 if big else 2), opts=o, cost=5),
           dict(name='identity', fn=identity, opts=o), dict(name='refused', fn=refused, opts=o), dict(name='map', fn=fmap, opts=o, cost=2)]
    out += [dict(name='synthetic_%d' % n, fn=synthetic, params=dict(nf=4 if big else 3, num=n), opts=o) for n in (1, 3, 12)]
    out += [dict(name='single', fn=single, params=dict(nf=4 if big else 3), opts=o)]
    if big:
        out += [dict(name='decomposition_2x2', fn=decomposition, params=dict(nf=2, nm=2), opts=o)]
    return out
