"""DAMAS, CLEAN and CLEAN-SC perform the documented steps for every cross spectral matrix."""
from symx import core
from symx.lib import ac, np, ssum

from .bfh import TYPES, classes, hermitian, posneg, quad, steer, steering, transfer
from .p16 import norm_factor
from .p18 import oracle

BOUNDS = ('2-3 grid points, 2-3 microphones at fixed positions; every Hermitian matrix with entries up to 2; up to 3 iterations, damping '
          '0.5 and 1; CLEAN-SC: every level of given matrices, two frequencies')
ASSUMPTIONS = ['point spread functions as in P18, maps as in P16; positions are fixed, levels symbolic']
CS = 2 * np.pi
TOL = 2e-5           # phases are computed in single precision
GEO = {2: ([[1.0, 1.5], [1.25, 0.75]], [1.0, 1.5]),
       3: ([[1.0, 1.5, 2.0], [1.25, 0.75, 1.0], [2.0, 1.0, 0.5]], [1.0, 1.5, 0.75])}


def setup(c, ng, nm, stype, custom, r_diag, nf=1):
    rm, r0 = GEO[max(ng, nm)]
    rm, r0 = np.array(rm)[:ng, :nm], np.array(r0)[:ng]
    # sound speed chosen so that the single precision phases of the code are exact
    s = steering(rm, r0, stype, cls=classes()['SV'] if custom else None, cs=CS)
    fr = [1.0 + i for i in range(nf)]
    return s, rm, r0, fr


def fd(C, fr):
    d = ac().PowerSpectraImport()
    d.csm = np.array(C)
    d.frequencies = np.array(fr)
    return d


class _N:
    symbolic = False


def fixed(x):
    """computed without symbols"""
    return x


def maps(c, rm, r0, stype, f, C, nm, r_diag):
    H = [steer(_N, a, stype) for a in transfer(_N, rm, r0, f, CS)]
    w = norm_factor(nm, r_diag, 0.0)
    y = [quad(h, C, r_diag) * w for h in H]
    return [posneg(c, v) for v in y] if r_diag else y


def mx(c, a, b):
    return core.maximum(a, b) if c.symbolic else max(a, b)


def matrix(c, rm, r0, f, nm, levels):
    """every matrix, or uncorrelated sources of every level and noise"""
    if not levels:
        return hermitian(c, 'C', nm)
    C = c.real('noise', 0, 2) * np.eye(nm).astype(object if c.symbolic else complex)
    if c.symbolic:
        from symx.arrays import SymArray
        C = C.view(SymArray)
    for i, a in enumerate(transfer(_N, rm, r0, f, CS)):
        C = C + c.real('level%d' % i, 0, 2) * np.outer(a, np.conj(a))
    return C


def damas(c, ng, nm, stype, custom, r_diag, n_iter, levels=False):
    damp = c.choice('damp', [1.0, 0.5])
    mode = c.choice('calcmode', ['full', 'block', 'single']) if n_iter == 1 else 'full'
    s, rm, r0, fr = setup(c, ng, nm, stype, custom, r_diag)
    C = matrix(c, rm, r0, fr[0], nm, levels)
    b = ac().BeamformerDamas(freq_data=fd([C], fr), steer=s, r_diag=r_diag, n_iter=n_iter, damp=damp, calcmode=mode, cached=False)
    out = b.result[:][0]
    A = oracle(_N, rm, r0, stype, fr[0], CS)
    y = maps(c, rm, r0, stype, fr[0], C, nm, r_diag)
    x = list(y)
    for _ in range(n_iter):
        for g in range(ng):
            v = (1 - damp) * x[g] + damp * (y[g] - ssum([float(A[g, k]) * x[k] for k in range(ng) if k != g]))
            x[g] = mx(c, v, 0)
    c.near('map', out, np.array(x), TOL)
    if n_iter:
        c.le('no negative levels', 0, out)


def gap(c, a, b):
    """the order of two numbers is not a matter of rounding"""
    if c.symbolic:
        c.assume(core.or_(a - b > 1e-4, b - a > 1e-4))
    else:
        c.assume(abs(a - b) > 1e-4)


def clean(c, ng, nm, stype, custom, r_diag, n_iter, levels=False):
    damp = c.choice('damp', [1.0, 0.5])
    mode = c.choice('calcmode', ['block', 'full', 'single']) if ng == 2 and n_iter == 1 else 'block'
    s, rm, r0, fr = setup(c, ng, nm, stype, custom, r_diag)
    C = matrix(c, rm, r0, fr[0], nm, levels)
    b = ac().BeamformerClean(freq_data=fd([C], fr), steer=s, r_diag=r_diag, n_iter=n_iter, damp=damp, calcmode=mode, cached=False)
    out = b.result[:][0]
    A = oracle(_N, rm, r0, stype, fr[0], CS)
    y = maps(c, rm, r0, stype, fr[0], C, nm, r_diag)
    x = [0.0] * ng
    for k in range(n_iter):
        for i in range(ng):                # no equal maxima
            for j in range(i):
                gap(c, y[i], y[j])
        g = 0
        for j in range(1, ng):
            if y[j] > y[g]:
                g = j
        before = ssum([abs(v) for v in y])
        amp = damp * y[g]
        x[g] = x[g] + amp
        y = [y[j] - float(A[j, g]) * amp for j in range(ng)]
        after = ssum([abs(v) for v in y])
        gap(c, before, after)
        if not before > after:
            break
        if not any(bool(v > 1e-5) for v in y):
            break
    c.near('map', out, np.array(x), TOL)


def matrices(rm, r0, f, nm, kind):
    A = np.array(transfer(_N, rm, r0, f, CS))
    if kind == 'one':
        return np.outer(A[1], A[1].conj())
    if kind == 'two':
        return np.outer(A[1], A[1].conj()) + 0.3 * np.outer(A[0], A[0].conj()) + 0.125 * np.eye(nm)
    B = np.array([[1.0, 0.5 - 0.25j, 0.25j], [0.25, 1.5j, 1.0], [-0.5, 0.125, 1.0 + 0.5j]])[:nm, :nm]
    return B @ B.conj().T


def cleansc(c, ng, nm, stype, custom, r_diag):
    n_iter = c.choice('n_iter', [0, 1, 3])
    damp = c.choice('damp', [0.6, 1.0])
    kinds = [c.choice('matrix%d' % i, ['one', 'two', 'dense']) for i in range(2)]
    s, rm, r0, fr = setup(c, ng, nm, stype, custom, r_diag, 2)
    p = [c.real('p%d' % i, 0.001, 1000, pos=True) for i in range(2)]
    M = [matrices(rm, r0, f, nm, k) for f, k in zip(fr, kinds)]
    k = dict(steer=s, r_diag=r_diag, n_iter=n_iter, damp=damp, cached=False)
    C = [m * q for m, q in zip(M, p)]
    keep = [x.copy() for x in C]
    d = fd(C, fr)
    out = ac().BeamformerCleansc(freq_data=d, **k).result[:]
    for i in range(2):
        ref = ac().BeamformerCleansc(freq_data=fd([M[i]], [fr[i]]), **k).result[:][0]
        c.near('each frequency for itself, at every level', out[i] / p[i], ref, TOL)
        c.eq('the matrix is left alone', d.csm[i], keep[i])
        if n_iter == 1:
            base = [float(np.real(v)) for v in maps(_N, rm, r0, stype, fr[i], M[i], nm, r_diag)]
            g = int(np.argmax(base))
            c.near('first source', out[i] / p[i], np.array([damp * base[g] if j == g else 0.0 for j in range(ng)]), TOL)


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for t in TYPES:
        k = t.replace(' ', '_')
        for custom in (False, True):
            for rd in (False, True):
                if custom and rd and not big:
                    continue
                kw = dict(stype=t, custom=custom, r_diag=rd)
                nm = '%s_%d%d' % (k, custom, rd)
                for it in (1, 2) + ((0, 3) if big or (t == 'true level' and not custom) else ()):
                    out.append(dict(name='damas_%s_%d' % (nm, it), fn=damas, params=dict(ng=2, nm=2, n_iter=it, **kw), cost=1 + 4 * it))
                    out.append(dict(name='clean_%s_%d' % (nm, it), fn=clean, params=dict(ng=2, nm=2, n_iter=max(it, 1), **kw)))
                if big or (t == 'true location' and not custom):
                    out.append(dict(name='damas3_%s' % nm, fn=damas, params=dict(ng=3, nm=3, n_iter=2 if big else 1, levels=True, **kw), cost=9))
                    out.append(dict(name='clean3_%s' % nm, fn=clean, params=dict(ng=3, nm=3, n_iter=2, levels=True, **kw), cost=9))
                out.append(dict(name='cleansc_%s' % nm, fn=cleansc, params=dict(ng=2, nm=2, **kw), cost=2, rtol=1e-4))
    return out
