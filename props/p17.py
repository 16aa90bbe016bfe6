"""Functional, Capon, eigenvalue, MUSIC and orthogonal beamforming follow their formulas."""
from symx import core
from symx.lib import ac, np, ssum

from .bfh import TYPES, classes, dist, hermitian, posneg, quad, steer, steering, transfer
from .p16 import norm_factor

BOUNDS = ('1-2 grid points, 2 microphones (3 in part, thorough more), one or two frequencies, all distances; arbitrary eigenvalues '
          'and eigenvectors (functional: exponents 1, 2, 4 and nonnegative eigenvalues); every number of the eigenvalue from -4 to 4')
ASSUMPTIONS = ['the eigendecomposition is given by LAPACK (P11 for the matrix itself); the inverse of the Capon matrix exists']


def decomposition(c, nm, k=0, pos=True):
    lam = c.array('lam%d' % k, (nm,), 0 if pos else -1, 3, pos=pos)
    V = c.array('V%d' % k, (nm, nm), -1, 1, kind='cplx')
    return lam, V


def setup(c, ng, nm, stype, custom, nf=1, pos=True):
    rm, r0 = dist(c, ng, nm)
    s = steering(rm, r0, stype, cls=classes()['SV'] if custom else None)
    fr = [0.5 + i for i in range(nf)]
    L = [decomposition(c, nm, i, pos) for i in range(nf)]
    d = classes()['FD']()
    C = np.array([[[ssum([v[i, e] * l[e] * v[j, e].conjugate() for e in range(nm)]) for j in range(nm)] for i in range(nm)] for l, v in L])
    d.csm = C
    d.frequencies = np.array(fr)
    d.eva = np.array([l for l, v in L])
    d.eve = np.array([v for l, v in L])
    H = [[steer(c, a, stype) for a in transfer(c, rm, r0, f)] for f in fr]
    return s, d, C, L, H


def proj(h, v):
    return ssum([h[i].conjugate() * v[i] for i in range(len(h))])


def sq(z):
    return (z * z.conjugate()).real


def comp(h, v, lam, rdiag):
    p = sq(proj(h, v))
    if rdiag:
        p = p - ssum([sq(h[i]) * sq(v[i]) for i in range(len(h))])
    return p * lam


def eig(c, ng, nm, stype, custom, r_diag):
    """one eigenvalue component, chosen from either end"""
    n = c.cint('n', -nm - 1, nm + 1)
    s, d, C, L, H = setup(c, ng, nm, stype, custom, pos=False)
    rn = c.choice('norm', [0.0, 1.5]) if r_diag else 0.0
    b = ac().BeamformerEig(freq_data=d, steer=s, r_diag=r_diag, r_diag_norm=rn, n=n, cached=False)
    k = min(nm - 1, max(nm + n, 0) if n < 0 else n)
    out = b.result[:]
    w = norm_factor(nm, r_diag, rn)
    for g in range(ng):
        v = comp(H[0][g], L[0][1][:, k], L[0][0][k], r_diag) * w
        c.eq('component', out[0, g], posneg(c, v) if r_diag else v)
    # change of the component
    k = nm - 1 - k if nm == 2 else (k + 1) % nm
    b.n = k
    v = comp(H[0][0], L[0][1][:, k], L[0][0][k], r_diag) * w
    c.eq('component after a change', b.result[0, 0], posneg(c, v) if r_diag else v)


def total(c, nm, stype):
    """the components add up to the conventional map"""
    s, d, C, L, H = setup(c, 1, nm, stype, False)
    k = dict(freq_data=d, steer=s, r_diag=False, cached=False)
    c.eq('sum of components', ssum([ac().BeamformerEig(n=i, **k).result[0, 0] for i in range(nm)]),
         ac().BeamformerBase(**k).result[0, 0])


def functional(c, nm, stype, custom, gamma):
    s, d, C, L, H = setup(c, 1, nm, stype, custom)
    h = H[0][0]
    b = ac().BeamformerFunctional(freq_data=d, steer=s, gamma=gamma, cached=False)
    out = b.result[:][0, 0]
    n2 = ssum([sq(x) for x in h])
    rt = lambda x: x if gamma == 1 else (core.sqrt(x) if c.symbolic else np.sqrt(x)) if gamma == 2 else x ** (1 / gamma)
    v = ssum([sq(proj(h, L[0][1][:, e])) * rt(L[0][0][e]) for e in range(nm)]) / n2
    c.eq('functional map', out, v ** gamma * n2)
    if gamma == 1:
        c.eq('exponent one gives the conventional map', out, quad(h, C[0]))
        b.gamma = 2
        c.eq('changed exponent', b.result[0, 0], ac().BeamformerFunctional(freq_data=d, steer=s, gamma=2, cached=False).result[0, 0])


def capon(c, nm, stype, custom, ng=1):
    rm, r0 = dist(c, ng, nm)
    s = steering(rm, r0, stype, cls=classes()['SV'] if custom else None)
    d = ac().PowerSpectraImport(frequencies=np.array([0.5]))
    C = hermitian(c, 'C', nm)
    for i in range(nm):
        C[i, i] = C[i, i] + 7          # regular for all admissible entries
    d.csm = np.array([C])
    out = ac().BeamformerCapon(freq_data=d, steer=s, cached=False).result[:]
    for g, a in enumerate(transfer(c, rm, r0, 0.5)):
        h = steer(c, a, stype)
        if nm == 2:
            adj = np.array([[C[1, 1], -C[0, 1]], [-C[1, 0], C[0, 0]]])
            det = C[0, 0] * C[1, 1] - C[0, 1] * C[1, 0]
        else:
            m = lambda i, j: [[C[p, q] for q in range(3) if q != j] for p in range(3) if p != i]
            dt = lambda x: x[0][0] * x[1][1] - x[0][1] * x[1][0]
            adj = np.array([[(-1) ** (i + j) * dt(m(j, i)) for j in range(3)] for i in range(3)])
            det = ssum([C[0, j] * adj[j, 0] for j in range(3)])
        c.eq('capon map', out[0, g] * quad(h, adj) * nm ** 2, det.real)


def music(c, nm, ng, stype, custom, diff=False):
    n = c.cint('n', 1, nm)
    s, d, C, L, H = setup(c, ng, nm, stype, custom)
    for x in L[0][0]:
        c.assume(x >= 0.25)
    b = ac().BeamformerMusic(freq_data=d, steer=s, n=n, cached=False)
    out = b.result[:]
    ns = nm - min(nm - 1, n)
    if diff:
        comps = [ac().BeamformerEig(freq_data=d, steer=s, n=e, r_diag=False, cached=False).result[0] for e in range(ns)]
        q = [ssum([x[g] for x in comps]) for g in range(ng)]
    else:
        q = [ssum([sq(proj(h, L[0][1][:, e])) * L[0][0][e] for e in range(ns)]) for h in H[0]]
    for x in q:
        c.assume(x > 0.01)
    top = 0
    for g in range(1, ng):
        if q[g] < q[top]:
            top = g
    c.eq('maximum', out[0, top] * 1e10, 4)
    for g in range(1, ng):
        c.eq('music map', out[0, g] * 1e10 * q[g], out[0, 0] * 1e10 * q[0])


def zero(x):
    return (isinstance(x, core.Sym) and not x.p) or (not isinstance(x, core.Sym) and x == 0)


def orth(c, nm, ng, r_diag, stype, again=False, ev=(-1,)):
    """each selected eigenvalue is put at the maximum of the map of its eigenvector"""
    s, d, C, L, H = setup(c, ng, nm, stype, False)
    for x in L[0][0]:
        c.assume(x >= 0.125)
    ev = list(ev)
    b = ac().BeamformerOrth(freq_data=d, steer=s, r_diag=r_diag, cached=False)
    b.eva_list = np.array(ev)
    out = b.result[:]
    if again:
        b.result[0]
        out = b.result[:]
    tot = ssum([L[0][0][n] for n in ev]) / nm
    c.eq('total', ssum([out[0, g] for g in range(ng)]), tot)
    if len(ev) == 1:
        n = ev[0]
        e = [comp(h, L[0][1][:, n], 1, r_diag) for h in H[0]]
        for g in range(ng):
            if not zero(out[0, g]):
                c.eq('level', out[0, g] * nm, L[0][0][n])
                for k in range(ng):
                    c.le('at the maximum', e[k], e[g] + 1e-7)
    b2 = ac().BeamformerOrth(freq_data=d, steer=s, r_diag=r_diag, cached=False)
    b2.n = 2
    c.same('components by number', sorted(b2.eva_list), [-2, -1])


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for t in TYPES:
        k = t.replace(' ', '_')
        for custom in (False, True):
            for rd in (False, True):
                out.append(dict(name='eig_%s_%d%d' % (k, custom, rd), fn=eig, cost=2,
                                params=dict(ng=2, nm=2, stype=t, custom=custom, r_diag=rd)))
                if big:
                    out.append(dict(name='eig3_%s_%d%d' % (k, custom, rd), fn=eig, cost=2,
                                    params=dict(ng=1, nm=3, stype=t, custom=custom, r_diag=rd)))
            for gm in (1, 2, 4):
                if gm == 4 and not big and (custom or t != 'classic'):
                    continue
                out.append(dict(name='functional_%s_%d_%d' % (k, custom, gm), fn=functional,
                                params=dict(nm=2, stype=t, custom=custom, gamma=gm)))
            out.append(dict(name='capon_%s_%d' % (k, custom), fn=capon, params=dict(nm=2, stype=t, custom=custom, ng=2)))
            out.append(dict(name='music_%s_%d' % (k, custom), fn=music, params=dict(nm=2, ng=2, stype=t, custom=custom, diff=t[0] == 't')))
        out.append(dict(name='total_%s' % k, fn=total, params=dict(nm=2, stype=t)))
    for rd in (False, True):
        for ev in ((-1,), (0,), (-1, -2), (0, 0)):
            k = '_'.join(map(str, ev))
            out.append(dict(name='orth_%d_%s' % (rd, k), fn=orth, params=dict(nm=2, ng=2, r_diag=rd, stype='classic', ev=ev, again=ev != (-1,))))
    if big:
        out.append(dict(name='capon3', fn=capon, params=dict(nm=3, stype='classic', custom=False)))
        out.append(dict(name='music3', fn=music, params=dict(nm=3, ng=1, stype='classic', custom=False)))
    return out
