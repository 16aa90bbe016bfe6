"""The conventional beamforming map is the quadratic form of the steering vectors with the cross spectral matrix."""
from symx.lib import ac, np, ssum

from .bfh import TYPES, classes, dist, hermitian, posneg, quad, steer, steering, transfer

BOUNDS = ('2 frequencies, 1-2 grid points, 2-3 microphones (thorough 4), every Hermitian matrix with entries up to 2, any positive distances; '
          'steering vector types, custom steering vectors, diagonal removal and loss normalisation')
ASSUMPTIONS = ['steering vectors as in P15, cross-spectral matrix given (P11)']


def setup(c, ng, nm, nf, stype, custom=False, fd=None, fmin=0.5):
    rm, r0 = dist(c, ng, nm)
    s = steering(rm, r0, stype, cls=classes()['SV'] if custom else None)
    fr = [fmin + i for i in range(nf)]
    C = np.array([hermitian(c, 'C%d' % i, nm) for i in range(nf)])
    d = (fd or ac().PowerSpectraImport)()
    d.csm = C
    d.frequencies = np.array(fr)
    H = [[steer(c, a, stype) for a in transfer(c, rm, r0, f)] for f in fr]
    return s, d, C, H


def norm_factor(nm, r_diag, rn):
    if not r_diag:
        return 1.0
    return nm / (nm - 1.0) if rn == 0.0 else rn


def das(c, ng, nm, stype, custom, r_diag):
    s, d, C, H = setup(c, ng, nm, 2, stype, custom)
    rn = c.choice('r_diag_norm', [0.0, 1.0, 1.5]) if r_diag else 0.0
    b = ac().BeamformerBase(freq_data=d, steer=s, r_diag=r_diag, r_diag_norm=rn, cached=False)
    res = b.result
    order = c.choice('order', ['all', 'one by one', 'reverse'])
    if order == 'all':
        out = res[:]
    else:
        k = [0, 1] if order == 'one by one' else [1, 0]
        out = [None, None]
        for i in k:
            out[i] = res[i]
        out = np.array(out)
    c.same('shape', tuple(out.shape), (2, ng))
    w = norm_factor(nm, r_diag, rn)
    for i in range(2):
        for g in range(ng):
            v = quad(H[i][g], C[i], r_diag) * w
            c.eq('map', out[i, g], posneg(c, v) if r_diag else v)


def scaling(c, nm, stype):
    """the map is linear in the matrix"""
    s, d, C, H = setup(c, 1, nm, 1, stype)
    a = c.real('a', 0, 4)
    d2 = ac().PowerSpectraImport(frequencies=np.array([0.5]))
    d2.csm = C * a
    r = lambda q: ac().BeamformerBase(freq_data=q, steer=s, r_diag=False, cached=False).result[:]
    c.eq('scaled map', r(d2), r(d) * a)


def source(c, nm, stype):
    """one source at a grid point: the map value there is its power (true level, inverse)"""
    rm, r0 = dist(c, 2, nm)
    s = steering(rm, r0, stype)
    q = c.real('q', 0, 3)
    a = transfer(c, rm, r0, 0.5)[0]
    C = np.array([[[q * a[i] * a[j].conjugate() for j in range(nm)] for i in range(nm)]])
    d = ac().PowerSpectraImport(frequencies=np.array([0.5]))
    d.csm = C
    b = ac().BeamformerBase(freq_data=d, steer=s, r_diag=False, cached=False).result[:]
    if stype in ('inverse', 'true level'):
        c.eq('power of the source', b[0, 0], q)
    c.true('the value of the map is not negative', b[0, 1] >= -1e-9)


def channels(c):
    """a number of channels that differs from the number of microphones is refused"""
    nm = c.cint('mics', 1, 3)
    nc = c.cint('channels', 1, 3)
    rm, r0 = dist(c, 1, nm)
    d = ac().PowerSpectraImport(frequencies=np.array([0.5]))
    d.csm = np.array([hermitian(c, 'C', nc)])
    b = ac().BeamformerBase(freq_data=d, steer=steering(rm, r0), r_diag=False, cached=False)
    try:
        b.result[:]
    except ValueError:
        c.true('refused', nm != nc)
        return
    c.true('accepted', nm == nc)


def follow(c):
    """any change of the settings shows in the next result"""
    s, d, C, H = setup(c, 1, 2, 1, 'classic')
    b = ac().BeamformerBase(freq_data=d, steer=s, r_diag=True, cached=False)
    b.result[:]
    st, rd, rn = 'classic', True, 0.0
    for n in range(2):
        w = c.choice('what%d' % n, ['diag', 'norm', 'type', 'data', 'speed', 'dist'])
        if w == 'diag':
            b.r_diag = rd = not rd
        elif w == 'norm':
            b.r_diag_norm = rn = 1.5
        elif w == 'type':
            b.steer.steer_type = st = 'true level'
        elif w == 'speed':
            b.steer.env.c = 3.0 + n
        elif w == 'dist':
            rm, r0 = b.steer.env.R * 1.25, b.steer.env.R0
            b.steer.env = classes()['DistEnv'](R=rm, R0=r0, c=b.steer.env.c, tag='e%d' % n)
        else:
            C = C * (n + 2)
            d.csm = C
        if c.bool('read%d' % n):
            b.result[:]
    e = b.steer.env
    h = steer(c, transfer(c, e.R, e.R0, 0.5, e.c)[0], st)
    v = quad(h, C[0], rd) * norm_factor(2, rd, rn)
    c.eq('map after the changes', b.result[0, 0] if c.bool('idx') else b.result[:][0, 0], posneg(c, v) if rd else v)


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for t in TYPES:
        k = t.replace(' ', '_')
        for custom in (False, True):
            for rd in (False, True):
                for ng, nm in [(2, 2), (1, 3)] + ([(2, 3), (1, 4)] if big else []):
                    out.append(dict(name='map_%s_%d%d_%d_%d' % (k, custom, rd, ng, nm), fn=das, cost=nm,
                                    params=dict(ng=ng, nm=nm, stype=t, custom=custom, r_diag=rd)))
        out.append(dict(name='scaling_%s' % k, fn=scaling, params=dict(nm=3, stype=t)))
        out.append(dict(name='source_%s' % k, fn=source, params=dict(nm=2, stype=t)))
    out.append(dict(name='channels', fn=channels))
    out.append(dict(name='follow', fn=follow, cost=3))
    return out
