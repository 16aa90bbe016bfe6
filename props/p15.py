"""Transfer functions and steering vectors follow their definitions for every geometry."""
from symx.lib import ac, np, ssum

from .bfh import TYPES, classes, dist, steer, steering, transfer

BOUNDS = ('1-3 grid points, 1-4 microphones (thorough 4 and 6) with any positive distances, frequency 0-3 Hz and sound speed symbolic; '
          'reference position or distance; any selection of grid points')
ASSUMPTIONS = ['the distances are those delivered by the environment (P24); phases are exact']


def formulas(c, ng, nm, stype):
    rm, r0 = dist(c, ng, nm)
    f = c.real('f', 0, 3)
    cs = c.real('c', 1, 3, pos=True)
    s = steering(rm, r0, stype, cs=2.0)
    from symx.lib import setattrs
    setattrs(s.env, c=cs)
    a = transfer(c, rm, r0, f, cs)
    t = s.transfer(f)
    c.same('transfer shape', tuple(t.shape), (ng, nm))
    c.eq('transfer', t, np.array(a))
    h = s.steer_vector(f)
    c.eq('steering vector', h, np.array([steer(c, x, stype) for x in a]))
    for g in range(ng):
        p = ssum([h[g, m].conjugate() * a[g][m] for m in range(nm)])
        n2 = ssum([h[g, m].conjugate() * h[g, m] for m in range(nm)]).real
        if stype in ('inverse', 'true level'):
            c.eq('gain one at the source', p, 1)
        if stype in ('classic', 'true location'):
            c.eq('norm independent of the location', n2, 1.0 / nm)


def select(c, ng, nm, stype):
    """grid point selections deliver the rows of the full result"""
    rm, r0 = dist(c, ng, nm)
    f = c.real('f', 0, 3)
    s = steering(rm, r0, stype)
    full, h = s.transfer(f), s.steer_vector(f)
    i = c.cint('i', -1, ng - 1)
    c.eq('one point', s.transfer(f, i).reshape(-1), full[i])
    c.eq('one point, steering', s.steer_vector(f, i).reshape(-1), h[i])
    k = [c.cint('k%d' % j, 0, ng - 1) for j in range(2)]
    c.eq('some points', s.transfer(f, np.array(k)), full[k])
    c.eq('some points, steering', s.steer_vector(f, np.array(k)), h[k])
    b = np.array([c.bool('m%d' % j) for j in range(ng)])
    c.eq('points by mask', s.transfer(f, b), full[b])


def reference(c, change):
    """reference by distance, position or origin; changes take effect"""
    a = ac()
    g = a.ImportGrid()
    G = c.array('g', (3, 2), 1, 3)
    g.gpos_file = G
    m = a.MicGeom()
    M = c.array('m', (3, 2), -3, -1)
    m.mpos_tot = M
    from symx.lib import sqrt
    sq = sqrt if c.symbolic else np.sqrt

    def d(x, y):
        return sq(ssum([(x[i] - y[i]) ** 2 for i in range(3)]))

    kind = c.choice('kind', ['none', 'distance', 'position'])
    s = a.SteeringVector(grid=g, mics=m)
    if change:
        s.r0
        s.rm
        s.ref = 5.0
        s.r0
    if kind == 'none':
        if change:
            s.ref = c.choice('zero', [0.0, 0])
        want = [d(G[:, i], (0, 0, 0)) for i in range(2)]
    elif kind == 'distance':
        s.ref = c.choice('dist', [2.5, -2.5, 1])
        want = [abs(s.ref)] * 2
    else:
        p = [0.5, -0.25, c.choice('pz', [0.0, 1.5])]
        s.ref = p
        want = [d(G[:, i], p) for i in range(2)]
    c.eq('reference distances', s.r0, np.array(want))
    c.eq('microphone distances', s.rm, np.array([[d(G[:, i], M[:, j]) for j in range(2)] for i in range(2)]))


def follow(c):
    """changes of the geometry and the environment take effect"""
    a = ac()
    rm, r0 = dist(c, 2, 2)
    rm2, r02 = c.array('q', (2, 2), 0.5, 3, pos=True), c.array('q0', (2,), 0.5, 3, pos=True)
    f = c.real('f', 0, 3)
    s = steering(rm, r0, 'classic')
    s.steer_vector(f)
    st = c.choice('type', TYPES)
    cur = [rm, r0, 2.0]
    for n in range(2):
        w = c.choice('what%d' % n, ['env', 'speed', 'type', 'read'])
        if w == 'env':
            s.env = classes()['DistEnv'](R=rm2, R0=r02, c=cur[2], tag='other%d' % n)
            cur[:2] = [rm2, r02]
        elif w == 'speed':
            s.env.c = cur[2] = 3.0
        elif w == 'type':
            s.steer_type = st
        else:
            s.steer_vector(f)
    s.steer_type = st
    t = transfer(c, cur[0], cur[1], f, cur[2])
    c.eq('steering vector after the changes', s.steer_vector(f), np.array([steer(c, x, st) for x in t]))


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for t in TYPES:
        k = t.replace(' ', '_')
        for ng, nm in [(1, 2), (2, 3), (1, 4)] + ([(3, 4), (2, 6)] if big else []):
            out.append(dict(name='formulas_%s_%d_%d' % (k, ng, nm), fn=formulas, params=dict(ng=ng, nm=nm, stype=t)))
        out.append(dict(name='select_%s' % k, fn=select, params=dict(ng=3, nm=2, stype=t)))
        if big:
            out.append(dict(name='select1_%s' % k, fn=select, params=dict(ng=2, nm=4, stype=t)))
    out.append(dict(name='reference', fn=reference, params=dict(change=False)))
    out.append(dict(name='reference_changed', fn=reference, params=dict(change=True)))
    out.append(dict(name='follow', fn=follow))
    return out
