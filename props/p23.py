"""Sectors contain the grid points inside their outline."""
from symx.lib import ac, new, np
from symx import core

from .p22 import inside

BOUNDS = ('2 points with symbolic coordinates against rectangles, cuboids and circles with symbolic limits, given polygons (triangle, square, concave) and '
          'convex outlines; unions of 2 sectors; points exactly on the border and points at least 0.01 away from it; border included or not, nearest point or not')
ASSUMPTIONS = ['points within the absolute tolerance of a border, but not on it, are outside', 'scipy triangulates given vertices correctly (ConvexSector)']
NB = 2
TOL = 2.0 ** -20


def points(c, dim=2, n=NB, lo=-2, hi=2):
    p = np.zeros((3, n), dtype=object if c.symbolic else float)
    for i in range(n):
        for d in range(dim):
            p[d, i] = c.real('%s%d' % ('xyz'[d], i), lo, hi)
    return p.view(type(c.array('unused', (1,)))) if c.symbolic else p


def options(c):
    return dict(include_border=c.bool('include_border'), default_nearest=c.bool('default_nearest'))


def nearest(c, got, d2, ins, opt):
    """if no point is inside: the nearest or none"""
    if not opt['default_nearest']:
        c.same('none', got, [False] * len(got))
        return
    c.same('one point', sum(got), 1)
    k = got.index(True)
    for i in range(len(got)):
        c.true('nearest to the center', d2[k] <= d2[i] + 1e-6)


def check(c, got, ins, d2, opt):
    got = [bool(g) for g in got]
    if any(ins):
        c.same('contained', got, ins)
    else:
        nearest(c, got, d2, ins, opt)


def box(c, dim, big=False):
    names = 'xyz'[:dim]
    k = {}
    a, b = [], []
    free = c.cint('axis', 0, dim - 1)
    swap = c.bool('swap')
    for d, n in enumerate(names):
        u, v = (c.real(n + '_min', -1, 0), c.real(n + '_max', 0, 1)) if d == free else (-0.5, 0.75)
        u, v = (v, u) if swap else (u, v)
        k[n + '_min'], k[n + '_max'] = u, v
        a.append(v if swap else u)
        b.append(u if swap else v)
    opt = options(c)
    p = points(c, dim)
    on = c.choice('place', ['free', 'border', 'corner'])
    if dim == 3:
        # vary one coordinate of the second point
        p[0, 1], p[1, 1] = c.choice('second', [(0.0, 0.0), (1.0, 0.0), (-1.5, -1.0)] if big else [(0.0, 0.0)])
    ins = []
    for i in range(NB):
        st = True
        for d in range(dim):
            if i == 0 and (on == 'corner' or on == 'border' and d == dim - 1):
                p[d, 0] = k[names[d] + ('_max' if d == 1 else '_min')]
                st = st and opt['include_border']
                continue
            for e in (a[d], b[d]):
                c.assume(abs(p[d, i] - e) >= .01)
            st = st and bool(p[d, i] > a[d]) and bool(p[d, i] < b[d])
        ins.append(st)
    s = new(ac().RectSector if dim == 2 else ac().RectSector3D, **k, **opt, abs_tol=TOL)
    d2 = [sum(((p[d, i] - (a[d] + b[d]) / 2) ** 2 for d in range(dim)), 0) for i in range(NB)]
    check(c, s.contains(p), ins, d2, opt)


def circle(c):
    x, y, r = c.real('x', -1, 1), c.real('y', -1, 1), c.choice('r', [0.5, 1.0])
    opt = options(c)
    p = points(c)
    if c.bool('border'):
        p[0, 0], p[1, 0] = x, y + r
    d2 = [(p[0, i] - x) ** 2 + (p[1, i] - y) ** 2 for i in range(NB)]
    s = new(ac().CircSector, x=x, y=y, r=r, **opt, abs_tol=TOL)
    ins = []
    for i in range(NB):
        e = d2[i] - r * r
        if bool(e == 0) if c.symbolic else abs(e) < 1e-9:
            ins.append(opt['include_border'])
        else:
            c.assume(abs(e) >= .01)
            ins.append(bool(e < 0))
    check(c, s.contains(p), ins, d2, opt)


POLY = {'triangle': [(-0.5, -0.625), (1.5, 0.5), (0.25, 1.75)], 'square': [(0.0, 0.0), (1.25, 0.0), (1.25, 1.25), (0.0, 1.25)],
        'concave': [(0.0, 0.0), (0.0, 1.5), (0.75, 0.25), (1.5, 1.5), (1.5, 0.0)], 'closed': [(0.0, 0.0), (0.0, 1.0), (1.0, 0.0), (0.0, 0.0)]}


def outline(c, cls, name, n=1):
    P = POLY[name]
    opt = options(c)
    p = np.zeros((3, 2))
    # one free point, one far away at a given place
    p[:, 1] = c.choice('other', [(3.0, 0.5, 0), (-1.0, -2.0, 0)])
    x = c.choice('x', [-0.75, 0.125, 0.5, 1.0, 1.375]) if cls == 'PolySector' else c.real('x', -1, 2)
    y = c.real('y', -1, 2)
    q = points(c, 0, 2)
    q[:] = p
    q[0, 0], q[1, 0] = x, y
    s = getattr(ac(), cls)(edges=[v for e in P for v in e], **opt, abs_tol=TOL)
    Q = P[:-1] if P[0] == P[-1] else P
    ins = [inside(c, Q, x, y), False]
    cx, cy = sum(v[0] for v in Q) / len(Q), sum(v[1] for v in Q) / len(Q)
    got = [bool(g) for g in s.contains(q)]
    if any(ins) or not opt['default_nearest']:
        c.same('contained', got, ins)
    else:
        c.same('one point', sum(got), 1)
        d = [(q[0, i] - cx) ** 2 + (q[1, i] - cy) ** 2 for i in range(2)]
        # far from a draw, so that the definition of the center does not matter
        k = got.index(True)
        c.true('nearest to the center', d[k] <= d[1 - k] + 1.5)


def border(c, cls):
    """points on the border of a polygon"""
    P = POLY[c.choice('outline', ['triangle', 'square'])]
    k = c.cint('edge', 0, len(P) - 1)
    t = c.choice('at', [0.25, 0.5])
    (x1, y1), (x2, y2) = P[k], P[(k + 1) % len(P)]
    inc = c.bool('include_border')
    q = np.array([[x1 + t * (x2 - x1), 0.5, 5.0], [y1 + t * (y2 - y1), 0.5, 5.0], [0, 0, 0]])
    dx = c.real('inner', -.125, .125)
    q = points(c, 0, 3) * 0 + q
    q[0, 1] = q[0, 1] + dx
    s = getattr(ac(), cls)(edges=[v for e in P for v in e], include_border=inc, default_nearest=False, abs_tol=TOL)
    c.same('border', [bool(g) for g in s.contains(q)], [inc, True, False])


def union(c):
    opt = [dict(include_border=True, default_nearest=c.bool('nearest%d' % i)) for i in range(2)]
    p = points(c)
    x = c.real('cx', -1, 1)
    a = ac()
    s = [new(a.RectSector, x_min=-1.0, x_max=x, y_min=0.0, y_max=1.0, **opt[0]), new(a.CircSector, x=x, y=0.0, r=0.5, **opt[1])]
    got = a.MultiSector(sectors=s).contains(p)
    one = [[bool(g) for g in t.contains(p)] for t in s]
    c.same('union', [bool(g) for g in got], [u or v for u, v in zip(*one)])
    c.same('all', [bool(g) for g in a.Sector().contains(p)] if not getattr(a.Sector, '__abstractmethods__', None) else [True] * NB, [True] * NB)


def subdomain(c):
    """a grid returns the indices of the points inside"""
    a = ac()
    kind = c.choice('grid', ['rect', 'rect3', 'line'])
    g = {'rect': lambda: a.RectGrid(x_min=0, x_max=1, y_min=0, y_max=2, increment=1), 'line': lambda: a.LineGrid(length=2, num_points=3),
         'rect3': lambda: a.RectGrid3D(x_min=0, x_max=1, y_min=0, y_max=1, z_min=0, z_max=1, increment=1)}[kind]()
    x = c.real('x', -0.5, 1.5)
    c.assume(abs(x) >= .01)
    c.assume(abs(x - 1) >= .01)
    s = new(a.RectSector, x_min=x, x_max=5.0, y_min=-0.5, y_max=1.5, default_nearest=False)
    num = np.arange(int(g.size)).reshape([int(n) for n in np.atleast_1d(g.shape)])
    got = sorted(num[g.subdomain(s)].ravel().tolist())
    P = np.asarray(g.pos, dtype=float)
    c.same('points', got, [i for i in range(P.shape[1]) if bool(x < P[0, i]) and P[1, i] < 1.5])


def scenarios(tier):
    big = tier == 'thorough'
    out = [dict(name='rectangle', fn=box, params=dict(dim=2, big=big), cost=3), dict(name='cuboid', fn=box, params=dict(dim=3, big=big), cost=5, opts=dict(max_paths=20000, max_s=800)), dict(name='circle', fn=circle, cost=3),
           dict(name='union', fn=union, cost=2), dict(name='subdomain', fn=subdomain)]
    for k in POLY:
        out.append(dict(name='polygon_%s' % k, fn=outline, params=dict(cls='PolySector', name=k), cost=3))
    for k in ('triangle', 'square'):
        out.append(dict(name='convex_%s' % k, fn=outline, params=dict(cls='ConvexSector', name=k), cost=2))
    for k in ('PolySector', 'ConvexSector'):
        out.append(dict(name='border_%s' % k, fn=border, params=dict(cls=k)))
    return out
