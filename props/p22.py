"""Grids: positions, sizes, indices and identities agree."""
import os
import tempfile

from symx.lib import ac, new, np, setattrs
from symx import core

BOUNDS = ('rectangular grids with up to 5 x 3 (thorough 7 x 4) and 3 x 3 x 2 points: limits and coordinates symbolic reals, increments from {1, 0.5, 0.75, 2}; line grids '
          'of 1 to 4 points; merged grids of 2 grids with 2-4 points that may coincide; selections by rectangle, circle, polygon and cuboid')
ASSUMPTIONS = ['increments are positive and limits in order', 'equidistant positions: rounding of floating-point division is outside',
               'XML parsing is done by the standard library']


def rect(c, ny=3, nx=5, inc=None):
    i = inc or c.choice('increment', [1.0, 0.5, 0.75])
    x0, y0, z = c.real('x_min', -2, 2), c.real('y_min', -2, 2), c.real('z', -2, 2)
    ex, ey = c.real('x_extent', 0, (nx - 1) * i), c.real('y_extent', 0, (ny - 1) * i)
    return dict(x_min=x0, x_max=x0 + ex, y_min=y0, y_max=y0 + ey, z=z, increment=i), (ex, ey)


def rect3(c, big=False):
    inc = c.choice('increment', [1.0, 0.5, (1.0, 0.5, 2.0), (0.5, 2.0, 1.0)])
    i = (inc,) * 3 if np.isscalar(inc) else inc
    d = {}
    ext = []
    for n, k, m in zip('xyz', i, (3, 2, 2) if not big else (4, 3, 3)):
        a, e = c.real(n + '_min', -2, 2), c.real(n + '_extent', 0, (m - 1) * k)
        d[n + '_min'], d[n + '_max'] = a, a + e
        ext.append(e)
    d['increment'] = inc if np.isscalar(inc) else np.array(inc)
    return d, ext, i


def geometry(c, g, lo, ext, incs):
    """equidistant points from the lower to the upper limits, last coordinate running fastest"""
    nd = len(lo)
    n = [int(x) for x in g.shape]
    p = g.pos
    c.same('size', int(g.size), int(np.prod(n)))
    c.same('positions', p.shape, (3, int(np.prod(n))))
    for d in range(nd):
        c.true('number of points %d' % d, abs((n[d] - 1) * incs[d] - ext[d]) <= incs[d] / 2)
    q = p.reshape((3,) + tuple(n))
    want = np.zeros((3,) + tuple(n), dtype=object if c.symbolic else float)
    for i in np.ndindex(*n):
        for d in range(nd):
            want[(d,) + i] = lo[d] + (ext[d] * i[d] / (n[d] - 1) if n[d] > 1 else 0)
    c.eq('coordinates', q[:nd], want[:nd])
    return n, q


def rectgrid(c, big=False):
    k, e = rect(c, *((4, 7) if big else ()))
    g = new(ac().RectGrid, **k)
    n, q = geometry(c, g, (k['x_min'], k['y_min']), e, (k['increment'],) * 2)
    c.eq('z', q[2], np.full(q[2].shape, 1.0) * k['z'])
    c.same('extend', [x is y or bool(x == y) for x, y in zip(g.extend(), (k['x_min'], k['x_max'], k['y_min'], k['y_max']))], [True] * 4)


def rectgrid3(c, big=False):
    k, e, i = rect3(c, big)
    g = new(ac().RectGrid3D, **k)
    geometry(c, g, [k[n + '_min'] for n in 'xyz'], e, i)


def nearest(c, label, x, i, pts):
    """point i is as close to x as any other"""
    ok = 0 <= i < len(pts)
    c.same(label + ': exists', ok, True)
    if ok:
        d = abs(pts[i] - x)
        for j in range(len(pts)):
            if j != i:
                c.true(label + ': nearest', d <= abs(pts[j] - x) + 1e-9)


def index(c, dim):
    if dim == 2:
        k, e = rect(c)
        g = new(ac().RectGrid, **k)
        names = 'xy'
    else:
        k, e, i = rect3(c)
        g = new(ac().RectGrid3D, **k)
        names = 'xyz'
    at = [c.real('at_' + n, -3, 8) for n in names]
    ins = True
    for n, a in zip(names, at):
        ins = ins & (a >= k[n + '_min']) & (a <= k[n + '_max'])
    try:
        idx = g.index(*at)
    except ValueError:
        c.true('error only outside', core.not_(ins) if c.symbolic else not ins)
        return
    c.true('no index outside', ins)
    sh = [int(x) for x in g.shape]
    q = g.pos.reshape([3] + sh)
    for d in range(dim):
        sl = [0] * dim
        sl[d] = slice(None)
        nearest(c, 'index %s' % names[d], at[d], int(idx[d]), list(q[(d,) + tuple(sl)]))


def roundtrip(c, dim):
    """the index of a point of the grid is its own"""
    if dim == 2:
        k, e = rect(c)
        g = new(ac().RectGrid, **k)
    else:
        k, e, i = rect3(c)
        g = new(ac().RectGrid3D, **k)
    sh = [int(x) for x in g.shape]
    if dim == 2:
        c.assume(e[0] >= .125)
        c.assume(e[1] >= .125)
    q = g.pos.reshape([3] + sh)
    at = tuple(c.cint('i%d' % d, 0, sh[d] - 1) for d in range(dim))
    at = tuple(int(a) for a in at)
    p = [q[(d,) + at] for d in range(dim)]
    for d, n in enumerate('xyz'[:dim]):
        # rounding may move the last point beyond the limit
        c.assume(p[d] <= k[n + '_max'])
    idx = tuple(int(x) for x in g.index(*p))
    c.same('index of position', idx, at)


def selected(c, g, ind):
    """numbers of the selected grid points"""
    n = np.arange(int(g.size)).reshape([int(x) for x in g.shape])
    return sorted(set(np.atleast_1d(n[ind]).ravel().tolist()))


def circle(c):
    g = ac().RectGrid(x_min=0, x_max=1.0, y_min=0, y_max=2, increment=1.0)
    x, y, r = c.real('x', -1, 2), c.real('y', -1, 3), c.choice('r', [0.25, 1.0, 1.5])
    try:
        got = selected(c, g, g.indices(x, y, r))
    except ValueError:
        got = None
    p = g.pos
    d = [(p[0, i] - x) ** 2 + (p[1, i] - y) ** 2 for i in range(6)]
    ins = [bool(v <= r * r) for v in d]
    if any(ins):
        c.same('points inside', got, [i for i in range(6) if ins[i]])
    elif got is not None:
        c.same('one point', len(got), 1)
        for i in range(6):
            c.true('nearest point', d[got[0]] <= d[i] + 1e-9)
    else:
        c.true('error only outside the grid', (x < 0) | (x > 1) | (y < 0) | (y > 2))


def between(c, dim):
    """rectangle or cuboid: all points between those nearest to the corners"""
    names = 'xyz'[:dim]
    if dim == 2:
        g = ac().RectGrid(x_min=0, x_max=2.0, y_min=0, y_max=1, increment=c.choice('inc', [1.0, 0.75]))
    else:
        g = ac().RectGrid3D(x_min=0, x_max=2.0, y_min=0, y_max=1, z_min=-1, z_max=0, increment=1.0)
    lo = [0, 0, -1][:dim]
    hi = [2, 1, 0][:dim]
    free = c.cint('axis', 0, dim - 1)
    other = c.choice('others', [(0, 1), (1, 0), (0.25, 0.25)])
    a = [c.real('a', l, h) if d == free else l + (h - l) * other[0] for d, (l, h) in enumerate(zip(lo, hi))]
    b = [c.real('b', l, h) if d == free else l + (h - l) * other[1] for d, (l, h) in enumerate(zip(lo, hi))]
    got = selected(c, g, g.indices(*(a + b)))
    sh = [int(x) for x in g.shape]
    q = g.pos.reshape([3] + sh)
    num = np.arange(int(g.size)).reshape(sh)
    rng = []
    for d in range(dim):
        sl = [0] * dim
        sl[d] = slice(None)
        pts = [float(x) for x in q[(d,) + tuple(sl)]]
        l, h = (a[d], b[d]) if a[d] <= b[d] else (b[d], a[d])
        i0 = [i for i in range(len(pts)) if all(bool(abs(pts[i] - l) <= abs(p - l) + .01) for p in pts)]
        i1 = [i for i in range(len(pts)) if all(bool(abs(pts[i] - h) <= abs(p - h) + .01) for p in pts)]
        c.assume(len(i0) == 1 and len(i1) == 1)      # no ties
        rng.append(slice(i0[0], i1[0] + 1))
    c.same('points between', got, sorted(num[tuple(rng)].ravel().tolist()))


def polygon(c):
    g = ac().RectGrid(x_min=0, x_max=1.0, y_min=0, y_max=1, increment=1.0)
    # triangle or square, anywhere
    x, y = c.real('x', -2, 2), c.choice('y', [0.25, -0.5, 0.75])
    P = [(a + x, b + y) for a, b in c.choice('polygon', [[(-0.5, -0.625), (1.5, 0.5), (0.25, 1.75)], [(0, 0), (0, 1), (0.5, 0.5)], [(0, 0), (1.25, 0), (1.25, 1.25), (0, 1.25)],
                                                 [(0, 0), (0, 1.5), (0.75, 0.25), (1.5, 1.5), (1.5, 0)]])]
    try:
        got = selected(c, g, g.indices(*[v for p in P for v in p]))
    except ValueError:
        got = None
    p = g.pos
    ins = [inside(c, P, float(p[0, i]), float(p[1, i])) for i in range(4)]
    if any(ins):
        c.same('points inside', got, [i for i in range(4) if ins[i]])


def inside(c, P, x, y, margin=.01):
    """even-odd rule; points near the edges are left out"""
    n = 0
    for i in range(len(P)):
        (x1, y1), (x2, y2) = P[i], P[(i + 1) % len(P)]
        cr = (x2 - x1) * (y - y1) - (y2 - y1) * (x - x1)
        c.assume(abs(cr) >= margin)
        up, down = bool(y1 <= y) and bool(y < y2), bool(y2 <= y) and bool(y < y1)
        if up and bool(cr > 0) or down and bool(cr < 0):
            n += 1
    return n % 2 == 1


SET = {'rect': [('x_min', -0.5), ('x_max', 2.0), ('y_min', -1.0), ('y_max', 3.0), ('z', 4.0), ('increment', 0.5)],
       'rect3': [('x_min', -0.5), ('y_max', 3.0), ('z_min', -2.0), ('z_max', 2.0), ('increment', np.array([0.5, 1.0, 0.25]))],
       'line': [('loc', (1.0, 2.0, 3.0)), ('direction', (0.0, 1.0, 1.0)), ('length', 3.0), ('num_points', 5)],
       'import': [('pos', np.array([[1.0], [2.0], [3.0]])), ('pos', np.array([[1.0, 2.0], [2.0, 0.0], [3.0, 1.0]]))]}


def mk(kind, **k):
    a = ac()
    if kind == 'rect':
        return new(a.RectGrid, **{**dict(x_min=0.0, x_max=1.0, y_min=0.0, y_max=2.0, z=1.0, increment=1.0), **k})
    if kind == 'rect3':
        return new(a.RectGrid3D, **{**dict(x_min=0.0, x_max=1.0, y_min=0.0, y_max=2.0, z_min=0.0, z_max=1.0, increment=1.0), **k})
    if kind == 'line':
        return new(a.LineGrid, **{**dict(num_points=3, length=2.0), **k})
    g = a.ImportGrid()
    g.pos = k.get('pos', np.array([[0.0, 1.0, 2.0], [3.0, 4, 5], [6, 7, 8.0]]))
    return g


READ = {'pos': lambda g: np.array(g.pos), 'size': lambda g: int(g.size), 'shape': lambda g: tuple(np.atleast_1d(g.shape).astype(int)), 'digest': lambda g: g.digest}


def history(c, kind):
    """after any change a grid is the same as a new one, and its identity changes with its positions"""
    g = mk(kind)
    now = {}
    for s in range(2):
        for r in c.choice('read%d' % s, [(), ('pos',), ('size', 'shape', 'digest')]):
            READ[r](g)
        f = mk(kind, **now)
        old = (f.digest, np.array(f.pos))
        n, v = c.choice('set%d' % s, SET[kind])
        if isinstance(v, float) and n not in ('increment', 'length') and c.bool('symbolic%d' % s):
            v = v + c.real('v%d' % s, 1 / 16, .25)
        setattrs(g, **{n: v})
        now[n] = v
        f = mk(kind, **now)
        for r in READ:
            if r == 'pos':
                c.eq('same as new: pos', READ[r](g), READ[r](f))
            else:
                c.same('same as new: %s' % r, READ[r](g), READ[r](f))
        p = READ['pos'](g)
        if p.shape != old[1].shape:
            c.same('identity', g.digest == old[0], False)
        elif g.digest == old[0]:
            c.eq('identical grid', p, old[1])


def line(c):
    n = c.choice('n', [1, 2, 4])
    d = c.choice('direction', [(1.0, 0.0, 0.0), (0.0, -2.0, 0.0), (3.0, 0.0, 4.0), (0.6, 0.8, 0.0)])
    l = c.real('length', 0.1, 3)
    loc = tuple(c.real('loc%d' % i, -2, 2) for i in range(3))
    g = new(ac().LineGrid, loc=loc, direction=d, length=l, num_points=n)
    u = [x / sum(y * y for y in d) ** .5 for x in d]
    c.same('size', (int(g.size), tuple(int(x) for x in np.atleast_1d(g.shape))), (n, (n,)))
    c.same('shape is a tuple', isinstance(g.shape, tuple), True)
    c.eq('points', g.pos, np.array([[loc[k] + u[k] * l * (i / (n - 1) if n > 1 else 0) for i in range(n)] for k in range(3)]))


def merge(c, n=2, m=2):
    a = ac()
    P = []
    for k, q in enumerate((n, m)):
        g = a.ImportGrid()
        y = np.zeros((3, q), dtype=object)
        for i in range(q):
            y[0, i] = c.real('x%d_%d' % (k, i), -1, 1)
            y[1, i] = 1.0 * (i // 2)
            y[2, i] = 0.0
        g.pos = y.view(type(c.array('zz', (1,)))) if c.symbolic else y.astype(float)
        P.append((g, y))
    mg = a.MergeGrid(grids=[g for g, _ in P])
    p = mg.pos
    allp = [(y[0, i], y[1, i], k) for k, (_, y) in enumerate(P) for i in range(y.shape[1])]
    got = [(p[0, i], p[1, i]) for i in range(p.shape[1])]
    c.same('size', int(mg.size), len(got))
    c.same('shape', tuple(int(x) for x in np.atleast_1d(mg.shape)), (len(got),))
    c.same('shape is a tuple', isinstance(mg.shape, tuple), True)
    eq = lambda s, t: bool(s[0] == t[0]) and float(s[1]) == float(t[1])
    for i in range(len(got)):
        for j in range(i):
            c.same('no duplicates', eq(got[i], got[j]), False)
        c.same('from a subgrid', any(eq(got[i], t) for t in allp), True)
    for t in allp:
        c.same('complete', any(eq(s, t) for s in got), True)
    names = [g.__class__.__name__ + g.digest for g, _ in P]
    sub = list(np.asarray(mg.subgrids).ravel())
    c.same('names for all points', len(sub), len(got))
    for s, t in zip(sub, got):
        c.same('name of the subgrid', any(eq(t, q) and s == names[q[2]] for q in allp), True)


def merge_history(c):
    """changed subgrids"""
    a = ac()
    gs = [mk('line'), mk('rect', x_max=0.0), mk('line', loc=(0.0, 5.0, 0.0))]
    mg = a.MergeGrid(grids=gs[:2])
    cur = gs[:2]
    for s in range(2):
        for r in c.choice('read%d' % s, [(), ('pos',), ('size', 'digest')]):
            READ[r](mg)
        d = mg.digest
        what = c.choice('set%d' % s, ['trait', 'list', 'item', 'append', 'rect'])
        if what == 'trait':
            gs[0].length = 2.5 + s
        elif what == 'rect':
            gs[1].y_max = 4.0 + s
        elif what == 'list':
            cur = [gs[0], gs[2]]
            mg.grids = list(cur)
        elif what == 'item':
            cur = [cur[0], gs[2]] + cur[2:]
            mg.grids[1] = gs[2]
        else:
            cur = cur + [gs[2]]
            mg.grids.append(gs[2])
        f = a.MergeGrid(grids=list(cur))
        c.eq('same as new: pos', np.array(mg.pos), np.array(f.pos))
        c.same('same as new: size', int(mg.size), int(f.size))
        c.same('subgrids', [str(x) for x in np.ravel(mg.subgrids)], [str(x) for x in np.ravel(f.subgrids)])
        if what in ('trait', 'rect') and (gs[0] in cur and gs[1] in cur):
            c.same('new identity', mg.digest == d, False)


def importfile(c):
    """positions and names in the order of the file"""
    pts = [(c.choice('n%d' % i, ['a', 'b']), [c.choice('v%d%s' % (i, k), [0.5, -1.25]) for k in 'xyz']) for i in range(2)]
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'grid.xml')
        with open(f, 'w') as h:
            h.write('<?xml version="1.0" encoding="utf-8"?><Grid name="g">' + ''.join(
                '<pos subgrid="%s" x="%r" y="%r" z="%r"/>' % (n, *v) for n, v in pts) + '</Grid>')
        g = ac().ImportGrid()
        g.digest, g.pos
        g.file = f
        c.same('names', [str(x) for x in g.subgrids], [n for n, _ in pts])
        c.same('positions', np.asarray(g.pos, dtype=float).tolist(), np.array([v for _, v in pts]).T.tolist())
        c.same('size', (int(g.size), tuple(g.shape)), (2, (2,)))


def scenarios(tier):
    big = tier == 'thorough'
    out = [dict(name='rectangle', fn=rectgrid, params=dict(big=big), cost=3), dict(name='cuboid', fn=rectgrid3, params=dict(big=big), cost=3),
           dict(name='line', fn=line), dict(name='circle', fn=circle, cost=3), dict(name='polygon', fn=polygon, cost=3),
           dict(name='merge', fn=merge), dict(name='merge_history', fn=merge_history), dict(name='import', fn=importfile)]
    if big:
        out.append(dict(name='merge3', fn=merge, params=dict(n=3, m=2)))
    for d in (2, 3):
        out.append(dict(name='index_%d' % d, fn=index, params=dict(dim=d), cost=5))
        out.append(dict(name='roundtrip_%d' % d, fn=roundtrip, params=dict(dim=d), cost=4))
        out.append(dict(name='between_%d' % d, fn=between, params=dict(dim=d), cost=5))
    for k in SET:
        out.append(dict(name='history_%s' % k, fn=history, params=dict(kind=k), cost=2))
    return out
