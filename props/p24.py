"""Sound paths: distances, uniform flow, flow fields, ray tracing."""
import math

from symx import core, patch
from symx.lib import ac, np, new, setattrs, sqrt

BOUNDS = ('up to 3 grid points and 2 microphones at symbolic positions; any Mach number below 0.95 and any flow direction; flow fields at symbolic positions with symbolic exit '
          'velocity and given nozzle sizes; 2..6 rays of up to 3 arbitrary points each in a symbolic uniform flow; up to 12 directions on the sphere')
ASSUMPTIONS = ['the integration of the ray equations (scipy.integrate.ode) and Delaunay interpolation (scipy) are given',
               'flow fields are examined downstream of the nozzle']


def vec(c, name, lo=-3, hi=3):
    return [c.real('%s%d' % (name, i), lo, hi) for i in range(3)]


def mat(cols):
    n = len(cols)
    sym = any(core._is_sym(v) for col in cols for v in col)
    a = np.zeros((3, n), dtype=object if sym else float)
    for j, col in enumerate(cols):
        for i in range(3):
            a[i, j] = col[i]
    if sym:
        from symx.arrays import wrap
        a = wrap(a)
    return a


def sm(c, cols):
    a = mat(cols)
    return a.astype(object).view(patch.SymArray) if c.symbolic else a


def dot3(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def distances(c, ng, nm):
    """the distance is the Euclidean one; one microphone gives a vector, none the distance to the origin"""
    g = [vec(c, 'g%d' % i) for i in range(ng)]
    origin = nm == 0
    m = [vec(c, 'm%d' % i) for i in range(nm)] or [[0.0, 0.0, 0.0]]
    e = new(ac().Environment, c=c.real('c', 100, 500))
    r = e._r(mat(g)) if origin else e._r(mat(g), mat(m))
    c.same('shape', r.shape, (ng,) if len(m) == 1 else (ng, len(m)))
    r = r.reshape(ng, len(m))
    for i in range(ng):
        for j in range(len(m)):
            d = [g[i][k] - m[j][k] for k in range(3)]
            c.eq('distance', r[i, j] * r[i, j], dot3(d, d))
            c.true('distance is not negative', r[i, j] >= 0)


GEO = [((0.0, 0.0, 1.0), (1.0, 0.0, 0.0)), ((1.0, 2.0, 2.0), (0.0, 0.0, 0.0)), ((-2.0, 1.0, 2.0), (0.5, 1.0, -1.0)), ((3.0, 0.0, 4.0), (0.0, -1.0, 0.0))]
FDV = [(1.0, 0.0, 0.0), (0.0, 0.0, -2.0), (1.0, 2.0, 2.0), (-3.0, 4.0, 0.0)]


DIR = [(1 / 3, 2 / 3, 2 / 3), (-0.6, 0.0, 0.8), (0.0, 0.0, 1.0), (-2 / 7, 3 / 7, -6 / 7)]


def uniform(c, ng, nm, free):
    """sound takes the time in which a wavefront that is carried along with the flow reaches the microphone"""
    ma = c.real('ma', -0.95, 0.95)
    f = list(c.choice('flow', FDV))
    if free == 'pos':
        # any distance and any common offset
        o = vec(c, 'o')
        R = c.real('R', 0.05, 20, pos=True)
        n = c.choice('direction', DIR)
        g = [[o[i] + R * n[i] for i in range(3)]]
        m = [o]
    else:
        k = c.choice('geometry', [0, 1, 2])
        g = [GEO[(k + i) % 4][0] for i in range(ng)]
        m = [GEO[(k + i) % 4][1] for i in range(nm)]
    e = new(ac().UniformFlowEnvironment)
    setattrs(e, ma=ma)
    if free == 'dir':
        # the length of the flow vector does not matter
        k = c.real('k', 0.1, 10, pos=True)
        v = [k * f[i] for i in range(3)]
        if c.symbolic:
            e.__dict__['fdv'] = objarr(c, v)
        else:
            e.fdv = tuple(v)
    else:
        e.fdv = tuple(f)
    r = e._r(sm(c, g), sm(c, m))
    c.same('shape', r.shape, (ng,) if len(m) == 1 else (ng, len(m)))
    r = r.reshape(ng, len(m))
    nf = math.sqrt(dot3(f, f))
    for i in range(ng):
        for j in range(len(m)):
            d = [m[j][k] - g[i][k] for k in range(3)]
            x = r[i, j]
            # |d - ma r f/|f|| = r
            c.near('wavefront carried by the flow', x * x * (1 - ma * ma) + 2 * x * ma * dot3(d, f) / nf, dot3(d, d), 1e-6)
            c.true('travelled distance is positive', x > 0)


def still(c):
    """without flow both environments agree; two opposite directions exchange source and receiver"""
    g, m = [vec(c, 'g')], [(0.0, 0.5, -1.0)]
    d = [g[0][k] - m[0][k] for k in range(3)]
    c.assume(dot3(d, d) >= 0.01)
    a, b = ac().Environment(), ac().UniformFlowEnvironment(ma=0.0, fdv=c.choice('f', FDV))
    c.eq('no flow', b._r(mat(g), mat(m))[0], a._r(mat(g), mat(m))[0])
    k = c.choice('geometry', [0, 1, 2])
    ma = c.real('ma', 0.0, 0.95)
    f = c.choice('flow', FDV)
    p, q = [GEO[k][0]], [GEO[k][1]]
    e1, e2 = ac().UniformFlowEnvironment(fdv=f), ac().UniformFlowEnvironment(fdv=tuple(-x for x in f))
    setattrs(e1, ma=ma)
    setattrs(e2, ma=ma)
    c.eq('reversed flow', e1._r(sm(c, p), mat(q))[0], e2._r(sm(c, q), mat(p))[0])


# ------------------------------------------------------------------ flow fields
def directional(c, f, org, axes, q):
    """velocity, matrix and the derivatives of the velocity along the given axes at org + sum(q_i axes_i): exact for
    symbolic positions, by differences on the real code"""
    def pos(w):
        x = [0, 0, 0]
        for i in range(3):
            x[i] = org[i]
            for k in range(3):
                if axes[k][i]:
                    x[i] = x[i] + w[k] * axes[k][i]
        return objarr(c, x)
    v, dv = f.v(pos(q))
    D = []
    for k in range(3):
        if c.symbolic:
            D.append([core.diff(v[j], q[k]) for j in range(3)])
        else:
            h = 1e-6
            a, b = list(q), list(q)
            a[k] += h
            b[k] -= h
            D.append(list((f.v(pos(a))[0] - f.v(pos(b))[0]) / (2 * h)))
    return v, dv, D


def field(c, kind):
    v0 = c.real('v0', 0.5, 100)
    org = c.choice('origin', [(0.0, 0.0, 0.0), (-0.7, 0.0, 0.7)])
    if kind == 'rot':
        f = ac().RotatingFlow(origin=org)
        rps = c.real('rps', -20, 20)
        setattrs(f, v0=v0, rps=rps)
    elif kind == 'open':
        f = ac().OpenJet(origin=org, D=c.choice('D', [0.2, 0.5]), l=c.choice('l', [6.2, 5.0]))
        setattrs(f, v0=v0)
    else:
        fl, pl = c.choice('axes', [((1.0, 0, 0), (0, 1.0, 0)), ((0, 0, 2.0), (0, 0.5, 0)), ((0, -1.0, 0), (1.0, 0, 0)), ((3.0, 0, 4.0), (0, 1.0, 0))])
        f = ac().SlotJet(origin=org, B=c.choice('B', [0.2, 0.5]), l=c.choice('l', [5.2, 4.0]), flow=fl, plane=pl)
        setattrs(f, v0=v0)
    return f, v0, org


def jacobian(c, kind):
    """the second result is the matrix of partial derivatives (velocity component, coordinate)"""
    f, v0, org = field(c, kind)
    axes = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)]
    if kind == 'rot':
        q = vec(c, 'x', -2, 2)
    else:
        # along the flow, then outwards
        q = [c.real('along', 0.1, 3, pos=True), c.real('out', 0.01, 0.6, pos=True), c.real('third', 0.01, 0.6, pos=True)]
        s = [c.choice('s%d' % i, [1.0, -1.0]) for i in range(2)]
        if kind == 'slot':
            fl, pl = np.asarray(f.flow) / np.linalg.norm(f.flow), np.asarray(f.plane) / np.linalg.norm(f.plane)
            yy = np.cross(fl, pl)
            axes = [tuple(float(w) for w in fl), tuple(float(w) for w in s[0] * yy), tuple(float(w) for w in s[1] * pl)]
            h = q[1] + math.sqrt(math.pi) * 0.5 * 0.5668 / f.l * q[0] - 0.5 * f.B
        else:
            axes = [axes[0], (0.0, s[0], 0.0), (0.0, 0.0, s[1])]
            r = sqrt(q[1] * q[1] + q[2] * q[2]) if c.symbolic else math.hypot(q[1], q[2])
            h = r + 0.5022 / f.l * q[0] - 0.5 * f.D
        side = c.choice('side', ['core', 'layer'])
        c.assume(h <= -0.01 if side == 'core' else h >= 0.01)
    v, dv, D = directional(c, f, org, axes, q)
    c.same('shapes', (np.shape(v), np.shape(dv)), ((3,), (3, 3)))
    for k in range(3):
        for j in range(3):
            got = dv[j, 0] * axes[k][0] + dv[j, 1] * axes[k][1] + dv[j, 2] * axes[k][2]
            if c.symbolic:
                c.eq('derivatives of the velocity', got, D[k][j])
            else:
                c.near('derivatives of the velocity', float(got), D[k][j], 1e-4 * (1 + abs(D[k][j])))
    if kind == 'rot':
        w = 2 * math.pi * f.rps
        for i, want in enumerate([-w * q[1], w * q[0], v0]):
            c.near('velocity', v[i], want, 1e-6)
        return
    fl = axes[0]
    along = dot3(list(v), list(fl))
    for i in range(3):
        c.eq('flow direction', v[i], along * fl[i])
    if side == 'core':
        c.near('velocity of the core', along, v0, 1e-6)
    else:
        x1 = (0.5668 if kind == 'slot' else 0.5022) / f.l * q[0]
        g = core.log(along / v0) if c.symbolic else math.log(along / v0)
        c.eq('Gaussian profile of the shear layer', g * 2 * x1 * x1, -h * h)


def rpm(c):
    import warnings
    warnings.simplefilter('ignore')
    r = c.real('rpm', -6000, 6000)
    f = ac().RotatingFlow()
    f.rpm = r
    c.eq('rotations per second', f.rps, -r / 60)
    c.eq('rotations per minute', f.rpm, r)


def axis(c):
    """on the axis of a round jet the velocity does not change across the axis"""
    f, v0, org = field(c, 'open')
    x = c.real('x', 0.1, 3)
    p = [x + org[0], org[1] + 0.0 * x, org[2] + 0.0 * x]
    v, dv = f.v(np.array(p, dtype=object).view(patch.SymArray) if c.symbolic else np.array(p, float))
    c.near('change across the axis', dv[0][1], 0.0, 1e-9)
    c.near('change across the axis', dv[0][2], 0.0, 1e-9)


# ------------------------------------------------------------------ rays
def sphere(c, n, full):
    """ray directions: unit vectors, the first along the given direction, all inside the solid angle"""
    from acoular.environments import spiral_sphere
    Om = 4 * math.pi if full else c.choice('Om', [math.pi, 2 * math.pi])
    R = c.real('R', 0.05, 20, pos=True)
    u = c.choice('direction', DIR + [(0.0, 0.0, -1.0), (1.0, 0.0, 0.0), (0.6, 0.0, -0.8)])
    b = [R * u[i] for i in range(3)]
    arr = objarr(c, b)
    xyz = spiral_sphere(n, Om, b=arr)
    c.same('one direction for each ray', xyz.shape, (3, n))
    for i in range(3):
        c.near('first direction', xyz[i, 0], u[i], 1e-6)
    for j in range(n):
        col = [xyz[i, j] for i in range(3)]
        c.near('unit vectors', dot3(col, col), 1.0, 1e-6)
        c.true('inside the solid angle', dot3(col, u) >= 1 - Om / (2 * math.pi) - 1e-6)


class Ode:
    """stand-in for the integrator of the ray equations"""

    log = None

    def __init__(self, f, jac=None):
        self.f, self.t = f, 0
        self.p = ()
        Ode.log['f'] = self

    def set_f_params(self, *a):
        self.p = a
        return self

    def set_integrator(self, *a, **k):
        return self

    def set_initial_value(self, y, t=0.0):
        self.y, self.t = y, t
        return self

    def successful(self):
        return True

    def integrate(self, t, *a, **k):
        raise NotImplementedError


def _ode(f, jac=None):
    import scipy.integrate as si
    return Ode(f) if Ode.log is not None else si.ode(f)


def _lnd(xyz, t, *a, **k):
    import scipy.interpolate as sp
    if Ode.log is None:
        return sp.LinearNDInterpolator(xyz, t, *a, **k)
    Ode.log['xyz'], Ode.log['t'] = xyz, t
    return Ode.log['interp'](len(Ode.log.setdefault('calls', [])))


class Hull:
    def __init__(self, pts, *a, **k):
        self.n = len(pts)
        self.simplices = np.array([[0]])

    def add_points(self, p, *a, **k):
        pass


def _hull(pts, *a, **k):
    import scipy.spatial as s
    return Hull(pts) if Ode.log is not None else s.ConvexHull(pts, *a, **k)


_ff = {}


def given(v, dv):
    if not _ff:
        from traits.api import Any

        class Given(ac().FlowField):
            digest = Any('given')
            f = Any()

            def _get_digest(self):
                return 'given'

            def v(self, xx):
                return self.f(xx)
        _ff['G'] = Given
    g = _ff['G']()
    g.f = v if callable(v) else (lambda xx: (v, dv))
    return g


def objarr(c, x):
    return np.array(x, dtype=object).view(patch.SymArray) if c.symbolic else np.array(x, float)


def rays(c, n):
    """every ray starts at the microphone at time zero in its own direction and all its points are kept with their times"""
    if not c.symbolic:
        return rays_real(c)
    patch_numeric(c)
    sound = c.choice('c', [343.0, 200.0])
    v = [c.real('v%d' % i, -0.4 * sound, 0.4 * sound) for i in range(3)]
    if c.choice('plane', [True, False]):
        v[1] = 0.0
    e = ac().GeneralFlowEnvironment(c=sound, N=n, Om=c.choice('Om', [math.pi, 0.5 * math.pi]), ff=given(objarr(c, v), np.zeros((3, 3))))
    m = (0.0, 0.5, -1.0)
    gp = [(0.0, 0.0, 1.0), (1.0, 0.0, 1.0), (0.0, 1.5, 1.25)]
    far = max(math.dist(m, q) for q in gp)
    log = []

    def setv(self, y, t=0.0):
        log.append([(t, y)])
        self.y, self.t = y, t
        return self

    def integrate(self, t, *a, **k):
        s = log[-1]
        c.true('time goes on', t > s[-1][0])
        c.true('next time step', t - s[-1][0] < far / sound)
        y = [c.real('y%d_%d_%d' % (len(log), len(s), i), -9, 9) for i in range(6)]
        inside = c.bool('in%d_%d' % (len(log), len(s))) if len(s) < 3 else False
        d = [y[i] - m[i] for i in range(3)]
        if inside:
            for x in d:
                c.assume((x < 0.3) & (x > -0.3))
        else:
            c.assume(d[0] > 2 * far + 1)
        self.y, self.t = objarr(c, y), t
        s.append((t, self.y))
        return self.y
    Ode.log = {'interp': lambda i: (lambda pts: np.array([c.real('t%d' % k, 0, 9) for k in range(len(pts))], dtype=object).view(patch.SymArray))}
    old = Ode.set_initial_value, Ode.integrate
    Ode.set_initial_value, Ode.integrate = setv, integrate
    try:
        gt = e._r(mat(gp), mat([m]))
        xyz, t = Ode.log['xyz'], Ode.log['t']
    finally:
        Ode.log = None
        Ode.set_initial_value, Ode.integrate = old
    want = [w for s in log for w in s]
    c.same('points and times', (len(xyz), len(t)), (len(want), len(want)))
    for k, (ti, y) in enumerate(want):
        c.near('time of a point', t[k], ti, 1e-9)
        for i in range(3):
            c.eq('point of a ray', xyz[k][i], y[i])
    c.true('enough rays', len(log) >= 2)
    mean = [sum(q[i] for q in gp) / 3 - m[i] for i in range(3)]
    nm = math.sqrt(dot3(mean, mean))
    for k, s in enumerate(log):
        t0, y0 = s[0]
        c.same('start time', float(t0), 0.0)
        for i in range(3):
            c.near('start at the microphone', y0[i], m[i], 1e-9)
        if k == 0:
            # slowness along the ray direction
            for i in range(3):
                c.near('direction of the first ray', y0[3 + i] * (mean[(i + 1) % 3] / nm), y0[3 + (i + 1) % 3] * (mean[i] / nm), 1e-6)
            c.true('first ray points to the region of interest', dot3(list(y0[3:6]), mean) > 0)
    for k in range(3):
        c.eq('distance is sound speed times travel time', gt[k], sound * c.real('t%d' % k, 0, 9))


def rays_real(c):
    """the genuine ray tracing approximates the exact solution for uniform flow"""
    sound = c.choice('c', [343.0, 200.0])
    v = np.array([c.real('v%d' % i, -0.4 * sound, 0.4 * sound) for i in range(3)])
    if c.choice('plane', [True, False]):
        v[1] = 0.0
    c.choice('Om', [0, 1])
    m = np.array([[0.0, 0.5, -1.0]]).T
    g = mat([(0.0, 0.0, 1.0), (1.0, 0.0, 1.0), (0.0, 1.5, 1.25)])
    e = ac().GeneralFlowEnvironment(c=sound, N=200, Om=math.pi, ff=given(v, np.zeros((3, 3))))
    e.roi = mat([(x, y, z) for x in (-1.0, 2.0) for y in (-1.0, 2.5) for z in (0.5, 2.0)])
    gt = e._r(g, m)
    for k in range(3):
        d = g[:, k] - m[:, 0]
        # |d + v t| = c t : travel time from the grid point to the microphone with the flow
        A, B, C = v @ v - sound ** 2, d @ v, d @ d
        t = (-B - math.sqrt(B * B - A * C)) / A
        c.near('travel time in uniform flow', gt[k] / (sound * t), 1.0, 0.05)


def equation(c):
    """ray equations of Pierce in the reversed flow"""
    sound = c.choice('c', [343.0, 200.0])
    v = [c.real('v%d' % i, -60, 60) for i in range(3)]
    J = [[c.real('d%d%d' % (j, i), -50, 50) for i in range(3)] for j in range(3)]
    s = vec(c, 's', -1, 1)
    c.assume(dot3(s, s) >= 0.01)
    mode = c.choice('J', ['rotation', 'any'])
    if mode == 'rotation':
        for j in range(3):
            J[j][j] = 0.0
            for i in range(j):
                J[j][i] = -J[i][j]
    ff = given(lambda xx: (objarr(c, v), objarr(c, J)), None)
    e = ac().GeneralFlowEnvironment(c=sound, N=2, ff=ff)
    Ode.log = {'interp': lambda i: (lambda pts: np.zeros(len(pts)))}
    try:
        patch_numeric(c)
        g = mat([(0.0, 0.0, 1.0), (1.0, 0.0, 1.0)])

        class Stop(Exception):
            pass

        def stop(self, t, *a, **k):
            raise Stop
        old, Ode.integrate = Ode.integrate, stop
        try:
            e._r(g, mat([(0.0, 0.5, -1.0)]))
        except Stop:
            pass
        finally:
            Ode.integrate = old
        o = Ode.log['f']
        dy = o.f(0.0, objarr(c, [0.1, 0.2, 0.3] + s), *o.p)
    finally:
        Ode.log = None
    ns = sqrt(dot3(s, s))
    for k in range(3):
        c.eq('velocity along the ray', dy[k], sound * s[k] / ns - v[k])
    for k in range(3):
        want = 0
        for j in range(3):
            want = want + s[j] * J[j][k]
        c.eq('refraction by a rotating flow' if mode == 'rotation' else 'refraction by a shear flow', dy[3 + k], want)


def patch_numeric(c):
    """recording stand-ins replace the scipy functions (they pass calls on unless a recording is active)"""
    import acoular.environments as E
    E.ode, E.LinearNDInterpolator, E.ConvexHull = _ode, _lnd, _hull


def table(c, ng, nm):
    """every microphone has its own travel times, also when a call repeats"""
    e = ac().GeneralFlowEnvironment(c=300.0, N=2, ff=given(np.zeros(3), np.zeros((3, 3))))
    T = c.array('T', (nm, ng), 0, 9)
    made = []

    def interp(roi, x0):
        made.append(tuple(float(x) for x in x0))
        k = len(made) - 1
        return lambda pts: T[mics.index(made[k])][[gpos.index(tuple(float(x) for x in p)) for p in pts]]
    gpos = [(0.0, 0.0, 1.0), (1.0, 0.0, 1.0), (0.0, 1.5, 1.25)][:ng]
    mics = [(0.0, 0.5, -1.0), (0.5, 0.5, -1.0), (1.0, 0.5, -1.0)][:nm]
    e.__dict__['get_interpolator'] = interp
    if c.bool('before'):
        e._r(mat(gpos), mat(mics[:1]))
    order = list(reversed(range(ng))) if c.bool('reversed') else list(range(ng))
    g2 = [gpos[i] for i in order]
    r = e._r(mat(g2), mat(mics))
    c.same('shape', r.shape, (ng,) if nm == 1 else (ng, nm))
    r = r.reshape(ng, nm)
    for i in range(ng):
        for j in range(nm):
            c.eq('travel time of grid point and microphone', r[i, j], 300.0 * T[j, order[i]])


def cyl(c, turned):
    """cylindrical coordinates and back"""
    from acoular import cartToCyl, cylToCart
    p = [vec(c, 'p%d' % i) for i in range(2)]
    for q in p:
        c.assume(q[0] * q[0] + q[1] * q[1] >= 0.01)
        if c.symbolic:
            c.assume(q[0] > 0)
    Q = np.array([[0, 1.0, 0], [-1.0, 0, 0], [0, 0, 1.0]]) if turned else None
    x = mat(p)
    y = cartToCyl(x, Q) if turned else cartToCyl(x)
    for i in range(2):
        a = p[i] if not turned else [p[i][1], -p[i][0], p[i][2]]
        c.eq('radius', y[1, i] * y[1, i], a[0] * a[0] + a[1] * a[1])
        c.true('radius is not negative', y[1, i] >= 0)
        c.eq('height', y[2, i], a[2])
    if turned:
        return
    phi = c.real('phi', -3, 3)
    rad = c.real('rad', 0.1, 3)
    z = c.real('z', -3, 3)
    w = cylToCart(mat([(phi, rad, z)]))
    co = core.cos(phi)
    c.eq('height', w[2, 0], z)
    c.eq('radius', w[0, 0] * w[0, 0] + w[1, 0] * w[1, 0], rad * rad)
    if not turned:
        c.eq('x from the angle', w[0, 0], rad * co)


def scenarios(tier):
    thorough = tier == 'thorough'
    out = []

    def add(name, fn, cost=5, opts=None, **params):
        out.append(dict(name=name, fn=fn, params=params, opts=opts or {}, cost=cost, rtol=1e-4))
    for ng, nm in ((1, 0), (3, 0), (1, 1), (2, 2), (3, 1), (1, 2)) + (((3, 3),) if thorough else ()):
        add('distances %dx%d' % (ng, nm), distances, ng=ng, nm=nm)
    for ng, nm in ((1, 1), (3, 2), (2, 1)):
        add('uniform flow %dx%d' % (ng, nm), uniform, ng=ng, nm=nm, free='ma')
    add('uniform flow positions', uniform, ng=1, nm=1, free='pos')
    add('uniform flow direction', uniform, ng=1, nm=2, free='dir')
    add('no flow', still)
    for kind in ('rot', 'open', 'slot'):
        add('flow field %s' % kind, jacobian, kind=kind)
    add('axis of a round jet', axis)
    add('rotational speed', rpm)
    for n in (2, 5) + ((12,) if thorough else ()):
        add('directions %d' % n, sphere, n=n, full=False)
    add('directions all around', sphere, n=4, full=True)
    for n in (2, 4) + ((6,) if thorough else ()):
        add('rays %d' % n, rays, cost=20, n=n)
    add('ray equation', equation)
    for ng, nm in ((2, 1), (3, 2), (2, 3)):
        add('travel times %dx%d' % (ng, nm), table, ng=ng, nm=nm)
    add('cylindrical coordinates', cyl, turned=False)
    add('cylindrical coordinates turned', cyl, turned=True)
    return out
