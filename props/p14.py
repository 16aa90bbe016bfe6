"""Identities: objects with equal identities have equal results, and identities follow every change."""
import warnings

from symx import core, ident
from symx.lib import ac, cat, np, run, setattrs, src

BOUNDS = ('one small configuration per class (74 classes), every parameter that takes part in the result changed on its own to a second value '
          '(a symbolic real where possible), before or after identity and result have been read, and back')
ASSUMPTIONS = ['the hash function is injective', 'changes of array elements in place are not seen (arrays are replaced)']
E = {}


def entry(name, params, result, cost=3, rtol=None):
    def deco(f):
        E[name] = (f, params, result, cost)
        return f
    return deco


def R(lo, hi, **k):
    """a symbolic real"""
    return lambda c, n: c.real(n, lo, hi, **k)


def V(*shape, lo=-2, hi=2):
    return lambda c, n: c.array(n, shape, lo, hi)


def put(o, path, v):
    if callable(path):
        return path(o, v)
    p = path.split('.')
    for n in p[:-1]:
        o = getattr(o, n)
    setattrs(o, **{p[-1]: v})


def change(c, name):
    f, params, result, _ = E[name]
    which = c.choice('parameter', list(params))
    v0, v1 = params[which]
    one = lambda v, n: v(c, n) if callable(v) else v
    x, y = one(v0, 'v0'), one(v1, 'v1')
    if c.symbolic and not isinstance(y, (list, tuple, str)):
        d = np.asarray(y, dtype=object).ravel().tolist()
        if any(isinstance(e, core.Sym) for e in d):
            w = np.broadcast_to(np.asarray(x, dtype=object), np.shape(y)).ravel().tolist()
            c.assume(core.or_(*[p != q for p, q in zip(d, w) if isinstance(p, core.Sym) or isinstance(q, core.Sym)]))

    def fresh(v, n):
        o = f(c)
        for k, w in params.items():
            if k != which:
                put(o, k, one(w[0], 'p%d' % list(params).index(k)))
        put(o, which, one(v, n))
        return o
    P = (which if isinstance(which, str) else 'item') + ': '
    with ident.tokens(c), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a, b = fresh(v0, 'v0'), fresh(v1, 'v1')
        da, db = a.digest, b.digest
        ra, rb = result(a), result(b)
        if ident.same(da, db):
            compare(c, P + 'equal identities, equal results', ra, rb)
        c.true(P + 'identity does not change on reading', ident.same(a.digest, da))
        o = fresh(v0, 'v0')
        c.true(P + 'identity depends on the parameters only', ident.same(o.digest, da))
        if c.bool('result read before'):
            result(o)
        put(o, which, one(v1, 'v1'))
        c.true(P + 'identity follows the change', ident.same(o.digest, db))
        compare(c, P + 'result follows the change', result(o), rb)
        put(o, which, one(v0, 'v0'))
        c.true(P + 'identity returns with the parameters', ident.same(o.digest, da))
        compare(c, P + 'result returns with the parameters', result(o), ra)


def compare(c, label, a, b):
    c.same(label, len(a), len(b))
    for x, y in zip(a, b):
        x, y = np.asarray(x), np.asarray(y)
        c.same(label, x.shape, y.shape)
        if x.dtype == object or y.dtype == object:
            c.eq(label, x, y)
        else:
            c.true(label, bool(np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc')))


# ------------------------------------------------------------------------------- signals
sg = lambda s: [s.signal()]
COMMON = {'num_samples': (8, 9), 'sample_freq': (1.0, R(0.5, 4, pos=True)), 'rms': (1.0, R(-2, 2)), 'seed': (1, 2)}


@entry('WNoiseGenerator', COMMON, sg)
def _(c):
    return ac().WNoiseGenerator(num_samples=8)


@entry('PNoiseGenerator', dict(COMMON, depth=(2, 1)), sg)
def _(c):
    return ac().PNoiseGenerator(num_samples=8)


@entry('FiltWNoiseGenerator', dict(COMMON, ar=(np.array([1.0, 0.3]), np.array([1.0, 0.3 + 1e-12])), ma=(np.ones(3), np.array([1.0, 1, 0.25]))), sg)
def _(c):
    return ac().FiltWNoiseGenerator(num_samples=8)


@entry('FiltWNoiseGenerator, many coefficients', {'ma': (np.ones(1200) / 64, np.where(np.arange(1200) == 600, 0.5, 1.0) / 64)}, lambda o: [o.ma])
def _(c):
    return ac().FiltWNoiseGenerator(num_samples=8)


@entry('SineGenerator', {'num_samples': (3, 4), 'sample_freq': (8.0, R(4, 16, pos=True)), 'amplitude': (1.0, R(-2, 2)), 'freq': (1.0, R(0.5, 2)),
                         'phase': (0.0, R(-1, 1))}, sg)
def _(c):
    return ac().SineGenerator()


def tsrc(c, tag='src', T=4, nch=2, fs=8.0):
    return src(c.array('x' + tag, (T, nch), -2, 2), fs=fs, tag=tag)


NEWSRC = (lambda c, n: tsrc(c, 'one'), lambda c, n: tsrc(c, 'two'))


@entry('GenericSignalGenerator', {'num_samples': (6, 11), 'amplitude': (1.0, R(-2, 2)), 'loop_signal': (True, False), 'source': NEWSRC}, sg)
def _(c):
    return ac().GenericSignalGenerator(source=tsrc(c))


# ------------------------------------------------------------------------------- geometry
XYZ = np.array([[1.0, -1.0, 0.25], [0.5, 0.0, 2.0], [2.0, 1.0, 1.5]])
GP = np.array([[0.0, 1.0, 0.5], [0.0, 0.5, -1.0], [3.0, 3.0, 2.5]])
r_ = lambda e: [e._r(GP, XYZ)] + [e.c]


@entry('Environment', {'c': (343.0, R(100, 2000, pos=True))}, r_)
def _(c):
    return ac().Environment()


@entry('UniformFlowEnvironment', {'c': (343.0, R(100, 2000, pos=True)), 'ma': (0.2, 0.25), 'fdv': (np.array([1.0, 0, 0]), np.array([1.0, 1e-9, 0]))}, r_)
def _(c):
    return ac().UniformFlowEnvironment()


flow = lambda f: list(f.v(np.array([1.5, 0.4, 0.3]))) + list(f.v(np.array([0.5, 0.01, 0.02])))
P3 = (np.zeros(3), np.array([-0.125, 0.25, 0.5]))


@entry('SlotJet', {'v0': (10.0, R(1, 50)), 'origin': P3, 'flow': (np.array([1.0, 0, 0]), np.array([1.0, 0, 0.125])), 'B': (0.2, 0.3), 'l': (5.2, 3.0),
                   'plane': (np.array([0.0, 1, 0]), np.array([0.0, 1, 1]))}, flow)
def _(c):
    return ac().SlotJet()


@entry('OpenJet', {'v0': (10.0, R(1, 50)), 'origin': P3, 'D': (0.2, 0.3), 'l': (5.2, 3.0)}, flow)
def _(c):
    return ac().OpenJet()


@entry('RotatingFlow', {'v0': (10.0, R(1, 50)), 'origin': (np.zeros(3), V(3)), 'rps': (1.0, R(-2, 2))}, flow)
def _(c):
    return ac().RotatingFlow()


@entry('RotatingFlow, rpm', {'rpm': (60.0, R(-200, 200))}, flow)
def _(c):
    return ac().RotatingFlow()


GF = np.array([[0.0, 1.0, 0.5, 0, 0.3], [0.0, 0.5, 0.3, 1, 0.2], [1.0, 1.25, 1.5, 1, 1.1]]) * 0.2


@entry('GeneralFlowEnvironment', {'c': (343.0, 300.0), 'ff.v0': (20.0, 40.0), 'N': (30, 20), 'Om': (3.0, 2.0),
                                  'ff': (lambda c, n: ac().OpenJet(v0=20.0, origin=(-1.0, 0, 0)), lambda c, n: ac().RotatingFlow(rps=3.0)),
                                  'roi': (None, GF * 1.5)}, lambda e: [e._r(GF, XYZ[:, :1] * 0.25)], cost=30)
def _(c):
    return ac().GeneralFlowEnvironment(ff=ac().OpenJet(v0=20.0, origin=(-1.0, 0, 0)))


pos = lambda o: [o.pos]


@entry('MicGeom', {'pos_total': (XYZ, V(3, 3)), 'invalid_channels': ([], [1])}, pos)
def _(c):
    return ac().MicGeom()


GR = {'x_min': (0.0, 1.0), 'x_max': (2.0, 3.0), 'y_min': (0.0, -1.0), 'y_max': (1.0, 2.0), 'increment': (1.0, 0.5)}


@entry('RectGrid', dict(GR, z=(1.0, R(-2, 2))), pos)
def _(c):
    return ac().RectGrid()


@entry('RectGrid3D', dict(GR, z_min=(0.0, -1.0), z_max=(1.0, 2.0)), pos)
def _(c):
    return ac().RectGrid3D()


@entry('RectGrid3D, increments', {'increment': (np.array([1.0, 1.0, 0.5]), np.array([1.0, 0.5, 0.5])), 'x_max': (2.0, 1.0)}, pos)
def _(c):
    return ac().RectGrid3D(x_min=0, x_max=1, y_min=0, y_max=1, z_min=0, z_max=1)


@entry('LineGrid', {'loc': ((0.0, 0, 0), (0.0, 1.0, 0)), 'direction': ((1.0, 0, 0), (0.0, 1.0, 0)), 'length': (1.0, R(0.5, 3)), 'num_points': (3, 4)}, pos)
def _(c):
    return ac().LineGrid()


@entry('ImportGrid', {'pos': (GP, V(3, 3)), 'subgrids': (['', '', ''], ['a', 'a', 'b'])}, lambda o: [o.pos])
def _(c):
    return ac().ImportGrid()


def _grids(*k):
    return lambda c, n: [ac().RectGrid(x_min=0, x_max=1 + i, y_min=0, y_max=0, z=float(i)) for i in k]


@entry('MergeGrid', {'grids': (_grids(0, 1), _grids(0, 2))}, pos)
def _(c):
    return ac().MergeGrid()


@entry('MergeGrid, parts', {lambda o, v: put(o.grids[1], 'z', v): (3.0, 5.0)}, pos)
def _(c):
    return ac().MergeGrid(grids=_grids(0, 1)(c, ''))


@entry('Trajectory', {'points': ({0.0: (0.0, 0, 0), 1.0: (1.0, 2, 0), 2.0: (3.0, 1, 1)}, {0.0: (0.0, 0, 0), 1.0: (1.0, 2, 0), 2.0: (3.0, 1, 1.5)}),
                      lambda o, v: o.points.update({1.5: v}): ((2.0, 2.0, 0.0), (2.0, 2.5, 0.0))}, lambda o: [o.location(0.7), o.location(1.2, 1), o.interval])
def _(c):
    return ac().Trajectory(points={0.0: (0.0, 0, 0), 1.0: (1.0, 2, 0), 2.0: (3.0, 1, 1)})


def mics(n=3, d=0.0):
    m = ac().MicGeom()
    m.pos_total = XYZ[:, :n] + d
    return m


def igrid():
    g = ac().ImportGrid()
    g.pos = GP
    return g


STEER = {'steer_type': ('true level', 'classic'), 'env.c': (343.0, 100.0), 'mics.invalid_channels': ([], [1]), 'ref': (1.0, np.array([0.5, 0, 0])),
         'grid': (lambda c, n: igrid(), lambda c, n: ac().RectGrid(x_min=0, x_max=1, y_min=0, y_max=0, z=2.0)), 'mics': (lambda c, n: mics(), lambda c, n: mics(3, 0.1)),
         'env': (lambda c, n: ac().Environment(), lambda c, n: ac().UniformFlowEnvironment(ma=0.2))}


def steer(**k):
    return ac().SteeringVector(grid=igrid(), mics=mics(), **k)


@entry('SteeringVector', dict(STEER, ref=(1.0, 2.0)), lambda s: [s.steer_vector(200.0), s.transfer(200.0), s.r0, s.rm])
def _(c):
    return steer()


@entry('SteeringVector, reference', {'ref': (np.array([0.0, 0, 1.0]), V(3, lo=-1, hi=1)), 'steer_type': ('classic', 'inverse')}, lambda s: [s.r0])
def _(c):
    return steer()


# ------------------------------------------------------------------------------- time data
sig = lambda o: [cat(run(o, 2), o.num_channels), o.sample_freq]
S = {'source': NEWSRC}


@entry('TimeSamples', {'data': (V(4, 2), V(4, 2)), 'sample_freq': (8.0, R(4, 16, pos=True))}, sig)
def _(c):
    return ac().TimeSamples()


@entry('TimeSamples, plain data', {'data': (np.array([[0.0, 0], [1, 2], [3, 4]]), np.array([[0.0, 0], [1, 2], [3, 5]]))}, sig)
def _(c):
    return ac().TimeSamples()


@entry('MaskedTimeSamples', {'data': (V(4, 2), V(4, 2)), 'sample_freq': (8.0, R(4, 16, pos=True)), 'start': (0, 1), 'stop': (None, 3), 'invalid_channels': ([], [1])}, sig)
def _(c):
    return ac().MaskedTimeSamples()


@entry('Calib', dict(S, data=(np.array([1.0, 2.0]), V(2))), sig)
def _(c):
    return ac().Calib(data=np.array([1.0, 2.0]))


@entry('Calib, channels', {'invalid_channels': ([2], [0])}, sig)
def _(c):
    return ac().Calib(data=np.array([1.0, 2.0, 3.0]), source=tsrc(c))


for _n in ['TimePower', 'TimeCumAverage', 'TimeReverse', 'Cache', 'SamplesBuffer', 'SampleSplitter']:
    def _mk(n):
        def f(c):
            o = getattr(ac(), n)() if hasattr(ac(), n) else getattr(__import__('acoular.process', fromlist=['x']), n)()
            if n == 'SamplesBuffer':
                o.length = 8
            return o
        return f
    if _n not in ('SampleSplitter',):
        entry(_n, S, sig)(_mk(_n))


@entry('Average', dict(S, num_per_average=(1, 2)), sig)
def _(c):
    return ac().Average()


@entry('MaskedTimeOut', dict(S, start=(0, 1), stop=(None, 3), invalid_channels=([], [1])), sig)
def _(c):
    return ac().MaskedTimeOut()


@entry('MaskedTimeInOut', dict(S, start=(0, 1), stop=(None, 3), invalid_channels=([], [1])), lambda o: [])
def _(c):
    return ac().tprocess.MaskedTimeInOut()


@entry('ChannelMixer', dict(S, weights=(np.array([1.0, 2.0]), V(2))), sig)
def _(c):
    return ac().ChannelMixer()


@entry('Mixer', dict(S, sources=(lambda c, n: [tsrc(c, 'four')], lambda c, n: [tsrc(c, 'five'), tsrc(c, 'six')])), sig)
def _(c):
    return ac().Mixer()


@entry('Mixer, sources', {lambda o, v: (put(o.sources[0], 'd', v(0)), put(o.sources[0], 'tag', v(1))): (
    lambda c, n: lambda i: (c.array('u', (4, 2), -2, 2), 'u')[i], lambda c, n: lambda i: (c.array('w', (4, 2), -2, 2), 'w')[i]),
    lambda o, v: o.sources.__setitem__(0, v): (lambda c, n: tsrc(c, 'u'), lambda c, n: tsrc(c, 'w'))}, sig)
def _(c):
    return ac().Mixer(source=tsrc(c), sources=[tsrc(c, 'four')])


@entry('FiltOctave', dict(S, band=(1000.0, 2000.0), fraction=('Octave', 'Third octave'), order=(3, 2)), sig)
def _(c):
    return ac().FiltOctave()


@entry('FiltFiltOctave', dict(S, band=(1000.0, 2000.0), fraction=('Octave', 'Third octave'), order=(2, 1)), sig)
def _(c):
    return ac().FiltFiltOctave()


@entry('TimeExpAverage', dict(S, weight=('F', 'S')), sig)
def _(c):
    return ac().TimeExpAverage()


@entry('FiltFreqWeight', dict(S, weight=('A', 'C')), sig)
def _(c):
    return ac().FiltFreqWeight()


@entry('OctaveFilterBank', dict(S, lband=(30, 29), hband=(31, 32), fraction=('Third octave', 'Octave')), sig)
def _(c):
    return ac().OctaveFilterBank()


@entry('TimeConvolve', dict(S, kernel=(np.array([[1.0], [0.5]]), V(2, 1))), sig)
def _(c):
    return ac().TimeConvolve()


E['FiltFiltOctave'][1]['source'] = tuple((lambda c, n, k=k: src(c.array(k, (17, 1), -2, 2), fs=8000.0, tag=k)) for k in 'ab')
for _n in ['FiltOctave', 'TimeExpAverage', 'FiltFreqWeight', 'OctaveFilterBank']:
    E[_n][1]['source'] = (lambda c, n: src(c.array('xa', (4, 1), -2, 2), fs=8000.0, tag='a'), lambda c, n: src(c.array('xb', (4, 1), -2, 2), fs=8000.0, tag='b'))


@entry('WriteWAV', dict(S, channels=([0], [1])), lambda o: [])
def _(c):
    return ac().WriteWAV()


@entry('WriteH5', S, lambda o: [])
def _(c):
    return ac().WriteH5()


def trig(k=0):
    d = np.zeros((60, 1))
    d[[3 + k, 11, 19 + k, 28, 36, 44, 52]] = 1.0
    d[[4, 12, 20, 29, 37, 45, 53]] = 0.6
    d[[9, 17, 34]] = -0.7
    return src(d, fs=10.0, tag='trigger%d' % k)


TR = {'threshold': (0.5, -0.5), 'max_variation_of_duration': (0.4, 0.02), 'hunk_length': (0.2, 0.05), 'trigger_type': ('dirac', 'rect'),
      'multiple_peaks_in_hunk': ('extremum', 'first'), 'source': (lambda c, n: trig(), lambda c, n: trig(1))}


def tdata(o):
    try:
        return [np.array(x, dtype=float) for x in o.trigger_data]
    except Exception as e:
        return [np.array([hash(repr(type(e))) % 1000])]


@entry('Trigger', TR, tdata)
def _(c):
    return ac().Trigger()


def angle(c):
    return ac().AngleTracker(source=src(c.array('x', (50, 2), -2, 2), fs=10.0), trigger=ac().Trigger(source=trig(), threshold=0.5, max_variation_of_duration=0.4, hunk_length=0.2))


@entry('AngleTracker', {'trigger_per_revo': (1, 2), 'rot_direction': (-1, 1), 'interp_points': (4, 5), 'start_angle': (0.0, 1.0), 'start': (0, 2), 'stop': (None, 38),
                        'trigger.source': (lambda c, n: trig(), lambda c, n: trig(1)), 'source': (lambda c, n: tsrc(c, 'a', 50, 1), lambda c, n: tsrc(c, 'b', 49, 1))},
       lambda o: [np.array(o.angle, float), np.array(o.rpm, float), o.average_rpm])
def _(c):
    return angle(c)


def ring(n=4, r=1.0):
    m = ac().MicGeom()
    t = np.arange(n) * 2 * np.pi / n
    m.pos_total = np.array([r * np.cos(t), r * np.sin(t), t * 0])
    return m


SI = {'method': ('linear', 'IDW'), 'array_dimension': ('2D', 'ring'), 'interp_at_zero': (False, True), 'num_IDW': (3, 2), 'p_weight': (2.0, 1.0),
      'Q': (np.eye(3), np.array([[0.0, 1, 0], [-1, 0, 0], [0, 0, 1]]))}


def plane():
    m = ac().MicGeom()
    m.pos_total = np.array([[0.0, 1, 0, -1, 0.5, 0.1], [1.0, 0, -1, 0, 0.4, 0.2], [0, 0, 0, 0, 0, 0]])
    return m


ISRC = (lambda c, n: tsrc(c, 'a', 3, 6, 10.0), lambda c, n: tsrc(c, 'b', 3, 6, 10.0))


def virt(d):
    def f(c, n):
        m = ac().MicGeom()
        m.pos_total = np.array([[0.2, 0.3], [0.1, 0.2 + d], [0.0, 0]])
        return m
    return f


@entry('SpatialInterpolator, method', {'method': ('linear', 'IDW'), 'source': ISRC, 'mics_virtual': (virt(0), virt(0.1)), 'interp_at_zero': (False, True)}, sig)
def _(c):
    return ac().SpatialInterpolator(mics=plane(), array_dimension='2D')


@entry('SpatialInterpolator, IDW', {'num_IDW': (3, 2), 'p_weight': (2.0, 1.0), 'Q': SI['Q'], 'mics': (lambda c, n: plane(), lambda c, n: ring(6, 0.9))}, sig)
def _(c):
    return ac().SpatialInterpolator(mics=plane(), mics_virtual=virt(0.1)(c, ''), array_dimension='2D', method='IDW', source=ISRC[0](c, ''))


@entry('SpatialInterpolator, dimension', {'array_dimension': ('2D', 'ring')}, sig)
def _(c):
    return ac().SpatialInterpolator(mics=ring(6), array_dimension='2D', method='IDW', source=ISRC[0](c, ''), mics_virtual=ring(3, 0.9))


@entry('SpatialInterpolatorConstantRotation', {'rotational_speed': (1.0, 2.0), 'source': ISRC, 'method': ('linear', 'IDW'), 'mics_virtual': (lambda c, n: ring(6), lambda c, n: ring(5))}, sig)
def _(c):
    return ac().SpatialInterpolatorConstantRotation(mics=ring(6), array_dimension='ring')


# ------------------------------------------------------------------------------- sources
MP = np.array([[0.5, 1.0], [0.0, 0.5], [0.0, 0.25]])


def smics(k=0):
    m = ac().MicGeom()
    m.pos_total = MP[:, :2] + k
    return m


def wn(seed=1, n=4):
    return ac().WNoiseGenerator(seed=seed, num_samples=n, sample_freq=1.0)


SIG = (lambda c, n: wn(), lambda c, n: wn(2))
ENV = (lambda c, n: ac().Environment(c=1.0), lambda c, n: ac().UniformFlowEnvironment(c=1.0, ma=0.4))
PS = {'signal': SIG, 'signal.rms': (1.0, R(-2, 2)), 'loc': ((0.0, 0.0, 1.0), (0.0, 1.0, 2.0)), 'start_t': (0.0, -1.5), 'start': (0.0, 1.25), 'up': (2, 3), 'env.c': (1.0, 0.5),
      'mics': (lambda c, n: smics(), lambda c, n: smics(1.0)), 'env': ENV}
NORMS = {k: v for k, v in PS.items() if k != 'signal.rms'}
pts = lambda c, n: traj(0.0)


def traj(d):
    return ac().Trajectory(points={float(t): (0.1 * t, d * t, 1.0) for t in range(-5, 40, 5)})


TRAJ = {'trajectory': (lambda c, n: traj(0.0), lambda c, n: traj(0.05)), 'conv_amp': (False, True)}


def source(n, **k):
    return lambda c: getattr(ac(), n)(signal=wn(), mics=smics(), env=ac().Environment(c=1.0), **k)


entry('PointSource', dict(NORMS, prepadding=('zeros', 'loop')), sig)(source('PointSource', start=-1.0))
entry('PointSource, late', {'prepadding': ('zeros', 'loop')}, sig)(source('PointSource', start_t=0.0, start=-2.0))
entry('SphericalHarmonicSource', {k: v for k, v in NORMS.items() if k not in ('up',)} | {
    'alpha': (np.ones(4), np.array([1.0, 1, 0.5, 1])), 'direction': ((1.0, 0.0, 0.0), (0.0, 0.0, 1.0))}, sig)(
        source('SphericalHarmonicSource', lOrder=1, alpha=np.ones(4)))
entry('MovingPointSource', dict(NORMS, **TRAJ), sig, cost=10)(source('MovingPointSource', trajectory=None))
entry('PointSourceDipole', dict(NORMS, direction=((0.0, 0.0, 1.0), (0.0, 1.0, 1.0))), sig)(source('PointSourceDipole'))
entry('MovingPointSourceDipole', dict(NORMS, direction=((0.0, 0.0, 1.0), (0.0, 1.0, 1.0)), rvec=(np.zeros(3), np.array([0.0, 0, 1.0])), **TRAJ), sig, cost=10)(
    source('MovingPointSourceDipole'))
LI = dict(NORMS, direction=((0.0, 0.0, 1.0), (0.0, 1.0, 1.0)), length=(1.0, 2.5), num_sources=(2, 1), source_strength=(np.ones(2), np.array([1.0, 2.0])),
          coherence=('coherent', 'incoherent'))
entry('LineSource', LI, sig)(source('LineSource'))
entry('MovingLineSource', dict(LI, **TRAJ), sig, cost=10)(source('MovingLineSource'))
entry('UncorrelatedNoiseSource', {'signal': SIG, 'seed': ([1, 2], [3, 2]), 'mics': (lambda c, n: smics(), lambda c, n: ac().MicGeom(pos_total=XYZ[:, :2])),
                                  'signal.num_samples': (4, 5)}, sig)(lambda c: ac().UncorrelatedNoiseSource(signal=wn(), mics=smics()))
entry('UncorrelatedNoiseSource, own seeds', {'signal': SIG, 'signal.rms': (1.0, R(-2, 2)), 'mics': (lambda c, n: smics(), lambda c, n: ac().MicGeom(pos_total=XYZ))}, sig)(
    lambda c: ac().UncorrelatedNoiseSource(signal=wn(), mics=smics()))
entry('SourceMixer', {'sources': (lambda c, n: [tsrc(c, 'a'), tsrc(c, 'b')], lambda c, n: [tsrc(c, 'a'), tsrc(c, 'd')]), 'weights': (np.array([1.0, 2.0]), V(2)),
                      lambda o, v: o.sources.__setitem__(0, v): (lambda c, n: tsrc(c, 'u'), lambda c, n: tsrc(c, 'w'))}, sig)(
    lambda c: ac().SourceMixer(sources=[tsrc(c, 'a'), tsrc(c, 'b')]))
entry('PointSourceConvolve', {'signal': SIG, 'loc': ((0.0, 0.0, 1.0), (0.0, 1.0, 2.0)), 'kernel': (np.array([[1.0], [0.5]]), np.array([[1.0], [0.25]])),
                              'mics': (lambda c, n: smics(), lambda c, n: smics(1.0))}, sig)(lambda c: ac().PointSourceConvolve(signal=wn(), mics=smics()))


# ------------------------------------------------------------------------------- spectra
def spec(c, tag='a', nch=2):
    from .bfh import classes
    from traits.api import Any, Property
    if 'SpecSrc' not in _k:
        class SpecSrc(ac().base.SpectraGenerator):
            d = Any()
            tag = Any('')
            digest = Property(depends_on=['tag'])

            def _get_digest(self):
                return self.tag

            def result(self, num):
                for i in range(0, len(self.d), num):
                    yield self.d[i:i + num].copy()
        _k['SpecSrc'] = SpecSrc
    d = np.array([[c.cplx('%s%d,%d' % (tag, i, j), 2) for j in range(nch * 3)] for i in range(2)], dtype=object if c.symbolic else complex)
    if c.symbolic:
        from symx.arrays import SymArray
        d = d.view(SymArray)
    return _k['SpecSrc'](d=d, tag=tag, num_channels=nch, num_freqs=3, num_samples=2, sample_freq=8.0, block_size=4)


_k = {}
SP = {'source': (lambda c, n: spec(c, 'a'), lambda c, n: spec(c, 'b'))}
spr = lambda o: [cat(run(o, 2))]
N8 = (lambda c, n: tsrc(c, 'one', 8, 1), lambda c, n: tsrc(c, 'two', 8, 1))
WIN = {'window': ('Rectangular', 'Hanning'), 'overlap': ('None', '50%')}
entry('RFFT', {'source': N8, 'scaling': ('none', 'energy'), 'block_size': (4, 8), **WIN}, spr)(lambda c: ac().RFFT())
entry('IRFFT', dict(SP), spr)(lambda c: ac().IRFFT())
entry('AutoPowerSpectra', dict(SP, scaling=('power', 'psd'), single_sided=(True, False)), spr)(lambda c: ac().AutoPowerSpectra())
entry('CrossPowerSpectra', dict(SP, calc_mode=('full', 'upper')), spr)(lambda c: ac().CrossPowerSpectra())


def smallblocks():
    """power spectra with a block size small enough for symbolic data"""
    if 'PS' not in _k:
        from traits.api import Enum

        class PS(ac().PowerSpectra):
            block_size = Enum(4, 2, 8)
        _k['PS'] = PS
    return _k['PS']()


def psd(n):
    return lambda c: src(np.random.RandomState(n).standard_normal((16, 2)), fs=8.0, tag='psd%d' % n)


entry('PowerSpectra', {'source': N8, 'block_size': (4, 8), **WIN}, lambda o: [o.csm, o.fftfreq()])(lambda c: smallblocks())
H1 = np.array([[[2.0, 1j], [-1j, 2]], [[1.0, 0], [0, 3]]])


def fd(k=0.0):
    """imported cross spectral matrix of three channels at two frequencies"""
    r = np.random.RandomState(3)
    A = r.standard_normal((2, 3, 3)) + 1j * r.standard_normal((2, 3, 3))
    A = A @ A.conj().transpose(0, 2, 1)
    A[1, 0, 0] += k
    p = ac().PowerSpectraImport()
    p.frequencies = np.array([100.0, 200.0])
    p.csm = A
    return p


entry('PowerSpectraImport', {'csm': (H1, lambda c, n: herm2(c)), 'frequencies': (np.array([1.0, 2.0]), V(2))}, lambda o: [o.csm, o.frequencies, o.fftfreq()])(
    lambda c: ac().PowerSpectraImport())


def herm2(c):
    from .bfh import hermitian
    x = np.array([hermitian(c, 'h%d' % i, 2) for i in range(2)], dtype=object if c.symbolic else complex)
    if c.symbolic:
        from symx.arrays import SymArray
        return x.view(SymArray)
    return x


# ------------------------------------------------------------------------------- beamforming
ST = {'steer.steer_type': ('true level', 'classic'), 'steer.env.c': (343.0, 100.0), 'freq_data': (lambda c, n: fd(), lambda c, n: fd(0.5)),
      'freq_data.csm': (lambda c, n: fd().csm, lambda c, n: fd(0.25).csm), 'steer.mics': (lambda c, n: mics(), lambda c, n: mics(3, 0.25)),
      'steer': (lambda c, n: steer(), lambda c, n: steer(ref=2.0)), 'freq_data.frequencies': (np.array([100.0, 200.0]), np.array([100.0, 150.0]))}
PREC = {'precision': ('float64', 'float32')}
RD = dict(PREC, r_diag=(False, True), r_diag_norm=(0.0, 2.5))


def fresh_bf(cls, **k):
    def f(c):
        return getattr(ac(), cls)(cached=False, freq_data=fd(), steer=steer(), **k)
    return f


def bres(o):
    return [np.array(o.result[:])]


DM = {'n_iter': (3, 2), 'damp': (1.0, 0.5), 'psf_precision': ('float64', 'float32')}
entry('BeamformerBase', dict(ST, **RD), bres)(fresh_bf('BeamformerBase', r_diag=True))
entry('BeamformerFunctional', dict(ST, gamma=(1.0, 2.5), **PREC), bres)(fresh_bf('BeamformerFunctional'))
entry('BeamformerCapon', dict(ST, **PREC), bres)(fresh_bf('BeamformerCapon'))
entry('BeamformerEig', dict(ST, n=(-1, 0), **RD), bres)(fresh_bf('BeamformerEig', r_diag=True))
entry('BeamformerMusic', dict(ST, n=(1, 2), **PREC), bres)(fresh_bf('BeamformerMusic'))
entry('BeamformerDamas', dict(ST, **DM, **RD), bres)(fresh_bf('BeamformerDamas', r_diag=True))
entry('BeamformerDamasPlus', dict(ST, method=('NNLS', 'LassoLars'), alpha=(0.0, 0.5), n_iter=(50, 3), unit_mult=(1e9, 10.0), psf_precision=('float64', 'float32'), **RD), bres)(
    fresh_bf('BeamformerDamasPlus', method='LassoLars'))
entry('BeamformerOrth', dict(ST, eva_list=(np.array([-1]), np.array([-2])), n=(1, 2), **RD), bres)(fresh_bf('BeamformerOrth', r_diag=True))
entry('BeamformerCleansc', dict(ST, n_iter=(3, 1), damp=(0.6, 0.3), stopn=(3, 1), **RD), bres)(fresh_bf('BeamformerCleansc', r_diag=True))
entry('BeamformerClean', dict(ST, **dict(DM, damp=(0.6, 0.3)), **RD), bres)(fresh_bf('BeamformerClean', r_diag=True))
entry('BeamformerCMF', dict(ST, method=('NNLS', 'LassoLars'), alpha=(0.0, 0.5), n_iter=(50, 3), unit_mult=(1e9, 10.0), r_diag=(False, True), **PREC), bres)(
    fresh_bf('BeamformerCMF'))
entry('BeamformerSODIX', dict({k: v for k, v in ST.items()}, n_iter=(20, 2), alpha=(0.0, 0.5), unit_mult=(1e9, 10.0), r_diag=(False, True), **PREC), lambda o: [np.array(o.sodix_result)] if hasattr(o, 'sodix_result') else bres(o))(
    fresh_bf('BeamformerSODIX'))
entry('BeamformerGIB', dict(ST, method=('Suzuki', 'NNLS'), n_iter=(2, 1), eps_perc=(0.05, 0.5), pnorm=(1.0, 1.5), beta=(0.9, 0.5), n=(2, 1), m=(0, 1), unit_mult=(1e9, 10.0), **PREC), bres)(
    fresh_bf('BeamformerGIB', n=2))
entry('PointSpreadFunction', {'steer.steer_type': ('true level', 'classic'), 'steer.env.c': (343.0, 100.0), 'precision': ('float64', 'float32'),
                              'steer.mics': (lambda c, n: mics(), lambda c, n: mics(3, 0.25)), 'steer': (lambda c, n: steer(), lambda c, n: steer(ref=2.0))},
      lambda o: [np.array(o.psf)])(lambda c: ac().PointSpreadFunction(steer=steer(), freq=200.0))

BT = {'source': (lambda c, n: tsrc(c, 'a', 8, 3, 300.0), lambda c, n: tsrc(c, 'b', 8, 3, 300.0)), 'steer.steer_type': ('true level', 'classic'), 'steer.env.c': (343.0, 250.0),
      'weights': ('none', 'power')}


def bt(n, **k):
    return lambda c: getattr(ac(), n)(steer=ac().SteeringVector(grid=ac().RectGrid(x_min=0, x_max=1, y_min=0, y_max=0, z=3.0), mics=mics()), **k)


def btr(o):
    return [cat(run(o, 4))]


def bnum(o):
    return btr(o)


BN = dict(BT, source=tuple((lambda c, n, s=s: src(np.random.RandomState(s).standard_normal((10, 3)), fs=300.0, tag='n%d' % s)) for s in (1, 2)))
TJ = {'trajectory': tuple((lambda c, n, d=d: ac().Trajectory(points={float(t): (t * d, 0.0, 3.0) for t in range(-1, 4)})) for d in (3.0, 1.0)), 'conv_amp': (False, True),
      'rvec': (np.zeros(3), np.array([0.0, 0.0, 1.0]))}
CL = {'damp': (0.6, 0.3), 'n_iter': (2, 1)}
entry('BeamformerTime', BT, btr)(bt('BeamformerTime'))
entry('BeamformerTimeSq', dict(BT, r_diag=(False, True)), btr)(bt('BeamformerTimeSq'))
entry('BeamformerTimeTraj', dict(BN, **TJ, precision=(64, 32)), btr)(bt('BeamformerTimeTraj'))
entry('BeamformerTimeSqTraj', dict(BN, r_diag=(False, True), **TJ, precision=(64, 32)), btr)(bt('BeamformerTimeSqTraj'))
entry('BeamformerCleant', dict(BN, **CL), btr)(bt('BeamformerCleant'))
entry('BeamformerCleantSq', dict(BN, r_diag=(False, True), **CL), btr)(bt('BeamformerCleantSq'))
entry('BeamformerCleantTraj', dict(BN, **TJ, **CL), btr)(bt('BeamformerCleantTraj'))
entry('BeamformerCleantSqTraj', dict(BN, r_diag=(False, True), **TJ, **CL), btr)(bt('BeamformerCleantSqTraj'))


def gsrc(c, tag):
    return src(c.array('g' + tag, (2, 4), 0, 2), fs=8.0, tag=tag)


entry('IntegratorSectorTime', {'source': (lambda c, n: gsrc(c, 'a'), lambda c, n: gsrc(c, 'b')), 'sectors': ([(0, 0, 1.5)], [(0, 0, 0.5), (1, 1, 0.5)]), 'clip': (-350.0, -3.0),
                               'grid': tuple((lambda c, n, x=x: ac().RectGrid(x_min=x, x_max=x + 1, y_min=0, y_max=1, increment=1)) for x in (0.0, 1.0))}, lambda o: [cat(run(o, 2))])(
    lambda c: ac().IntegratorSectorTime(grid=ac().RectGrid(x_min=0, x_max=1, y_min=0, y_max=1, increment=1)))
del E['MaskedTimeInOut']
SLOW = {}


def scenarios(tier):
    return [dict(name=n, fn=change, params=dict(name=n), cost=e[3]) for n, e in E.items()]
