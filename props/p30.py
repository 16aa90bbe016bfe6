"""Trigger instants, rotation angles and trajectories."""
from symx.lib import ac, np, src, new, setattrs, sqrt

BOUNDS = ('trigger signals of up to 7 samples with every value symbolic, plus signals longer than one internal block (2048 samples) with up to 6 symbolic samples at the '
          'block limits; angles: 4..6 triggers at any place within 12 samples, or evenly spaced at symbolic (real) instants, 3..6 interpolation points, 1..3 triggers per revolution; '
          'trajectories of 2..5 points with symbolic coordinates, any order, sampled at symbolic times')
ASSUMPTIONS = ['FITPACK gives the spline through the points (exact interpolation stands in for it when values are symbolic)']

PI = np.pi


def crossings(x, thr, kind):
    out = []
    for i in range(len(x)):
        if kind == 'dirac':
            v = x[i]
        elif i == 0:
            continue
        else:
            v = x[i] - x[i - 1]
        if bool(v > thr if thr > 0 else v < thr):
            out.append(i)
    return out


def merged(x, peaks, frac, which):
    """all but one of several peaks closer than a part of the longest distance are dropped"""
    peaks = list(peaks)
    longest = max(b - a for a, b in zip(peaks, peaks[1:]))
    while True:
        close = [i for i in range(len(peaks) - 1) if peaks[i + 1] - peaks[i] < frac * longest]
        if not close:
            return peaks
        i = close[0]
        if which == 'first' or bool(abs(x[peaks[i]]) > abs(x[peaks[i + 1]])):
            del peaks[i + 1]
        else:
            del peaks[i]


def trig(data, **k):
    import warnings
    warnings.simplefilter('ignore')
    return new(ac().Trigger, source=src(data, fs=100.0), **k)


def all_samples(c, n):
    """the trigger samples are exactly those that pass the threshold (with the predecessor for edges)"""
    kind = c.choice('type', ['dirac', 'rect'])
    thr = c.choice('thr', [0.5, -0.5])
    which = c.choice('which', ['extremum', 'first'])
    frac = c.choice('hunk', [0.1, 0.6])
    x = c.array('x', (n, 1), -2, 2)
    v = x[:, 0]
    for i in range(n):
        for j in range(i):
            c.assume((v[i] - v[j] > 1e-3) | (v[j] - v[i] > 1e-3))
            c.assume((v[i] + v[j] > 1e-3) | (-v[j] - v[i] > 1e-3))
    t = trig(x, trigger_type=kind, threshold=thr, multiple_peaks_in_hunk=which, hunk_length=frac, max_variation_of_duration=c.choice('var', [5.0, 0.01]))
    want = crossings(v, thr, kind)
    if len(want) < 2:
        try:
            t.trigger_data
        except Exception:       # noqa: BLE001
            return
        c.true('less than two triggers are an error', False)
    want = merged(v, want, frac, which)
    if len(want) < 2:
        c.assume(False)
    loc, hi, lo = t.trigger_data
    c.same('trigger samples', [int(i) for i in loc], want)
    d = [b - a for a, b in zip(want, want[1:])]
    c.same('longest and shortest distance', (int(hi), int(lo)), (max(d), min(d)))


def long_signal(c, nsym):
    kind = c.choice('type', ['dirac', 'rect'])
    sign = c.choice('sign', [1, -1])
    n = c.choice('n', [2100, 4097])
    x = np.zeros((n, 1))
    x[[300, 1100, n - 20]] = 1.5 * sign
    base = x.copy()
    if c.symbolic:
        from symx.lib import o
        y = o((n, 1))
        y[:] = 0.0
        for i in np.flatnonzero(base[:, 0]):
            y[int(i), 0] = float(base[i, 0])
        x = y
    pos = [2048 - nsym // 2 + i for i in range(nsym)]
    for i in pos:
        x[i, 0] = c.real('x%d' % i, -2, 2)
    t = trig(x, trigger_type=kind, threshold=0.5 * sign, hunk_length=0.0001, max_variation_of_duration=5.0)
    v = [x[i, 0] for i in range(n)]
    want = crossings(v, 0.5 * sign, kind)
    c.same('trigger samples', [int(i) for i in t.trigger_data[0]], want)


def guessed(c, n):
    """without a threshold 75 percent of the larger deviation from the mean is used"""
    x = c.array('x', (n, 1), -2, 2)
    v = [x[i, 0] for i in range(n)]
    m = sum(v[1:], v[0]) / n
    hi = lo = v[0]
    for i in range(1, n):
        hi = v[i] if bool(v[i] > hi) else hi
        lo = v[i] if bool(v[i] < lo) else lo
    up = bool(hi - m > m - lo)
    c.assume((hi - m > m - lo + 1e-3) if up else (m - lo > hi - m + 1e-3))
    thr = 0.75 * ((hi - m) if up else (lo - m))
    for i in range(n):
        c.assume((v[i] - thr > 1e-4) | (thr - v[i] > 1e-4))
    want = [i for i in range(n) if bool(v[i] > thr if up else v[i] < thr)]
    t = trig(x, hunk_length=0.0001, max_variation_of_duration=5.0)
    if len(want) < 2:
        c.assume(False)
    c.same('trigger samples', [int(i) for i in t.trigger_data[0]], want)


_st = {}


def stub():
    if not _st:
        from traits.api import Any
        _st['T'] = type('GivenTrigger', (ac().Trigger,), {'trigger_data': Any(), 'digest': Any('given')})
    return _st['T']


def tracker(peaks, n, fs, **k):
    t = stub()()
    t.trigger_data = (peaks, None, None)
    a = ac().AngleTracker(source=src(np.zeros((n, 1)), fs=8.0), trigger=t, **k)
    if hasattr(fs, 'e'):
        a.source.__dict__['sample_freq'] = fs
    else:
        a.source.sample_freq = fs
    return a


def same_angle(c, label, got, want):
    """equal up to whole turns and within one turn"""
    c.true('angle within one turn', (got > -1e-6) & (got < 2 * PI + 1e-6))
    d = (got - want) / (2 * PI)
    ok = False
    for k in range(-30, 31):
        e = (d - k < 1e-6) & (d - k > -1e-6)
        ok = e if ok is False else (ok | e)
    c.true(label, ok)


def at_triggers(c, n, np_, ips):
    """angle at each trigger sample: start angle plus the revolutions since the first trigger"""
    first = c.cint('first', 0, n - np_)
    peaks = [first]
    for i in range(1, np_):
        peaks.append(c.cint('p%d' % i, peaks[-1] + 1, n - np_ + i))
    ip = c.choice('interp', ips)
    npr = c.choice('per_rev', [1, 3])
    rot = c.choice('rot', [-1, 1])
    s = c.real('start', -1, 5)
    a = tracker(np.array(peaks), n, 8.0, interp_points=ip, trigger_per_revo=npr, rot_direction=rot, start_angle=0.0)
    setattrs(a, start_angle=s)
    ang = a.angle
    c.same('one angle for every sample', len(ang), n)
    for j, p in enumerate(peaks):
        same_angle(c, 'angle at a trigger', ang[p], s + rot * 2 * PI * j / npr)
    c.near('average speed', a.average_rpm, (np_ - 1) / (peaks[-1] - peaks[0]) / npr * 8.0 * 60, 1e-6)


def steady(c, n, np_, ips):
    """constant speed: angle and speed are exact everywhere"""
    d = c.real('d', 1, 4)
    p0 = c.real('p0', 0, 4)
    fs = c.real('fs', 1, 1000)
    ip = c.choice('interp', ips)
    npr = c.choice('per_rev', [1, 2])
    rot = c.choice('rot', [-1, 1])
    arr = np.array([p0 + d * j for j in range(np_)], dtype=object if c.symbolic else None)
    if c.symbolic:
        from symx.arrays import wrap
        arr = wrap(arr)
    a = tracker(arr, n, fs, interp_points=ip, trigger_per_revo=npr, rot_direction=rot, start_angle=0.5)
    for i in range(n):
        same_angle(c, 'angle at constant speed', a.angle[i], 0.5 + rot * 2 * PI * ((i - p0) / d) / npr)
        c.eq('speed at constant speed', a.rpm[i], 60 * fs / d / npr)
    c.eq('average speed', a.average_rpm, 60 * fs / d / npr)


def points(c, times, order):
    x = c.array('x', (len(times), 3), -5, 5)
    return {float(times[i]): tuple(x[i]) for i in order}, x


def traj(pts):
    t = ac().Trajectory(points={0.0: (0.0, 0.0, 0.0), 1.0: (0.0, 0.0, 0.0)})
    t.__dict__['points'] = pts
    t.trait_property_changed('points', None, pts)
    return t


ORD = {2: [(0, 1), (1, 0)], 3: [(0, 1, 2), (2, 0, 1)], 4: [(0, 1, 2, 3), (3, 1, 0, 2)], 5: [(0, 1, 2, 3, 4), (4, 0, 3, 1, 2)]}


def through(c, n):
    """the path meets every given position at its instant, whatever the order of the entries"""
    times = c.choice('times', [(0.0, 1.0, 2.0, 3.0, 4.0)[:n], (-1.5, -1.0, 0.5, 0.75, 3.0)[:n]])
    order = c.choice('order', ORD[n])
    pts, x = points(c, times, order)
    t = traj(pts)
    c.same('interval', tuple(float(v) for v in t.interval), (times[0], times[-1]))
    for i, ti in enumerate(times):
        loc = t.location(ti)
        c.same('three coordinates', len(loc), 3)
        for k in range(3):
            c.near('position', loc[k], x[i, k], 1e-7)
    loc = t.location(np.array(times))
    for i in range(n):
        for k in range(3):
            c.near('positions at many instants', loc[k][i], x[i, k], 1e-7)


def poly(c, n):
    """motions of the degree of the spline are followed exactly, with all derivatives, at any time"""
    times = c.choice('times', [(0.0, 1.0, 2.0, 3.0, 4.0)[:n], (-1.5, -1.0, 0.5, 0.75, 3.0)[:n]])
    deg = min(3, n - 1)
    co = c.array('co', (deg + 1, 3), -2, 2)

    def val(t, k, der=0):
        s = 0
        for p in range(der, deg + 1):
            f = 1
            for q in range(der):
                f *= p - q
            s = s + f * co[p, k] * (t ** (p - der) if p > der else 1)
        return s
    pts = {ti: tuple(val(ti, k) for k in range(3)) for ti in times}
    t = traj(pts)
    at = c.real('t', times[0], times[-1])
    der = c.choice('der', [0, 1, 2])
    loc = t.location(at, der) if c.bool('positional') else t.location(at, der=der)
    for k in range(3):
        c.near('motion', loc[k], val(at, k, der) if der <= deg else 0.0, 1e-6)


def steps(c, n):
    """traj() gives the positions at regular instants, by default over the whole interval"""
    times = (0.5, 1.0, 2.0, 3.0, 4.0)[:n]
    pts, x = points(c, times, ORD[n][1])
    t = traj(pts)
    how = c.choice('how', ['all', 'part', 'open', 'zero'])
    dt = c.choice('dt', [0.25, 0.4])
    der = c.choice('der', [0, 1])
    if how == 'all':
        a, b = times[0], times[-1]
        got = list(t.traj(dt, der=der))
    elif how == 'part':
        a, b = 0.75, 1.6
        got = list(t.traj(a, b, dt, der))
    elif how == 'zero':
        a, b = 0.0, 1.0
        got = list(t.traj(a, b, dt, der))
    else:
        a, b = 0.6, times[-1]
        got = list(t.traj(a, delta_t=dt, der=der))
    want = []
    k = 0
    while a + k * dt < b - 1e-9:
        want.append(a + k * dt)
        k += 1
    c.same('number of positions', len(got), len(want))
    for p, ti in zip(got, want):
        ref = t.location(ti, der)
        for k in range(3):
            c.near('positions at regular instants', p[k], ref[k], 1e-6)


def edit(c, n):
    """a trajectory whose points are changed equals a new one with these points"""
    times = (0.0, 1.0, 2.0, 3.0, 4.0)[:n]
    t = ac().Trajectory(points={ti: (ti, 1.0, 0.0) for ti in times})
    before = t.digest
    if c.bool('read'):
        t.location(0.5), t.interval, t.tck
    how = c.choice('how', ['item', 'new', 'delete', 'later'])
    if how == 'item':
        t.points[times[1]] = (0.25, 3.0, 1.0)
    elif how == 'new':
        t.points = {ti + 0.5: (ti, 1.0, 2.0) for ti in times}
    elif how == 'delete':
        c.assume(n > 2)
        del t.points[times[-1]]
    else:
        t.points[9.0] = (1.0, 2.0, 0.5)
    q = ac().Trajectory(points=dict(t.points))
    c.same('interval', [float(v) for v in t.interval], [float(v) for v in q.interval])
    at = c.cint('t', 0, 8) / 4.0
    for k in range(3):
        c.near('position', float(t.location(at)[k]), float(q.location(at)[k]), 1e-9)
    c.true('identity changes', t.digest != before)
    c.true('identity of the new values', t.digest == q.digest)


def scenarios(tier):
    thorough = tier == 'thorough'
    out = []

    def add(name, fn, cost=5, opts=None, **params):
        out.append(dict(name=name, fn=fn, params=params, opts=opts or {}, cost=cost, rtol=1e-4))
    for n in ((4, 5, 6, 7) if thorough else (4, 5)):
        add('every sample n=%d' % n, all_samples, cost=5 * 3 ** (n - 3), n=n)
    add('long signals', long_signal, cost=20, nsym=6 if thorough else 4)
    add('threshold guessed', guessed, n=4 if not thorough else 5)
    for k in ((4, 5, 6) if thorough else (4, 5)):
        add('angle at triggers %d' % k, at_triggers, cost=30, n=11 if thorough else 8, np_=k, ips=(3, 4, 5) if not thorough else (3, 4, 5, 6))
    add('triggers less than points', at_triggers, n=6, np_=3, ips=(4, 5))
    add('constant speed', steady, cost=20, n=6 if not thorough else 10, np_=5, ips=(4,))
    add('constant speed few triggers', steady, cost=20, n=6, np_=3, ips=(3, 4, 6))
    for n in (2, 3, 4, 5):
        add('through the points %d' % n, through, n=n)
        add('motion %d' % n, poly, n=n)
        add('regular instants %d' % n, steps, n=n)
        add('changed points %d' % n, edit, n=n)
    return out
