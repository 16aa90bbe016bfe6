"""Microphone geometries and calibration factors: selection, derived quantities, files."""
import os
import tempfile

from symx import core, ident
from symx.lib import ac, np, new, setattrs, src, run, cat

BOUNDS = ('1..3 microphones (thorough 4) at any positions, every set of excluded microphones, also given in place or beyond the number of microphones; '
          'histories of up to 3 changes (thorough 4); files with up to 3 entries, every value symbolic')
ASSUMPTIONS = ['numbers written to text are read back as the same numbers (repr of double precision)', 'XML parsing is done by the standard library',
               'at least one microphone is away from the origin (center and aperture are none otherwise)']


def points(c, n, name='p'):
    return c.array(name, (3, n), -2, 2)


def subset(c, n, name='inv'):
    return [i for i in range(n) if c.bool('%s%d' % (name, i))]


def geometry(c, n):
    P = points(c, n)
    inv = subset(c, n)
    keep = [i for i in range(n) if i not in inv]
    if not keep:
        return
    c.assume((P[0, keep[0]] > 0.01))
    inv = inv + ([n + 2] if c.bool('beyond') else []) + (inv[:1] if c.bool('twice') else [])
    m = new(ac().MicGeom, pos_total=P, invalid_channels=inv)
    c.same('shape', tuple(np.shape(m.pos)), (3, len(keep)))
    c.same('number', int(m.num_mics), len(keep))
    c.eq('positions', np.asarray(m.pos), np.asarray(P[:, keep]))
    c.eq('all positions are kept', np.asarray(m.pos_total), np.asarray(P))
    ctr = m.center
    for k in range(3):
        c.near('center', ctr[k], sum([P[k, i] for i in keep]) / len(keep), 1e-9)


def aperture(c, n):
    if n < 3:
        P = points(c, n)
    else:       # one microphone moves along a line
        Q = np.random.RandomState(n).randint(-8, 9, (3, n)) / 4
        P = Q.astype(object) if c.symbolic else Q
        P[0, 1] = c.real('x', -2, 2)
        P = np.array(P.tolist(), dtype=P.dtype)
    inv = subset(c, n)
    keep = [i for i in range(n) if i not in inv]
    if not keep:
        return
    if n < 3:
        c.assume(P[0, keep[0]] > 0.01)
    ap = new(ac().MicGeom, pos_total=P, invalid_channels=inv).aperture
    sq = core.sqrt if c.symbolic else np.sqrt
    ds = [sq(sum([(P[k, i] - P[k, j]) * (P[k, i] - P[k, j]) for k in range(3)])) for i in keep for j in keep if i < j]
    if not ds:
        c.eq('aperture of a single microphone', ap, 0)
        return
    for d in ds:
        c.le('no distance is larger than the aperture', d, ap + 1e-6)
    ok = False
    for d in ds:
        ok = ((d - ap <= 1e-6) & (ap - d <= 1e-6)) | ok
    c.true('aperture is one of the distances', ok)


def history(c, n, steps, given=False):
    A = dict(P=points(c, n, 'p'), Q=points(c, n - 1, 'q'))
    if given:
        r = np.random.RandomState(7)
        A = dict(P=r.randint(1, 9, (3, n)) / 4, Q=r.randint(1, 9, (3, n - 1)) / 4)
    for X in A.values():
        c.assume(bool(X[0, 0] > 0.01) if given else X[0, 0] > 0.01)
    with ident.tokens(c):
        m = new(ac().MicGeom, pos_total=A['P'])
        cur, inv = 'P', []
        for s in range(steps):
            if c.bool('read%d' % s):
                m.pos, m.num_mics, m.center, m.digest, given and m.aperture
            k = c.choice('what%d' % s, ['P', 'Q', 'set', 'append', 'remove'])
            if k in A:
                setattrs(m, pos_total=A[k])
                cur = k
            elif k == 'set':
                inv = c.choice('set%d' % s, [[], [1], [1, 2]])
                m.invalid_channels = list(inv)
            elif k == 'append':
                inv = inv + [1]
                m.invalid_channels.append(1)
            elif inv:
                inv = inv[:-1]
                m.invalid_channels.pop()
        f = new(ac().MicGeom, pos_total=A[cur], invalid_channels=list(inv))
        keep = [i for i in range(A[cur].shape[1]) if i not in inv]
        c.same('number', int(m.num_mics), len(keep))
        c.eq('positions after changes', np.asarray(m.pos), np.asarray(A[cur][:, keep]))
        c.eq('center of a new object', np.asarray(m.center), np.asarray(f.center))
        if given:
            c.eq('aperture of a new object', m.aperture, f.aperture)
        c.true('identity of a new object', ident.same(m.digest, f.digest))


def files(c, n):
    P = points(c, n)
    inv = subset(c, n)
    keep = [i for i in range(n) if i not in inv]
    if not keep:
        return
    c.assume(P[0, keep[0]] > 0.01)
    with tempfile.TemporaryDirectory() as d, ident.tokens(c):
        f = os.path.join(d, 'array.xml')
        new(ac().MicGeom, pos_total=P, invalid_channels=inv).export_mpos(f)
        m = ac().MicGeom()
        if c.bool('used before'):
            setattrs(m, pos_total=np.ones((3, 2)))
            m.num_mics, m.digest, m.center
        m.file = f
        c.same('number of written microphones', int(m.num_mics), len(keep))
        c.eq('written positions are read back', np.asarray(m.pos), np.asarray(P[:, keep]))
        o = new(ac().MicGeom, pos_total=P[:, keep])
        c.true('identity of the read geometry', ident.same(m.digest, o.digest))
        g = os.path.join(d, 'second.xml')
        new(ac().MicGeom, pos_total=P).export_mpos(g)
        m.file = g
        c.eq('another file replaces the positions', np.asarray(m.pos), np.asarray(P))


def calibration(c, n):
    """factors in the order of the file, also if the file is exchanged after use"""
    F, G = c.array('f', (n,), 0.1, 3), c.array('g', (n,), 0.1, 3)
    x = c.array('x', (2, n), -2, 2)
    txt = (lambda v: str(v)) if c.symbolic else (lambda v: repr(float(v)))
    with tempfile.TemporaryDirectory() as d, ident.tokens(c):
        names = []
        for k, V in enumerate((F, G)):
            names.append(os.path.join(d, 'cal%d.xml' % k))
            with open(names[-1], 'w', encoding='utf-8') as h:
                h.write('<?xml version="1.0" encoding="utf-8"?><Calib name="c">' + ''.join(
                    '<pos Name="Point %d" factor="%s"/>' % (n - i, txt(V[i])) for i in range(n)) + '</Calib>')
        q = ac().Calib()
        q.file = names[0]
        c.same('number of factors', int(q.num_mics), n)
        c.eq('factors in the order of the file', np.asarray(q.data), np.asarray(F))
        q.source = src(x)
        c.eq('calibrated with the file', cat(run(q, 2)), x * F[np.newaxis])
        d0 = q.digest
        q.file = names[1]
        c.eq('calibrated with the new file', cat(run(q, 1)), x * G[np.newaxis])
        o = new(ac().Calib, data=G, source=q.source)
        c.true('identity of a new object', ident.same(q.digest, o.digest))


def scenarios(tier):
    big = tier == 'thorough'
    o = dict(max_s=3000 if big else 400, max_paths=60000)
    out = [dict(name='geometry_%d' % n, fn=geometry, params=dict(n=n), opts=o, cost=n) for n in range(1, 5 if big else 4)]
    out += [dict(name='aperture_%d' % n, fn=aperture, params=dict(n=n), opts=o, cost=n) for n in range(1, 5 if big else 4)]
    out += [dict(name='files_%d' % n, fn=files, params=dict(n=n), opts=o) for n in (1, 2, 3)]
    out += [dict(name='calibration_%d' % n, fn=calibration, params=dict(n=n), opts=o) for n in (1, 3)]
    out += [dict(name='history', fn=history, params=dict(n=4, steps=4 if big else 3), opts=o, cost=4),
            dict(name='history_given', fn=history, params=dict(n=4, steps=4 if big else 3, given=True), opts=o, cost=4)]
    return out
