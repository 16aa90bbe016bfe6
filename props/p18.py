"""Point spread functions: every column is the map of a unit source at that grid point."""
from symx.fakeh5 import CacheEnv, Crash
from symx.lib import ac, np, ssum

from .bfh import TYPES, classes, dist, steer, steering, transfer

BOUNDS = ('2-3 grid points, 2 microphones (thorough 3), all positive distances, steering vector types and custom steering vectors, every '
          'selection of up to 2 points, calculation mode, precision; histories of 3 requests with and without cache')
ASSUMPTIONS = ['distances given by the environment (P24); single precision is taken as exact']
CALC = ['single', 'block', 'full']


def oracle(c, rm, r0, stype, f, cs=2.0):
    A = transfer(c, rm, r0, f, cs)
    H = [steer(c, a, stype) for a in A]
    out = np.zeros((len(A), len(A)), dtype=object if c.symbolic else float)
    for g, h in enumerate(H):
        for s, a in enumerate(A):
            p = ssum([h[m].conjugate() * a[m] for m in range(len(a))])
            out[g, s] = (p * p.conjugate()).real
    return out


def ask(c, ng, k=''):
    """a selection of grid points, None: not set"""
    n = c.cint('n' + k, 0, 2)
    return None if n == 0 else [c.cint('i%d%s' % (j, k), 0, ng - 1) for j in range(n)]


def psf(c, ng, nm, stype, custom, prec):
    sel, mode = ask(c, ng), c.choice('mode', CALC)
    rm, r0 = dist(c, ng, nm)
    a = ac()
    with CacheEnv(c):
        a.config.global_caching = 'none'
        s = steering(rm, r0, stype, cls=classes()['SV'] if custom else None)
        p = a.PointSpreadFunction(steer=s, calcmode=mode, precision=prec, freq=0.5)
        if sel is not None:
            p.grid_indices = np.array(sel)
        else:
            sel = list(range(ng))
        out = p.psf
        c.same('shape', tuple(out.shape), (ng, len(sel)))
        c.eq('psf', out, oracle(c, rm, r0, stype, 0.5)[:, sel])
        if stype in ('inverse', 'true level'):
            c.eq('one at the source', np.array([out[g, j] for j, g in enumerate(sel)]), np.ones(len(sel)))


def history(c, ng, cached=False, calc0='full', mode0='none', crash=False, steps=2):
    """requests after each other"""
    rq = []
    for i in range(steps):
        sel = c.choice('sel%d' % i, [None, [0], [ng - 1, 0], [1, 1]])
        calc = c.choice('calc%d' % i, CALC[:2]) if i else calc0
        mode = (c.choice('cache%d' % i, ['individual', 'readonly', 'overwrite']) if i else mode0) if cached else 'none'
        f = c.choice('freq%d' % i, [0.5, 0.501]) if i and not crash else 0.5
        new = c.choice('new%d' % i, ['same', 'new', 'restart']) if cached and i else 'same'
        rq.append((sel, calc, mode, f, new))
    end = c.cint('end', 0, 5) if crash else None
    rm, r0 = dist(c, ng, 2)
    want = {}
    a = ac()
    with CacheEnv(c) as env:
        env.store.atomic = True
        s = steering(rm, r0, 'classic')
        p = None
        for i, (sel, calc, mode, f, new) in enumerate(rq):
            a.config.global_caching = mode
            if new == 'restart':
                p = None
                env.restart()
            if p is None or new == 'new':
                p = a.PointSpreadFunction(steer=s)
            p.trait_set(calcmode=calc, freq=f, grid_indices=np.array([] if sel is None else sel, dtype=int))
            if f not in want:
                want[f] = oracle(c, rm, r0, 'classic', f)
            env.store.reset(end if i == 0 else None)
            try:
                out = p.psf
                if end is not None and i == 0:
                    c.assume(end == 5)             # no interruption: explore once
            except Crash:                           # interrupted, by the user or the end of the process
                continue
            c.eq('request %d' % i, out, want[f] if sel is None else want[f][:, sel])
            if mode in ('none', 'readonly'):
                c.same('policy without writing leaves the file alone', env.store.writes, 0)


def follow(c):
    """a changed geometry takes effect"""
    a = ac()
    what = c.choice('what', ['grid', 'type', 'steer', 'speed'])
    mode = c.choice('cache', ['none', 'individual'])
    first = ask(c, 2)
    d1, d2, d3 = dist(c, 2, 2), None, None
    r2, q2 = c.array('q', (3, 2), 0.5, 3, pos=True), c.array('q0', (3,), 0.5, 3, pos=True)
    with CacheEnv(c):
        a.config.global_caching = mode
        s = steering(*d1, 'classic')
        p = a.PointSpreadFunction(steer=s, freq=0.5)
        if first is not None:
            p.grid_indices = np.array(first)
        p.psf
        rm, r0, st = d1[0], d1[1], 'classic'
        if what == 'grid':
            g = a.ImportGrid()
            g.gpos_file = np.arange(9.0).reshape(3, 3) + 1
            s.grid = g
            s.env = classes()['DistEnv'](R=r2, R0=q2, c=2.0, tag='other')
            rm, r0 = r2, q2
        elif what == 'type':
            s.steer_type = st = 'true level'
        elif what == 'steer':
            p.steer = steering(r2, q2, 'classic', tag='third')
            rm, r0 = r2, q2
        else:
            s.env.c = 1.0
        w = oracle(c, rm, r0, st, 0.5 if what != 'speed' else 1.0)
        c.eq('psf after the change', p.psf, w if first is None else w[:, first])


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for t in TYPES:
        for custom in (False, True):
            out.append(dict(name='psf_%s_%d' % (t.replace(' ', '_'), custom), fn=psf,
                            params=dict(ng=2, nm=2, stype=t, custom=custom, prec='float32' if custom else 'float64'), rtol=1e-4))
            if big or t == 'classic':
                out.append(dict(name='psf3_%s_%d' % (t.replace(' ', '_'), custom), fn=psf,
                                params=dict(ng=3, nm=3 if big else 2, stype=t, custom=custom, prec='float64')))
    for calc in CALC:
        out.append(dict(name='history_%s' % calc, fn=history, params=dict(ng=2, calc0=calc)))
        out.append(dict(name='interrupted_%s' % calc, fn=history, params=dict(ng=2, cached=True, calc0=calc, mode0='individual', crash=True), cost=5))
        for m in ('individual', 'overwrite'):
            out.append(dict(name='cached_%s_%s' % (calc, m), fn=history, params=dict(ng=2, cached=True, calc0=calc, mode0=m), cost=5))
            if big:
                out.append(dict(name='cached3_%s_%s' % (calc, m), fn=history, params=dict(ng=3, cached=True, calc0=calc, mode0=m, steps=3), cost=50,
                                opts=dict(max_paths=100000, max_s=3000)))
    out.append(dict(name='follow', fn=follow, params={}))
    return out
