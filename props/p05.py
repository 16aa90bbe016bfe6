"""Caching never changes what a consumer sees: any history of complete and abandoned reads,
cache policies, process ends and changed sources."""
from symx.fakeh5 import CacheEnv, Crash
from symx.lib import ac, cat, np, setattrs, src

BOUNDS = ('histories of up to 2 reads (thorough 3) and a final full read over a source of 3 samples (thorough up to 4), block sizes 1..T+1, every '
          'policy, every point of abandoning a read, process end before every operation on the cache file; sample values symbolic')
ASSUMPTIONS = ['the HDF5 library stores and returns what is written (in-memory stand-in in the symbolic runs, PyTables in the replays)',
               'one reader at a time; a process end leaves the operations before it in the file']
MODES = ['individual', 'all', 'none', 'readonly', 'overwrite']


def blocks(x, num):
    return [x[i:i + num] for i in range(0, len(x), num)]


def read(c, gen, x, num, stop, what):
    """read `stop` blocks (None: all) and compare them"""
    want = blocks(x, num)
    k = 0
    for b in gen.result(num):
        c.true(what + ': not more blocks than the source', k < len(want))
        c.eq(what + ': block', b, want[k])
        k += 1
        if stop is not None and k == stop:
            return
    c.same(what + ': number of blocks', k, len(want))


def history(c, T, steps, nums, crash, modes, two=False):
    x = {'a': c.array('x', (T, 2), -2, 2)}
    if two:
        x['b'] = c.array('y', (T, 2), -2, 2)
    a = ac()
    with CacheEnv(c) as env:
        cache = {}
        for s in range(steps + 1):
            last = s == steps
            a.config.global_caching = c.choice('mode%d' % s, modes)
            who = c.choice('who%d' % s, sorted(x)) if two else 'a'
            num = c.choice('num%d' % s, nums)
            stop = None if last else c.choice('stop%d' % s, [None] + list(range(1, -(-T // num) + 1)))
            if who not in cache:
                cache[who] = a.Cache(source=src(x[who], tag='s' + who))
            env.store.reset(c.cint('crash%d' % s, 0, 3 * T + 6) if crash and not last and stop is None and a.config.global_caching not in ('none', 'readonly') else None)
            ops = env.store.crash_at
            try:
                read(c, cache[who], x[who], num, stop, 'read %d' % s)
                if ops is not None:
                    c.assume(ops == 0 or ops >= env.store.ops and ops == 3 * T + 6)   # no crash happened: explore once
                if a.config.global_caching in ('none', 'readonly'):
                    c.same('policy without writing leaves the file alone', env.store.writes, 0)
            except Crash:
                cache.clear()
                env.restart()
            env.store.reset()


def source_change(c, T):
    """a changed source is never answered with the data of the old one"""
    x, y = c.array('x', (T, 1), -2, 2), c.array('y', (T, 1), -2, 2)
    a = ac()
    with CacheEnv(c) as env:
        s = a.MaskedTimeSamples()
        setattrs(s, data=x, sample_freq=8.0)
        src_ = src(x, tag='one')
        o = a.Cache(source=src_)
        a.config.global_caching = c.choice('mode0', MODES)
        num = c.cint('num', 1, T)
        read(c, o, x, num, c.choice('stop', [None, 1]), 'first')
        a.config.global_caching = c.choice('mode1', MODES)
        kind = c.choice('kind', ['tag', 'newsource'])
        if kind == 'tag':
            src_.d = y
            src_.tag = 'two'
        else:
            o.source = src(y, tag='two')
        if c.bool('restart'):
            env.restart()
            o = a.Cache(source=src(y, tag='two'))
        read(c, o, y, num, None, 'second')
        a.config.global_caching = c.choice('mode2', ['individual', 'readonly'])
        o.source = src(x, tag='one')
        read(c, o, x, num, None, 'back')


def spectra(c, T, rounds):
    """cached cross-spectral matrices and eigenvalues equal freshly computed ones"""
    a = ac()
    x, y = c.array('x', (T, 2), -2, 2), c.array('y', (T, 2), -2, 2)
    with CacheEnv(c) as env:
        def ps(d, tag, cached):
            p = a.PowerSpectra(source=src(d, tag=tag), cached=cached)
            setattrs(p, source=p.source)
            p.__dict__['block_size'] = 4
            return p
        a.config.global_caching = 'none'
        want = {}
        for tag, d in (('x', x), ('y', y)):
            want[tag] = np.array(ps(d, tag, True).calc_csm(), copy=True, subok=True)
        for s in range(rounds):
            last = s == rounds - 1
            a.config.global_caching = c.choice('mode%d' % s, MODES if last else ['individual', 'readonly', 'overwrite'])
            tag = c.choice('src%d' % s, ['x', 'y'])
            cached = c.bool('cached%d' % s) if last else True
            p = ps(x if tag == 'x' else y, tag, cached)
            if last:
                if c.bool('restart'):
                    env.restart()
                c.eq('cached csm', p.csm[:], want[tag])
            else:
                env.store.reset(c.choice('crash%d' % s, [None, 0, 1]) if a.config.global_caching in ('individual', 'all', 'overwrite') else None)
                try:
                    c.eq('cached csm', p.csm[:], want[tag])
                except Crash:
                    env.restart()
                env.store.reset()


def scenarios(tier):
    big = tier == 'thorough'
    opts = dict(max_paths=200000, max_s=3000 if big else 500, max_index=100)
    T = 3
    out = []
    wr = ['individual', 'overwrite']
    out.append(dict(name='abandon', fn=history, params=dict(T=T, steps=1, nums=[1, 2, 3, 4], crash=False, modes=MODES), opts=opts))
    out.append(dict(name='abandon2', fn=history, cost=5, params=dict(T=T, steps=2, nums=[1, 2] if not big else [1, 2, 3], crash=False,
                                                             modes=['individual', 'readonly', 'overwrite'] if not big else MODES), opts=opts))
    out.append(dict(name='crash', fn=history, cost=4, params=dict(T=2 if not big else 3, steps=1, nums=[1, 2], crash=True, modes=MODES), opts=opts))
    out.append(dict(name='crash2', fn=history, cost=5, params=dict(T=2, steps=2, nums=[1] if not big else [1, 2], crash=True, modes=wr), opts=opts))
    out.append(dict(name='two_sources', fn=history, cost=5, params=dict(T=2, steps=2, nums=[1], crash=False, modes=['individual', 'overwrite'], two=True), opts=opts))
    out.append(dict(name='source_change', fn=source_change, cost=3, params=dict(T=2), opts=opts))
    out.append(dict(name='spectra', fn=spectra, cost=5, params=dict(T=4, rounds=3 if big else 2), opts=opts))
    return out
