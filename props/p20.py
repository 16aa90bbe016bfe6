"""Beamforming results are computed on demand, cached and interrupted without a trace."""
from symx.fakeh5 import CacheEnv, Crash
from symx.lib import ac, np, ssum

from .bfh import hermitian, steering, tagged

BOUNDS = ('histories of two accesses to 3 frequency lines by index, negative index, slice or slice with step, with changed '
          'parameters, new objects, new processes and every cache policy in between (quick: fewer policies and keys for derived classes); interruption at every write to the cache; 2 grid points, '
          '2 microphones, matrices symbolic')
ASSUMPTIONS = ['the values of a complete new calculation are those of P16, P17 and P19', 'the creation of a cache entry is not interrupted',
               'one user of a cache file at a time; HDF5 stores and returns what is written']
GEO = (np.array([[1.0, 1.5], [1.25, 0.75]]), np.array([1.0, 1.5]))
NF = 3
KEYS = [0, 2, -1, -3, slice(None), slice(1, 3), slice(None, None, -1), slice(0, 3, 2), (1, 0), (slice(0, 2), 1)]


def spectra(c, tag):
    d = tagged()(tag=tag)
    nm = 2
    V = np.array([[0.5 + 0.25j, 1.0 - 0.5j], [-0.25 + 1.0j, 0.5]])
    d.csm = np.array([hermitian(c, 'C%s%d' % (tag, i), nm) for i in range(NF)])
    d.eva = np.array([c.array('lam%s%d' % (tag, i), (nm,), 0.5, 2, pos=True) for i in range(NF)])
    d.eve = np.array([V * (i + 1) for i in range(NF)])
    d.frequencies = np.array([1.0, 2.0, 3.0])
    return d


def make(cls, par):
    p = dict(par)
    s = steering(*GEO, p.pop('type'), tag='geo')
    d = p.pop('data')
    if cls not in ('Eig', 'Functional', 'Orth'):
        p.pop('n', None)
    if cls == 'Orth':
        n = p.pop('n')
        b = ac().BeamformerOrth(freq_data=d, steer=s, **p)
        b.eva_list = np.array([n, n])
        return b
    if cls == 'Functional':
        p.pop('n')
        p['r_diag'] = False
    if cls == 'Damas':
        p['n_iter'] = 0
    if cls == 'Clean':
        p['n_iter'] = 1
    return getattr(ac(), 'Beamformer' + cls)(freq_data=d, steer=s, **p)


def set_(cls, b, par):
    """change the parameters of an object"""
    b.steer.steer_type = par['type']
    b.freq_data = par['data']
    if cls != 'Functional':
        b.r_diag = par['r_diag']
    if cls == 'Orth':
        b.eva_list = np.array([par['n']] * 2)
    elif cls == 'Eig':
        b.n = par['n']


def oracle(cls, par, memo):
    k = tuple(sorted((n, v.tag if n == 'data' else v) for n, v in par.items() if n != 'cached'))
    if k not in memo:
        m = ac().config.global_caching
        ac().config.global_caching = 'none'
        memo[k] = np.array(make(cls, par).result[:], copy=True, subok=True)
        ac().config.global_caching = m
    return memo[k]


def history(c, cls, change, cached=True, steps=2, crash=False, held=False, big=False):
    M = ['individual', 'readonly', 'overwrite', 'all', 'none'] if big or cls == 'Base' else ['individual', 'readonly', 'all']
    modes = [c.choice('cache%d' % i, M if not crash else ['individual'])
             if i or not crash else 'individual' for i in range(steps)]
    K = KEYS if big else KEYS[:8:1] if cls == 'Base' else [0, -1, slice(1, 3), (1, 0)]
    keys = [c.choice('key%d' % i, K if i or crash else K[:4]) for i in range(steps)]
    how = c.choice('how', {'object': ['new', 'restart', 'same'], 'data': ['same', 'new'], 'type': ['same'], 'r_diag': ['same', 'new'],
                           'n': ['same', 'restart']}[change]) if not held else 'same'
    if how == 'same' and change == 'object':
        modes = modes[:1] * steps                       # a policy takes effect with the next result that is requested anew
    end = c.cint('end', 0, 7) if crash else None
    D = {t: spectra(c, t) for t in 'ab'}
    par = dict(type='classic', data=D['a'], r_diag=False, n=0, cached=cached)
    a = ac()
    memo = {}
    with CacheEnv(c) as env:
        env.store.atomic = True
        b = make(cls, par)
        for i in range(steps):
            if i:
                if change == 'data':
                    par['data'] = D['b' if par['data'].tag == 'a' else 'a']
                elif change == 'type':
                    par['type'] = 'true level' if par['type'] == 'classic' else 'classic'
                elif change == 'r_diag':
                    par['r_diag'] = not par['r_diag']
                elif change == 'n':
                    par['n'] = -1 - par['n']
                if how == 'restart':
                    b = r = None
                    env.restart()
                if how == 'same':
                    set_(cls, b, par)
                else:
                    b = make(cls, par)
            a.config.global_caching = modes[i]
            env.store.reset(end if i == 0 else None)
            try:
                if not (held and i):
                    r = b.result
                out = r[keys[i]]
                if end is not None and i == 0:
                    c.assume(end == 7)                  # not interrupted: explore once
            except Crash:
                continue
            n = env.store.writes
            c.eq('access %d' % i, out, oracle(cls, par, memo)[keys[i]])
            if modes[i] in ('none', 'readonly') or (not cached and modes[i] == 'individual' and cls not in ('Damas', 'Clean')):
                c.same('policy without writing leaves the file alone', n, 0)


def stored(c, cls):
    """complete results are not calculated again, by any object"""
    mode = c.choice('cache', ['individual', 'all'])
    key = c.choice('key', KEYS[:9])
    new = c.choice('who', ['same', 'new', 'restart'])
    a = ac()
    par = dict(type='classic', data=spectra(c, 'a'), r_diag=False, n=0, cached=True)
    memo = {}
    with CacheEnv(c) as env:
        env.store.atomic = True
        a.config.global_caching = mode
        b = make(cls, par)
        b.result[:]
        if new == 'restart':
            env.restart()
        if new != 'same':
            b = make(cls, par)
        calls = []
        org = type(b)._calc
        try:
            type(b)._calc = lambda self, ind: (calls.append(list(ind)), org(self, ind))[1]
            out = b.result[key]
        finally:
            type(b)._calc = org
        c.same('nothing calculated', calls, [])
        c.eq('stored values', out, oracle(cls, par, memo)[key])


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    o = dict(max_paths=60000, max_s=3000) if big else dict(max_paths=20000)
    for cls in ['Base', 'Eig', 'Orth', 'Damas'] + (['Clean', 'Functional'] if big else []):
        for ch in ('object', 'data', 'type', 'r_diag', 'n'):
            if ch == 'n' and cls not in ('Eig', 'Orth') or ch == 'r_diag' and cls == 'Functional':
                continue
            if not big and ((cls != 'Base' and ch == 'type') or (cls == 'Damas' and ch != 'object')):
                continue
            out.append(dict(name='%s_%s' % (cls, ch), fn=history, params=dict(cls=cls, change=ch, big=big), cost=5, opts=o))
            if ch != 'object':
                out.append(dict(name='%s_%s_held' % (cls, ch), fn=history, params=dict(cls=cls, change=ch, held=True, big=big), cost=5, opts=o))
        out.append(dict(name='%s_interrupted' % cls, fn=history, params=dict(cls=cls, change='object', crash=True, big=big), cost=3, opts=o))
        out.append(dict(name='%s_uncached' % cls, fn=history, params=dict(cls=cls, change='object', cached=False, big=big), opts=o))
        out.append(dict(name='%s_stored' % cls, fn=stored, params=dict(cls=cls), opts=o))
    return out
