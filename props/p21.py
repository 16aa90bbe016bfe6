"""Frequency bands of maps and integration over sectors are sums of the map's values."""
import warnings
from symx.lib import ac, np, ssum
from symx import core

from .bfh import classes, tagged

BOUNDS = ('4 frequency lines at given frequencies (spacing 1, 0.1 and irregular), 2x2 and 3x2 grid, one- and three-dimensional grids; all values of the map, '
          'band frequencies and band limits symbolic; bands of 1/1 to 1/12 octave')
ASSUMPTIONS = ['band limits are computed in double precision: equality of a limit and a line within rounding is decided as by the code',
               'the values of the map itself are those of P16-P20; membership of sectors is P23']
FREQS = {'even': [1.0, 2.0, 3.0, 4.0], 'fine': [0.0, 0.1, 0.2, 0.3], 'irregular': [0.5, 0.7, 3.0, 3.25]}
_k = {}


def kinds():
    if not _k:
        from traits.api import Any
        a = ac()

        def mk(base):
            class B(base):
                values = Any()

                def _calc(self, ind):
                    if hasattr(self, '_gpos'):
                        self._gpos = grid('import').pos     # gridless: positions are results
                    for i in ind:
                        self._ac[i] = self.values[i]
                        self._fr[i] = 1
            return B
        _k.update(base=mk(a.BeamformerBase), sodix=mk(a.BeamformerSODIX))

        class G(mk(a.BeamformerAdaptiveGrid)):
            def _get_digest(self):
                return 'x'

            def _get_size(self):
                return 4
        _k['adaptive'] = G
    return _k


def grid(kind):
    a = ac()
    if kind == '2d':
        return a.RectGrid(x_min=0, x_max=1, y_min=0, y_max=2, increment=1)
    if kind == '3d':
        return a.RectGrid3D(x_min=0, x_max=1, y_min=0, y_max=0, z_min=0, z_max=1, increment=1)
    if kind == 'line':
        return a.LineGrid(num_points=4, length=3)
    g = a.ImportGrid()
    g.pos = np.array([[0.0, 1, 2, 3], [0, 1, 0, 1], [0, 0, 0, 0]])
    return g


def fd(freqs, tag='a'):
    d = tagged()(tag=tag + repr(freqs))
    d.frequencies = np.array(freqs)
    d.csm = np.array([np.eye(2) * (1 + 0j)] * len(freqs))
    return d


def setup(c, kind, gk, freqs, name='v'):
    a = ac()
    g = grid(gk)
    m = a.MicGeom()
    m.mpos_tot = np.array([[0.0, 1], [0, 0], [0, 0]])
    n = g.size * (2 if kind == 'sodix' else 1)
    v = c.array(name, (len(freqs), n))
    b = kinds()[kind](freq_data=fd(freqs), steer=a.SteeringVector(grid=g, mics=m), cached=False, values=v)
    return b, v, g


def band(c, v, freqs, lo, hi):
    """sum of the lines lo <= f < hi"""
    out = []
    for p in range(v.shape[1]):
        s = 0
        for i, f in enumerate(freqs):
            ins = (lo <= f) & (f < hi) if c.symbolic else (lo <= f and f < hi)
            s = s + (core.ite(ins, v[i, p], 0) if c.symbolic else (v[i, p] if ins else 0.0))
        out.append(s)
    return out


def flat(x):
    return list(np.asarray(x).reshape(-1)) if not hasattr(x, 'ravel') else list(x.ravel())


def lim(f, num, s):
    return f * 2.0 ** (s * 0.5 / num)


def synth(c, kind, gk, freqs):
    fr = FREQS[freqs]
    b, v, g = setup(c, kind, gk, fr)
    num = c.choice('num', [0, 1, 3, 12, 'list'])
    f = c.real('f', 0.0, 6.0)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if num == 'list':
            f2 = c.real('f2', 0.0, 6.0)
            h = b.synthetic(f, [f, f2])
            want = band(c, v, fr, f, f2)
        elif num == 0:
            h = b.synthetic(f)
            # the line itself or the next one above
            prev = [-1.0] + fr[:-1]
            want = []
            for p in range(v.shape[1]):
                s = 0
                for i in range(len(fr)):
                    ins = (prev[i] < f) & (f <= fr[i])
                    s = s + (core.ite(ins, v[i, p], 0) if c.symbolic else (v[i, p] if ins else 0.0))
                want.append(s)
        else:
            h = b.synthetic(f, num)
            want = band(c, v, fr, lim(f, num, -1), lim(f, num, 1))
    shape = {'sodix': (g.size, 2), 'adaptive': (4,)}.get(kind, g.shape if isinstance(g.shape, tuple) else (g.shape,))
    c.same('shape', h.shape, shape)
    c.eq('band', np.array(flat(h)), np.array(want))


def tile_(c, freqs):
    """adjacent bands have the energy of their union"""
    fr = FREQS[freqs]
    b, v, g = setup(c, 'base', 'import', fr)
    f = [c.real('f%d' % i, 0.0, 6.0) for i in range(3)]
    c.assume(f[0] <= f[1])
    c.assume(f[1] <= f[2])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        h = [b.synthetic(1.0, [f[i], f[j]]) for i, j in ((0, 1), (1, 2), (0, 2))]
    c.eq('additive', h[0] + h[1], h[2])


SECT = {'2d': [('s', lambda a: a.RectSector(x_min=-0.5, x_max=1.5, y_min=0.5, y_max=2.5)), ('rect', (0.0, 1.0, 1.0, 2.0)), ('circ', (0.0, 1.0, 1.1)),
               ('poly', (-0.5, -2.0, -0.5, 2.5, 0.5, 2.5)), ('multi', lambda a: a.MultiSector(sectors=[a.CircSector(x=0, y=0, r=.5), a.CircSector(x=1, y=2, r=.5)]))],
        '3d': [('rect', (0.0, 0.0, 0.0, 1.0, 0.0, 0.0)), ('s', lambda a: a.RectSector3D(x_min=-1, x_max=.5, y_min=-1, y_max=1, z_min=.5, z_max=2))],
        'line': [('s', lambda a: a.RectSector(x_min=.5, x_max=2.5, y_min=-1, y_max=1))],
        'import': [('s', lambda a: a.CircSector(x=2.5, y=0.5, r=1.0))]}
# grid points inside, as the numbers of the points in the map
INS = {'2d': {'s': [1, 2, 4, 5], 'rect': [1, 2, 4, 5], 'circ': [0, 1, 2, 4], 'poly': [1, 2], 'multi': [0, 5]},
       '3d': {'rect': [0, 2], 's': [1]}, 'line': {'s': [1, 2]}, 'import': {'s': [2, 3]}}


def integ(c, gk, kind='base'):
    fr = FREQS['even']
    k, s = c.choice('sector', SECT[gk])
    ins = INS[gk][k]
    sec = s(ac()) if callable(s) else s
    before = c.choice('before', ['fresh', 'result', 'other data'])
    b, v, g = setup(c, kind, gk, fr)
    if before == 'result':
        b.result[:]
    elif before == 'other data':
        # results of other data have been used before
        b.freq_data = fd(FREQS['irregular'][:2], 'z')
        b.result[:]
        b.freq_data = fd(fr)
    mode = c.choice('mode', ['all', 'range', 'bands', 'indices', 'function', 'map'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if mode == 'all':
            out = b.integrate(sec)
            c.eq('spectrum', out, np.array([ssum([v[i, p] for p in ins]) for i in range(len(fr))]))
        elif mode == 'indices':
            lo = c.choice('low', [0, 1, 2, -2])
            hi = c.choice('high', [None, 1, 3, -1])
            b.freq_data.ind_low, b.freq_data.ind_high = lo, hi
            out = b.integrate(sec)
            sel = range(*slice(lo, hi).indices(len(fr)))
            c.eq('selected lines', out, np.array([ssum([v[i, p] for p in ins]) if i in sel else 0.0 for i in range(len(fr))]))
        elif mode == 'range':
            f1, f2 = c.real('f1', 0.0, 6.0), c.real('f2', 0.0, 6.0)
            f, out = b.integrate(sec, (f1, f2))
            want = [i for i in range(len(fr)) if (f1 <= fr[i]) & (fr[i] < f2)]
            c.same('frequencies', [float(x) for x in f], [fr[i] for i in want])
            c.eq('range', out, np.array([ssum([v[i, p] for p in ins]) for i in want]))
        elif mode == 'bands':
            f1, num = c.real('f1', 0.5, 6.0), c.choice('num', [1, 3])
            out = b.integrate(sec, [f1, 2 * f1], num)
            want = []
            for f in (f1, 2 * f1):
                w = band(c, v, fr, lim(f, num, -1), lim(f, num, 1))
                want.append(ssum([w[p] for p in ins]))
            c.eq('bands', out, np.array(want))
        elif mode == 'map':
            from acoular import integrate
            c.eq('one map', integrate(b.synthetic(2.0), g, sec), ssum([v[1, p] for p in ins]))
        else:
            from acoular import integrate
            c.eq('several maps', integrate(b.result[:], g, sec), np.array([ssum([v[i, p] for p in ins]) for i in range(len(fr))]))


def adaptive(c):
    b, v, g = setup(c, 'adaptive', 'import', FREQS['even'])
    s = ac().CircSector(x=2.5, y=0.5, r=1.0)
    c.eq('spectrum', b.integrate(s), np.array([v[i, 2] + v[i, 3] for i in range(4)]))


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for k, g, f in [('base', '2d', 'even'), ('base', '3d', 'irregular'), ('base', 'line', 'fine'), ('sodix', 'import', 'even'), ('adaptive', 'import', 'even')] + \
            ([(k, g, f) for k in ('base', 'sodix') for g in ('2d', '3d', 'line', 'import') for f in FREQS] if big else []):
        out.append(dict(name='band_%s_%s_%s' % (k, g, f), fn=synth, params=dict(kind=k, gk=g, freqs=f), cost=2))
    for f in FREQS:
        out.append(dict(name='tile_%s' % f, fn=tile_, params=dict(freqs=f)))
    for g in SECT:
        out.append(dict(name='integrate_%s' % g, fn=integ, params=dict(gk=g), cost=5))
    out.append(dict(name='integrate_adaptive', fn=adaptive))
    return out
