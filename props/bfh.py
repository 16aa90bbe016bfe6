"""shared parts of the beamforming scenarios"""
from symx.lib import ac, np, ssum
from symx import core

TYPES = ['classic', 'inverse', 'true level', 'true location']
_c = {}


def classes():
    if _c:
        return _c
    from traits.api import Any, Property
    a = ac()

    class DistEnv(a.Environment):
        """environment with freely chosen distances"""
        R = Any()
        R0 = Any()
        tag = Any('env')
        digest = Property(depends_on=['tag', 'c'])

        def _get_digest(self):
            return '%s%r' % (self.tag, self.c if isinstance(self.c, float) else 0)

        def _r(self, gpos, mpos=0.0):
            if np.isscalar(mpos) or np.ndim(mpos) == 0 or np.shape(mpos)[1] == 1:
                return np.array(self.R0, copy=True, subok=True)
            return np.array(self.R, copy=True, subok=True)

    class FD(a.PowerSpectraImport):
        """imported matrix with a given eigendecomposition"""
        eva = Any()
        eve = Any()

    class SV(a.SteeringVector):
        """steering vector computed by user code"""
        def steer_vector(self, f, ind=None):
            return super().steer_vector(f, ind)
    _c.update(DistEnv=DistEnv, FD=FD, SV=SV)
    return _c


def dist(c, ng, nm):
    """positive distances grid-microphones and grid-reference"""
    return c.array('rm', (ng, nm), 0.5, 3, pos=True), c.array('r0', (ng,), 0.5, 3, pos=True)


def steering(rm, r0, stype='true level', cls=None, cs=2.0, tag='env'):
    a = ac()
    ng, nm = rm.shape
    e = classes()['DistEnv'](R=rm, R0=r0, c=cs, tag=tag)
    g = a.ImportGrid()
    g.gpos_file = np.arange(3.0 * ng).reshape(3, ng)
    m = a.MicGeom()
    m.mpos_tot = np.arange(3.0 * nm).reshape(3, nm)
    return (cls or a.SteeringVector)(grid=g, mics=m, env=e, steer_type=stype)


def hermitian(c, name, n, lo=-2, hi=2):
    C = np.zeros((n, n), dtype=object if c.symbolic else complex)
    for i in range(n):
        C[i, i] = c.real('%s[%d,%d]' % (name, i, i), 0, hi) + 0j
        for j in range(i + 1, n):
            C[i, j] = c.cplx('%s[%d,%d]' % (name, i, j), hi)
            C[j, i] = C[i, j].conjugate()
    if c.symbolic:
        from symx.arrays import SymArray
        return C.view(SymArray)
    return C


def transfer(c, rm, r0, f, cs=2.0):
    """sound pressure at the microphones for unit pressure at the reference"""
    k = 2 * np.pi * f / cs
    ng, nm = rm.shape
    ex = core.exp if c.symbolic else np.exp
    return [[r0[g] / rm[g, m] * ex(-1j * (k * (rm[g, m] - r0[g]))) for m in range(nm)] for g in range(ng)]


def steer(c, a, stype):
    """steering vector from the transfer vector of one grid point"""
    n = len(a)
    sq = core.sqrt if c.symbolic else np.sqrt
    p = ssum([(x * x.conjugate()).real for x in a])
    if stype == 'classic':
        return [x / sq((x * x.conjugate()).real) / n for x in a]
    if stype == 'inverse':
        return [1 / (x.conjugate() * n) for x in a]
    if stype == 'true level':
        return [x / p for x in a]
    return [x / sq(p * n) for x in a]


def quad(h, C, rdiag=False):
    n = len(h)
    return ssum([(h[i].conjugate() * C[i, j] * h[j]).real for i in range(n) for j in range(n) if not (rdiag and i == j)])


def posneg(c, x):
    """negative values set to zero"""
    if c.symbolic:
        return core.ite(x > 0, x, 0)
    return x if x > 0 else 0


def tagged():
    """imported matrix whose identity is a tag"""
    if 'TagFD' not in _c:
        from traits.api import Property, Str

        class TagFD(classes()['FD']):
            tag = Str('a')
            digest = Property(depends_on=['tag', 'frequencies', '_csm'])
            basename = Property()

            def _get_digest(self):
                return 'spectra' + self.tag

            def _get_basename(self):
                return 'spectra'
        _c['TagFD'] = TagFD
    return _c['TagFD']
