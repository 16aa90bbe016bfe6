"""helpers shared by the scenarios; usable symbolically and numerically"""
import numpy as np

from . import core
from .arrays import SymArray, has_sym, emap, emap1, wrap
from .patch import new, setattrs  # noqa: F401


def ac():
    import acoular
    return acoular


_cls = {}


def _classes():
    if _cls:
        return _cls
    from traits.api import Any, Int, Float, Property, Str
    a = ac()

    class Src(a.SamplesGenerator):
        """in-memory sample source delivering blocks of the requested size"""
        d = Any()
        reads = Any(0)
        tag = Str('src')
        reuse = Any(False)      # the memory of a block is overwritten when the next one is requested
        digest = Property(depends_on=['tag'])

        def _get_digest(self):
            return self.tag

        def result(self, num):
            num = int(num)
            b = None
            for i in range(0, len(self.d), num):
                self.reads += 1
                if b is not None and self.reuse:
                    b[...] = 98765.25
                b = self.d[i:i + num].copy()
                yield b
            if b is not None and self.reuse:
                b[...] = 98765.25

    class SpecSrc(a.base.SpectraGenerator):
        d = Any()
        digest = Property()

        def _get_digest(self):
            return 'specsrc'

        def result(self, num):
            num = int(num)
            for i in range(0, len(self.d), num):
                yield self.d[i:i + num].copy()
    _cls['Src'] = Src
    _cls['SpecSrc'] = SpecSrc
    return _cls


def src(data, fs=8.0, tag='src', reuse=False):
    """a SamplesGenerator producing exactly `data` (samples x channels)"""
    S = _classes()['Src']()
    S.d = data
    S.sample_freq = fs
    S.num_samples = data.shape[0]
    S.num_channels = data.shape[1]
    S.tag = tag
    S.reuse = reuse
    return S


def cat(blocks, width=None):
    """concatenate copies of generated blocks"""
    bl = [np.array(b, copy=True, subok=True) for b in blocks]
    if not bl:
        return np.zeros((0, width or 0))
    return np.concatenate(bl)


def run(gen, num, limit=200):
    """list of copied blocks of gen.result(num)"""
    out = []
    for b in gen.result(num):
        out.append(np.array(b, copy=True, subok=True))
        if len(out) > limit:
            raise RuntimeError('generator does not stop')
    return out


def rowsum(rows):
    s = 0
    for r in rows:
        s = s + r
    return s


def o(shape):
    return np.zeros(shape, dtype=object).view(SymArray)


def sqrt(x):
    return core.sqrt(x)


def ssum(xs):
    s = 0
    for x in xs:
        s = s + x
    return s


def is_subseq(a, b):
    return True
