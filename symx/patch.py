"""Imports acoular from /repo for symbolic execution: numba kernels stay plain Python
functions, and numpy/scipy names inside the acoular modules are replaced by stand-ins that
accept symbolic values.  Nothing in /repo is read as text or matched: whatever code is
there is executed."""
import builtins
import importlib
import itertools
import os
import re
import sys
import types

import numpy as np

from . import arrays, core
from .arrays import SHIMS, SymArray, UfuncShim, has_sym

REPO = os.environ.get('VERIF_REPO', '/repo')


def _gu(sig, fn):
    """apply fn with the broadcasting rules of a generalised ufunc"""
    ins, outs = sig.replace(' ', '').split('->')
    parse = lambda s: [tuple(d for d in t.split(',') if d) for t in re.findall(r'\(([^)]*)\)', s)]
    ins, outs = parse(ins), parse(outs)
    nin, nout = len(ins), len(outs)

    def call(*args, **kw):
        out = kw.pop('out', None)
        outs_a = list(args[nin:]) or (list(out) if isinstance(out, (tuple, list)) else ([out] if out is not None else []))
        arrs = [a if isinstance(a, np.ndarray) else np.array(a, dtype=object if has_sym(a) else None) for a in args[:nin]]
        if len(arrs) != nin:
            raise TypeError('gufunc expects %d inputs, got %d' % (nin, len(arrs)))
        dims = {}
        loops = []
        for a, d in zip(arrs, ins):
            if a.ndim < len(d):
                raise ValueError('gufunc operand has too few dimensions')
            core_shape = a.shape[a.ndim - len(d):]
            for n, s in zip(d, core_shape):
                if dims.setdefault(n, s) != s:
                    raise ValueError('gufunc core dimension %s mismatch: %d vs %d' % (n, dims[n], s))
            loops.append(a.shape[:a.ndim - len(d)])
        loop = np.broadcast_shapes(*loops)
        if not outs_a:
            anysym = any(has_sym(a) for a in arrs)
            outs_a = [arrays.sh_zeros(loop + tuple(dims[n] for n in d), float) for d in outs]
        ba = [np.broadcast_to(a, loop + a.shape[a.ndim - len(d):], subok=True) for a, d in zip(arrs, ins)]
        for i in np.ndindex(*loop):
            pa = []
            for a, d in zip(ba, ins):
                v = a[i]
                if not d:
                    # numba passes 0-d operands of layout () as scalars or 1-element views
                    v = v.item() if isinstance(v, (np.ndarray, np.generic)) else v
                    if fn.__scalar_as_array__.get(len(pa)):
                        v = np.array([v], dtype=object if has_sym(v) else None)
                pa.append(v)
            po = []
            for o, d in zip(outs_a, outs):
                po.append(o[i] if d else o[i + (np.newaxis,)] if False else (o[i] if d else _Cell(o, i)))
            fn.__wrapped_kernel__(*pa, *po)
        return outs_a[0] if nout == 1 else tuple(outs_a)

    return call


class _Cell:
    """one-element view used for scalar outputs of gufuncs"""

    def __init__(self, a, i):
        self.a, self.i = a, i

    def __getitem__(self, k):
        if k != 0:
            raise IndexError('gufunc scalar output index %r' % (k,))
        return self.a[self.i]

    def __setitem__(self, k, v):
        if isinstance(k, slice) or k is Ellipsis:
            pass
        elif k != 0:
            raise IndexError('gufunc scalar output index %r' % (k,))
        self.a[self.i] = v


def fake_njit(*a, **k):
    if len(a) == 1 and isinstance(a[0], types.FunctionType):
        return a[0]
    return lambda f: f


def fake_guvectorize(*a, **k):
    sig = next(x for x in a if isinstance(x, str))
    types_ = next((x for x in a if isinstance(x, (list, tuple))), None)

    def deco(f):
        f.__wrapped_kernel__ = f
        scal = {}
        # scalar inputs declared as arrays ("float64[:]" with layout "()") arrive as one-element arrays
        try:
            first = types_[0]
            tys = first.args if hasattr(first, 'args') else first
            for i, t in enumerate(tys):
                scal[i] = getattr(t, 'ndim', 0) == 1
        except Exception:
            pass
        g = _gu(sig, f)
        f.__scalar_as_array__ = scal
        g.__name__ = f.__name__
        g.kernel = f
        return g

    return deco


def fake_vectorize(*a, **k):
    def deco(f):
        return lambda *x: arrays.emap(f, *x) if any(isinstance(v, np.ndarray) for v in x) else f(*x)
    if len(a) == 1 and isinstance(a[0], types.FunctionType):
        return deco(a[0])
    return deco


class Proxy:
    """module stand-in"""

    def __init__(self, mod, extra=None):
        object.__setattr__(self, '_mod', mod)
        object.__setattr__(self, '_extra', extra or {})

    def __getattr__(self, n):
        if n in self._extra:
            return self._extra[n]
        return subst(getattr(self._mod, n))


_proxies = {}
EXTRA = []     # (function object, stand-in) registered by scenario libraries


def subst(v):
    if isinstance(v, np.ufunc):
        s = _proxies.get(id(v))
        if s is None:
            s = _proxies[id(v)] = UfuncShim(v)
        return s
    try:
        s = SHIMS.get(id(v))
    except TypeError:
        return v
    if s is not None and s[0] is v:
        return s[1]
    if isinstance(v, types.ModuleType) and v.__name__.split('.')[0] in ('numpy', 'scipy') and v.__name__ not in (
            'numpy.random', 'numpy.ma', 'scipy.sparse'):
        s = _proxies.get(id(v))
        if s is None:
            s = _proxies[id(v)] = Proxy(v)
        return s
    if isinstance(v, types.FunctionType) and (v.__module__ or '').split('.')[0] in ('scipy', 'sklearn'):
        w = _proxies.get(id(v))
        if w is None:
            w = _proxies[id(v)] = plain_args(v)
        return w
    if v is np.mgrid:
        return arrays.MGRID
    if getattr(v, '__name__', '') == 'Delaunay' and (getattr(v, '__module__', None) or '').startswith('scipy'):
        return arrays.delaunay(v)
    if v is np.ma:
        return arrays.MA
    if v is np.float32 or v is np.float64 or v is np.complex128 or v is np.complex64:
        return _cast(v)
    return v


class _CastMeta(type):
    def __call__(cls, x=0.0):
        if isinstance(x, (core.Sym, core.SymBool)) or (isinstance(x, np.ndarray) and has_sym(x)):
            return x
        return cls.base(plain(x))

    def __instancecheck__(cls, x):
        return isinstance(x, cls.base)

    def __eq__(cls, o):
        return o is cls or o is cls.base

    def __hash__(cls):
        return hash(cls.base)


def _cast(t):
    s = _proxies.get(id(t))
    if s is None:
        s = _proxies[id(t)] = _CastMeta(t.__name__, (), {'base': t, 'dtype': np.dtype(t)})
    return s


def plain(x):
    """object arrays without any symbolic entry become ordinary arrays"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        if any(isinstance(i, (core.Sym, core.SymBool)) for i in x.ravel().tolist()):
            return x
        try:
            return np.asarray(arrays._strip(x)).astype(float)
        except (TypeError, ValueError):
            try:
                return np.asarray(arrays._strip(x)).astype(complex)
            except (TypeError, ValueError):
                return x
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(plain(i) for i in x)
    return x


def plain_args(f):
    def g(*a, **k):
        return f(*[plain(x) for x in a], **{n: plain(x) for n, x in k.items()})
    g.__name__ = getattr(f, '__name__', 'g')
    g.__wrapped__ = f
    return g


def sh_float(x=0.0):
    if isinstance(x, (core.Sym, core.SymBool)):
        return x
    if isinstance(x, np.ndarray) and has_sym(x):
        return x.item()
    if isinstance(x, builtins.str) and core.FROMTEXT is not None:
        r = core.FROMTEXT(x)
        if r is not None:
            return r
    return builtins.float(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float)

    def __call__(cls, x=0.0):
        return sh_float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class FloatShim(metaclass=_FloatMeta):
    fromhex = builtins.float.fromhex


def sh_int(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, np.ndarray) and has_sym(x):
            x = x.item()
        if isinstance(x, core.Sym):
            return core.trunc_(x)
        return builtins.int(x)
    return builtins.int(*a)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, core.Sym) and x.is_int())

    def __call__(cls, *a):
        return sh_int(*a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


def patch_module(mod):
    g = mod.__dict__
    for n in list(g):
        v = g[n]
        s = subst(v)
        if s is not v:
            g[n] = s
    for f, s in EXTRA:
        for n in list(g):
            if g[n] is f:
                g[n] = s


def _register_scipy():
    import scipy.fft
    import scipy.linalg
    import scipy.signal
    import scipy.spatial.distance as sd
    A = arrays
    A._reg(scipy.linalg.norm, A.sh_norm)
    A._reg(scipy.linalg.inv, lambda a, **k: A.sh_inv(a) if has_sym(a) else scipy.linalg.inv(a, **k))
    A._reg(scipy.linalg.det, A.sh_det)
    A._reg(scipy.linalg.solve, A.sh_solve)
    for n in ('rfft', 'irfft', 'fft', 'ifft'):
        f = getattr(scipy.fft, n)

        def g(x, n=None, axis=-1, norm=None, *a, _f=f, _s=getattr(A, 'sh_' + n), **k):
            k.pop('workers', None)
            k.pop('overwrite_x', None)
            return _s(x, n, axis, norm) if has_sym(x) else _f(x, n, axis, norm, **k)
        A._reg(f, g)
    A._reg(scipy.signal.sosfilt, A.sh_sosfilt)
    A._reg(scipy.signal.lfilter, A.sh_lfilter)

    def via_basis(f, x, axis):
        """apply a linear map, known only numerically, to symbolic data"""
        x = np.moveaxis(np.asarray(A._strip(A.sh_asarray(x)), dtype=object), axis, 0)
        m = f(np.eye(x.shape[0]))
        sh = x.shape
        y = np.dot(np.asarray(m, dtype=object), x.reshape(sh[0], -1)).reshape((m.shape[0],) + sh[1:])
        return A.wrap(np.moveaxis(y, 0, axis))

    def sosfiltfilt(sos, x, axis=-1, *a, **k):
        if not has_sym(x):
            return scipy.signal.sosfiltfilt(sos, x, axis, *a, **k)
        return via_basis(lambda e: scipy.signal.sosfiltfilt(sos, e, 0, *a, **k), x, axis)
    A._reg(scipy.signal.sosfiltfilt, sosfiltfilt)

    def cdist(a, b, metric='euclidean', **k):
        if not (has_sym(a) or has_sym(b)):
            return sd.cdist(a, b, metric, **k)
        a, b = A.sh_asarray(a), A.sh_asarray(b)
        out = np.zeros((len(a), len(b)), dtype=object)
        for i in range(len(a)):
            for j in range(len(b)):
                s = 0
                for t in range(a.shape[1]):
                    s = s + (a[i, t] - b[j, t]) ** 2
                out[i, j] = s if metric == 'sqeuclidean' else A._sqrtnum(s)
        return A.wrap(out)
    A._reg(sd.cdist, cdist)
    from . import splines  # noqa: F401


def _lenient_traits():
    """numeric traits accept symbolic values as they are"""
    import traits.api as T
    import traits.trait_numeric as tn
    import traits.trait_types as tt

    def lenient(cls, ok):
        class L(cls):
            fast_validate = None

            def validate(self, obj, name, value):
                if ok(value):
                    return value
                return super().validate(obj, name, value)
        L.__name__ = L.__qualname__ = cls.__name__
        return L
    issym = lambda v: isinstance(v, (core.Sym, core.SymBool)) or (isinstance(v, np.ndarray) and v.ndim == 0 and has_sym(v))
    isint = lambda v: isinstance(v, core.Sym) and v.is_int()
    for m in (T, tt):
        for n in ('Float', 'CFloat', 'BaseFloat', 'BaseCFloat'):
            if hasattr(m, n):
                setattr(m, n, lenient(_base_of(n), issym))
        for n in ('Int', 'CInt'):
            setattr(m, n, lenient(_base_of(n), isint))
    old = tn.AbstractArray.validate

    def validate(self, obj, name, value):
        if has_sym(value):
            return value if isinstance(value, np.ndarray) else arrays.sh_array(value)
        return old(self, obj, name, value)
    tn.AbstractArray.validate = validate


_orig_traits = {}


def _base_of(n):
    import traits.trait_types as tt
    n = 'Base' + n.replace('Base', '')
    if n not in _orig_traits:
        _orig_traits[n] = getattr(tt, n)
    return _orig_traits[n]


_done = []


def load(symbolic=True):
    """import acoular from REPO; with symbolic=True prepared for symbolic execution"""
    if _done:
        return sys.modules['acoular']
    sys.dont_write_bytecode = True
    # third party first: they must see the genuine numba/numpy
    import h5py, numba, scipy.interpolate, scipy.optimize, scipy.spatial, scipy.signal, scipy.linalg, scipy.integrate  # noqa
    import sklearn.linear_model, tables, traits.api  # noqa
    try:
        import pylops  # noqa
    except ImportError:
        pass
    sys.path[:] = [p for p in sys.path if p not in ('', REPO)]
    sys.path.insert(0, REPO)
    if symbolic:
        _lenient_traits()
        numba.njit = numba.jit = fake_njit
        numba.guvectorize = fake_guvectorize
        numba.vectorize = fake_vectorize
        numba.prange = range
        _register_scipy()
    import acoular
    assert os.path.realpath(acoular.__file__).startswith(os.path.realpath(REPO) + os.sep), acoular.__file__
    if symbolic:
        for n, m in list(sys.modules.items()):
            if (n == 'acoular' or n.startswith('acoular.')) and m is not None:
                patch_module(m)
                m.__dict__['float'] = FloatShim
                m.__dict__['int'] = sh_int_cls
    acoular.config.global_caching = 'none'
    acoular.config.use_traitsui = False if hasattr(acoular.config, 'use_traitsui') else None
    _done.append(1)
    return acoular


class sh_int_cls(metaclass=_IntMeta):
    from_bytes = builtins.int.from_bytes


def setattrs(obj, **vals):
    """assign traits; values holding symbolic numbers bypass trait validation"""
    for k, v in vals.items():
        if has_sym(v):
            old = obj.__dict__.get(k)
            t = obj.trait(k)
            if t is not None and t.type in ('property',):
                # property with storage: go through its setter
                obj.trait_setq(**{k: v}) if False else setattr(obj, k, v)
                continue
            obj.__dict__[k] = v
            obj.trait_property_changed(k, None if has_sym(v) else old, v)
        else:
            setattr(obj, k, v)
    return obj


def new(cls, **vals):
    sym = {k: v for k, v in vals.items() if has_sym(v)}
    o = cls(**{k: v for k, v in vals.items() if k not in sym})
    return setattrs(o, **sym)
