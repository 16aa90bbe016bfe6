"""numpy object arrays that carry symbolic numbers, and stand-ins for numpy functions that
cannot handle object arrays.  Stand-ins fall back to numpy for purely concrete arguments."""
import builtins
import math

import numpy as np

from . import core
from .core import Sym, SymBool, Unsupported

_obj = np.dtype(object)


class SymArray(np.ndarray):
    __array_priority__ = 500

    @property
    def real(self):
        return emap1(lambda x: x.real, self)

    @real.setter
    def real(self, v):
        self[...] = v + 1j * self.imag

    @property
    def imag(self):
        return emap1(lambda x: x.imag, self)

    def astype(self, dtype, *a, **k):
        if dtype is bool or dtype is np.bool_:
            return np.array([builtins.bool(x) for x in self.ravel()], dtype=bool).reshape(self.shape)
        try:
            k2 = np.dtype(dtype).kind
        except TypeError:
            k2 = 'f'
        if k2 in 'iu':
            if is_conc(self):
                return np.asarray(self.view(np.ndarray), dtype=dtype)
            return emap1(lambda x: core.trunc_(x) if isinstance(x, Sym) else int(x), self)
        return self.copy()

    def round(self, decimals=0, **k):
        if decimals:
            return emap1(lambda v: round(float(v) if not isinstance(v, core.Sym) else core.const_float(v), decimals), self)
        return emap1(core.rint_, self)

    def conjugate(self):
        return emap1(lambda x: x.conjugate(), self)

    conj = conjugate

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        s = self.sum(axis=axis, keepdims=keepdims)
        n = self.size if axis is None else np.prod([self.shape[i] for i in ((axis,) if isinstance(axis, int) else axis)])
        r = s / int(n)
        if out is not None:
            out[...] = r
            return out
        return r

    def sum(self, axis=None, dtype=None, out=None, **k):
        r = np.add.reduce(self.view(np.ndarray), axis=axis, **{a: b for a, b in k.items() if a == 'keepdims'})
        r = wrap(r)
        if out is not None:
            out[...] = r
            return out
        return r

    def cumsum(self, axis=None, dtype=None, out=None):
        a = self.view(np.ndarray)
        if axis is None:
            a, axis = a.ravel(), 0
        return wrap(np.add.accumulate(a, axis=axis))

    def dot(self, b, out=None):
        return wrap(np.dot(self.view(np.ndarray), np.asarray(b)))

    def __getitem__(self, k):
        return np.ndarray.__getitem__(self, _idx(k))

    def __setitem__(self, k, v):
        if isinstance(k, np.ndarray) and k.dtype == _obj and k.shape == self.shape and any(
                isinstance(x, SymBool) for x in k.ravel().tolist()) and (not isinstance(v, np.ndarray) or v.ndim == 0):
            v = v.item() if isinstance(v, np.ndarray) else v
            for i in np.ndindex(*k.shape):
                np.ndarray.__setitem__(self, i, core.ite(k[i], v, np.ndarray.__getitem__(self, i)))
            return
        np.ndarray.__setitem__(self, _idx(k), v)

    def any(self, axis=None, **k):
        return _anyall(self, axis, core.or_)

    def all(self, axis=None, **k):
        return _anyall(self, axis, core.and_)

    def max(self, axis=None, **k):
        return _reduce(self, axis, core.maximum, k.get('keepdims'))

    def min(self, axis=None, **k):
        return _reduce(self, axis, core.minimum, k.get('keepdims'))

    def std(self, axis=None, **k):
        m = self.mean(axis=axis, keepdims=True)
        return vsqrt((abs(self - m) ** 2).mean(axis=axis))

    def var(self, axis=None, **k):
        m = self.mean(axis=axis, keepdims=True)
        return (abs(self - m) ** 2).mean(axis=axis)

    def tobytes(self, *a, **k):
        return ('|'.join(map(str, self.ravel().tolist()))).encode()

    tostring = tobytes

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return sym_ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        f = SHIMS.get(id(func))
        if f is not None:
            return f[1](*args, **kwargs)
        return wrap(func(*_strip(args), **_strip(kwargs)))


def _idx(k):
    """symbolic truth values and integers inside an index are decided by forking"""
    if isinstance(k, tuple):
        return tuple(_idx(x) for x in k)
    if isinstance(k, np.ndarray) and k.dtype == _obj:
        l = k.ravel().tolist()
        if l and all(isinstance(x, (SymBool, builtins.bool, np.bool_)) for x in l):
            return np.array([builtins.bool(x) for x in l], dtype=bool).reshape(k.shape)
        if l:
            return np.array([x.__index__() if isinstance(x, Sym) else x for x in l]).reshape(k.shape)
        return np.zeros(k.shape, dtype=int)
    return k


def _strip(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, tuple):
        return tuple(_strip(i) for i in x)
    if isinstance(x, list):
        return [_strip(i) for i in x]
    if isinstance(x, dict):
        return {k: _strip(v) for k, v in x.items()}
    return x


def wrap(r):
    if isinstance(r, np.ndarray) and r.dtype == _obj and not isinstance(r, SymArray):
        return r.view(SymArray)
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    return r


def is_conc(a):
    """True when an object array holds only plain numbers"""
    return not any(isinstance(x, (Sym, SymBool)) for x in a.ravel().tolist())


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == _obj
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_sym(i, depth + 1) for i in x)
    return False


def emap1(f, a):
    """elementwise map, result SymArray (or scalar)"""
    if not isinstance(a, np.ndarray):
        return f(a)
    out = np.empty(a.shape, dtype=object)
    fl = a.view(np.ndarray) if isinstance(a, SymArray) else a
    for i in np.ndindex(*a.shape):
        out[i] = f(_py(fl[i]))
    return out.view(SymArray)


def _py(x):
    return x.item() if isinstance(x, np.generic) else x


def emap(f, *arrs):
    arrs = [np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a for a in arrs]
    b = np.broadcast(*arrs)
    out = np.empty(b.shape, dtype=object)
    bs = [np.broadcast_to(a.view(np.ndarray), b.shape) for a in arrs]
    for i in np.ndindex(*b.shape):
        out[i] = f(*[_py(x[i]) for x in bs])
    if out.ndim == 0:
        return out[()]
    return out.view(SymArray)


def _anyall(a, axis, op):
    a = a.view(np.ndarray)
    if axis is None:
        r = op(*[_truth(x) for x in a.ravel().tolist()])
        return np.bool_(r) if isinstance(r, builtins.bool) else r
    a = np.moveaxis(a, axis, -1)
    out = np.empty(a.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = op(*[_truth(x) for x in a[i].tolist()])
    return out.view(SymArray) if out.ndim else out[()]


def _truth(x):
    if isinstance(x, Sym):
        return x != 0
    return x


def _reduce(a, axis, op, keepdims=False):
    a = a.view(np.ndarray)
    if axis is None:
        r = None
        for x in a.ravel().tolist():
            r = x if r is None else op(r, x)
        return r
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        r = None
        for x in m[i].tolist():
            r = x if r is None else op(r, x)
        out[i] = r
    if keepdims:
        out = np.expand_dims(out, axis)
    return out.view(SymArray) if out.ndim else out[()]


def _conj(x):
    return x.conjugate()


def _angle(x):
    if isinstance(x, Sym):
        return core.arctan2(x.imag, x.real)
    return math.atan2(complex(x).imag, complex(x).real)


def _sqrtnum(x):
    if isinstance(x, Sym):
        return x.sqrt()
    if isinstance(x, complex):
        return np.sqrt(x)
    if isinstance(x, SymBool):
        raise Unsupported('sqrt of bool')
    x = core.coef(x)
    if x < 0:
        return math.nan
    if isinstance(x, int):
        r = math.isqrt(x)
        if r * r == x:
            return r
    return math.sqrt(x)


def _div(x, y):
    if isinstance(x, SymBool):
        x = x._num()
    if isinstance(y, Sym):
        return x / y
    if isinstance(x, Sym):
        if y == 0:
            return core.math.inf if False else _div0(x)
        if isinstance(y, (int, float)) and not isinstance(y, builtins.bool):
            y = core.coef(y)
            return x * (core.Fraction(1) / y if not isinstance(y, float) else 1.0 / y)
        return x / y
    if y == 0:
        with np.errstate(all='ignore'):
            return (np.asarray(x) / np.asarray(y)).item()
    return x / y


def _div0(x):
    raise Unsupported('symbolic value divided by constant zero')


def _sign(x):
    if isinstance(x, Sym):
        for c, v in ((x > 0, 1), (x < 0, -1)):
            if core.implied(c):
                return v
        return core.ite(x > 0, 1, core.ite(x < 0, -1, 0))
    return (x > 0) - (x < 0)


UN = {
    'sqrt': _sqrtnum, 'exp': core.exp, 'sin': core.sin, 'cos': core.cos,
    'tan': lambda x: core.sin(x) / core.cos(x), 'log': core.log, 'log10': core.log10,
    'absolute': abs, 'fabs': abs, 'conjugate': _conj, 'square': lambda x: x * x,
    'arcsin': core.arcsin, 'arccos': core.arccos, 'arctan': core.arctan,
    'floor': core.floor_, 'ceil': lambda x: -core.floor_(-x), 'rint': core.rint_, 'trunc': core.trunc_,
    'isnan': lambda x: False if isinstance(x, Sym) else x != x,
    'isfinite': lambda x: True if isinstance(x, Sym) else math.isfinite(abs(x)),
    'isinf': lambda x: False if isinstance(x, Sym) else math.isinf(abs(x)),
    'negative': lambda x: -x, 'positive': lambda x: x, 'reciprocal': lambda x: _div(1, x),
    'sign': _sign, 'logical_not': lambda x: core.not_(x if isinstance(x, SymBool) else _truth(x)),
    'invert': lambda x: core.not_(x) if isinstance(x, (SymBool, builtins.bool)) else ~x,
    'deg2rad': lambda x: x * (math.pi / 180), 'rad2deg': lambda x: x * (180 / math.pi),
    'degrees': lambda x: x * (180 / math.pi), 'radians': lambda x: x * (math.pi / 180),
    'signbit': lambda x: x < 0,
}
BIN = {
    'add': lambda x, y: x + y, 'subtract': lambda x, y: x - y, 'multiply': lambda x, y: _mul(x, y), 'divide': _div,
    'true_divide': _div, 'maximum': core.maximum, 'minimum': core.minimum, 'fmax': core.maximum,
    'fmin': core.minimum, 'arctan2': core.arctan2, 'hypot': lambda x, y: _sqrtnum(x * x + y * y), 'copysign': lambda x, y: core.ite(y >= 0, abs(x), -abs(x)),
    'less': lambda x, y: x < y, 'less_equal': lambda x, y: x <= y, 'greater': lambda x, y: x > y,
    'greater_equal': lambda x, y: x >= y, 'equal': lambda x, y: x == y, 'not_equal': lambda x, y: x != y,
    'logical_and': lambda x, y: core.and_(_truth(x), _truth(y)),
    'logical_or': lambda x, y: core.or_(_truth(x), _truth(y)),
    'bitwise_and': lambda x, y: core.and_(x, y) if _isb(x) and _isb(y) else x & y,
    'bitwise_or': lambda x, y: core.or_(x, y) if _isb(x) and _isb(y) else x | y,
    'power': lambda x, y: _pow(x, y), 'floor_divide': lambda x, y: x // y, 'remainder': lambda x, y: x % y,
    'float_power': lambda x, y: _pow(x, y), 'mod': lambda x, y: x % y,
}


def _isb(x):
    return isinstance(x, (SymBool, builtins.bool, np.bool_))


def _mul(x, y):
    if isinstance(x, SymBool):
        x = x._num()
    if isinstance(y, SymBool):
        y = y._num()
    return x * y


def _pow(x, y):
    if not isinstance(x, Sym) and not isinstance(y, Sym):
        return np.power(np.asarray(x) * 1.0 if isinstance(y, float) or y < 0 else np.asarray(x), y).item()
    return x ** y


def sym_ufunc(ufunc, method, *inputs, **kw):
    out = kw.pop('out', None)
    kw.pop('dtype', None)
    kw.pop('casting', None)
    where = kw.pop('where', True)
    name = ufunc.__name__
    ins = [_zero_d(x) for x in inputs]
    if method == '__call__':
        if name in ('matmul', 'vecdot', 'dot'):
            r = wrap(np.matmul(*[np.asarray(_strip(x)) for x in ins]))
        elif name in UN and len(ins) == 1:
            r = emap1(UN[name], ins[0])
        elif name in BIN and len(ins) == 2:
            f = BIN[name]
            if any(isinstance(x, np.ndarray) and x.ndim for x in ins):
                r = emap(f, *ins)
            else:
                r = f(*[_py(x) for x in ins])
        elif name == 'modf':
            t = emap1(core.trunc_, ins[0])
            r = (ins[0] - t, t)
        elif name == 'divmod':
            r = (emap(lambda x, y: x // y, *ins), emap(lambda x, y: x % y, *ins))
        else:
            raise Unsupported('ufunc %s on symbolic data' % name)
        if isinstance(r, SymArray):
            r = _maybe_bool(r, name)
    elif method == 'outer':
        a, b = [np.asarray(_strip(x)) for x in ins]
        r = sym_ufunc(ufunc, '__call__', wrap(np.asarray(a, dtype=object).reshape(a.shape + (1,) * b.ndim)), b)
    elif method == 'reduce':
        a = wrap(np.asarray(_strip(ins[0]), dtype=object))
        axis = kw.get('axis', 0)
        if len(ins) > 1:
            axis = ins[1]
        if name == 'add':
            r = a.sum(axis=axis, **({'keepdims': True} if kw.get('keepdims') else {}))
        elif name in ('maximum', 'minimum'):
            r = _reduce(a, axis, BIN[name], kw.get('keepdims'))
        elif name in ('logical_and', 'logical_or'):
            r = _anyall(a, axis, core.and_ if name == 'logical_and' else core.or_)
        elif name == 'multiply':
            r = wrap(np.multiply.reduce(a.view(np.ndarray), axis=axis))
        else:
            raise Unsupported('%s.reduce' % name)
    elif method == 'accumulate':
        r = wrap(ufunc.accumulate(np.asarray(_strip(ins[0])), axis=kw.get('axis', 0)))
    elif method == 'at':
        a, idx, b = inputs[0], inputs[1], (inputs[2] if len(inputs) > 2 else None)
        if name != 'add':
            raise Unsupported('%s.at' % name)
        np.add.at(a.view(np.ndarray), idx, np.asarray(_strip(b)) if b is not None else 0)
        return None
    else:
        raise Unsupported('ufunc method ' + method)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if where is not True:
            w = np.broadcast_to(np.asarray(where), o.shape)
            rr = np.broadcast_to(np.asarray(r, dtype=object), o.shape)
            for i in np.ndindex(*o.shape):
                if builtins.bool(w[i]):
                    o[i] = rr[i]
            return o
        if isinstance(o, np.ndarray) and o.dtype != _obj:
            if isinstance(r, np.ndarray) and r.dtype == _obj and not is_conc(r) or isinstance(r, Sym):
                if o.dtype == builtins.bool:
                    r = np.array([builtins.bool(_truth(x)) for x in np.ravel(r).tolist()]).reshape(np.shape(r))
                else:
                    raise Unsupported('symbolic result stored into a %s array' % o.dtype)
        o[...] = r
        return o
    return r


def _maybe_bool(r, name):
    """comparisons whose results are all concrete become plain boolean arrays"""
    if name in ('less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
                'logical_not', 'isnan', 'isfinite', 'isinf', 'invert', 'bitwise_and', 'bitwise_or', 'signbit'):
        if all(isinstance(x, (builtins.bool, np.bool_)) for x in r.ravel().tolist()):
            return np.array(r.view(np.ndarray), dtype=bool)
    return r


def _zero_d(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item()
    if isinstance(x, (list, tuple)):
        return np.array(x, dtype=object) if has_sym(x) else np.array(x)
    return x


def vsqrt(a):
    return emap1(_sqrtnum, a)


# --------------------------------------------------------------------------- array creation
# While symbolic execution is on, floating point arrays are created as object arrays.
ON = [True]


def _floatlike(dtype):
    if dtype is None:
        return True
    try:
        return np.dtype(dtype).kind in 'fcO'
    except TypeError:
        return True


def _shape(s):
    if isinstance(s, (Sym,)):
        return (s.__index__(),)
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    return tuple(x.__index__() if isinstance(x, Sym) else (int(x) if isinstance(x, (float, np.floating)) is False else x) for x in s)


def sh_zeros(shape, dtype=None, order='C', **k):
    if not _floatlike(dtype):
        return np.zeros(_shape(shape), dtype)
    a = np.zeros(_shape(shape), dtype=object)
    return a.view(SymArray)


def sh_ones(shape, dtype=None, order='C', **k):
    if not _floatlike(dtype):
        return np.ones(_shape(shape), dtype)
    a = np.ones(_shape(shape), dtype=object)
    return a.view(SymArray)


def sh_full(shape, fill_value, dtype=None, order='C', **k):
    if dtype is None and not isinstance(fill_value, (float, complex, Sym)):
        return np.full(_shape(shape), fill_value)
    if not _floatlike(dtype):
        return np.full(_shape(shape), fill_value, dtype)
    a = np.zeros(_shape(shape), dtype=object).view(SymArray)
    a[...] = fill_value
    return a


def sh_empty(shape, dtype=None, order='C', **k):
    if not _floatlike(dtype):
        return np.zeros(_shape(shape), dtype)
    a = np.empty(_shape(shape), dtype=object).view(SymArray)
    if core.CUR is None:
        a[...] = 0
    else:
        for i in np.ndindex(*a.shape):
            a[i] = core.CUR.new_garbage()
    return a


def sh_zeros_like(a, dtype=None, **k):
    return sh_zeros(np.shape(a), dtype if dtype is not None else getattr(a, 'dtype', None))


def sh_ones_like(a, dtype=None, **k):
    return sh_ones(np.shape(a), dtype if dtype is not None else getattr(a, 'dtype', None))


def sh_empty_like(a, dtype=None, **k):
    return sh_empty(np.shape(a), dtype if dtype is not None else getattr(a, 'dtype', None))


def sh_full_like(a, v, dtype=None, **k):
    return sh_full(np.shape(a), v, dtype if dtype is not None else getattr(a, 'dtype', None))


def _builtin_type(dtype):
    """stand-ins of int and float as dtype"""
    if isinstance(dtype, type) and not issubclass(dtype, np.generic):
        for t in (builtins.int, builtins.float, builtins.complex):
            if dtype == t:
                return t
    return dtype


def sh_array(x, dtype=None, copy=True, order=None, ndmin=0, **k):
    dtype = _builtin_type(dtype)
    if has_sym(x):
        if isinstance(x, np.ndarray):
            r = x.view(SymArray)
            if dtype is not None and not _floatlike(dtype):
                r = r.astype(dtype)
                return r
            r = r.copy() if copy else r
        else:
            r = np.array(_tolists(x), dtype=object).view(SymArray)
            if dtype is not None and np.dtype(dtype).kind in 'iu':
                r = r.astype(dtype)
        while r.ndim < ndmin:
            r = r[np.newaxis]
        return r
    return np.array(x, dtype=dtype, ndmin=ndmin, **({'copy': copy} if copy is True else {}))


def _tolists(x):
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return [_tolists(i) for i in x]
    return x


def sh_asarray(x, dtype=None, *a, **k):
    if has_sym(x):
        if isinstance(x, SymArray) and (dtype is None or _floatlike(dtype)):
            return x
        return sh_array(x, dtype, copy=False)
    r = np.asarray(x, dtype)
    return r.view(IArr) if isinstance(x, IArr) else r


def sh_linspace(a, b, num=50, endpoint=True, **k):
    if not has_sym(a) and not has_sym(b):
        return np.linspace(a, b, num, endpoint=endpoint, **k)
    n = int(num)
    d = (n - 1) if endpoint else n
    return np.array([a + (b - a) * i / d if d else a for i in range(n)], dtype=object).view(SymArray)


def sh_arange(*a, dtype=None, **k):
    if not any(isinstance(x, Sym) for x in a):
        return np.arange(*a, dtype=dtype, **k).view(IArr)
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    else:
        start, stop = a[:2]
        step = a[2] if len(a) > 2 else 1
    if isinstance(start, Sym) or isinstance(step, Sym):
        n = -core.floor_(-((stop - start) / step))
        n = n if isinstance(n, (int, float)) else core.CUR.concretise(n)
        n = builtins.max(0, int(n))
        return np.array([start + i * step for i in range(n)], dtype=object).view(SymArray)
    return np.arange(int(start), int(stop), int(step), dtype=dtype).view(IArr)


def sh_where(c, *args):
    if not args:
        return np.nonzero(boolarr(c))
    x, y = args
    if not (has_sym(c) or has_sym(x) or has_sym(y)):
        return np.where(c, x, y)
    if isinstance(c, (SymBool, Sym)) or not isinstance(c, np.ndarray):
        c = np.asarray(c, dtype=object)
    return emap(lambda k, a, b: core.ite(_truth(k), a, b), c, _nd(x), _nd(y))


def _nd(x):
    return x if isinstance(x, np.ndarray) else np.array(x, dtype=object)


def boolarr(c):
    """resolve symbolic booleans (forks)"""
    if isinstance(c, np.ndarray) and c.dtype == _obj:
        return np.array([builtins.bool(x) for x in c.ravel().tolist()], dtype=bool).reshape(c.shape)
    if isinstance(c, (list, tuple)):
        return np.array([builtins.bool(x) for x in c])
    return np.asarray(c)


def sh_clip(a, lo=None, hi=None, out=None, **k):
    lo = k.pop('min', lo) if 'min' in k else k.pop('a_min', lo)
    hi = k.pop('max', hi) if 'max' in k else k.pop('a_max', hi)
    if k:
        raise Unsupported('options of clip %r' % (sorted(k),))
    if not (has_sym(a) or has_sym(lo) or has_sym(hi)):
        return np.clip(a, lo, hi, out=out)
    r = a
    if lo is not None:
        r = emap(core.maximum, _nd(r), _nd(lo))
    if hi is not None:
        r = emap(core.minimum, _nd(r), _nd(hi))
    if out is not None:
        out[...] = r
        return out
    return r


def sh_norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        return np.linalg.norm(x, ord=ord, axis=axis, keepdims=keepdims)
    x = sh_asarray(x)
    if ord in (None, 2, 'fro') and (axis is not None or x.ndim <= 2):
        s = (abs(x) ** 2) if False else emap1(lambda v: v * v.conjugate(), x)
        s = s.sum(axis=axis, **({'keepdims': True} if keepdims else {}))
        return vsqrt(s)
    if ord == 1 and x.ndim == 1:
        return abs(x).sum()
    raise Unsupported('norm ord=%r' % (ord,))


def sh_mean(a, axis=None, **k):
    return sh_asarray(a).mean(axis=axis, **{x: y for x, y in k.items() if x in ('keepdims', 'out')}) if has_sym(a) else np.mean(a, axis=axis, **k)


def sh_sum(a, axis=None, **k):
    if isinstance(a, Sym):
        return a
    return sh_asarray(a).sum(axis=axis, **k) if has_sym(a) else np.sum(a, axis=axis, **k)


def sh_max(a, axis=None, **k):
    return sh_asarray(a).max(axis=axis, **k) if has_sym(a) else np.max(a, axis=axis, **k)


def sh_min(a, axis=None, **k):
    return sh_asarray(a).min(axis=axis, **k) if has_sym(a) else np.min(a, axis=axis, **k)


def sh_any(a, axis=None, **k):
    return sh_asarray(a).any(axis=axis) if has_sym(a) else np.any(a, axis=axis, **k)


def sh_all(a, axis=None, **k):
    return sh_asarray(a).all(axis=axis) if has_sym(a) else np.all(a, axis=axis, **k)


def sh_real(a):
    return a.real if hasattr(a, 'real') else np.real(a)


def sh_imag(a):
    return a.imag if hasattr(a, 'imag') else np.imag(a)


def sh_angle(z, deg=False):
    if not has_sym(z):
        return np.angle(z, deg)
    return emap1(_angle, z if isinstance(z, np.ndarray) else z) * (180 / math.pi if deg else 1)


def sh_ravel(a, *k):
    return wrap(np.ravel(_strip(a)))


def sh_einsum(spec, *ops, **k):
    if not any(has_sym(o) for o in ops):
        return np.einsum(spec, *ops, **k)
    out = k.pop('out', None)
    k.pop('dtype', None)
    k.pop('casting', None)
    r = wrap(np.einsum(spec, *[np.asarray(_strip(o), dtype=object) for o in ops]))
    if out is not None:
        out[...] = r
        return out
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r.item()
    return r


def _lin(f):
    def g(*a, **k):
        return wrap(f(*[_obj_(x) for x in a], **k)) if any(has_sym(x) for x in a) else f(*a, **k)
    return g


def _obj_(x):
    if has_sym(x):
        return np.asarray(_strip(x), dtype=object)
    return x


def sh_cross(a, b, *args, **k):
    if not (has_sym(a) or has_sym(b)):
        return np.cross(a, b, *args, **k)
    if args or any(k.get(x) is not None for x in ('axisa', 'axisb', 'axisc', 'axis')):
        ax = k.get('axis')
        aa, ab, ac = (list(args) + [-1, -1, -1])[:3] if args else (k.get('axisa', -1), k.get('axisb', -1), k.get('axisc', -1))
        if ax is not None:
            aa = ab = ac = ax
    else:
        aa = ab = ac = -1
    a = np.moveaxis(np.asarray(_strip(_nd(a)), dtype=object), aa, -1)
    b = np.moveaxis(np.asarray(_strip(_nd(b)), dtype=object), ab, -1)
    r = np.stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
                  a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], axis=-1)
    return wrap(np.moveaxis(r, -1, ac))


def sh_isscalar(x):
    return True if isinstance(x, Sym) else np.isscalar(x)


def sh_sign(x):
    return emap1(_sign, x)


def sh_round(a, decimals=0, **k):
    if not has_sym(a):
        return np.round(a, decimals, **k)
    if decimals:
        raise Unsupported('round to digits')
    return emap1(core.rint_, a)


def sh_nan_to_num(a, *x, **k):
    return a if has_sym(a) else np.nan_to_num(a, *x, **k)


def sh_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not (has_sym(a) or has_sym(b)):
        return np.isclose(a, b, rtol=rtol, atol=atol, **k)
    return abs(_nd(a) - _nd(b)) <= atol + rtol * abs(_nd(b))


def sh_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not (has_sym(a) or has_sym(b)):
        return np.allclose(a, b, rtol=rtol, atol=atol, **k)
    return core.and_(*np.asarray(sh_isclose(a, b, rtol, atol)).ravel().tolist())


def sh_array_equal(a, b, **k):
    if not (has_sym(a) or has_sym(b)):
        return np.array_equal(a, b, **k)
    a, b = _nd(a), _nd(b)
    if a.shape != b.shape:
        return False
    return core.and_(*[x == y for x, y in zip(a.ravel().tolist(), b.ravel().tolist())])


def sh_searchsorted(a, v, side='left', sorter=None):
    if not (has_sym(a) or has_sym(v)):
        return np.searchsorted(a, v, side, sorter)
    a = [_py(x) for x in np.asarray(_strip(a)).tolist()]

    def one(x):
        n = 0
        for y in a:
            if builtins.bool(y < x if side == 'left' else y <= x):
                n += 1
            else:
                break
        return n
    if isinstance(v, np.ndarray) and v.ndim:
        return np.array([one(x) for x in v.ravel().tolist()]).reshape(v.shape)
    return one(v if not isinstance(v, np.ndarray) else v.item())


def sh_interp(x, xp, fp, *a, **k):
    if not (has_sym(x) or has_sym(xp) or has_sym(fp)):
        return np.interp(x, xp, fp, *a, **k)
    xp, fp = list(xp), list(fp)

    def one(v):
        if builtins.bool(v <= xp[0]):
            return fp[0]
        for i in range(1, len(xp)):
            if builtins.bool(v <= xp[i]):
                return fp[i - 1] + (fp[i] - fp[i - 1]) * _div(v - xp[i - 1], xp[i] - xp[i - 1])
        return fp[-1]
    return emap1(one, x if isinstance(x, np.ndarray) else x)


def dft_mat(n, inverse=False):
    """exact-as-possible DFT twiddles"""
    w = {}
    for k in range(n):
        a = (k * 360) / n
        c, s = math.cos(2 * math.pi * k / n), math.sin(2 * math.pi * k / n)
        c = round(c) if abs(c - round(c)) < 1e-14 else (0.5 * round(2 * c) if abs(2 * c - round(2 * c)) < 1e-14 else c)
        s = round(s) if abs(s - round(s)) < 1e-14 else (0.5 * round(2 * s) if abs(2 * s - round(2 * s)) < 1e-14 else s)
        w[k] = complex(c, -s)
    return w


def _fftnorm(norm, n, inverse):
    if norm in (None, 'backward'):
        return core.Fraction(1, n) if inverse else 1
    if norm == 'ortho':
        r = math.isqrt(n)
        return core.Fraction(1, r) if r * r == n else 1 / math.sqrt(n)
    if norm == 'forward':
        return 1 if inverse else core.Fraction(1, n)
    raise ValueError('norm %r' % norm)


def _resize(x, n, axis):
    x = np.moveaxis(np.asarray(_strip(sh_asarray(x)), dtype=object), axis, -1)
    if n is None:
        return x, x.shape[-1]
    n = int(n)
    if n < x.shape[-1]:
        x = x[..., :n]
    elif n > x.shape[-1]:
        pad = np.zeros(x.shape[:-1] + (n - x.shape[-1],), dtype=object)
        x = np.concatenate([x, pad], axis=-1)
    return x, n


def _mkq(f):
    return f if isinstance(f, (int, float)) else Sym({(): f}) if isinstance(f, core.Fraction) and f.denominator != 1 else int(f)


def sh_rfft(x, n=None, axis=-1, norm=None, *a, **k):
    if not has_sym(x):
        return np.fft.rfft(x, n, axis, norm)
    return sh_fft(x, n, axis, norm, half=True)


def sh_fft(x, n=None, axis=-1, norm=None, half=False, *a, **k):
    if not has_sym(x):
        return np.fft.fft(x, n, axis, norm)
    x, n = _resize(x, n, axis)
    w = dft_mat(n)
    f = _mkq(_fftnorm(norm, n, False))
    m = n // 2 + 1 if half else n
    out = np.zeros(x.shape[:-1] + (m,), dtype=object)
    for i in np.ndindex(*x.shape[:-1]):
        for j in range(m):
            s = 0
            for t in range(n):
                v = x[i + (t,)]
                tw = w[(j * t) % n]
                s = s + v * (tw.real if tw.imag == 0 else tw)
            out[i + (j,)] = s * f
    return wrap(np.moveaxis(out, -1, axis))


def sh_irfft(x, n=None, axis=-1, norm=None, *a, **k):
    if not has_sym(x):
        return np.fft.irfft(x, n, axis, norm)
    m0 = np.shape(x)[axis]
    n = 2 * (m0 - 1) if n is None else int(n)
    x, m = _resize(x, n // 2 + 1, axis)
    w = dft_mat(n)
    f = _mkq(_fftnorm(norm, n, True))
    out = np.zeros(x.shape[:-1] + (n,), dtype=object)
    for i in np.ndindex(*x.shape[:-1]):
        for t in range(n):
            v0 = x[i + (0,)]
            s = v0.real
            for j in range(1, m):
                z = x[i + (j,)] * w[(j * t) % n].conjugate()
                if n % 2 == 0 and j == n // 2:
                    s = s + z.real if t % 1 == 0 else s
                else:
                    s = s + 2 * z.real
            out[i + (t,)] = s * f
    return wrap(np.moveaxis(out, -1, axis))


def sh_ifft(x, n=None, axis=-1, norm=None, *a, **k):
    if not has_sym(x):
        return np.fft.ifft(x, n, axis, norm)
    x, n = _resize(x, n, axis)
    w = dft_mat(n)
    f = _mkq(_fftnorm(norm, n, True))
    out = np.zeros(x.shape, dtype=object)
    for i in np.ndindex(*x.shape[:-1]):
        for t in range(n):
            s = 0
            for j in range(n):
                s = s + x[i + (j,)] * w[(j * t) % n].conjugate()
            out[i + (t,)] = s * f
    return wrap(np.moveaxis(out, -1, axis))


def sh_unique(a, *args, **k):
    if not has_sym(a):
        return np.unique(a, *args, **k)
    if args or not set(k) <= {'axis', 'return_index', 'return_inverse'}:
        raise Unsupported('unique on symbolic data with these options')
    import functools
    a = np.asarray(_strip(sh_asarray(a)), dtype=object)
    ax = k.get('axis')
    rows = [[x] for x in a.ravel().tolist()] if ax is None else [list(r.ravel()) for r in np.moveaxis(a, ax, 0)]

    def cmp(i, j):
        for p, q in zip(rows[i], rows[j]):
            if builtins.bool(p < q):
                return -1
            if builtins.bool(q < p):
                return 1
        return 0
    order = sorted(range(len(rows)), key=functools.cmp_to_key(cmp))
    first, inv = [], [0] * len(rows)
    for i in order:
        if not first or cmp(first[-1], i):
            first.append(i)
        inv[i] = len(first) - 1
    out = wrap(a.ravel()[first] if ax is None else np.take(a, first, axis=ax))
    res = (out,)
    if k.get('return_index'):
        res += (np.array(first, dtype=int),)
    if k.get('return_inverse'):
        res += (np.array(inv, dtype=int),)
    return res if len(res) > 1 else out


def sh_argsort(a, axis=-1, **k):
    if not has_sym(a):
        return np.argsort(a, axis=axis, **k)
    a = np.asarray(_strip(a), dtype=object)
    if a.ndim != 1:
        out = np.zeros(a.shape, dtype=int)
        m = np.moveaxis(a, axis, -1)
        o = np.moveaxis(out, axis, -1)
        for i in np.ndindex(*m.shape[:-1]):
            o[i] = sh_argsort(m[i])
        return out
    return np.array(sorted(range(len(a)), key=__import__('functools').cmp_to_key(
        lambda i, j: -1 if builtins.bool(a[i] < a[j]) else (1 if builtins.bool(a[j] < a[i]) else 0))), dtype=int)


def sh_sort(a, axis=-1, **k):
    if not has_sym(a):
        return np.sort(a, axis=axis, **k)
    a = sh_asarray(a)
    if a.ndim == 1:
        return a[sh_argsort(a)]
    return np.take_along_axis(a.view(np.ndarray), sh_argsort(a, axis), axis).view(SymArray)


def sh_argmax(a, axis=None, **k):
    return _argm(a, axis, lambda x, best: x > best, np.argmax)


def sh_argmin(a, axis=None, **k):
    return _argm(a, axis, lambda x, best: x < best, np.argmin)


def _argm(a, axis, better, f):
    if not has_sym(a):
        return f(a, axis=axis)
    a = np.asarray(_strip(a), dtype=object)

    def one(v):
        b = 0
        for i in range(1, len(v)):
            if builtins.bool(better(v[i], v[b])):
                b = i
        return b
    if axis is None:
        return one(a.ravel())
    m = np.moveaxis(a, axis, -1)
    out = np.zeros(m.shape[:-1], dtype=int)
    for i in np.ndindex(*out.shape):
        out[i] = one(m[i])
    return out if out.ndim else int(out)


def _resize_inplace(self, *shape, refcheck=True):
    sh = shape[0] if len(shape) == 1 and isinstance(shape[0], tuple) else shape
    sh = tuple(x.__index__() for x in sh)
    if int(np.prod(sh)) != self.size:
        raise Unsupported('resize that changes the size')
    self.shape = sh


SymArray.resize = _resize_inplace
SymArray.argmax = lambda self, axis=None, **k: sh_argmax(self, axis)
SymArray.argmin = lambda self, axis=None, **k: sh_argmin(self, axis)
SymArray.argsort = lambda self, axis=-1, **k: sh_argsort(self, axis)
SymArray.clip = lambda self, min=None, max=None, **k: sh_clip(self, min, max, **k)


def _sort_inplace(self, axis=-1, **k):
    self[...] = sh_sort(self, axis)


SymArray.sort = _sort_inplace
SymArray.nonzero = lambda self: np.nonzero(boolarr(self))


def sh_inv(a, **k):
    if not has_sym(a):
        return np.linalg.inv(a)
    a = np.asarray(_strip(a), dtype=object)
    n = a.shape[-1]
    if a.ndim > 2:
        return wrap(np.array([sh_inv(x) for x in a.reshape((-1, n, n))], dtype=object).reshape(a.shape))
    if n == 1:
        return wrap(np.array([[_div(1, a[0, 0])]], dtype=object))
    det, adj = _adj(a)
    return wrap(emap(lambda x: _div(x, det), adj))


def _det(a):
    n = a.shape[0]
    if n == 0:
        return 1
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    s = 0
    for j in range(n):
        m = np.delete(np.delete(a, 0, 0), j, 1)
        s = s + (-1) ** j * a[0, j] * _det(m)
    return s


def _adj(a):
    n = a.shape[0]
    c = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            c[j, i] = (-1) ** (i + j) * _det(np.delete(np.delete(a, i, 0), j, 1))
    return _det(a), c


def sh_det(a):
    if not has_sym(a):
        return np.linalg.det(a)
    return _det(np.asarray(_strip(a), dtype=object))


def sh_solve(a, b, **k):
    if not (has_sym(a) or has_sym(b)):
        return np.linalg.solve(a, b)
    return wrap(np.asarray(_strip(sh_inv(a)), dtype=object) @ np.asarray(_strip(b), dtype=object))


def sh_sosfilt(sos, x, axis=-1, zi=None):
    """direct form II transposed biquad cascade, scipy's documented recurrence"""
    if not (has_sym(sos) or has_sym(x) or has_sym(zi)):
        import scipy.signal
        return scipy.signal.sosfilt(sos, x, axis=axis, zi=zi)
    x = np.moveaxis(np.asarray(_strip(sh_asarray(x)), dtype=object), axis, -1).copy()
    sos = np.asarray(_strip(sos))
    ns = sos.shape[0]
    if zi is None:
        z = np.zeros((ns,) + x.shape[:-1] + (2,), dtype=object)
    else:
        zz = np.asarray(_strip(zi))
        want = list(np.moveaxis(np.empty(x.shape), -1, axis).shape)
        want[axis] = 2
        if list(zz.shape) != [ns] + want:
            raise ValueError('Invalid zi shape')
        z = np.moveaxis(np.asarray(zz, dtype=object), axis if axis < 0 else axis + 1, -1).copy()
    for i in np.ndindex(*x.shape[:-1]):
        for n in range(x.shape[-1]):
            v = x[i + (n,)]
            for s in range(ns):
                b0, b1, b2, a0, a1, a2 = [_py(t) for t in sos[s]]
                z0, z1 = z[(s,) + i + (0,)], z[(s,) + i + (1,)]
                y = b0 * v + z0
                z[(s,) + i + (0,)] = b1 * v - a1 * y + z1
                z[(s,) + i + (1,)] = b2 * v - a2 * y
                v = y
            x[i + (n,)] = v
    y = wrap(np.moveaxis(x, -1, axis))
    if zi is None:
        return y
    return y, wrap(np.moveaxis(z, -1, axis if axis < 0 else axis + 1))


def sh_lfilter(b, a, x, axis=-1, zi=None):
    if not has_sym(x):
        import scipy.signal
        return scipy.signal.lfilter(b, a, x, axis=axis) if zi is None else scipy.signal.lfilter(b, a, x, axis, zi)
    b, a = [np.atleast_1d(v).astype(float) for v in (b, a)]
    if zi is not None:
        raise Unsupported('lfilter with zi')
    xx = np.moveaxis(np.asarray(_strip(sh_asarray(x)), dtype=object), axis, -1)
    out = np.zeros(xx.shape, dtype=object)
    for i in np.ndindex(*xx.shape[:-1]):
        for n in range(xx.shape[-1]):
            s = 0
            for k in range(len(b)):
                if n - k >= 0:
                    s = s + b[k] * xx[i + (n - k,)]
            for k in range(1, len(a)):
                if n - k >= 0:
                    s = s - a[k] * out[i + (n - k,)]
            out[i + (n,)] = s * (1 / a[0])
    return wrap(np.moveaxis(out, -1, axis))


def sh_count_nonzero(a, *x, **k):
    return np.count_nonzero(boolarr(a), *x, **k)


def sh_trapz(y, x=None, dx=1.0, axis=-1):
    raise Unsupported('trapezoid')


def sh_iscomplexobj(x):
    if has_sym(x):
        a = x.ravel().tolist() if isinstance(x, np.ndarray) else [x]
        return any(isinstance(v, complex) or (isinstance(v, Sym) and not core.p_isreal(v.p)) for v in a)
    return np.iscomplexobj(x)


def sh_diag(a, k=0):
    return wrap(np.diag(_strip(a), k)) if has_sym(a) else np.diag(a, k)


def sh_fill_diagonal(a, v, wrap=False):
    if has_sym(a) or has_sym(v):
        for i in range(builtins.min(a.shape)):
            a[i, i] = v if np.ndim(v) == 0 else v[i % len(v)]
        return
    np.fill_diagonal(a, v, wrap)


class _MGrid:
    """numpy.mgrid for symbolic limits and numbers of points"""

    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        if not any(isinstance(x, Sym) for s in ks for x in (s.start, s.stop, s.step)):
            return np.mgrid[k].copy().view(IArr)
        axes = []
        for s in ks:
            a = 0 if s.start is None else s.start
            if isinstance(s.step, (complex, Sym)):
                n = s.step.imag
                n = int(n)
                d = (s.stop - a) / builtins.float(n - 1) if n > 1 else s.step.imag
                axes.append([a + d * i for i in range(n)])
            else:
                d = 1 if s.step is None else s.step
                n = -core.floor_(-((s.stop - a) / d))
                axes.append([a + d * i for i in range(builtins.max(int(n), 0))])
        out = np.zeros((len(ks),) + tuple(len(x) for x in axes), dtype=object)
        for i in np.ndindex(*out.shape[1:]):
            for j in range(len(ks)):
                out[(j,) + i] = axes[j][i[j]]
        return (out if isinstance(k, tuple) else out[0]).view(SymArray)


class IArr(np.ndarray):
    """ordinary numbers that may be indexed by symbolic truth values"""

    def __getitem__(self, k):
        return np.ndarray.__getitem__(self, _idx(k))

    def __setitem__(self, k, v):
        np.ndarray.__setitem__(self, _idx(k), v)


class MaskedIdx(np.ndarray):
    """small integers or truth values in a masked array: symbolic masks are decided by forking"""

    def __setitem__(self, k, v):
        k = _idx(k)
        np.ndarray.__setitem__(self, k, v)
        if getattr(self, 'known', None) is not None:
            self.known[k] = True

    def __getitem__(self, k):
        return np.ndarray.__getitem__(self, _idx(k))


class _MA:
    def __getattr__(self, n):
        return getattr(np.ma, n)

    def masked_all(self, shape, dtype=float):
        dtype = builtins.int if dtype == builtins.int else dtype
        if np.dtype(dtype).kind not in 'bi':
            return np.ma.masked_all(shape, dtype)
        r = np.zeros(shape, dtype).view(MaskedIdx)
        r.known = np.zeros(shape, bool)
        return r

    def count(self, a, *x, **k):
        if getattr(a, 'known', None) is not None:
            return int(np.sum(a.known))
        return np.ma.count(a, *x, **k)


_del = {}


def delaunay(base):
    """scipy's triangulation of given vertices; symbolic points are located by their barycentric coordinates"""
    if base in _del:
        return _del[base]

    class Delaunay(base):
        def find_simplex(self, xi, bruteforce=False, tol=None):
            if not has_sym(xi):
                return base.find_simplex(self, np.asarray(xi, dtype=float), bruteforce, tol)
            eps = 100 * np.finfo(builtins.float).eps if tol is None else tol
            xi = np.asarray(_strip(xi), dtype=object)
            out = np.full(len(xi), -1)
            d = xi.shape[1]
            for i, p in enumerate(xi):
                for s, T in enumerate(self.transform):
                    b = [builtins.sum(T[j, k] * (p[k] - T[d, k]) for k in range(d)) for j in range(d)]
                    b.append(1 - builtins.sum(b))
                    if builtins.all(builtins.bool(x >= -eps) and builtins.bool(x <= 1 + eps) for x in b):
                        out[i] = s
                        break
            return out
    _del[base] = Delaunay
    return Delaunay


MGRID, MA = _MGrid(), _MA()
SHIMS = {}


def _reg(npf, sh):
    SHIMS[id(npf)] = (npf, sh)


for _n, _f in {
    'zeros': sh_zeros, 'ones': sh_ones, 'full': sh_full, 'empty': sh_empty, 'zeros_like': sh_zeros_like,
    'ones_like': sh_ones_like, 'empty_like': sh_empty_like, 'full_like': sh_full_like, 'array': sh_array,
    'asarray': sh_asarray, 'ascontiguousarray': sh_asarray, 'asfortranarray': sh_asarray, 'asanyarray': sh_asarray,
    'linspace': sh_linspace, 'arange': sh_arange, 'where': sh_where, 'clip': sh_clip, 'mean': sh_mean,
    'average': None, 'sum': sh_sum, 'max': sh_max, 'min': sh_min, 'amax': sh_max, 'amin': sh_min, 'any': sh_any,
    'all': sh_all, 'real': sh_real, 'imag': sh_imag, 'angle': sh_angle, 'ravel': sh_ravel, 'einsum': sh_einsum,
    'cross': sh_cross, 'isscalar': sh_isscalar, 'round': sh_round, 'around': sh_round, 'nan_to_num': sh_nan_to_num,
    'isclose': sh_isclose, 'allclose': sh_allclose, 'array_equal': sh_array_equal, 'searchsorted': sh_searchsorted,
    'interp': sh_interp, 'unique': sh_unique, 'argsort': sh_argsort, 'sort': sh_sort, 'argmax': sh_argmax,
    'argmin': sh_argmin, 'count_nonzero': sh_count_nonzero, 'iscomplexobj': sh_iscomplexobj, 'diag': sh_diag,
    'dot': _lin(np.dot), 'inner': _lin(np.inner), 'outer': _lin(np.outer), 'tensordot': _lin(np.tensordot),
    'vdot': None, 'fill_diagonal': sh_fill_diagonal, 'cumsum': _lin(np.cumsum), 'trace': _lin(np.trace),
    'tile': _lin(np.tile), 'repeat': _lin(np.repeat), 'roll': _lin(np.roll), 'flip': _lin(np.flip),
    'flatnonzero': lambda a: np.flatnonzero(boolarr(a)), 'nonzero': lambda a: np.nonzero(boolarr(a)),
}.items():
    if _f is not None:
        _reg(getattr(np, _n), _f)
for _n, _f in {'norm': sh_norm, 'inv': sh_inv, 'det': sh_det, 'solve': sh_solve}.items():
    _reg(getattr(np.linalg, _n), _f)
for _n, _f in {'rfft': sh_rfft, 'irfft': sh_irfft, 'fft': sh_fft, 'ifft': sh_ifft}.items():
    _reg(getattr(np.fft, _n), _f)


class UfuncShim:
    """wraps a numpy ufunc so that plain object arrays and symbolic scalars work"""

    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        ins, outs = a[:self.u.nin], a[self.u.nin:]
        if outs and 'out' not in k:
            k['out'] = outs if len(outs) > 1 else (outs[0],)
        if any(has_sym(x) for x in ins):
            return sym_ufunc(self.u, '__call__', *ins, **k)
        o = k.get('out')
        oo = (o if isinstance(o, tuple) else (o,)) if o is not None else ()
        if any(has_sym(x) for x in oo):
            k.pop('out')
            r = self.u(*ins, **k)
            oo[0][...] = r
            return oo[0]
        return self.u(*ins, **k)

    def __getattr__(self, n):
        f = getattr(self.u, n)
        if n in ('reduce', 'accumulate', 'outer', 'at', 'reduceat'):
            def g(*a, **k):
                if any(has_sym(x) for x in a):
                    return sym_ufunc(self.u, n, *a, **k)
                return f(*a, **k)
            return g
        return f
