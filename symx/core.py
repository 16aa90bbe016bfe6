"""Symbolic scalars and the path-exploring engine.

A symbolic number is a (complex) Laurent polynomial over *atoms* with exact
(int/Fraction) or float coefficients.  Atom kinds

  real/int  an input of the scenario, or a value defined by an axiom (floor, abs, ...)
  I         the imaginary unit (I**2 = -1)
  Q(p)      a non-constant denominator p, only with negative exponents  (p*Q(p)**-1 = 1)
  S(p)      sqrt(p), exponent 0 or 1                                      (S**2 = p, S >= 0)
  E(m)      exp(j*m) for a real monomial m, any exponent; conj(E) = E**-1
  X(m)      exp(m)   for a real monomial m, any exponent

All numbers are mathematical reals: float rounding is not modelled (coefficients that
differ by less than COEF_TOL relatively count as equal).  Branches on symbolic conditions and
uses as an index fork the execution; z3 decides which branches are feasible and whether
each assertion can fail on a path.
"""
import cmath
import math
import os
import time
from fractions import Fraction
from numbers import Number

import numpy as np

_z = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3
except ImportError:
    import sys
    sys.path.append(_z)
    import z3

COEF_TOL = 1e-9


FROMTEXT = None    # and back
TOKEN = None       # text of symbolic numbers (see ident.py)


class Unsupported(Exception):
    """the encoder met something it cannot represent"""


class PathEnd(BaseException):
    """steers the exploration: current path is finished (infeasible / bound reached)"""


# --------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'name', 'kind', 'arg', 'zv', 'nonneg', 'isint', 'defs', 'conj_id', 'fn', 'cond')

    def __repr__(self):
        return self.name


ATOMS = []
_memo = {}


def new_atom(name, kind, arg=None, nonneg=False, isint=False, defs=None, fn=None):
    a = Atom()
    a.id = len(ATOMS)
    a.name = name
    a.kind = kind
    a.arg = arg
    a.nonneg = nonneg
    a.isint = isint
    a.defs = defs
    a.fn = fn
    a.zv = None
    a.conj_id = a.id
    ATOMS.append(a)
    return a


I_ATOM = new_atom('I', 'I')
_I = 0


def reset_atoms():
    """forget everything (new scenario)"""
    del ATOMS[1:]
    _memo.clear()
    _zcache.clear()
    _phase_vars.clear()
    _inv_vars.clear()
    NAMED.clear()


# --------------------------------------------------------------------------- coefficients
def coef(c):
    """normalise a real python number"""
    if type(c) is int:
        return c
    if isinstance(c, Fraction):
        return c.numerator if c.denominator == 1 else c
    if isinstance(c, (bool, np.bool_)):
        return int(c)
    if isinstance(c, (int, np.integer)):
        return int(c)
    c = float(c)
    if c != c or c in (math.inf, -math.inf):
        raise Unsupported('nan/inf in symbolic arithmetic')
    if c == int(c) and abs(c) < 1e15:
        return int(c)
    m, e = math.frexp(c)
    n, d = c.as_integer_ratio()
    if d <= 1 << 24 and abs(n) < 1 << 40:
        return Fraction(n, d)
    return c


def expo(e):
    if type(e) is int:
        return e
    if isinstance(e, Fraction):
        return e.numerator if e.denominator == 1 else e
    e = float(e)
    r = round(e)
    if abs(e - r) < 1e-10 * max(1, abs(e)):
        return int(r)
    f = Fraction(e).limit_denominator(1024)
    if abs(float(f) - e) < 1e-11 * max(1, abs(e)):
        return f
    return float('%.10e' % e)


def _addto(d, m, c):
    o = d.get(m)
    if o is None:
        if c:
            d[m] = c
        return
    s = o + c
    if not s:
        del d[m]
        return
    if type(s) is float and abs(s) < 1e-12 * max(abs(o), abs(c)):
        del d[m]
        return
    if type(s) is Fraction and s.denominator == 1:
        s = s.numerator
    d[m] = s


_ONE = ()


def _mono_mul(a, b):
    """product of two monomials, returns (mono, needs_reduction)"""
    if not a:
        return b, False
    if not b:
        return a, False
    d = dict(a)
    red = False
    for k, e in b:
        o = d.get(k)
        if o is None:
            d[k] = e
        else:
            s = o + e
            if type(s) is Fraction and s.denominator == 1:
                s = s.numerator
            elif type(s) is float:
                s = expo(s)
            if s == 0:
                del d[k]
            else:
                d[k] = s
                kd = ATOMS[k].kind
                if kd in 'ISA' or kd == 'Q':
                    red = True
    return tuple(sorted(d.items())), red


def _reduce_mono(m, c, out):
    """normalise I, S, Q, A exponents of one monomial and add it to out"""
    rest = []
    extra = None
    for k, e in m:
        a = ATOMS[k]
        kd = a.kind
        if kd == 'I':
            e %= 4
            if e >= 2:
                c = -c
                e -= 2
            if e:
                rest.append((k, 1))
        elif kd == 'S' or kd == 'A':   # S**2 = arg ; A**2 = arg**2
            if e == 1:
                rest.append((k, 1))
            else:
                r = e % 2
                h = (e - r) // 2
                f = a.arg if kd == 'S' else p_mul(a.arg, a.arg)
                f = p_pow(f, h)
                extra = f if extra is None else p_mul(extra, f)
                if r:
                    rest.append((k, 1))
        elif kd == 'Q':
            if e > 0:
                f = p_pow(a.arg, e)
                extra = f if extra is None else p_mul(extra, f)
            else:
                rest.append((k, e))
        else:
            rest.append((k, e))
    mm = tuple(rest)
    if extra is None:
        _addto(out, mm, c)
    else:
        for m2, c2 in p_mul({mm: c}, extra).items():
            _addto(out, m2, c2)


def _cmul(a, b):
    s = a * b
    if type(s) is Fraction and s.denominator == 1:
        return s.numerator
    return s


def p_mul(p, q):
    if len(p) > len(q):
        p, q = q, p
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, red = _mono_mul(m1, m2)
            c = _cmul(c1, c2)
            if red:
                _reduce_mono(m, c, out)
            else:
                _addto(out, m, c)
    return out


def p_add(p, q, s=1):
    out = dict(p)
    for m, c in q.items():
        _addto(out, m, c if s == 1 else -c)
    return out


def p_scale(p, c):
    if not c:
        return {}
    return {m: _cmul(c, v) for m, v in p.items()}


def p_pow(p, n):
    if n == 0:
        return {_ONE: 1}
    if n < 0:
        return p_pow(p_inv(p), -n)
    r = None
    b = p
    while n:
        if n & 1:
            r = b if r is None else p_mul(r, b)
        n >>= 1
        if n:
            b = p_mul(b, b)
    return r


def p_key(p):
    """canonical hashable key; float coefficients rounded"""
    return tuple(sorted(((m, c if type(c) is not float else float('%.9e' % c)) for m, c in p.items()),
                        key=lambda t: (repr(t[0]), float(t[1]))))


def p_conj(p):
    out = {}
    for m, c in p.items():
        ch = False
        r = []
        for k, e in m:
            a = ATOMS[k]
            if a.kind == 'I':
                c = -c
            elif a.kind == 'E':
                e = -e
                ch = True
            elif a.kind in 'QS' and a.conj_id is not None and a.conj_id != k:
                k = a.conj_id
                ch = True
            r.append((k, e))
        _addto(out, tuple(sorted(r)) if ch else m, c)
    return out


def p_isreal(p):
    for m in p:
        for k, e in m:
            if ATOMS[k].kind in 'IE' or ATOMS[k].conj_id != k:
                d = p_add(p, p_conj(p), -1)
                return _negligible(d, p)
    return True


def _negligible(d, ref):
    if not d:
        return True
    big = max((abs(float(c)) for c in ref.values()), default=0.0)
    return all(type(c) is float and abs(c) <= COEF_TOL * big for c in d.values())


def _content(p):
    """common monomial (min exponents of real/Q/X/E-free atoms) and leading coef"""
    it = iter(p)
    m0 = dict(next(it))
    for m in it:
        dm = dict(m)
        for k in list(m0):
            if k in dm:
                if dm[k] < m0[k]:
                    m0[k] = dm[k]
            elif m0[k] > 0:
                del m0[k]
        # atoms with negative exponent in m but absent in m0
        for k, e in m:
            if e < 0 and k not in m0:
                m0[k] = e
    # exponents of atoms absent from some monomial are 0 there
    for m in p:
        dm = dict(m)
        for k in list(m0):
            if m0[k] > 0 and k not in dm:
                del m0[k]
    return {k: e for k, e in m0.items() if ATOMS[k].kind not in ('I', 'S', 'A')}


def _div_mono(p, m0):
    inv = tuple(sorted((k, -e) for k, e in m0.items()))
    out = {}
    for m, c in p.items():
        mm, red = _mono_mul(m, inv)
        if red:
            _reduce_mono(mm, c, out)
        else:
            _addto(out, mm, c)
    return out


def _split(p):
    """p = c * mono * prim, prim canonical (leading coefficient 1)"""
    m0 = _content(p)
    m0 = {k: e for k, e in m0.items() if not (ATOMS[k].kind == 'Q' and e > 0)}
    if any(ATOMS[k].kind == 'E' for k in m0) and p_isreal(p):
        m0 = {k: e for k, e in m0.items() if ATOMS[k].kind != 'E'}     # keep the rest real
    prim = _div_mono(p, m0) if m0 else dict(p)
    lead = min(prim, key=repr)
    c = prim[lead]
    if c != 1:
        ic = Fraction(1) / c if not isinstance(c, float) else 1.0 / c
        prim = {m: _cmul(v, ic) if m != lead else 1 for m, v in prim.items()}
        prim = {m: (coef(v) if isinstance(v, (Fraction, int)) else v) for m, v in prim.items()}
    return c, m0, prim


def p_inv(p):
    if not p:
        raise ZeroDivisionError('symbolic division by zero')
    if len(p) == 1:
        (m, c), = p.items()
        out = {}
        ic = coef(Fraction(1) / c) if not isinstance(c, float) else 1.0 / c
        _reduce_mono(tuple((k, -e) for k, e in m), ic, out)
        # negative S exponents handled in reduce
        return out
    c, m0, prim = _split(p)
    base = {tuple(sorted((k, -e) for k, e in m0.items())): coef(Fraction(1) / c) if not isinstance(c, float) else 1.0 / c}
    tmp = {}
    for m, cc in base.items():
        _reduce_mono(m, cc, tmp)
    if len(prim) == 1:
        return p_mul(tmp, p_inv(prim))
    q = q_atom(prim)
    return p_mul(tmp, {((q.id, -1),): 1})


def q_atom(prim):
    k = ('Q', p_key(prim))
    a = _memo.get(k)
    if a is None:
        a = new_atom('Q%d' % len(ATOMS), 'Q', arg=prim)
        _memo[k] = a
        if not p_isreal(prim):
            cj = p_conj(prim)
            c, m0, pr = _split(cj)
            if c == 1 and not m0:
                a.conj_id = None
                b = q_atom(pr) if ('Q', p_key(pr)) not in _memo else _memo[('Q', p_key(pr))]
                a.conj_id = b.id
                b.conj_id = a.id
            else:
                raise Unsupported('conjugate of complex denominator')
    return a


def p_sqrt(p):
    if not p:
        return {}
    c, m0, prim = _split(p)
    outm = []
    left = {}
    absq = {_ONE: 1}
    for k, e in m0.items():
        a = ATOMS[k]
        if a.nonneg or a.kind == 'X':
            if a.kind == 'X':
                outm.append((k, expo(Fraction(e) / 2) if not isinstance(e, float) else expo(e / 2)))
                continue
            h, r = divmod(e, 2)
            if h:
                outm.append((k, h))
            if r:
                left[k] = r
        elif a.kind == 'Q' and _nonneg_poly(a.arg):
            h, r = divmod(e, 2)
            if h:
                outm.append((k, h))
            if r:
                left[k] = r
        elif a.kind == 'Q' and e < -1 and p_isreal(a.arg):
            h, r = divmod(e, 2)
            absq = p_mul(absq, p_pow(abs_poly(a.arg), h) if h > 0 else p_inv(p_pow(abs_poly(a.arg), -h)))
            if r:
                left[k] = r
        else:
            left[k] = e
    cf = float(c)
    if cf < 0:
        rem = p_scale(_mul_mono(prim, left), -1)
    else:
        rem = _mul_mono(prim, left)
    ac = abs(cf)
    if isinstance(c, (int, Fraction)):
        f = Fraction(abs(c))
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        sc = coef(Fraction(n, d)) if n * n == f.numerator and d * d == f.denominator else math.sqrt(ac)
    else:
        sc = math.sqrt(ac)
    res = {tuple(sorted(outm)): sc}
    tmp = {}
    for m, cc in res.items():
        _reduce_mono(m, cc, tmp)
    if absq != {_ONE: 1}:
        tmp = p_mul(tmp, absq)
    if rem == {_ONE: 1}:
        return tmp
    k = ('S', p_key(rem))
    # a perfect square of a single nonneg/other monomial: |x|
    if len(rem) == 1:
        (m, cc), = rem.items()
        if cc == 1 and len(m) == 1 and m[0][1] == 2:
            a = abs_poly({((m[0][0], 1),): 1})
            return p_mul(tmp, a)
    a = _memo.get(k)
    if a is None:
        a = new_atom('S%d' % len(ATOMS), 'S', arg=rem, nonneg=True)
        _memo[k] = a
    return p_mul(tmp, {((a.id, 1),): 1})


def _mul_mono(p, m):
    if not m:
        return p
    return p_mul(p, {tuple(sorted(m.items())): 1})


def _nonneg_poly(p):
    """syntactic sufficient condition for p >= 0"""
    for m, c in p.items():
        if c < 0:
            return False
        for k, e in m:
            a = ATOMS[k]
            if a.kind in 'IE':
                return False
            if a.nonneg or a.kind == 'X':
                continue
            if isinstance(e, int) and e % 2 == 0:
                continue
            if a.kind == 'Q' and _nonneg_poly(a.arg):
                continue
            return False
    return True


def abs_poly(p):
    if _nonneg_poly(p):
        return p
    n = p_scale(p, -1)
    if _nonneg_poly(n):
        return n
    c, m0, prim = _split(p)
    keep = {}
    out = []
    for k, e in m0.items():
        a = ATOMS[k]
        if a.nonneg or a.kind == 'X' or (isinstance(e, int) and e % 2 == 0) or (a.kind == 'Q' and _nonneg_poly(a.arg)):
            out.append((k, e))
        else:
            keep[k] = e
    rem = _mul_mono(prim, keep)
    k = ('A', p_key(rem))
    a = _memo.get(k)
    if a is None:
        a = new_atom('A%d' % len(ATOMS), 'A', arg=rem, nonneg=True)
        _memo[k] = a
    tmp = {}
    _reduce_mono(tuple(sorted(out)), abs(c), tmp)
    return p_mul(tmp, {((a.id, 1),): 1})


def fn_atom(name, args, nonneg=False, isint=False, defs=None, numeric=None):
    """atom for a function application, equal for equal arguments"""
    polys = [as_poly(a) for a in args]
    k = ('F', name) + tuple(p_key(p) for p in polys)
    a = _memo.get(k)
    if a is None:
        a = new_atom('%s%d' % (name, len(ATOMS)), 'real', arg=(name, polys), nonneg=nonneg, isint=isint)
        a.defs = defs
        a.fn = numeric
        _memo[k] = a
    return a


def as_poly(x):
    if isinstance(x, Sym):
        return x.p
    if isinstance(x, SymBool):
        return ite_poly(x)
    if isinstance(x, (complex, np.complexfloating)):
        d = {}
        if x.real:
            d[_ONE] = coef(x.real)
        if x.imag:
            d[((_I, 1),)] = coef(x.imag)
        return d
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return as_poly(x.item())
    c = coef(x)
    return {_ONE: c} if c else {}


def ite_poly(b):
    a = new_atom('b%d' % len(ATOMS), 'real', isint=True, nonneg=True)
    v = b.e
    a.defs = lambda tr, self: [tr.var(self) == z3.If(v, 1, 0)]
    return {((a.id, 1),): 1}


def mk(p):
    """poly -> Sym or plain number"""
    if not p:
        return 0
    n = len(p)
    if n == 1 and _ONE in p:
        c = p[_ONE]
        return c if not isinstance(c, Fraction) else float(c) if _dyadic(c) else Sym(p)
    if n <= 2 and all(m == _ONE or m == ((_I, 1),) for m in p):
        return complex(float(p.get(_ONE, 0)), float(p.get(((_I, 1),), 0)))
    return Sym(p)


def const_float(v):
    """the value of an expression without symbols"""
    if set(v.p) - {_ONE}:
        raise Unsupported('round to digits')
    return float(v.p.get(_ONE, 0))


def _dyadic(c):
    d = c.denominator
    return d & (d - 1) == 0


# --------------------------------------------------------------------------- Sym
def _isnum(x):
    return isinstance(x, (Sym, Number, np.number, np.bool_, SymBool)) or (isinstance(x, np.ndarray) and x.ndim == 0)


def _lst(o):
    """lists in arithmetic with numpy scalars become arrays"""
    from .arrays import sh_array
    return sh_array(o)


class Sym:
    __slots__ = ('p',)
    __array_priority__ = 1000

    def __init__(self, p):
        self.p = p

    # ---- arithmetic
    def __add__(self, o):
        if not _isnum(o):
            return _lst(o) + self if isinstance(o, (list, tuple)) else NotImplemented
        return mk(p_add(self.p, as_poly(o)))

    __radd__ = __add__

    def __sub__(self, o):
        if not _isnum(o):
            return self - _lst(o) if isinstance(o, (list, tuple)) else NotImplemented
        return mk(p_add(self.p, as_poly(o), -1))

    def __rsub__(self, o):
        if not _isnum(o):
            return _lst(o) - self if isinstance(o, (list, tuple)) else NotImplemented
        return mk(p_add(as_poly(o), self.p, -1))

    def __mul__(self, o):
        if not _isnum(o):
            return _lst(o) * self if isinstance(o, (list, tuple)) else NotImplemented
        return mk(p_mul(self.p, as_poly(o)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        q = as_poly(o)
        if not q:
            raise ZeroDivisionError('symbolic / 0')
        return mk(p_mul(self.p, p_inv(q)))

    def __rtruediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return mk(p_mul(as_poly(o), p_inv(self.p)))

    def __neg__(self):
        return mk(p_scale(self.p, -1))

    def __pos__(self):
        return self

    def __pow__(self, o, mod=None):
        if isinstance(o, Sym):
            return exp(o * log(self))
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        e = expo(o)
        if isinstance(e, int):
            return mk(p_pow(self.p, e))
        if isinstance(e, Fraction) and e.denominator == 2:
            return mk(p_pow(p_sqrt(self.p), e.numerator))
        return exp(o * log(self))

    def __rpow__(self, o):
        return exp(self * math.log(o))

    def __abs__(self):
        if p_isreal(self.p):
            return mk(abs_poly(self.p))
        return mk(p_sqrt(p_mul(self.p, p_conj(self.p))))

    def is_int(self):
        return p_isint(self.p)

    def __floordiv__(self, o):
        return floor_(self / o if not _intconst(o) else mk(p_mul(self.p, {_ONE: Fraction(1, int(o))})))

    def __rfloordiv__(self, o):
        return floor_(o / self)

    def __mod__(self, o):
        return self - o * (self // o)

    def __rmod__(self, o):
        return o - self * (o // self)

    def __divmod__(self, o):
        q = self // o
        return q, self - o * q

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return -floor_(-self)

    def __trunc__(self):
        return int(self)

    def __round__(self, n=None):
        if n:
            raise Unsupported('round to digits')
        return rint_(self)

    # ---- complex
    def conjugate(self):
        return mk(p_conj(self.p))

    conj = conjugate

    @property
    def real(self):
        c = p_conj(self.p)
        return mk(p_scale(p_add(self.p, c), Fraction(1, 2)))

    @property
    def imag(self):
        d = p_add(self.p, p_conj(self.p), -1)
        return mk(p_mul(d, {((_I, 1),): Fraction(-1, 2)}))

    @property
    def T(self):
        return self

    def astype(self, *a, **k):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    shape = ()
    ndim = 0
    size = 1

    def sum(self, *a, **k):
        return self

    # numpy object ufuncs look these up
    def sqrt(self):
        return mk(p_sqrt(self.p))

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def log10(self):
        return log10(self)

    def cos(self):
        return cos(self)

    def sin(self):
        return sin(self)

    def tan(self):
        return sin(self) / cos(self)

    def arctan2(self, o):
        return arctan2(self, o)

    def arcsin(self):
        return arcsin(self)

    def arccos(self):
        return arccos(self)

    def arctan(self):
        return arctan(self)

    def floor(self):
        return floor_(self)

    def ceil(self):
        return -floor_(-self)

    def rint(self):
        return rint_(self)

    def square(self):
        return self * self

    def isfinite(self):
        return True

    def isnan(self):
        return False

    # ---- conversion
    def __index__(self):
        if not p_isint(self.p):
            raise TypeError('non-integer symbolic value used as index')
        return CUR.concretise(self)

    def __int__(self):
        if p_isint(self.p):
            return CUR.concretise(self)
        return CUR.concretise(trunc_(self))

    def __float__(self):
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(p_key(self.p))

    def __str__(self):
        if TOKEN is not None:
            return TOKEN(self)
        return p_str(self.p)

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    # ---- comparison
    def _cmp(self, o, op):
        if not _isnum(o):
            return NotImplemented
        if isinstance(o, (float, np.floating)) and (math.isinf(o) or math.isnan(o)):
            if math.isnan(o):
                return op == 'ne'
            return {'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0, 'eq': False, 'ne': True}[op]
        d = p_add(self.p, as_poly(o), -1)
        return compare(d, op)

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arrays
        return arrays.sym_ufunc(ufunc, method, *inputs, **kw)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _intconst(o):
    return isinstance(o, (int, np.integer)) and o != 0


def p_isint(p):
    for m, c in p.items():
        if type(c) is not int:
            return False
        for k, e in m:
            if not ATOMS[k].isint or not isinstance(e, int) or e < 0:
                return False
    return True


def p_str(p):
    if not p:
        return '0'
    t = []
    for m, c in sorted(p.items(), key=repr):
        s = '*'.join('%s%s' % (ATOMS[k].name, '' if e == 1 else '^%s' % e) for k, e in m)
        t.append('%s*%s' % (c, s) if s else str(c))
    return '(' + ' + '.join(t) + ')'


def _lead(p, keys):
    return max(p, key=lambda m: tuple(dict(m).get(k, 0) for k in keys))


def p_divexact(n, q):
    """n / q when the division leaves no remainder, else None (q without I, S, A, Q atoms)"""
    for m in q:
        for k, _ in m:
            if ATOMS[k].kind in ('I', 'S', 'A', 'Q'):
                return None
    keys = sorted({k for m in n for k, _ in m} | {k for m in q for k, _ in m})
    lq = _lead(q, keys)
    inv = tuple((k, -e) for k, e in lq)
    cq = q[lq]
    out = {}
    big = max(abs(float(c)) for c in n.values())
    r = dict(n)
    for _ in range(2 * len(n) + 4):
        if not r:
            return out
        m = _lead(r, keys)
        c = r[m]
        if type(c) is float and abs(c) <= COEF_TOL * big:
            del r[m]
            continue
        t, _red = _mono_mul(m, inv)
        ct = c / cq if isinstance(c, float) or isinstance(cq, float) else coef(Fraction(c) / cq)
        out[t] = ct
        for m2, c2 in q.items():
            mm, _red = _mono_mul(t, m2)
            if mm == m:
                r.pop(m, None)
                continue
            _addto(r, mm, _cmul(-ct, c2))
        r.pop(m, None)
    return None if r else out


def p_cancel(p):
    """cancel common factors with polynomial denominators"""
    for _ in range(6):
        qs = {}
        for m in p:
            for k, e in m:
                if ATOMS[k].kind == 'Q':
                    qs[k] = min(e, qs.get(k, 0))
        done = True
        for k, e in qs.items():
            if len(p) < len(ATOMS[k].arg) or len(p) > 600:
                continue
            up = {}
            for m, c in p.items():
                _reduce_mono(_mono_mul(m, ((k, -e),))[0], c, up)
            if not up:
                return up
            d = p_divexact(up, ATOMS[k].arg)
            if d is not None:
                f = ((k, e + 1),) if e + 1 else _ONE
                p = {}
                for m, c in d.items():
                    _reduce_mono(_mono_mul(m, f)[0], c, p)
                done = False
                break
        if done:
            break
    return p


def p_snap(p):
    """float coefficients rounded to 11 digits, so that equal expressions computed in a
    different order get equal coefficients; rounding dust is dropped"""
    if not any(type(c) is float for c in p.values()):
        return p
    big = max(abs(float(c)) for c in p.values())
    out = {}
    for m, c in p.items():
        if type(c) is float:
            if abs(c) <= COEF_TOL * big:
                continue
            f = Fraction(c).limit_denominator(5000)
            c = coef(f) if f and abs(float(f) - c) <= 1e-13 * abs(c) else float('%.11e' % c)
        out[m] = c
    return out


def compare(d, op):
    """Boolean for poly d <op> 0"""
    d = p_cancel(d)
    if any(type(c) is float for c in d.values()):
        big = max(abs(float(c)) for c in d.values())
        d = p_snap({m: float(c) / big for m, c in d.items()})
    elif len(d) > 1:
        big = max(abs(c) for c in d.values())
        d = d if big == 1 else {m: coef(Fraction(c) / big) for m, c in d.items()}
    d = {m: c for m, c in d.items()}
    if not d:
        return op in ('le', 'ge', 'eq')
    if len(d) == 1 and _ONE in d:
        c = d[_ONE]
        return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[op]
    if op in ('eq', 'ne') and not p_isreal(d):
        re = as_poly(mk(p_scale(p_add(d, p_conj(d)), Fraction(1, 2))))
        im = as_poly(mk(d).imag) if isinstance(mk(d), Sym) else {}
        a = compare(re, 'eq')
        b = compare(im, 'eq')
        r = and_(a, b)
        return r if op == 'eq' else not_(r)
    if op in ('eq', 'ne'):
        d = clear_denoms(d)
        if not d:
            return op == 'eq'
        if len(d) == 1 and _ONE in d:
            return op == 'ne'
    if op in ('gt', 'ge'):
        d = p_scale(d, -1)
        op = {'gt': 'lt', 'ge': 'le'}[op]
    t = ('B', op, p_key(d))
    r = _memo.get(t)
    if r is None:
        r = _memo[t] = SymBool(None, (d, op))
    return r


def clear_denoms(d):
    """multiply by positive powers so that no atom has a negative exponent (all
    denominators are nonzero by assumption); result is zero iff d is."""
    for _ in range(20):
        mins = {}
        for m in d:
            for k, e in m:
                if e < 0 and ATOMS[k].kind in ('real', 'Q', 'int', 'X'):
                    mins[k] = min(e, mins.get(k, 0))
        if not mins:
            break
        # one Q at a time is not needed: multiply all
        f = {tuple(sorted((k, -e) for k, e in mins.items())): 1}
        # Q with positive exponents expands through reduction, do it on each monomial so that
        # Q**-1 cancels first
        d2 = {}
        for m, c in p_mul(d, f).items():
            _reduce_mono(m, c, d2)
        d = d2
    return d


class SymBool:
    """a symbolic truth value"""
    __slots__ = ('_e', 'd')

    def __init__(self, e, d=None):
        self._e = e
        self.d = d

    @property
    def e(self):
        if self._e is None:
            d, op = self.d
            v = TR.poly(d)
            z = {'lt': v < 0, 'le': v <= 0, 'eq': v == 0, 'ne': v != 0}[op]
            self._e = z
        return self._e

    def __bool__(self):
        return CUR.branch(self)

    def __and__(self, o):
        return and_(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return or_(self, o)

    __ror__ = __or__

    def __invert__(self):
        return not_(self)

    def __xor__(self, o):
        return bool(self) != bool(o)

    def logical_not(self):
        return not_(self)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def _num(self):
        return Sym(ite_poly(self))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __repr__(self):
        return 'SymBool(%s)' % (self.e,)


def zb(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def and_(*xs):
    r = []
    for x in xs:
        if isinstance(x, SymBool):
            r.append(x.e)
        elif not x:
            return False
    if not r:
        return True
    return SymBool(z3.And(*r) if len(r) > 1 else r[0])


def or_(*xs):
    r = []
    for x in xs:
        if isinstance(x, SymBool):
            r.append(x.e)
        elif x:
            return True
    if not r:
        return False
    return SymBool(z3.Or(*r) if len(r) > 1 else r[0])


def not_(x):
    if isinstance(x, SymBool):
        return SymBool(z3.Not(x.e))
    return not x


# --------------------------------------------------------------------------- functions
def _is_sym(x):
    return isinstance(x, Sym)


def exp(x):
    if not _is_sym(x):
        return cmath.exp(x) if isinstance(x, (complex, np.complexfloating)) else math.exp(x)
    re, im = x.real, x.imag
    out = {_ONE: 1}
    if _is_sym(re) or re:
        for m, c in as_poly(re).items():
            if m == _ONE:
                out = p_scale(out, math.exp(c))
                continue
            k = ('X', m)
            a = _memo.get(k)
            if a is None:
                a = _memo[k] = new_atom('exp%d' % len(ATOMS), 'X', arg={m: 1}, nonneg=True)
            out = p_mul(out, {((a.id, expo(c)),): 1})
    if _is_sym(im) or im:
        for m, c in as_poly(im).items():
            if m == _ONE:
                z = cmath.exp(1j * float(c))
                z = complex(0 if abs(z.real) < 1e-15 else z.real, 0 if abs(z.imag) < 1e-15 else z.imag)
                out = p_mul(out, as_poly(z))
                continue
            k = ('E', m)
            a = _memo.get(k)
            if a is None:
                a = _memo[k] = new_atom('e%d' % len(ATOMS), 'E', arg={m: 1})
            out = p_mul(out, {((a.id, expo(c)),): 1})
    return mk(out)


def cos(x):
    if not _is_sym(x):
        return math.cos(x)
    return exp(1j * x).real


def sin(x):
    if not _is_sym(x):
        return math.sin(x)
    return exp(1j * x).imag


def sqrt(x):
    if _is_sym(x):
        return x.sqrt()
    if isinstance(x, (complex, np.complexfloating)):
        return cmath.sqrt(x)
    return math.sqrt(x)


def log(x):
    if not _is_sym(x):
        return math.log(x) if x > 0 else -math.inf
    # log(exp(m)) -> m for a single X monomial
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if all(ATOMS[k].kind == 'X' for k, e in m) and c > 0:
            r = math.log(c) if c != 1 else 0
            for k, e in m:
                r = r + e * mk(ATOMS[k].arg)
            return r
    a = fn_atom('log', [x], numeric=math.log)
    return Sym({((a.id, 1),): 1})


def log10(x):
    if not _is_sym(x):
        return math.log10(x) if x > 0 else -math.inf
    return log(x) / math.log(10)


def _fn(name, numeric, rng=None):
    def f(*xs):
        if not any(_is_sym(x) for x in xs):
            return numeric(*[float(x) for x in xs])

        def defs(tr, self):
            v = tr.var(self)
            if rng is None:
                return []
            lo, hi = rng
            return [v >= tr.num(lo), v <= tr.num(hi)]
        a = fn_atom(name, xs, defs=defs, numeric=numeric)
        return Sym({((a.id, 1),): 1})
    return f


arctan2 = _fn('arctan2', math.atan2, (-math.pi - 1e-6, math.pi + 1e-6))
arctan = _fn('arctan', math.atan, (-math.pi / 2 - 1e-6, math.pi / 2 + 1e-6))
arcsin = _fn('arcsin', math.asin, (-math.pi / 2 - 1e-6, math.pi / 2 + 1e-6))
arccos = _fn('arccos', math.acos, (-1e-6, math.pi + 1e-6))


def floor_(x):
    if not _is_sym(x):
        return math.floor(x)
    if p_isint(x.p):
        return x
    # pull out the integer part of the polynomial
    ip, fp = {}, {}
    for m, c in x.p.items():
        if m != _ONE and p_isint({m: 1}) and type(c) is int:
            ip[m] = c
        elif m == _ONE:
            fl = math.floor(c)
            if fl:
                ip[m] = fl
            if c - fl:
                fp[m] = coef(c - fl)
        else:
            fp[m] = c
    if not fp:
        return mk(ip)

    def defs(tr, self):
        v = tr.var(self)
        p = tr.poly(self.arg[1][0])
        return [z3.ToReal(v) <= p, p < z3.ToReal(v) + 1]
    a = fn_atom('floor', [Sym(fp)], isint=True, defs=defs, numeric=math.floor)
    return mk(p_add(ip, {((a.id, 1),): 1}))


def trunc_(x):
    if not _is_sym(x):
        return int(x)
    if p_isint(x.p):
        return x

    def defs(tr, self):
        v = z3.ToReal(tr.var(self))
        p = tr.poly(self.arg[1][0])
        return [z3.If(p >= 0, z3.And(v <= p, p < v + 1), z3.And(v >= p, p > v - 1))]
    a = fn_atom('trunc', [x], isint=True, defs=defs, numeric=int)
    return Sym({((a.id, 1),): 1})


def rint_(x):
    if not _is_sym(x):
        return round(x)
    if p_isint(x.p):
        return x

    def defs(tr, self):
        i = tr.var(self)
        v = z3.ToReal(i)
        p = tr.poly(self.arg[1][0])
        h = z3.RealVal('1/2')
        return [p - v <= h, v - p <= h, z3.Implies(z3.Or(p - v == h, v - p == h), i % 2 == 0)]
    a = fn_atom('rint', [x], isint=True, defs=defs, numeric=round)
    return Sym({((a.id, 1),): 1})


def ite(c, a, b):
    """value-level conditional (no fork)"""
    if not isinstance(c, SymBool):
        return a if c else b
    pa, pb = p_snap(p_cancel(as_poly(a))), p_snap(p_cancel(as_poly(b)))
    if not p_add(pa, pb, -1):
        return a
    if not (p_isreal(pa) and p_isreal(pb)):
        return a if bool(c) else b
    isint = p_isint(pa) and p_isint(pb)
    at = new_atom('ite%d' % len(ATOMS), 'real', isint=isint, nonneg=_nonneg_poly(pa) and _nonneg_poly(pb))
    cond = c.e
    at.defs = lambda tr, self: [tr.var(self) == z3.If(cond, tr.poly(pa, isint), tr.poly(pb, isint))]
    at.arg = ('ite', [pa, pb])
    at.cond = c
    return Sym({((at.id, 1),): 1})


def p_subst(p, k, v):
    """replace the atom k (with positive exponents) by the polynomial v"""
    out = {}
    for m, c in p.items():
        e = dict(m).get(k, 0)
        if not e:
            _addto(out, m, c)
            continue
        r = tuple(x for x in m if x[0] != k)
        for m2, c2 in p_mul({r: c}, p_pow(v, e)).items():
            _addto(out, m2, c2)
    return out


def ite_atoms(p):
    return sorted({k for m in p for k, e in m if type(e) is int and e > 0 and isinstance(ATOMS[k].arg, tuple) and ATOMS[k].arg[0] == 'ite'
                   and getattr(ATOMS[k], 'cond', None) is not None})


def maximum(a, b):
    c = a < b if isinstance(a, Sym) or not isinstance(b, Sym) else b > a
    return ite(c, b, a)


def minimum(a, b):
    c = b < a if isinstance(b, Sym) or not isinstance(a, Sym) else a > b
    return ite(c, b, a)


# --------------------------------------------------------------------------- z3 translation
_zcache = {}
_phase_vars = {}
_inv_vars = {}


class Translator:
    def num(self, c):
        if isinstance(c, float):
            n, d = c.as_integer_ratio()
            return z3.Q(n, d) if d != 1 else z3.RealVal(n)
        if isinstance(c, Fraction):
            return z3.Q(c.numerator, c.denominator)
        return z3.RealVal(int(c))

    def var(self, a):
        if a.zv is None:
            a.zv = z3.Int(a.name) if a.isint else z3.Real(a.name)
            NAMED[a.name] = lambda: self._ax(a)
        return a.zv

    def _ax(self, a):
        v = self.rvar(a)
        if a.kind == 'S':
            return [v >= 0, v * v == self.poly(a.arg)]
        if a.kind == 'A':
            q = self.poly(a.arg)
            return [v == z3.If(q >= 0, q, -q)]
        out = [v >= 0] if a.nonneg else []
        if a.defs is not None:
            out += a.defs(self, a)
        return out

    def rvar(self, a):
        v = self.var(a)
        return z3.ToReal(v) if a.isint else v

    def inv(self, a):
        v = _inv_vars.get(a.id)
        if v is None:
            v = _inv_vars[a.id] = z3.Real('inv_' + a.name)

            def ax():
                t = self.poly(a.arg) if a.kind == 'Q' else self.rvar(a)
                out = [v * t == 1]
                if a.nonneg or (a.kind == 'Q' and _nonneg_poly(a.arg)):
                    out.append(v > 0)
                return out
            NAMED['inv_' + a.name] = ax
        return v

    def phase(self, ph):
        """ph: sorted tuple of (E id, exp) with positive first exponent"""
        r = _phase_vars.get(ph)
        if r is None:
            n = len(_phase_vars)
            r = _phase_vars[ph] = (z3.Real('c_%d' % n), z3.Real('s_%d' % n))
            NAMED['c_%d' % n] = NAMED['s_%d' % n] = lambda: [r[0] * r[0] + r[1] * r[1] == 1]
        return r

    def poly(self, p, want_int=False):
        if want_int and p_isint(p):
            return self.ipoly(p)
        k = ('z', p_key(p))
        r = _zcache.get(k)
        if r is not None:
            return r
        # integer valued polynomials are translated over Int and lifted once
        if p and p_isint(p) and any(m for m in p):
            r = z3.ToReal(self.ipoly(p))
            _zcache[k] = r
            return r
        terms = []
        for m, c in sorted(p.items(), key=repr):
            fs = []
            ph = []
            im = False
            for a_id, e in m:
                a = ATOMS[a_id]
                if a.kind == 'I':
                    im = True
                elif a.kind == 'E':
                    ph.append((a_id, e))
                elif a.kind == 'X' or not isinstance(e, int):
                    fs.append(self.xpow(a, e))
                elif e > 0:
                    fs += [self.rvar(a)] * e
                else:
                    fs += [self.inv(a)] * (-e)
            if ph:
                sg = 1
                if ph[0][1] < 0:
                    ph = [(i, -e) for i, e in ph]
                    sg = -1
                cv, sv = self.phase(tuple(ph))
                if im:
                    fs.append(sv)
                    c = -c * sg
                else:
                    fs.append(cv)
            elif im:
                continue      # imaginary part of a real quantity: cancels
            t = self.num(c)
            if fs:
                pr = fs[0]
                for f in fs[1:]:
                    pr = pr * f
                t = pr if c == 1 else t * pr
            terms.append(t)
        r = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
        _zcache[k] = r
        return r

    def ipoly(self, p):
        terms = []
        for m, c in sorted(p.items(), key=repr):
            t = None
            for a_id, e in m:
                for _ in range(e):
                    v = self.var(ATOMS[a_id])
                    t = v if t is None else t * v
            terms.append(z3.IntVal(c) if t is None else (t if c == 1 else c * t))
        return z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.IntVal(0))

    def xpow(self, a, e):
        k = ('x', a.id, e)
        v = _zcache.get(k)
        if v is None:
            v = _zcache[k] = z3.Real('%s_p%s' % (a.name, str(e).replace('/', '_').replace('-', 'm').replace('.', 'd')))
            NAMED[v.decl().name()] = lambda: [v > 0]
        return v

NAMED = {}     # z3 variable name -> function returning its defining axioms
TR = Translator()


def const_names(e, seen):
    """names of the uninterpreted constants of a z3 expression"""
    acc = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
        else:
            st.extend(x.children())
    return acc


CUR = None   # current execution context


def set_cur(c):
    global CUR
    CUR = c


def implied(b):
    """the assumptions and the path decide that b is true (no fork)"""
    if not isinstance(b, SymBool):
        return bool(b)
    return CUR is not None and CUR.check(z3.Not(b.e)) == z3.unsat


def diff(x, v):
    """partial derivative of x with respect to the plain symbol v"""
    if not isinstance(x, Sym):
        return 0
    k = _symbol(v)
    done = {}

    def atom(i):
        if i == k:
            return {_ONE: 1}
        if i in done:
            return done[i]
        a = ATOMS[i]
        if a.kind in ('X', 'E'):        # logarithmic derivative of exp(arg), exp(j arg)
            r = poly(a.arg)
            if a.kind == 'E' and r:
                r = p_mul(r, {((_I, 1),): 1})
        elif a.kind == 'S':
            d = poly(a.arg)
            r = p_mul(p_scale(d, Fraction(1, 2)), p_inv({((i, 1),): 1})) if d else {}
        elif a.kind == 'Q':
            r = poly(a.arg)
        elif a.kind == 'A':             # d|p| = p p' / |p|
            d = poly(a.arg)
            r = p_mul(p_mul(d, a.arg), p_inv({((i, 1),): 1})) if d else {}
        elif a.kind == 'I' or a.arg is None:
            r = {}
        elif isinstance(a.arg, tuple) and not any(poly(p) for p in a.arg[1]):
            r = {}
        else:
            raise Unsupported('derivative of %s' % (a.name,))
        done[i] = r
        return r

    def poly(p):
        out = {}
        for m, c in p.items():
            for i, e in m:
                d = atom(i)
                if not d:
                    continue
                if ATOMS[i].kind in ('X', 'E'):
                    for m2, c2 in p_mul({m: c}, p_scale(d, coef(e))).items():
                        _addto(out, m2, c2)
                    continue
                rest = tuple((j, f) for j, f in m if j != i)
                f = p_mul({rest: c}, _power(i, e))
                for m2, c2 in p_mul(f, d).items():
                    _addto(out, m2, c2)
        return out

    def _power(i, e):
        """e * atom**(e - 1)"""
        if e == 1:
            return {_ONE: 1}
        out = {}
        _reduce_mono(((i, expo(e - 1)),), coef(e), out)
        return out
    return mk(poly(x.p))


def _symbol(v):
    (m, c), = v.p.items()
    (k, e), = m
    if c != 1 or e != 1:
        raise Unsupported('not a plain symbol')
    return k
