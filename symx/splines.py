"""splines through given points, linear in the values; used in place of the FITPACK wrappers of scipy when the
points or the arguments are symbolic"""
import numpy as np
import scipy.interpolate as si

from . import arrays as A
from .arrays import has_sym


def _obj(x):
    return np.array([A._py(v) for v in np.ravel(np.asarray(A._strip(A.sh_asarray(x)), dtype=object)).tolist()], dtype=object)


class Knots(list):
    """symbolic instants of a polynomial through exactly degree + 1 points"""


def _fit(x, y, k):
    if has_sym(x):
        if len(y) != k + 1:
            raise NotImplementedError('spline with symbolic instants and more than degree + 1 points')
        return Knots(_obj(x).tolist()), _obj(y), k
    x = np.asarray(A._strip(A.sh_asarray(x)), dtype=float)
    cs = [si.splrep(x, e, k=k, s=0) for e in np.eye(len(x))]
    m = np.array([c[1] for c in cs]).T
    return cs[0][0], np.dot(m.astype(object), _obj(y)), k


def splrep(x, y, *a, k=3, s=None, **kw):
    if not (has_sym(x) or has_sym(y)):
        return si.splrep(x, y, *a, k=k, s=s, **kw)
    if a or kw.get('w') is not None or s:
        raise NotImplementedError('smoothing spline of symbolic values')
    if len(_obj(x)) != len(_obj(y)):
        raise TypeError('Lengths of the first three arguments (x,y,w) must be equal')
    if len(_obj(y)) <= k:
        raise TypeError('m > k must hold')
    return _fit(x, y, k)


def splprep(x, w=None, u=None, k=3, s=None, **kw):
    if not (has_sym(x) or has_sym(u)):
        return si.splprep(x, w=w, u=u, k=k, s=s, **kw)
    if s != 0 or u is None or w is not None:
        raise NotImplementedError('smoothing spline of symbolic values')
    rows = [_obj(r) for r in x]
    if len(rows[0]) <= k:
        raise TypeError('m > k must hold')
    f = [_fit(u, r, k) for r in rows]
    return (f[0][0], [c[1] for c in f], k), u


def _newton(x, y):
    d = list(y)
    for j in range(1, len(x)):
        for i in range(len(x) - 1, j - 1, -1):
            d[i] = (d[i] - d[i - 1]) / (x[i] - x[i - j])
    return d


def _poly(x, y, t, der):
    """value of the derivative of the polynomial through (x, y)"""
    d = _newton(x, y)
    v = [d[-1]] + [0] * der
    for i in range(len(x) - 2, -1, -1):
        for o in range(der, 0, -1):
            v[o] = v[o] * (t - x[i]) + o * v[o - 1]
        v[0] = v[0] * (t - x[i]) + d[i]
    return v[der]


def splev(x, tck, der=0, ext=0):
    t, c, k = tck[:3]
    if not (has_sym(x) or has_sym(t) or has_sym(c)):
        return si.splev(x, tck, der, ext)
    if ext:
        raise NotImplementedError('ext')
    if isinstance(c, list) and c and isinstance(c[0], (np.ndarray, list)):
        return [splev(x, (t, ci, k), der) for ci in c]
    sh = x.shape if isinstance(x, np.ndarray) else None
    if sh is None and isinstance(x, (list, tuple)):
        sh = (len(x),)
    out = []
    for xi in _obj(x):
        if isinstance(t, Knots):
            out.append(_poly(t, c, xi, der))
            continue
        tt = np.asarray(t, dtype=float)
        n = len(tt) - k - 1
        if not has_sym(xi):
            row = np.array([si.splev(float(xi), (tt, np.eye(n)[i], k), der, ext) for i in range(n)], dtype=float)
        else:
            br = np.unique(tt)
            j = 0
            while j < len(br) - 2 and bool(xi >= br[j + 1]):
                j += 1
            row = []
            for i in range(n):
                p = si.PPoly.from_spline((tt, np.eye(n)[i], k))
                q = int(np.searchsorted(p.x, br[j], side='right') - 1)
                co = p.c[:, q]
                for _ in range(der):
                    co = np.polyder(co) if len(co) > 1 else np.zeros(1)
                v = 0
                for a in co:
                    v = v * (xi - br[j]) + float(a)
                row.append(v)
        s = 0
        for a, b in zip(row, _obj(c)):
            s = s + a * b
        out.append(s)
    r = np.array(out, dtype=object)
    return A.wrap(r.reshape(sh if sh is not None else ()))


for _n in ('splrep', 'splprep', 'splev'):
    A._reg(getattr(si, _n), globals()[_n])
