"""Identities (hash values) as structures: two identities are equal for exactly the parameter values for
which the hashed data are equal.  Text made of symbolic numbers carries tokens instead of digits."""
import hashlib
import re

from . import core, patch

_real_md5 = hashlib.md5
_syms, _symkeys = {}, {}
_digs, _digkeys = {}, {}
TOK = re.compile('⟦([SD])(\\d{6})⟧')


def token(x):
    k = core.p_key(x.p)
    n = _symkeys.get(k)
    if n is None:
        n = _symkeys[k] = len(_symkeys)
        _syms[n] = x
    return '⟦S%06d⟧' % n


class Md5:
    def __init__(self, data=b'', **kw):
        self.data = bytes(data)

    def update(self, data):
        self.data += bytes(data)

    def hexdigest(self):
        if b'\xe2\x9f\xa6' not in self.data:
            return _real_md5(self.data).hexdigest()
        n = _digkeys.get(self.data)
        if n is None:
            n = _digkeys[self.data] = len(_digkeys)
            _digs[n] = self.data.decode('utf-8', 'surrogateescape')
        return '⟦D%06d⟧' % n

    def digest(self):
        return self.hexdigest().encode()


patch.EXTRA.append((hashlib.md5, Md5))


def from_text(t):
    """the number a token stands for (also with a sign in front)"""
    m = re.fullmatch('\\s*(-?)⟦S(\\d{6})⟧\\s*', t)
    if m is None:
        return None
    x = _syms[int(m.group(2))]
    return -x if m.group(1) else x


class tokens:
    """while active, symbolic numbers turn into tokens when converted to text"""

    def __init__(self, c):
        self.on = c.symbolic

    def __enter__(self):
        core.TOKEN = token if self.on else None
        core.FROMTEXT = from_text if self.on else None

    def __exit__(self, *a):
        core.TOKEN = core.FROMTEXT = None


def same(a, b):
    """truth value (possibly symbolic) of equality of two identities or texts with tokens"""
    if a == b:
        return True
    pa, pb = TOK.split(str(a)), TOK.split(str(b))
    if len(pa) != len(pb):
        return False
    out = []
    for i in range(0, len(pa), 3):
        if pa[i] != pb[i]:
            return False
        if i + 1 == len(pa):
            break
        if pa[i + 1] != pb[i + 1]:
            return False
        x, y = int(pa[i + 2]), int(pb[i + 2])
        if x == y:
            continue
        if pa[i + 1] == 'D':
            r = same(_digs[x], _digs[y])
        else:
            r = _syms[x] == _syms[y]
        if r is False:
            return False
        if r is not True:
            out.append(r)
    return core.and_(*out) if out else True
