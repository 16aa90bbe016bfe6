"""Execution contexts: SymCtx explores every path of a scenario symbolically, NumCtx runs
the same scenario with concrete values on the real, unpatched code."""
import math
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import core
from .core import PathEnd, Sym, SymBool, Unsupported, TR, z3


class AssumeFailed(BaseException):
    pass


class CheckFailed(BaseException):
    pass


def _flat(x):
    a = np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x
    return np.asarray(a)


def _cplx(x):
    return isinstance(x, complex) or (isinstance(x, Sym) and not core.p_isreal(x.p))


class SymCtx:
    symbolic = True

    def __init__(self, eng, prefix):
        self.eng = eng
        self.prefix = prefix
        self.conc = {}
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set('timeout', eng.fork_timeout)
        self.known = set()
        self.seen_ids = set()
        self.keep = []
        self.inputs = eng.inputs
        self.checked = 0
        self.assertions = []
        self.labels = []
        self.garbage = 0

    # ------------------------------------------------------------ inputs
    def _input(self, name, isint, nonneg):
        r = self.inputs.get(name)
        if r is None:
            a = core.new_atom(name, 'real', isint=isint, nonneg=nonneg)
            r = self.inputs[name] = a
        return Sym({((r.id, 1),): 1})

    def real(self, name, lo=None, hi=None, pos=False):
        x = self._input(name, False, pos or (lo is not None and lo >= 0))
        v = TR.var(self.inputs[name])
        if pos:
            self.add(v > 0)
        if lo is not None:
            self.add(v >= TR.num(lo))
        if hi is not None:
            self.add(v <= TR.num(hi))
        self.eng.ranges[name] = (lo, hi, pos, False)
        return x

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        x = self._input(name, True, lo >= 0)
        v = TR.var(self.inputs[name])
        self.add(z3.And(v >= lo, v <= hi))
        self.eng.ranges[name] = (lo, hi, False, True)
        return x

    def cint(self, name, lo, hi):
        """an int whose feasible values are enumerated by forking right away"""
        x = self.int(name, lo, hi)
        return x if isinstance(x, int) else self.concretise(x)

    def bool(self, name):
        return self.cint(name, 0, 1) == 1

    def choice(self, name, options):
        options = list(options)
        return options[self.cint(name, 0, len(options) - 1)]

    def cplx(self, name, bound=None):
        lo = None if bound is None else -bound
        return self.real(name + '.re', lo, bound) + 1j * self.real(name + '.im', lo, bound)

    def array(self, name, shape, lo=None, hi=None, pos=False, kind='real'):
        from .arrays import SymArray
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            n = '%s[%s]' % (name, ','.join(map(str, i)))
            out[i] = self.real(n, lo, hi, pos) if kind == 'real' else self.cplx(n, hi)
        return out.view(SymArray)

    # ------------------------------------------------------------ path condition
    def add(self, e):
        if isinstance(e, SymBool):
            e = e.e
        elif not isinstance(e, z3.ExprRef):
            if not e:
                raise PathEnd('assumption false')
            return
        self._axioms(e)
        self.solver.add(e)
        self.assertions.append(e)

    def _axioms(self, e):
        todo = [e]
        while todo:
            x = todo.pop()
            self.keep.append(x)
            for n in core.const_names(x, self.seen_ids):
                if n in self.known:
                    continue
                self.known.add(n)
                f = core.NAMED.get(n)
                if f is None:
                    continue
                for ax in f():
                    self.solver.add(ax)
                    self.assertions.append(ax)
                    todo.append(ax)

    def assume(self, c):
        self.add(c if isinstance(c, SymBool) else bool(c))

    def check(self, *extra, timeout=None):
        for e in extra:
            self._axioms(e)
        self.eng.queries += 1
        t = time.time()
        r = self.solver.check(*extra)
        self.eng.solver_s += time.time() - t
        return r

    def branch(self, b):
        e = b.e
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i][1]
            self.trace.append(('v', v))
            self.add(e if v else z3.Not(e))
            return v
        ne = z3.Not(e)
        rt = self.check(e)
        if rt == z3.unsat:
            v = False
        else:
            rf = self.check(ne)
            v = True
            if rf != z3.unsat:
                self.eng.forks += 1
                self.eng.push(self.trace + [('v', False)])
        self.trace.append(('v', v))
        self.add(e if v else ne)
        return v

    def concretise(self, x):
        if not isinstance(x, Sym):
            return int(x)
        key = core.p_str(x.p)
        if key in self.conc:
            return self.conc[key]
        v = TR.ipoly(x.p)
        i = len(self.trace)
        excl = ()
        if i < len(self.prefix):
            k, val = self.prefix[i]
            if k == 'v':
                self.trace.append(('v', val))
                self.add(v == val)
                self.conc[key] = val
                return val
            excl = val
            for w in excl:
                self.add(v != w)
        self._axioms(v == 0)
        r = self.check()
        if r == z3.unsat:
            raise PathEnd('no more values')
        if r != z3.sat:
            raise Unsupported('cannot concretise index: solver %s' % r)
        val = self.solver.model().eval(v, model_completion=True).as_long()
        if len(excl) > self.eng.max_index:
            raise Unsupported('more than %d values for an index' % self.eng.max_index)
        self.eng.push(self.trace + [('x', tuple(excl) + (val,))])
        self.eng.forks += 1
        self.trace.append(('v', val))
        self.add(v == val)
        self.conc[key] = val
        return val

    # ------------------------------------------------------------ assertions
    def _witness(self):
        """feasibility of the path: vacuity guard, and a concrete input for validation"""
        if self.checked:
            return
        self.checked += 1
        r = self.check()
        if r == z3.unknown and not self.eng.reached and self.eng.unknown_paths < 3:
            self.solver.set('timeout', 5 * self.eng.fork_timeout)
            r = self.check()
            self.solver.set('timeout', self.eng.fork_timeout)
        if r == z3.unsat:
            raise PathEnd('infeasible')
        if r == z3.sat:
            self.eng.reached += 1
            if len(self.eng.witnesses) < self.eng.max_witness:
                self.eng.witnesses.append(self.values(self.solver.model()))
        else:
            self.eng.unknown_paths += 1

    def values(self, m):
        out = {}
        for n, a in self.inputs.items():
            if a.zv is None:
                continue
            v = m.eval(a.zv, model_completion=False)
            if z3.is_int_value(v):
                out[n] = v.as_long()
            elif z3.is_rational_value(v):
                out[n] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            elif z3.is_algebraic_value(v):
                q = v.approx(20)
                out[n] = float(Fraction(q.numerator_as_long(), q.denominator_as_long()))
        return out

    def fail(self, label, why, model=None):
        m = model
        if m is None:
            r = self.check()
            if r == z3.unsat:
                raise PathEnd('infeasible')
            m = self.solver.model() if r == z3.sat else None
        vals = self.values(m) if m is not None else {}
        for k in self.eng.known:
            if label.startswith(k['label']) and all(vals.get(a) in (b if isinstance(b, list) else [b])
                                                    for a, b in k.get('where', {}).items()):
                self.eng.known_hit.append(k['id'])
                raise PathEnd('known finding')
        self.eng.failures.append({'label': label, 'why': why, 'values': self.values(m) if m is not None else {},
                                  'trace': [v for _, v in self.trace]})
        raise PathEnd('failed')

    def raised(self, exc):
        self._witness()
        self.fail('no unexpected exception', '%s: %s' % (type(exc).__name__, exc))

    def true(self, label, c):
        self._witness()
        self.eng.asserts[label] = self.eng.asserts.get(label, 0) + 1
        if isinstance(c, np.ndarray):
            c = core.and_(*list(c.ravel()))
        if not isinstance(c, SymBool):
            if not c:
                self.fail(label, 'condition is false on this path')
            return
        self._decide(label, [z3.Not(c.e)])

    def eq(self, label, a, b, tol=None):
        self._witness()
        self.eng.asserts[label] = self.eng.asserts.get(label, 0) + 1
        a, b = _flat(a), _flat(b)
        if a.shape != b.shape:
            try:
                a, b = np.broadcast_arrays(a, b) if (a.ndim == 0 or b.ndim == 0) else (a, b)
            except ValueError:
                pass
            if a.shape != b.shape:
                self.fail(label, 'shape %s, expected %s' % (a.shape, b.shape))
        qs = []
        for x, y in zip(a.ravel().tolist(), b.ravel().tolist()):
            if isinstance(x, Sym) or isinstance(y, Sym) or isinstance(x, SymBool) or isinstance(y, SymBool):
                qs += neq_terms(x, y)
            else:
                x, y = complex(x), complex(y)
                self.eng.const_cmp += 1
                if x == y or (x != x and y != y):
                    continue
                if not abs(x - y) <= (tol or 1e-9) * max(abs(x), abs(y), 1e-300) and not abs(x - y) <= 1e-12:
                    self.fail(label, '%s, expected %s' % (x, y))
        if qs:
            self._decide(label, qs)

    def _decide(self, label, qs):
        eng = self.eng
        eng.obligations += len(qs)
        q = z3.Or(*qs) if len(qs) > 1 else qs[0]
        q = z3.simplify(q, som=False) if len(qs) < 400 else q
        r = self.check(q)
        if r == z3.unknown:
            r, m = self._hard(q)
            if r == z3.unknown and len(qs) > 1:
                r = z3.unsat
                for e in qs:
                    r1 = self.check(e)
                    m = self.solver.model() if r1 == z3.sat else None
                    if r1 == z3.unknown:
                        r1, m = self._hard(e)
                    if r1 != z3.unsat:
                        r = r1
                        break
        elif r == z3.sat:
            m = self.solver.model()
        if r == z3.unsat:
            eng.unsat += 1
            return
        if r == z3.sat:
            self.fail(label, 'counterexample', m)
        eng.inconclusive.append(label)

    def _hard(self, q):
        self._axioms(q)
        for mk in (lambda: z3.Tactic('qfnra-nlsat').solver(), lambda: z3.Solver()):
            try:
                s = mk()
                s.set('timeout', self.eng.hard_timeout)
                s.add(*self.assertions)
                s.add(q)
                self.eng.queries += 1
                t = time.time()
                r = s.check()
                self.eng.solver_s += time.time() - t
            except z3.Z3Exception:
                continue
            if r != z3.unknown:
                return r, (s.model() if r == z3.sat else None)
        return z3.unknown, None

    def near(self, label, a, b, tol):
        """equal up to an absolute tolerance (where the code itself rounds)"""
        a, b = np.broadcast_arrays(_flat(a), _flat(b))
        d = [x - y for x, y in zip(a.ravel().tolist(), b.ravel().tolist())]
        self.le(label, [v for e in d for v in ((e.real, -e.real, e.imag, -e.imag) if _cplx(e) else (e, -e))], tol)

    def le(self, label, a, b, tol=None):
        a, b = np.broadcast_arrays(_flat(a), _flat(b))
        self.true(label, core.and_(*[x <= y for x, y in zip(a.ravel().tolist(), b.ravel().tolist())]))

    def same(self, label, a, b):
        """plain python equality of concrete structure"""
        self._witness()
        self.eng.asserts[label] = self.eng.asserts.get(label, 0) + 1
        c = a == b
        if isinstance(c, (SymBool, np.ndarray)):
            return self.true(label, c)
        if not c:
            self.fail(label, '%r, expected %r' % (a, b))

    def observe(self, name, v):
        pass

    def new_garbage(self):
        self.garbage += 1
        n = 'garbage%d' % self.garbage
        r = self.eng.garb.get(n)
        if r is None:
            r = self.eng.garb[n] = core.new_atom(n, 'real')
        return Sym({((r.id, 1),): 1})


def neq_terms(x, y):
    px, py = core.as_poly(x), core.as_poly(y)
    d = core.p_add(px, py, -1)
    it = core.ite_atoms(d) if len(d) < 200 else []
    if 0 < len(it) <= 6:
        out = []
        for cond, a, b in ite_cases(px, py, it):
            for e in neq_terms(core.mk(a), core.mk(b)):
                if not z3.is_false(e):
                    out.append(z3.And(*cond, e) if cond else e)
        return out or [z3.BoolVal(False)]
    if not d:
        return [z3.BoolVal(False)]
    if core._negligible(d, px):
        return [z3.BoolVal(False)]
    dc = core.clear_denoms(d)
    if dc is not d:
        big = core.clear_denoms(px)
        if not dc or _negl(dc, big):
            return [z3.BoolVal(False)]
        d = dc
    elif _negl(d, px):
        return [z3.BoolVal(False)]
    out = []
    re = core.as_poly(core.mk(d).real) if isinstance(core.mk(d), Sym) else d
    im = core.as_poly(core.mk(d).imag) if isinstance(core.mk(d), Sym) else {}
    for p in (re, im):
        if not p or _negl(p, d if len(d) else p):
            continue
        if len(p) == 1 and core._ONE in p:
            out.append(z3.BoolVal(True))
        else:
            out.append(TR.poly(p) != 0)
    return out or [z3.BoolVal(False)]


def ite_cases(px, py, it):
    """split on the conditions of conditional values; alternatives with one condition share it"""
    done = [((), px, py)]
    conds = {}
    for k in it:
        conds.setdefault(id(core.ATOMS[k].cond), []).append(k)
    for ks in conds.values():
        nxt = []
        c = core.ATOMS[ks[0]].cond
        for cond, a, b in done:
            for i, e in ((0, c.e), (1, z3.Not(c.e))):
                a2, b2 = a, b
                for k in ks:
                    v = core.ATOMS[k].arg[1][i]
                    a2, b2 = core.p_subst(a2, k, v), core.p_subst(b2, k, v)
                nxt.append((cond + (e,), a2, b2))
        done = nxt
    return done


def _negl(d, ref):
    if not d:
        return True
    big = max((abs(float(c)) for c in ref.values()), default=0.0)
    return all(type(c) is float and abs(c) <= core.COEF_TOL * big for c in d.values())


class Engine:
    """explores all paths of one scenario"""

    def __init__(self, fn, params, max_paths=4000, max_s=300, fork_timeout=4000, hard_timeout=60000, max_witness=2,
                 max_index=64):
        self.fn, self.params = fn, params
        self.max_paths, self.max_s = max_paths, max_s
        self.fork_timeout, self.hard_timeout = fork_timeout, hard_timeout
        self.max_witness = max_witness
        self.max_index = max_index
        self.inputs, self.ranges, self.garb = {}, {}, {}
        self.work = [[]]
        self.queries = self.forks = self.paths = self.reached = self.unsat = self.obligations = 0
        self.const_cmp = self.unknown_paths = 0
        self.solver_s = 0.0
        self.asserts = {}
        self.known, self.known_hit = [], []
        self.failures, self.inconclusive, self.witnesses, self.errors = [], [], [], []

    def push(self, pre):
        self.work.append(pre)

    def run(self):
        core.reset_atoms()
        t0 = time.time()
        while self.work:
            if self.paths >= self.max_paths or time.time() - t0 > self.max_s:
                self.errors.append('exploration bound reached after %d paths, %.0f s' % (self.paths, time.time() - t0))
                break
            pre = self.work.pop()
            ctx = SymCtx(self, pre)
            core.set_cur(ctx)
            self.paths += 1
            if self.paths == 6:
                sys.setprofile(None)
            try:
                self.fn(ctx, **self.params)
            except PathEnd:
                pass
            except Unsupported as e:
                self.errors.append('unsupported: %s\n%s' % (e, traceback.format_exc()[-1800:]))
                break
            except Exception as e:  # raised by the code under test on a feasible path
                tb = traceback.format_exc()
                try:
                    ctx.raised(e)
                except PathEnd:
                    if self.failures:
                        self.failures[-1].setdefault('tb', tb[-1800:])
            if len(self.failures) >= 6:
                break
        core.set_cur(None)
        return {
            'paths': self.paths, 'reached': self.reached, 'forks': self.forks, 'queries': self.queries,
            'unsat': self.unsat, 'obligations': self.obligations, 'solver_s': round(self.solver_s, 3),
            'asserts': self.asserts, 'failures': self.failures, 'inconclusive': self.inconclusive,
            'errors': self.errors, 'witnesses': self.witnesses, 'ranges': self.ranges,
            'wall_s': round(time.time() - t0, 2), 'unknown_paths': self.unknown_paths,
            'known': self.known_hit,
        }


class NumCtx:
    """the same scenario with concrete values on the real code"""
    symbolic = False

    def __init__(self, values, seed=0, rtol=1e-5):
        self.v = dict(values)
        self.rng = random.Random(seed)
        self.rtol = rtol
        self.nchecks = 0
        self.used = {}

    def real(self, name, lo=None, hi=None, pos=False):
        if name not in self.v:
            a = lo if lo is not None else (0.3 if pos else (-2.0 if hi is None else hi - 4))
            b = hi if hi is not None else a + 4.0
            self.v[name] = a + (b - a) * self.rng.random()
        self.used[name] = self.v[name]
        return float(self.v[name])

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        if name not in self.v:
            self.v[name] = self.rng.randint(lo, hi)
        self.used[name] = self.v[name]
        return int(self.v[name])

    cint = int

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def choice(self, name, options):
        options = list(options)
        return options[self.int(name, 0, len(options) - 1)]

    def cplx(self, name, bound=None):
        lo = None if bound is None else -bound
        return self.real(name + '.re', lo, bound) + 1j * self.real(name + '.im', lo, bound)

    def array(self, name, shape, lo=None, hi=None, pos=False, kind='real'):
        shape = (shape,) if isinstance(shape, type(1)) else tuple(shape)
        out = np.empty(shape, dtype=complex if kind != 'real' else float)
        for i in np.ndindex(*shape):
            n = '%s[%s]' % (name, ','.join(map(str, i)))
            out[i] = self.real(n, lo, hi, pos) if kind == 'real' else self.cplx(n, hi)
        return out

    def add(self, c):
        if not np.all(c):
            raise AssumeFailed

    assume = add

    def concretise(self, x):
        return x

    def true(self, label, c):
        self.nchecks += 1
        if not np.all(c):
            raise CheckFailed('%s: condition is false' % label)

    def eq(self, label, a, b, tol=None):
        self.nchecks += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape and a.ndim and b.ndim:
            raise CheckFailed('%s: shape %s, expected %s' % (label, a.shape, b.shape))
        if a.dtype == bool:
            a = a.astype(float)
        if b.dtype == bool:
            b = b.astype(float)
        if a.size == 0:
            return
        scale = np.max(np.abs(b)) if b.size else 0
        t = (tol or self.rtol)
        with np.errstate(all='ignore'):
            bad = ~(np.abs(a - b) <= t * np.maximum(np.abs(b), scale) + 1e-12)
        bad &= ~((a != a) & (b != b)) & ~(a == b)
        if np.any(bad):
            i = tuple(np.argwhere(np.broadcast_to(bad, np.broadcast(a, b).shape))[0])
            aa, bb = np.broadcast_arrays(a, b)
            raise CheckFailed('%s: got %s, expected %s at %s' % (label, aa[i], bb[i], i))

    def near(self, label, a, b, tol):
        """equal up to an absolute tolerance (where the code itself rounds)"""
        a, b = np.broadcast_arrays(_flat(a), _flat(b))
        d = [x - y for x, y in zip(a.ravel().tolist(), b.ravel().tolist())]
        self.le(label, [v for e in d for v in ((e.real, -e.real, e.imag, -e.imag) if _cplx(e) else (e, -e))], tol)

    def le(self, label, a, b, tol=None):
        self.nchecks += 1
        a, b = np.asarray(a, float), np.asarray(b, float)
        if not np.all(a <= b + (tol or self.rtol) * np.maximum(np.abs(a), np.abs(b)) + 1e-12):
            raise CheckFailed('%s: %s <= %s fails' % (label, a, b))

    def same(self, label, a, b):
        self.nchecks += 1
        c = a == b
        if not np.all(c):
            raise CheckFailed('%s: %r, expected %r' % (label, a, b))

    def observe(self, name, v):
        pass
