"""Symbolic scalars and path exploration.

The real code of /repo is executed by CPython itself; what is symbolic are the *values* it computes
with.  SymBool / SymInt / SymReal wrap z3 terms and overload Python's operators; whenever the executed
code needs a concrete truth value (``if``, ``while``, ``and``, an index, ...) the explorer forks: both
sides are checked for satisfiability with z3 and every feasible side is eventually executed
(re-execution DFS).  SymReal is an extended real: a z3 Real plus nan / +inf / -inf flags.
"""
from fractions import Fraction
import math
import numbers
import os
import re
import time

import numpy as _np
import z3

INF = float("inf")
NAN = float("nan")
EXP_HI = Fraction(70978, 100)      # np.exp(x) overflows to +inf above ~709.78
EXP_LO = Fraction(-74513, 100)     # np.exp(x) underflows to 0 below ~-745.13


class PathAbort(BaseException):
    """This path is infeasible (or was cut by an assumption)."""


class Violation(BaseException):
    def __init__(self, label, inputs):
        self.label, self.inputs = label, inputs


def interface_changed(e, tb):
    """the harness itself (not the code) asked for an internal function that is gone or takes other arguments now"""
    frames = [f for f in tb if os.sep + "sx" + os.sep not in f.filename]
    if not frames or os.sep + "harness" + os.sep not in frames[-1].filename:
        return False
    m = str(e)
    if isinstance(e, AttributeError):
        return bool(re.search(r"module '.*' has no attribute|has no attribute '_", m))
    return isinstance(e, TypeError) and bool(re.search(r"unexpected keyword argument|positional argument|required keyword-only", m))


class EngineLimit(BaseException):
    """A bound of the exploration was hit (time, paths, unknown): never reported as success."""


# --------------------------------------------------------------------------------------------------
# boolean helpers with constant folding
# --------------------------------------------------------------------------------------------------
def bnot(a):
    if a is True:
        return False
    if a is False:
        return True
    if z3.is_true(a):
        return False
    if z3.is_false(a):
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def band(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def bite(c, a, b):
    """if-then-else over booleans (python bools or z3)"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b):
        return a
    return bor(band(c, a), band(bnot(c), b))


def z3bool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def tite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def rv(x):
    """python / numpy number -> z3 Real numeral (decimal reading of floats)"""
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, (bool, _np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, _np.integer)):
        return z3.RealVal(int(x))
    return z3.RealVal(str(Fraction(repr(float(x)))))


def to_real_term(t):
    if t.sort() == z3.RealSort():
        return t
    if z3.is_int_value(t):
        return z3.RealVal(t.as_long())
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return z3.If(t.arg(0), to_real_term(t.arg(1)), to_real_term(t.arg(2)))
    return z3.ToReal(t)


def is_num(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


def numval(t):
    return t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())


def _num_leaves(t, depth=6):
    if is_num(t):
        return True
    if depth and z3.is_app_of(t, z3.Z3_OP_ITE):
        return _num_leaves(t.arg(1), depth - 1) and _num_leaves(t.arg(2), depth - 1)
    return False


def tmul(u, v):
    """product, keeping it linear where one factor is a numeral or an if-then-else over numerals"""
    if is_num(u):
        k = numval(u)
        if k == 0:
            return z3.RealVal(0) if v.sort() == z3.RealSort() else z3.IntVal(0)
        if k == 1:
            return v
        if is_num(v):
            k2 = k * numval(v)
            return z3.RealVal(str(k2)) if v.sort() == z3.RealSort() else z3.IntVal(int(k2))
        if _num_leaves(v) and z3.is_app_of(v, z3.Z3_OP_ITE):
            return z3.If(v.arg(0), tmul(u, v.arg(1)), tmul(u, v.arg(2)))
        return u * v
    if is_num(v):
        return tmul(v, u)
    if z3.is_app_of(u, z3.Z3_OP_ITE) and _num_leaves(u):
        return z3.If(u.arg(0), tmul(u.arg(1), v), tmul(u.arg(2), v))
    if z3.is_app_of(v, z3.Z3_OP_ITE) and _num_leaves(v):
        return z3.If(v.arg(0), tmul(v.arg(1), u), tmul(v.arg(2), u))
    return u * v


# --------------------------------------------------------------------------------------------------
# the explorer
# --------------------------------------------------------------------------------------------------
class Explorer:
    """One instance per harness job."""

    def __init__(self, max_paths=20000, time_limit=600, query_ms=60000):
        self.max_paths, self.time_limit, self.query_ms = max_paths, time_limit, query_ms
        self.stats = dict(paths=0, completed=0, aborted=0, forks=0, feas_queries=0, obligations=0,
                          discharged=0, solver_s=0.0, concretised=0, unknown=0, trivial=0)
        self.labels = {}
        self.witnesses = []
        self.max_witness = 0
        self.t0 = time.time()
        self.cur = None

    # -- solver plumbing ---------------------------------------------------------------------------
    def _new_solver(self):
        s = z3.Solver()
        s.set("timeout", self.query_ms)
        return s

    def _check(self, *assumptions):
        t = time.time()
        self.stats["feas_queries"] += 1
        r = self.solver.check(*assumptions)
        if r == z3.unknown:
            r = self._retry(assumptions)
        self.stats["solver_s"] += time.time() - t
        return r

    def _retry(self, assumptions):
        """fall back to a fresh nlsat-capable solver for nonlinear queries"""
        for mk in (lambda: z3.Then("simplify", "solve-eqs", "purify-arith", "qfnra-nlsat").solver(),
                   lambda: z3.SolverFor("QF_UFNRA")):
            try:
                s = mk()
                s.set("timeout", self.query_ms)
                s.add(self.solver.assertions())
                for a in assumptions:
                    s.add(a)
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.sat:
                self._alt_model = s.model()
            if r != z3.unknown:
                return r
        self.stats["unknown"] += 1
        return z3.unknown

    def _model(self):
        try:
            return self.solver.model()
        except z3.Z3Exception:
            return self._alt_model

    # -- running paths -----------------------------------------------------------------------------
    on_start = None

    def explore(self, fn):
        for v in self.explore_iter(fn):
            return v
        return None

    def explore_iter(self, fn):
        """fn(): one symbolic run.  Yields a record for every violating path; ends when all paths are explored."""
        work = [[]]
        while work:
            if self.stats["paths"] >= self.max_paths:
                raise EngineLimit("path limit %d reached" % self.max_paths)
            if time.time() - self.t0 > self.time_limit:
                raise EngineLimit("time limit %ds reached" % self.time_limit)
            self.prefix = work.pop()
            self.pos = 0
            self.trace = []
            self.work = work
            self.inputs = {}
            self.uf_terms = {}
            self.uses_log = False
            self.counters = {}
            self.known = {}
            self.solver = self._new_solver()
            self.stats["paths"] += 1
            global _CUR
            _CUR = self
            if self.on_start is not None:
                self.on_start()
            try:
                fn()
                self._end_path()
                self.stats["completed"] += 1
            except PathAbort:
                self.stats["aborted"] += 1
            except Violation as v:
                yield dict(kind="check", label=v.label, inputs=v.inputs)
            except EngineLimit:
                raise
            except (KeyboardInterrupt, SystemExit):
                raise
            except Exception as e:  # the code under test raised something the harness did not expect
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                where = ["%s:%d in %s" % (f.filename, f.lineno, f.name) for f in tb[-6:]]
                if interface_changed(e, tb):
                    raise EngineLimit("the harness does not fit the code's interface any more: %s" % str(e)[:200])
                r = self._check()
                if r == z3.unsat:
                    self.stats["aborted"] += 1
                    continue
                inputs = self.model_inputs([]) if r == z3.sat else None
                if r == z3.sat and inputs is None and self._check() == z3.unsat:
                    self.stats["aborted"] += 1
                    continue
                yield dict(kind="exception", label="unexpected %s: %s" % (type(e).__name__, str(e)[:200]),
                           inputs=inputs, where=where)

    def _end_path(self):
        r = self._check()
        if r == z3.unsat:
            raise PathAbort()
        if len(self.witnesses) < self.max_witness or (self.max_witness and self.stats["completed"] % 37 == 0
                                                      and len(self.witnesses) < 4 * self.max_witness):
            inp = self.model_inputs([], refine=False)
            if inp is not None:
                self.witnesses.append(inp)

    # -- decisions ---------------------------------------------------------------------------------
    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        known = self.known.get(cond.get_id())
        if known is not None:
            return known[1]
        r = self._branch(cond)
        self.known[cond.get_id()] = (cond, r)
        return r

    def _branch(self, cond):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            if d[1] is not None:
                self.solver.add(cond if d[1] else z3.Not(cond))
            return d[0]
        t = self._check(cond)
        f = self._check(z3.Not(cond)) if t != z3.unsat else z3.sat
        if t == z3.unsat:
            if f == z3.unsat:
                raise PathAbort()
            d = (False, None)
        elif f == z3.unsat:
            d = (True, None)
        else:
            self.stats["forks"] += 1
            self.work.append(self.trace + [(False, False)])
            d = (True, True)
        self.pos += 1
        self.prefix = self.trace + [d]
        self.trace = list(self.prefix)
        if d[1] is not None:
            self.solver.add(cond if d[1] else z3.Not(cond))
        return d[0]

    def concretize_int(self, t):
        """fork over every feasible value of an integer term"""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        known = self.known.get(t.get_id())
        if known is None:
            known = self.known[t.get_id()] = (t, self._concretize_int(t))
        return known[1]

    def _concretize_int(self, t):
        while True:
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                self.trace.append(d)
                tag, v, taken = d
                assert tag == "v"
                self.solver.add(t == v if taken else t != v)
                if taken:
                    return v
                continue
            if self._check() == z3.unsat:
                raise PathAbort()
            v = self._model().eval(t, model_completion=True).as_long()
            other = self._check(t != v)
            if other != z3.unsat:
                self.stats["forks"] += 1
                self.work.append(self.trace + [("v", v, False)])
            self.pos += 1
            self.prefix = self.trace + [("v", v, True)]
            self.trace = list(self.prefix)
            self.solver.add(t == v)
            if time.time() - self.t0 > self.time_limit:
                raise EngineLimit("time limit reached")
            return v

    def realize(self, x):
        """Under-approximate: pick one model value for a real (only for constructs we cannot encode)."""
        if isinstance(x, SymBool):
            return bool(x)
        if isinstance(x, SymInt):
            return int(x)
        self.stats["concretised"] += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            v = d[1]
        else:
            if self._check() == z3.unsat:
                raise PathAbort()
            m = self._model()
            ev = lambda c: z3.is_true(m.eval(z3bool(c), model_completion=True))
            if ev(x.nan):
                v = NAN
            elif ev(x.pi):
                v = INF
            elif ev(x.ni):
                v = -INF
            else:
                v = float(model_num(m, x.t))
            self.pos += 1
            self.prefix = self.trace + [("r", v)]
            self.trace = list(self.prefix)
        if v != v:
            self.solver.add(z3bool(x.nan))
        elif v == INF:
            self.solver.add(z3bool(x.pi))
        elif v == -INF:
            self.solver.add(z3bool(x.ni))
        else:
            self.solver.add(z3bool(x.fin()))
            self.solver.add(x.t == rv(v))
        return _np.float64(v)

    def assume(self, cond):
        cond = cond_of(cond)
        if cond is True:
            return
        if cond is False:
            raise PathAbort()
        self.solver.add(cond)
        if self.pos >= len(self.prefix):
            if self._check() == z3.unsat:
                raise PathAbort()

    def lemma(self, cond):
        """background axiom of an uninterpreted function (always true of the real function)"""
        if cond is True:
            return
        self.solver.add(cond)

    def check(self, cond, label):
        self.labels[label] = self.labels.get(label, 0) + 1
        self.stats["obligations"] += 1
        cond = cond_of(cond)
        if cond is not True and cond is not False:
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                cond = True
        if cond is True:
            self.stats["discharged"] += 1
            self.stats["trivial"] += 1
            return
        neg = z3.BoolVal(True) if cond is False else z3.Not(cond)
        r = self._check(neg)
        if r == z3.unsat:
            self.stats["discharged"] += 1
            return
        if r == z3.unknown:
            raise EngineLimit("solver answered unknown for obligation %r" % label)
        inputs = self.model_inputs([neg])
        if inputs is None and self._check(neg) == z3.unsat:       # ruled out by refined bounds
            self.stats["discharged"] += 1
            return
        raise Violation(label, inputs)

    # -- inputs ------------------------------------------------------------------------------------
    def fresh_input(self, name, sort, lo, hi, extra=None):
        if name in self.inputs:
            return self.inputs[name][0]
        t = {"r": z3.Real, "i": z3.Int, "b": z3.Bool}[sort](name)
        self.inputs[name] = (t, sort)
        if sort == "r":
            if lo is not None:
                self.solver.add(t >= rv(lo))
            if hi is not None:
                self.solver.add(t <= rv(hi))
        elif sort == "i":
            if lo is not None:
                self.solver.add(t >= int(lo))
            if hi is not None:
                self.solver.add(t <= int(hi))
        return t

    def _find_model(self, extra):
        """a model of the path condition and extra; prefers small dyadic reals so that floats replay exactly"""
        reals = [t for t, s in self.inputs.values() if s == "r"]
        for den in (4, 64, None):
            s = self._new_solver()
            s.set("timeout", 8000)
            s.add(self.solver.assertions())
            for e in extra:
                s.add(e)
            if den and reals:
                for i, t in enumerate(reals):
                    s.add(t * den == z3.ToReal(z3.Int("__dy%d" % i)))
            if s.check() == z3.sat:
                return s.model()
        if self._check(*extra) != z3.sat:
            return None
        return self._model()

    def _refine(self, m):
        """add exact bounds of exp at the points where a model gives it a wrong value; False: the model is right"""
        terms = self.uf_terms.get("exp", [])
        pts = set()
        for t in terms:
            x = float(model_num(m, t))
            if not -600 < x < 600:
                continue
            y, ey = float(model_num(m, _UF["exp"](t))), math.exp(x)
            if abs(y - ey) > 1e-9 * ey:
                pts.add(round(x * 2 ** 24) / 2 ** 24)
        for x in sorted(pts):
            lo, hi = rv(math.exp(x) * (1 - 1e-12)), rv(math.exp(x) * (1 + 1e-12))
            for t in terms:
                e = _UF["exp"](t)
                self.lemma(z3.If(t <= rv(x), e <= hi, e >= lo))
                self.lemma(z3.Implies(t == rv(x), e >= lo))
                self.lemma(e >= z3.If(t >= rv(x), lo, hi) * (1 + t - rv(x)))
            self.stats["refinements"] = self.stats.get("refinements", 0) + 1
        return bool(pts)

    def model_inputs(self, extra, refine=True):
        """values for every registered input (None: no model)"""
        for k in range(12):
            m = self._find_model(extra)
            if m is None:
                return None
            if not refine or not self._refine(m):
                break
        out = {}
        for name, (t, s) in self.inputs.items():
            v = m.eval(t, model_completion=True)
            if s == "b":
                out[name] = z3.is_true(v)
            elif s == "i":
                out[name] = v.as_long()
            else:
                out[name] = float(model_num(m, t))
        return out


def model_num(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    return v.as_fraction() if z3.is_rational_value(v) else Fraction(v.as_long())


_CUR = None


def cur():
    return _CUR


def cond_of(c):
    """anything truthy -> python bool or z3 Bool"""
    if isinstance(c, (bool, _np.bool_)):
        return bool(c)
    if isinstance(c, SymBool):
        return c.t
    if isinstance(c, z3.BoolRef):
        return c
    if isinstance(c, SymInt):
        return c.t != 0
    if isinstance(c, SymReal):
        return (c != 0).t if isinstance(c != 0, SymBool) else bool(c != 0)
    if isinstance(c, _np.ndarray):
        if c.size == 1:
            return cond_of(c.reshape(-1)[0])
        raise ValueError("truth value of an array is ambiguous")
    if type(c).__name__ == "SArr" and c.a.size == 1:
        return cond_of(c.a.reshape(-1)[0])
    return bool(c)


# --------------------------------------------------------------------------------------------------
# scalars
# --------------------------------------------------------------------------------------------------
class Sym:
    __slots__ = ()
    __array_ufunc__ = None       # make numpy scalars / arrays defer to our reflected operators
    __array_priority__ = 1000.0


def mkbool(c):
    if isinstance(c, bool):
        return _np.bool_(c)
    if z3.is_true(c):
        return _np.bool_(True)
    if z3.is_false(c):
        return _np.bool_(False)
    return SymBool(c)


def is_sym(x):
    return isinstance(x, Sym)


class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().branch(self.t)

    def as_int(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __invert__(self):
        return mkbool(bnot(self.t))

    def __and__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if isinstance(o, (bool, _np.bool_, SymBool)):
            return mkbool(band(self.t, cond_of(o)))
        return self.as_int() & o

    def __or__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if isinstance(o, (bool, _np.bool_, SymBool)):
            return mkbool(bor(self.t, cond_of(o)))
        return self.as_int() | o

    def __xor__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        o = cond_of(o)
        return mkbool(bnot(self.t) if o is True else self.t if o is False else z3.Xor(self.t, o))

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __repr__(self):
        return "<symbool>"

    def __format__(self, spec):
        return "<symbool>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymInt(Sym):
    __slots__ = ("t", "np")

    def __init__(self, t, np=False):
        self.t, self.np = t, np

    def __bool__(self):
        return cur().branch(self.t != 0)

    def __int__(self):
        return cur().concretize_int(self.t)

    __index__ = __int__
    __trunc__ = __int__

    def __float__(self):
        return float(int(self))

    def __hash__(self):
        return hash(int(self))

    def __repr__(self):
        return "<symint>"

    def __format__(self, spec):
        return "<symint>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __neg__(self):
        return SymInt(-self.t, self.np)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.t >= 0, self.t, -self.t), self.np)

    def __round__(self, n=None):
        return self

    def __invert__(self):
        return SymInt(-self.t - 1, self.np)

    def item(self):
        return SymInt(self.t)

    def astype(self, d):
        from . import arr
        return arr.cast_scalar(self, arr.kind_of_dtype(d))

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def is_integer(self):
        return True


class SymReal(Sym):
    """extended real: value t unless one of the flags nan / pi (+inf) / ni (-inf) holds"""
    __slots__ = ("t", "nan", "pi", "ni", "np")

    def __init__(self, t, nan=False, pi=False, ni=False, np=True):
        self.t, self.nan, self.pi, self.ni, self.np = t, nan, pi, ni, np

    def plain(self):
        return self.nan is False and self.pi is False and self.ni is False

    def fin(self):
        return bnot(bor(self.nan, self.pi, self.ni))

    def __bool__(self):
        return cur().branch(cond_of(self != 0))

    def __float__(self):
        return float(cur().realize(self))

    def __int__(self):
        return int(trunc(self))

    __trunc__ = __int__

    def __hash__(self):
        return hash(float(self))

    def __repr__(self):
        return "<symreal>"

    def __format__(self, spec):
        return "<symreal>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __neg__(self):
        return SymReal(-self.t, self.nan, self.ni, self.pi, self.np)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(z3.If(self.t >= 0, self.t, -self.t), self.nan, bor(self.pi, self.ni), False, self.np)

    def __round__(self, n=None):
        if n:
            k = 10 ** n
            return round(self * k) / k
        return round_half_even(self)

    def item(self):
        return SymReal(self.t, self.nan, self.pi, self.ni, False)

    def astype(self, d):
        from . import arr
        return arr.cast_scalar(self, arr.kind_of_dtype(d))

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def is_integer(self):
        return mkbool(band(self.fin(), z3.IsInt(self.t)))

    @property
    def real(self):
        return self


# -- lifting ---------------------------------------------------------------------------------------
def kind(x):
    """'b' | 'i' | 'f' | None"""
    if isinstance(x, (SymBool, bool, _np.bool_)):
        return "b"
    if isinstance(x, (SymInt, int, _np.integer)):
        return "i"
    if isinstance(x, (SymReal, float, _np.floating, Fraction)):
        return "f"
    return None


def int_term(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def as_real(x):
    """-> SymReal (with constant term/flags for concrete values)"""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        return SymReal(to_real_term(x.t))
    if isinstance(x, SymBool):
        return SymReal(z3.If(x.t, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(x, Fraction):
        return SymReal(rv(x))
    f = float(x)
    if f != f:
        return SymReal(z3.RealVal(0), nan=True)
    if f == INF:
        return SymReal(z3.RealVal(0), pi=True)
    if f == -INF:
        return SymReal(z3.RealVal(0), ni=True)
    return SymReal(rv(x))


def mkreal(t, nan=False, pi=False, ni=False):
    """build a real, folding constants back to np.float64"""
    nan, pi, ni = (False if z3.is_false(z3bool(c)) else True if z3.is_true(z3bool(c)) else c for c in (nan, pi, ni))
    if nan is True:
        return _np.float64(NAN)
    if pi is True:
        return _np.float64(INF)
    if ni is True:
        return _np.float64(-INF)
    if nan is False and pi is False and ni is False and is_num(t):
        return _np.float64(float(numval(t)))
    return SymReal(t, nan, pi, ni)


def r_add(a, b):
    a, b = as_real(a), as_real(b)
    if a.plain() and b.plain():
        if is_num(a.t) and numval(a.t) == 0:
            return mkreal(b.t)
        if is_num(b.t) and numval(b.t) == 0:
            return mkreal(a.t)
        return mkreal(a.t + b.t)
    nan = bor(a.nan, b.nan, band(a.pi, b.ni), band(a.ni, b.pi))
    nn = bnot(nan)
    return mkreal(a.t + b.t, nan, band(nn, bor(a.pi, b.pi)), band(nn, bor(a.ni, b.ni)))


def r_neg(a):
    a = as_real(a)
    return mkreal(-a.t, a.nan, a.ni, a.pi)


def r_sub(a, b):
    a, b = as_real(a), as_real(b)
    if a.plain() and b.plain():
        if is_num(b.t) and numval(b.t) == 0:
            return mkreal(a.t)
        return mkreal(a.t - b.t)
    nan = bor(a.nan, b.nan, band(a.pi, b.pi), band(a.ni, b.ni))
    nn = bnot(nan)
    return mkreal(a.t - b.t, nan, band(nn, bor(a.pi, b.ni)), band(nn, bor(a.ni, b.pi)))


def _pos(a):
    return bor(a.pi, band(a.fin(), a.t > 0))


def _neg(a):
    return bor(a.ni, band(a.fin(), a.t < 0))


def _zero(a):
    return band(a.fin(), a.t == 0)


def r_mul(a, b):
    a, b = as_real(a), as_real(b)
    if a.plain() and b.plain():
        return mkreal(tmul(a.t, b.t))
    ainf, binf = bor(a.pi, a.ni), bor(b.pi, b.ni)
    nan = bor(a.nan, b.nan, band(ainf, _zero(b)), band(binf, _zero(a)))
    inf = band(bnot(nan), bor(ainf, binf))
    same = bor(band(_pos(a), _pos(b)), band(_neg(a), _neg(b)))
    return mkreal(tmul(a.t, b.t), nan, band(inf, same), band(inf, bnot(same)))


def r_div(a, b):
    a, b = as_real(a), as_real(b)
    if a.plain() and b.plain() and is_num(b.t) and numval(b.t) != 0:
        return mkreal(tmul(z3.RealVal(str(1 / numval(b.t))), a.t))
    bz = _zero(b)
    if bz is not False and not isinstance(bz, bool):
        bz = z3.simplify(bz)
        bz = True if z3.is_true(bz) else False if z3.is_false(bz) else bz
    ainf, binf = bor(a.pi, a.ni), bor(b.pi, b.ni)
    nan = bor(a.nan, b.nan, band(ainf, binf), band(_zero(a), bz))
    inf = band(bnot(nan), bor(ainf, bz))
    bpos = bor(_pos(b), bz)               # zeros are taken as +0.0
    same = bor(band(_pos(a), bpos), band(_neg(a), _neg(b)))
    t = a.t / b.t if not (is_num(b.t) and numval(b.t) == 0) else z3.RealVal(0)
    if is_num(b.t) and numval(b.t) != 0:
        t = tmul(z3.RealVal(str(1 / numval(b.t))), a.t)
    if binf is not False:
        t = tite(binf, z3.RealVal(0), t) if binf is not True else z3.RealVal(0)
    return mkreal(t, nan, band(inf, same), band(inf, bnot(same)))


def r_lt(a, b):
    a, b = as_real(a), as_real(b)
    if a.plain() and b.plain():
        return a.t < b.t
    nn = bnot(bor(a.nan, b.nan))
    return band(nn, bor(band(a.ni, bnot(b.ni)), band(b.pi, bnot(a.pi)), band(a.fin(), b.fin(), a.t < b.t)))


def r_eq(a, b):
    a, b = as_real(a), as_real(b)
    if a.plain() and b.plain():
        return a.t == b.t
    return bor(band(a.pi, b.pi), band(a.ni, b.ni), band(a.fin(), b.fin(), a.t == b.t))


def r_le(a, b):
    a, b = as_real(a), as_real(b)
    if a.plain() and b.plain():
        return a.t <= b.t
    return bor(r_lt(a, b), r_eq(a, b))


def ite(c, a, b):
    """merge two scalars under a condition"""
    c = cond_of(c)
    if c is True:
        return a
    if c is False:
        return b
    ka, kb = kind(a), kind(b)
    k = max((ka, kb), key="bif".index)
    if k == "b":
        return mkbool(bite(c, cond_of(a), cond_of(b)))
    if k == "i":
        ta, tb = int_term(a), int_term(b)
        if ta.eq(tb):
            return a
        return SymInt(z3.If(c, ta, tb), True)
    a, b = as_real(a), as_real(b)
    if a.plain() and b.plain():
        return mkreal(tite(c, a.t, b.t))
    return mkreal(tite(c, a.t, b.t), bite(c, a.nan, b.nan), bite(c, a.pi, b.pi), bite(c, a.ni, b.ni))


# -- integer ops -----------------------------------------------------------------------------------
def py_floordiv_t(a, b):
    if z3.is_int_value(b):
        k = b.as_long()
        if k == 1:
            return a
        if k > 0:
            return a / b
        return (-a) / z3.IntVal(-k)
    return z3.If(b > 0, a / b, (-a) / (-b))


def py_mod_t(a, b):
    if z3.is_int_value(b) and b.as_long() > 0:
        return a % b
    return a - b * py_floordiv_t(a, b)


def _np_flag(a, b):
    return getattr(a, "np", False) or getattr(b, "np", False) or isinstance(a, _np.generic) or isinstance(b, _np.generic)


class DivZero(ZeroDivisionError):
    pass


def s_bin(op, a, b):
    """binary scalar operation where at least one operand is symbolic"""
    ka, kb = kind(a), kind(b)
    if ka is None or kb is None:
        return NotImplemented
    if op in ("lt", "le", "gt", "ge", "eq", "ne"):
        if op == "gt":
            return s_bin("lt", b, a)
        if op == "ge":
            return s_bin("le", b, a)
        if op == "ne":
            return mkbool(bnot(cond_of(s_bin("eq", a, b))))
        if ka == "b" and kb == "b" and op == "eq":
            ca, cb = z3bool(cond_of(a)), z3bool(cond_of(b))
            return mkbool(z3.simplify(ca == cb))
        if "f" not in (ka, kb):
            x, y = int_term(a), int_term(b)
            return mkbool(z3.simplify({"lt": x < y, "le": x <= y, "eq": x == y}[op]))
        c = {"lt": r_lt, "le": r_le, "eq": r_eq}[op](a, b)
        return mkbool(c)
    if op in ("add", "sub", "mul") and "f" not in (ka, kb):
        x, y = int_term(a), int_term(b)
        t = x + y if op == "add" else x - y if op == "sub" else tmul(x, y)
        t = z3.simplify(t) if is_num(x) or is_num(y) else t
        return SymInt(t, _np_flag(a, b)) if not z3.is_int_value(t) else _np.int64(t.as_long())
    if op == "add":
        return r_add(a, b)
    if op == "sub":
        return r_sub(a, b)
    if op == "mul":
        return r_mul(a, b)
    if op == "div":
        if not _np_flag(a, b) or (kind(b) != "f" and not _np_flag(b, b) and not _np_flag(a, a)):
            if is_sym(b):
                if bool(s_bin("eq", b, 0)):
                    raise ZeroDivisionError("division by zero")
        return r_div(a, b)
    if op in ("floordiv", "mod"):
        if "f" not in (ka, kb):
            x, y = int_term(a), int_term(b)
            if not z3.is_int_value(y):
                if cur().branch(y == 0):
                    raise ZeroDivisionError("integer division or modulo by zero")
            elif y.as_long() == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            return SymInt(z3.simplify(py_floordiv_t(x, y) if op == "floordiv" else py_mod_t(x, y)), _np_flag(a, b))
        q = floor_real(r_div(a, b))
        return q if op == "floordiv" else r_sub(a, r_mul(b, q))
    if op == "pow":
        return s_pow(a, b)
    if op == "and":
        if ka == "b" and kb == "b":
            return mkbool(band(cond_of(a), cond_of(b)))
        return int_and(a, b)
    if op == "or" and ka == "b" and kb == "b":
        return mkbool(bor(cond_of(a), cond_of(b)))
    if op == "xor" and ka == "b" and kb == "b":
        return mkbool(z3.simplify(z3.Xor(z3bool(cond_of(a)), z3bool(cond_of(b)))))
    if op in ("lshift",) and not is_sym(b):
        return s_bin("mul", a, 2 ** int(b))
    if op in ("rshift",) and not is_sym(b):
        return s_bin("floordiv", a, 2 ** int(b))
    if op in ("or", "xor", "lshift", "rshift"):
        x, y = int(a), int(b)
        return {"or": x | y, "xor": x ^ y, "lshift": x << y, "rshift": x >> y}[op]
    if op == "max":
        return ite(bor(cond_of(s_bin("ge", a, b)), _isnan_c(a)), a, b)
    if op == "min":
        return ite(bor(cond_of(s_bin("le", a, b)), _isnan_c(a)), a, b)
    raise NotImplementedError(op)


def _isnan_c(x):
    if isinstance(x, SymReal):
        return x.nan
    if is_sym(x):
        return False
    return bool(x != x)


def int_and(a, b):
    if is_sym(a) and not is_sym(b):
        m = int(b)
        if m >= 0 and (m & (m + 1)) == 0:
            return SymInt(z3.simplify(py_mod_t(int_term(a), z3.IntVal(m + 1))), _np_flag(a, b))
    if is_sym(b) and not is_sym(a):
        return int_and(b, a)
    return int(a) & int(b)


def s_pow(a, b):
    if not is_sym(b):
        fb = float(b)
        if fb == int(fb) and abs(fb) <= 6:
            n = int(fb)
            if n == 0:
                return _np.float64(1.0) if kind(a) == "f" or kind(b) == "f" else 1
            base = a
            if kind(b) == "f" and kind(a) != "f":
                base = as_real(a)
            r = base
            for _ in range(abs(n) - 1):
                r = s_bin("mul", r, base) if is_sym(r) or is_sym(base) else r * base
            if n < 0:
                if kind(a) == "i" and kind(b) == "i" and (isinstance(a, _np.generic) or getattr(a, "np", False)):
                    raise ValueError("Integers to negative integer powers are not allowed.")
                r = r_div(1.0, r)
            return r
        if fb == 0.5:
            return s_sqrt(a)
        if fb == -0.5:
            return r_div(1.0, s_sqrt(a))
    return uf2("pow", a, b)


def floor_real(x):
    if not is_sym(x):
        return _np.floor(x)
    x = as_real(x)
    return mkreal(z3.ToReal(z3.ToInt(x.t)), x.nan, x.pi, x.ni)


def floor_int(x):
    if isinstance(x, SymInt):
        return x
    x = as_real(x)
    return SymInt(z3.ToInt(x.t))


def ceil_real(x):
    return r_neg(floor_real(r_neg(x)))


def trunc(x):
    """python int(x) / astype(int) on a symbolic value"""
    if isinstance(x, SymInt):
        return SymInt(x.t)
    if isinstance(x, SymBool):
        return x.as_int()
    if not is_sym(x):
        return int(x)
    x = as_real(x)
    if not x.plain():
        if cur().branch(z3bool(bnot(x.fin()))):
            raise ValueError("cannot convert float NaN/inf to integer")
    if z3.is_app_of(x.t, z3.Z3_OP_TO_REAL):
        return SymInt(x.t.arg(0))
    return SymInt(_int_of_real(x.t))


def _int_of_real(t):
    if z3.is_rational_value(t):
        return z3.IntVal(int(t.as_fraction()))
    if z3.is_app_of(t, z3.Z3_OP_ITE) and _num_leaves(t):
        return z3.If(t.arg(0), _int_of_real(t.arg(1)), _int_of_real(t.arg(2)))
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def round_half_even(x):
    x = as_real(x)
    f = z3.ToInt(x.t)
    d = x.t - z3.ToReal(f)
    half = z3.RealVal("1/2")
    return SymInt(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))


# -- uninterpreted functions with axioms -----------------------------------------------------------
_UF = {n: z3.Function(n, z3.RealSort(), z3.RealSort()) for n in ("exp", "log", "sqrt", "std")}
_UF["pow"] = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())


def uf2(name, a, b):
    a, b = as_real(a), as_real(b)
    return mkreal(_UF[name](a.t, b.t), bor(a.nan, b.nan))


def uf_terms(name):
    return cur().uf_terms.setdefault(name, [])


def _anchors(cs):
    return [(c, rv(math.exp(c) * (1 - 1e-12)), rv(math.exp(c) * (1 + 1e-12))) for c in cs]


_EXP_ANCHORS = _anchors([-700, -20, 20, 700])
_EXP_DENSE = _anchors([-100] + list(range(-40, 61, 4)) + [100])      # for code that also takes logarithms


_EXP_M20 = rv(2e-9)


def _anchor(t, points):
    e = _UF["exp"](t)
    for c, lo, hi in points:
        cur().lemma(z3.If(t <= c, e <= hi, e >= lo))


def _mean_value(t, u):
    """mean value bound of exp on the region above -20"""
    ex, f = cur(), _UF["exp"]
    ex.lemma(z3.Implies(z3.And(t >= u, u >= -20), f(t) - f(u) >= _EXP_M20 * (t - u)))
    ex.lemma(z3.Implies(z3.And(u >= t, t >= -20), f(u) - f(t) >= _EXP_M20 * (u - t)))


def _register(name, t):
    """the UF application for argument t, with its axioms asserted on this path"""
    ex = cur()
    t = z3.simplify(t)
    f = _UF[name]
    e = f(t)
    terms = uf_terms(name)
    if any(t.eq(u) for u in terms):
        return e
    if name == "exp":
        ex.lemma(e > 0)
        ex.lemma(e >= 1 + t)
        ex.lemma(z3.Implies(t == 0, e == 1))
        ex.lemma((t > 0) == (e > 1))
        for u in terms:
            ex.lemma((t < u) == (e < f(u)))
            ex.lemma((t == u) == (e == f(u)))
            if ex.uses_log:
                _mean_value(t, u)
        _anchor(t, _EXP_ANCHORS)
        if ex.uses_log:
            _anchor(t, _EXP_DENSE)
        v = _const_of(t)
        if v is not None and -700 < v < 700:
            x = math.exp(v)
            ex.lemma(z3.And(e > rv(x * (1 - 1e-12)), e < rv(x * (1 + 1e-12))))
    elif name == "log":
        if not terms:
            prev = uf_terms("exp")
            for i, u in enumerate(prev):
                _anchor(u, _EXP_DENSE)
                for v in prev[:i]:
                    _mean_value(u, v)
            ex.uses_log = True
        ee = _register("exp", e)
        ex.lemma(z3.Implies(t > 0, ee == t))
        ex.lemma(z3.Implies(t == 1, e == 0))
        ex.lemma(z3.Implies(t > 0, e <= t - 1))
        ex.lemma(z3.Implies(t > 0, (t > 1) == (e > 0)))
        v = _const_of(t)
        if v is not None and v > 0:
            x = math.log(v)
            ex.lemma(z3.And(e >= rv(x - 1e-12), e <= rv(x + 1e-12)))
    elif name == "sqrt":
        ex.lemma(z3.Implies(t >= 0, z3.And(e >= 0, e * e == t)))
        for u in terms:
            ex.lemma(z3.Implies(z3.And(t >= 0, u >= 0), (t < u) == (e < f(u))))
    terms.append(t)
    return e


def _const_of(t):
    if is_num(t):
        return float(numval(t))
    return None


def s_exp(x):
    x = as_real(x)
    t = z3.simplify(x.t)
    if is_num(t) and x.plain():
        return _np.exp(_np.float64(float(numval(t))))
    e = _register("exp", t)
    under = bor(x.ni, band(x.fin(), z3.simplify(t < rv(EXP_LO))))
    over = bor(x.pi, band(x.fin(), z3.simplify(t > rv(EXP_HI))))
    if not cur_feasible(over):
        over = False
    if not cur_feasible(under):
        under = False
    return mkreal(tite(under, z3.RealVal(0), e) if under is not True else z3.RealVal(0), x.nan, over, False)


def cur_feasible(c):
    """is condition c possible here?  (only used to drop impossible flags; unknown counts as possible)"""
    if isinstance(c, bool):
        return c
    c = z3.simplify(c)
    if z3.is_false(c):
        return False
    if z3.is_true(c):
        return True
    return cur()._check(c) != z3.unsat


def s_log(x):
    x = as_real(x)
    t = z3.simplify(x.t)
    if is_num(t) and x.plain():
        with _np.errstate(all="ignore"):
            return _np.log(_np.float64(float(numval(t))))
    e = _register("log", t)
    neg = bor(x.ni, band(x.fin(), t < 0))
    zero = band(x.fin(), t == 0)
    if not cur_feasible(neg):
        neg = False
    if not cur_feasible(zero):
        zero = False
    return mkreal(e, bor(x.nan, neg), x.pi, zero)


def s_sqrt(x):
    x = as_real(x)
    t = z3.simplify(x.t)
    if is_num(t) and x.plain():
        with _np.errstate(all="ignore"):
            return _np.sqrt(_np.float64(float(numval(t))))
    e = _register("sqrt", t)
    neg = bor(x.ni, band(x.fin(), t < 0))
    if not cur_feasible(neg):
        neg = False
    return mkreal(e, bor(x.nan, neg), x.pi, False)


# -- install operators -----------------------------------------------------------------------------
def _install():
    names = dict(add="add", sub="sub", mul="mul", truediv="div", floordiv="floordiv", mod="mod", pow="pow")
    names["and"] = "and"
    names["or"] = "or"
    names["xor"] = "xor"
    names["lshift"] = "lshift"
    names["rshift"] = "rshift"

    def mk(op, refl):
        def f(self, other, *_):
            if isinstance(other, _np.ndarray):
                from . import arr
                a, b = (other, self) if refl else (self, other)
                return arr.elementwise2(op, a, b)
            if kind(other) is None:
                return NotImplemented
            return s_bin(op, other, self) if refl else s_bin(op, self, other)
        return f
    for cls in (SymBool, SymInt, SymReal):
        for py, op in names.items():
            if cls is SymBool and py in ("and", "or", "xor"):
                continue
            setattr(cls, "__%s__" % py, mk(op, False))
            setattr(cls, "__r%s__" % py, mk(op, True))
        for op in ("lt", "le", "gt", "ge", "eq", "ne"):
            def cmp(self, other, op=op):
                if isinstance(other, _np.ndarray):
                    from . import arr
                    return arr.elementwise2(op, self, other)
                if kind(other) is None:
                    if type(other).__name__ == "SArr":
                        return NotImplemented
                    if op == "eq":
                        return False
                    if op == "ne":
                        return True
                    return NotImplemented
                return s_bin(op, self, other)
            setattr(cls, "__%s__" % op, cmp)
        cls.__divmod__ = lambda self, o: (self // o, self % o)
    # SymBool with arrays for & | ^
    for py in ("and", "or", "xor"):
        base = getattr(SymBool, "__%s__" % py)

        def w(self, other, base=base, op=py):
            if isinstance(other, _np.ndarray):
                from . import arr
                return arr.elementwise2(op, self, other)
            return base(self, other)
        setattr(SymBool, "__%s__" % py, w)
        setattr(SymBool, "__r%s__" % py, w)
    SymBool.__neg__ = lambda self: -self.as_int()
    SymBool.__abs__ = lambda self: self.as_int()
    SymBool.item = lambda self: self
    SymBool.shape = property(lambda self: ())
    SymBool.ndim = property(lambda self: 0)
    SymBool.any = lambda self: self
    SymBool.all = lambda self: self

    def astype(self, d):
        from . import arr
        return arr.cast_scalar(self, arr.kind_of_dtype(d))
    SymBool.astype = astype
    for cls in (SymInt, SymReal):
        cls.sum = cls.max = cls.min = cls.copy = lambda self, *a, **k: self
    numbers.Number.register(SymInt)
    numbers.Number.register(SymReal)


_install()
