"""Harness interface.  A harness is written once against ``ctx`` and runs in two modes:
symbolically (inputs are solver variables, code from /repo executed by sx.loader) and concretely
(inputs from a model, /repo's package under the real numpy and numba)."""
import importlib
import math
import warnings
import numpy as _np

TOL_SYM, TOL_CON = 1e-6, 5e-7


class CheckFailed(Exception):
    pass


class Skip(Exception):
    """concrete run left the assumed input space"""


class Prop:
    def __init__(self, pid):
        self.pid, self.jobs = pid, []
        self.assumptions, self.bounds = [], []

    def job(self, quick=({},), thorough=(), **opts):
        def deco(f):
            self.jobs.append((f, list(quick), list(thorough), opts))
            return f
        return deco

    def list(self, tier):
        out = []
        for f, q, t, opts in self.jobs:
            ps = q + (t if tier == "thorough" else [])
            for i, p in enumerate(ps):
                out.append((f.__name__, i, p, opts))
        return out

    def func(self, name):
        return [f for f, _, _, _ in self.jobs if f.__name__ == name][0]


class Ctx:
    symbolic = False
    np = None

    # -- derived input helpers -----------------------------------------------------------------------
    def reals(self, name, shape, lo=-100, hi=100):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = _np.empty(shape, dtype=object)
        for i in _np.ndindex(*shape):
            o[i] = self.real("%s%s" % (name, "_".join(map(str, i))), lo, hi)
        return self._arr(o, "f")

    def ints(self, name, shape, lo, hi):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = _np.empty(shape, dtype=object)
        for i in _np.ndindex(*shape):
            o[i] = self.int("%s%s" % (name, "_".join(map(str, i))), lo, hi)
        return self._arr(o, "i")

    def bits(self, name, shape, kind="f"):
        """array of 0/1 values, each an unconstrained solver boolean"""
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = _np.empty(shape, dtype=object)
        for i in _np.ndindex(*shape):
            o[i] = self.bit("%s%s" % (name, "_".join(map(str, i))), kind)
        return self._arr(o, kind)

    def dist(self, name, n):
        """a probability vector"""
        v = self.reals(name, n, 0, 1)
        self.assume(self.close(v.sum(), 1.0, 0) if self.symbolic else self.close(v.sum(), 1.0))
        return v

    def pick(self, name, options):
        return options[int(self.int(name, 0, len(options) - 1))]

    def state(self, name, n):
        """a concrete index, forked over 0..n-1"""
        return int(self.int(name, 0, n - 1))

    def layout(self, name, n):
        """an array of n concrete 0/1 values, forked over all of them"""
        return self.np.array([float(self.state("%s%d" % (name, i), 2)) for i in range(n)])

    def raises(self, fn, *exc):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fn()
        except (exc or (Exception,)) as e:
            return e
        return None

    def check_raises(self, fn, label, *exc):
        self.check(self.raises(fn, *exc) is not None, label)

    def implies(self, a, b):
        return self.Or(self.Not(a), b)

    def all(self, xs):
        return self.And(*list(xs))

    def any(self, xs):
        return self.Or(*list(xs))

    def same_array(self, a, b, tol=None):
        """equal shapes and elementwise equal (inf/nan aware)"""
        if tuple(a.shape) != tuple(b.shape):
            return False
        return self.all(self.close(x, y, tol) for x, y in zip(self.flat(a), self.flat(b)))

    def exact_array(self, a, b):
        return self.same_array(a, b, 0)


class ConCtx(Ctx):
    """replay against the real package"""

    def __init__(self, inputs):
        self.inputs = inputs
        self.np = _np
        self.labels = {}

    def mod(self, name):
        return importlib.import_module("maMDP" + ("." + name if name else ""))

    def mpl(self, name):
        return importlib.import_module("matplotlib" + ("." + name if name else ""))

    def unclear(self, why):
        """the code does something this harness cannot judge"""
        raise Skip(why)

    def _arr(self, o, k):
        return o.astype({"f": float, "i": _np.int64, "b": bool}[k])

    def _get(self, name, lo, hi, default):
        if name in self.inputs:
            v = self.inputs[name]
        else:
            v = default
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip(name)
        return v

    def real(self, name, lo=-100, hi=100):
        d = 0.0 if (lo is None or lo <= 0) and (hi is None or hi >= 0) else float(lo if lo is not None else hi)
        return float(self._get(name, lo, hi, d))

    def int(self, name, lo, hi):
        return int(self._get(name, lo, hi, lo if lo is not None else 0))

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def bit(self, name, kind="f"):
        b = self.bool(name)
        return float(b) if kind == "f" else int(b)

    def assume(self, c):
        if not bool(c):
            raise Skip("assume")

    def check(self, c, label):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not bool(c):
            raise CheckFailed(label)

    def reach(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def exists(self, *labels):
        pass

    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not bool(x)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def close(self, a, b, tol=None):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        if tol == 0:
            tol = 1e-9
        t = TOL_CON if tol is None else tol * (TOL_CON / TOL_SYM)
        return abs(a - b) <= t * max(1.0, abs(b))

    def le(self, a, b, tol=None):
        t = TOL_CON if tol is None else tol
        return float(a) <= float(b) + t

    def eq(self, a, b):
        return bool(a == b)

    def isnan(self, x):
        return bool(_np.isnan(x))

    def isneginf(self, x):
        return bool(_np.isneginf(x))

    def isfin(self, x):
        return bool(_np.isfinite(x))

    def flat(self, a):
        return list(_np.asarray(a).reshape(-1))

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def peek(self, rng):
        """the uniform value the generator (or the numpy.random module) will produce next"""
        import copy
        if rng is _np.random:
            o = getattr(_np.random.random, "__self__", None)
            if o is None or not hasattr(o, "_s"):
                st = _np.random.get_state()
                u = _np.random.random()
                _np.random.set_state(st)
                return float(u)
            rng = o
        if hasattr(rng, "_s"):
            return copy.copy(rng._s).unit()
        return float(copy.deepcopy(rng).random())

    def fresh_real(self, name):
        """auxiliary unknown (symbolic mode only)"""
        raise RuntimeError("fresh_real in concrete mode")


def make_sym_ctx():
    from . import core, arr, loader
    from .core import SymInt, SymReal, SymBool, cond_of, mkbool, band, bor, bnot, as_real, z3bool
    from .snp import snp
    import z3

    class SymCtx(Ctx):
        symbolic = True
        np = snp

        @property
        def ex(self):
            return core.cur()

        def mod(self, name):
            return loader.load("maMDP" + ("." + name if name else ""))

        def mpl(self, name):
            return loader._shim("matplotlib" + ("." + name if name else ""))

        def unclear(self, why):
            raise core.EngineLimit(why)

        def _arr(self, o, k):
            return arr.SArr(o, k).recast(k)

        def real(self, name, lo=-100, hi=100):
            return SymReal(self.ex.fresh_input(name, "r", lo, hi), np=False)

        def int(self, name, lo, hi):
            if lo is not None and lo == hi:
                return lo
            return SymInt(self.ex.fresh_input(name, "i", lo, hi))

        def bool(self, name):
            return SymBool(self.ex.fresh_input(name, "b", None, None))

        def bit(self, name, kind="f"):
            t = self.ex.fresh_input(name, "b", None, None)
            if kind == "f":
                return SymReal(z3.If(t, z3.RealVal(1), z3.RealVal(0)))
            return SymInt(z3.If(t, z3.IntVal(1), z3.IntVal(0)), True)

        def assume(self, c):
            self.ex.assume(c)

        def check(self, c, label):
            self.ex.check(c, label)

        def exists(self, *labels):
            """each of these labels must be reached for some random draw (use only where nothing else is symbolic)"""
            self.ex.required = getattr(self.ex, "required", set()) | set(labels)

        def reach(self, label):
            self.ex.labels[label] = self.ex.labels.get(label, 0) + 1

        def And(self, *xs):
            return mkbool(band(*[cond_of(x) for x in xs]))

        def Or(self, *xs):
            return mkbool(bor(*[cond_of(x) for x in xs]))

        def Not(self, x):
            return mkbool(bnot(cond_of(x)))

        def ite(self, c, a, b):
            return core.ite(c, a, b)

        def close(self, a, b, tol=None):
            if not core.is_sym(a) and not core.is_sym(b):
                a, b = float(a), float(b)
                if math.isnan(a) or math.isnan(b):
                    return math.isnan(a) and math.isnan(b)
                if math.isinf(a) or math.isinf(b):
                    return a == b
                return abs(a - b) <= max(TOL_SYM if tol is None else tol, 1e-9) * max(1.0, abs(b))
            a, b = as_real(a), as_real(b)
            t = TOL_SYM if tol is None else tol
            d = a.t - b.t
            if t == 0:
                fin = d == 0
            elif core.is_num(b.t):
                lim = core.rv(t * max(1.0, abs(float(core.numval(b.t)))))
                fin = z3.And(d <= lim, -d <= lim)
            else:
                lim = z3.RealVal(str(core.Fraction(repr(t)))) * z3.If(b.t >= 1, b.t, z3.If(b.t <= -1, -b.t, z3.RealVal(1)))
                fin = z3.And(d <= lim, -d <= lim)
            c = bor(band(a.nan, b.nan), band(a.pi, b.pi), band(a.ni, b.ni), band(a.fin(), b.fin(), fin))
            return mkbool(c)

        def le(self, a, b, tol=None):
            t = TOL_SYM if tol is None else tol
            return mkbool(core.r_le(a, core.r_add(b, t) if t else b))

        def eq(self, a, b):
            r = a == b
            return mkbool(cond_of(r))

        def isnan(self, x):
            return mkbool(core._isnan_c(x))

        def isneginf(self, x):
            return mkbool(as_real(x).ni)

        def isfin(self, x):
            return mkbool(as_real(x).fin())

        def flat(self, a):
            return list(arr.arr0(a).a.flat)

        def exp(self, x):
            return core.s_exp(x) if core.is_sym(x) else math.exp(x)

        def log(self, x):
            return core.s_log(x) if core.is_sym(x) else math.log(x)

        def peek(self, rng):
            import copy
            return copy.copy(rng._s).unit()

        def fresh_real(self, name):
            return SymReal(z3.Real("__aux_" + name))

        def lemma(self, c):
            self.ex.lemma(z3bool(cond_of(c)))
    return SymCtx()
