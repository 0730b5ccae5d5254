"""The ``numpy`` module seen by the code under test while it is executed symbolically."""
import types
import zlib
import warnings
import numpy as _np
import z3
from . import core, arr
from .core import (Sym, SymBool, SymInt, SymReal, is_sym, cond_of, mkbool, ite, band, bor, bnot, kind as skind, EngineLimit)
from .arr import (SArr, arr0, array, asarray, wrap, native, elementwise2, map1, cast_scalar, scal2, kind_of_dtype, RED, finish,
                  conc_index, has_sym, NPT)


# --------------------------------------------------------------------------------------------------
# scalar types: usable as dtype, constructor and in isinstance
# --------------------------------------------------------------------------------------------------
class TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.__real__) or bool(cls.__symtest__(x))

    def __subclasscheck__(cls, sub):
        return issubclass(getattr(sub, "__real__", sub), cls.__real__)

    def __call__(cls, *a, **k):
        return cls.__conv__(*a, **k)

    def __eq__(cls, o):
        if isinstance(o, TypeMeta):
            return cls.__real__ is o.__real__
        if isinstance(o, _np.dtype):
            try:
                return o == _np.dtype(cls.__real__)
            except TypeError:
                return False
        return cls.__real__ is o

    def __hash__(cls):
        return hash(cls.__real__)

    def __repr__(cls):
        return repr(cls.__real__)

    def __getattr__(cls, n):
        if n.startswith("__sx"):
            raise AttributeError(n)
        return getattr(cls.__dict__["__real__"], n)


def mktype(real, kind, symtest, conv):
    return TypeMeta(real.__name__, (), dict(__real__=real, __sx_kind__=kind, __symtest__=staticmethod(symtest),
                                            __conv__=staticmethod(conv)))


def _np_ctor(real, kind):
    def conv(x=0, *a):
        if is_sym(x):
            return cast_scalar(x, kind)
        if isinstance(x, (SArr, list, tuple)):
            r = arr0(x).astype(real)
            return r if r.ndim else r.a[()]
        return real(x)
    return conv


_isint = lambda x: isinstance(x, SymInt) and x.np
_isflt = lambda x: isinstance(x, SymReal) and x.np
_isbl = lambda x: isinstance(x, SymBool)


def _py_int(x=0, *a, **k):
    if is_sym(x):
        return core.trunc(x)
    if isinstance(x, SArr):
        return _py_int(x._one())
    return int(x, *a, **k)


def _py_float(x=0.0):
    if isinstance(x, SArr):
        return _py_float(x._one())
    if is_sym(x):
        r = core.as_real(x)
        return SymReal(r.t, r.nan, r.pi, r.ni, False)
    return float(x)


def _py_bool(x=False):
    if is_sym(x):
        return mkbool(cond_of(x))
    return bool(x)


s_int = mktype(int, "i", lambda x: isinstance(x, SymInt) and not x.np, _py_int)
s_float = mktype(float, "f", lambda x: isinstance(x, SymReal), _py_float)
s_bool = mktype(bool, "b", _isbl, _py_bool)


# --------------------------------------------------------------------------------------------------
# ufuncs
# --------------------------------------------------------------------------------------------------
class UF2:
    def __init__(self, name, op):
        self.__name__, self.op, self.nf = name, op, getattr(_np, name)

    def __call__(self, a, b, out=None, where=None, dtype=None, **k):
        isarr = any(isinstance(x, (SArr, list, tuple, _np.ndarray)) for x in (a, b))
        if not isarr:
            r = scal2(self.op, a, b) if is_sym(a) or is_sym(b) else self.nf(a, b)
            if where is not None:
                return _where_out(r, out, where)
            return finish(r, out)
        r = elementwise2(self.op, a, b)
        if dtype is not None:
            r = r.astype(dtype)
        if where is not None:
            return _where_out(r, out, where)
        return finish(r, out)

    def reduce(self, a, axis=0, initial=None, **k):
        f = {"add": "sum", "mul": "prod", "max": "max", "min": "min", "land": "all", "lor": "any", "and": "all", "or": "any"}.get(self.op)
        if f and not (self.op in ("and", "or") and arr0(a).kind != "b"):
            return RED[f](a, axis=axis, **({"initial": initial} if initial is not None else {}))
        return arr.lanes(arr0(a), axis, False, arr._fold(self.op), None)

    def accumulate(self, a, axis=0):
        return arr.cumop(self.op, self.nf.accumulate)(a, axis=axis)

    def outer(self, a, b):
        A, B = arr0(a), arr0(b)
        return self(A.reshape(A.shape + (1,) * B.ndim), B)

    def at(self, a, idx, b):
        i = conc_index(idx)
        t = arr0(_np.arange(a.size).reshape(a.shape)[i])
        flat, vals = a.a.reshape(-1), _np.broadcast_to(arr0(b).a, t.shape)
        for p in _np.ndindex(*t.shape):
            j = int(t.a[p])
            flat[j] = cast_scalar(scal2(self.op, flat[j], vals[p]), a.kind)


def _where_out(r, out, where):
    if isinstance(out, tuple):
        out = out[0]
    if out is None:
        out = zeros(r.shape if isinstance(r, SArr) else ())
    m, rr = _np.broadcast_to(arr0(where).a, out.shape), _np.broadcast_to(arr0(r).a, out.shape)
    for i in _np.ndindex(*out.shape):
        out.a[i] = cast_scalar(ite(m[i], rr[i], out.a[i]), out.kind)
    return out


class UF1:
    def __init__(self, name, f, k):
        self.__name__, self.f, self.k, self.nf = name, f, k, getattr(_np, name)

    def __call__(self, a, out=None, where=None, dtype=None, **kw):
        r = map1(self.f, a, self.k, self.nf)
        if where is not None:
            return _where_out(r, out, where)
        return finish(r, out)


def _flag(get):
    return lambda x: mkbool(get(x)) if isinstance(x, SymReal) else _np.bool_(False)


def _sign(x):
    one = _np.float64 if skind(x) == "f" else _np.int64
    return ite(cond_of(scal2("gt", x, 0)), one(1), ite(cond_of(scal2("lt", x, 0)), one(-1), one(0)))


def _expm1(x):
    return scal2("sub", core.s_exp(x), _np.float64(1))


def _log1p(x):
    return core.s_log(scal2("add", x, _np.float64(1)))


def _log_base(c):
    return lambda x: scal2("div", core.s_log(x), _np.float64(_np.log(c)))


FK = lambda k: "f"
UFUNCS = {}
for _n, _f, _k in [
    ("exp", core.s_exp, "f"), ("log", core.s_log, "f"), ("sqrt", core.s_sqrt, "f"), ("expm1", _expm1, "f"), ("log1p", _log1p, "f"),
    ("log2", _log_base(2), "f"), ("log10", _log_base(10), "f"),
    ("abs", abs, lambda k: k), ("absolute", abs, lambda k: k), ("fabs", lambda x: abs(core.as_real(x)), "f"),
    ("negative", lambda x: -x, lambda k: k), ("positive", lambda x: x, lambda k: k),
    ("floor", lambda x: x if isinstance(x, SymInt) else core.floor_real(x), "f"), ("ceil", lambda x: x if isinstance(x, SymInt) else core.ceil_real(x), "f"),
    ("trunc", lambda x: core.as_real(core.trunc(x)), "f"), ("fix", lambda x: core.as_real(core.trunc(x)), "f"),
    ("rint", lambda x: core.as_real(core.round_half_even(x)), "f"),
    ("sign", _sign, lambda k: k), ("square", lambda x: scal2("mul", x, x), lambda k: k),
    ("reciprocal", lambda x: scal2("div", _np.float64(1), x), "f"),
    ("isnan", _flag(lambda x: x.nan), "b"), ("isinf", _flag(lambda x: bor(x.pi, x.ni)), "b"),
    ("isposinf", _flag(lambda x: x.pi), "b"), ("isneginf", _flag(lambda x: x.ni), "b"),
    ("isfinite", lambda x: mkbool(x.fin()) if isinstance(x, SymReal) else _np.bool_(True), "b"),
    ("logical_not", lambda x: mkbool(bnot(cond_of(x))), "b"),
    ("invert", lambda x: ~x, lambda k: k), ("bitwise_not", lambda x: ~x, lambda k: k),
    ("conjugate", lambda x: x, lambda k: k), ("real", lambda x: x, lambda k: k),
]:
    UFUNCS[_n] = UF1(_n, _f, _k)
for _n, _op in dict(add="add", subtract="sub", multiply="mul", divide="div", true_divide="div", floor_divide="floordiv",
                    mod="mod", remainder="mod", power="pow", float_power="pow", less="lt", less_equal="le", greater="gt", greater_equal="ge",
                    equal="eq", not_equal="ne", bitwise_and="and", bitwise_or="or", bitwise_xor="xor", left_shift="lshift",
                    right_shift="rshift", maximum="max", minimum="min", logical_and="land", logical_or="lor",
                    fmax="fmax", fmin="fmin").items():
    UFUNCS[_n] = UF2(_n, _op)


def logical_xor(a, b, **k):
    return UFUNCS["not_equal"](UFUNCS["not_equal"](a, 0), UFUNCS["not_equal"](b, 0))


# --------------------------------------------------------------------------------------------------
# functions
# --------------------------------------------------------------------------------------------------
F = {}


def reg(f, *names):
    F[f.__name__.rstrip("_")] = f
    for n in names:
        F[n] = f
    return f


def _shape(s):
    if isinstance(s, (SArr, list, tuple)):
        return tuple(int(i) for i in s)
    return (int(s),) if is_sym(s) or not isinstance(s, _np.ndarray) else tuple(s)


def _filled(shape, k, v):
    o = _np.empty(_shape(shape), dtype=object)
    o.fill(v)
    if o.ndim == 0:
        o[()] = v
    return SArr(o, k)


@reg
def zeros(shape, dtype=float, order=None):
    k = kind_of_dtype(dtype)
    return _filled(shape, k, NPT[k](0) if k != "O" else 0)


@reg
def ones(shape, dtype=float, order=None):
    k = kind_of_dtype(dtype)
    return _filled(shape, k, NPT[k](1) if k != "O" else 1)


@reg
def full(shape, fill_value, dtype=None, order=None):
    k = (arr0(fill_value).kind) if dtype is None else kind_of_dtype(dtype)
    if isinstance(fill_value, (SArr, list, tuple)):
        r = _filled(shape, k, 0)
        r[...] = fill_value
        return r
    return _filled(shape, k, cast_scalar(np_s(fill_value), k))


def np_s(x):
    return arr.np_scalar(x)


F["empty"] = lambda shape, dtype=float, order=None: zeros(shape, dtype)


def _like(v):
    def f(a, fill_value=None, dtype=None, shape=None, order=None, subok=True):
        A = arr0(a)
        k = A.kind if dtype is None else kind_of_dtype(dtype)
        val = fill_value if v is None else v
        return _filled(A.shape if shape is None else shape, k, cast_scalar(np_s(val), k) if k != "O" else val)
    return f


F["zeros_like"] = lambda a, dtype=None, **k: _like(0)(a, dtype=dtype, **k)
F["ones_like"] = lambda a, dtype=None, **k: _like(1)(a, dtype=dtype, **k)
F["empty_like"] = F["zeros_like"]
F["full_like"] = lambda a, v, dtype=None, **k: _like(None)(a, v, dtype=dtype, **k)
F["array"] = array
F["asarray"] = F["asanyarray"] = F["ascontiguousarray"] = asarray
F["copy"] = lambda a, **k: arr0(a).copy()
F.update(RED)
F["amax"], F["amin"] = RED["max"], RED["min"]
F["product"] = RED["prod"]
F["sometrue"], F["alltrue"] = RED["any"], RED["all"]
F["cumsum"], F["cumprod"], F["dot"], F["matmul"] = arr.cumsum, arr.cumprod, arr.dot, arr.matmul
F["stack"], F["concatenate"], F["ptp"], F["nonzero"] = arr.stack, arr.concatenate, arr.ptp, arr.nonzero
F["logical_xor"] = logical_xor


@reg
def where(c, x=None, y=None):
    if x is None and y is None:
        return arr.nonzero(c)
    C, X, Y = arr0(c), arr0(x), arr0(y)
    k = "O" if "O" in (X.kind, Y.kind) else max((X.kind, Y.kind), key=arr.ORDER.index)
    b = _np.broadcast(C.a, X.a, Y.a)
    o = _np.empty(b.shape, dtype=object)
    fl = o.reshape(-1)
    for i, (cc, xx, yy) in enumerate(b):
        r = ite(cond_of(cc), xx, yy) if k != "O" else (xx if bool(cc) else yy)
        fl[i] = cast_scalar(r, k)
    return SArr(o, k)


@reg
def argwhere(a):
    nz = arr.nonzero(a)
    A = arr0(a)
    return wrap(_np.stack([_np.asarray(native(x), dtype=int) for x in nz], axis=-1)) if A.ndim else wrap(_np.zeros((int(bool(A.a[()])), 0), int))


@reg
def flatnonzero(a):
    return arr.nonzero(arr0(a).ravel())[0]


@reg
def isin(a, test, assume_unique=False, invert=False):
    A, T = arr0(a), arr0(test)
    ts = list(T.a.flat)
    o = _np.empty(A.shape, dtype=object)
    for i in _np.ndindex(*A.shape):
        c = bor(*[cond_of(scal2("eq", A.a[i], t)) for t in ts])
        o[i] = mkbool(bnot(c) if invert else c)
    return SArr(o, "b") if A.ndim else o[()]


F["in1d"] = lambda a, t, **k: isin(arr0(a).ravel(), t, **k)


@reg
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    isarr = isinstance(a, (SArr, list, tuple)) or isinstance(b, (SArr, list, tuple))
    A, B = arr0(a), arr0(b)
    bc = _np.broadcast(A.a, B.a)
    o = _np.empty(bc.shape, dtype=object)
    fl = o.reshape(-1)
    for i, (x, y) in enumerate(bc):
        if not is_sym(x) and not is_sym(y):
            fl[i] = _np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=equal_nan)
            continue
        rx, ry = core.as_real(x), core.as_real(y)
        d = abs(core.as_real(core.r_sub(SymReal(rx.t), SymReal(ry.t))))
        lim = core.r_add(atol, core.r_mul(rtol, abs(SymReal(ry.t))))
        c = bor(band(rx.fin(), ry.fin(), core.r_le(d, lim)), band(rx.pi, ry.pi), band(rx.ni, ry.ni))
        if equal_nan:
            c = bor(c, band(rx.nan, ry.nan))
        fl[i] = mkbool(c)
    return SArr(o, "b") if isarr else o[()]


@reg
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return RED["all"](isclose(a, b, rtol, atol, equal_nan))


@reg
def array_equal(a, b, equal_nan=False):
    A, B = arr0(a), arr0(b)
    if A.shape != B.shape:
        return False
    return RED["all"](elementwise2("eq", A, B))


@reg
def searchsorted(a, v, side="left", sorter=None):
    A = arr0(a)
    op = "lt" if side == "left" else "le"

    def one(x):
        return arr._sum([mkbool(cond_of(scal2(op, y, x))) for y in A.a.flat])
    if isinstance(v, (SArr, list, tuple)):
        V = arr0(v)
        o = _np.empty(V.shape, dtype=object)
        for i in _np.ndindex(*V.shape):
            o[i] = cast_scalar(one(V.a[i]), "i")
        return SArr(o, "i")
    return one(v)


@reg
def clip(a, lo=None, hi=None, out=None, a_min=None, a_max=None):
    lo, hi = (a_min if lo is None else lo), (a_max if hi is None else hi)
    r = a
    if lo is not None:
        r = UFUNCS["maximum"](r, lo)
    if hi is not None:
        r = UFUNCS["minimum"](r, hi)
    return finish(r, out)


@reg
def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    big = 1.7976931348623157e308
    pv, nv = (big if posinf is None else posinf), (-big if neginf is None else neginf)

    def f(x):
        if not isinstance(x, SymReal):
            return x
        return ite(x.nan, _np.float64(nan), ite(x.pi, _np.float64(pv), ite(x.ni, _np.float64(nv), SymReal(x.t))))
    r = map1(f, a, lambda k: k, lambda v: _np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf))
    if not copy and isinstance(a, SArr):
        a[...] = r
        return a
    return r


def _round(a, decimals=0, out=None):
    def f(x):
        if isinstance(x, SymInt):
            return x
        if decimals:
            return round(x, decimals)
        return core.as_real(core.round_half_even(x))
    return map1(f, a, lambda k: k, lambda v: _np.round(v, decimals))


F["round"] = F["around"] = F["round_"] = _round


@reg
def sort(a, axis=-1, kind=None, order=None):
    r = arr0(a).copy()
    r.sort(axis)
    return r


@reg
def argsort(a, axis=-1, kind=None, order=None):
    return arr0(a).argsort(axis)


@reg
def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    A = arr0(a)
    n = native(A)
    if n is not None:
        return wrap(_np.unique(n, return_index, return_inverse, return_counts, axis=axis))
    if axis is not None:
        raise EngineLimit("np.unique(axis) on symbolic data")
    vals = list(A.a.flat)
    order = arr.argsort_list(vals)
    groups = []
    for i in order:
        if groups and bool(scal2("eq", vals[groups[-1][0]], vals[i])):
            groups[-1].append(i)
        else:
            groups.append([i])
    res = [SArr(_obj([vals[g[0]] for g in groups]), A.kind)]
    if return_index:
        res.append(wrap(_np.array([min(g) for g in groups], dtype=int)))
    if return_inverse:
        inv = _np.zeros(len(vals), dtype=int)
        for gi, g in enumerate(groups):
            inv[g] = gi
        res.append(wrap(inv))
    if return_counts:
        res.append(wrap(_np.array([len(g) for g in groups], dtype=int)))
    return res[0] if len(res) == 1 else tuple(res)


def _obj(xs):
    o = _np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        o[i] = x
    return o


@reg
def diff(a, n=1, axis=-1):
    A = arr0(a)
    m = SArr(_np.moveaxis(A.a, axis, -1), A.kind)
    for _ in range(n):
        m = m[..., 1:] - m[..., :-1]
    return SArr(_np.moveaxis(m.a, -1, axis), m.kind)


@reg
def outer(a, b, out=None):
    return arr0(a).ravel().reshape(-1, 1) * arr0(b).ravel()


@reg
def average(a, axis=None, weights=None, **k):
    if weights is None:
        return RED["mean"](a, axis=axis)
    W = arr0(weights)
    A = arr0(a)
    if W.ndim == 1 and A.ndim > 1 and axis is not None:
        shp = [1] * A.ndim
        shp[axis] = -1
        W = W.reshape(shp)
    return RED["sum"](A * W, axis=axis) / RED["sum"](W * ones(A.shape), axis=axis)


@reg
def unravel_index(idx, shape, order="C"):
    shape = _shape(shape)
    tot = int(_np.prod(shape))

    def one(i):
        if is_sym(i):
            if bool(mkbool(bor(cond_of(i < 0), cond_of(i >= tot)))):
                raise ValueError("index out of bounds for array with size %d" % tot)
            out = []
            for s in reversed(shape):
                out.append(i % s if s != 1 else _np.int64(0))
                i = i // s
            return tuple(reversed(out))
        return _np.unravel_index(i, shape, order)
    if isinstance(idx, tuple) and len(idx) == 1:
        idx = idx[0]
        r = unravel_index(idx, shape)
        return r
    if isinstance(idx, (SArr, list, tuple)):
        I = arr0(idx)
        if I.kind == "f" and I.size:
            raise TypeError("only int indices permitted")
        outs = [_np.empty(I.shape, dtype=object) for _ in shape]
        for p in _np.ndindex(*I.shape):
            for o, v in zip(outs, one(I.a[p])):
                o[p] = np_s(v)
        return tuple(SArr(o, "i") for o in outs)
    if isinstance(idx, (float, SymReal)):
        raise TypeError("only int indices permitted")
    return one(idx)


@reg
def ravel_multi_index(idx, dims, mode="raise", order="C"):
    dims = _shape(dims)
    parts = list(idx)
    if not any(is_sym(p) or (isinstance(p, SArr)) for p in parts):
        return _np.ravel_multi_index(tuple(parts), dims, mode=mode, order=order)
    if not any(is_sym(p) or (isinstance(p, SArr) and has_sym(p.a)) for p in parts):
        return wrap(_np.ravel_multi_index(tuple(native(p) if isinstance(p, SArr) else p for p in parts), dims, mode=mode, order=order))
    if len(parts) != len(dims):
        raise ValueError("parameter multi_index must be a sequence of length %d" % len(dims))
    if mode != "raise" or order != "C":
        raise EngineLimit("ravel_multi_index mode/order on symbolic data")
    bad = RED["any"](arr0([UFUNCS["logical_or"](p < 0, p >= d) if not isinstance(p, SArr) else RED["any"](elementwise2("lor", p < 0, p >= d))
                           for p, d in zip(parts, dims)]))
    if bool(bad):
        raise ValueError("invalid entry in coordinates array")
    r = parts[0]
    for p, d in zip(parts[1:], dims[1:]):
        r = r * d + p
    return r


@reg
def isscalar(x):
    return is_sym(x) or _np.isscalar(x)


@reg
def ndim(x):
    return arr0(x).ndim


@reg
def shape(x):
    return arr0(x).shape


@reg
def size(x, axis=None):
    a = arr0(x)
    return a.size if axis is None else a.shape[axis]


@reg
def apply_along_axis(f, axis, a, *args, **k):
    A = arr0(a)
    m = SArr(_np.moveaxis(A.a, axis, -1), A.kind)
    outs = {}
    for i in _np.ndindex(*m.shape[:-1]):
        outs[i] = arr0(f(m[i] if i else m, *args, **k))
    first = outs[next(iter(outs))]
    o = _np.empty(m.shape[:-1] + first.shape, dtype=object)
    for i, v in outs.items():
        o[i] = v.a if v.ndim else v.a[()]
    ks = [v.kind for v in outs.values()]
    kk = "O" if "O" in ks else max(ks, key=arr.ORDER.index)
    r = SArr(o, kk).recast(kk)
    if first.ndim == 1:
        r = SArr(_np.moveaxis(r.a, -1, axis), kk)
    return r


class Vectorize:
    def __init__(self, f, otypes=None, **k):
        self.f, self.otypes = f, otypes

    def __call__(self, *args):
        A = [arr0(a) for a in args]
        b = _np.broadcast(*[a.a for a in A]) if len(A) > 1 else None
        shp = b.shape if b is not None else A[0].shape
        its = list(b) if b is not None else [(x,) for x in A[0].a.flat]
        o = _np.empty(shp, dtype=object)
        fl = o.reshape(-1)
        for i, xs in enumerate(its):
            fl[i] = np_s(self.f(*xs))
        k = kind_of_dtype(self.otypes[0]) if self.otypes else arr.infer_kind(o)
        return SArr(o, k).recast(k) if shp != () else o[()]


F["vectorize"] = Vectorize


@reg
def interp(*a, **k):
    return _generic("interp", _np.interp)(*a, **k)


@reg
def einsum(spec, *ops, **k):
    A = [arr0(o) for o in ops]
    ns = [native(a) for a in A]
    if all(n is not None for n in ns):
        return wrap(_np.einsum(spec, *ns))
    ks = max((a.kind for a in A), key=arr.ORDER.index)
    r = _np.einsum(spec, *[a.a for a in A])
    if isinstance(r, _np.ndarray) and r.ndim:
        return SArr(r, ks).recast(ks)
    r = r[()] if isinstance(r, _np.ndarray) else r
    return cast_scalar(r, ks)


STRUCT = set("""reshape ravel transpose moveaxis swapaxes squeeze expand_dims vstack row_stack hstack dstack column_stack tile repeat roll flip fliplr
flipud rot90 atleast_1d atleast_2d atleast_3d broadcast_to diag diagonal take delete insert append triu tril compress block pad
tensordot inner vdot kron trace take_along_axis resize""".split())
SPLIT = {"split", "array_split", "hsplit", "vsplit", "dsplit"}


def _conv(x, f):
    if isinstance(x, SArr):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_conv(i, f) for i in x)
    if isinstance(x, list):
        return [_conv(i, f) for i in x]
    if isinstance(x, dict):
        return {k: _conv(v, f) for k, v in x.items()}
    if isinstance(x, TypeMeta):
        return x.__real__
    return x


def _has_sym_deep(x):
    if is_sym(x):
        return True
    if isinstance(x, SArr):
        return has_sym(x.a)
    if isinstance(x, (list, tuple)):
        return any(_has_sym_deep(i) for i in x)
    if isinstance(x, dict):
        return any(_has_sym_deep(i) for i in x.values())
    return False


def _kinds(x, acc):
    if isinstance(x, SArr):
        acc.append(x.kind)
    elif isinstance(x, (list, tuple)):
        for i in x:
            _kinds(i, acc)
    return acc


def _generic(name, real):
    def f(*a, **k):
        if name in SPLIT:
            A = arr0(a[0])
            rest = tuple(conc_index(x) if is_sym(x) or isinstance(x, (SArr, list)) else x for x in a[1:])
            return [SArr(p, A.kind) for p in real(A.a, *rest, **k)]
        if name in STRUCT:
            first = a[0]
            seq = isinstance(first, (list, tuple)) and any(isinstance(i, (SArr, list, tuple)) for i in first) and name in (
                "vstack", "row_stack", "hstack", "dstack", "column_stack", "block")
            if seq:
                parts = [arr0(i) for i in first]
                args = ([p.a for p in parts],) + a[1:]
                ks = [p.kind for p in parts]
            else:
                n_arr = 2 if name in ("append", "tensordot", "inner", "vdot", "kron") else 1
                parts = [arr0(x) for x in a[:n_arr]]
                ks = [p.kind for p in parts]
                rest = list(a[n_arr:])
                if name == "insert" and len(rest) > 1:
                    v = arr0(rest[1])
                    rest[1] = v.a if v.ndim else v.a[()]
                args = tuple(p.a for p in parts) + tuple(
                    conc_index(x) if is_sym(x) or (isinstance(x, SArr)) else _conv(x, lambda s: s.a) for x in rest)
            k = {kk: (conc_index(v) if is_sym(v) or isinstance(v, SArr) else v) for kk, v in k.items()}
            kk = "O" if "O" in ks else max(ks, key=arr.ORDER.index)
            r = real(*args, **k)
            if isinstance(r, _np.ndarray):
                r = SArr(r, kk)
                if name in ("diag", "triu", "tril", "pad", "insert", "append", "vstack", "row_stack", "hstack", "dstack", "column_stack",
                            "tensordot", "inner", "vdot", "kron", "block"):
                    if name not in ("diag",):
                        r.recast(kk)
                    else:
                        r = SArr(r.a.copy(), kk).recast(kk)
                return r if r.ndim or name.startswith("at") else r.a[()]
            return cast_scalar(r, kk) if skind(r) else r
        if not _has_sym_deep(a) and not _has_sym_deep(k):
            nat = lambda s: native(s)
            with _np.errstate(all="ignore"):
                return wrap(real(*_conv(a, nat), **_conv(k, nat)))
        core.cur().stats.setdefault("realised_calls", {})
        d = core.cur().stats["realised_calls"]
        d[name] = d.get(name, 0) + 1

        def rz(x):
            if is_sym(x):
                return core.cur().realize(x)
            if isinstance(x, SArr):
                return arr.realize_array(x)
            if isinstance(x, (list, tuple)):
                return type(x)(rz(i) for i in x)
            return x
        with _np.errstate(all="ignore"):
            return wrap(real(*[rz(x) for x in a], **{kk: rz(v) for kk, v in k.items()}))
    f.__name__ = name
    return f


# -- linalg ------------------------------------------------------------------------------------------
class Linalg(types.ModuleType):
    LinAlgError = _np.linalg.LinAlgError

    def __init__(self):
        super().__init__("numpy.linalg")

    def norm(self, x, ord=None, axis=None, keepdims=False):
        X = arr0(x)
        n = native(X)
        if n is not None:
            return wrap(_np.linalg.norm(n, ord=ord, axis=axis, keepdims=keepdims))
        if ord in (None, 2, "fro"):
            return UFUNCS["sqrt"](RED["sum"](X * X, axis=axis, keepdims=keepdims))
        if ord == 1:
            return RED["sum"](abs(X), axis=axis)
        if ord == _np.inf:
            return RED["max"](abs(X), axis=axis)
        raise EngineLimit("norm ord")

    def solve(self, a, b):
        A, B = arr0(a), arr0(b)
        na, nb = native(A), native(B)
        if na is not None and nb is not None:
            return wrap(_np.linalg.solve(na, nb))
        if na is not None:
            return arr.dot(wrap(_np.linalg.inv(na)), B)
        return arr.dot(self.inv(A), B)

    def inv(self, a):
        A = arr0(a)
        n = native(A)
        if n is not None:
            return wrap(_np.linalg.inv(n))
        return gauss_inv(A)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _generic("linalg." + n, getattr(_np.linalg, n))


def gauss_inv(A):
    """exact Gauss-Jordan with fresh unknowns:  X with A X = I (assumes A regular)"""
    n = A.shape[0]
    ex = core.cur()
    ex.counters["inv"] = ex.counters.get("inv", 0) + 1
    X = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            X[i, j] = SymReal(z3.Real("__inv%d_%d_%d" % (ex.counters["inv"], i, j)))
    P = arr.dot(A, SArr(X, "f"))
    for i in range(n):
        for j in range(n):
            ex.lemma(core.z3bool(core.r_eq(P.a[i, j], 1.0 if i == j else 0.0)))
    return SArr(X, "f")


# -- random ------------------------------------------------------------------------------------------
class SymStream:
    """nondeterministic stream: every draw is a fresh solver variable (shared by equal seeds with equal histories)"""

    def __init__(self, tag):
        self.tag, self.hist, self.k = tag, 0, 0

    def _name(self, sig):
        n = "rng|%s|%d|%08x" % (self.tag, self.k, self.hist)
        self.k += 1
        self.hist = zlib.crc32(sig.encode(), self.hist)
        return n

    def unit(self):
        t = core.cur().fresh_input(self._name("u"), "r", 0, None)
        core.cur().solver.add(t < 1)
        return SymReal(t)

    def index(self, n):
        n = int(n)
        nm = self._name("i%d" % n)
        if n <= 0:
            raise ValueError("a must be greater than 0 unless no samples are taken")
        if n == 1:
            return _np.int64(0)
        return SymInt(core.cur().fresh_input(nm, "i", 0, n - 1), True)

    def gauss(self):
        return SymReal(core.cur().fresh_input(self._name("g"), "r", -8, 8))


def validate_p(p, n):
    """numpy's checks on the p argument of choice"""
    P = arr0(p).astype(float) if arr0(p).kind != "f" else arr0(p)
    if P.ndim != 1:
        raise ValueError("'p' must be 1-dimensional")
    if len(P) != n:
        raise ValueError("'a' and 'p' must have same size")
    if bool(RED["any"](UFUNCS["isnan"](P))):
        raise ValueError("probabilities contain NaN")
    if bool(RED["any"](P < 0)):
        raise ValueError("probabilities are not non-negative")
    s = RED["sum"](P)
    if bool(mkbool(cond_of(abs(s - 1) > 2e-8))):
        raise ValueError("probabilities do not sum to 1")
    return P


class RandomBase:
    """choice / random / integers over a stream; shared by np.random, RandomState and Generator"""

    def __init__(self, tag):
        self._s = SymStream(tag)

    def _many(self, size, f, k):
        if size is None:
            return f()
        o = _np.empty(_shape(size), dtype=object)
        for i in _np.ndindex(*o.shape):
            o[i] = f()
        return SArr(o, k)

    def random(self, size=None):
        return self._many(size, self._s.unit, "f")

    random_sample = ranf = sample = random

    def rand(self, *shape):
        return self.random(shape if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._many(size, lambda: low + (high - low) * self._s.unit(), "f")

    def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        lo, hi = (0, low) if high is None else (low, high)
        n = int(hi) - int(lo) + (1 if endpoint else 0)
        if n <= 0:
            raise ValueError("low >= high")
        return self._many(size, lambda: self._s.index(n) + int(lo), "i")

    integers = random_integers = randint

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._many(size, lambda: loc + scale * self._s.gauss(), "f")

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *shape):
        return self.normal(size=shape if shape else None)

    def permutation(self, x):
        xs = list(range(int(x))) if not isinstance(x, (SArr, list, tuple)) else list(arr0(x))
        out = []
        while xs:
            out.append(xs.pop(int(self._s.index(len(xs)))))
        return array(out)

    def shuffle(self, x):
        xs = list(x)
        out = []
        while xs:
            out.append(xs.pop(int(self._s.index(len(xs)))))
        for i, v in enumerate(out):
            x[i] = v

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if isinstance(a, (SArr, list, tuple, range)):
            A = arr0(a)
            if A.ndim == 0:
                A, n = None, int(A.a[()])
            else:
                n = len(A)
        else:
            A, n = None, int(a)
        if n <= 0:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        P = validate_p(p, n) if p is not None else None

        def one():
            if P is None:
                i = self._s.index(n)
            else:
                u = self._s.unit()
                cdf = list(arr.cumsum(P).a)
                i = arr._sum([mkbool(cond_of(scal2("ge", scal2("mul", u, cdf[-1]), c))) for c in cdf[:-1]])
                i = cast_scalar(i, "i")
            if A is None:
                return i
            if not is_sym(i):
                return A[int(i)]
            if A.ndim == 1 and A.kind != "O":
                r = A.a[n - 1]
                for j in range(n - 2, -1, -1):
                    r = ite(cond_of(i == j), A.a[j], r)
                return r
            return A[int(i)]
        if size is None:
            return one()
        if not replace:
            m = int(_np.prod(_shape(size)))
            if m > n:
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            if P is not None:
                raise EngineLimit("choice without replacement with p")
            pool, out = list(range(n)), []
            for _ in range(m):
                out.append(pool.pop(int(self._s.index(len(pool)))))
            r = wrap(_np.array(out, dtype=int).reshape(_shape(size)))
            return r if A is None else A[r]
        return self._many(size, one, A.kind if A is not None else "i")

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        if not hasattr(_np.random, n) and not hasattr(_np.random.Generator, n):
            raise AttributeError(n)
        raise EngineLimit("random." + n)


class Generator(RandomBase):
    """numpy Generator (has no randint / rand / seed)"""

    def __getattribute__(self, n):
        if n in ("randint", "rand", "randn", "random_sample", "ranf", "sample", "random_integers"):
            raise AttributeError("'numpy.random._generator.Generator' object has no attribute %r" % n)
        return super().__getattribute__(n)


class RandomState(RandomBase):
    def __getattribute__(self, n):
        if n == "integers":
            raise AttributeError("'numpy.random.mtrand.RandomState' object has no attribute %r" % n)
        return super().__getattribute__(n)

    def seed(self, s=None):
        self._s = SymStream("R%r" % (s,) if s is not None else fresh_tag("U"))


def fresh_tag(p):
    c = core.cur().counters
    c[p] = c.get(p, 0) + 1
    return "%s%d" % (p, c[p])


class RandomModule(RandomBase):
    __name__ = "numpy.random"

    def __init__(self):
        pass

    def __getattribute__(self, n):
        if n == "_s":
            ex = core.cur()
            s = ex.counters.get("__gstream")
            if s is None:
                s = ex.counters["__gstream"] = SymStream("G")
            return s
        if n == "integers":
            raise AttributeError("module 'numpy.random' has no attribute 'integers'")
        return super().__getattribute__(n)

    def seed(self, s=None):
        core.cur().counters["__gstream"] = SymStream("R%r" % (s,) if s is not None else fresh_tag("U"))

    def default_rng(self, seed=None):
        if isinstance(seed, (Generator,)):
            return seed
        return Generator("D%r" % (int(seed) if is_sym(seed) else seed,) if seed is not None else fresh_tag("U"))

    def RandomState(self, seed=None):
        return RandomState("R%r" % (int(seed) if is_sym(seed) else seed,) if seed is not None else fresh_tag("U"))

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle 'module' object")


RandomModule_Generator = Generator


class SNP(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        d = self.__dict__
        d.update(F)
        d.update(UFUNCS)
        d["ndarray"] = SArr
        d["linalg"] = Linalg()
        d["random"] = RandomModule()
        d["random"].Generator = Generator
        for n in ("float64", "float32", "float16", "float_", "double", "single", "longdouble"):
            r = getattr(_np, n)
            d[n] = mktype(r, "f", _isflt, _np_ctor(_np.float64, "f"))
        for n in ("int64", "int32", "int16", "int8", "int_", "intp", "uint8", "uint64", "uint32", "intc", "longlong"):
            r = getattr(_np, n)
            d[n] = mktype(r, "i", _isint, _np_ctor(_np.int64, "i"))
        d["bool_"] = mktype(_np.bool_, "b", _isbl, _np_ctor(_np.bool_, "b"))
        d["integer"] = mktype(_np.integer, "i", _isint, None)
        d["signedinteger"] = mktype(_np.signedinteger, "i", _isint, None)
        d["floating"] = mktype(_np.floating, "f", _isflt, None)
        d["number"] = mktype(_np.number, "f", lambda x: isinstance(x, (SymInt, SymReal)), None)
        d["generic"] = mktype(_np.generic, "O", lambda x: is_sym(x) and getattr(x, "np", True), None)
        d["matrix"] = _np.matrix

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        real = getattr(_np, n)          # AttributeError exactly where the real numpy raises it
        if isinstance(real, type) or not callable(real):
            return real
        f = _generic(n, real)
        self.__dict__[n] = f
        return f


snp = SNP()
