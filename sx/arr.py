"""Symbolic arrays.

``SArr`` stands in for numpy.ndarray while the code under test is executed symbolically.  The storage is
an object ndarray (so that reshapes, slices and transposes alias exactly as numpy's views do); the
elements are numpy scalars while concrete and Sym values otherwise; ``kind`` is the logical dtype.
Whenever every operand is concrete the real numpy function is called on native arrays, so concrete
sub-computations are numpy's own.
"""
import operator
import numpy as _np
import z3
from . import core
from .core import (Sym, SymBool, SymInt, SymReal, is_sym, cond_of, mkbool, ite, s_bin, band, bor, bnot, kind as skind)

ORDER = "bif"
NPT = {"b": _np.bool_, "i": _np.int64, "f": _np.float64, "O": object}
DT = {k: _np.dtype(v) for k, v in NPT.items()}


def kind_of_dtype(d):
    if d is None:
        return "f"
    if d is object:
        return "O"
    nm = getattr(d, "__sx_kind__", None)
    if nm:
        return nm
    try:
        k = _np.dtype(d).kind
    except TypeError:
        return "O"
    return {"f": "f", "i": "i", "u": "i", "b": "b", "O": "O", "U": "O", "S": "O", "c": "O"}.get(k, "O")


def cast_scalar(x, k):
    """value of x when stored in an array of kind k"""
    if k == "O":
        return x
    if is_sym(x):
        kx = skind(x)
        if kx == k:
            if isinstance(x, SymInt) and not x.np:
                return SymInt(x.t, True)
            if isinstance(x, SymReal) and not x.np:
                return SymReal(x.t, x.nan, x.pi, x.ni)
            return x
        if k == "f":
            r = core.as_real(x)
            return core.mkreal(r.t, r.nan, r.pi, r.ni)
        if k == "i":
            r = core.trunc(x)
            return SymInt(r.t, True) if isinstance(r, SymInt) else _np.int64(r)
        return mkbool(cond_of(x))
    if isinstance(x, SArr):
        if x.a.size == 1:
            return cast_scalar(x.a.reshape(-1)[0], k)
        raise ValueError("setting an array element with a sequence.")
    return NPT[k](x)


def np_scalar(x):
    """python/numpy/sym scalar -> element"""
    if is_sym(x):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return _np.bool_(x)
    if isinstance(x, (int, _np.integer)):
        return _np.int64(x)
    if isinstance(x, (float, _np.floating)):
        return _np.float64(x)
    return x


def obj(nd):
    """native ndarray -> object ndarray holding numpy scalars"""
    if nd.dtype == object:
        return nd
    if nd.dtype.kind in "iu" and nd.dtype != _np.int64:
        nd = nd.astype(_np.int64)
    if nd.dtype.kind == "f" and nd.dtype != _np.float64:
        nd = nd.astype(_np.float64)
    o = _np.empty(nd.shape, dtype=object)
    fl = o.reshape(-1)
    lst = list(nd.reshape(-1))
    for i, v in enumerate(lst):
        fl[i] = v
    return o


def wrap(nd):
    """native numpy result -> SArr / scalar"""
    if isinstance(nd, _np.ndarray):
        return SArr(obj(nd), {"f": "f", "i": "i", "u": "i", "b": "b"}.get(nd.dtype.kind, "O"))
    if isinstance(nd, tuple):
        return tuple(wrap(x) for x in nd)
    if isinstance(nd, list):
        return [wrap(x) for x in nd]
    return nd


def has_sym(o):
    for x in o.flat:
        if isinstance(x, Sym):
            return True
    return False


def infer_kind(o):
    k = "b"
    for x in o.flat:
        kx = skind(x)
        if kx is None:
            return "O"
        if ORDER.index(kx) > ORDER.index(k):
            k = kx
    return k if o.size else "f"


def arr0(x):
    """anything array-like -> SArr (no copy when it already is one)"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, _np.ndarray):
        return wrap(x) if x.dtype != object else SArr(x, infer_kind(x))
    if is_sym(x) or isinstance(x, (int, float, bool, _np.generic, str, type(None))):
        o = _np.empty((), dtype=object)
        o[()] = np_scalar(x)
        return SArr(o, skind(x) or "O")
    if isinstance(x, (list, tuple, range)):
        items = list(x)
        if not items:
            return SArr(_np.empty((0,), dtype=object), "f")
        subs = [arr0(i) for i in items]
        shp = subs[0].a.shape
        if any(s.a.shape != shp for s in subs):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        o = _np.empty((len(subs),) + shp, dtype=object)
        ks = [s.kind for s in subs]
        k = "O" if "O" in ks else max(ks, key=ORDER.index)
        for i, s in enumerate(subs):
            if shp == ():
                o[i] = s.a[()]
            else:
                o[i, ...] = s.a
        return SArr(o, k).recast(k)
    if hasattr(x, "__iter__") and not isinstance(x, (str, bytes, dict, set)):
        try:
            return arr0(list(x))
        except TypeError:
            pass
    o = _np.empty((), dtype=object)
    o[()] = x
    return SArr(o, "O")


def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    a = arr0(x)
    if isinstance(x, SArr) and copy:
        a = x.copy()
    if dtype is not None:
        k = kind_of_dtype(dtype)
        if k != a.kind:
            a = a.astype(dtype)
    if ndmin and a.ndim < ndmin:
        a = SArr(a.a.reshape((1,) * (ndmin - a.ndim) + a.a.shape), a.kind)
    return a


def asarray(x, dtype=None, order=None):
    if isinstance(x, SArr) and (dtype is None or kind_of_dtype(dtype) == x.kind):
        return x
    return array(x, dtype, copy=False)


# --------------------------------------------------------------------------------------------------
# elementwise operations
# --------------------------------------------------------------------------------------------------
CMP = ("lt", "le", "gt", "ge", "eq", "ne")
PYOP = dict(add=operator.add, sub=operator.sub, mul=operator.mul, div=operator.truediv, floordiv=operator.floordiv,
            mod=operator.mod, pow=operator.pow, lt=operator.lt, le=operator.le, gt=operator.gt, ge=operator.ge,
            eq=operator.eq, ne=operator.ne, xor=operator.xor, lshift=operator.lshift, rshift=operator.rshift)
PYOP["and"] = operator.and_
PYOP["or"] = operator.or_
NPF = dict(add=_np.add, sub=_np.subtract, mul=_np.multiply, div=_np.true_divide, floordiv=_np.floor_divide,
           mod=_np.mod, pow=_np.power, lt=_np.less, le=_np.less_equal, gt=_np.greater, ge=_np.greater_equal,
           eq=_np.equal, ne=_np.not_equal, xor=_np.bitwise_xor, lshift=_np.left_shift, rshift=_np.right_shift,
           max=_np.maximum, min=_np.minimum)
NPF["and"] = _np.bitwise_and
NPF["or"] = _np.bitwise_or
NPF["land"] = _np.logical_and
NPF["lor"] = _np.logical_or
NPF["fmax"] = _np.fmax
NPF["fmin"] = _np.fmin


def result_kind(op, ka, kb):
    if op in CMP or op in ("land", "lor"):
        return "b"
    if "O" in (ka, kb):
        return "O"
    k = max((ka, kb), key=ORDER.index)
    if op == "div":
        return "f"
    if op in ("floordiv", "mod", "pow") and k == "b":
        return "i"
    return k


def scal2(op, x, y):
    if not is_sym(x) and not is_sym(y):
        with _np.errstate(all="ignore"):
            return NPF[op](x, y) if skind(x) and skind(y) else PYOP[op](x, y)
    if op == "land":
        return mkbool(band(cond_of(x), cond_of(y)))
    if op == "lor":
        return mkbool(bor(cond_of(x), cond_of(y)))
    if op in ("fmax", "fmin"):
        r = s_bin(op[1:], x, y)
        return ite(core._isnan_c(x), y, ite(core._isnan_c(y), x, r))
    if skind(x) == "b" and skind(y) == "b" and op in ("add", "mul"):
        return scal2("lor" if op == "add" else "land", x, y)
    r = s_bin(op, _npflag(x), _npflag(y))
    if r is NotImplemented:
        if op == "eq":
            return _np.bool_(False)
        if op == "ne":
            return _np.bool_(True)
        raise TypeError("unsupported operand type(s) for %s" % op)
    return r


def _npflag(x):
    """array elements follow numpy's (non-raising) arithmetic"""
    if isinstance(x, SymInt) and not x.np:
        return SymInt(x.t, True)
    if isinstance(x, SymReal) and not x.np:
        return SymReal(x.t, x.nan, x.pi, x.ni)
    if is_sym(x):
        return x
    return np_scalar(x)


def native(a):
    """SArr with no symbolic element -> native ndarray, else None"""
    if has_sym(a.a):
        return None
    if a.kind == "O":
        return a.a
    try:
        return a.a.astype(DT[a.kind])
    except (TypeError, ValueError):
        return None


def elementwise2(op, a, b, out=None):
    sa, sb = not isinstance(a, SArr), not isinstance(b, SArr)
    if (a is None or isinstance(a, str) or b is None or isinstance(b, str)) and op in ("eq", "ne"):
        other = b if (a is None or isinstance(a, str)) else a
        if isinstance(other, SArr):
            r = _np.empty(other.shape, dtype=object)
            for i in _np.ndindex(*other.shape):
                x, y = (other.a[i], b) if other is a else (a, other.a[i])
                r[i] = _np.bool_((x == y) if op == "eq" else (x != y))
            return SArr(r, "b")
    A, B = arr0(a), arr0(b)
    k = result_kind(op, A.kind, B.kind)
    na, nb = native(A), native(B)
    if na is not None and nb is not None and A.kind != "O" and B.kind != "O":
        x = a if sa and isinstance(a, (int, float, bool)) else na
        y = b if sb and isinstance(b, (int, float, bool)) else nb
        with _np.errstate(all="ignore"):
            res = NPF[op](x, y)
        res = wrap(res) if isinstance(res, _np.ndarray) else res
    else:
        bc = _np.broadcast(A.a, B.a)
        o = _np.empty(bc.shape, dtype=object)
        fl = o.reshape(-1)
        for i, (x, y) in enumerate(bc):
            r = scal2(op, x, y)
            fl[i] = cast_scalar(r, k) if k != "O" else r
        if op == "pow" and k == "f" and o.size:
            pass
        res = SArr(o, k) if bc.shape != () else o[()]
    return finish(res, out)


def finish(res, out):
    if out is None:
        return res
    if isinstance(out, tuple):
        out = out[0]
    if isinstance(res, SArr):
        same_kind(res.kind, out.kind)
        if res.shape != out.shape:
            raise ValueError("non-broadcastable output operand")
        out[...] = res
    else:
        same_kind(skind(res), out.kind)
        out[...] = res
    return out


def same_kind(src, dst):
    if "O" in (src, dst):
        return
    if ORDER.index(src) > ORDER.index(dst):
        raise TypeError("Cannot cast ufunc output from kind %r to kind %r with casting rule 'same_kind'" % (src, dst))


def map1(f, a, k, nf=None, out=None, where=True):
    """unary elementwise; nf is the native numpy function"""
    if not isinstance(a, (SArr, list, tuple, _np.ndarray)):
        if not is_sym(a):
            with _np.errstate(all="ignore"):
                r = wrap(nf(a)) if nf is not None else f(a)
        else:
            r = f(_npflag(a))
        return finish(r, out)
    A = arr0(a)
    n = native(A)
    if n is not None and nf is not None and A.kind != "O":
        with _np.errstate(all="ignore"):
            r = nf(n)
        return finish(wrap(r) if isinstance(r, _np.ndarray) else r, out)
    kk = k(A.kind) if callable(k) else k
    o = _np.empty(A.shape, dtype=object)
    fl = o.reshape(-1)
    for i, x in enumerate(A.a.flat):
        if is_sym(x) or nf is None:
            r = f(x)
        else:
            with _np.errstate(all="ignore"):
                r = nf(x)
        fl[i] = cast_scalar(r, kk)
    return finish(SArr(o, kk) if A.shape != () else o[()], out)


# --------------------------------------------------------------------------------------------------
# indexing
# --------------------------------------------------------------------------------------------------
def conc_index(k):
    """index component with no symbolic part left (forks over the feasible values)"""
    if isinstance(k, SymInt):
        return int(k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, SymReal):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    if isinstance(k, slice):
        return slice(*(None if s is None else operator.index(s) for s in (k.start, k.stop, k.step)))
    if isinstance(k, SArr):
        return conc_array(k)
    if isinstance(k, (list, tuple, range)):
        if len(k) == 0:
            return _np.zeros(0, dtype=int)
        return conc_array(arr0(list(k)))
    return k


def conc_array(k):
    if k.kind == "b":
        out = _np.zeros(k.shape, dtype=bool)
        for i in _np.ndindex(*k.shape):
            out[i] = bool(k.a[i])
        return out if k.shape != () else bool(out[()])
    if k.kind == "i":
        out = _np.zeros(k.shape, dtype=_np.int64)
        for i in _np.ndindex(*k.shape):
            out[i] = int(k.a[i])
        return out
    if k.kind == "f" and k.a.size == 0:
        return _np.zeros(k.shape, dtype=int) if False else _np.zeros(k.shape, dtype=float)
    raise IndexError("arrays used as indices must be of integer (or boolean) type")


def norm_key(key):
    if not isinstance(key, tuple):
        key = (key,)
    return tuple(conc_index(k) for k in key)


def is_mask(k):
    return isinstance(k, SArr) and k.kind == "b" and k.ndim > 0


class SArr:
    """symbolic stand-in for numpy.ndarray"""
    __array_priority__ = 2000.0
    __array_ufunc__ = None
    __slots__ = ("a", "kind", "__weakref__")
    __hash__ = None

    def __init__(self, a, kind):
        self.a, self.kind = a, kind

    # -- metadata
    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a.shape = s

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def dtype(self):
        return DT[self.kind]

    @property
    def T(self):
        return SArr(self.a.T, self.kind)

    @property
    def flat(self):
        return iter(self.a.flat)

    @property
    def base(self):
        return self.a.base

    @property
    def real(self):
        return self

    @property
    def nbytes(self):
        return self.a.size * 8

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self.a)):
            yield self[i]

    def __repr__(self):
        return "<sarr %s %s>" % (self.kind, self.a.shape)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __array__(self, dtype=None, copy=None):
        return realize_array(self, dtype)

    def __bool__(self):
        if self.a.size == 1:
            return bool(self.a.reshape(-1)[0])
        if self.a.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def _one(self):
        if self.a.size != 1:
            raise TypeError("only size-1 arrays can be converted to Python scalars")
        return self.a.reshape(-1)[0]

    def __int__(self):
        return int(self._one())

    def __float__(self):
        return float(self._one())

    def __index__(self):
        if self.a.size != 1 or self.kind not in "ib":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return int(self._one())

    def __contains__(self, x):
        return bool((self == x).any())

    # -- conversions
    def recast(self, k):
        """cast elements in place to kind k (used right after construction)"""
        if k != "O":
            fl = self.a.reshape(-1)
            for i in range(fl.shape[0]):
                x = fl[i]
                if skind(x) != k or not isinstance(x, (Sym, _np.generic)):
                    fl[i] = cast_scalar(x, k)
        self.kind = k
        return self

    def astype(self, d, copy=True, **_):
        k = kind_of_dtype(d)
        n = SArr(self.a.copy(), self.kind)
        if k == self.kind:
            return n
        if k == "O":
            n.kind = "O"
            return n
        fl = n.a.reshape(-1)
        for i in range(fl.shape[0]):
            x = fl[i]
            if k == "i" and not is_sym(x) and skind(x) == "f" and (x != x or x in (_np.inf, -_np.inf)):
                fl[i] = _np.int64(-2 ** 63)      # what numpy produces on x86 for NaN/inf
            else:
                fl[i] = cast_scalar(x, k)
        n.kind = k
        return n

    def copy(self, order=None):
        return SArr(self.a.copy(), self.kind)

    def tolist(self):
        def item(x):
            return x.item() if hasattr(x, "item") else x

        def rec(o):
            if o.ndim == 0:
                return item(o[()])
            return [rec(o[i]) if o.ndim > 1 else item(o[i]) for i in range(o.shape[0])]
        return rec(self.a)

    def item(self, *i):
        x = self.a[i if len(i) != 1 else i[0]] if i else self._one()
        return x.item() if hasattr(x, "item") else x

    def fill(self, v):
        self[...] = v

    # -- indexing
    def _ret(self, r):
        if isinstance(r, _np.ndarray):
            return SArr(r, self.kind)
        return r

    def __getitem__(self, key):
        if isinstance(key, (int, _np.integer)):
            r = self.a[key]
            return SArr(r, self.kind) if self.a.ndim > 1 else r
        key = norm_key(key)
        r = self.a[key]
        if isinstance(r, _np.ndarray) and r.ndim == 0 and Ellipsis not in [k for k in key if not isinstance(k, _np.ndarray)]:
            return r[()]
        return self._ret(r)

    def __setitem__(self, key, value):
        tkey = key if isinstance(key, tuple) else (key,)
        masks = [k for k in tkey if is_mask(k) and has_sym(k.a)]
        if masks and self._masked_set(tkey, value):
            return
        key = norm_key(key)
        if isinstance(value, (SArr, list, tuple, _np.ndarray, range)):
            v = arr0(value)
            tgt_shape = self.a[key].shape if isinstance(self.a[key], _np.ndarray) else ()
            va = v.a
            while va.ndim > len(tgt_shape) and va.shape[0] == 1:
                va = va[0]
            if tgt_shape == () and va.ndim == 0:
                self.a[key] = cast_scalar(va[()], self.kind)
                return
            if tgt_shape == () and va.ndim:
                raise ValueError("setting an array element with a sequence.")
            if v.kind != self.kind:
                n = _np.empty(va.shape, dtype=object)
                nf, vf = n.reshape(-1), list(va.flat)
                for i, x in enumerate(vf):
                    nf[i] = cast_scalar(x, self.kind)
                va = n
            self.a[key] = va
            return
        v = cast_scalar(value, self.kind) if self.kind != "O" else value
        cur = self.a[key]
        if isinstance(cur, _np.ndarray):
            box = _np.empty((), dtype=object)
            box[()] = v
            self.a[key] = box
        else:
            self.a[key] = v

    def _masked_set(self, tkey, value):
        """assignment through symbolic boolean masks of a scalar: if-then-else per element, no forking"""
        if isinstance(value, (SArr, list, tuple)):
            v = arr0(value)
            if v.a.ndim != 0:
                return False
            value = v.a[()]
        if len(tkey) == 1 and tkey[0].ndim == self.a.ndim:
            m = tkey[0]
            if m.shape != self.shape:
                raise IndexError("boolean index did not match indexed array")
            view, conds = self.a, m.a
        else:
            n_none = sum(1 for k in tkey if k is None)
            if n_none or any(isinstance(k, (list, tuple)) or (isinstance(k, SArr) and not is_mask(k) and k.ndim) for k in tkey):
                return False
            if sum(1 for k in tkey if is_mask(k)) != 1 or any(is_mask(k) and k.ndim != 1 for k in tkey):
                return False
            if Ellipsis in [k for k in tkey if not isinstance(k, SArr)]:
                i = [j for j, k in enumerate(tkey) if k is Ellipsis][0]
                tkey = tkey[:i] + (slice(None),) * (self.ndim - len(tkey) + 1) + tkey[i + 1:]
            axis, sel, m = 0, [], None
            for j, k in enumerate(tkey):
                if is_mask(k):
                    m, maxis = k, axis
                    if len(k) != self.a.shape[j]:
                        raise IndexError("boolean index did not match indexed array")
                    sel.append(slice(None))
                    axis += 1
                else:
                    c = conc_index(k)
                    sel.append(c)
                    if isinstance(c, slice):
                        axis += 1
            view = self.a[tuple(sel)]
            shp = [1] * view.ndim
            shp[maxis] = len(m)
            conds = _np.broadcast_to(m.a.reshape(shp), view.shape)
        v = cast_scalar(value, self.kind) if self.kind != "O" else value
        for i in _np.ndindex(*view.shape):
            view[i] = cast_scalar(ite(conds[i], v, view[i]), self.kind)
        return True

    # -- shape manipulation (views where numpy gives views)
    def reshape(self, *shape, order="C", **_):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, SArr)):
            shape = tuple(shape[0])
        shape = tuple(int(s) for s in shape)
        return SArr(self.a.reshape(shape, order=order), self.kind)

    def ravel(self, order="C"):
        return SArr(self.a.ravel(order), self.kind)

    def flatten(self, order="C"):
        return SArr(self.a.flatten(order), self.kind)

    def squeeze(self, axis=None):
        return SArr(self.a.squeeze(axis), self.kind)

    def transpose(self, *axes):
        return SArr(self.a.transpose(*axes), self.kind)

    def swapaxes(self, a, b):
        return SArr(self.a.swapaxes(a, b), self.kind)

    def repeat(self, n, axis=None):
        return SArr(self.a.repeat(conc_index(n) if is_sym(n) or isinstance(n, SArr) else n, axis), self.kind)

    def take(self, idx, axis=None, **_):
        i = conc_index(idx)
        r = self.a.take(i, axis=axis)
        return self._ret(r)

    def diagonal(self, *a):
        return SArr(self.a.diagonal(*a).copy(), self.kind)

    def view(self, *a):
        return SArr(self.a, self.kind)

    def __reduce__(self):
        return (SArr, (self.a, self.kind))


def realize_array(x, dtype=None):
    """Native array of a symbolic one, picking model values (counted under-approximation)."""
    n = native(x)
    if n is None:
        o = _np.empty(x.shape, dtype=object)
        for i in _np.ndindex(*x.shape):
            e = x.a[i]
            o[i] = core.cur().realize(e) if is_sym(e) else e
        n = o.astype(DT[x.kind]) if x.kind != "O" else o
    return n.astype(dtype) if dtype is not None else n


# --------------------------------------------------------------------------------------------------
# reductions
# --------------------------------------------------------------------------------------------------
def lanes(a, axis, keepdims, f, k):
    """apply f(list of elements) along axis"""
    if axis is None:
        r = f(list(a.a.flat))
        if keepdims:
            o = _np.empty((1,) * a.ndim, dtype=object)
            o.reshape(-1)[0] = r
            return SArr(o, k or skind(r))
        return r
    if isinstance(axis, (tuple, list)):
        axes = tuple(int(x) % a.ndim for x in axis)
        rest = [i for i in range(a.ndim) if i not in axes]
        moved = a.a.transpose(rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1])
        r = lanes(SArr(moved, a.kind), -1, False, f, k)
        if keepdims:
            r = r.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
        return r
    axis = int(axis)
    if not -a.ndim <= axis < a.ndim:
        raise _np.AxisError(axis, a.ndim)
    m = _np.moveaxis(a.a, axis, -1)
    o = _np.empty(m.shape[:-1], dtype=object)
    for i in _np.ndindex(*m.shape[:-1]):
        o[i] = f(list(m[i]))
    if m.shape[:-1] == ():
        if keepdims:
            return SArr(_np.expand_dims(o, axis), k or skind(o[()]))
        return o[()]
    kk = k or infer_kind(o)
    if kk != "O":
        for i in _np.ndindex(*o.shape):
            o[i] = cast_scalar(o[i], kk)
    if keepdims:
        o = _np.expand_dims(o, axis)
    return SArr(o, kk)


def reduction(name, symf, kres, empty_ok=False):
    nf = getattr(_np, name)

    def red(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **kw):
        A = arr0(a)
        if is_sym(axis):
            axis = int(axis)
        n = native(A)
        extra = {}
        if initial is not None:
            extra["initial"] = initial
        if where is not None:
            A = A.copy()
            W = _np.broadcast_to(arr0(where).a, A.shape)
            ident = dict(sum=0, prod=1, any=False, all=True, max=initial, min=initial).get(name)
            for i in _np.ndindex(*A.shape):
                A.a[i] = cast_scalar(ite(W[i], A.a[i], cast_scalar(ident, A.kind)), A.kind)
            n = native(A)
        if n is not None and A.kind != "O" and not any(is_sym(v) for v in extra.values()):
            import warnings
            with _np.errstate(all="ignore"), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                kk = dict(keepdims=keepdims, **extra) if keepdims or extra else {}
                r = nf(n, axis=axis, **kk)
            r = wrap(r)
        else:
            f = symf if initial is None else (lambda xs: symf([initial] + xs))
            r = lanes(A, axis, keepdims, f, kres(A.kind) if callable(kres) else kres)
        if dtype is not None:
            k = kind_of_dtype(dtype)
            r = r.astype(dtype) if isinstance(r, SArr) else cast_scalar(r, k)
        return finish(r, out)
    red.__name__ = name
    return red


def _fold(op):
    def f(xs):
        if not xs:
            raise ValueError("zero-size array to reduction operation which has no identity")
        r = xs[0]
        for x in xs[1:]:
            r = scal2(op, r, x)
        return r
    return f


def _sum(xs):
    r = None
    for x in xs:
        if skind(x) == "b":
            x = x.as_int() if isinstance(x, SymBool) else _np.int64(x)
        if not is_sym(x) and x == 0:
            if r is None:
                r = x
            continue
        r = x if r is None or (not is_sym(r) and r == 0) else scal2("add", r, x)
    return _np.float64(0) if r is None else r


def _prod(xs):
    r = None
    for x in xs:
        if skind(x) == "b":
            x = x.as_int() if isinstance(x, SymBool) else _np.int64(x)
        r = x if r is None else scal2("mul", r, x)
    return _np.float64(1) if r is None else r


def _argbest(op):
    def f(xs):
        if not xs:
            raise ValueError("attempt to get argmax of an empty sequence")
        best, idx = xs[0], _np.int64(0)
        for i, x in enumerate(xs[1:], 1):
            c = bor(cond_of(scal2(op, x, best)), band(core._isnan_c(x), bnot(core._isnan_c(best))))
            best = ite(c, x, best)
            idx = ite(c, _np.int64(i), idx)
        return idx
    return f


def _nan_filtered(f, empty):
    def g(xs):
        out = []
        for x in xs:
            c = core._isnan_c(x)
            if not isinstance(c, bool):
                c = core.cur().branch(c)
            if not c:
                out.append(x if not isinstance(x, SymReal) else SymReal(x.t, False, x.pi, x.ni))
        if not out:
            return empty()
        return f(out)
    return g


def _nansum(xs):
    """no forking: NaN entries count as 0"""
    out = []
    for x in xs:
        c = core._isnan_c(x)
        if c is True:
            continue
        if c is False:
            out.append(x)
        else:
            out.append(ite(c, _np.float64(0), SymReal(x.t, False, x.pi, x.ni)))
    return _sum(out) if out else _np.float64(0)


def _nanmean(xs):
    cs = [core._isnan_c(x) for x in xs]
    cnt = _sum([mkbool(bnot(c)) for c in cs])
    s = _nansum(xs)
    if not is_sym(cnt) and cnt == 0:
        return _np.float64(_np.nan)
    return scal2("div", s, cnt)


def _mean(xs):
    if not xs:
        return _np.float64(_np.nan)
    return scal2("div", _sum(xs), _np.int64(len(xs)))


def _var(xs):
    m = _mean(xs)
    return _mean([scal2("mul", scal2("sub", x, m), scal2("sub", x, m)) for x in xs])


def _std(xs):
    v = _var(xs)
    return core.s_sqrt(v) if is_sym(v) else _np.sqrt(v)


def _median(xs):
    xs = sort_list(xs)
    n = len(xs)
    return xs[n // 2] if n % 2 else scal2("div", scal2("add", xs[n // 2 - 1], xs[n // 2]), _np.float64(2))


def sort_list(xs):
    """sorting network by min/max: exact, no forking"""
    xs = list(xs)
    n = len(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            xs[j], xs[j + 1] = scal2("min", a, b), scal2("max", a, b)
    return xs


def argsort_list(xs):
    """stable argsort, forking on comparisons"""
    idx = []
    for i in range(len(xs)):
        j = len(idx)
        while j > 0 and bool(scal2("lt", xs[i], xs[idx[j - 1]])):
            j -= 1
        idx.insert(j, i)
    return idx


RED = {
    "sum": reduction("sum", _sum, lambda k: "i" if k == "b" else k),
    "prod": reduction("prod", _prod, lambda k: "i" if k == "b" else k),
    "max": reduction("max", _fold("max"), lambda k: k),
    "min": reduction("min", _fold("min"), lambda k: k),
    "any": reduction("any", lambda xs: mkbool(bor(*[cond_of(x) for x in xs])), "b"),
    "all": reduction("all", lambda xs: mkbool(band(*[cond_of(x) for x in xs])), "b"),
    "mean": reduction("mean", _mean, "f"),
    "var": reduction("var", _var, "f"),
    "std": reduction("std", _std, "f"),
    "median": reduction("median", _median, "f"),
    "argmax": reduction("argmax", _argbest("gt"), "i"),
    "argmin": reduction("argmin", _argbest("lt"), "i"),
    "nansum": reduction("nansum", _nansum, lambda k: "i" if k == "b" else k),
    "nanmean": reduction("nanmean", _nanmean, "f"),
    "nanmax": reduction("nanmax", _nan_filtered(_fold("max"), lambda: _np.float64(_np.nan)), lambda k: k),
    "nanmin": reduction("nanmin", _nan_filtered(_fold("min"), lambda: _np.float64(_np.nan)), lambda k: k),
    "count_nonzero": reduction("count_nonzero", lambda xs: _sum([mkbool(cond_of(x)) for x in xs]), "i"),
}


def ptp(a, axis=None):
    return RED["max"](a, axis=axis) - RED["min"](a, axis=axis)


def cumop(op, nf):
    def f(a, axis=None, dtype=None, out=None):
        A = arr0(a)
        n = native(A)
        if n is not None and A.kind != "O":
            return finish(wrap(nf(n, axis=axis)), out)
        if axis is None:
            A, axis = A.ravel(), 0
        k = "i" if A.kind == "b" else A.kind
        m = _np.moveaxis(A.a, axis, -1)
        o = _np.empty(m.shape, dtype=object)
        for i in _np.ndindex(*m.shape[:-1]):
            acc = None
            for j in range(m.shape[-1]):
                x = cast_scalar(m[i + (j,)], k)
                acc = x if acc is None else scal2(op, acc, x)
                o[i + (j,)] = acc
        return finish(SArr(_np.moveaxis(o, -1, axis), k), out)
    return f


cumsum, cumprod = cumop("add", _np.cumsum), cumop("mul", _np.cumprod)


def dot(a, b, out=None):
    if not isinstance(a, (SArr, list, tuple)) or not isinstance(b, (SArr, list, tuple)):
        return elementwise2("mul", a, b) if isinstance(a, SArr) or isinstance(b, SArr) else a * b
    A, B = arr0(a), arr0(b)
    na, nb = native(A), native(B)
    if na is not None and nb is not None:
        return finish(wrap(_np.dot(na, nb)), out)
    if A.ndim == 0 or B.ndim == 0:
        return elementwise2("mul", A, B)
    k = result_kind("mul", A.kind, B.kind)
    if A.shape[-1] != B.shape[-2 if B.ndim > 1 else 0]:
        raise ValueError("shapes %s and %s not aligned" % (A.shape, B.shape))
    bm = B.a if B.ndim == 1 else _np.moveaxis(B.a, -2, -1)     # (..., n)
    la, lb = A.a.shape[:-1], bm.shape[:-1]
    o = _np.empty(la + lb, dtype=object)
    for i in _np.ndindex(*la):
        for j in _np.ndindex(*lb):
            o[i + j] = cast_scalar(dot1(A.a[i], bm[j]), k)
    if o.shape == ():
        return finish(o[()], out)
    return finish(SArr(o, k), out)


def dot1(xs, ys):
    terms = []
    for x, y in zip(xs, ys):
        if not is_sym(x) and not is_sym(y):
            with _np.errstate(all="ignore"):
                terms.append(x * y if skind(x) != "b" else _np.int64(x) * y)
        else:
            terms.append(_mul0(x, y))
    return _sum(terms)


def _mul0(x, y):
    """x*y; a concrete 0 factor with a plainly finite partner is 0"""
    for u, v in ((x, y), (y, x)):
        if not is_sym(u) and u == 0 and (not isinstance(v, SymReal) or v.plain()):
            return _np.float64(0.0)
    return scal2("mul", x, y)


def matmul(a, b, out=None):
    A, B = arr0(a), arr0(b)
    if A.ndim <= 2 and B.ndim <= 2:
        return dot(A, B, out)
    na, nb = native(A), native(B)
    if na is not None and nb is not None:
        return wrap(_np.matmul(na, nb))
    if A.ndim == 3 and B.ndim == 1:
        return dot(A, B)
    if A.ndim == 3 and B.ndim == 3:
        return stack([dot(A[i], B[i]) for i in range(A.shape[0])])
    if A.ndim == 3 and B.ndim == 2:
        return stack([dot(A[i], B) for i in range(A.shape[0])])
    if A.ndim == 2 and B.ndim == 3:
        return stack([dot(A, B[i]) for i in range(B.shape[0])])
    raise NotImplementedError("matmul")


def stack(xs, axis=0):
    xs = [arr0(x) for x in xs]
    ks = [x.kind for x in xs]
    k = "O" if "O" in ks else max(ks, key=ORDER.index)
    return SArr(_np.stack([x.a for x in xs], axis), k).recast(k)


def concatenate(xs, axis=0):
    xs = [arr0(x) for x in xs]
    ks = [x.kind for x in xs]
    k = "O" if "O" in ks else max(ks, key=ORDER.index)
    return SArr(_np.concatenate([x.a for x in xs], axis), k).recast(k)


# -- operators ---------------------------------------------------------------------------------------
def _install():
    names = dict(add="add", sub="sub", mul="mul", truediv="div", floordiv="floordiv", mod="mod", pow="pow", lshift="lshift",
                 rshift="rshift", xor="xor")
    names["and"] = "and"
    names["or"] = "or"

    def ok(o):
        return isinstance(o, (SArr, list, tuple, range, _np.ndarray)) or skind(o) is not None

    for py, op in names.items():
        def f(self, o, op=op):
            return elementwise2(op, self, o) if ok(o) else NotImplemented

        def r(self, o, op=op):
            return elementwise2(op, o, self) if ok(o) else NotImplemented

        def i(self, o, op=op):
            if not ok(o):
                return NotImplemented
            return elementwise2(op, self, o, out=self)
        setattr(SArr, "__%s__" % py, f)
        setattr(SArr, "__r%s__" % py, r)
        setattr(SArr, "__i%s__" % py, i)
    for op in CMP:
        def c(self, o, op=op):
            if not ok(o) and not (o is None or isinstance(o, str)):
                return NotImplemented
            return elementwise2(op, self, o)
        setattr(SArr, "__%s__" % op, c)
    SArr.__matmul__ = lambda s, o: matmul(s, o)
    SArr.__rmatmul__ = lambda s, o: matmul(o, s)
    SArr.__neg__ = lambda s: map1(lambda x: -x, s, s.kind, _np.negative)
    SArr.__pos__ = lambda s: s.copy()
    SArr.__abs__ = lambda s: map1(abs, s, s.kind, _np.abs)
    SArr.__invert__ = lambda s: map1(lambda x: ~x, s, s.kind, _np.invert)
    for n, f in RED.items():
        if n.startswith("nan") or n in ("median", "count_nonzero"):
            continue

        def m(self, axis=None, *a, f=f, **k):
            return f(self, axis, *a, **k)
        setattr(SArr, n, m)
    SArr.ptp = ptp
    SArr.cumsum = cumsum
    SArr.cumprod = cumprod
    SArr.dot = lambda s, o: dot(s, o)
    SArr.nonzero = lambda s: nonzero(s)
    SArr.round = lambda s, n=0: map1(lambda x: round(x, n), s, s.kind, lambda v: _np.round(v, n))

    def clip(self, lo=None, hi=None, out=None):
        r = self
        if lo is not None:
            r = elementwise2("max", r, lo)
        if hi is not None:
            r = elementwise2("min", r, hi)
        return finish(r, out)
    SArr.clip = clip

    def sort(self, axis=-1, **_):
        m = _np.moveaxis(self.a, axis, -1)
        for i in _np.ndindex(*m.shape[:-1]):
            m[i][:] = sort_list(list(m[i]))
    SArr.sort = sort

    def argsort(self, axis=-1, **_):
        return lanes_list(self, axis, argsort_list)
    SArr.argsort = argsort

    def put(self, idx, v):
        self.a.reshape(-1)[conc_index(idx)] = v
    SArr.put = put


def lanes_list(A, axis, f):
    m = _np.moveaxis(A.a, axis, -1)
    o = _np.empty(m.shape, dtype=object)
    for i in _np.ndindex(*m.shape[:-1]):
        for j, v in enumerate(f(list(m[i]))):
            o[i + (j,)] = _np.int64(v)
    return SArr(_np.moveaxis(o, -1, axis), "i")


def nonzero(a):
    """positions of true elements: forks over every symbolic element"""
    A = arr0(a)
    m = _np.zeros(A.shape, dtype=bool)
    for i in _np.ndindex(*A.shape):
        x = A.a[i]
        m[i] = bool(mkbool(cond_of(x))) if is_sym(x) else bool(x)
    return tuple(wrap(x) for x in _np.nonzero(m))


_install()
