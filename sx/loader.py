"""Loads /repo's maMDP for symbolic execution.

The sources are read from /repo on every run and executed by CPython with a builtins table whose
``__import__`` hands out symbolic stand-ins for numpy, numba, scipy, math, json and inert ones for
matplotlib and fastprogress, and whose int/float/bool accept symbolic values.
"""
import builtins
import importlib
import importlib.abc
import importlib.util
import json as _json
import math as _math
import os
import sys
import types
import numpy as _np
from . import core, arr, snp as S
from .core import is_sym, SymInt, SymReal, SymBool, cond_of, mkbool
from .arr import SArr, arr0
from .snp import snp

REPO = os.environ.get("VERIF_REPO", "/repo")


# -- numba -------------------------------------------------------------------------------------------
def _ident(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k and not isinstance(a[0], str):
        return a[0]
    return lambda f: f


class _Anything:
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Anything()

    def __call__(self, *a, **k):
        return _Anything()

    def __getitem__(self, k):
        return _Anything()


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    m.__path__ = []
    return m


class TypedList(list):
    @classmethod
    def empty_list(cls, *a, **k):
        return cls()


class TypedDict(dict):
    @classmethod
    def empty(cls, *a, **k):
        return cls()


numba = module("numba", njit=_ident, jit=_ident, vectorize=lambda *a, **k: (S.Vectorize if not (a and callable(a[0])) else S.Vectorize(a[0])),
               prange=range, typed=module("numba.typed", List=TypedList, Dict=TypedDict), generated_jit=_ident, objmode=_Anything(),
               types=_Anything(), float64=_Anything(), int64=_Anything(), int32=_Anything(), boolean=_Anything(), literal_unroll=lambda x: x,
               set_num_threads=lambda *a: None, get_num_threads=lambda: 1, stencil=_ident, guvectorize=_ident, __version__="0.68")


# -- matplotlib: calls are recorded, nothing is drawn -------------------------------------------------
class Rec:
    """inert object; logs every call as (dotted name, args, kwargs)"""
    log = []

    def __init__(self, name="mpl"):
        object.__setattr__(self, "_n", name)

    def __getattr__(self, n):
        if n.startswith("__") and n != "__iter__":
            raise AttributeError(n)
        r = Rec(self._n + "." + n)
        object.__setattr__(self, n, r)
        return r

    def __setattr__(self, n, v):
        object.__setattr__(self, n, v)

    def __call__(self, *a, **k):
        Rec.log.append((self._n, a, k))
        last = self._n.rsplit(".", 1)[-1]
        if last == "subplots":
            nr = a[0] if len(a) > 0 else k.get("nrows", 1)
            nc = a[1] if len(a) > 1 else k.get("ncols", 1)
            if int(nr) * int(nc) > 1:
                return Rec("fig"), [Rec("ax") for _ in range(int(nr) * int(nc))]
            return Rec("fig"), Rec("ax")
        return Rec(last if last[:1].isupper() else self._n + "()")

    def __getitem__(self, k):
        return Rec(self._n + "[]")

    def __iter__(self):
        return iter(())

    def __deepcopy__(self, memo):
        return self


class RecModule(types.ModuleType):
    def __init__(self, name):
        super().__init__(name)
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        r = Rec(n)
        setattr(self, n, r)
        return r


# -- math ---------------------------------------------------------------------------------------------
def _m1(nm, f):
    real = getattr(_math, nm)

    def g(x, *a):
        if isinstance(x, SArr):
            x = x._one()
        return f(x, *a) if is_sym(x) else real(x, *a)
    return g


def _mlog(x, base=None):
    if is_sym(x):
        if bool(mkbool(cond_of(x <= 0))):
            raise ValueError("math domain error")
        r = core.s_log(x)
        return r if base is None else r / _math.log(base)
    return _math.log(x) if base is None else _math.log(x, base)


def _mexp(x):
    if is_sym(x):
        r = core.s_exp(x)
        if isinstance(r, SymReal) and r.pi is not False and bool(mkbool(r.pi)):
            raise OverflowError("math range error")
        return r
    return _math.exp(x)


def _msqrt(x):
    if is_sym(x):
        if bool(mkbool(cond_of(x < 0))):
            raise ValueError("math domain error")
        return core.s_sqrt(x)
    return _math.sqrt(x)


class MathModule(types.ModuleType):
    def __getattr__(self, n):
        return getattr(_math, n)


smath = MathModule("math")
smath.__dict__.update(
    floor=_m1("floor", lambda x: core.floor_int(x)), ceil=_m1("ceil", lambda x: SymInt(-core.floor_int(-core.as_real(x)).t)),
    trunc=_m1("trunc", core.trunc), fabs=_m1("fabs", lambda x: abs(core.as_real(x))), isnan=_m1("isnan", lambda x: mkbool(core._isnan_c(x))),
    isinf=_m1("isinf", lambda x: snp.isinf(x)), isfinite=_m1("isfinite", lambda x: snp.isfinite(x)),
    log=_mlog, exp=_mexp, sqrt=_msqrt, pow=lambda a, b: a ** b if is_sym(a) or is_sym(b) else _math.pow(a, b),
    isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: (_math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol) if not (is_sym(a) or is_sym(b)) else
                                                     abs(a - b) <= snp.maximum(rel_tol * snp.maximum(abs(a), abs(b)), abs_tol)),
    hypot=lambda *a: _msqrt(sum(x * x for x in a)) if any(is_sym(x) for x in a) else _math.hypot(*a))


# -- scipy --------------------------------------------------------------------------------------------
def cdist(XA, XB, metric="euclidean", **k):
    A, B = arr0(XA), arr0(XB)
    na, nb = arr.native(A), arr.native(B)
    if na is not None and nb is not None:
        from scipy.spatial.distance import cdist as real
        return arr.wrap(real(na, nb, metric, **k))
    D = A.reshape(A.shape[0], 1, -1) - B.reshape(1, B.shape[0], -1)
    if metric == "euclidean":
        return snp.sqrt((D * D).sum(axis=-1))
    if metric == "cityblock":
        return abs(D).sum(axis=-1)
    if metric == "chebyshev":
        return abs(D).max(axis=-1)
    if metric == "sqeuclidean":
        return (D * D).sum(axis=-1)
    raise core.EngineLimit("cdist metric %s" % metric)


def euclidean(u, v, w=None):
    d = arr0(u) - arr0(v)
    return snp.sqrt((d * d).sum())


def logsumexp(a, axis=None, keepdims=False, b=None, **k):
    m = snp.max(a, axis=axis, keepdims=True)
    e = snp.exp(arr0(a) - m)
    if b is not None:
        e = e * b
    s = snp.log(snp.sum(e, axis=axis, keepdims=True)) + m
    return s if keepdims else (s.squeeze(axis) if axis is not None else s._one())


def sp_softmax(x, axis=None):
    e = snp.exp(arr0(x) - snp.max(x, axis=axis, keepdims=True))
    return e / snp.sum(e, axis=axis, keepdims=True)


scipy_distance = module("scipy.spatial.distance", cdist=cdist, euclidean=euclidean, cityblock=lambda u, v: abs(arr0(u) - arr0(v)).sum(),
                        pdist=None)
scipy_special = module("scipy.special", logsumexp=logsumexp, softmax=sp_softmax, expit=lambda x: 1 / (1 + snp.exp(-x)))


# -- json ---------------------------------------------------------------------------------------------
class JStr(str):
    """JSON text whose symbolic leaves are kept beside the text"""


def _jsonable(o):
    if isinstance(o, dict):
        out = {}
        for k, v in o.items():
            if isinstance(k, (str, int, float)) or k is None:
                out[k if isinstance(k, str) else _json.dumps(k)] = _jsonable(v)
            else:
                raise TypeError("keys must be str, int, float, bool or None, not %s" % type(k).__name__)
        return out
    if isinstance(o, (list, tuple)):
        return [_jsonable(x) for x in o]
    if isinstance(o, (SymInt, SymReal)):
        if isinstance(o, SymInt) and o.np:
            raise TypeError("Object of type int64 is not JSON serializable")
        return o
    if isinstance(o, SymBool):
        return o
    if o is None or isinstance(o, (str, int, float, bool)):
        return _json.loads(_json.dumps(o))
    raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)


def _deepsym(o):
    if isinstance(o, dict):
        return any(_deepsym(v) for v in o.values())
    if isinstance(o, (list, tuple)):
        return any(_deepsym(v) for v in o)
    return is_sym(o)


def jdumps(o, *a, **k):
    if not _deepsym(o):
        _jsonable(o) if not k.get("cls") and not k.get("default") else None
        return _json.dumps(o, *a, **k)
    s = JStr("<json>")
    s.payload = _jsonable(o)
    return s


def jloads(s, *a, **k):
    if isinstance(s, JStr):
        return _jsonable(s.payload)
    return _json.loads(s, *a, **k)


def jdump(o, f, *a, **k):
    f.write(jdumps(o, *a, **k))


sjson = module("json", dumps=jdumps, loads=jloads, dump=jdump, load=lambda f, **k: jloads(f.read()), JSONEncoder=_json.JSONEncoder,
               JSONDecodeError=_json.JSONDecodeError, JSONDecoder=_json.JSONDecoder)

fastprogress = module("fastprogress", progress_bar=lambda it, *a, **k: it, master_bar=lambda it, *a, **k: it)
tqdm = module("tqdm", tqdm=lambda it, *a, **k: it)


def _shim(name):
    root = name.split(".")[0]
    if root == "numpy":
        return {"numpy": snp, "numpy.linalg": snp.linalg, "numpy.random": snp.random}.get(name, snp)
    if root == "numba":
        return {"numba": numba, "numba.typed": numba.typed}.get(name, numba)
    if root == "matplotlib":
        if name not in _MPL:
            from . import mpl
            _MPL[name] = mpl.install(RecModule(name), name)
        return _MPL[name]
    if name == "scipy.spatial.distance":
        return scipy_distance
    if name == "scipy.special":
        return scipy_special
    if name == "scipy.spatial":
        return module("scipy.spatial", distance=scipy_distance)
    if root == "math":
        return smath
    if root == "json":
        return sjson
    if root == "fastprogress":
        return fastprogress
    if root == "tqdm":
        return tqdm
    return None


_MPL = {}


def s_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        m = _shim(name)
        if m is not None:
            if fromlist:
                for f in fromlist:
                    if name == "matplotlib" and f in ("colors", "patches", "pyplot"):
                        setattr(m, f, _shim(name + "." + f))
                return m
            root = _shim(name.split(".")[0])
            if "." in name and root is not None and root is not m:
                setattr(root, name.split(".")[1], _shim(".".join(name.split(".")[:2])))
            return root if root is not None else m
    return builtins.__import__(name, globals, locals, fromlist, level)


def _fold2(better):
    base = builtins.max if better == "max" else builtins.min

    def f(*a, **k):
        if k.get("key") is None:
            xs = list(a[0]) if len(a) == 1 else list(a)
            if any(is_sym(x) for x in xs) and all(core.kind(x) for x in xs):
                r = xs[0]
                for x in xs[1:]:
                    r = core.ite(cond_of(x > r if better == "max" else x < r), x, r)
                return r
            if len(a) == 1:
                if not xs and "default" in k:
                    return k["default"]
                return base(xs)
        return base(*a, **k)
    return f


class STypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __call__(cls, *a, **k):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, SymInt) or type(x) is int:
                return S.s_int if not getattr(x, "np", False) else snp.int64
            if isinstance(x, SymReal) or type(x) is float:
                return S.s_float if not getattr(x, "np", False) else snp.float64
            if isinstance(x, SymBool) or type(x) is bool:
                return S.s_bool
            return type(x)
        return type(*a, **k)


class SType(metaclass=STypeMeta):
    pass


def make_builtins():
    b = dict(vars(builtins))
    b["__import__"] = s_import
    b["int"], b["float"], b["bool"] = S.s_int, S.s_float, S.s_bool
    b["max"], b["min"] = _fold2("max"), _fold2("min")
    b["type"] = SType
    b["print"] = lambda *a, **k: None
    return b


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != "maMDP" and not name.startswith("maMDP."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            fn, pkg = os.path.join(base, "__init__.py"), True
        elif os.path.exists(base + ".py"):
            fn, pkg = base + ".py", False
        elif os.path.isdir(base):
            fn, pkg = None, True
        else:
            return None
        spec = importlib.util.spec_from_loader(name, self, origin=fn, is_package=pkg)
        if pkg:
            spec.submodule_search_locations = [base]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        fn = mod.__spec__.origin
        if fn is None:
            return
        if fn not in _CODE:
            with open(fn) as f:
                _CODE[fn] = compile(f.read(), fn, "exec")
        mod.__file__ = fn
        mod.__dict__["__builtins__"] = make_builtins()
        exec(_CODE[fn], mod.__dict__)


_installed = False
_CODE = {}


def fresh():
    """forget the loaded package: every path starts from freshly executed modules"""
    for n in [n for n in sys.modules if n == "maMDP" or n.startswith("maMDP.")]:
        del sys.modules[n]


def install():
    global _installed
    if not _installed:
        sys.meta_path.insert(0, Finder())
        _installed = True


def load(name):
    install()
    return importlib.import_module(name)


# -- which functions of /repo were executed -----------------------------------------------------------
FUNCS = set()


def start_coverage():
    m = sys.monitoring
    tool = m.COVERAGE_ID
    try:
        m.use_tool_id(tool, "sx")
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(REPO + "/"):
            FUNCS.add("%s:%s" % (code.co_filename[len(REPO) + 1:], code.co_qualname))
        return m.DISABLE
    m.register_callback(tool, m.events.PY_START, start)
    m.set_events(tool, m.events.PY_START)
