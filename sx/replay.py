"""Concrete replay against the real package in /repo (real numpy, real numba):  python -m sx.replay FILE.json
FILE: {"property", "harness", "job", "index", "params", "runs": [{inputs}, ...], "scripted": bool}.
Prints one JSON line with the outcome of each run."""
import contextlib
import io
import importlib
import json
import os
import sys
import traceback
import warnings
import zlib


class ScriptStream:
    def __init__(self, tag, inputs):
        self.tag, self.inputs, self.hist, self.k = tag, inputs, 0, 0

    def _get(self, sig, default):
        n = "rng|%s|%d|%08x" % (self.tag, self.k, self.hist)
        self.k += 1
        self.hist = zlib.crc32(sig.encode(), self.hist)
        return self.inputs.get(n, default)

    def unit(self):
        return float(self._get("u", 0.5))

    def index(self, n):
        n = int(n)
        v = int(self._get("i%d" % n, 0))
        return v if v < n else 0

    def gauss(self):
        return float(self._get("g", 0.0))


def scripted(inputs):
    """patch numpy.random so that draws come from the solver's model"""
    import numpy as np
    counters = {}

    def fresh(p):
        counters[p] = counters.get(p, 0) + 1
        return "%s%d" % (p, counters[p])

    class Base:
        def __init__(self, tag):
            self._s = ScriptStream(tag, inputs)

        def _many(self, size, f):
            if size is None:
                return f()
            sh = size if isinstance(size, tuple) else (size,) if not hasattr(size, "__iter__") else tuple(size)
            o = np.array([f() for _ in range(int(np.prod(sh)))])
            return o.reshape(sh)

        def random(self, size=None):
            return self._many(size, lambda: self._s.unit())

        random_sample = random

        def rand(self, *sh):
            return self.random(sh if sh else None)

        def uniform(self, low=0.0, high=1.0, size=None):
            return self._many(size, lambda: low + (high - low) * self._s.unit())

        def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
            lo, hi = (0, low) if high is None else (low, high)
            n = int(hi) - int(lo) + (1 if endpoint else 0)
            if n <= 0:
                raise ValueError("low >= high")
            return self._many(size, lambda: int(lo) + self._s.index(n))

        integers = randint

        def normal(self, loc=0.0, scale=1.0, size=None):
            return self._many(size, lambda: loc + scale * self._s.gauss())

        def randn(self, *sh):
            return self.normal(size=sh if sh else None)

        def standard_normal(self, size=None):
            return self.normal(size=size)

        def permutation(self, x):
            xs = list(range(x)) if np.ndim(x) == 0 else list(x)
            out = []
            while xs:
                out.append(xs.pop(self._s.index(len(xs))))
            return np.array(out)

        def shuffle(self, x):
            out = self.permutation(list(x))
            for i, v in enumerate(out):
                x[i] = v

        def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
            A = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
            if len(A) == 0:
                raise ValueError("'a' cannot be empty unless no samples are taken")
            if p is not None:       # numpy's own validation of p
                _orig_choice(len(A), p=p)
                cdf = np.cumsum(np.asarray(p, dtype=float))
                cdf /= cdf[-1]

            def one():
                if p is None:
                    return A[self._s.index(len(A))]
                return A[int(cdf.searchsorted(self._s.unit(), side="right"))]
            if size is not None and not replace:
                sh = size if isinstance(size, tuple) else (size,)
                pool = list(range(len(A)))
                m = int(np.prod(sh))
                if m > len(A):
                    raise ValueError("Cannot take a larger sample than population when 'replace=False'")
                return A[np.array([pool.pop(self._s.index(len(pool))) for _ in range(m)], dtype=int).reshape(sh)]
            return self._many(size, one)

        def __deepcopy__(self, memo):
            n = type(self).__new__(type(self))
            n.__dict__.update(self.__dict__)
            s = ScriptStream(self._s.tag, inputs)
            s.hist, s.k = self._s.hist, self._s.k
            n._s = s
            return n

    class Gen(Base):
        def __getattribute__(self, n):
            if n in ("randint", "rand", "randn", "random_sample"):
                raise AttributeError(n)
            return super().__getattribute__(n)

    class State(Base):
        def seed(self, s=None):
            self._s = ScriptStream("R%r" % (s,) if s is not None else fresh("U"), inputs)

    g = Base("G")
    saved = {}
    _orig_choice = scripted.orig_choice

    def seed(s=None):
        g._s = ScriptStream("R%r" % (s,) if s is not None else fresh("U"), inputs)
    new = {n: getattr(g, n) for n in ("random", "random_sample", "rand", "uniform", "randint", "normal", "randn", "standard_normal", "permutation",
                                      "shuffle", "choice")}
    new["seed"] = seed
    new["default_rng"] = lambda s=None, **k: s if isinstance(s, Gen) else Gen(
        "D%r" % (k.get("seed", s),) if k.get("seed", s) is not None else fresh("U"))
    new["RandomState"] = lambda s=None, **k: State("R%r" % (k.get("seed", s),) if k.get("seed", s) is not None else fresh("U"))
    for n, f in new.items():
        if n not in scripted.saved:
            scripted.saved[n] = getattr(np.random, n)
        setattr(np.random, n, f)


scripted.saved = {}
scripted.orig_choice = None


def unscript():
    import numpy as np
    for n, f in scripted.saved.items():
        setattr(np.random, n, f)


def run_one(prop, job, params, inputs, is_scripted, seed=0):
    from sx.h import ConCtx, CheckFailed, Skip
    import numpy as np
    ctx = ConCtx(inputs)
    f = prop.func(job)
    if is_scripted:
        scripted(inputs)
    else:
        np.random.seed(seed)
    buf = io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(buf), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            f(ctx, **params)
        return dict(ok=True, labels=sorted(ctx.labels))
    except Skip as e:
        return dict(ok=True, skipped=str(e))
    except CheckFailed as e:
        return dict(ok=False, label=str(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%d in %s" % (x.filename, x.lineno, x.name) for x in tb[-6:]]
        in_harness = bool(tb) and "/verif/" in tb[-1].filename
        return dict(ok=False, label="unexpected %s: %s" % (type(e).__name__, str(e)[:300]), where=where, in_harness=in_harness)
    finally:
        unscript()


def main():
    spec = json.load(open(sys.argv[1]))
    if spec.get("scripted") or spec.get("exists"):
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import numpy as np
    scripted.orig_choice = np.random.choice
    import maMDP
    repo = os.environ.get("VERIF_REPO", "/repo")
    assert os.path.abspath(maMDP.__file__).startswith(repo + "/"), maMDP.__file__
    import pkgutil
    for m in pkgutil.walk_packages(maMDP.__path__, "maMDP."):
        importlib.import_module(m.name)     # before numpy.random is patched
    mod = importlib.import_module("harness." + spec["harness"])
    out = []
    if spec.get("exists"):
        # the solver found no draw with this outcome: does any of many seeded runs of the real code produce it?
        n, seen = 400, set()
        for i in range(n):
            r = run_one(mod.P, spec["job"], spec["params"], spec["runs"][0]["inputs"], False, i)
            seen.update(r.get("labels", []))
            if spec["exists"] in seen:
                break
        ok = spec["exists"] in seen
        print("RESULT " + json.dumps([dict(ok=ok) if ok else dict(ok=False, label="never in %d runs: %s" % (n, spec["exists"]))]))
        return
    for r in spec["runs"]:
        job = r.get("job", spec.get("job"))
        params = r.get("params", spec.get("params"))
        out.append(run_one(mod.P, job, params, r["inputs"], spec.get("scripted")))
    print("RESULT " + json.dumps(out))


if __name__ == "__main__":
    main()
