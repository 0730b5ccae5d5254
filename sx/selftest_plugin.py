"""pytest plugin: runs the repository's own tests through the symbolic interpreter's stand-ins (concrete values).
Usage: see tools/selftest.sh.  Shows that the stand-in numpy behaves like numpy on everything the tests exercise."""
import os, sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as _np
from sx import loader, core, arr, snp as S


class RealRandom:
    def __init__(self, r):
        self._r = r

    def __getattr__(self, n):
        f = getattr(self._r, n)
        if n in ("default_rng", "RandomState"):
            return lambda *a, **k: RealRandom(f(*a, **k))

        def g(*a, **k):
            nat = lambda s: arr.native(s)
            return arr.wrap(f(*S._conv(a, nat), **S._conv(k, nat)))
        return g if callable(f) else f


S.snp.random = RealRandom(_np.random)
core._CUR = core.Explorer()
TESTS = os.environ["SX_TESTS"]
_find = loader.Finder.find_spec


def find_spec(self, name, path=None, target=None):
    fn = os.path.join(TESTS, *name.split(".")) + ".py"
    if name.split(".")[-1].startswith("test_") and os.path.exists(os.path.join(TESTS, name.split(".")[-1] + ".py")):
        import importlib.util
        return importlib.util.spec_from_loader(name, self, origin=os.path.join(TESTS, name.split(".")[-1] + ".py"))
    return _find(self, name, path, target)


loader.Finder.find_spec = find_spec
loader.install()
