"""Stand-ins for the parts of matplotlib that compute with data (colours and patches); everything else is inert (loader.Rec)."""
import numpy as _np
from . import core, arr
from .arr import arr0
from .snp import snp


def to_rgba(c, alpha=None):
    from matplotlib.colors import to_rgba as real
    if isinstance(c, arr.SArr):
        n = arr.native(c)
        if n is None:
            if c.shape != (4,):
                raise core.EngineLimit("colour with symbolic components")
            return tuple(c[i] for i in range(3)) + ((c[3] if alpha is None else alpha),)
        c = tuple(n)
    if isinstance(c, (tuple, list)) and any(core.is_sym(x) for x in c):
        return tuple(c)[:3] + ((c[3] if len(c) == 4 else 1.0) if alpha is None else alpha,)
    return tuple(float(x) for x in real(c, alpha))


def _rgba_array(x, channels):
    """array of x's shape + (4,): channels(x) per entry"""
    if not isinstance(x, arr.SArr) and _np.ndim(x) == 0:
        return tuple(channels(x))
    x = arr0(x)
    o = _np.empty(tuple(x.shape) + (4,), dtype=object)
    for i in _np.ndindex(*x.shape):
        o[i] = channels(x[i])
    return arr.SArr(o, "f").recast("f")


class Normalize:
    def __init__(self, vmin=None, vmax=None, clip=False):
        self.vmin, self.vmax, self.clip = vmin, vmax, clip

    def __call__(self, x, clip=None):
        if self.vmin is None or self.vmax is None:
            raise core.EngineLimit("autoscaled Normalize")
        r = (arr0(x) if not core.is_sym(x) else x) - self.vmin
        r = r / (self.vmax - self.vmin)
        return snp.clip(r, 0, 1) if (self.clip if clip is None else clip) else r


class Cmap:
    """a named colour map: an arbitrary injective map of [0, 1], here the identity on every channel"""

    def __call__(self, x, alpha=None, bytes=False):
        return _rgba_array(x, lambda v: [v, v, v, 1.0 if alpha is None else alpha])


class Single(Cmap):
    def __init__(self, colour):
        self.c = to_rgba(colour)

    def __call__(self, x, alpha=None, bytes=False):
        return _rgba_array(x, lambda v: list(self.c))


class LinearSegmentedColormap:
    @staticmethod
    def from_list(name, colors, N=256, gamma=1.0):
        cs = [to_rgba(c) for c in colors]
        if len(set(cs)) != 1:
            raise core.EngineLimit("colour map with several colours")
        return Single(cs[0])


class ListedColormap(Cmap):
    def __init__(self, colors, name="", N=None):
        cs = [to_rgba(c) for c in colors]
        if len(set(cs)) != 1:
            raise core.EngineLimit("colour map with several colours")
        self.c = cs[0]
    __call__ = Single.__call__


def tab10(i, alpha=None):
    import matplotlib
    return tuple(float(x) for x in matplotlib.colormaps["tab10"](int(i)))


class RegularPolygon:
    def __init__(self, xy, numVertices=None, radius=5, orientation=0, *, facecolor=None, alpha=None, **k):
        self.xy, self.radius, self.numvertices, self.orientation, self.kw = tuple(xy), radius, numVertices, orientation, k
        c = facecolor if facecolor is not None else k.get("fc", k.get("color"))
        self.face = None if c is None else to_rgba(c, alpha)

    def get_facecolor(self):
        return self.face


class CmReg:
    tab10 = staticmethod(tab10)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Cmap()

    def get_cmap(self, name=None, *a):
        return Cmap()

    def __getitem__(self, n):
        return tab10 if n == "tab10" else Cmap()


def get_cmap(name=None, *a, **k):
    return name if callable(name) else tab10 if name == "tab10" else Cmap()


def install(mod, name):
    """put the stand-ins on the inert module `name`"""
    if name == "matplotlib":
        mod.cm, mod.colormaps = CmReg(), CmReg()
    elif name == "matplotlib.cm":
        mod.tab10, mod.get_cmap = tab10, get_cmap
    elif name == "matplotlib.pyplot":
        mod.get_cmap, mod.cm = get_cmap, CmReg()
    elif name == "matplotlib.colors":
        mod.Normalize, mod.LinearSegmentedColormap, mod.ListedColormap, mod.to_rgba = Normalize, LinearSegmentedColormap, ListedColormap, to_rgba
    elif name == "matplotlib.patches":
        mod.RegularPolygon = RegularPolygon
    return mod
