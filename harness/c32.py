"""C32: plots.  The axes handed to the plotting functions record what is drawn; colours and patches come from matplotlib (stand-ins while symbolic)."""
import math
from sx.h import Prop
from harness.util import NAMES, table_algorithm

P = Prop("C32")
P.bounds = ["square grids 1x3, 2x3, 3x2 and hexagonal grids 2x2, 3x2, 2x3 with every wall layout (quick: walls and features as solver variables), one to three features with arbitrary values in [0, 1], "
            "none to two agents at every position, trajectories of one to four arbitrary states, arbitrary state values"]
P.assumptions = ["what matplotlib does with the images, patches, markers, arrows and texts it is given is not part of the check: an image entry [row, column] is taken to appear at x = column, y = row",
                 "named colour maps are injective (modelled by the identity)"]
COL = [(1.0, 0.0, 0.0, 1.0), (0.0, 1.0, 0.0, 1.0), (0.0, 0.0, 1.0, 1.0)]
WALL = (0.25, 0.5, 0.75, 1.0)


class Inert:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Inert()

    def __call__(self, *a, **k):
        return Inert()

    def __iter__(self):
        return iter(())


class Ax(Inert):
    def __init__(self):
        self.images, self.patches, self.points, self.arrows, self.texts = [], [], [], [], []

    def imshow(self, X, *a, **k):
        self.images.append((X.copy(), k))

    def add_patch(self, p):
        self.patches.append(p)
        return p

    add_artist = add_patch

    def scatter(self, x, y, *a, **k):
        self.points.append((x, y, k))

    def arrow(self, x, y, dx, dy, *a, **k):
        self.arrows.append((x, y, dx, dy))

    def text(self, x, y, s, *a, **k):
        self.texts.append((x, y, s))


def model(ctx, kind, shape, nf, agents=0, walls=True):
    """features, walls (arrays of the caller), the environment or None, and the model"""
    M, E, A, np = ctx.mod("mdp"), ctx.mod("environments"), ctx.mod("agents"), ctx.np
    shape = tuple(shape)
    n = shape[0] * shape[1]
    f = ctx.reals("f", (nf, n), 0, 1)
    w = ctx.bits("w", n) if walls else np.zeros(n)
    mdp = getattr(M, kind + "GridMDP")(features=f.copy(), walls=w.copy(), shape=shape)
    pos = [ctx.state("p%d" % i, n) for i in range(agents)]
    env = None
    if agents:
        env = E.Environment(mdp, {A.Agent(NAMES[i], algorithm=table_algorithm(ctx, np.zeros((n, mdp.n_actions)), values=ctx.reals("v", n, -5, 5))): (pos[i], [0.0] * (nf + agents), []) for i in range(agents)})
        mdp = env.mdp
    return f, w, pos, env, mdp


def layers_square(ctx, ax, shape, layers, label):
    """layers: (values per state, rgb, alpha) in drawing order"""
    W, H = shape
    if not ax.images:
        ctx.unclear("no image drawn")
    ctx.check(len(ax.images) == len(layers), "one layer per feature and one for the walls")
    for (X, kw), (vals, rgb, alpha) in zip(ax.images, layers):
        ctx.check(tuple(X.shape) == (H, W, 4), label + ": as wide and as high as the grid")
        ctx.check(ctx.close(kw.get("alpha", 1), alpha), label + ": its own transparency")
        for x in range(W):
            for y in range(H):
                ctx.check(ctx.close(X[y, x, 3], vals[x * H + y]), label + ": each cell shows its own state")
                if rgb is not None:
                    for c in range(3):
                        ctx.check(ctx.close(X[y, x, c], rgb[c]), label + ": its own colour")


def positions(ctx, mdp, n):
    return [tuple(mdp.state_to_position(s)) for s in range(n)]


def layers_hex(ctx, ax, mdp, n, layers, label):
    if not ax.patches:
        ctx.unclear("no patches drawn")
    pos = positions(ctx, mdp, n)
    for vals, rgb, alpha in layers:
        mine = [p for p in ax.patches if all(abs(float(a) - b) < 1e-6 for a, b in zip(p.get_facecolor()[:3], rgb))]
        ctx.check(len(mine) == n, label + ": one cell per state in its own colour")
        left = list(mine)
        for s in range(n):
            at = [p for p in left if abs(float(p.xy[0]) - float(pos[s][0])) < 1e-6 and abs(float(p.xy[1]) - float(pos[s][1])) < 1e-6]
            ctx.check(len(at) == 1, label + ": exactly one cell at each state's position")
            ctx.check(ctx.close(at[0].get_facecolor()[3], vals[s] * alpha), label + ": each cell shows its own state")


def maps(ctx, kind, shape, nf, agents):
    f, w, pos, env, mdp = model(ctx, kind, shape, nf, agents)
    shape = tuple(shape)
    n = shape[0] * shape[1]
    before = mdp.features.copy(), mdp.walls.copy(), mdp.sas.copy()
    ax = Ax()
    alphas = [0.25, 0.5, 1.0][:nf]
    if env is None:
        got = mdp.plot(colours=COL[:nf], alphas=alphas, wall_colour=WALL, ax=ax)
    else:
        got = env.plot(colours=COL[:nf], alphas=alphas, mdp_plotting_kwargs=dict(wall_colour=WALL), ax=ax)
    ctx.check(got is ax, "returns the axes")
    layers = [(f[i], COL[i], alphas[i]) for i in range(nf)] + [(w, WALL, 1)]
    if kind == "Square":
        layers_square(ctx, ax, shape, layers, "feature map")
    else:
        layers_hex(ctx, ax, mdp, n, layers, "feature map")
    ctx.check(len(ax.points) == agents, "one marker per agent")
    for i in range(agents):
        p = mdp.state_to_position(pos[i])
        ctx.check(ctx.And(ctx.close(ax.points[i][0], p[0]), ctx.close(ax.points[i][1], p[1])), "agents at their own state")
    ctx.check(ctx.And(ctx.exact_array(mdp.features, before[0]), ctx.exact_array(mdp.walls, before[1]), ctx.exact_array(mdp.sas, before[2])), "plotting changes nothing")


@P.job(quick=[dict(shape=(2, 3), nf=1, agents=0), dict(shape=(3, 2), nf=2, agents=1), dict(shape=(1, 3), nf=3, agents=2)], thorough=[dict(shape=(4, 3), nf=3, agents=2), dict(shape=(3, 1), nf=2, agents=0)])
def square(ctx, shape, nf, agents):
    maps(ctx, "Square", shape, nf, agents)


@P.job(quick=[dict(shape=(2, 2), nf=1, agents=0), dict(shape=(3, 2), nf=2, agents=1), dict(shape=(2, 3), nf=1, agents=2)], thorough=[dict(shape=(3, 4), nf=3, agents=2)])
def hexagonal(ctx, shape, nf, agents):
    maps(ctx, "Hex", shape, nf, agents)


@P.job(quick=[dict(kind="Square", shape=(2, 3)), dict(kind="Square", shape=(3, 2)), dict(kind="Square", shape=(3, 3))] + [dict(kind="Hex", shape=s) for s in ((2, 2), (3, 3), (5, 2), (2, 5), (1, 4), (4, 1))],
       thorough=[dict(kind="Hex", shape=s) for s in ((6, 6), (7, 4))])
def geometry(ctx, kind, shape):
    """cells one move apart are at one distance, all others further; positions do not coincide"""
    M, np = ctx.mod("mdp"), ctx.np
    shape = tuple(shape)
    n = shape[0] * shape[1]
    mdp = getattr(M, kind + "GridMDP")(features=np.zeros((1, n)), shape=shape)
    mdp.plot(ax=Ax())
    pos = [tuple(float(c) for c in p) for p in positions(ctx, mdp, n)]
    a = ctx.state("a", n)
    near = [math.dist(pos[a], pos[t]) for t in range(n) if t != a and any(float(mdp.sas[a, k, t]) > 0 for k in range(mdp.n_actions))]
    far = [math.dist(pos[a], pos[t]) for t in range(n) if t != a and not any(float(mdp.sas[a, k, t]) > 0 for k in range(mdp.n_actions))]
    unit = 1.0 if kind == "Square" else math.sqrt(3)
    ctx.check(all(abs(d - unit) < 1e-6 for d in near), "cells one move apart are at one distance")
    ctx.check(all(d > unit * 1.3 for d in far), "other cells are further away")
    if kind == "Square":
        ctx.check(pos[a] == tuple(float(x) for x in mdp.state_to_idx(a)), "square cells at their grid coordinates")


@P.job(quick=[dict(kind="Square", shape=(2, 3), m=3), dict(kind="Hex", shape=(2, 3), m=3), dict(kind="Square", shape=(3, 2), m=1), dict(kind="Hex", shape=(3, 2), m=2)], thorough=[dict(kind="Hex", shape=(3, 3), m=4)])
def trajectory(ctx, kind, shape, m):
    M, E, A, np = ctx.mod("mdp"), ctx.mod("environments"), ctx.mod("agents"), ctx.np
    shape = tuple(shape)
    n = shape[0] * shape[1]
    mdp = getattr(M, kind + "GridMDP")(features=np.zeros((1, n)), shape=shape)
    env = E.Environment(mdp, {A.Agent("a"): (0, [0.0, 0.0], [])})
    t = [ctx.state("t%d" % i, n) for i in range(m)]
    env.plot(ax=Ax())
    pos = positions(ctx, mdp, n)
    for via in (env, mdp):
        ax = Ax()
        via.plot_trajectory(list(t), ax)
        if m > 1 and not ax.arrows:
            ctx.unclear("no arrows drawn")
        ctx.check(len(ax.arrows) == m - 1, "one arrow per move")
        for i, (x, y, dx, dy) in enumerate(ax.arrows):
            ctx.check(ctx.And(ctx.close(x, pos[t[i]][0]), ctx.close(y, pos[t[i]][1])), "arrows start at the state left")
            ctx.check(ctx.And(ctx.close(x + dx, pos[t[i + 1]][0]), ctx.close(y + dy, pos[t[i + 1]][1])), "arrows end at the state reached")
        ax = Ax()
        via.plot_sequence(list(t), ax)
        if not ax.texts:
            ctx.unclear("no text drawn")
        ctx.check([s for _, _, s in ax.texts] == [str(i + 1) for i in range(m)], "steps numbered in order")
        for i, (x, y, _) in enumerate(ax.texts):
            ctx.check(abs(float(x) - float(pos[t[i]][0])) < 0.5 and abs(float(y) - float(pos[t[i]][1])) < 0.5, "numbers at their states")


@P.job(quick=[dict(kind="Square", shape=(2, 3)), dict(kind="Square", shape=(3, 1)), dict(kind="Hex", shape=(2, 2)), dict(kind="Hex", shape=(3, 2))], thorough=[dict(kind="Square", shape=(3, 4)), dict(kind="Hex", shape=(3, 3))])
def values(ctx, kind, shape):
    """maps of an agent's state values"""
    np = ctx.np
    f, w, pos, env, mdp = model(ctx, kind, shape, 1, 2, walls=False) if kind == "Square" and tuple(shape) == (3, 1) else model(ctx, kind, shape, 1, 1, walls=False)
    W, H = shape
    n = W * H
    ctx.check_raises(lambda: env.plot_state_values(NAMES[0], ax=Ax()), "values of an agent that is not fitted are an error", AttributeError)
    ctx.check_raises(lambda: env.plot_state_values("zz", ax=Ax()), "unknown agents are an error", ValueError)
    ctx.check_raises(lambda: mdp.plot_state_values(np.zeros((W, H)), ax=Ax()), "values must be one per state, flat", AttributeError)
    env.fit(NAMES[0])
    v = env.agents[NAMES[0]].algorithm.values.copy()
    ctx.assume(ctx.Or(*[v[s] > v[0] + 0.5 for s in range(n)]))
    ax = Ax()
    got = env.plot_state_values(NAMES[0], ax=ax)
    ctx.check(got is ax, "returns the axes")
    ctx.check(ctx.exact_array(env.agents[NAMES[0]].algorithm.values, v), "plotting changes nothing")
    if kind == "Square":
        if not ax.images:
            ctx.unclear("no image drawn")
        ctx.check(len(ax.images) == 1, "one value map")
        X = ax.images[0][0]
        ctx.check(tuple(X.shape) == (H, W), "value map: as wide and as high as the grid")
        for x in range(W):
            for y in range(H):
                ctx.check(ctx.close(X[y, x], v[x * H + y]), "value map: each cell shows its own state")
        return
    if not ax.patches:
        ctx.unclear("no patches drawn")
    cells = [p for p in ax.patches if not (not ctx.symbolic and tuple(p.get_facecolor()) == (0, 0, 0, 0)) and not all(type(c) in (int, float) and c == 0 for c in p.get_facecolor())]
    ps = positions(ctx, mdp, n)
    ctx.check(len(cells) == n, "value map: one cell per state")
    lo, hi = v[0], v[0]
    for s in range(1, n):
        lo, hi = ctx.ite(v[s] < lo, v[s], lo), ctx.ite(v[s] > hi, v[s], hi)
    cmap = ctx.mpl("pyplot").get_cmap("viridis")
    for s in range(n):
        at = [p for p in cells if abs(float(p.xy[0]) - float(ps[s][0])) < 1e-6 and abs(float(p.xy[1]) - float(ps[s][1])) < 1e-6]
        ctx.check(len(at) == 1, "value map: exactly one cell at each state's position")
        c = at[0].get_facecolor()
        e = cmap((v[s] - lo) / (hi - lo))
        if not ctx.symbolic:
            ctx.check(all(abs(a - b) < 0.02 for a, b in zip(c, e)), "value map: each cell shows its own state")
        else:
            ctx.check(ctx.And(*[ctx.close(a, b) for a, b in zip(c, e)]), "value map: each cell shows its own state")


@P.job(quick=[dict(kind="Square", shape=(2, 3)), dict(kind="Hex", shape=(2, 3))])
def agents(ctx, kind, shape):
    """markers follow the agents, with the style given for each"""
    f, w, pos, env, mdp = model(ctx, kind, shape, 1, 2, walls=False)
    n = shape[0] * shape[1]
    to = ctx.state("to", n)
    env.set_agent_position(NAMES[1], to)
    mark, col = [{}, {NAMES[0]: "o"}, {NAMES[1]: "o"}][ctx.state("m", 3)], [{}, {NAMES[1]: "red"}, {NAMES[0]: "red", NAMES[1]: "blue"}][ctx.state("c", 3)]
    ax = Ax()
    env.plot(agent_markers=mark, agent_colours=col, agent_plotting_kwargs=dict(s=7), ax=ax)
    if not ax.points:
        ctx.unclear("no markers drawn")
    ctx.check(len(ax.points) == 2, "one marker per agent")
    for i, at in enumerate((pos[0], to)):
        p = mdp.state_to_position(at)
        x, y, kw = ax.points[i]
        ctx.check(ctx.And(ctx.close(x, p[0]), ctx.close(y, p[1])), "agents at their own state")
        if "marker" in kw:
            ctx.check(kw["marker"] == mark.get(NAMES[i], kw["marker"]) and (kw["marker"] == "o") == (NAMES[i] in mark), "each agent's own marker")
        if "color" in kw:
            ctx.check(kw["color"] == col.get(NAMES[i], "black"), "each agent's own colour")
        ctx.check(kw.get("s") == 7, "further options reach the marker")


P.labels = ["one layer per feature and one for the walls", "feature map: each cell shows its own state", "feature map: its own colour", "feature map: one cell per state in its own colour", "agents at their own state",
            "plotting changes nothing", "cells one move apart are at one distance", "other cells are further away", "arrows start at the state left", "arrows end at the state reached", "steps numbered in order",
            "numbers at their states", "value map: each cell shows its own state", "values of an agent that is not fitted are an error", "each agent's own marker"]
