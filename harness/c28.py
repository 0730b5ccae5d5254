"""C28: reward learners that count features."""
from sx.h import Prop
from harness.c27 import walk

P = Prop("C28")
P.bounds = ["square and hexagonal grids up to 3x3 with walls and with or without staying put, cyclic and stochastic three-state models; any real feature values in [-3, 3] (non-negative where the line-of-sight learners normalise), up to 3 trajectories of up to 4 states in up to 3 models"]
C = dict


def grid(ctx, kind, shape, feats, walls=None, self_t=False):
    return getattr(ctx.mod("mdp"), kind + "GridMDP")(features=feats, walls=walls, shape=tuple(shape), self_transitions=self_t)


@P.job(quick=[C(lens=(1,), nf=2, ign=[]), C(lens=(3,), nf=2, ign=[1]), C(lens=(2, 3), nf=2, ign=[0], own=True), C(lens=(1, 2, 2), nf=3, ign=[0, 2], own=True), C(lens=(3, 1), nf=1, ign=None), C(lens=(2, 2, 1), nf=2, ign=(1,))],
       thorough=[C(lens=(3, 3), nf=3, ign=[1], own=True)])
def matching(ctx, lens, nf, ign, own=False):
    np, I, M = ctx.np, ctx.mod("algorithms.irl"), ctx.mod("mdp")
    n = 3
    mdps = [M.SquareGridMDP(features=ctx.reals("f%d_" % i, (nf, n), -3, 3), shape=(1, n)) for i in range(len(lens) if own else 1)]
    ts = [[ctx.pick("s%d_%d" % (i, j), range(n)) for j in range(k)] for i, k in enumerate(lens)]
    keep = [m.features.copy() for m in mdps]
    ts0 = [list(t) for t in ts]
    l = I.MFFeatureMatching()
    kw = {} if ign is None else dict(ignore_features=ign)
    got = l.fit(mdps if own else mdps[0], ts, **kw)
    ctx.check(tuple(got.shape) == (nf,), "one weight per feature")
    for j in range(nf):
        want = 0.0 if j in (ign or ()) else sum([mdps[i if own else 0].features[j, s] for i, t in enumerate(ts) for s in t[1:]], 0.0)
        ctx.check(ctx.close(got[j], want), "totals of the features seen after the start")
        ctx.check(ctx.close(l.theta[j], want), "totals of the features seen after the start")
    ctx.check(ctx.And(*[ctx.exact_array(m.features, k) for m, k in zip(mdps, keep)]) and ts == ts0, "inputs are not modified")
    # a second fit does not depend on the first
    again = l.fit(mdps if own else mdps[0], ts, **kw)
    ctx.check(ctx.same_array(again, got), "fitting again gives the same weights")


def line(mdp, s, a):
    """states seen looking from s along a"""
    out = [s]
    while True:
        w = [mdp.sas[out[-1], a, t] for t in range(mdp.n_states)]
        t = max(range(len(w)), key=lambda i: (w[i], -i))
        if not w[t] > 0 or t in out:
            return out
        out.append(t)


def sight(ctx, mdp, s, a):
    return [sum([mdp.features[j, t] for t in line(mdp, s, a)], 0.0) for j in range(mdp.n_features)]


def act(mdp, s, t):
    w = [mdp.sas[s, a, t] for a in range(mdp.n_actions)]
    return max(range(len(w)), key=lambda a: (w[a], -a))


def total(xs, nf):
    return [sum([x[j] for x in xs], 0.0) for j in range(nf)]


def norm(ctx, x):
    t = sum(x, 0.0)
    if ctx.And(*[ctx.eq(v, 0.0) for v in x]):
        return x
    return [v / t for v in x]


def seen(ctx, mdp, ts):
    return [sight(ctx, mdp, t[i], act(mdp, t[i], t[i + 1])) for t in ts for i in range(len(t) - 1)]


def unseen(ctx, mdp, ts):
    return [sight(ctx, mdp, t[i], a) for t in ts for i in range(len(t) - 1) for a in range(mdp.n_actions)
            if a != act(mdp, t[i], t[i + 1]) and not mdp.sas[t[i], a, t[i]] > 0]


def same(ctx, got, want, label):
    ctx.check(tuple(got.shape) == (len(want),), label)
    for x, y in zip(ctx.flat(got), want):
        ctx.check(ctx.close(x, y), label)


def model(ctx, which, lo=-3):
    np = ctx.np
    if which == "square":
        return grid(ctx, "Square", (3, 3), ctx.reals("f", (2, 9), lo, 3))
    if which == "hex":
        return grid(ctx, "Hex", (3, 3), ctx.reals("f", (2, 9), lo, 3))
    if which == "stay":
        return grid(ctx, "Square", (2, 3), ctx.reals("f", (2, 6), lo, 3), self_t=True)
    if which == "hexstay":
        return grid(ctx, "Hex", (2, 3), ctx.reals("f", (2, 6), lo, 3), walls=np.array([0.0, 0, 0, 0, 1, 0]), self_t=True)
    if which == "wall":
        return grid(ctx, "Square", (1, 4), ctx.reals("f", (1, 4), lo, 3), walls=ctx.layout("w", 4))
    M = ctx.mod("mdp")
    f = ctx.reals("f", (2, 3), lo, 3)
    if which == "ring":
        return M.MDP(f, np.array([[[0.0, 1, 0], [0, 0, 1]], [[0, 0, 1], [1, 0, 0]], [[1, 0, 0], [0, 1, 0]]]))
    return M.MDP(f, np.array([[[0.25, 0.75, 0], [0, 0.25, 0.75], [0.5, 0.0, 0.5]], [[0.5, 0, 0.5], [1.0, 0, 0], [0.125, 0.25, 0.625]], [[0, 0, 1.0], [0, 1.0, 0], [1.0, 0, 0]]]))


@P.job(quick=[C(which=w) for w in ("square", "hex", "stay", "hexstay", "wall", "ring", "stoch")])
def eyeline(ctx, which):
    I = ctx.mod("algorithms.irl")
    mdp = model(ctx, which)
    keep = mdp.features.copy()
    s, a = ctx.pick("s", range(mdp.n_states)), ctx.pick("a", range(mdp.n_actions))
    same(ctx, I.get_eyeline_features(mdp, s, a), sight(ctx, mdp, s, a), "features from the state along the direction to the end of the line")
    ctx.check(ctx.exact_array(mdp.features, keep), "inputs are not modified")


@P.job(quick=[C(which="square", lens=(2,)), C(which="hex", lens=(2,)), C(which="stay", lens=(3,)), C(which="hexstay", lens=(2, 2)), C(which="ring", lens=(3, 1)), C(which="wall", lens=(3,)), C(which="stoch", lens=(2,))],
       thorough=[C(which="hex", lens=(3,)), C(which="square", lens=(3, 2))], budget=200)
def trajectories(ctx, which, lens):
    np, I = ctx.np, ctx.mod("algorithms.irl")
    mdp = model(ctx, which)
    if not mdp.sas.sum() > 0:
        return
    ts = [walk(ctx, "t%d_" % i, mdp, k) for i, k in enumerate(lens)]
    nf = mdp.n_features
    ctx.check(ctx.eq(I.state_pair_to_action(mdp, ts[0][0], ts[0][1]), act(mdp, ts[0][0], ts[0][1])), "the action between two states")
    a, b = total(seen(ctx, mdp, ts), nf), total(unseen(ctx, mdp, ts), nf)
    same(ctx, I.get_trajectory_eyeline_features(mdp, ts, normalise=False), a, "line of sight features of the moves made")
    same(ctx, I.get_trajectory_eyeline_features_diff(mdp, ts, normalise=False), [x - y for x, y in zip(a, b)], "minus those of the directions not taken")


@P.job(quick=[C(which="ring", n=2, lens=(2,)), C(which="stay", n=1, lens=(2,)), C(which="stoch", n=2, lens=(2, 3))], budget=200)
def learners(ctx, which, n, lens):
    """normalised per trajectory, each trajectory in its own model"""
    np, I = ctx.np, ctx.mod("algorithms.irl")
    mdp = model(ctx, which, lo=0)
    other = grid(ctx, "Square", (1, 3), np.array([[1.0, 0.0, 2.0], [0.5, 0.25, 0.0]]))
    t = walk(ctx, "t", mdp, lens[-1])
    ms, ts = [mdp], [t]
    if n == 2:
        ms, ts = [other, mdp], [[2, 1, 0], t]
    nf = 2
    A = [norm(ctx, total(seen(ctx, m, [x]), nf)) for m, x in zip(ms, ts)]
    B = [norm(ctx, total(unseen(ctx, m, [x]), nf)) for m, x in zip(ms, ts)]
    want = total(A, nf)
    l = I.SimpleActionIRL()
    same(ctx, l.fit(ms, ts), want, "normalised per trajectory and summed")
    same(ctx, l.fit(ms, ts), want, "starting afresh")
    same(ctx, l.fit(ms, ts, reset=False), [2 * x for x in want], "adding to the weights without a reset")
    diff = [x - y for x, y in zip(want, total(B, nf))]
    l = I.SimpleActionFeatureDiffIRL()
    same(ctx, l.fit(ms, ts), diff, "contrast with the directions not taken")
    same(ctx, l.fit(ms, ts, reset=False), [2 * x for x in diff], "adding to the weights without a reset")
    same(ctx, l.fit(ms, ts), diff, "starting afresh")
