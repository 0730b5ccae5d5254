"""C26: maximum entropy reward learning."""
from sx.h import Prop

P = Prop("C26")
P.bounds = ["up to 3 learning iterations on grids up to 2x2 (walls included) and a stochastic three-state model; up to 3 trajectories of up to 3 states visiting any states, any real feature values in [0, 1] and initial weights in [-2, 2], decay 0, 0.5, 1 or 2, soft and hard planning with up to 3 sweeps"]
P.assumptions = ["value iteration, action selection and visitation are taken as they are (properties C08 to C11 and C25 decide them)"]


def model(ctx, kind, nf=2):
    np, M = ctx.np, ctx.mod("mdp")
    if kind == "line":
        f = ctx.reals("f", (nf, 3), 0, 1)
        return M.SquareGridMDP(features=f, shape=(1, 3))
    if kind == "hex":
        f = np.zeros((nf, 4))
        f[0, 1], f[0, 2], f[1, 3], f[1, 2] = 1.0, 0.5, 1.0, 0.25
        f[nf - 1, 0] = ctx.real("f", 0, 1)
        return M.HexGridMDP(features=f, walls=np.array([0.0, 0, 0, 1]), shape=(2, 2), self_transitions=True)
    f = np.array([[1.0, 0.0, 0.25], [0.0, 0.5, 1.0], [0.75, 0.25, 0.0]])[:nf]
    sas = np.array([[[0.25, 0.75, 0.0], [0.0, 0.0, 1.0]], [[0.5, 0.0, 0.5], [0.0, 0.0, 0.0]], [[0.0, 0.125, 0.875], [1.0, 0.0, 0.0]]])
    return M.MDP(f, sas)


def trajs(ctx, lens, n):
    return [[ctx.pick("s%d_%d_" % (i, j), list(range(n))) for j in range(k)] for i, k in enumerate(lens)]


def oracle(ctx, mdp, ts, theta, ign, iters, lr, decay, vi, g, soft, tol):
    np, I, DP, A = ctx.np, ctx.mod("algorithms.irl"), ctx.mod("algorithms.dynamic_programming"), ctx.mod("algorithms.action_selection")
    nf, n = mdp.features.shape
    theta = [0.0 if j in ign else theta[j] for j in range(nf)]
    seen = [sum([sum([mdp.features[j, s] for s in t], 0.0) / float(len(t)) for t in ts], 0.0) / float(len(ts)) for j in range(nf)]
    p0 = np.zeros(n)
    for t in ts:
        p0[t[0]] += 1.0 / len(ts)
    sel = A.SoftmaxActionSelector() if soft else A.MaxActionSelector()
    errs = []
    for i in range(iters):
        _, q = DP.solve_value_iteration(np.array(theta), mdp.features, vi, g, mdp.sas, tol, soft)
        D = I.state_visitation_iterator(mdp.sas, vi, sel.get_pi_p(q), p0)
        exp = [sum([mdp.features[j, s] * D[s] for s in range(n)], 0.0) / float(vi) for j in range(nf)]
        err = [0.0 if j in ign else seen[j] - exp[j] for j in range(nf)]
        errs.append(err)
        rate = lr * (float(i + 1) ** -decay if decay else 1.0)
        theta = [x + rate * e for x, e in zip(theta, err)]
        tot = sum([abs(e) for e in err], 0.0) / float(nf)
        if tot < tol:
            ctx.reach("converged")
            break
    return theta, errs


def learner(ctx, theta, iters, lr, decay, vi, g, soft, tol):
    return ctx.mod("algorithms.irl").MaxCausalEntIRL(learning_rate=lr, decay=decay, max_iter_irl=iters, theta=theta, tol=tol, VI_discount=g, VI_max_iter=vi, soft=soft)


def compare(ctx, got, want, label):
    ctx.check(tuple(got.shape) == (len(want),), label)
    for x, y in zip(ctx.flat(got), want):
        ctx.check(ctx.close(x, y), label)


C = dict
TH = [-1.0, 0.5, 1.25]


# sizes and rates with exact binary fractions where planning is hard: a policy that changes abruptly at ties leaves no room for rounding in the order of sums
@P.job(quick=[C(kind="line", lens=(1,), iters=1, decay=0, soft=False, vi=1), C(kind="line", lens=(2, 1), iters=1, decay=1, soft=False, vi=2), C(kind="stoch", lens=(1, 2), iters=2, decay=1, soft=False, vi=2, ign=[0], nf=3, free=1),
              C(kind="stoch", lens=(1, 2), iters=2, decay=0, soft=False, vi=2, free=1), C(kind="stoch", lens=(1, 4), iters=2, decay=2, soft=False, vi=2, ign=(0, 2), nf=3, free=0), C(kind="stoch", lens=(1, 2), iters=3, decay=1, soft=True, vi=2, free=0),
              C(kind="stoch", lens=(3,), iters=3, decay=0.5, soft=True, vi=3, free=0, ign=(1,)), C(kind="stoch", lens=(1, 1, 2), iters=4, decay=0, soft=True, vi=5, free=0), C(kind="stoch", lens=(1,), iters=1, decay=1, soft=True, vi=1, free=1),
              C(kind="stoch", lens=(1,), iters=1, decay=1, soft=True, vi=1, none=True), C(kind="line", lens=(1, 2), iters=2, decay=0, soft=False, vi=1, tol=0.25, free=0), C(kind="hex", lens=(1, 1), iters=1, decay=1, soft=False, vi=2, free=0)],
       thorough=[C(kind="hex", lens=(2, 3), iters=1, decay=1, soft=True, vi=2, free=1), C(kind="line", lens=(2, 2, 2, 1), iters=2, decay=1, soft=False, vi=2), C(kind="stoch", lens=(2, 2, 2), iters=5, decay=1, soft=True, vi=4, free=0)], budget=200)
def update(ctx, kind, lens, iters, decay, soft, vi, ign=(), nf=2, none=False, tol=0.0, free=None):
    np = ctx.np
    mdp = model(ctx, kind, nf)
    ts = trajs(ctx, lens, mdp.n_states)
    theta = np.zeros(nf) if none else ctx.reals("th", nf, -2, 2)
    if free is not None and not none:
        theta = np.array([theta[i] if i >= nf - free else TH[i] for i in range(nf)])
    keep = theta.copy()
    f0 = mdp.features.copy()
    lr, g = 0.25, 0.5
    l = learner(ctx, None if none else theta, iters, lr, decay, vi, g, soft, tol)
    ts0 = [list(t) for t in ts]
    got = l.fit(mdp, ts, ign, show_progress=False)
    want, errs = oracle(ctx, mdp, ts0, keep, list(ign), iters, lr, decay, vi, g, soft, tol)
    compare(ctx, got, want, "weights move along the feature error")
    compare(ctx, l.theta, want, "weights move along the feature error")
    for j in ign:
        ctx.check(ctx.eq(got[j], 0.0), "ignored features keep weight 0")
    ctx.check(ctx.exact_array(theta, keep), "the caller's weights are not modified")
    ctx.check(ctx.exact_array(mdp.features, f0), "the model is not modified")
    ctx.check(ts == ts0, "the trajectories are not modified")


@P.job(quick=[C(none=False, decay=1, fits=1), C(none=True, decay=2, fits=2), C(none=False, decay=1, fits=2)], thorough=[C(none=False, decay=2, fits=3)], budget=200)
def reset(ctx, none, decay, fits):
    """after a reset the learner behaves as when it was built; without one, fitting goes on from the current weights"""
    np = ctx.np
    mdp = model(ctx, "stoch")
    theta = None if none else ctx.np.array([-0.5, ctx.real("th", -2, 2)])
    keep = None if none else theta.copy()
    args = (2, 0.25, decay, 2, 0.5, False, 0.0)
    l = learner(ctx, theta, *args)
    t1, t2 = trajs(ctx, (2,), 3), [[2, 0, 1, 2], [1]]
    first = l.fit(mdp, t1, show_progress=False).copy()
    for i in range(fits - 1):
        again = l.fit(mdp, t2, show_progress=False).copy()
        if i == 0:
            want, _ = oracle(ctx, mdp, t2, first, [], 2, 0.25, decay, 2, 0.5, False, 0.0)
            compare(ctx, again, want, "fitting again goes on from the current weights at the initial rate")
    l.reset()
    ctx.check(ctx.close(l.learning_rate, 0.25), "reset restores the learning rate")
    if not none:
        ctx.check(ctx.exact_array(l.theta, keep), "reset restores the initial weights")
        ctx.check(ctx.exact_array(theta, keep), "the caller's weights are not modified")
    compare(ctx, l.fit(mdp, t1, show_progress=False), list(ctx.flat(first)), "a reset learner learns the same again")
    l.reset()
    compare(ctx, l.fit(mdp, t1, show_progress=False), list(ctx.flat(first)), "a reset learner learns the same again")
