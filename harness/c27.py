"""C27: policy learning from observed trajectories."""
import math
from sx.h import Prop

P = Prop("C27")
P.bounds = ["up to 3 trajectories of up to 4 states in up to 3 different models (square and hexagonal grids up to 2x3, every trajectory over adjacent states), any real initial preferences in [-2, 2] and learning rate in (0, 1], decay 0, 0.5, 1, 1.5 or 2, with and without the angular kernel"]

C = dict


def models(ctx, kinds):
    np, M = ctx.np, ctx.mod("mdp")
    out = []
    for k in kinds:
        if k == "s":
            out.append(M.SquareGridMDP(features=np.zeros((1, 4)), shape=(2, 2)))
        elif k == "w":
            out.append(M.SquareGridMDP(features=np.zeros((1, 4)), shape=(2, 2), walls=np.array([0.0, 1, 0, 0])))
        elif k == "h":
            out.append(M.HexGridMDP(features=np.zeros((1, 6)), shape=(2, 3)))
        elif k == "x":
            # actions numbered the other way round
            sas = np.zeros((3, 4, 3))
            for s in range(3):
                for a in range(4):
                    if (s + a) % 4 < 3 and a != 1:
                        sas[s, a, (s + a) % 4] = 1.0
            out.append(M.MDP(np.zeros((1, 3)), sas))
        elif k == "p":
            # stochastic: the likeliest action counts
            out.append(M.MDP(np.zeros((1, 3)), np.array([[[0.25, 0.75, 0], [0, 0.25, 0.75], [0.5, 0.5, 0.0], [0.0, 0.0, 0.0]], [[0.5, 0, 0.5], [1.0, 0, 0], [0.125, 0.25, 0.625], [0, 0, 1.0]], [[0, 0, 1.0], [0, 1.0, 0], [1.0, 0, 0], [0.5, 0.25, 0.25]]])))
    return out


def walk(ctx, name, mdp, n):
    """a trajectory of n states along possible transitions (forked)"""
    if n == 0:
        return []
    t = [ctx.pick(name + "0", [s for s in range(mdp.n_states) if mdp.sas[s].sum() > 0])]
    for i in range(1, n):
        opts = [j for j in range(mdp.n_states) if mdp.sas[t[-1], :, j].max() > 0]
        t.append(ctx.pick(name + str(i), opts))
    return t


def act(mdp, s, t):
    w = [mdp.sas[s, a, t] for a in range(mdp.n_actions)]
    return max(range(len(w)), key=lambda a: (w[a], -a))


def oracle(ctx, Q, mdps, ts, lr, decay, ls):
    """ls None: no kernel"""
    Q, k = list(Q), 0
    for m, t in zip(mdps, ts):
        for i in range(len(t) - 1):
            a, k, na = act(m, t[i], t[i + 1]), k + 1, m.n_actions
            rate = lr * float(k) ** -decay if decay else lr
            for b in range(na):
                if ls is None:
                    target = 1.0 if a == b else 0.0
                else:
                    d = abs(a - b) * (360.0 / na)
                    d = min(d, 360.0 - d)
                    target = math.exp(-(d * ls) ** 2 / 2)
                Q[b] = Q[b] + rate * (target - Q[b])
    return Q


def same(ctx, got, want, label):
    ctx.check(tuple(got.shape) == (len(want),), label)
    for x, y in zip(ctx.flat(got), want):
        ctx.check(ctx.close(x, y), label)


@P.job(quick=[C(kinds="s", lens=(2,), decay=0, single=True), C(kinds="xs", lens=(3, 3), decay=1), C(kinds="sxw", lens=(2, 3, 2), decay=0.5), C(kinds="h", lens=(4,), decay=2), C(kinds="h", lens=(3,), decay=0, ls=0.02), C(kinds="sx", lens=(3, 2), decay=1.5, ls=0.01),
              C(kinds="xsx", lens=(0, 3, 2), decay=1), C(kinds="sx", lens=(1, 3), decay=1), C(kinds="xx", lens=(2, 3), decay=1, single=True, none=True), C(kinds="p", lens=(3,), decay=1), C(kinds="s", lens=(3,), decay=1, ls=0.02, none=True)],
       thorough=[C(kinds="hhh", lens=(3, 2, 2), decay=1), C(kinds="xsw", lens=(4, 3, 3), decay=0.5), C(kinds="h", lens=(5,), decay=1, ls=0.05)], budget=150)
def update(ctx, kinds, lens, decay, ls=None, single=False, none=False):
    np, L = ctx.np, ctx.mod("algorithms.policy_learning")
    mdps = models(ctx, kinds)
    ts = [walk(ctx, "t%d_" % i, mdps[i], k) for i, k in enumerate(lens)]
    na = mdps[0].n_actions
    Q = np.zeros(na) if none else ctx.reals("q", na, -2, 2)
    keep = Q.copy()
    lr = 0.25 if len(kinds) > 1 or len(lens) > 2 else ctx.real("lr", 0.01, 1)
    l = L.TDGeneralPolicyLearner(learning_rate=lr, decay=decay, Q=None if none else Q, kernel=ls is not None, **({} if ls is None else dict(ls=ls)))
    ts0 = [list(t) for t in ts]
    l.fit(mdps[0] if single else mdps, ts)
    want = oracle(ctx, ctx.flat(keep), [mdps[0]] * len(ts) if single else mdps, ts0, lr, decay, ls)
    same(ctx, l.Q, want, "each observed action moves the preferences by the current rate")
    same(ctx, l.get_q_values(0), want, "the same preferences in every state")
    same(ctx, l.get_q_values(mdps[0].n_states - 1), want, "the same preferences in every state")
    ctx.check(bool(l.fit_complete), "marked as fitted")
    ctx.check(ctx.exact_array(Q, keep), "the caller's preferences are not modified")
    ctx.check(ts == ts0, "the trajectories are not modified")


@P.job(quick=[C(none=False, decay=1), C(none=True, decay=0.5), C(none=False, decay=0)], budget=150)
def reset(ctx, none, decay):
    np, L = ctx.np, ctx.mod("algorithms.policy_learning")
    mdps = models(ctx, "xs")
    t1 = [walk(ctx, "a", mdps[0], 3), [0, 1, 3]]
    t2 = [[2, 1, 0, 2], walk(ctx, "b", mdps[1], 2)]
    Q = None if none else ctx.reals("q", 4, -2, 2)
    keep = np.zeros(4) if none else Q.copy()
    l = L.TDGeneralPolicyLearner(learning_rate=0.25, decay=decay, Q=Q)
    l.fit(mdps, t1)
    w1 = oracle(ctx, ctx.flat(keep), mdps, t1, 0.25, decay, None)
    same(ctx, l.get_q_values(0), w1, "first fit")
    c = l.copy()
    l.fit(mdps, t2)
    same(ctx, l.get_q_values(0), oracle(ctx, w1, mdps, t2, 0.25, decay, None), "fitting again goes on from the current preferences at the initial rate")
    same(ctx, c.get_q_values(0), w1, "copies are independent")
    l.reset()
    ctx.check(not l.fit_complete, "reset returns to unfitted")
    if not none:
        ctx.check(ctx.exact_array(l.get_q_values(1), keep), "reset restores the initial preferences")
        ctx.check(ctx.exact_array(Q, keep), "the caller's preferences are not modified")
    for _ in range(2):
        l.fit(mdps, t2)
        same(ctx, l.get_q_values(0), oracle(ctx, ctx.flat(keep), mdps, t2, 0.25, decay, None), "a reset learner learns as when new")
        l.reset()
    c.reset()
    c.fit(mdps, t1)
    same(ctx, c.get_q_values(2), w1, "a reset learner learns as when new")


@P.job(quick=[C()])
def angles(ctx):
    """distance between angles and its kernel"""
    L, np = ctx.mod("algorithms.policy_learning"), ctx.np
    x, y = ctx.real("x", -720, 720), ctx.real("y", -720, 720)
    d = L.degdist(x, y)
    ctx.check(ctx.And(ctx.le(0.0, d), ctx.le(d, 180.0)), "between 0 and 180 degrees")
    ctx.check(ctx.close(L.degdist(y, x), d), "symmetric")
    k = ctx.int("k", -3, 3)
    e = x - y - 360 * k
    ctx.check(ctx.implies(ctx.And(ctx.le(-180.0, e), ctx.le(e, 180.0)), ctx.close(d, abs(e))), "shortest way round")


@P.job(quick=[C()])
def kernel(ctx):
    L = ctx.mod("algorithms.policy_learning")
    a, b, na = ctx.pick("a", range(6)), ctx.pick("b", range(6)), ctx.pick("n", [4, 6])
    ls, v = ctx.pick("ls", [0.02, 0.5, 1.0]), ctx.real("v", 0, 3)
    d = abs(a - b) * (360.0 / na) % 360.0
    d = min(d, 360.0 - d)
    got = L.deg_sq_exp_kernel(a * (360.0 / na), b * (360.0 / na), ls=ls, variance=v)
    ctx.check(ctx.close(got, v * math.exp(-(d * ls) ** 2 / 2)), "squared exponential in the angular distance")


@P.job(quick=[C()])
def errors(ctx):
    L = ctx.mod("algorithms.policy_learning")
    mdps = models(ctx, "ss")
    l = L.TDGeneralPolicyLearner()
    ctx.check_raises(lambda: l.fit(mdps, [[0, 1]]), "one model per trajectory", AttributeError)
    s, t = ctx.state("s", 4), ctx.state("t", 4)
    adj = bool(mdps[0].sas[s, :, t].max() > 0)
    if adj:
        l.fit(mdps[0], [[s, t]])
        ctx.check(bool(l.fit_complete), "marked as fitted")
    else:
        ctx.check_raises(lambda: l.fit(mdps[0], [[s, t]]), "jumps are refused", AttributeError)
