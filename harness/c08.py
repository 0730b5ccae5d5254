"""C08: value iteration."""
from sx.h import Prop

P = Prop("C08")
P.bounds = ["optimality within discount^k after k sweeps: wall layouts of 2x2 and 1x4 grids, 3-state 0/1 and fixed stochastic models, all rewards in [-10, 10]; discounts 1/64, 1/8, 0.9",
            "convergence with the default settings: acyclic models with 3-4 states, all rewards and (3 states) all transition probabilities",
            "stopping rule: all tolerances, up to 3 sweeps"]
P.assumptions = ["the optimal value function used as oracle is characterised by its fixed point equation (unique for discounts below 1)"]
R = 10


def valid(ctx, sas, s, a):
    return ctx.Or(*[sas[s, a, t] > 0 for t in range(sas.shape[0])])


def optimum(ctx, sas, r, g):
    """V*, Q*: fresh unknowns constrained by the optimality equation (symbolic), or computed by long iteration (concrete)"""
    n, na = sas.shape[0], sas.shape[1]
    ok = [[valid(ctx, sas, s, a) for a in range(na)] for s in range(n)]
    if not ctx.symbolic:
        V = [0.0] * n
        for _ in range(3000):
            V = [max([sum(sas[s, a, t] * (r[t] + g * V[t]) for t in range(n)) for a in range(na) if ok[s][a]], default=0.0) for s in range(n)]
        return V, ok, [[sum(sas[s, a, t] * (r[t] + g * V[t]) for t in range(n)) for a in range(na)] for s in range(n)]
    V = [ctx.fresh_real("V%d" % s) for s in range(n)]
    Q = [[sum([sas[s, a, t] * (r[t] + g * V[t]) for t in range(n)], 0.0) for a in range(na)] for s in range(n)]
    for s in range(n):
        none = ctx.Not(ctx.Or(*ok[s]))
        ctx.assume(ctx.implies(none, V[s] == 0))
        for a in range(na):
            ctx.assume(ctx.implies(ok[s][a], V[s] >= Q[s][a]))
        ctx.assume(ctx.Or(none, *[ctx.And(ok[s][a], V[s] == Q[s][a]) for a in range(na)]))
    return V, ok, Q


def compare(ctx, sas, r, g, k, values, q, slack=None):
    n, na = sas.shape[0], sas.shape[1]
    V, ok, Q = optimum(ctx, sas, r, g)
    tol = (g ** k * R / (1 - g) if slack is None else slack) + 1e-6
    ctx.check(tuple(values.shape) == (n,) and tuple(q.shape) == (n, na), "shapes")
    for s in range(n):
        ctx.check(near(ctx, values[s], V[s], tol), "state values within discount^k of the optimum")
        for a in range(na):
            if bool(ok[s][a]):
                ctx.check(near(ctx, q[s, a], Q[s][a], tol), "action values within discount^k of the optimum")
            else:
                ctx.check(ctx.isneginf(q[s, a]), "unavailable actions are minus infinity")
        if any(bool(o) for o in ok[s]):
            best = max_of(ctx, [q[s, a] for a in range(na) if bool(ok[s][a])])
            ctx.check(ctx.close(values[s], best), "state value is the best available action value")
        else:
            ctx.check(ctx.close(values[s], 0.0, 0), "states without actions have value 0")


def near(ctx, a, b, tol):
    return ctx.And(ctx.isfin(a), ctx.le(a, b, tol), ctx.le(b, a, tol))


def max_of(ctx, xs):
    m = xs[0]
    for x in xs[1:]:
        m = ctx.ite(x > m, x, m)
    return m


def fit(ctx, mdp, rf, **kw):
    DP = ctx.mod("algorithms.dynamic_programming")
    vi = DP.ValueIteration(**kw)
    vi.fit(mdp, rf, 0)
    return vi


@P.job(quick=[dict(kind="Square", shape=(2, 2), g=1 / 64, k=3, self_t=False), dict(kind="Square", shape=(1, 4), g=1 / 64, k=2, self_t=True),
              dict(kind="Hex", shape=(2, 2), g=1 / 8, k=2, self_t=False), dict(kind="Hex", shape=(3, 1), g=0.9, k=2, self_t=True)],
       thorough=[dict(kind="Square", shape=(2, 3), g=1 / 64, k=3, self_t=False), dict(kind="Hex", shape=(3, 2), g=1 / 64, k=3, self_t=True),
                 dict(kind="Square", shape=(2, 2), g=0.5, k=5, self_t=True)])
def grid(ctx, kind, shape, g, k, self_t):
    """walled grids, one reward per state"""
    np, M = ctx.np, ctx.mod("mdp")
    shape = tuple(shape)
    n = shape[0] * shape[1]
    walls = ctx.layout("w", n)
    r = ctx.reals("r", (1, n), -R, R)
    mdp = getattr(M, kind + "GridMDP")(features=r, walls=walls, shape=shape, self_transitions=self_t)
    keep = (mdp.sas.copy(), mdp.features.copy())
    vi = fit(ctx, mdp, np.array([1.0]), discount=g, tol=1e-12, max_iter=k)
    compare(ctx, mdp.sas, r[0], g, k, vi.values, vi.q_values)
    ctx.check(ctx.And(ctx.exact_array(mdp.sas, keep[0]), ctx.exact_array(mdp.features, keep[1])), "the model is not modified")


STOCH = [[[0.25, 0.75, 0.0], [0.0, 0.0, 1.0]], [[0.5, 0.0, 0.5], [0.0, 0.0, 0.0]], [[0.0, 0.125, 0.875], [1.0, 0.0, 0.0]]]


@P.job(quick=[dict(g=1 / 64, k=3), dict(g=0.9, k=2)], thorough=[dict(g=0.25, k=5)])
def stochastic(ctx, g, k):
    """a stochastic model, symbolic weights over two features"""
    np, M = ctx.np, ctx.mod("mdp")
    feats = np.array([[1.0, 0.0, 2.0], [0.0, 1.0, -1.0]])
    rf = ctx.reals("rf", 2, -R / 4, R / 4)
    mdp = M.MDP(feats, np.array(STOCH))
    vi = fit(ctx, mdp, rf, discount=g, tol=1e-12, max_iter=k)
    r = [rf[0], rf[1], 2 * rf[0] - rf[1]]
    compare(ctx, mdp.sas, r, g, k, vi.values, vi.q_values)


@P.job(quick=[dict(n=3, na=2, g=1 / 64, k=3, first=f, second=t) for f in range(4) for t in range(4)],
       thorough=[dict(n=3, na=3, g=1 / 16, k=2, first=f, second=t) for f in range(4) for t in range(4)])
def any_deterministic(ctx, n, na, g, k, first, second):
    """arbitrary 0/1 transition functions"""
    np, M = ctx.np, ctx.mod("mdp")
    nxt = [[ctx.state("n%d_%d" % (s, a), n + 1) if a else None for a in range(na)] if s < 2 else [0] * na for s in range(n)]
    nxt[0][0], nxt[1][0] = first, second
    sas = np.zeros((n, na, n))
    for s in range(n):
        for a in range(na):
            if nxt[s][a] < n:
                sas[s, a, nxt[s][a]] = 1
    r = ctx.reals("r", (1, n), -R, R)
    mdp = M.MDP(r, sas)
    vi = fit(ctx, mdp, np.array([1.0]), discount=g, tol=1e-12, max_iter=k)
    compare(ctx, sas, r[0], g, k, vi.values, vi.q_values)


@P.job(quick=[dict(n=3)], thorough=[dict(n=4)])
def acyclic_default(ctx, n):
    """default settings on models that only move to later states: exact optimum"""
    np, M = ctx.np, ctx.mod("mdp")
    r = ctx.reals("r", (1, n), -R, R)
    sas = np.zeros((n, 2, n))
    for s in range(n - 1):
        sas[s, 0, s + 1] = 1
        if s + 2 < n:
            sas[s, 1, s + 1] = 0.25
            sas[s, 1, s + 2] = 0.75
    mdp = M.MDP(r, sas)
    vi = fit(ctx, mdp, np.array([1.0]))
    V = [0.0] * n
    for s in reversed(range(n)):
        for a in range(2):
            if float(sas[s, a].sum()) > 0:
                e = sum([sas[s, a, t] * (r[0, t] + 0.9 * V[t]) for t in range(n)], 0.0)
                ctx.check(ctx.close(vi.q_values[s, a], e), "exact action values on acyclic models")
            else:
                ctx.check(ctx.isneginf(vi.q_values[s, a]), "unavailable actions are minus infinity")
        av = [vi.q_values[s, a] for a in range(2) if float(sas[s, a].sum()) > 0]
        V[s] = max_of(ctx, av) if av else 0.0
        ctx.check(ctx.close(vi.values[s], V[s]), "exact state values on acyclic models")


@P.job(quick=[dict(n=1, sign=1), dict(n=1, sign=-1), dict(n=2, sign=1)])
def long_run(ctx, n, sign):
    """default settings run to convergence on a cycle: r / (1 - discount)"""
    np, M = ctx.np, ctx.mod("mdp")
    r = sign * ctx.real("r", 4, 5)
    sas = np.zeros((n, 1, n))
    for s in range(n):
        sas[s, 0, (s + 1) % n] = 1
    f = np.zeros((1, n))
    for s in range(n):
        f[0, s] = r
    vi = fit(ctx, M.MDP(f, sas), np.array([1.0]))
    for s in range(n):
        ctx.check(near(ctx, vi.values[s], r / (1 - 0.9), 1e-6), "converges to the discounted sum")
        ctx.check(near(ctx, vi.q_values[s, 0], r / (1 - 0.9), 1e-6), "converges to the discounted sum")


@P.job(query_ms=120000)
def acyclic_probabilities(ctx):
    """arbitrary transition probabilities and discount, acyclic"""
    np, M = ctx.np, ctx.mod("mdp")
    n = 3
    p = ctx.dist("p", 2)
    g = ctx.real("g", 0.01, 0.99)
    r = ctx.reals("r", (1, n), -R, R)
    sas = np.zeros((n, 2, n))
    sas[0, 0, 1], sas[0, 0, 2] = p[0], p[1]
    sas[0, 1, 2] = 1
    sas[1, 0, 2] = 1
    mdp = M.MDP(r, sas)
    vi = fit(ctx, mdp, np.array([1.0]), discount=g, max_iter=4)
    q = vi.q_values
    ctx.check(ctx.close(q[1, 0], r[0, 2]), "exact action values on acyclic models")
    ctx.check(ctx.close(q[0, 1], r[0, 2]), "exact action values on acyclic models")
    ctx.check(ctx.close(q[0, 0], p[0] * (r[0, 1] + g * r[0, 2]) + p[1] * r[0, 2]), "expected reward plus discounted value of the state reached")


@P.job(quick=[dict(g=0.9, K=3), dict(g=0.5, K=2)], thorough=[dict(g=0.9, K=4)])
def stopping(ctx, g, K):
    """stops at the first sweep that changes every value by less than the tolerance, or at the limit"""
    np, M = ctx.np, ctx.mod("mdp")
    n = 3
    r = ctx.reals("r", (1, n), -R, R)
    sas = np.zeros((n, 2, n))
    for s in range(n):
        sas[s, 0, (s + 1) % n] = 1
    sas[0, 1, 0] = 1
    tol = ctx.real("tol", 1e-6, 5)
    mdp = M.MDP(r, sas)
    one = np.array([1.0])
    vi = fit(ctx, mdp, one, discount=g, tol=tol, max_iter=K)
    seq = [(np.zeros(n), None)]
    for j in range(1, K + 1):
        x = fit(ctx, mdp, one, discount=g, tol=1e-300, max_iter=j)
        seq.append((x.values.copy(), x.q_values.copy()))
    expect = K
    for j in range(1, K):
        if bool(ctx.And(*[abs(seq[j][0][s] - seq[j - 1][0][s]) < tol for s in range(n)])):
            expect = j
            break
    ctx.check(ctx.same_array(vi.values, seq[expect][0]), "stops at the right sweep (values)")
    ctx.check(ctx.same_array(vi.q_values, seq[expect][1]), "stops at the right sweep (action values)")


@P.job(quick=[dict(g=0.9, k=1), dict(g=0.9, k=3)], thorough=[dict(g=0.99, k=4)])
def residual(ctx, g, k):
    """action values are one backup away from the values, whatever the number of sweeps"""
    np, M = ctx.np, ctx.mod("mdp")
    r = ctx.reals("r", (1, 3), -R, R)
    sas = np.array(STOCH)
    mdp = M.MDP(r, sas)
    one = np.array([1.0])
    vi = fit(ctx, mdp, one, discount=g, tol=1e-300, max_iter=k)
    old = fit(ctx, mdp, one, discount=g, tol=1e-300, max_iter=k - 1).values if k > 1 else np.zeros(3)
    d = max_of(ctx, [abs(vi.values[s] - old[s]) for s in range(3)])
    for s in range(3):
        for a in range(2):
            if float(sas[s, a].sum()) == 0:
                ctx.check(ctx.isneginf(vi.q_values[s, a]), "unavailable actions are minus infinity")
                continue
            e = sum([sas[s, a, t] * (r[0, t] + g * vi.values[t]) for t in range(3)], 0.0)
            ctx.check(near(ctx, vi.q_values[s, a], e, 1e-6 + g * d), "action values are the backup of the state values")


@P.job(quick=[dict(), dict(R=1e6)])
def features(ctx, R=R):
    """rewards are the weighted sum of the features present"""
    np, M = ctx.np, ctx.mod("mdp")
    f = ctx.bits("f", (3, 2))
    rf = ctx.reals("rf", 3, -R, R)
    sas = np.zeros((2, 1, 2))
    sas[0, 0, 1] = 1
    mdp = M.MDP(f, sas)
    vi = fit(ctx, mdp, rf, discount=0.5, max_iter=3)
    e = sum([ctx.ite(f[i, 1] == 1, rf[i], 0.0) for i in range(3)], 0.0)
    ctx.check(ctx.close(vi.q_values[0, 0], e), "reward of the state reached")
    ctx.check(ctx.close(vi.values[0], e), "value of the only action")
    ctx.check(ctx.close(vi.values[1], 0.0, 0), "states without actions have value 0")


@P.job()
def bad_discount(ctx):
    np, M = ctx.np, ctx.mod("mdp")
    g = ctx.real("g", -2, 3)
    sas = np.zeros((2, 1, 2))
    sas[0, 0, 1] = 1
    mdp = M.MDP(np.ones((1, 2)), sas)
    e = ctx.raises(lambda: fit(ctx, mdp, np.array([1.0]), discount=g, max_iter=3))
    ctx.check(ctx.eq(ctx.And(g > 0, g < 1), e is None), "discount must lie strictly between 0 and 1")


P.labels = ["state values within discount^k of the optimum", "action values within discount^k of the optimum", "unavailable actions are minus infinity",
            "state value is the best available action value", "states without actions have value 0", "exact action values on acyclic models",
            "exact state values on acyclic models", "expected reward plus discounted value of the state reached", "stops at the right sweep (values)",
            "action values are the backup of the state values", "converges to the discounted sum", "reward of the state reached", "discount must lie strictly between 0 and 1"]
