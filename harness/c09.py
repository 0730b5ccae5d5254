"""C09: soft value iteration."""
import math
from sx.h import Prop

P = Prop("C09")
P.bounds = ["all rewards in [-5, 5] and all wall layouts of 1x3 and 2x2 grids, one to three sweeps; arbitrary 0/1 three-state models",
            "exp and log are uninterpreted functions with sign, monotonicity and inverse axioms"]


def solve(ctx, r, sas, k, g=0.9, tol=1e-8):
    DP, np = ctx.mod("algorithms.dynamic_programming"), ctx.np
    return DP.solve_value_iteration(np.array([1.0]), r, k, g, sas, tol, True)


def relation(ctx, sas, V, q):
    n, na = sas.shape[0], sas.shape[1]
    for s in range(n):
        ok = [bool(ctx.Or(*[sas[s, a, t] > 0 for t in range(n)])) for a in range(na)]
        for a in range(na):
            if not ok[a]:
                ctx.check(ctx.isneginf(q[s, a]), "unavailable actions are minus infinity")
        av = [q[s, a] for a in range(na) if ok[a]]
        if not av:
            ctx.check(ctx.close(V[s], 0.0, 0), "states without actions have value 0")
            continue
        S = sum([ctx.exp(x) for x in av], 0.0)
        ctx.check(ctx.close(ctx.exp(V[s]), S), "value is the log-sum-exp of the available actions")
        for x in av:
            ctx.check(ctx.le(x, V[s]), "not below the best action")
        if ctx.symbolic:
            if len(av) == 1:
                ctx.check(ctx.close(V[s], av[0]), "one action: its value")
        else:
            ctx.check(V[s] <= max(av) + math.log(len(av)) + 1e-9, "at most log n above the best action")


@P.job(quick=[dict(kind="Square", shape=(1, 3), k=1, self_t=False), dict(kind="Square", shape=(1, 3), k=2, self_t=True), dict(kind="Hex", shape=(2, 2), k=1, self_t=False)],
       thorough=[dict(kind="Square", shape=(2, 2), k=2, self_t=True), dict(kind="Hex", shape=(2, 2), k=3, self_t=False)])
def grid(ctx, kind, shape, k, self_t):
    np, M = ctx.np, ctx.mod("mdp")
    shape = tuple(shape)
    n = shape[0] * shape[1]
    r = ctx.reals("r", (1, n), -5, 5)
    walls = ctx.layout("w", n)
    mdp = getattr(M, kind + "GridMDP")(features=r, walls=walls, shape=shape, self_transitions=self_t)
    V, q = solve(ctx, mdp.features, mdp.sas, k)
    relation(ctx, mdp.sas, V, q)


@P.job(quick=[dict(k=1), dict(k=2, free=1)], thorough=[dict(k=2), dict(k=3)])
def residual(ctx, k, free=3):
    """action values are the backup of the soft state values up to the change of the last sweep"""
    np = ctx.np
    g = 0.9
    r = ctx.reals("r", (1, 3), -5, 5)
    for i in range(free, 3):
        r[0, i] = [0.0, -1.25, 2.0][i]
    sas = np.array([[[0.25, 0.75, 0.0], [0.0, 0.0, 1.0]], [[0.5, 0.0, 0.5], [0.0, 0.0, 0.0]], [[0.0, 0.125, 0.875], [1.0, 0.0, 0.0]]])
    V, q = solve(ctx, r, sas, k, tol=1e-300)
    V, q = V.copy(), q.copy()
    old = solve(ctx, r, sas, k - 1, tol=1e-300)[0] if k > 1 else np.zeros(3)
    d = [abs(V[t] - old[t]) for t in range(3)]
    for s in range(3):
        for a in range(2):
            if float(sas[s, a].sum()) == 0:
                continue
            e = sum([sas[s, a, t] * (r[0, t] + g * V[t]) for t in range(3)], 0.0)
            slack = sum([g * sas[s, a, t] * d[t] for t in range(3)], 0.0) + 1e-6
            ctx.check(ctx.And(ctx.le(q[s, a], e, slack), ctx.le(e, q[s, a], slack)), "action values are the backup of the state values")
    relation(ctx, sas, V, q)


@P.job(quick=[dict(n=1, k=2), dict(n=2, k=2), dict(n=2, k=2, loop=True)], thorough=[dict(n=1, k=3), dict(n=3, k=2)])
def single(ctx, n, k, loop=False):
    """one action per state (round a ring, or down a line to a state that stays put): nothing to choose, so soft values are the discounted sums"""
    np = ctx.np
    g = 0.5
    r = ctx.reals("r", (1, n), -5, 5)
    sas = np.zeros((n, 1, n))
    for s in range(n):
        sas[s, 0, min(s + 1, n - 1) if loop else (s + 1) % n] = 1
    V, q = solve(ctx, r, sas, k, g, 1e-300)
    V, q = V.copy(), q.copy()
    old = solve(ctx, r, sas, k - 1, g, 1e-300)[0]
    for s in range(n):
        t = min(s + 1, n - 1) if loop else (s + 1) % n
        ctx.check(ctx.close(V[s], q[s, 0]), "one action: its value")
        ctx.check(ctx.Or(ctx.close(q[s, 0], r[0, t] + g * V[t]), ctx.close(q[s, 0], r[0, t] + g * old[t])), "the only action's value is the backup of this or the last sweep's values")


@P.job(quick=[dict(n=3)], thorough=[dict(n=4)])
def acyclic(ctx, n):
    """acyclic models converge exactly with many sweeps allowed"""
    np = ctx.np
    r = ctx.reals("r", (1, n), -5, 5)
    sas = np.zeros((n, 2, n))
    for s in range(n - 1):
        sas[s, 0, s + 1] = 1
        if s + 2 < n:
            sas[s, 1, s + 2] = 1
    V, q = solve(ctx, r, sas, 50)
    relation(ctx, sas, V, q)
    for s in range(n):
        for a in range(2):
            if float(sas[s, a].sum()) > 0:
                e = sum([sas[s, a, t] * (r[0, t] + 0.9 * V[t]) for t in range(n)], 0.0)
                ctx.check(ctx.close(q[s, a], e), "exact backup on acyclic models")


@P.job(quick=[dict(n=2, na=2)], thorough=[dict(n=3, na=2)])
def any_deterministic(ctx, n, na):
    np = ctx.np
    sas = np.zeros((n, na, n))
    for s in range(n):
        for a in range(na):
            t = ctx.state("n%d_%d" % (s, a), n + 1)
            if t < n:
                sas[s, a, t] = 1
    r = ctx.reals("r", (1, n), -5, 5)
    V, q = solve(ctx, r, sas, 2)
    relation(ctx, sas, V, q)


P.labels = ["unavailable actions are minus infinity", "states without actions have value 0", "value is the log-sum-exp of the available actions",
            "not below the best action", "one action: its value", "action values are the backup of the state values", "exact backup on acyclic models"]
