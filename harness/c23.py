"""C23: simulated opponents act on their own rewards; caching changes nothing."""
from sx.h import Prop
from harness import mc
from harness.c21 import ring, fork
from harness.util import snap

P = Prop("C23")
P.bounds = ["one simulated decision: 4-5 state graphs, any real action values (ties included), every draw; values solved from any real weights on 3-4 states with 2-3 sweeps",
            "whole searches of 1-3 iterations with 1-2 opponents on rings of 3-4 states, real opponent weights, opponents planning with 1-2 sweeps, caching on and off, repeated fits after the world changed"]
P.assumptions = ["the opponent's action values are compared with solve_value_iteration on the re-simulated features, which property C08 decides"]


def table(ctx, sas, lo=-10, hi=10):
    np = ctx.np
    n, na = sas.shape[0], sas.shape[1]
    q = np.zeros((n, na)) - np.inf
    for s in range(n):
        for a in range(na):
            if float(sas[s, a, :].sum()) > 0:
                q[s, a] = ctx.real("q%d_%d" % (s, a), lo, hi)
    return q


def best(ctx, sas, q, cur, new):
    """some action leading from cur to new is best"""
    na = sas.shape[1]
    ok = [a for a in range(na) if float(sas[cur, a, :].sum()) > 0]
    return ctx.any([ctx.all([q[cur, b] <= q[cur, a] for b in ok]) for a in ok if float(sas[cur, a, new]) > 0])


def near_best(ctx, sas, q, cur, new):
    na = sas.shape[1]
    ok = [a for a in range(na) if float(sas[cur, a, :].sum()) > 0]
    return ctx.any([ctx.all([ctx.le(q[cur, b], q[cur, a]) for b in ok]) for a in ok if float(sas[cur, a, new]) > 0])


@P.job(quick=[dict(how="max"), dict(how="softmax"), dict(how="random"), dict(how="zero")])
def decide(ctx, how):
    """with given action values"""
    np, MC = ctx.np, ctx.mod("algorithms.mcts")
    sas = fork(np)
    q = table(ctx, sas)
    keep = q.copy()
    cur = ctx.state("s", 5)
    states = np.array(mc.succ(ctx, sas, cur))
    rf, F = np.array([1.0]), np.zeros((1, 5))
    if how == "random":
        new, _ = MC.get_opponent_next_state("random", states, cur, rf, F, sas, sas, "value_iteration", "max", 1.0, 5, 0.9, 1e-4, q)
    else:
        new, q2 = MC.get_opponent_next_state("solve", states, cur, rf, F, sas, sas, "value_iteration", "softmax" if how == "zero" else how, 0.0 if how == "zero" else 2.0, 5, 0.9, 1e-4, q)
        ctx.check(ctx.exact_array(q2, keep), "given action values are used as they are")
    ctx.check(int(new) in [int(x) for x in states], "moves to a reachable state")
    if how in ("max", "zero"):
        ctx.check(best(ctx, sas, keep, cur, int(new)), "the greedy opponent takes a best action")
    ctx.check(ctx.exact_array(q, keep), "action values are not modified")


@P.job(quick=[dict(how="max", q=(3.0, 3.0, 1.0), can=(1, 2)), dict(how="max", q=(1.0, 2.0, 2.0), can=(2, 3)), dict(how="softmax", q=(1.0, 2.0, 0.0), can=(1, 2, 3)), dict(how="random", q=(9.0, 2.0, 0.0), can=(1, 2, 3))])
def support(ctx, how, q, can):
    np, MC = ctx.np, ctx.mod("algorithms.mcts")
    sas = fork(np)
    Q = np.zeros((5, 3))
    Q[0, :] = np.array(q)
    ctx.exists(*["moves to %d" % c for c in can])
    new, _ = MC.get_opponent_next_state("random" if how == "random" else "solve", np.array([1, 2, 3]), 0, np.array([1.0]), np.zeros((1, 5)), sas, sas, "value_iteration", "max" if how == "random" else how, 1.0, 5, 0.9, 1e-4, Q)
    for c in can:
        if int(new) == c:
            ctx.reach("moves to %d" % c)


@P.job(quick=[dict(g="fork", k=2), dict(g="ring", k=3)])
def solve(ctx, g, k):
    """action values solved from its own reward function"""
    np, MC, DP = ctx.np, ctx.mod("algorithms.mcts"), ctx.mod("algorithms.dynamic_programming")
    sas = fork(np) if g == "fork" else ring(np, 3)
    n = sas.shape[0]
    w = ctx.reals("w", 2, -5, 5)
    F = np.zeros((2, n))
    for i in range(n):
        F[0, i] = (i * 3) % n
    F[1, 1] = 1.0
    cur = ctx.state("s", n)
    keep = F.copy()
    new, q = MC.get_opponent_next_state("solve", np.array(mc.succ(ctx, sas, cur)), cur, w, F, sas, sas, "value_iteration", "max", 1.0, k, 0.75, 1e-9, None)
    _, want = DP.solve_value_iteration(w, keep, k, 0.75, sas, 1e-9)
    ctx.check(ctx.same_array(q, want), "values = value iteration on the current features")
    ctx.check(best(ctx, sas, q, cur, int(new)), "the greedy opponent takes a best action")
    ctx.check(ctx.exact_array(F, keep), "features are not modified")


@P.job(quick=[dict(n=3, plan=((1, 1), (1, 1)), it=1, cache=False, eats=0), dict(n=3, plan=((1, 1), (1, 1)), it=2, cache=True, eats=0), dict(n=4, plan=((2,), (1,)), it=2, cache=True, eats=1), dict(n=3, plan=((1,), (2,)), it=2, cache=True, eats=2),
              dict(n=4, plan=((1,), (1,)), it=2, cache=False, eats=2)],
       thorough=[dict(n=4, plan=((1, 1), (1, 1)), it=3, cache=True, eats=0), dict(n=4, plan=((2,), (2,)), it=2, cache=True, eats=1)])
def search(ctx, n, plan, it, cache, eats):
    """every simulated opponent move is best for the opponent given the positions and remaining features at that time"""
    np, DP = ctx.np, ctx.mod("algorithms.dynamic_programming")
    o = ctx.state("o", n - 1) + 1
    wo = [1.0, ctx.real("hunts", -5, 5), 0.0] if eats != 2 else [ctx.real("likes", -5, 5), 0.0, 0.25]
    agents = [(0, 1, [1.0, 0.0, 2.0], [0, 2] if eats == 1 else [0]), (o, 1, wo, [0] if eats == 2 else [])]
    F = np.array([[1.0, 2.0, 0.5, 3.0][:n]])
    k, g = 2, 0.75
    env = mc.build(ctx, ring(np, n), F, agents, n_iter=it, interactive=True, caching=cache, VI_kwargs=dict(VI_max_iter=k, VI_discount=g))
    before = snap(env)
    sas = before["sas"]
    alg = mc.fit(env, [list(p) for p in plan])

    def on_opponent(actor, cur, new, F):
        _, q = DP.solve_value_iteration(np.array(wo), F, k, g, sas, 1e-4)
        ctx.check(near_best(ctx, sas, q, cur, new), "an opponent's move is best for it in the current situation")
    mc.check_all(ctx, env, alg, before, agents, 1, plan, True, n_iter=it, on_opponent=on_opponent, selection=False)


@P.job(quick=[dict(cache=True, plan=((1,), (2,), (1,))), dict(cache=False, plan=((1,), (2,), (1,))), dict(cache=True, plan=((1, 0), (1, 2), (2, 2))), dict(cache=True, plan=((0, 1), (2, 1), (1, 1)), still=True), dict(cache=True, plan=((1, 1, 1), (1, 1, 1), (1, 1, 1)), still=True)],
       thorough=[dict(cache=True, plan=((1, 1, 1, 1), (1, 1, 1, 1), (1, 1, 2, 1)), still=True), dict(cache=False, plan=((1, 1, 1), (1, 1, 1), (1, 1, 1)), still=True)])
def two_opponents(ctx, cache, plan, still=False):
    """the other opponent's position and its consumption count as well; still: the planner has nowhere to go"""
    np, DP = ctx.np, ctx.mod("algorithms.dynamic_programming")
    n, k, g = 4, 2, 0.75
    x = ctx.real("x", -5, 5)
    ws = {1: [1.0, 0.0, 0.0, x], 2: [x, 0.0, 3.0, 0.0]}
    if still:
        sas = np.zeros((n + 1, 3, n + 1))
        sas[:n, :2, :n] = ring(np, n)
        sas[n, 2, n] = 1
        # the first opponent feeds, the second follows it
        ws = {1: [1.0, 0.0, 0.0, x], 2: [0.0, 0.0, 3.0, 0.0]}
        agents = [(n, 1, [1.0, 0.0, 0.0, 0.0], []), (ctx.state("p1", n), 1, ws[1], [0]), (ctx.state("p2", n), 1, ws[2], [])]
        f = np.array([[1.0, 2.0, 0.5, 3.0, 0.0]])
    else:
        sas = ring(np, n)
        agents = [(0, 1, [1.0, 0.0, 0.0, 0.0], []), (1, 1, ws[1], [0]), (2, 1, ws[2], [0, 2])]
        f = np.array([[1.0, 2.0, 0.5, 3.0]])
    it = 1 if still else 2
    env = mc.build(ctx, sas, f, agents, n_iter=it, interactive=True, caching=cache, VI_kwargs=dict(VI_max_iter=k, VI_discount=g))
    before = snap(env)
    sas = before["sas"]
    alg = mc.fit(env, [list(p) for p in plan])

    def on_opponent(actor, cur, new, F):
        _, q = DP.solve_value_iteration(np.array(ws[actor]), F, k, g, sas, 1e-4)
        ctx.check(near_best(ctx, sas, q, cur, new), "an opponent's move is best for it in the current situation")
    mc.check_all(ctx, env, alg, before, agents, 1, plan, True, n_iter=it, on_opponent=on_opponent, selection=False)


@P.job(quick=[dict()])
def refit(ctx):
    """a second search after the world changed does not reuse outdated values"""
    np, DP = ctx.np, ctx.mod("algorithms.dynamic_programming")
    n, k, g = 3, 2, 0.75
    wo = [1.0, 0.0, 0.0]
    agents = [(0, 1, [1.0, 0.0, 0.0], []), (1, 1, wo, [])]
    env = mc.build(ctx, ring(np, n), np.array([[1.0, 2.0, 3.0]]), agents, n_iter=1, interactive=True, caching=True, VI_kwargs=dict(VI_max_iter=k, VI_discount=g))
    plan = [[1], [1]]
    mc.fit(env, [list(p) for p in plan])
    new_row = ctx.reals("f", n, 0.5, 9)
    env.mdp.features[0, :] = new_row
    before = snap(env)
    sas = before["sas"]
    alg = mc.fit(env, [list(p) for p in plan])

    def on_opponent(actor, cur, new, F):
        _, q = DP.solve_value_iteration(np.array(wo), F, k, g, sas, 1e-4)
        ctx.check(near_best(ctx, sas, q, cur, new), "values cached by an earlier fit are not reused by default")
    mc.check_all(ctx, env, alg, before, agents, 1, plan, True, n_iter=1, on_opponent=on_opponent, selection=False)


@P.job(quick=[dict()])
def precomputed(ctx):
    """the predator's values for every prey position"""
    np, MC, DP = ctx.np, ctx.mod("algorithms.mcts"), ctx.mod("algorithms.dynamic_programming")
    sas = ring(np, 3)
    w = ctx.reals("w", 3, -5, 5)
    F = np.array([[1.0, 0.0, 2.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]])
    keep = F.copy()
    q = MC.solve_all_value_iteration(sas, w, F, 1, 2, 1e-9, 0.75)
    ctx.check(ctx.exact_array(F, keep), "features are not modified")
    ctx.check(tuple(q.shape) == (3, 3, 2), "one table per prey position")
    for p in range(3):
        G = keep.copy()
        G[1, :] = 0
        G[1, p] = 1
        _, want = DP.solve_value_iteration(w, G, 2, 0.75, sas, 1e-9)
        ctx.check(ctx.same_array(q[p], want), "values with the prey at each position")


P.labels = ["the greedy opponent takes a best action", "an opponent's move is best for it in the current situation", "values cached by an earlier fit are not reused by default", "values with the prey at each position",
            "values = value iteration on the current features", "moves to a reachable state", "opponents move only along existing transitions"]
