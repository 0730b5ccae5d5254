"""C21: tree search statistics and tree policy."""
from sx.h import Prop
from harness import mc
from harness.util import snap

P = Prop("C21")
P.bounds = ["whole searches of 2-4 iterations with 1-3 own moves on chains, a ring and a branching graph of 3-5 states with real-valued rewards and every random choice; upper confidence bounds and choices for 2-3 successors with any values in [-50, 50], exploration constants in [0, 5] and visit counts 0-3"]


def ring(np, n, back=True):
    sas = np.zeros((n, 2 if back else 1, n))
    for s in range(n):
        sas[s, 0, (s + 1) % n] = 1
        if back:
            sas[s, 1, (s - 1) % n] = 1
    return sas


def fork(np):
    """0 -> 1, 2, 3; 1 -> 4, 0; 2 -> 2; 3 -> 4; 4 -> 0"""
    sas = np.zeros((5, 3, 5))
    for s, a, t in [(0, 0, 1), (0, 1, 2), (0, 2, 3), (1, 0, 4), (1, 2, 0), (2, 1, 2), (3, 0, 4), (4, 1, 0)]:
        sas[s, a, t] = 1
    return sas


def graph(np, g):
    return ring(np, 4) if g == "ring" else ring(np, 3) if g == "ring3" else fork(np)


@P.job(quick=[dict(g="fork", moves=1, it=4, p=0), dict(g="fork", moves=2, it=3, p=0), dict(g="ring", moves=2, it=3, p=1), dict(g="ring3", moves=1, it=5, p=0), dict(g="ring3", moves=3, it=2, p=2),
              dict(g="fork", moves=3, it=3, p=2)],
       thorough=[dict(g="fork", moves=2, it=4, p=0), dict(g="ring", moves=2, it=4, p=0), dict(g="fork", moves=3, it=3, p=1), dict(g="ring3", moves=1, it=7, p=1)])
def search(ctx, g, moves, it, p):
    """alone, with the tree policy: rewards are free"""
    np = ctx.np
    sas = graph(np, g)
    n = sas.shape[0]
    f = ctx.reals("f", (1, n), -4, 4)
    C = 1.5
    agents = [(p, 1, [1.0, 0.0], [])]
    env = mc.build(ctx, sas, f, agents, n_iter=it, C=C)
    before = snap(env)
    alg = mc.fit(env, [[moves]])
    mc.check_all(ctx, env, alg, before, agents, 1, [[moves]], False, C=C, n_iter=it)


@P.job(quick=[dict(it=2, moves=((2,), (1,))), dict(it=3, moves=((1,), (1,)))], thorough=[dict(it=3, moves=((2,), (1,)))])
def with_opponent(ctx, it, moves):
    """with a randomly moving opponent that can be caught or can catch, or neither"""
    np = ctx.np
    w = ctx.reals("r", 3, -4, 4)
    kind = ctx.state("kind", 3)
    agents = [(0, 1, w, [0, 2] if kind == 1 else []), (1, 1, [1.0, 0.0, 0.0], [1] if kind == 2 else [])]
    env = mc.build(ctx, ring(np, 3), np.array([[1.0, 2.0, 0.0]]), agents, n_iter=it, interactive=True, opponent_policy_method="random", caught_cost=-3)
    before = snap(env)
    alg = mc.fit(env, [list(m) for m in moves])
    mc.check_all(ctx, env, alg, before, agents, 1, moves, True, cost=-3, n_iter=it)


@P.job(quick=[dict(k=2), dict(k=3)])
def bounds(ctx, k):
    """the upper confidence bound and the choice among visited successors"""
    np, MC = ctx.np, ctx.mod("algorithms.mcts")
    n = k + 1
    V = ctx.reals("v", n, -50, 50)
    C = ctx.real("C", 0, 5)
    N = np.array([float(ctx.state("n%d" % i, 4)) for i in range(n)])
    st = np.array([(i + 1) % n for i in range(k)])
    keepV, keepN = V.copy(), N.copy()
    u = MC.UCB(V, N, st, C, 0)
    for i, x in enumerate(mc.ucb(ctx, V, [int(z) for z in N], [int(s) for s in st], C, 0)):
        ctx.check(ctx.close(u[i], x), "mean value plus exploration constant times uncertainty")
    if all(float(N[int(s)]) > 0 for s in st):
        nxt, expand = MC.MCTS_next_node(True, V, N, st, C, 0)
        ctx.check(bool(expand), "no expansion while all successors are visited")
        best = [u[i] for i in range(k) if int(st[i]) == int(nxt)]
        ctx.check(len(best) == 1, "one of the successors is chosen")
        for x in u:
            ctx.check(ctx.le(x, best[0], 0), "the best upper confidence bound is chosen")
    ctx.check(ctx.exact_array(V, keepV) and ctx.exact_array(N, keepN), "choosing changes no statistics")


@P.job(quick=[dict(k=2), dict(k=3)])
def expansion(ctx, k):
    """the first unvisited successor ends the tree phase; afterwards moves are uniformly random"""
    np, MC = ctx.np, ctx.mod("algorithms.mcts")
    st = np.arange(1, k + 1)
    V = ctx.reals("v", k + 1, -50, 50)
    N = np.array([2.0] + [float(ctx.state("n%d" % i, 2)) for i in range(k)])
    fresh = [i + 1 for i in range(k) if float(N[i + 1]) == 0]
    if fresh:
        nxt, expand = MC.MCTS_next_node(True, V, N, st, 1.0, 0)
        ctx.check(int(nxt) in fresh, "an unvisited successor is chosen")
        ctx.check(not bool(expand), "one node is expanded per iteration")
    nxt, expand = MC.MCTS_next_node(False, V, N, st, 1.0, 0)
    ctx.check(1 <= int(nxt) <= k, "simulation moves to a successor")
    ctx.check(not bool(expand), "no second expansion")


@P.job(quick=[dict(n0=0, n1=0, n2=0, ex=True), dict(n0=0, n1=1, n2=0, ex=True), dict(n0=1, n1=2, n2=5, ex=False), dict(n0=0, n1=0, n2=0, ex=False)])
def support(ctx, n0, n1, n2, ex):
    """every candidate can be drawn"""
    np, MC = ctx.np, ctx.mod("algorithms.mcts")
    N = np.array([3.0, n0, n1, n2])
    V = np.array([0.0, 10.0, -5.0, 3.0])
    cand = [i for i in (1, 2, 3) if N[i] == 0] if ex else [1, 2, 3]
    ctx.exists(*["expands into %d" % i for i in cand])
    nxt, _ = MC.MCTS_next_node(ex, V, N, np.array([1, 2, 3]), 1.0, 0)
    for i in cand:
        if int(nxt) == i:
            ctx.reach("expands into %d" % i)


@P.job(quick=[dict()])
def action_values(ctx):
    np, MC = ctx.np, ctx.mod("algorithms.mcts")
    sas = fork(np)
    V = ctx.reals("v", 5, -50, 50)
    N = np.array([float(ctx.state("n%d" % i, 3)) for i in range(5)])
    node = ctx.state("s", 5)
    a, v, s = MC.get_MCTS_action_values(node, sas, V, N)
    want = [(i, t) for i in range(3) for t in range(5) if float(sas[node, i, t]) > 0]
    ctx.check([(int(x), int(y)) for x, y in zip(a, s)] == want, "the available actions and their successors")
    for (i, t), x in zip(want, v):
        ctx.check(ctx.close(x, V[t] / (1.0 + float(N[t]))), "successor's value over one plus its visits")


P.labels = ["visit count = occurrences on the simulated paths", "value = sum of the returns of the paths through the state", "an unvisited successor is chosen while there is one",
            "the best upper confidence bound is chosen once all are visited", "action value = successor's value over one plus its visits", "one node is expanded per iteration",
            "the best upper confidence bound is chosen", "mean value plus exploration constant times uncertainty"]
