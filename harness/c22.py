"""C22: predator/prey semantics in interactive search."""
from sx.h import Prop
from harness import mc
from harness.c21 import ring
from harness.util import NAMES, snap

P = Prop("C22")
P.bounds = ["overlap step: 2-3 agents at any of 3 positions, any acyclic-order-free eating relation, any activity flags, real catch values and cost; who-eats-whom and catch values derived from 2-3 agents' consumption lists and any real rewards; "
            "whole searches of 1-2 iterations with 1-3 opponents on rings of 3-4 states, every eating relation and start"]


@P.job(quick=[dict(k=2, n=2), dict(k=3, n=2)], thorough=[dict(k=3, n=3), dict(k=4, n=2)], cost=3)
def overlaps(ctx, k, n):
    """one overlap check: any relation among k agents (nobody eats itself; no mutual eating or chain where order would matter)"""
    np, MC = ctx.np, ctx.mod("algorithms.mcts")
    pos = [ctx.state("p%d" % i, n) for i in range(k)]
    act = [ctx.state(NAMES[i], 2) == 1 for i in range(k)]
    cons = [[False] * k for _ in range(k)]
    for i in range(k):
        for j in range(k):
            if i != j:
                cons[i][j] = ctx.state("c%d_%d" % (i, j), 2) == 1
    # the outcome is defined when no eater is itself eaten
    for i in range(k):
        if any(cons[i]) and any(cons[j][i] for j in range(k)):
            return
    values = ctx.reals("v", k, -20, 20)
    cost = ctx.real("cost", -60, 0)
    want_act = list(act)
    total, caught = 0.0, False
    for j in range(k):
        eaters = [i for i in range(k) if cons[i][j] and act[i] and act[j] and pos[i] == pos[j]]
        if eaters:
            want_act[j] = False
            if j == 0:
                caught = True
                total = total + cost
            elif 0 in eaters:
                total = total + values[j]
    active = np.array(act)
    r, out, c = MC.check_agent_overlap(np.array(cons), np.array(pos), cost, active, tuple(values[i] for i in range(k)))
    ctx.check(bool(c) == caught, "caught exactly when an active consumer shares the state")
    ctx.check(ctx.close(r, total), "catches add their values, being caught the cost")
    if not caught:
        ctx.check([bool(x) for x in out] == want_act, "exactly the eaten agents leave the game")
    else:
        ctx.check(not bool(out[0]), "a caught agent leaves the game")


@P.job(quick=[dict(k=2, nf=1), dict(k=3, nf=2)])
def relation(ctx, k, nf):
    """who eats whom and what a catch is worth, from the agents' consumption lists and the planner's reward function"""
    np, MC = ctx.np, ctx.mod("algorithms.mcts")
    m = nf + k
    order = [0] + ([2, 1] if k == 3 and ctx.state("swap", 2) else list(range(1, k)))     # feature index of each listed agent
    rf = [ctx.reals("r%d" % i, m, -20, 20) for i in range(k)]
    eats = []
    for i in range(k):
        e = [f for f in range(nf) if f == i % nf]
        e += [nf + j for j in range(k) if j != order[i] and ctx.state("e%d_%d" % (i, j), 2)]
        eats.append(e)
    info = {"x%d" % i: (i % 2, 1 + i, eats[i], rf[i], nf + order[i]) for i in range(k)}
    me, others = {"x0": info["x0"]}, {a: v for a, v in info.items() if a != "x0"}
    node, moves, cf, rfs, vals, ca, idx = MC.extract_all_agent_info(me, others)
    ctx.check([int(x) for x in node] == [i % 2 for i in range(k)], "positions of the agents")
    ctx.check([int(x) for x in idx] == [nf + o for o in order], "the agents' features")
    for i in range(k):
        for f in range(m):
            ctx.check(bool(cf[i, f]) == (f in eats[i]), "an agent consumes what it lists")
            ctx.check(ctx.close(rfs[i, f], rf[i][f], 0), "reward function of each agent")
        for j in range(k):
            ctx.check(bool(ca[i, j]) == ((nf + order[j]) in eats[i]), "an agent eats another iff it consumes the other's feature")
        if i:
            ctx.check(ctx.close(vals[i], rf[0][nf + order[i]], 0), "a catch is worth the planner's reward for that agent")


RELATIONS = [[], [(0, 1)], [(2, 0)], [(0, 1), (2, 0)], [(1, 2)], [(0, 1), (1, 2)], [(0, 2), (0, 1)], [(1, 2), (1, 0)]]


@P.job(quick=[dict(k=2, n=3, plan=((1, 1), (1, 1)), it=1), dict(k=2, n=4, plan=((2,), (1,)), it=1), dict(k=3, n=3, plan=((1,), (1,), (1,)), it=1, at=1), dict(k=3, n=3, plan=((1,), (1,), (1,)), it=1, at=2), dict(k=2, n=3, plan=((1,), (1,)), it=2), dict(k=2, n=3, plan=((1, 1, 1), (1, 0, 1)), it=1)],
       thorough=[dict(k=3, n=4, plan=((1,), (1,), (1,)), it=1), dict(k=3, n=3, plan=((1, 1), (1, 0), (0, 1)), it=1), dict(k=4, n=3, plan=((1,), (1,), (0,), (1,)), it=1)])
def game(ctx, k, n, plan, it, at=None):
    """the whole search: an independent re-simulation of each recorded path gives the same returns"""
    np = ctx.np
    w = ctx.reals("r", 1 + k, -9, 9)
    pos = [0] + [at if i == 1 and at is not None else ctx.state("p%d" % i, n) for i in range(1, k)]
    cons = [[0] if i < 2 else [] for i in range(k)]
    if k == 2:
        rel = [(i, j) for i in range(k) for j in range(k) if i != j and ctx.state("c%d_%d" % (i, j), 2)]
    else:
        rel = ctx.pick("rel", RELATIONS)
    for i, j in rel:
        cons[i].append(1 + j)
    agents = [(pos[i], 1, w if i == 0 else [1.0] + [0.0] * k, cons[i]) for i in range(k)]
    env = mc.build(ctx, ring(np, n), np.arange(1, n + 1).reshape(1, n) / 2, agents, n_iter=it, interactive=True, opponent_policy_method="random", caught_cost=-17)
    before = snap(env)
    alg = mc.fit(env, [list(p) for p in plan])
    ends = mc.check_all(ctx, env, alg, before, agents, 1, plan, True, cost=-17, n_iter=it, selection=False)
    for ended, active in ends:
        if ended:
            ctx.reach("caught in a simulation")
        if not all(active[1:]):
            ctx.reach("an opponent was eaten in a simulation")


@P.job(quick=[dict(cost=-50), dict(cost=-1.5)])
def start_together(ctx, cost):
    """sharing a state with a consumer from the start"""
    np = ctx.np
    w = ctx.reals("r", 3, -9, 9)
    kw = {} if cost == -50 else dict(caught_cost=cost)
    agents = [(0, 1, w, []), (0, 1, [0.0, 1.0, 0.0], [1])]
    env = mc.build(ctx, ring(np, 3), np.ones((1, 3)), agents, n_iter=2, interactive=True, opponent_policy_method="random", **kw)
    before = snap(env)
    alg = mc.fit(env, [[1, 1], [1, 1]])
    ctx.check(all(len(v) == 0 for v in alg.visited_states), "no move after being caught")
    ctx.check(all(len(o) == 0 for v in alg.other_agent_visited_states for o in v), "the catch ends the simulation")
    mc.check_all(ctx, env, alg, before, agents, 1, [[1, 1], [1, 1]], True, cost=cost, n_iter=2, selection=False)


P.labels = ["caught exactly when an active consumer shares the state", "catches add their values, being caught the cost", "exactly the eaten agents leave the game", "an agent eats another iff it consumes the other's feature",
            "a catch is worth the planner's reward for that agent", "value = sum of the returns of the paths through the state", "caught in a simulation", "an opponent was eaten in a simulation", "no move after being caught"]
