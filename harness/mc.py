"""Tree search: an environment with a searching agent, and an independent re-simulation of the recorded paths."""
import math
import warnings


def build(ctx, sas_or_grid, feats, agents, **alg):
    """agents: list of (position, n_moves, reward, consumes); the first one searches"""
    np, M, E, A, MC = ctx.np, ctx.mod("mdp"), ctx.mod("environments"), ctx.mod("agents"), ctx.mod("algorithms.mcts")
    if isinstance(sas_or_grid, dict):
        g = dict(sas_or_grid)
        mdp = getattr(M, g.pop("kind") + "GridMDP")(features=feats, **g)
    else:
        mdp = M.MDP(feats, sas_or_grid)
    kw = dict(n_iter=2, return_states=True, return_other_agent_states=True)
    kw.update(alg)
    spec = {}
    for i, (p, m, r, c) in enumerate(agents):
        ag = A.Agent("a%d" % i, n_moves=m, **(dict(algorithm=MC.MCTS, algorithm_kwargs=kw) if i == 0 else {}))
        spec[ag] = (p, r, c)
    return E.Environment(mdp, spec)


def fit(env, n_moves=None):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        env.fit("a0", n_moves=n_moves)
    return env.agents["a0"].algorithm


def succ(ctx, sas, s):
    n, na = sas.shape[0], sas.shape[1]
    out = []
    for a in range(na):
        for t in range(n):
            if bool(sas[s, a, t] > 0):
                out.append(t)
    return out


def overlap(cons, pos, active, values, cost):
    """(reward, caught): all catches at the current positions; active is updated"""
    k, r = len(pos), 0.0
    for i in range(k):
        for j in range(k):
            if cons[i][j] and active[i] and active[j] and pos[i] == pos[j]:
                active[j] = False
                if j == 0:
                    return r + cost, True
                if i == 0:
                    r = r + values[j]
    return r, False


def resimulate(ctx, sas, F0, agents, nf, n_moves, path, opp, interactive, cost, on_opponent=None):
    """replay one recorded path; checks legality and returns its total return"""
    np = ctx.np
    k = len(agents) if interactive else 1
    F = F0.copy()
    pos = [a[0] for a in agents]
    eats = [list(a[3]) for a in agents]
    cons = [[(nf + j) in eats[i] for j in range(k)] for i in range(k)]
    w = agents[0][2]
    values = [w[nf + j] for j in range(k)]
    active = [True] * k
    path, opp = [int(x) for x in path], [[int(x) for x in o] for o in opp]
    total, mine, ended = 0.0, 0, False

    def present():
        for j in range(k):
            if not active[j]:
                F[nf + j, :] = 0

    for t in range(len(n_moves[0])):
        for actor in range(k):
            for _ in range(n_moves[actor][t]):
                if interactive:
                    r, caught = overlap(cons, pos, active, values, cost)
                    total = total + r
                    if caught:
                        ended = True
                        break
                    present()
                if actor == 0:
                    ctx.check(mine < len(path), "makes all planned own moves unless caught")
                    new = path[mine]
                    mine += 1
                    ctx.check(new in succ(ctx, sas, pos[0]), "moves only along existing transitions")
                    total = total + sum([w[f] * F[f, new] for f in range(F.shape[0])], 0.0)
                elif active[actor]:
                    ctx.check(len(opp[actor - 1]) > 0, "an active opponent makes all its moves")
                    new = opp[actor - 1].pop(0)
                    ctx.check(new in succ(ctx, sas, pos[actor]), "opponents move only along existing transitions")
                    if on_opponent is not None:
                        on_opponent(actor, pos[actor], new, F)
                else:
                    continue
                pos[actor] = new
                F[nf + actor, :] = 0
                F[nf + actor, new] = 1
                for f in eats[actor]:
                    F[f, new] = 0
            if ended:
                break
        if ended:
            break
    if not ended and interactive:
        r, ended = overlap(cons, pos, active, values, cost)
        total = total + r
    ctx.check(mine == len(path), "makes no more than the planned moves, none after being caught")
    ctx.check(all(not o for o in opp), "opponents make no more than their moves, none after being eaten")
    return total, ended, active


def ucb(ctx, V, N, states, C, node):
    out = []
    for s in states:
        b = math.sqrt(2 * math.log(max(N[node], 1)) / (1 + N[s]))
        out.append(V[s] / (1.0 + N[s]) + C * b)
    return out


def check_selection(ctx, sas, start, path, V, N, C):
    """tree policy of one path, given the statistics before it"""
    expand, cur = True, start
    for new in [int(x) for x in path]:
        st = succ(ctx, sas, cur)
        if expand:
            fresh = [s for s in st if N[s] == 0]
            if fresh:
                ctx.check(new in fresh, "an unvisited successor is chosen while there is one")
                expand = False
            elif len(set(st)) > 1:
                u = ucb(ctx, V, N, st, C, cur)
                mine = [x for s, x in zip(st, u) if s == new][0]
                for x in u:
                    ctx.check(ctx.le(x, mine), "the best upper confidence bound is chosen once all are visited")
        cur = new


def check_all(ctx, env, alg, before, agents, nf, n_moves, interactive, cost=-50, C=1, n_iter=2, on_opponent=None, selection=True):
    np = ctx.np
    sas, F0 = before["sas"], before["features"]
    n = sas.shape[0]
    V, N = [0.0] * n, [0] * n
    ctx.check(len(alg.visited_states) == n_iter, "one path per iteration")
    ends = []
    for it in range(n_iter):
        path = alg.visited_states[it]
        opp = alg.other_agent_visited_states[it]
        total, ended, active = resimulate(ctx, sas, F0, agents, nf, n_moves, path, opp, interactive, cost, on_opponent)
        ends.append((ended, active))
        if selection:
            check_selection(ctx, sas, agents[0][0], path, V, N, C)
        for s in [int(x) for x in path]:
            V[s] = V[s] + total
            N[s] += 1
    for s in range(n):
        ctx.check(ctx.close(alg.N[s], float(N[s]), 0), "visit count = occurrences on the simulated paths")
        ctx.check(ctx.close(alg.V[s], V[s]), "value = sum of the returns of the paths through the state")
    q = env.get_agent_q_values("a0")
    p = agents[0][0]
    ctx.check(tuple(q.shape) == (n, sas.shape[1]), "one action value per state and action")
    for s in range(n):
        for a in range(sas.shape[1]):
            t = [t for t in range(n) if s == p and bool(sas[s, a, t] > 0)]
            if t:
                ctx.check(ctx.close(q[s, a], V[t[0]] / (1.0 + N[t[0]])), "action value = successor's value over one plus its visits")
            else:
                ctx.check(ctx.isnan(q[s, a]), "missing for everything but the available actions of the position")
    return ends
