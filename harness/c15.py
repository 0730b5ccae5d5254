"""C15: construction of environments."""
from sx.h import Prop
from harness.util import NAMES, table_algorithm, snap

P = Prop("C15")
P.bounds = ["2-4 states, 1-3 model features with arbitrary values, 1-3 agents, every position (and integers three beyond either end), reward lengths 0..n+2, every consumption index up to two beyond the last"]


def mdp_of(ctx, n, nf, name="f"):
    np, M = ctx.np, ctx.mod("mdp")
    sas = np.zeros((n, 1, n))
    for s in range(n):
        sas[s, 0, (s + 1) % n] = 1
    f = ctx.reals(name, (nf, n), -3, 3)
    return M.MDP(f, sas), f.copy()


def check_env(ctx, env, own, pos, rew, eat, moves, tag=""):
    np = ctx.np
    nf, k = own.shape[0], len(pos)
    F = env.mdp.features
    ctx.check(tuple(F.shape) == (nf + k, own.shape[1]) and env.mdp.n_features == nf + k, "one row per agent after the model's own" + tag)
    ctx.check(env.n_agents == k and len(env.agents) == k and env.mdp.n_agents == k and list(env.agents) == [NAMES[i] for i in range(k)], "all agents attached in order" + tag)
    ctx.check(ctx.exact_array(F[:nf], own), "model features untouched" + tag)
    for i in range(k):
        a = env.agents[NAMES[i]]
        for s in range(own.shape[1]):
            ctx.check(ctx.close(F[nf + i, s], 1.0 if s == pos[i] else 0.0, 0), "agent row marks the start" + tag)
        ctx.check(a.agent_feature_idx == nf + i, "agent knows its row" + tag)
        ctx.check(a.position == pos[i], "agent at its position" + tag)
        ctx.check(ctx.exact_array(a.reward_function, rew[i]), "own reward function" + tag)
        ctx.check(list(a.consumes) == list(eat[i]), "own consumption list" + tag)
        ctx.check(a.n_moves == moves[i], "own number of moves" + tag)
        ctx.check(list(a.position_history) == [pos[i]], "history starts at the position" + tag)


@P.job(quick=[dict(n=2, nf=1, k=1), dict(n=3, nf=2, k=2), dict(n=2, nf=1, k=3), dict(n=4, nf=3, k=1)], thorough=[dict(n=3, nf=2, k=3)])
def valid(ctx, n, nf, k):
    np, E, A = ctx.np, ctx.mod("environments"), ctx.mod("agents")
    mdp, own = mdp_of(ctx, n, nf)
    pos = [ctx.state("p%d" % i, n) for i in range(k)]
    rew = [ctx.reals("r%d_" % i, nf + k, -3, 3) for i in range(k)]
    keep = [r.copy() for r in rew]
    eat = [[] if (c := ctx.state("c%d" % i, nf + k + 1)) == nf + k else [c] for i in range(k)]
    env = E.Environment(mdp, {A.Agent(NAMES[i], n_moves=i + 2): (pos[i], (list(ctx.flat(rew[i])) if i == 1 else rew[i]), eat[i]) for i in range(k)})
    check_env(ctx, env, own, pos, keep, eat, [i + 2 for i in range(k)])
    ctx.check(env.n_states == n, "state count")


@P.job(quick=[dict(n=3, nf=1, k=2, what=w) for w in ("length", "position", "consumes", "types", "dims")] + [dict(n=2, nf=2, k=1, what="length"), dict(n=2, nf=2, k=3, what="consumes")])
def rejected(ctx, n, nf, k, what):
    np, E, A = ctx.np, ctx.mod("environments"), ctx.mod("agents")
    mdp, own = mdp_of(ctx, n, nf)
    which = ctx.state("which", k)
    pos, rew, eat = [i % n for i in range(k)], [ctx.reals("r%d_" % i, nf + k, -3, 3) for i in range(k)], [[] for _ in range(k)]
    ok = True
    if what == "length":
        L = ctx.state("len", nf + k + 3)
        rew[which] = ctx.reals("q", L, -3, 3) if L else np.zeros(0)
        ok = L == nf + k
    elif what == "position":
        pos[which] = int(ctx.int("pos", -3, n + 3))
        ok = 0 <= pos[which] < n
    elif what == "consumes":
        c = ctx.state("c", nf + k + 2)
        c2 = ctx.state("c2", nf + k + 2)
        eat[which] = [c, c2]
        ok = max(c, c2) < nf + k
    elif what == "types":
        t = ctx.state("t", 4)
        ok = False
        if t == 0:
            rew[which] = None
        elif t == 1:
            rew[which] = tuple(ctx.flat(rew[which]))
        elif t == 2:
            pos[which] = 1.0
        else:
            pos[which] = "1"
    else:
        ok = False
        rew[which] = np.zeros((1, nf + k)) if ctx.state("d", 2) else np.zeros((nf + k, 1))
    e = ctx.raises(lambda: E.Environment(mdp, {A.Agent(NAMES[i]): (pos[i], rew[i], eat[i]) for i in range(k)}))
    ctx.check((e is None) == ok, "exactly the valid specifications are accepted: " + what)


@P.job(quick=[dict(n=2, nf=1, k1=1, k2=2), dict(n=3, nf=2, k1=2, k2=1), dict(n=2, nf=1, k1=3, k2=1), dict(n=2, nf=2, k1=1, k2=1)], thorough=[dict(n=3, nf=3, k1=3, k2=3)])
def reused(ctx, n, nf, k1, k2):
    """a model moved to a new environment, after its agents moved"""
    np, E, A = ctx.np, ctx.mod("environments"), ctx.mod("agents")
    mdp, own = mdp_of(ctx, n, nf)
    env1 = E.Environment(mdp, {A.Agent("b%d" % i): (ctx.state("q%d" % i, n), [0.0] * (nf + k1), []) for i in range(k1)})
    if ctx.state("moved", 2):
        env1.set_agent_position("b0", ctx.state("to", n))
    pos = [ctx.state("p%d" % i, n) for i in range(k2)]
    rew = [ctx.reals("r%d_" % i, nf + k2, -3, 3) for i in range(k2)]
    env = E.Environment(mdp, {A.Agent(NAMES[i], n_moves=i + 1): (pos[i], rew[i], []) for i in range(k2)})
    check_env(ctx, env, own, pos, rew, [[]] * k2, [i + 1 for i in range(k2)], " (reused model)")
    mdp.remove_agent_features()
    ctx.check(ctx.exact_array(mdp.features, own) and mdp.n_agents == 0, "removing the rows leaves the model's own features")


P.labels = ["one row per agent after the model's own", "agent row marks the start", "agent knows its row", "own reward function", "own consumption list", "own number of moves",
            "removing the rows leaves the model's own features"] + ["exactly the valid specifications are accepted: " + w for w in ("length", "position", "consumes", "types", "dims")]
