"""C13: feature consumption."""
from sx.h import Prop
from harness.util import NAMES, table_algorithm, policy_selector, snap, same_agent

P = Prop("C13")
P.bounds = ["2-3 states, 1-2 model features with arbitrary real values plus the rows of two agents, every consumption list (subset of all feature indices, agent rows included), "
            "sequences of up to 3 steps of two agents under every policy"]


def subset(ctx, name, m):
    return [f for f in range(m) if ctx.state("%s%d" % (name, f), 2)]


def eat(ctx, env, who, before):
    """expected features and counts after `who` stepped to its current position, from the state before the step"""
    F = before["features"].copy()
    a = env.agents[who]
    b = int(a.position)
    row = before["agents"][who]["idx"]
    F[row, :] = 0
    F[row, b] = 1
    count = {k: v["consumed"].copy() for k, v in before["agents"].items()}
    for f in range(F.shape[0]):
        if f in before["agents"][who]["consumes"] and bool(F[f, b] > 0):
            F[f, b] = 0
            count[who][f] = count[who][f] + 1
    return F, count


@P.job(quick=[dict(n=2, nf=2, who=(0,), two=False), dict(n=2, nf=1, who=(0, 1), two=True), dict(n=2, nf=1, who=(0, 0, 0), two=False), dict(n=3, nf=1, who=(1, 0), two=False),
              dict(n=2, nf=2, who=(0, 0), two=False)],
       thorough=[dict(n=2, nf=1, who=(0, 1, 0), two=True), dict(n=3, nf=2, who=(0, 1), two=False)])
def steps(ctx, n, nf, who, two):
    np, M, E, A = ctx.np, ctx.mod("mdp"), ctx.mod("environments"), ctx.mod("agents")
    na = 2
    sas = np.zeros((n, na, n))
    for s in range(n):
        sas[s, 0, s] = 1
        sas[s, 1, (s + 1) % n] = 1
    feats = ctx.reals("f", (nf, n), -2, 2)
    mdp = M.MDP(feats, sas)
    pis = [ctx.ints("pi%d_" % i, n, 0, 1) for i in range(2)]
    ate = subset(ctx, "c0_", nf + 2), (subset(ctx, "c1_", nf + 2) if two else [0])
    p = [ctx.state("p0", n), ctx.state("p1", n)]
    q = np.zeros((n, na))
    env = E.Environment(mdp, {A.Agent(NAMES[i], algorithm=table_algorithm(ctx, q), action_selector=policy_selector(ctx, pis[i], na)): (p[i], [0.0] * (nf + 2), ate[i]) for i in range(2)})
    for i in range(2):
        ctx.check(ctx.exact_array(env.agents[NAMES[i]].consumed, np.zeros(nf + 2)), "counts start at zero")
        env.fit(NAMES[i])
    for w in who:
        name = NAMES[w]
        before = snap(env)
        env.step(name)
        F, count = eat(ctx, env, name, before)
        b = int(env.agents[name].position)
        for f in range(nf + 2):
            for s in range(n):
                lab = "features elsewhere untouched" if s != b else ("consumed where present" if f in ate[w] else "not consumed: untouched")
                ctx.check(ctx.close(env.mdp.features[f, s], F[f, s], 0), lab)
        for k in env.agents:
            ctx.check(ctx.exact_array(env.agents[k].consumed, count[k]), "counted once each" if k == name else "other agents' counts unchanged")
        other = NAMES[1 - w]
        same_agent(ctx, before["agents"][other], snap(env)["agents"][other], "other agents unchanged")


@P.job(quick=[dict(n=2, nf=3), dict(n=3, nf=2)], thorough=[dict(n=4, nf=4)])
def direct(ctx, n, nf):
    """MDP.consume_features on arbitrary feature arrays and lists (with repeats)"""
    np, M = ctx.np, ctx.mod("mdp")
    sas = np.zeros((n, 1, n))
    sas[:, 0, 0] = 1
    feats = ctx.reals("f", (nf, n), -2, 2)
    keep = feats.copy()
    mdp = M.MDP(feats, sas)
    s0 = ctx.state("s", n)
    lst = subset(ctx, "c", nf)
    if lst and ctx.state("rep", 2):
        lst = lst + [lst[0]]
    c = mdp.consume_features(lst, s0)
    ctx.check(len(c) == nf, "one count per feature")
    for f in range(nf):
        hit = ctx.And(f in lst, keep[f, s0] > 0)
        ctx.check(ctx.close(c[f], ctx.ite(hit, 1, 0), 0), "counted once each")
        for s in range(n):
            ctx.check(ctx.close(mdp.features[f, s], ctx.ite(ctx.And(hit, s == s0), 0.0, keep[f, s]), 0), "consumed where present")
    c2 = mdp.consume_features(lst, s0)
    ctx.check(ctx.exact_array(c2, np.zeros(nf)), "already eaten: not counted again")


P.labels = ["counts start at zero", "features elsewhere untouched", "consumed where present", "not consumed: untouched", "counted once each", "other agents' counts unchanged",
            "other agents unchanged", "already eaten: not counted again"]
