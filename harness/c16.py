"""C16: probabilistic stepping."""
from sx.h import Prop
from harness.util import policy_selector, table_algorithm, snap, same_world

P = Prop("C16")
P.bounds = ["2-3 states, 2 actions, arbitrary start weights, action-value tables and transition rows; greedy and softmax selection"]


def env_of(ctx, sas, q, sel, p):
    np, M, E, A, S = ctx.np, ctx.mod("mdp"), ctx.mod("environments"), ctx.mod("agents"), ctx.mod("algorithms.action_selection")
    n = sas.shape[0]
    mdp = M.MDP(ctx.reals("f", (1, n), -2, 2), sas)
    return E.Environment(mdp, {A.Agent("x", algorithm=table_algorithm(ctx, q), action_selector=getattr(S, sel + "ActionSelector") if sel else policy_selector(ctx, np.zeros(n, dtype=int), sas.shape[1])): (p, [0.0] * 3, [0]),
                               A.Agent("y"): (0, [0.0] * 3, [])})


def expect(ctx, start, pi_p, sas):
    n, na = sas.shape[0], sas.shape[1]
    out = []
    for t in range(n):
        out.append(sum([start[s] * pi_p[s, a] * sas[s, a, t] for s in range(n) for a in range(na)], 0.0))
    return out


@P.job(quick=[dict(n=2, sel="Max", given=True, rows="det"), dict(n=3, sel="Max", given=False, rows="dist"), dict(n=2, sel="Max", given=True, rows="dist"),
              dict(n=2, sel="Softmax", given=False, rows="det"), dict(n=2, sel="Softmax", given=True, rows="det"), dict(n=3, sel="Max", given=True, rows="ring")],
       thorough=[dict(n=3, sel="Max", given=True, rows="det"), dict(n=3, sel="Max", given=True, rows="dist"), dict(n=3, sel="Softmax", given=True, rows="det")])
def propagate(ctx, n, sel, given, rows):
    np = ctx.np
    na = 2
    sas = np.zeros((n, na, n))
    for s in range(n):
        for a in range(na):
            if rows == "dist" and (s == 0 or n == 2):
                sas[s, a, :] = ctx.dist("d%d%d_" % (s, a), n)
            elif rows == "det" and s == 0:
                sas[s, a, ctx.state("n%d" % a, n)] = 1
            else:
                sas[s, a, (s + a) % n] = 1
    keep_sas = sas.copy()
    q = ctx.reals("q", (n, na), -3, 3)
    p = ctx.state("p", n) if not given else n - 1
    env = env_of(ctx, sas, q, sel, p)
    ctx.check_raises(lambda: env.step_proba("x"), "unfitted agent is an error", AttributeError)
    ctx.check_raises(lambda: env.step_proba("z"), "unknown agent is an error", ValueError)
    env.fit("x")
    before = snap(env)
    if given:
        if sel == "Max":
            w = ctx.reals("w", n, 0, 4)
        else:        # exponentials times arbitrary weights are out of reach of the solver
            w = np.array(ctx.pick("w", [[0.25, 0.75, 0.0], [2.0, 0.5, 1.5], [0.0, 3.0, 1.0], [1.0, 0.0, 0.0]])[:n])
        tot = sum([w[s] for s in range(n)], 0.0)
        ctx.assume(tot > 0)
        keep = w.copy()
        out = env.step_proba("x", position=w)
        ctx.check(ctx.exact_array(w, keep), "the given array is not modified")
    else:
        w = [1.0 if s == p else 0.0 for s in range(n)]
        tot = 1.0
        out = env.step_proba("x")
    pi_p = env.agents["x"].pi_p
    e = expect(ctx, w, pi_p, keep_sas)
    ctx.check(tuple(out.shape) == (n,), "one entry per state")
    for t in range(n):
        ctx.check(ctx.close(out[t] * tot, e[t]), "sum over states and actions of the three probabilities")
        ctx.check(out[t] >= 0, "non-negative")
    if not (rows == "dist" and given):
        ctx.check(ctx.close(sum([out[t] for t in range(n)], 0.0), 1.0), "a distribution")
    same_world(ctx, before, snap(env), "the world does not change")


@P.job(quick=[dict(n=2, na=2, det=True), dict(n=3, na=3, det=True), dict(n=2, na=2, det=False), dict(n=3, na=2, det=False, here=True)], thorough=[dict(n=4, na=3, det=True), dict(n=3, na=3, det=False)])
def any_policy(ctx, n, na, det, here=False):
    """any stochastic policy, however unlikely some of its actions"""
    np = ctx.np
    pp = np.zeros((n, na))
    for s in range(n):
        pp[s, :] = ctx.dist("p%d_" % s, na)
    sas = np.zeros((n, na, n))
    for s in range(n):
        for a in range(na):
            sas[s, a, (s + a) % n] = 1 if det or (s + a) % 3 == 0 else 0.25
            if not det and (s + a) % 3:
                sas[s, a, (s + a + 1) % n] = 0.75
    p = ctx.state("p", n)
    env = env_of(ctx, sas.copy(), pp, None, p)
    env.fit("x")
    before = snap(env)
    if here:
        w = [1.0 if s == p else 0.0 for s in range(n)]
        out = env.step_proba("x")
    else:
        w = ctx.pick("w", [[0.25, 0.75, 0.0, 0.0], [0.001, 0.5, 0.499, 0.0], [0.0, 3.0, 0.0001, 1.0]])[:n]
        out = env.step_proba("x", position=np.array(w))
    tot = sum(w)
    for t in range(n):
        e = sum([w[s] / tot * float(sas[s, a, t]) * pp[s, a] for s in range(n) for a in range(na)], 0.0)
        ctx.check(ctx.close(out[t], e), "sum over states and actions of the three probabilities")
    ctx.check(ctx.close(sum([out[t] for t in range(n)], 0.0), 1.0), "a distribution")
    same_world(ctx, before, snap(env), "the world does not change")


@P.job(quick=[dict(n=3)])
def unvalued(ctx, n):
    """states without valued actions contribute nothing; states with zero weight are ignored"""
    np = ctx.np
    na = 2
    sas = np.zeros((n, na, n))
    for s in range(n):
        for a in range(na):
            sas[s, a, (s + a) % n] = 1
    q = ctx.reals("q", (n, na), -3, 3)
    miss = [ctx.state("m%d" % s, 2) for s in range(n)]
    if all(miss):
        return
    for s in range(n):
        if miss[s]:
            q[s, :] = np.nan
    env = env_of(ctx, sas, q, "Max", 0)
    env.fit("x")
    w = ctx.reals("w", n, 0, 1)
    ctx.assume(sum([w[s] for s in range(n)], 0.0) == 1)
    out = env.step_proba("x", position=w)
    pp = env.agents["x"].pi_p
    for t in range(n):
        e = sum([w[s] * pp[s, a] * sas[s, a, t] for s in range(n) if not miss[s] for a in range(na)], 0.0)
        ctx.check(ctx.close(out[t], e), "only valued states propagate")


P.labels = ["unfitted agent is an error", "unknown agent is an error", "the given array is not modified", "sum over states and actions of the three probabilities", "a distribution",
            "the world does not change", "only valued states propagate"]
