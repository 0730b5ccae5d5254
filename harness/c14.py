"""C14: reset."""
from sx.h import Prop
from harness.util import table_algorithm, policy_selector, snap, same_agent, same_world

P = Prop("C14")
P.bounds = ["2-3 states, 1-2 features with arbitrary values, two agents that consume a feature and each other, every policy and position, histories of up to 3 operations "
            "(step / reposition of either agent, an extra reset), then reset, rerun and reset again"]
HIST = ["x", "xy", "xX", "Xx", "xRx", "YXy", "xyx", "xxY"]


def run(env, hist, tos):
    for k, op in enumerate(hist):
        if op in "xy":
            env.step(op)
        elif op in "XY":
            env.set_agent_position(op.lower(), tos[k])
        else:
            env.reset()
            for a in env.agents:
                env.fit(a)


@P.job(quick=[dict(n=2, nf=1, hist=h, both=h in ("x", "xy", "xX")) for h in HIST] + [dict(n=3, nf=1, hist="xy", both=False), dict(n=2, nf=2, hist="xx", both=False)],
       thorough=[dict(n=3, nf=2, hist="xyx", both=True), dict(n=3, nf=1, hist="xyX", both=True), dict(n=2, nf=1, hist="xyRxy", both=True)])
def history(ctx, n, nf, hist, both):
    np, M, E, A = ctx.np, ctx.mod("mdp"), ctx.mod("environments"), ctx.mod("agents")
    na = 2
    sas = np.zeros((n, na, n))
    for s in range(n):
        sas[s, 0, s] = 1
        sas[s, 1, (s + 1) % n] = 1
    feats = ctx.reals("f", (nf, n), -2, 2)
    own = feats.copy()
    mdp = M.MDP(feats, sas)
    pis = [ctx.ints("pi%d_" % i, n, 0, 1) for i in range(2)]
    p = [ctx.state("p0", n), ctx.state("p1", n)]
    q = np.zeros((n, na))
    env = E.Environment(mdp, {A.Agent("xy"[i], algorithm=table_algorithm(ctx, q), action_selector=policy_selector(ctx, pis[i], na)):
                              (p[i], [0.5] * (nf + 2), [0, nf + 1 - i] if both or i == 0 else []) for i in range(2)})
    start = snap(env)
    tos = {k: ctx.state("to%d" % k, n) for k, op in enumerate(hist) if op in "XY"}
    for a in env.agents:
        env.fit(a)
    run(env, hist, tos)
    first = snap(env)
    kept = {k: env.get_agent_position_history(k) for k in env.agents}
    env.reset()
    for k in kept:
        ctx.check(list(kept[k]) == first["agents"][k]["history"], "a history read before the reset is not erased by it")
    for i, name in enumerate("xy"):
        a = env.agents[name]
        ctx.check(a.position == p[i], "back at the starting position")
        ctx.check(list(a.position_history) == [p[i]], "history holds just the start")
        ctx.check(a.pi is None and a.pi_p is None, "no policy")
        ctx.check(ctx.exact_array(a.consumed, np.zeros(nf + 2)), "consumption counts zero")
    ctx.check(ctx.exact_array(env.mdp.features[:nf], own), "model features restored")
    same_world(ctx, start, snap(env), "as built")
    for a in env.agents:
        env.fit(a)
    run(env, hist, tos)
    same_world(ctx, first, snap(env), "same history, same effects")
    env.reset()
    once = snap(env)
    env.reset()
    same_world(ctx, once, snap(env), "resetting twice is resetting once")
    same_world(ctx, start, snap(env), "as built after a second run")


P.labels = ["back at the starting position", "history holds just the start", "no policy", "consumption counts zero", "model features restored", "as built", "same history, same effects",
            "resetting twice is resetting once"]
