"""C18: multi-step moves."""
import warnings
from sx.h import Prop
from harness.util import NAMES, table_algorithm, policy_selector, snap, same_world, same_agent

P = Prop("C18")
P.bounds = ["ring models of 2-3 states with a stay and a forward action, every policy, two or three agents at every position, the mover consuming the other agent's row, a model feature, both or nothing; "
            "0-3 steps given as None, int or list; planning totals 1..4, 1-3 planned turns"]


def ring(ctx, n, pos, eat, moves, logs, name="pi"):
    np, M, E, A = ctx.np, ctx.mod("mdp"), ctx.mod("environments"), ctx.mod("agents")
    sas = np.zeros((n, 2, n))
    for s in range(n):
        sas[s, 0, s] = 1
        sas[s, 1, (s + 1) % n] = 1
    k = len(pos)
    mdp = M.MDP(np.ones((1, n)), sas)
    q = np.zeros((n, 2))
    pis = [ctx.ints("%s%d_" % (name, i), n, 0, 1) for i in range(k)]
    env = E.Environment(mdp, {A.Agent(NAMES[i], n_moves=moves[i], algorithm=table_algorithm(ctx, q, log=logs[i]), action_selector=policy_selector(ctx, pis[i], 2)):
                              (pos[i], [0.0] * (k + 1), eat[i]) for i in range(k)})
    return env, pis


def go(n, pi, s):
    return (s + int(pi[s])) % n


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def turns(c, t, n, p):
    """moves c..c+p-1 by turn of n moves"""
    return [max(0, min(c + p, (i + 1) * n) - max(c, i * n)) for i in range(t)]


@P.job(quick=[dict(n=3, k=2, form="int"), dict(n=2, k=2, form="none"), dict(n=3, k=2, form="list"), dict(n=2, k=3, form="int")], thorough=[dict(n=4, k=2, form="int"), dict(n=3, k=3, form="list")])
def moves(ctx, n, k, form):
    np = ctx.np
    own = [ctx.state("m", 3) + 1, 2, 1][:k]
    mover = 0 if k == 3 else ctx.state("mover", k)
    pos = [ctx.state("p%d" % i, n) for i in range(k)]
    eats = ctx.state("eats", 4 if k == 2 else 6)
    other = (mover + 1) % k
    third = (mover + 2) % k
    eat = [[] for _ in range(k)]
    eat[mover] = [[], [1 + other], [0], [0, 1 + other], [1 + other, 1 + third], [1 + third, 0, 1 + other]][eats]
    eat[other] = [1 + mover]
    env, pis = ring(ctx, n, pos, eat, own, [[] for _ in range(k)])
    name = NAMES[mover]
    env.fit(name)
    stop = bool(ctx.state("stop", 2))
    if form == "none":
        steps, arg = own[mover], None
    else:
        steps = ctx.state("steps", 4)
        arg = steps if form == "int" else [steps] + [3] * (k - 1)
    before = snap(env)
    exp, cur, caught = [], pos[mover], False
    for _ in range(steps):
        cur = go(n, pis[mover], cur)
        exp.append(cur)
        if any((1 + o) in eat[mover] and cur == pos[o] for o in range(k) if o != mover):
            caught = True
            if stop:
                break
    kw = dict(stop_on_caught=False) if not stop else (dict(stop_on_caught=True) if k == 2 else {})
    got = quiet(lambda: env.step_multi(name, n_steps=arg, **kw))
    a = env.agents[name]
    ctx.check(list(a.position_history) == [pos[mover]] + exp, "exactly the expected single steps, in order")
    ctx.check(env.n_steps == before["n_steps"] + len(exp), "every step counted")
    ctx.check(a.position == (exp[-1] if exp else pos[mover]), "final position")
    if caught and stop:
        ctx.check(got is False, "stops at the catch and returns False")
    else:
        ctx.check(got is not False and [int(x) for x in got] == exp, "returns the positions reached")
    for i in range(k):
        if i != mover:
            same_agent(ctx, before["agents"][NAMES[i]], snap(env)["agents"][NAMES[i]], "other agents stay")


@P.job(quick=[dict(k=2, form="int", plan=True), dict(k=2, form="list", plan=False), dict(k=3, form="none", plan=False), dict(k=2, form="none", plan=True)],
       thorough=[dict(k=3, form="list", plan=True), dict(k=3, form="int", plan=True)])
def refit(ctx, k, form, plan):
    """the planner is refitted before each step with the planned moves per turn"""
    np = ctx.np
    n = 2
    own = [ctx.state("m0", 3) + 1, ctx.state("m1", 2) + 1, 2][:k]
    logs = [[] for _ in range(k)]
    mover = ctx.state("mover", k)
    order = [mover] + [i for i in range(k) if i != mover]
    env, pis = ring(ctx, n, [0] * k, [[] for _ in range(k)], own, logs)
    pis[mover][0], pis[mover][1] = 1, 1
    per = [own[i] for i in order]
    if form == "none":
        steps, arg = own[mover], None
    elif form == "int":
        steps = ctx.state("steps", 4)
        arg = steps
        per[0] = steps
    else:
        arg = [ctx.state("steps", 4)] + [ctx.state("o%d" % i, 2) + 1 for i in range(k - 1)]
        steps, per = arg[0], list(arg)
    t = ctx.state("turns", 3) + 1
    if plan:
        tot = [ctx.state("t0", 4) + 1] + [ctx.state("t%d" % i, 2) + 2 for i in range(1, k)]
        given = tuple(tot) if ctx.state("tup", 2) else list(tot)
    else:
        tot, given = [own[i] for i in order], None
    name = NAMES[mover]
    got = quiet(lambda: env.step_multi(name, n_steps=arg, n_moves_plan=given, n_turns_plan=t, refit=True))
    ctx.check(given is None or list(given) == tot, "planning totals not modified")
    ctx.check(len(logs[mover]) == steps, "refitted before each step")
    ctx.check(all(not logs[i] for i in range(k) if i != mover), "other agents are not refitted")
    ctx.check(len(got) == steps, "exactly the expected single steps, in order")
    at = 0
    for i, l in enumerate(logs[mover]):
        ctx.check(int(l["position"]) == at, "fitted at the current position")
        at = int(got[i])
        told = [[int(x) for x in row] for row in l["n_moves"]]
        ctx.check(len(told) == k, "one entry per agent")
        ctx.check(told[0] == turns(i, t, per[0], tot[0]), "the mover's planned moves per turn")
        for j in range(1, k):
            ctx.check(told[j] == turns(0, t, per[j], tot[j]), "other agents' planned moves per turn")


@P.job(quick=[dict(k=2, refit=False), dict(k=3, refit=True)])
def rejected(ctx, k, refit):
    np = ctx.np
    n = 2
    logs = [[] for _ in range(k)]
    env, pis = ring(ctx, n, [0] * k, [[] for _ in range(k)], [2] * k, logs)
    env.fit(NAMES[0])
    logs[0].clear()
    before = snap(env)
    what = ctx.state("what", 3)
    if what == 0:
        f = lambda: env.step_multi("nobody", refit=refit)
    elif what == 1:
        L = ctx.state("len", k + 2)
        if L == k:
            return
        f = lambda: env.step_multi(NAMES[0], n_moves_plan=[1] * L, refit=refit)
    else:
        vals = [int(ctx.int("v%d" % i, -1, 2)) for i in range(k)]
        if all(v > 0 for v in vals):
            e = ctx.raises(lambda: env.step_multi(NAMES[0], n_moves_plan=vals, refit=refit))
            ctx.check(e is None, "valid totals are accepted")
            return
        f = lambda: env.step_multi(NAMES[0], n_moves_plan=vals, refit=refit)
    ctx.check_raises(f, "bad requests are rejected", ValueError)
    same_world(ctx, before, snap(env), "rejected before anything moves")
    ctx.check(not any(logs), "rejected before fitting")


P.labels = ["exactly the expected single steps, in order", "stops at the catch and returns False", "returns the positions reached", "other agents stay", "refitted before each step",
            "the mover's planned moves per turn", "other agents' planned moves per turn", "bad requests are rejected", "rejected before anything moves", "valid totals are accepted"]
