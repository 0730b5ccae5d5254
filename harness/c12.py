"""C12: stepping keeps position, history, features and counters in step."""
from sx.h import Prop
from harness.util import NAMES, table_algorithm, policy_selector, snap, same_agent, same_world

P = Prop("C12")
P.bounds = ["1x3, 2x2 square and hexagonal grids with every wall layout, two agents at every pair of positions, every deterministic policy, sequences of up to 3 operations (step or reposition of either agent)",
            "stochastic models of 3 states with arbitrary rows, every draw; every action-value table of 2-3 states and 2 actions with greedy and softmax selection"]


def after_move(ctx, env, b, name, before, what):
    """position, history, feature row and counters after `name` moved to b"""
    now = snap(env)
    a = now["agents"][name]
    old = before["agents"][name]
    ctx.check(ctx.eq(a["position"], b), "position updated" + what)
    n = env.mdp.n_states
    row = a["idx"]
    for s in range(n):
        ctx.check(ctx.close(now["features"][row, s], ctx.ite(ctx.eq(b, s), 1.0, 0.0), 0), "agent row marks exactly the new position" + what)
    for f in range(now["features"].shape[0]):
        if f != row:
            ctx.check(ctx.exact_array(now["features"][f], before["features"][f]), "other feature rows unchanged" + what)
    for k in now["agents"]:
        if k != name:
            same_agent(ctx, before["agents"][k], now["agents"][k], "other agents unchanged" + what)
    ctx.check(ctx.exact_array(now["sas"], before["sas"]), "transitions unchanged" + what)
    ctx.check(ctx.exact_array(a["consumed"], old["consumed"]), "nothing consumed" + what)
    return now, a, old


def make(ctx, kind, shape, pis, positions, walls):
    np, M, E, A = ctx.np, ctx.mod("mdp"), ctx.mod("environments"), ctx.mod("agents")
    n = shape[0] * shape[1]
    feats = ctx.reals("f", (1, n), -3, 3)
    mdp = getattr(M, kind + "GridMDP")(features=feats, walls=walls, shape=shape)
    na = mdp.n_actions
    q = np.zeros((n, na))
    agents = {}
    for i, p in enumerate(positions):
        agents[A.Agent(NAMES[i], algorithm=table_algorithm(ctx, q), action_selector=policy_selector(ctx, pis[i], na))] = (
            p, [0.0] * (1 + len(positions)), [])
    return E.Environment(mdp, agents)


@P.job(quick=[dict(kind="Square", shape=(1, 3), ops=("step", "step", "step"), who=(0, 1, 0)), dict(kind="Square", shape=(2, 2), ops=("step", "step"), who=(0, 0)),
              dict(kind="Square", shape=(2, 2), ops=("set", "step"), who=(1, 1)), dict(kind="Hex", shape=(2, 2), ops=("step", "set"), who=(1, 0)),
              dict(kind="Hex", shape=(2, 2), ops=("step", "step"), who=(1, 0))],
       thorough=[dict(kind="Hex", shape=(2, 2), ops=("step", "set", "step"), who=(0, 1, 0)), dict(kind="Square", shape=(2, 3), ops=("step", "step"), who=(0, 1))])
def sequence(ctx, kind, shape, ops, who):
    np = ctx.np
    shape = tuple(shape)
    n = shape[0] * shape[1]
    na = 4 if kind == "Square" else 6
    walls = ctx.bits("w", n)
    pos = [ctx.state("p0", n), (n - 1 if who[0] == 0 and 1 not in who else ctx.state("p1", n))]
    pis = [ctx.ints("pi%d_" % i, n, -1, na - 1) for i in range(2)]
    env = make(ctx, kind, shape, pis, pos, walls)
    for i in range(2):
        a = env.agents[NAMES[i]]
        ctx.check(a.position == pos[i] and list(a.position_history) == [pos[i]], "history starts with the start position")
    env.fit(NAMES[0])
    env.fit(NAMES[1])
    hist = [[pos[0]], [pos[1]]]
    for k, (op, w) in enumerate(zip(ops, who)):
        name = NAMES[w]
        before = snap(env)
        if op == "set":
            b = ctx.state("to%d" % k, n)
            env.set_agent_position(name, b)
            now, a, old = after_move(ctx, env, b, name, before, " (repositioned)")
            ctx.check(now["n_steps"] == before["n_steps"], "repositioning is not a step")
            continue
        here = int(before["agents"][name]["position"])
        act = int(pis[w][here])
        if act < 0 or not bool(ctx.Or(*[env.mdp.sas[here, act, t] > 0 for t in range(n)])):
            e = ctx.raises(lambda: env.step(name))
            ctx.check(e is not None, "no usable action is an error")
            same_world(ctx, before, snap(env), "a refused step moves nothing")
            ctx.check(env.n_steps == before["n_steps"], "a refused step is not counted")
            return
        r = env.step(name)
        b = int(r)
        ctx.check(env.mdp.sas[here, act, b] > 0, "moved along the policy's action")
        now, a, old = after_move(ctx, env, b, name, before, "")
        hist[w].append(b)
        ctx.check(len(a["history"]) == len(old["history"]) + 1 and ctx.all([ctx.eq(x, y) for x, y in zip(a["history"], old["history"] + [b])]),
                  "exactly the new position is appended to the history")
        ctx.check(now["n_steps"] == before["n_steps"] + 1, "one step counted")
        ctx.check(list(env.get_agent_position_history(name)) == hist[w] if "set" not in ops else True, "history query")


@P.job(quick=[dict(n=3, steps=2, seed=None), dict(n=3, steps=1, seed=3)], thorough=[dict(n=3, steps=3, seed=1)])
def stochastic(ctx, n, steps, seed):
    np, M, E, A = ctx.np, ctx.mod("mdp"), ctx.mod("environments"), ctx.mod("agents")
    sas = np.zeros((n, 1, n))
    for s in range(n):
        sas[s, 0, :] = ctx.dist("d%d_" % s, n)
    mdp = M.MDP(np.zeros((1, n)), sas, seed=seed)
    q = np.zeros((n, 1))
    env = E.Environment(mdp, {A.Agent("x", algorithm=table_algorithm(ctx, q)): (ctx.state("p", n), [0.0] * 3, []),
                              A.Agent("y", algorithm=table_algorithm(ctx, q)): (0, [0.0] * 3, [])})
    env.fit("x")
    for k in range(steps):
        before = snap(env)
        here = int(env.agents["x"].position)
        b = int(env.step("x"))
        ctx.check(sas[here, 0, b] > 0, "moved along a transition of positive probability")
        after_move(ctx, env, b, "x", before, "")


@P.job(quick=[dict(sel="Max", n=2), dict(sel="Softmax", n=2), dict(sel="Max", n=3, nan=False)])
def tables(ctx, sel, n, nan=True):
    """real selectors on every table: the move follows an action the selector allows in the current state"""
    np, M, E, A, S = ctx.np, ctx.mod("mdp"), ctx.mod("environments"), ctx.mod("agents"), ctx.mod("algorithms.action_selection")
    na = 2
    sas = np.zeros((n, na, n))
    for s in range(n):
        sas[s, 0, (s + 1) % n] = 1
        sas[s, 1, s] = 1
    p = ctx.state("p", n)
    q = ctx.reals("q", (n, na), -5, 5)
    for s in range(n):
        if s != p:
            q[s] = np.array([1.0, 0.0])
    k = [ctx.state("k%d" % a, 2) if nan else 0 for a in range(na)]
    for a in range(na):
        if k[a]:
            q[p, a] = np.nan
    mdp = M.MDP(np.zeros((1, n)), sas)
    env = E.Environment(mdp, {A.Agent("x", algorithm=table_algorithm(ctx, q), action_selector=getattr(S, sel + "ActionSelector")): (p, [0.0] * 3, []),
                              A.Agent("y", algorithm=table_algorithm(ctx, q)): (0, [0.0] * 3, [])})
    before = snap(env)
    ctx.check_raises(lambda: env.step("x"), "stepping an unfitted agent is an error", AttributeError)
    ctx.check_raises(lambda: env.step("z"), "unknown agent is an error", ValueError)
    ctx.check_raises(lambda: env.fit("z"), "unknown agent is an error", ValueError)
    ctx.check_raises(lambda: env.set_agent_position("z", 0), "unknown agent is an error", ValueError)
    same_world(ctx, before, snap(env), "a refused step moves nothing")
    ctx.check(env.n_steps == 0, "a refused step is not counted")
    env.fit("x")
    if all(k):
        ctx.check_raises(lambda: env.step("x"), "no valued action in this state is an error", ValueError)
        same_world(ctx, before, snap(env), "a refused step moves nothing")
        ctx.check(env.n_steps == 0, "a refused step is not counted")
        return
    b = int(env.step("x"))
    a = 0 if b == (p + 1) % n else 1
    ctx.check(sas[p, a, b] == 1 and not k[a], "the move belongs to a valued action")
    if sel == "Max" and not any(k):
        ctx.check(q[p, a] >= q[p, 1 - a], "greedy steps take a best action")
    after_move(ctx, env, b, "x", before, "")
    ctx.check(ctx.eq(env.agents["x"].pi[p], a), "the published policy is the one followed")


@P.job(quick=[dict(sel="Softmax"), dict(sel="Max")])
def fresh_draw(ctx, sel):
    """every step draws its action anew: an agent that stayed may stay again or leave"""
    np, M, E, A, S = ctx.np, ctx.mod("mdp"), ctx.mod("environments"), ctx.mod("agents"), ctx.mod("algorithms.action_selection")
    sas = np.zeros((2, 2, 2))
    for s in range(2):
        sas[s, 0, s] = 1
        sas[s, 1, 1 - s] = 1
    q = np.zeros((2, 2))
    env = E.Environment(M.MDP(np.zeros((1, 2)), sas), {A.Agent("x", algorithm=table_algorithm(ctx, q), action_selector=getattr(S, sel + "ActionSelector")): (0, [0.0] * 2, [])})
    env.fit("x")
    ctx.exists("stay, stay", "stay, leave", "leave, leave", "leave, stay")
    b = [int(env.step("x")) for _ in range(2)]
    ctx.reach("%s, %s" % ("leave" if b[0] else "stay", "leave" if b[1] != b[0] else "stay"))
    ctx.check(list(env.get_agent_position_history("x")) == [0] + b, "history query")


@P.job(quick=[dict(how="selector"), dict(how="fit")])
def current_policy(ctx, how):
    """the step follows the action values and the selector the agent has now, not those of an earlier fit"""
    np, M, E, A, S = ctx.np, ctx.mod("mdp"), ctx.mod("environments"), ctx.mod("agents"), ctx.mod("algorithms.action_selection")
    n = 3
    sas = np.zeros((n, 2, n))
    for s in range(n):
        sas[s, 0, (s + 1) % n] = 1
        sas[s, 1, (s + 2) % n] = 1
    tabs = [ctx.ints("a%d_" % k, n, 0, 1) for k in range(2)]
    pis = [np.array([int(x) for x in t]) for t in tabs]
    qs = [np.array([[1.0 if int(x) == a else 0.0 for a in range(2)] for x in t]) for t in pis]
    cur = [qs[0]]
    p = ctx.state("p", n)
    env = E.Environment(M.MDP(np.zeros((1, n)), sas), {A.Agent("x", algorithm=table_algorithm(ctx, lambda self: cur[0].copy())): (p, [0.0] * 2, [])})
    env.fit("x")
    b = int(env.step("x"))
    ctx.check(sas[p, int(pis[0][p]), b] == 1, "moved along the policy's action")
    if how == "selector":
        env.agents["x"].action_selector = policy_selector(ctx, pis[1], 2)()
    elif how == "fit":
        cur[0] = qs[1]
        env.fit("x")
    c = int(env.step("x"))
    ctx.check(sas[b, int(pis[1][b]), c] == 1, "moved along the policy's action")
    ctx.check(ctx.eq(env.agents["x"].pi[b], pis[1][b]), "the published policy is the one followed")


P.labels = ["history starts with the start position", "position updated", "position updated (repositioned)", "agent row marks exactly the new position", "other agents unchanged",
            "no usable action is an error", "a refused step moves nothing", "moved along the policy's action", "exactly the new position is appended to the history",
            "one step counted", "moved along a transition of positive probability", "stepping an unfitted agent is an error", "unknown agent is an error",
            "no valued action in this state is an error", "greedy steps take a best action", "history query"]
