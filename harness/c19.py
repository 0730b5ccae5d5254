"""C19: interactive turns."""
import copy
import itertools
from sx.h import Prop
from harness.util import NAMES, snap
from harness.c18 import ring, go, quiet

P = Prop("C19")
P.bounds = ["ring models of 2-3 states, two or three agents in every order (and subsets), every policy and position, 1-3 turns, move tables with entries 0..2 or the agents' own moves, "
            "with and without refitting, catches by either agent"]


def expect(n, k, pis, pos, eat, order, table, stop):
    """sequence of (agent, new position) and whether play stopped"""
    cur, out = list(pos), []
    food, ate = [1] * n, [0] * k
    for t in range(len(table[0])):
        for row, w in enumerate(order):
            for _ in range(table[row][t]):
                cur[w] = go(n, pis[w], cur[w])
                out.append((w, cur[w]))
                ate[w] += food[cur[w]]
                food[cur[w]] = 0
                if stop and any((1 + o) in eat[w] and cur[o] == cur[w] for o in range(k) if o != w):
                    return out, cur, ate
    return out, cur, ate


@P.job(quick=[dict(n=2, k=2, t=2, form="table", refit=False), dict(n=3, k=2, t=2, form="own", refit=False), dict(n=2, k=2, t=1, form="table", refit=True), dict(n=2, k=3, t=1, form="own", refit=False),
              dict(n=2, k=2, t=3, form="own", refit=True), dict(n=2, k=3, t=2, form="fixed", refit=False)],
       thorough=[dict(n=3, k=2, t=2, form="table", refit=True), dict(n=3, k=3, t=2, form="own", refit=True), dict(n=2, k=2, t=3, form="table", refit=False)])
def turns(ctx, n, k, t, form, refit):
    np, E = ctx.np, ctx.mod("environments")
    own = ([1, 2] if k == 2 else [2, 1, 1])
    orders = [list(o) for m in ((k,) if k == 3 or t * (form == 'table') > 1 else (1, 2)) for o in itertools.permutations(range(k), m)]
    oi = ctx.state("order", len(orders) + 1)
    order = orders[oi] if oi < len(orders) else list(range(k))
    pos = [ctx.state("p%d" % i, n) for i in range(k)] if k == 2 else [0, ctx.state("p1", n), n - 1]
    e = ctx.state("eats", 3)
    eat = [[0] for _ in range(k)]        # everyone eats the same food: who gets it shows the order of moves
    if e == 1:
        eat[0] = [0, 2]
    elif e == 2:
        eat[1] = [1, 0]
    stop = bool(ctx.state("stop", 2)) if e else True
    logs = [[] for _ in range(k)]
    env, pis = ring(ctx, n, pos, eat, own, logs)
    names = [NAMES[i] for i in order]
    if form == "table":
        table = [[ctx.state("t%d_%d" % (r, c), 3 if t == 1 else 2) + (1 if r == c else 0) for c in range(t)] for r in range(len(order))]
    elif form == "fixed":
        table = [[1, 2], [0, 1], [2, 0]]
    else:
        table = [[own[i]] * t for i in order]
    given = None
    if form != "own":
        given = [list(r) for r in table]
        if oi % 2:
            given = tuple(tuple(r) for r in table)
    keep = copy.deepcopy(given)
    for i in range(k):
        env.fit(NAMES[i])
        logs[i].clear()
    kw = dict(n_turns=t) if form == "own" else dict(n_moves=given)
    if oi < len(orders):
        kw["agent_names"] = list(names)
    if refit:
        kw["refit"] = True
    if not stop or e == 1:
        kw["stop_on_caught"] = stop
    plan = None
    if refit and form == "own" and ctx.state("plan", 2):
        plan = [[2] * t for _ in order]
        kw["n_moves_plan"] = plan
    out, cur, ate = expect(n, k, pis, pos, eat, order, table, stop)
    quiet(lambda: env.step_multi_interactive(**kw))
    for i in range(k):
        a = env.agents[NAMES[i]]
        ctx.check(a.position == cur[i] and list(a.position_history) == [pos[i]] + [s for w, s in out if w == i], "each agent makes exactly its moves")
        ctx.check(ctx.eq(a.consumed[0], ate[i]), "moves made in the given order, turn by turn")
    ctx.check(env.n_steps == len(out), "every step counted")
    ctx.check(given is None or given == keep, "supplied tables not modified")
    ctx.check(plan is None or plan == [[2] * t for _ in order], "supplied tables not modified")
    ctx.check("agent_names" not in kw or kw["agent_names"] == names, "agent list not modified")
    if refit:
        for i in range(k):
            ctx.check(len(logs[i]) == len([1 for w, _ in out if w == i]), "refitted before each of its steps")
    if stop and e and len(out) < sum(sum(r) for r in table):
        ctx.reach("stopped by a catch")


@P.job(quick=[dict()])
def unknown(ctx):
    env, pis = ring(ctx, 2, [0, 1], [[], []], [1, 1], [[], []])
    before = snap(env)
    ctx.check_raises(lambda: env.step_multi_interactive(agent_names=[NAMES[0], "zz"]), "unknown agent is an error", ValueError)
    ctx.check(env.n_steps == 0 and list(env.agents[NAMES[0]].position_history) == [0], "rejected before anything moves")


P.labels = ["moves made in the given order, turn by turn", "each agent makes exactly its moves", "supplied tables not modified", "refitted before each of its steps", "stopped by a catch",
            "unknown agent is an error"]
