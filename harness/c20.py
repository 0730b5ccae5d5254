"""C20: tree search only simulates legal moves and leaves the world alone."""
from sx.h import Prop
from harness import mc
from harness.util import snap, same_world

P = Prop("C20")
P.bounds = ["1x3, 2x2 and 2x3 grids with every wall layout, one or two agents at every position, 2-3 iterations of 1-3 own moves over 1-2 turns, every random choice of the search"]


@P.job(quick=[dict(kind="Square", shape=(1, 3), plan=((2,), (1,)), it=2), dict(kind="Square", shape=(2, 2), plan=((1, 1), (1, 1)), it=2), dict(kind="Hex", shape=(2, 2), plan=((1,), (2,)), it=2),
              dict(kind="Square", shape=(1, 3), plan=((0, 2), (3, 0)), it=2)],
       thorough=[dict(kind="Square", shape=(2, 3), plan=((2,), (1,)), it=1), dict(kind="Square", shape=(2, 2), plan=((2,), (1,)), it=3)])
def alone(ctx, kind, shape, plan, it):
    """non-interactive: only the planning agent moves"""
    np = ctx.np
    shape = tuple(shape)
    n = shape[0] * shape[1]
    walls = ctx.layout("w", n)
    p = ctx.state("p", n)
    f = ctx.bits("f", (1, n)) if n < 4 else np.arange(1, n + 1).reshape(1, n) / 2
    w = ctx.reals("r", 3, -3, 3)
    agents = [(p, 1, w, [0]), (n - 1, 1, [0.0, 0.0, 1.0], [])]
    env = mc.build(ctx, dict(kind=kind, shape=shape, walls=walls), f, agents, n_iter=it)
    if not mc.succ(ctx, env.mdp.sas, p):
        return
    before = snap(env)
    moves = [list(r) for r in plan]
    alg = mc.fit(env, moves)
    ctx.check(moves == [list(r) for r in plan], "the plan is not modified")
    same_world(ctx, before, snap(env), "the world is left alone")
    ctx.check(env.n_steps == 0, "planning is not stepping")
    mc.check_all(ctx, env, alg, before, agents, 1, plan, False, n_iter=it, selection=False)


@P.job(quick=[dict(shape=(1, 3), plan=((1,), (1,)), it=2), dict(shape=(2, 2), plan=((1,), (1,)), it=1, at=0), dict(shape=(2, 2), plan=((1,), (1,)), it=1, at=3), dict(shape=(1, 3), plan=((1, 1), (0, 1)), it=1), dict(shape=(1, 3), plan=((1, 0), (1, 1)), it=1)],
       thorough=[dict(shape=(2, 2), plan=((1,), (1,)), it=1), dict(shape=(1, 3), plan=((2,), (2,)), it=2), dict(shape=(2, 2), plan=((2,), (1,)), it=1)])
def together(ctx, shape, plan, it, at=None):
    """interactive with an opponent that moves at random"""
    np = ctx.np
    shape = tuple(shape)
    n = shape[0] * shape[1]
    walls = ctx.layout("w", n)
    p, o = ctx.state("p", n) if at is None else at, ctx.state("o", n)
    f = np.ones((1, n))
    w = ctx.reals("r", 3, -3, 3)
    eats = ctx.state("eats", 3)
    agents = [(p, 1, w, [0, 2] if eats == 1 else [0]), (o, 1, [1.0, 0.0, 0.0], [0, 1] if eats == 2 else [])]
    env = mc.build(ctx, dict(kind="Square", shape=shape, walls=walls), f, agents, n_iter=it, interactive=True, opponent_policy_method="random", caught_cost=-7)
    if not mc.succ(ctx, env.mdp.sas, p) or not mc.succ(ctx, env.mdp.sas, o):
        return
    before = snap(env)
    moves = [list(r) for r in plan]
    alg = mc.fit(env, moves)
    ctx.check(moves == [list(r) for r in plan], "the plan is not modified")
    same_world(ctx, before, snap(env), "the world is left alone")
    mc.check_all(ctx, env, alg, before, agents, 1, plan, True, cost=-7, n_iter=it, selection=False)


@P.job(quick=[dict(steps=3, m=2, other=1, inter=True), dict(steps=2, m=1, other=2, inter=False), dict(steps=1, m=3, other=1, inter=True), dict(steps=4, m=3, other=1, inter=False)])
def no_plan(ctx, steps, m, other, inter):
    """without an explicit plan: n_steps own moves, split over turns of the agents' own number of moves"""
    np = ctx.np
    n = 3
    p = ctx.state("p", n)
    w = ctx.reals("r", 3, -3, 3)
    agents = [(p, m, w, []), (1, other, [1.0, 0.0, 0.0], [])]
    env = mc.build(ctx, dict(kind="Square", shape=(1, 3)), np.array([[1.0, 0.0, 0.5]]), agents, n_iter=1, n_steps=steps, interactive=inter, opponent_policy_method="random")
    before = snap(env)
    alg = mc.fit(env)
    t = -(-steps // m)
    plan = [[max(0, min(steps - i * m, m)) for i in range(t)], [other] * t]
    same_world(ctx, before, snap(env), "the world is left alone")
    mc.check_all(ctx, env, alg, before, agents, 1, plan, inter, n_iter=1, selection=False)


P.labels = ["makes all planned own moves unless caught", "moves only along existing transitions", "makes no more than the planned moves, none after being caught", "the world is left alone",
            "action value = successor's value over one plus its visits", "missing for everything but the available actions of the position", "one path per iteration", "the plan is not modified"]
