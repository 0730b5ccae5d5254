"""C07: trajectories, valid actions, adjacency."""
from sx.h import Prop

P = Prop("C07")
P.bounds = ["every transition function with 3 states and 2-3 actions, all trajectories of length up to 4",
            "every wall layout of small grids with all trajectories of length 3"]


def build(ctx, n, na):
    np, M = ctx.np, ctx.mod("mdp")
    sas = ctx.reals("p", (n, na, n), 0, 1)
    return M.MDP(np.zeros((1, n)), sas)


@P.job(quick=[dict(n=3, na=2, k=3), dict(n=2, na=3, k=4), dict(n=2, na=2, k=1), dict(n=2, na=2, k=2)], thorough=[dict(n=3, na=3, k=4), dict(n=4, na=2, k=3)])
def trajectory(ctx, n, na, k):
    mdp = build(ctx, n, na)
    traj = [ctx.state("t%d" % i, n) for i in range(k)]
    conn = [ctx.Or(*[mdp.sas[traj[i], a, traj[i + 1]] > 0 for a in range(na)]) for i in range(k - 1)]
    ok = ctx.And(*conn)
    if bool(ok):
        sa = mdp._trajectory_to_state_action(list(traj))
        ctx.check(tuple(sa.shape) == (k - 1, 2), "one state-action pair per move")
        for i in range(k - 1):
            ctx.check(ctx.close(sa[i, 0], traj[i], 0), "states in order")
            a = int(sa[i, 1])
            ctx.check(0 <= a < na, "a real action")
            for b in range(na):
                ctx.check(ctx.le(mdp.sas[traj[i], b, traj[i + 1]], mdp.sas[traj[i], a, traj[i + 1]], 0), "most likely action for each move")
    else:
        ctx.check_raises(lambda: mdp._trajectory_to_state_action(list(traj)), "a jump between unconnected states is an error", AttributeError)


@P.job(quick=[dict(n=3, na=2), dict(n=2, na=3)], thorough=[dict(n=3, na=4), dict(n=4, na=2)])
def pairs(ctx, n, na):
    np = ctx.np
    mdp = build(ctx, n, na)
    s, t = ctx.state("s", n), ctx.state("t", n)
    pos = [mdp.sas[s, a, t] > 0 for a in range(na)]
    ctx.check(ctx.eq(mdp.is_adjacent(s, t), ctx.Or(*pos)), "adjacent iff some action connects")
    ctx.check(ctx.eq(mdp.adjacency[s, t] == 1, ctx.Or(*pos)), "adjacency matrix")
    ctx.check(ctx.Or(mdp.adjacency[s, t] == 0, mdp.adjacency[s, t] == 1), "adjacency matrix")
    if bool(ctx.Or(*pos)):
        best = mdp._state_pair_to_action(s, t)
        ctx.check(len(best) == 1, "one most likely action")
        for a in range(na):
            ctx.check(ctx.le(mdp.sas[s, a, t], mdp.sas[s, int(best[0]), t], 0), "the most likely action")
        got = [int(a) for a in mdp._state_pair_to_action(s, t, return_max=False)]
        for a in range(na):
            ctx.check(ctx.eq(pos[a], a in got), "exactly the connecting actions")
        ctx.check(len(set(got)) == len(got), "each connecting action once")
    else:
        ctx.check_raises(lambda: mdp._state_pair_to_action(s, t), "unconnected pair is an error", AttributeError)
        ctx.check_raises(lambda: mdp._state_pair_to_action(s, t, return_max=False), "unconnected pair is an error", AttributeError)


@P.job(quick=[dict(n=3, na=2)], thorough=[dict(n=3, na=3)])
def valid_actions(ctx, n, na):
    mdp = build(ctx, n, na)
    s = ctx.state("s", n)
    got = [int(a) for a in ctx.flat(mdp.state_valid_actions(s))]
    for a in range(na):
        some = ctx.Or(*[mdp.sas[s, a, t] > 0 for t in range(n)])
        ctx.check(ctx.eq(some, a in got), "valid iff it leads somewhere")


@P.job(quick=[dict(kind="Square", shape=(2, 3), self_t=True), dict(kind="Hex", shape=(3, 2), self_t=False)],
       thorough=[dict(kind="Hex", shape=(3, 3), self_t=True), dict(kind="Square", shape=(3, 3), self_t=False)])
def grid(ctx, kind, shape, self_t):
    """following a trajectory's actions reproduces the trajectory"""
    np, M = ctx.np, ctx.mod("mdp")
    shape = tuple(shape)
    n = shape[0] * shape[1]
    mdp = getattr(M, kind + "GridMDP")(features=np.zeros((1, n)), walls=ctx.bits("w", n), shape=shape, self_transitions=self_t)
    s = ctx.state("s", n)
    acts = [int(a) for a in ctx.flat(mdp.state_valid_actions(s))]
    for a in range(mdp.n_actions):
        ctx.check(ctx.eq(mdp.sas[s, a].sum() > 0, a in acts), "valid grid actions")
    ctx.check(len(acts) == len(set(acts)), "each grid action once")
    if not acts:
        return
    a = acts[ctx.state("i", len(acts))]
    t = int(mdp.get_next_state(s, a))
    sa = mdp._trajectory_to_state_action([s, t])
    ctx.check(ctx.And(ctx.close(sa[0, 0], s, 0), ctx.close(sa[0, 1], a, 0)), "the recovered action is the one taken")


@P.job(quick=[dict(how="walls"), dict(how="sas"), dict(how="cleared")])
def changed(ctx, how):
    """the same after the transitions of a model have changed"""
    np, M = ctx.np, ctx.mod("mdp")
    n, na = 3, 2
    sas = ctx.bits("p", (n, na, n))
    mdp = M.MDP(np.zeros((1, n)), sas)
    if how == "sas":
        mdp.sas = ctx.bits("q", (n, na, n))
    else:
        mdp.walls = ctx.bits("w", n)
        if how == "cleared":
            mdp.walls = np.zeros(n)
            ctx.check(ctx.exact_array(mdp.sas, sas), "transitions restored")
    s, t = ctx.state("s", n), ctx.state("t", n)
    pos = [mdp.sas[s, a, t] > 0 for a in range(na)]
    ctx.check(ctx.eq(mdp.is_adjacent(s, t), ctx.Or(*pos)), "adjacent iff some action connects (changed)")
    ctx.check(ctx.eq(mdp.adjacency[s, t] == 1, ctx.Or(*pos)), "adjacency matrix (changed)")
    got = [int(a) for a in ctx.flat(mdp.state_valid_actions(s))]
    for a in range(na):
        ctx.check(ctx.eq(ctx.Or(*[mdp.sas[s, a, u] > 0 for u in range(n)]), a in got), "valid iff it leads somewhere (changed)")
    if bool(ctx.Or(*pos)):
        sa = mdp._trajectory_to_state_action([s, t])
        ctx.check(mdp.sas[s, int(sa[0, 1]), t] > 0, "recovered action (changed)")
    else:
        ctx.check_raises(lambda: mdp._trajectory_to_state_action([s, t]), "a jump between unconnected states is an error", AttributeError)


P.labels = ["one state-action pair per move", "states in order", "most likely action for each move", "a jump between unconnected states is an error",
            "adjacent iff some action connects", "the most likely action", "exactly the connecting actions", "unconnected pair is an error",
            "valid iff it leads somewhere", "valid grid actions", "the recovered action is the one taken", "adjacency matrix", "adjacent iff some action connects (changed)", "recovered action (changed)"]
