"""C06: next states."""
from sx.h import Prop

P = Prop("C06")
P.bounds = ["every transition function with up to 4 states and 2 actions whose rows are arbitrary distributions (or empty), every random draw",
            "every wall layout of 2x3 / 3x2 grids"]


@P.job(quick=[dict(n=2, na=2, seed=None), dict(n=3, na=1, seed=None), dict(n=3, na=2, seed=7), dict(n=4, na=1, seed=None)], thorough=[dict(n=4, na=2, seed=3)])
def stochastic(ctx, n, na, seed):
    """arbitrary rows: the state chosen for a draw u is the one whose cumulative interval contains u"""
    np, M = ctx.np, ctx.mod("mdp")
    sas = np.zeros((n, na, n))
    rows = {}
    for s in range(n):
        for a in range(na):
            if s == 0:
                rows[s, a] = ctx.dist("p%d_%d" % (s, a), n)
                sas[s, a, :] = rows[s, a]
            else:
                sas[s, a, 0] = 0.5
                sas[s, a, n - 1] = 0.5
    mdp = M.MDP(np.zeros((1, n)), sas, seed=seed)
    before = mdp.sas.copy()
    a = ctx.state("a", na)
    t = int(mdp.get_next_state(0, a))
    ctx.check(0 <= t < n, "next state is a state")
    ctx.check(rows[0, a][t] > 0, "next state has positive probability")
    ctx.check(ctx.exact_array(mdp.sas, before), "transitions unchanged by stepping")


@P.job(quick=[dict(n=2, na=1, seed=None), dict(n=2, na=2, seed=None), dict(n=3, na=2, seed=None), dict(n=4, na=1, seed=None), dict(n=3, na=1, seed=5)], thorough=[dict(n=3, na=3, seed=None), dict(n=4, na=2, seed=None)])
def share(ctx, n, na, seed):
    """each successor gets exactly its share of the unit interval of the draw, wherever the only uncertain row is and whatever the others are"""
    np, M = ctx.np, ctx.mod("mdp")
    p = ctx.dist("p", n)
    s, a = ctx.state("s", n), ctx.state("a", na)
    others = ctx.state("others", 3)
    sas = np.zeros((n, na, n))
    for i in range(n):
        for j in range(na):
            if (i, j) == (s, a):
                sas[i, j, :] = p
            elif others == 1:
                sas[i, j, (i + j) % n] = 1
            elif others == 2:
                sas[i, j, 0] = 0.25
                sas[i, j, n - 1] = 0.75
    mdp = M.MDP(np.zeros((1, n)), sas, seed=seed)
    ctx.assume(ctx.Or(*[ctx.And(x > 0, x < 1) for x in ctx.flat(p)]))
    u = ctx.peek(mdp.rng)
    t = int(mdp.get_next_state(s, a))
    lo = sum([p[i] for i in range(t)], 0.0)
    ctx.check(ctx.And(ctx.le(lo, u), ctx.le(u, lo + p[t])), "chosen for exactly its share of the draw")
    if others == 1:
        for i in range(n):
            for j in range(na):
                if (i, j) != (s, a):
                    ctx.check(int(mdp.get_next_state(i, j)) == (i + j) % n, "certain transitions of a partly uncertain model")


@P.job(quick=[dict(where=(0, 0)), dict(where=(1, 1)), dict(where=(2, 0))])
def support(ctx, where):
    """every state with positive probability can be reached, even if only one row is uncertain"""
    np, M = ctx.np, ctx.mod("mdp")
    sas = np.zeros((3, 2, 3))
    sas[:, :, 0] = 1
    sas[where[0], where[1], :] = np.array([0.125, 0.375, 0.5])
    mdp = M.MDP(np.zeros((1, 3)), sas)
    ctx.exists("reaches 0", "reaches 1", "reaches 2")
    t = int(mdp.get_next_state(where[0], where[1]))
    for i in range(3):
        if t == i:
            ctx.reach("reaches %d" % i)


@P.job(quick=[dict(n=3, na=2)], thorough=[dict(n=4, na=2)])
def deterministic(ctx, n, na):
    """0/1 transitions: unique successor, refused when there is none"""
    np, M = ctx.np, ctx.mod("mdp")
    sas = ctx.bits("p", (n, na, n))
    for s in range(n):
        for a in range(na):
            ctx.assume(ctx.le(sas[s, a].sum(), 1, 0))
    mdp = M.MDP(np.zeros((1, n)), sas)
    s, a = ctx.state("s", n), ctx.state("a", na)
    if bool(sas[s, a].sum() > 0):
        t = int(mdp.get_next_state(s, a))
        ctx.check(ctx.close(sas[s, a, t], 1.0, 0), "the unique successor")
    else:
        ctx.check_raises(lambda: mdp.get_next_state(s, a), "unavailable action refused")
    ctx.check_raises(lambda: mdp.get_next_state(s, -1), "negative action refused")


@P.job(quick=[dict(kind="Square", shape=(2, 3), self_t=True), dict(kind="Hex", shape=(3, 2), self_t=False)],
       thorough=[dict(kind="Hex", shape=(3, 3), self_t=True), dict(kind="Square", shape=(3, 3), self_t=False)])
def grid(ctx, kind, shape, self_t):
    np, M = ctx.np, ctx.mod("mdp")
    shape = tuple(shape)
    n = shape[0] * shape[1]
    mdp = getattr(M, kind + "GridMDP")(features=np.zeros((1, n)), walls=ctx.bits("w", n), shape=shape, self_transitions=self_t)
    s, a = ctx.state("s", n), ctx.state("a", mdp.n_actions)
    if bool(mdp.sas[s, a].sum() > 0):
        t = int(mdp.get_next_state(s, a))
        ctx.check(ctx.close(mdp.sas[s, a, t], 1.0, 0), "grid successor")
    else:
        ctx.check_raises(lambda: mdp.get_next_state(s, a), "unavailable grid action refused")


@P.job()
def stochastic_unavailable(ctx):
    np, M = ctx.np, ctx.mod("mdp")
    sas = np.zeros((2, 2, 2))
    sas[0, 0, :] = ctx.dist("p", 2)
    mdp = M.MDP(np.zeros((1, 2)), sas)
    ctx.check_raises(lambda: mdp.get_next_state(0, 1), "unavailable action refused in stochastic models")
    ctx.check_raises(lambda: mdp.get_next_state(1, 0), "unavailable action refused in stochastic models")


@P.job(quick=[dict(how="sas"), dict(how="walls")])
def changed(ctx, how):
    """a model that turns from certain to uncertain and back"""
    np, M = ctx.np, ctx.mod("mdp")
    sure = np.zeros((3, 2, 3))
    sure[:, 0, 0] = 1
    sure[:, 1, 1] = 1
    vague = np.zeros((3, 2, 3))
    vague[:, 0, 0] = 1
    vague[2, 1, 0] = vague[2, 1, 1] = 0.5
    vague[0, 1, 1] = 1
    ctx.exists("reaches 0", "reaches 1")
    if how == "sas":
        mdp = M.MDP(np.zeros((1, 3)), sure)
        mdp.sas = vague
    else:
        mdp = M.MDP(np.zeros((1, 3)), vague)
        mdp.walls = np.array([0, 0, 1])
        ctx.check(int(mdp.get_next_state(0, 1)) == 1, "certain again with the uncertain state walled off")
        mdp.walls = np.zeros(3)
    t = int(mdp.get_next_state(2, 1))
    ctx.check(t in (0, 1), "one of the successors")
    for i in range(2):
        if t == i:
            ctx.reach("reaches %d" % i)
    if how == "sas":
        mdp.sas = sure
        ctx.check(int(mdp.get_next_state(2, 1)) == 1, "certain again")


P.labels = ["next state has positive probability", "chosen for exactly its share of the draw", "the unique successor", "unavailable action refused",
            "negative action refused", "certain transitions of a partly uncertain model", "grid successor", "unavailable action refused in stochastic models"]
