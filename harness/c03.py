"""C03: state ids, coordinates and grids."""
from sx.h import Prop

P = Prop("C03")
SH = [(1, 4), (4, 1), (2, 3), (3, 2), (3, 4), (5, 2)]
MORE = [(2, 2), (3, 3), (4, 5), (5, 4), (7, 3), (1, 9), (8, 6)]
P.bounds = ["every state of every listed shape, square and hexagonal, arbitrary real values per state"]


@P.job(quick=[dict(shape=s, kind=k) for s in SH for k in ("Square", "Hex")] + [dict(shape=s, kind=k, mem="strided") for s in ((2, 3), (3, 2)) for k in ("Square", "Hex")], thorough=[dict(shape=s, kind=k) for s in MORE for k in ("Square", "Hex")])
def bijection(ctx, shape, kind, mem="plain"):
    shape = tuple(shape)
    w, h = shape
    n = w * h
    np, M = ctx.np, ctx.mod("mdp")
    if mem == "plain":
        feats = ctx.reals("f", (2, n))
        walls = ctx.bits("w", n)
        vals = ctx.reals("v", n)
    else:  # arrays that are not laid out row by row in memory
        feats = ctx.reals("f", (n, 2)).T
        walls = ctx.bits("w", n)[::-1]
        vals = ctx.reals("v", (n, 2))[:, 1]
    mdp = getattr(M, kind + "GridMDP")(features=feats, walls=walls, shape=shape)
    grid = mdp.flat_to_grid(vals)
    fg = mdp.features_as_grid()
    wg = mdp.flat_to_grid(mdp.walls)
    ctx.check(tuple(grid.shape) == shape and tuple(fg.shape) == (2,) + shape, "grid shapes")
    ctx.check(list(mdp.state_ids) == list(range(n)) and mdp.n_states == n, "state ids")
    s = ctx.state("s", n)
    x, y = s // h, s % h
    got = mdp.state_to_idx(s)
    ctx.check(int(got[0]) == x and int(got[1]) == y and len(got) == 2, "coordinates of a state")
    ctx.check(int(mdp.idx_to_state((x, y))) == s, "state of coordinates")
    c = mdp.get_state_coords(s)
    ctx.check(int(c[0]) == x and int(c[1]) == y and len(c) == 2, "coordinate table")
    ctx.check(int(mdp.grid_coords[s, 0]) == x and int(mdp.grid_coords[s, 1]) == y, "grid coordinates")
    ctx.check(ctx.close(grid[x, y], vals[s], 0), "flat values as a grid")
    for f in range(2):
        ctx.check(ctx.close(fg[f, x, y], feats[f, s], 0), "features as grids")
        ctx.check(ctx.close(mdp.features[f, s], feats[f, s], 0), "features kept")
    ctx.check(ctx.close(wg[x, y], walls[s], 0), "walls as a grid")
    many = mdp.state_to_idx(np.arange(n))
    ctx.check([int(i) for i in many[0]] == [i // h for i in range(n)] and [int(i) for i in many[1]] == [i % h for i in range(n)], "coordinates of all states")
    back = mdp.idx_to_state((np.array([i // h for i in range(n)]), np.array([i % h for i in range(n)])))
    ctx.check([int(i) for i in back] == list(range(n)), "states of all coordinates")


@P.job(quick=[dict(kind=k) for k in ("Square", "Hex")])
def with_agents(ctx, kind):
    """features as grids with agents in the environment, as they move"""
    np, M = ctx.np, ctx.mod("mdp")
    from .util import table_algorithm
    feats = ctx.reals("f", (1, 6))
    mdp = getattr(M, kind + "GridMDP")(features=feats, shape=(2, 3))
    A, E = ctx.mod("agents").Agent, ctx.mod("environments").Environment
    p, q, r = ctx.state("p", 6), ctx.state("q", 6), ctx.state("r", 6)
    env = E(mdp, {A("a"): (p, [0, 0, 0], []), A("b"): (q, [0, 0, 0], [])})
    for where in ((p, q), (r, q)):
        if where[0] is r:
            env.set_agent_position("a", r)
        g = mdp.features_as_grid()
        ctx.check(tuple(g.shape) == (3, 2, 3), "one grid per feature and agent")
        for s in range(6):
            ctx.check(ctx.close(g[0, s // 3, s % 3], feats[0, s], 0), "features as grids")
            for i in range(2):
                ctx.check(ctx.close(g[1 + i, s // 3, s % 3], 1.0 if s == where[i] else 0.0, 0), "agents as grids")


@P.job(quick=[dict(kind=k) for k in ("Square", "Hex")])
def wall_at(ctx, kind):
    """a wall added by coordinates lands on the state with those coordinates"""
    np, M = ctx.np, ctx.mod("mdp")
    shape = (3, 4)
    mdp = getattr(M, kind + "GridMDP")(features=np.zeros((1, 12)), shape=shape)
    x, y = ctx.state("x", 3), ctx.state("y", 4)
    mdp.add_wall_xy((x,), (y,))
    for s in range(12):
        ctx.check(ctx.close(mdp.walls[s], 1.0 if s == x * 4 + y else 0.0, 0), "wall placed by coordinates")
        if s == x * 4 + y:
            ctx.check(ctx.close(mdp.sas[s].sum(), 0.0, 0), "walled state has no moves")


@P.job(quick=[dict(shape=(2, 3)), dict(shape=(4, 1))])
def coords_of_grid(ctx, shape):
    """grid_coords lists the cells in row-major order"""
    np, G = ctx.np, ctx.mod("grid_utils")
    shape = tuple(shape)
    grid = ctx.reals("g", shape)
    ids, idx = G.grid_coords(grid)
    n = shape[0] * shape[1]
    ctx.check(list(ids) == list(range(n)) and tuple(idx.shape) == (n, 2), "all cells listed")
    for s in range(n):
        ctx.check(int(idx[s, 0]) == s // shape[1] and int(idx[s, 1]) == s % shape[1], "row-major order")
    ctx.check_raises(lambda: G.grid_coords([[0, 0]]), "non-array grid rejected", TypeError)
    ctx.check_raises(lambda: G.grid_coords(np.zeros(3)), "non-2D grid rejected", AttributeError)


P.labels = ["grid shapes", "state ids", "coordinates of a state", "state of coordinates", "coordinate table", "flat values as a grid", "features as grids",
            "walls as a grid", "wall placed by coordinates", "walled state has no moves", "all cells listed", "row-major order", "coordinates of all states", "states of all coordinates", "agents as grids"]
