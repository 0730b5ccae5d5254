"""C02: moves and distance on a hexagonal grid."""
from sx.h import Prop

P = Prop("C02")
P.bounds = ["all wall layouts (2^n) on every listed grid shape, both self-transition settings",
            "distance, adjacency and action for arbitrary integer coordinates in +-10^6; the distance is characterised as the graph distance "
            "(zero only at the same cell, changes by at most one per move, and some move decreases it)"]
ODD = [(0, 1), (1, 0), (1, -1), (0, -1), (-1, -1), (-1, 0)]
EVEN = [(0, 1), (1, 1), (1, 0), (0, -1), (-1, 0), (-1, 1)]

SHAPES = [(1, 1), (1, 3), (3, 1), (2, 2), (3, 2), (2, 3), (3, 3), (4, 2)]
MORE = [(1, 5), (5, 1), (2, 4), (4, 3), (3, 4), (4, 4), (5, 3), (2, 6), (6, 2)]

BIG = [dict(shape=(4, 5), self_t=False), dict(shape=(7, 3), self_t=True), dict(shape=(2, 11), self_t=True), dict(shape=(12, 2), self_t=False),
       dict(shape=(6, 7), self_t=False, _cost=9)]


@P.job(quick=[dict(shape=s, self_t=t) for s in SHAPES for t in (False, True)] + BIG,
       thorough=[dict(shape=s, self_t=t) for s in MORE for t in (False, True)])
def moves(ctx, shape, self_t, _cost=1):
    """every entry of the transition function, for every wall layout"""
    shape = tuple(shape)
    np, M = ctx.np, ctx.mod("mdp")
    n = shape[0] * shape[1]
    walls = ctx.bits("w", n)
    mdp = M.HexGridMDP(features=np.zeros((1, n)), walls=walls, shape=shape, self_transitions=self_t)
    na = 6 + (1 if self_t else 0)
    ctx.check(mdp.n_states == n and mdp.n_actions == na and tuple(mdp.sas.shape) == (n, na, n), "sizes")
    for s in range(n):
        x, y = s // shape[1], s % shape[1]
        for a in range(na):
            dx, dy = (0, 0) if a == 6 else (ODD if x % 2 else EVEN)[a]
            tx, ty = x + dx, y + dy
            inside = 0 <= tx < shape[0] and 0 <= ty < shape[1]
            for t in range(n):
                p = mdp.sas[s, a, t]
                if not (inside and t == tx * shape[1] + ty):
                    ctx.check(ctx.close(p, 0.0, 0), "no other destination")
                else:
                    free = ctx.And(ctx.Not(walls[s] == 1), ctx.Not(walls[t] == 1))
                    ctx.check(ctx.close(p, ctx.ite(free, 1.0, 0.0), 0), "destination of an action")
    for s in range(n):
        for a in range(6):
            for t in range(n):
                ctx.check(ctx.close(mdp.sas[s, a, t], mdp.sas[t, (a + 3) % 6, s], 0), "opposite actions undo each other")


def cell(ctx, i):
    return ctx.int("x%d" % i, -10 ** 6, 10 ** 6), ctx.int("y%d" % i, -10 ** 6, 10 ** 6)


def nbrs(ctx, x, y):
    odd = x % 2 == 1
    return [(x + ctx.ite(odd, o[0], e[0]), y + ctx.ite(odd, o[1], e[1])) for o, e in zip(ODD, EVEN)]


def dist(ctx, a, b):
    G, np = ctx.mod("grid_utils"), ctx.np
    return G.hex_dist(np.array([[a[0], a[1]]]), np.array([[b[0], b[1]]]))[0, 0]


@P.job()
def metric(ctx):
    """the distance is the least number of moves"""
    a, b = cell(ctx, 0), cell(ctx, 1)
    same = ctx.And(a[0] == b[0], a[1] == b[1])
    d = dist(ctx, a, b)
    ctx.check(ctx.eq(d == 0, same), "zero exactly for the same cell")
    ctx.check(d >= 0, "not negative")
    ctx.check(ctx.close(d, dist(ctx, b, a), 0), "symmetric")
    ds = [dist(ctx, c, b) for c in nbrs(ctx, *a)]
    for e in ds:
        ctx.check(ctx.And(e <= d + 1, e >= d - 1), "one move changes the distance by at most one")
    ctx.check(ctx.Or(same, *[e == d - 1 for e in ds]), "some move gets one step closer")


@P.job()
def triangle(ctx):
    a, b, c = cell(ctx, 0), cell(ctx, 1), cell(ctx, 2)
    ctx.check(dist(ctx, a, c) <= dist(ctx, a, b) + dist(ctx, b, c), "triangle inequality")


@P.job()
def action(ctx):
    """adjacency and the action of a move"""
    np, G = ctx.np, ctx.mod("grid_utils")
    a, b = cell(ctx, 0), cell(ctx, 1)
    coords = np.array([[a[0], a[1]], [b[0], b[1]]])
    adj = G.hex_adjacency(coords)
    hits = [ctx.And(b[0] == c[0], b[1] == c[1]) for c in nbrs(ctx, *a)]
    isn = ctx.Or(*hits)
    for i, j in ((0, 1), (1, 0)):
        ctx.check(ctx.eq(adj[i, j] == 1, isn), "adjacent iff one move apart")
        ctx.check(ctx.Or(adj[i, j] == 0, adj[i, j] == 1), "adjacency is 0/1")
    ctx.check(ctx.And(adj[0, 0] == 0, adj[1, 1] == 0), "no cell is its own neighbour")
    if bool(isn):
        one = np.ones((2, 2), dtype=int)
        act = G.get_action_from_states_hex(0, 1, one, coords)
        back = G.get_action_from_states_hex(1, 0, one, coords)
        for k, hit in enumerate(hits):
            ctx.check(ctx.implies(hit, act == k), "action leads from the first to the second")
        ctx.check(ctx.eq((act + 3) % 6, back), "the way back is the opposite action")
    else:
        zero = np.zeros((2, 2), dtype=int)
        ctx.check_raises(lambda: G.get_action_from_states_hex(0, 1, zero, coords), "non-adjacent pair rejected", ValueError)


P.labels = ["sizes", "no other destination", "destination of an action", "opposite actions undo each other", "zero exactly for the same cell", "symmetric",
            "one move changes the distance by at most one", "some move gets one step closer", "triangle inequality", "adjacent iff one move apart",
            "action leads from the first to the second", "non-adjacent pair rejected"]
