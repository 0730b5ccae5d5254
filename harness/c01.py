"""C01: moves on a square grid."""
from sx.h import Prop

P = Prop("C01")
P.bounds = ["all wall layouts (2^n) on every listed grid shape, both self-transition settings",
            "pairwise adjacency and the action of a move for arbitrary (unbounded) integer coordinates"]
DIRS = [(0, 1), (1, 0), (0, -1), (-1, 0)]     # action -> change of (x, y)

SHAPES = [(1, 1), (1, 3), (3, 1), (2, 2), (3, 2), (2, 3), (3, 3)]
MORE = [(1, 5), (5, 1), (4, 2), (2, 4), (4, 3), (3, 4), (4, 4), (2, 6), (6, 2)]

BIG = [dict(shape=(4, 5), self_t=False), dict(shape=(7, 3), self_t=True), dict(shape=(2, 11), self_t=True), dict(shape=(12, 2), self_t=False),
       dict(shape=(6, 7), self_t=False, _cost=9)]


@P.job(quick=[dict(shape=s, self_t=t) for s in SHAPES for t in (False, True)] + BIG,
       thorough=[dict(shape=s, self_t=t) for s in MORE for t in (False, True)])
def moves(ctx, shape, self_t, _cost=1):
    """every entry of the transition function, for every wall layout"""
    shape = tuple(shape)
    np, M = ctx.np, ctx.mod("mdp")
    n = shape[0] * shape[1]
    walls = ctx.bits("w", n)
    mdp = M.SquareGridMDP(features=np.zeros((1, n)), walls=walls, shape=shape, self_transitions=self_t)
    na = 4 + (1 if self_t else 0)
    ctx.check(mdp.n_states == n and mdp.n_actions == na and tuple(mdp.sas.shape) == (n, na, n), "sizes")
    for s in range(n):
        x, y = s // shape[1], s % shape[1]
        for a in range(na):
            dx, dy = DIRS[a] if a < 4 else (0, 0)
            tx, ty = x + dx, y + dy
            inside = 0 <= tx < shape[0] and 0 <= ty < shape[1]
            for t in range(n):
                is_target = inside and t == tx * shape[1] + ty
                p = mdp.sas[s, a, t]
                if not is_target:
                    ctx.check(ctx.close(p, 0.0, 0), "no other destination")
                else:
                    free = ctx.And(ctx.Not(walls[s] == 1), ctx.Not(walls[t] == 1))
                    ctx.check(ctx.close(p, ctx.ite(free, 1.0, 0.0), 0), "destination of an action")


@P.job()
def adjacency(ctx):
    """two cells are neighbours exactly when they differ by one step along one axis; the action is its direction"""
    np, G = ctx.np, ctx.mod("grid_utils")
    c = [[ctx.int("x%d" % i, -10 ** 6, 10 ** 6), ctx.int("y%d" % i, -10 ** 6, 10 ** 6)] for i in range(2)]
    coords = np.array(c)
    adj = G.square_adjacency(coords)
    dx, dy = c[1][0] - c[0][0], c[1][1] - c[0][1]
    is_nb = ctx.Or(*[ctx.And(dx == d[0], dy == d[1]) for d in DIRS])
    for i, j in ((0, 1), (1, 0)):
        ctx.check(ctx.eq(adj[i, j] == 1, is_nb), "adjacent iff one step apart")
        ctx.check(ctx.Or(adj[i, j] == 0, adj[i, j] == 1), "adjacency is 0/1")
    ctx.check(ctx.And(adj[0, 0] == 0, adj[1, 1] == 0), "no cell is its own neighbour")
    if bool(is_nb):
        one = np.ones((2, 2), dtype=int)
        a = G.get_action_from_states_square(0, 1, one, coords)
        b = G.get_action_from_states_square(1, 0, one, coords)
        for k, d in enumerate(DIRS):
            ctx.check(ctx.implies(ctx.And(dx == d[0], dy == d[1]), a == k), "action is the direction of the move")
        ctx.check(ctx.eq((a + 2) % 4, b), "the way back is the opposite action")
    else:
        zero = np.zeros((2, 2), dtype=int)
        ctx.check_raises(lambda: G.get_action_from_states_square(0, 1, zero, coords), "non-adjacent pair rejected", ValueError)


P.labels = ["sizes", "no other destination", "destination of an action", "adjacent iff one step apart", "action is the direction of the move",
            "the way back is the opposite action", "non-adjacent pair rejected"]
