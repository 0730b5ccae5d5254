"""C04: walls through every sequence of edits."""
from sx.h import Prop

P = Prop("C04")
P.bounds = ["every sequence of up to 3 (quick: 2 on all pairs, 3 on one grid) wall edits, each with arbitrary layouts/coordinates",
            "arbitrary transition functions with 3 states and 2 actions"]


def model(ctx, mdp, base, walls, tag):
    """everything observable about walls follows from the wall-free transitions and the wall bits"""
    n, na = base.shape[0], base.shape[1]
    for s in range(n):
        ctx.check(ctx.close(mdp.walls[s], walls[s], 0), "walls as edited" + tag)
    for s in range(n):
        for t in range(n):
            free = ctx.And(walls[s] == 0, walls[t] == 0)
            some = []
            for a in range(na):
                ctx.check(ctx.close(mdp.sas[s, a, t], ctx.ite(free, base[s, a, t], 0.0), 0), "transitions = wall-free ones minus the walled" + tag)
                some.append(ctx.And(free, base[s, a, t] > 0))
            ctx.check(ctx.eq(mdp.adjacency[s, t] == 1, ctx.Or(*some)), "adjacency agrees" + tag)
            if tag == "":
                ctx.check(ctx.eq(mdp.is_adjacent(s, t), ctx.Or(*some)), "neighbour query agrees" + tag)


OPS = ("set", "add", "reset")
HIST = [(a, b) for a in OPS for b in OPS]


@P.job(quick=[dict(kind="Square", shape=(2, 3), hist=h) for h in HIST] + [dict(kind="Hex", shape=(2, 3), hist=("add", "reset", "set")),
                                                                          dict(kind="Square", shape=(3, 2), hist=("set", "add", "reset"))],
       thorough=[dict(kind="Hex", shape=(2, 2), hist=h + (o,)) for h in HIST for o in OPS])
def history(ctx, kind, shape, hist):
    np, M = ctx.np, ctx.mod("mdp")
    shape = tuple(shape)
    n = shape[0] * shape[1]
    base = getattr(M, kind + "GridMDP")(features=np.zeros((1, n)), shape=shape).sas.copy()
    given = ctx.bits("w_init", n)
    keep = given.copy()
    mdp = getattr(M, kind + "GridMDP")(features=np.zeros((1, n)), walls=given, shape=shape)
    cur = keep
    supplied = [(given, keep)]
    for k, op in enumerate(hist):
        if op == "set":
            w = ctx.bits("w%d" % k, n)
            cur = w.copy()
            supplied.append((w, cur))
            mdp.walls = w
        elif op == "reset":
            mdp.reset_walls()
            cur = np.zeros(n)
        else:
            x0, y0 = ctx.state("x%d" % k, shape[0]), ctx.state("y%d" % k, shape[1])
            form = ctx.state("form%d" % k, 3) if "add" not in hist[:k] else 0
            if form == 0:
                xs, ys, ax, ay = [x0], [y0], (x0,), [y0]
            elif form == 1:        # ranges exclude their end
                x1 = x0 + ctx.state("dx%d" % k, shape[0] - x0 + 1)
                xs, ys, ax, ay = list(range(x0, x1)), [y0], (x0, x1), (y0,)
            else:
                y1 = y0 + ctx.state("dy%d" % k, shape[1] - y0 + 1)
                xs, ys, ax, ay = [x0], list(range(y0, y1)), [x0], (y0, y1)
            mdp.add_wall_xy(ax, ay)
            new = cur.copy()
            for x in xs:
                for y in ys:
                    new[x * shape[1] + y] = 1
            cur = new
    model(ctx, mdp, base, cur, " (edited)")
    for i, (a, b) in enumerate(supplied):
        ctx.check(ctx.exact_array(a, b), "the caller's arrays are untouched")
    mdp.reset_walls()
    ctx.check(ctx.exact_array(mdp.sas, base), "clearing restores the wall-free transitions")


@P.job(quick=[dict(n=3, na=2)], thorough=[dict(n=4, na=2), dict(n=3, na=3)])
def arbitrary(ctx, n, na):
    """plain MDP with arbitrary transition probabilities"""
    np, M = ctx.np, ctx.mod("mdp")
    sas = ctx.reals("p", (n, na, n), 0, 1)
    base = sas.copy()
    w0, w1 = ctx.bits("wa", n), ctx.bits("wb", n)
    mdp = M.MDP(np.zeros((1, n)), sas, walls=w0)
    model(ctx, mdp, base, w0, "")
    mdp.walls = w1
    model(ctx, mdp, base, w1, "")
    ctx.check(ctx.exact_array(sas, base), "the caller's transition array is untouched")


@P.job()
def block(ctx):
    """ranges in both directions, on one grid"""
    np, M = ctx.np, ctx.mod("mdp")
    mdp = M.SquareGridMDP(features=np.zeros((1, 12)), shape=(3, 4))
    x0, y0 = ctx.state("x0", 3), ctx.state("y0", 4)
    x1, y1 = x0 + ctx.state("dx", 4 - x0), y0 + ctx.state("dy", 5 - y0)
    mdp.add_wall_xy((x0, x1), (y0, y1))
    mdp.add_wall_xy([0, 1, 2], [0])       # three entries are individual coordinates
    for s in range(12):
        x, y = s // 4, s % 4
        ctx.check(ctx.close(mdp.walls[s], 1.0 if (x0 <= x < x1 and y0 <= y < y1) or y == 0 else 0.0, 0), "product of the x and y entries")
    ctx.check_raises(lambda: mdp.add_wall_xy(1, (2,)), "coordinates must be tuples or lists", TypeError)


P.labels = ["walls as edited", "transitions = wall-free ones minus the walled", "adjacency agrees", "neighbour query agrees", "the caller's arrays are untouched",
            "clearing restores the wall-free transitions", "the caller's transition array is untouched", "product of the x and y entries"]
