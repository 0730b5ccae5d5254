"""C17: planned moves over turns."""
from sx.h import Prop

P = Prop("C17")
P.bounds = ["moves per turn 1..5, turns 1..4, planned moves 0..22, current move 0..7"]


@P.job(quick=[dict(n=n, t=t) for n in (1, 2, 3, 4) for t in (1, 2, 3)], thorough=[dict(n=n, t=t) for n in (5, 6, 7) for t in (1, 2, 3, 4, 5)])
def plan(ctx, n, t):
    E = ctx.mod("environments")
    p = ctx.int("p", 0, n * t + 2)
    c = ctx.int("c", 0, n + 2)
    if bool(c >= n):
        ctx.check_raises(lambda: E.get_n_moves_plan(c, t, n, p), "current move beyond the turn is rejected", ValueError)
        return
    out = E.get_n_moves_plan(c, t, n, p)
    ctx.check(len(out) == t, "one entry per turn")
    tot = 0
    for i in range(t):
        lo = ctx.ite(c > i * n, c, i * n)
        hi = ctx.ite(c + p < (i + 1) * n, c + p, (i + 1) * n)
        e = ctx.ite(hi > lo, hi - lo, 0)
        ctx.check(ctx.eq(out[i], e), "planned moves c..c+p-1 that fall in the turn")
        ctx.check(ctx.And(out[i] >= 0, out[i] <= n), "between 0 and the moves per turn")
        tot = tot + out[i]
    ctx.check(ctx.eq(tot, ctx.ite(p < n * t - c, p, n * t - c)), "sums to the planned moves that fit")


P.labels = ["current move beyond the turn is rejected", "one entry per turn", "planned moves c..c+p-1 that fall in the turn", "sums to the planned moves that fit"]
