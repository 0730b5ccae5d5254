"""C11: softmax action selection."""
from sx.h import Prop
from harness.c10 import table

P = Prop("C11")
P.bounds = ["all tables with up to 1 state x 3 actions or 2 x 2, each entry an arbitrary real, minus infinity or missing; temperatures 0.1, 1, 2 and arbitrary (2 actions); every random draw",
            "exp is an uninterpreted function with sign, monotonicity and product-free axioms"]


@P.job(quick=[dict(n=1, na=3, T=1), dict(n=2, na=2, T=1), dict(n=1, na=2, T=2), dict(n=1, na=2, T=0.5), dict(n=1, na=1, T=1), dict(n=2, na=1, T=2)], thorough=[dict(n=1, na=3, T=0.1), dict(n=1, na=4, T=1), dict(n=2, na=3, T=1)])
def probabilities(ctx, n, na, T):
    np, A = ctx.np, ctx.mod("algorithms.action_selection")
    q, kinds = table(ctx, n, na)
    keep = q.copy()
    if all(k == 2 for row in kinds for k in row):
        ctx.check_raises(lambda: A.SoftmaxActionSelector(T).get_pi_p(q), "entirely missing table rejected", ValueError)
        return
    p = A.SoftmaxActionSelector(T).get_pi_p(q)
    ctx.check(tuple(p.shape) == (n, na), "shapes")
    for s in range(n):
        if all(k == 2 for k in kinds[s]):
            for a in range(na):
                ctx.check(ctx.isnan(p[s, a]), "no entry: missing probabilities")
            continue
        real = [a for a in range(na) if kinds[s][a] == 0]
        if not real:
            for a in range(na):
                ctx.check(ctx.close(p[s, a], 1.0 / na), "all minus infinity: 1/n each")
            continue
        tot = 0.0
        for a in range(na):
            tot = tot + p[s, a]
            ctx.check(p[s, a] >= 0, "non-negative")
            if a not in real:
                ctx.check(ctx.close(p[s, a], 0.0), "minus infinity gets probability 0")
        ctx.check(ctx.close(tot, 1.0), "sums to 1")
        for a in real:
            for b in real:
                if a != b:
                    ctx.check(ctx.implies(q[s, a] > q[s, b], p[s, a] > p[s, b] if ctx.symbolic else p[s, a] >= p[s, b]), "ranks like the action values")
                    ctx.check(ctx.implies(q[s, a] == q[s, b], ctx.close(p[s, a], p[s, b])), "equal values, equal probabilities")
        # p_a / p_m = exp((q_a - q_m) / T) for the largest q_m
        for m in real:
            ismax = ctx.And(*[q[s, m] >= q[s, b] for b in real])
            for a in real:
                ctx.check(ctx.implies(ismax, ctx.close(p[s, a], p[s, m] * ctx.exp((q[s, a] - q[s, m]) / T))), "proportional to exp(q / T)")
    ctx.check(ctx.exact_array(q, keep), "the table is not modified")


@P.job(quick=[dict(na=2), dict(na=3)])
def shift(ctx, na):
    """adding a constant to a state's values changes nothing"""
    np, A = ctx.np, ctx.mod("algorithms.action_selection")
    q = ctx.reals("q", (1, na), -10, 10)
    c = ctx.real("c", -50, 50)
    T = ctx.real("T", 0.05, 20)
    p1 = A.SoftmaxActionSelector(T).get_pi_p(q)
    p2 = A.SoftmaxActionSelector(T).get_pi_p(q + c)
    ctx.check(ctx.same_array(p1, p2), "shift invariant")


@P.job()
def temperature(ctx):
    np, A = ctx.np, ctx.mod("algorithms.action_selection")
    T = ctx.real("T", -5, 5)
    e = ctx.raises(lambda: A.SoftmaxActionSelector(T), ValueError)
    ctx.check(ctx.eq(T > 0, e is None), "temperature must be positive")
    if e is None:
        q = ctx.reals("q", (1, 2), -10, 10)
        p = A.SoftmaxActionSelector(T).get_pi_p(q)
        if bool(q[0, 0] > q[0, 1]):
            ctx.check(ctx.close(p[0, 1], p[0, 0] * ctx.exp((q[0, 1] - q[0, 0]) / T)), "scaled by the temperature")


@P.job(quick=[dict(n=1, na=2, seed=None), dict(n=1, na=3, seed=None, fixed=True), dict(n=1, na=2, seed=4), dict(n=2, na=2, seed=None)],
       thorough=[dict(n=1, na=4, seed=None, fixed=True), dict(n=1, na=3, seed=None)])
def choice(ctx, n, na, seed, fixed=False):
    """the chosen action's cumulative interval contains the draw"""
    np, A = ctx.np, ctx.mod("algorithms.action_selection")
    q, kinds = table(ctx, n, na)
    if all(k == 2 for row in kinds for k in row):
        return
    if fixed:
        for a in range(na):
            if not kinds[0][a]:
                q[0, a] = [0.5, 2.0, -1.0, 0.5][a]
    keep = q.copy()
    p = A.SoftmaxActionSelector(1).get_pi_p(q)
    sel = A.SoftmaxActionSelector(1, seed=seed) if seed is not None else A.SoftmaxActionSelector(1)
    u = ctx.peek(sel.rng)
    pi = sel.get_pi(q)
    ctx.check(tuple(pi.shape) == (n,), "one action per state")
    for s in range(n):
        if all(k == 2 for k in kinds[s]):
            ctx.check(ctx.eq(pi[s], -1), "no entry: action -1")
            continue
        ctx.check(ctx.And(pi[s] >= 0, pi[s] < na), "the chosen action is an action")
        a = int(pi[s])
        ctx.check(p[s, a] > 0, "the chosen action has positive probability")
        if s == 0:
            lo = sum([p[s, b] for b in range(a)], 0.0)
            ctx.check(ctx.And(ctx.le(lo, u), ctx.le(u, lo + p[s, a])), "chosen for exactly its share of the draw")
    ctx.check(ctx.exact_array(q, keep), "the table is not modified")


P.labels = ["entirely missing table rejected", "no entry: missing probabilities", "all minus infinity: 1/n each", "non-negative", "minus infinity gets probability 0",
            "sums to 1", "ranks like the action values", "proportional to exp(q / T)", "the table is not modified", "shift invariant", "temperature must be positive",
            "scaled by the temperature", "no entry: action -1", "the chosen action has positive probability", "chosen for exactly its share of the draw"]
