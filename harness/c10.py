"""C10: greedy action selection."""
from sx.h import Prop

P = Prop("C10")
P.bounds = ["all tables with up to 2 states x 3 actions (quick) / 2 x 4 (thorough), each entry an arbitrary real, minus infinity or missing; every random draw; seeded and unseeded"]


def table(ctx, n, na, name="q"):
    """kind 0: real, 1: -inf, 2: NaN for every entry"""
    np = ctx.np
    q = ctx.reals(name, (n, na), -10, 10)
    kinds = [[ctx.state("%sk%d_%d" % (name, s, a), 3) for a in range(na)] for s in range(n)]
    for s in range(n):
        for a in range(na):
            if kinds[s][a]:
                q[s, a] = -np.inf if kinds[s][a] == 1 else np.nan
    return q, kinds


def expected(ctx, q, kinds, s):
    """list of (is a maximiser) conditions, or None when the state has no entry"""
    na = len(kinds[s])
    if all(k == 2 for k in kinds[s]):
        return None
    real = [a for a in range(na) if kinds[s][a] == 0]
    if not real:
        return [True] * na       # every entry counts as minus infinity
    return [False if a not in real else ctx.And(*[q[s, a] >= q[s, b] for b in real]) for a in range(na)]


@P.job(quick=[dict(n=1, na=3, seed=None), dict(n=2, na=2, seed=None), dict(n=1, na=3, seed=11), dict(n=1, na=1, seed=None)],
       thorough=[dict(n=1, na=4, seed=None), dict(n=2, na=3, seed=None)])
def select(ctx, n, na, seed):
    np, A = ctx.np, ctx.mod("algorithms.action_selection")
    q, kinds = table(ctx, n, na)
    keep = q.copy()
    sel = A.MaxActionSelector(seed=seed) if seed is not None else A.MaxActionSelector()
    if all(k == 2 for row in kinds for k in row):
        ctx.check_raises(lambda: sel.get_pi(q), "entirely missing table rejected", ValueError)
        ctx.check_raises(lambda: sel.get_pi_p(q), "entirely missing table rejected", ValueError)
        return
    p = sel.get_pi_p(q)
    pi = sel.get_pi(q)
    ctx.check(tuple(p.shape) == (n, na) and tuple(pi.shape) == (n,), "shapes")
    for s in range(n):
        best = expected(ctx, q, kinds, s)
        if best is None:
            ctx.check(ctx.eq(pi[s], -1), "no entry: action -1")
            for a in range(na):
                ctx.check(ctx.isnan(p[s, a]), "no entry: missing probabilities")
            continue
        cnt = sum([ctx.ite(b, 1.0, 0.0) for b in best], 0.0)
        for a in range(na):
            ctx.check(ctx.implies(best[a], ctx.close(p[s, a] * cnt, 1.0)), "equal probability over the maximisers")
            ctx.check(ctx.implies(ctx.Not(best[a]), ctx.close(p[s, a], 0.0)), "zero elsewhere")
        for a in range(na):
            ctx.check(ctx.implies(ctx.eq(pi[s], a), best[a]), "the chosen action is a maximiser")
        ctx.check(ctx.And(pi[s] >= 0, pi[s] < na), "the chosen action is an action")
    ctx.check(ctx.exact_array(q, keep), "the table is not modified")


@P.job(quick=[dict(ties=t) for t in ((1, 1), (1, 1, 1), (1, 0, 1), (0, 1, 1), (1, 1, 0, 1, 1), (1,) * 7)], thorough=[dict(ties=(0, 1, 1, 1, 0, 1, 1, 1))])
def reachable(ctx, ties):
    """with equal maxima every one of them is chosen for some draw"""
    np, A = ctx.np, ctx.mod("algorithms.action_selection")
    q = np.array([[3.5 if t else 1.0 for t in ties]])
    ctx.exists(*["chosen %d of %s" % (a, ties) for a, t in enumerate(ties) if t])
    got = int(A.MaxActionSelector().get_pi(q)[0])
    ctx.reach("chosen %d of %s" % (got, ties))
    ctx.check(ties[got] == 1, "only maximisers are chosen")


@P.job()
def plus_infinity(ctx):
    np, A = ctx.np, ctx.mod("algorithms.action_selection")
    q = ctx.reals("q", (1, 3), -10, 10)
    a = ctx.state("a", 3)
    q[0, a] = np.inf
    p = A.MaxActionSelector().get_pi_p(q)
    ctx.check(ctx.close(p[0, a], 1.0), "plus infinity is the maximum")
    ctx.check(ctx.eq(A.MaxActionSelector().get_pi(q)[0], a), "plus infinity is chosen")


@P.job(quick=[dict(cls="MaxActionSelector"), dict(cls="SoftmaxActionSelector")])
def rejected(ctx, cls):
    np, A = ctx.np, ctx.mod("algorithms.action_selection")
    sel = getattr(A, cls)()
    for f in (sel.get_pi, sel.get_pi_p):
        ctx.check_raises(lambda: f([[1.0, 2.0]]), "non-arrays rejected", TypeError)
        ctx.check_raises(lambda: f(np.zeros(3)), "one-dimensional tables rejected", AttributeError)
        ctx.check_raises(lambda: f(np.zeros((2, 3, 2))), "three-dimensional tables rejected", AttributeError)


@P.job(quick=[dict(n=3), dict(n=4)])
def helper(ctx, n):
    """the tie-breaking helper returns an index of a maximum, from the generator it is given"""
    np, A = ctx.np, ctx.mod("algorithms.action_selection")
    x = ctx.reals("x", n, -10, 10)
    i = int(A.random_max(x))
    for j in range(n):
        ctx.check(ctx.le(x[j], x[i], 0), "index of a maximum")


P.labels = ["entirely missing table rejected", "no entry: action -1", "no entry: missing probabilities", "equal probability over the maximisers", "zero elsewhere",
            "the chosen action is a maximiser", "the table is not modified", "only maximisers are chosen", "plus infinity is chosen", "index of a maximum"]
