"""C30: seeded components are reproducible and independent."""
from sx.h import Prop
from harness.util import table_algorithm

P = Prop("C30")
P.bounds = ["seeds 0, 1 and 7; every action-value table of 2 states and 3 actions from a set of tied and untied values, arbitrary reals for greedy selection; stochastic models of 3 states with arbitrary rows; up to 3 uses with draws from the global and other seeded streams in between, every value of every draw"]
P.assumptions = ["numpy's generators: equal seeds and equal histories of requests give equal draws; different streams are unrelated"]
C = dict


def selector(ctx, kind, seed, temp=1.5):
    S = ctx.mod("algorithms.action_selection")
    kw = dict(seed=seed) if seed is not None else {}
    return S.MaxActionSelector(**kw) if kind == "max" else S.SoftmaxActionSelector(temperature=temp, **kw)


def table(ctx, kind, i):
    np = ctx.np
    if kind == "max":
        q = ctx.reals("q%d_" % i, (2, 3), -2, 2)
        q[1] = np.array([[1.0, 1.0, 0.0], [0.5, 0.5, 0.5], [2.0, 0.0, 2.0]][i % 3])
        return q
    return np.array([[[1.0, 1.0, 0.0], [0.0, 0.5, 0.5]], [[0.0, 2.0, 1.0], [1.0, 1.0, 1.0]], [[-1.0, 0.0, 0.0], [0.0, 0.0, 3.0]]][i % 3])


def noise(ctx, k, others=()):
    """uses of unrelated randomness"""
    np = ctx.np
    for _ in range(k):
        np.random.random()
    for o, q in others:
        o.get_pi(q)


def equal(ctx, a, b, label):
    for x, y in zip(ctx.flat(a), ctx.flat(b)):
        ctx.check(ctx.eq(x, y), label)


@P.job(quick=[C(kind=k, seed=s, uses=u) for k, s, u in (("max", 0, 2), ("max", 7, 1), ("soft", 0, 2), ("soft", 1, 3))], thorough=[C(kind="max", seed=1, uses=3)], budget=200)
def selectors(ctx, kind, seed, uses):
    np = ctx.np
    qs = [table(ctx, kind, i) for i in range(uses)]
    c = selector(ctx, kind, seed + 1)
    a = selector(ctx, kind, seed)
    d = selector(ctx, kind, None)
    pa = []
    for i, q in enumerate(qs):
        noise(ctx, i + 1, [(c, qs[0]), (d, qs[0])])
        pa.append(a.get_pi(q).copy())
    b = selector(ctx, kind, seed)
    for i, q in enumerate(qs):
        pb = b.get_pi(q).copy()
        equal(ctx, pa[i], pb, "same seed and use, same choices")


@P.job(quick=[C(kind=k, seed=s) for k, s in (("max", 0), ("max", 1), ("soft", 0), ("soft", 7))])
def global_stream(ctx, kind, seed):
    """seeded selectors leave the global stream alone; unseeded ones use it"""
    np = ctx.np
    q = table(ctx, kind, 0)
    np.random.seed(3)
    u = [np.random.random() for _ in range(2)]
    np.random.seed(3)
    a = selector(ctx, kind, seed)
    x = np.random.random()
    a.get_pi(q)
    a.get_pi_p(q)
    y = np.random.random()
    ctx.check(ctx.And(ctx.eq(x, u[0]), ctx.eq(y, u[1])), "seeded selectors do not consume the global stream")
    free = selector(ctx, kind, None)
    np.random.seed(11)
    p1 = free.get_pi(q).copy()
    a.get_pi(q)
    np.random.seed(11)
    p2 = free.get_pi(q).copy()
    equal(ctx, p1, p2, "unseeded selectors follow the global stream")


def rows(ctx, n=3):
    np = ctx.np
    sas = np.zeros((n, 2, n))
    sas[0, 0] = ctx.dist("d", n)
    sas[0, 1] = np.array([0.0, 0.5, 0.5])
    sas[1, 0] = np.array([0.25, 0.25, 0.5])
    sas[1, 1] = np.array([1.0, 0.0, 0.0])
    sas[2, 0] = np.array([0.125, 0.0, 0.875])
    sas[2, 1] = np.array([0.5, 0.5, 0.0])
    return sas


@P.job(quick=[C(seed=0, uses=2), C(seed=7, uses=3)])
def models(ctx, seed, uses):
    np, M = ctx.np, ctx.mod("mdp")
    sas = rows(ctx)
    sa = [(0, 0), (1, 0), (0, 1)][:uses]
    f = np.zeros((1, 3))
    a, c, d = M.MDP(f.copy(), sas.copy(), seed=seed), M.MDP(f.copy(), sas.copy(), seed=seed + 1), M.MDP(f.copy(), sas.copy())
    got = []
    for i, (s, x) in enumerate(sa):
        noise(ctx, i + 1)
        c.get_next_state(1, 0)
        d.get_next_state(0, 1)
        got.append(a.get_next_state(s, x))
    b = M.MDP(f.copy(), sas.copy(), seed=seed)
    np.random.seed(5)
    u = [np.random.random() for _ in range(len(sa) + 1)]
    np.random.seed(5)
    ctx.check(ctx.eq(np.random.random(), u[0]), "streams are reproducible")
    for i, (s, x) in enumerate(sa):
        ctx.check(ctx.eq(b.get_next_state(s, x), got[i]), "same seed and use, same transitions")
        ctx.check(ctx.eq(np.random.random(), u[i + 1]), "seeded models do not consume the global stream")
    np.random.seed(9)
    p = d.get_next_state(0, 0)
    a.get_next_state(0, 0)
    np.random.seed(9)
    ctx.check(ctx.eq(d.get_next_state(0, 0), p), "unseeded models follow the global stream")


@P.job(quick=[C(kind="max", seed=0, steps=2), C(kind="soft", seed=1, steps=2)], thorough=[C(kind="soft", seed=0, steps=3)], budget=200)
def environments(ctx, kind, seed, steps):
    """whole simulations with seeded models and selectors"""
    np, M, E, A, S = ctx.np, ctx.mod("mdp"), ctx.mod("environments"), ctx.mod("agents"), ctx.mod("algorithms.action_selection")
    sas = rows(ctx)
    q = np.array([[1.0, 1.0], [0.0, 0.0], [0.5, 0.5]])

    def run(draws):
        mdp = M.MDP(np.zeros((1, 3)), sas.copy(), seed=seed)
        ag = A.Agent("x", algorithm=table_algorithm(ctx, q), action_selector=S.MaxActionSelector if kind == "max" else S.SoftmaxActionSelector, action_kwargs=dict(seed=seed))
        env = E.Environment(mdp, {ag: (0, [0.0, 0.0], [])})
        noise(ctx, draws)
        env.fit("x")
        out = []
        for _ in range(steps):
            noise(ctx, draws)
            out.append(env.step("x"))
        return out
    equal(ctx, np.array(run(0)), np.array(run(1)), "same seeds, same trajectory")
