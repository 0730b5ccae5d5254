"""C31: the contract of fit and reset."""
from sx.h import Prop
from harness.util import table_algorithm, policy_selector

P = Prop("C31")
P.bounds = ["reward arrays of length 0 to 4 for 3 features, nested and non-array rewards; histories of up to 4 fits, failed fits and resets; value iteration (up to 3 sweeps), null planning, tree search (one simulation) and user-defined planners with any real tables and wrong shapes; grids up to 2x2 with every wall layout"]
C = dict


def model(ctx, nf=3, walls=False):
    np, M = ctx.np, ctx.mod("mdp")
    f = ctx.reals("f", (nf, 3), -2, 2)
    return M.SquareGridMDP(features=f, shape=(1, 3), walls=ctx.layout("w", 3) if walls else None)


def algorithm(ctx, kind, box=None):
    if kind == "vi":
        return ctx.mod("algorithms.dynamic_programming").ValueIteration(max_iter=2, discount=0.5)
    if kind == "null":
        return ctx.mod("algorithms.base").Null()
    return table_algorithm(ctx, lambda self: box["q"], None)()


def results(alg):
    return (None if alg.values is None else alg.values.copy(), None if alg.q_values is None else alg.q_values.copy(), bool(alg.fit_complete))


def same(ctx, a, b, label):
    for x, y in zip(a[:2], b[:2]):
        ctx.check((x is None) == (y is None), label)
        if x is not None:
            ctx.check(ctx.exact_array(x, y), label)
    ctx.check(a[2] == b[2], label)


def unfitted(ctx, alg, label):
    ctx.check(alg.values is None and alg.q_values is None and not alg.fit_complete, label)


def complete(ctx, alg, mdp, label="complete results"):
    ctx.check(tuple(alg.values.shape) == (mdp.n_states,) and tuple(alg.q_values.shape) == (mdp.n_states, mdp.n_actions) and bool(alg.fit_complete), label)


def bad(ctx, n):
    """a reward function that does not fit three features"""
    np = ctx.np
    k = ctx.pick("bad", ["short", "long", "nested", "list", "scalar", "none", "column"])
    r = {"short": np.ones(n - 1), "long": np.ones(n + 1), "nested": np.ones((1, n)), "list": [1.0] * n, "scalar": 3.0, "none": None, "column": np.ones((n, 1))}[k]
    return r, (AttributeError if k in ("short", "long", "nested", "column") else TypeError)


@P.job(quick=[C(kind="vi", hist=("bad", "ok", "bad")), C(kind="null", hist=("ok", "bad", "reset")), C(kind="table", hist=("ok", "bad", "ok")), C(kind="vi", hist=("ok", "reset", "bad", "ok")), C(kind="null", hist=("bad", "reset", "ok"))],
       thorough=[C(kind="vi", hist=("ok", "bad", "ok", "bad", "reset", "ok"))], budget=200)
def histories(ctx, kind, hist):
    np, DP = ctx.np, ctx.mod("algorithms.dynamic_programming")
    mdp = model(ctx)
    box = dict(q=ctx.reals("q", (3, 4), -2, 2))
    alg = algorithm(ctx, kind, box)
    unfitted(ctx, alg, "unfitted at first")
    f0, s0 = mdp.features.copy(), mdp.sas.copy()
    for i, op in enumerate(hist):
        before = results(alg)
        if op == "reset":
            alg.reset()
            unfitted(ctx, alg, "reset returns to the unfitted state")
        elif op == "bad":
            r, err = bad(ctx, 3)
            ctx.check_raises(lambda: alg.fit(mdp, r, 0), "other reward functions are refused", Exception)
            same(ctx, before, results(alg), "a refused fit leaves the previous results in place")
        else:
            r = np.array([1.0, -0.5, 0.25]) if kind == "vi" else ctx.reals("r%d_" % i, 3, -2, 2)
            keep = r.copy()
            if kind == "table":
                box["q"] = ctx.reals("q%d_" % i, (3, 4), -2, 2)
            alg.fit(mdp, r, ctx.pick("p%d" % i, [0, 2]))
            complete(ctx, alg, mdp)
            ctx.check(ctx.exact_array(r, keep), "the reward function is not modified")
            if kind == "null":
                ctx.check(ctx.all([ctx.eq(x, 1.0) for x in ctx.flat(alg.values)]) and ctx.all([ctx.eq(x, 1.0) for x in ctx.flat(alg.q_values)]), "the null planner values everything at 1")
            elif kind == "table":
                ctx.check(ctx.exact_array(alg.q_values, box["q"]), "the planner's results are published")
            else:
                v, q = DP.solve_value_iteration(keep, f0, 2, 0.5, s0, 1e-8)
                ctx.check(ctx.same_array(alg.values, v) and ctx.same_array(alg.q_values, q), "the planner's results are published")
    ctx.check(ctx.exact_array(mdp.features, f0) and ctx.exact_array(mdp.sas, s0), "the model is not modified")


@P.job(quick=[C()])
def lengths(ctx):
    """every length"""
    np, B, M = ctx.np, ctx.mod("algorithms.base"), ctx.mod("mdp")
    nf, k = ctx.pick("nf", [1, 2, 3]), ctx.pick("k", [0, 1, 2, 3, 4])
    mdp = M.SquareGridMDP(features=np.zeros((nf, 2)), shape=(1, 2))
    for alg in (B.Null(), algorithm(ctx, "vi")):
        if nf == k:
            alg.fit(mdp, np.ones(k), 0)
            complete(ctx, alg, mdp)
        else:
            ctx.check_raises(lambda: alg.fit(mdp, np.ones(k), 0), "one entry per feature", Exception)
            unfitted(ctx, alg, "a refused fit leaves it unfitted")


@P.job(quick=[C(first=True), C(first=False)])
def incomplete(ctx, first):
    """planners that return something other than one value per state and one per state and action are refused"""
    np = ctx.np
    mdp = model(ctx)
    Base = ctx.mod("algorithms.base").Algorithm
    shape = ctx.pick("what", ["good", "v short", "v 2d", "v list", "q flat", "q rows", "q columns", "q list", "q 3d", "v scalar"])
    good = (ctx.reals("v", 3, -2, 2), ctx.reals("q", (3, 4), -2, 2))
    ret = {"good": good, "v short": (np.zeros(2), good[1]), "v 2d": (np.zeros((3, 1)), good[1]), "v list": ([0.0] * 3, good[1]), "q flat": (good[0], np.zeros(12)), "q rows": (good[0], np.zeros((2, 4))),
           "q columns": (good[0], np.zeros((3, 3))), "q list": (good[0], [[0.0] * 4] * 3), "q 3d": (good[0], np.zeros((3, 4, 1))), "v scalar": (np.array(1.0), good[1])}[shape]
    out = [good]

    class Any(Base):
        def _fit(self, mdp, reward_function, position, n_moves, *a, **k):
            return out[0]
    alg = Any()
    r = np.array([1.0, 0.0, 0.0])
    if first:
        alg.fit(mdp, r, 0)
    before = results(alg)
    out[0] = ret
    if shape == "good":
        alg.fit(mdp, r, 0)
        complete(ctx, alg, mdp)
    else:
        ctx.check_raises(lambda: alg.fit(mdp, r, 0), "incomplete results are refused", Exception)
        same(ctx, before, results(alg), "a refused fit leaves the previous results in place")


@P.job(quick=[C(sel="max"), C(sel="soft"), C(sel="given")], budget=200)
def policies(ctx, sel):
    """policies come from the fitted agent's own action values"""
    np, E, A, S = ctx.np, ctx.mod("environments"), ctx.mod("agents"), ctx.mod("algorithms.action_selection")
    mdp = model(ctx, nf=1)
    q = np.array([[1.0, 0.0, 2.0, -1.0], [0.0, 3.0, 0.5, 1.0], [1.0, 0.5, 0.25, 4.0]])
    if sel == "max":
        q[1] = ctx.reals("q", 4, -2, 2)
    pi = ctx.ints("pi", 3, 0, 3)
    cls = {"max": S.MaxActionSelector, "soft": S.SoftmaxActionSelector, "given": policy_selector(ctx, pi, 4)}[sel]
    env = E.Environment(mdp, {A.Agent("b", algorithm=table_algorithm(ctx, np.zeros((3, 4)))): (2, [0.0] * 3, []), A.Agent("a", algorithm=table_algorithm(ctx, q), action_selector=cls): (0, [0.0] * 3, [])})
    for name in ("a", "b"):
        ctx.check_raises(lambda: env.get_agent_pi(name), "no policy before fitting", AttributeError)
        ctx.check_raises(lambda: env.get_agent_pi_p(name), "no policy before fitting", AttributeError)
        ctx.check_raises(lambda: env.step(name), "no step before fitting", AttributeError)
    env.fit("a")
    ctx.check_raises(lambda: env.get_agent_pi("b"), "fitting one agent does not fit another", AttributeError)
    p, pp = env.get_agent_pi("a"), env.get_agent_pi_p("a")
    ctx.check(tuple(p.shape) == (3,) and tuple(pp.shape) == (3, 4), "one action per state, one probability per state and action")
    if sel == "given":
        ctx.check(ctx.same_array(p, pi), "the selector's policy")
    else:
        want = cls().get_pi_p(q)
        ctx.check(ctx.same_array(pp, want), "the selector's policy")
        for s in range(3):
            for a in range(4):
                ctx.check(ctx.implies(ctx.eq(p[s], a), ctx.Not(ctx.eq(want[s, a], 0.0))), "an action the policy allows")
    ctx.check_raises(lambda: env.get_agent_pi("nobody"), "unknown agents are refused", Exception)
    ctx.check_raises(lambda: env.get_agent_pi_p("nobody"), "unknown agents are refused", Exception)
    env.agents["a"].algorithm.reset()
    ctx.check_raises(lambda: env.get_agent_pi("a"), "no policy after a reset of the planner", AttributeError)
    ctx.check_raises(lambda: env.get_agent_pi_p("a"), "no policy after a reset of the planner", AttributeError)


@P.job(quick=[C(inter=False), C(inter=True)], budget=200)
def tree_search(ctx, inter):
    np, M, E, A = ctx.np, ctx.mod("mdp"), ctx.mod("environments"), ctx.mod("agents")
    MC = ctx.mod("algorithms.mcts")
    mdp = M.SquareGridMDP(features=ctx.reals("f", (1, 3), 0.5, 2), shape=(1, 3))
    env = E.Environment(mdp, {A.Agent("a", algorithm=MC.MCTS, algorithm_kwargs=dict(n_iter=1, n_steps=1, interactive=inter)): (ctx.pick("p", [0, 1, 2]), [1.0, 0.0, 0.0], []),
                              A.Agent("b"): (2, [0.0, 0.0, 0.0], [])})
    alg = env.agents["a"].algorithm
    unfitted(ctx, alg, "unfitted at first")
    env.fit("a")
    complete(ctx, alg, mdp)
    here = env.agents["a"].position
    for s in range(3):
        for a in range(4):
            if s != here:
                ctx.check(ctx.isnan(alg.q_values[s, a]), "tree search values actions of the current state only")
    before = results(alg)
    r, err = bad(ctx, 3)
    ctx.check_raises(lambda: alg.fit(mdp, r, 0), "other reward functions are refused", Exception)
    after = results(alg)
    ctx.check(ctx.exact_array(before[0], after[0]) and after[2] and ctx.all([ctx.Or(ctx.eq(x, y), ctx.And(ctx.isnan(x), ctx.isnan(y))) for x, y in zip(ctx.flat(before[1]), ctx.flat(after[1]))]), "a refused fit leaves the previous results in place")
    alg.reset()
    unfitted(ctx, alg, "reset returns to the unfitted state")
