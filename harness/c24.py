"""C24: saved environments load back identical."""
import os
import tempfile
from sx.h import Prop
from harness.util import snap, same_world

P = Prop("C24")
P.bounds = ["hexagonal grids up to 2x3 with every wall and 0/1 feature layout (up to 3 features), up to 3 agents at every position with any real reward weights, consumption lists, 1-3 moves, greedy or softmax selection with settings; via dictionaries, JSON strings and JSON files, before and after moves"]

KW = [dict(), dict(max_iter=7), dict(max_iter=3, discount=0.5, tol=0.25), dict(discount=0.25)]


def make(ctx, shape, nf, k, self_t, agents_first=False):
    np, M, E, A, S = ctx.np, ctx.mod("mdp"), ctx.mod("environments"), ctx.mod("agents"), ctx.mod("algorithms.action_selection")
    shape = tuple(shape)
    n = shape[0] * shape[1]
    f = np.zeros((nf, n))
    for i in range(nf):
        f[i, :] = ctx.layout("f%d_" % i, n) if i == 0 else np.array([float((j + i) % (i + 1) == 0) for j in range(n)])
    walls = np.array([float(j == n - 1 or (j == 2 and n > 4)) for j in range(n)])
    mdp = M.HexGridMDP(features=f, walls=walls, shape=shape, self_transitions=self_t)
    spec = {}
    for i in range(k):
        soft = (i % 2 == 1)
        ag = A.Agent(["wolf", "a", "zebra 2"][i], n_moves=i + 1, algorithm_kwargs=KW[(i + 1) % 4],
                     action_selector=S.SoftmaxActionSelector if soft else S.MaxActionSelector, action_kwargs=dict(temperature=2.5) if soft else (dict(seed=4) if i == 2 else {}))
        r = ctx.reals("r%d_" % i, nf + k, -3, 3)
        spec[ag] = ((i * 2) % n, r, [[0], [], [0, nf]][i])
    return E.Environment(mdp, spec)


def same_env(ctx, env, new):
    np = ctx.np
    ctx.check(type(new.mdp) is type(env.mdp), "the same kind of grid")
    ctx.check(tuple(new.mdp.shape) == tuple(env.mdp.shape), "shape")
    ctx.check(bool(new.mdp.self_transitions) == bool(env.mdp.self_transitions), "self transitions")
    ctx.check(ctx.exact_array(new.mdp.walls, env.mdp.walls), "walls")
    ctx.check(ctx.exact_array(new.mdp.sas, env.mdp.sas), "transitions")
    ctx.check(ctx.exact_array(new.mdp.features, env.mdp.features), "features")
    ctx.check(list(new.agents) == list(env.agents), "agents in the same order")
    for name in env.agents:
        a, b = env.agents[name], new.agents[name]
        ctx.check(ctx.eq(b.position, a.position), "position")
        ctx.check(b.n_moves == a.n_moves, "number of moves")
        ctx.check(ctx.exact_array(b.reward_function, a.reward_function), "reward weights")
        ctx.check(list(b.consumes) == list(a.consumes), "consumption list")
        ctx.check(b.agent_idx == a.agent_idx and b.agent_feature_idx == a.agent_feature_idx, "agent indices")
        ctx.check(type(b.algorithm) is type(a.algorithm) and type(b.action_selector) is type(a.action_selector), "planner and selector")
        for x in ("max_iter", "discount", "tol"):
            if hasattr(a.algorithm, x):
                ctx.check(getattr(b.algorithm, x) == getattr(a.algorithm, x), "planner settings")
        for x in ("temperature", "seed"):
            if hasattr(a.action_selector, x):
                ctx.check(getattr(b.action_selector, x) == getattr(a.action_selector, x), "selector settings")
        ctx.check(b.algorithm_kwargs == a.algorithm_kwargs and b.action_kwargs == a.action_kwargs, "settings")


def flat(d):
    """nested plain containers -> list of (path, leaf)"""
    if isinstance(d, dict):
        return [((k,) + p, v) for k in d for p, v in flat(d[k])] + [(("#keys",), tuple(d))]
    if isinstance(d, (list, tuple)):
        return [((i,) + p, v) for i, x in enumerate(d) for p, v in flat(x)] + [(("#len",), len(d))]
    return [((), d)]


def same_dict(ctx, a, b, label):
    x, y = flat(a), flat(b)
    ctx.check([p for p, _ in x] == [p for p, _ in y], label)
    for (_, u), (_, v) in zip(x, y):
        ctx.check(ctx.eq(u, v), label)


@P.job(quick=[dict(shape=(2, 2), nf=1, k=1, self_t=False), dict(shape=(2, 2), nf=2, k=2, self_t=True), dict(shape=(2, 3), nf=1, k=3, self_t=False, named=True), dict(shape=(1, 3), nf=3, k=2, self_t=False), dict(shape=(3, 2), nf=1, k=1, self_t=True)],
       thorough=[dict(shape=(3, 3), nf=1, k=3, self_t=True), dict(shape=(2, 3), nf=3, k=3, self_t=True, named=True)])
def round_trip(ctx, shape, nf, k, self_t, named=False):
    IO = ctx.mod("env_io")
    env = make(ctx, shape, nf, k, self_t)
    names = ["food", "b c", "zzz"][:nf] if named else None
    before = snap(env)
    d = IO.hex_env_to_dict(env, names)
    same_world(ctx, before, snap(env), "saving does not modify the environment")
    if named:
        ctx.check(list(d["features"]) == names, "feature names")
    new = IO.hex_environment_from_dict(d)
    same_env(ctx, env, new)
    same_dict(ctx, IO.hex_env_to_dict(new, names), d, "saving again gives the same dictionary")
    s = IO.hex_env_to_json(env, names, return_string=True)
    same_env(ctx, env, IO.hex_environment_from_json(s))
    same_world(ctx, before, snap(env), "saving does not modify the environment")


@P.job(quick=[dict(shape=(2, 2), self_t=False), dict(shape=(1, 4), self_t=True), dict(shape=(4, 1), self_t=False)], thorough=[dict(shape=(2, 3), self_t=False)])
def walls(ctx, shape, self_t):
    """every wall layout and position"""
    np, M, E, A, IO = ctx.np, ctx.mod("mdp"), ctx.mod("environments"), ctx.mod("agents"), ctx.mod("env_io")
    shape = tuple(shape)
    n = shape[0] * shape[1]
    w = ctx.layout("w", n)
    p, o = ctx.state("p", n), ctx.state("o", n)
    mdp = M.HexGridMDP(features=np.zeros((1, n)), walls=w, shape=shape, self_transitions=self_t)
    env = E.Environment(mdp, {A.Agent("y"): (p, [0.1, 2.0, -1.0 / 3.0], [1]), A.Agent("x", n_moves=4): (o, [1.0, 0.0, 0.5], [0, 2])})
    new = IO.hex_environment_from_dict(IO.hex_env_to_dict(env))
    same_env(ctx, env, new)
    same_env(ctx, env, IO.hex_environment_from_json(IO.hex_env_to_json(env, None, return_string=True)))


@P.job(quick=[dict()])
def moved(ctx):
    """agents that have moved and features that have been consumed are saved as they are"""
    np, IO = ctx.np, ctx.mod("env_io")
    env = make(ctx, (2, 2), 1, 2, True)
    t = ctx.state("t", 4)
    u = ctx.state("u", 4)
    env.set_agent_position("wolf", t)
    env.set_agent_position("a", u)
    env._consume_features("wolf")
    before = snap(env)
    new = IO.hex_environment_from_dict(IO.hex_env_to_dict(env))
    same_env(ctx, env, new)
    same_world(ctx, before, snap(env), "saving does not modify the environment")
    d = tempfile.mkdtemp()
    fn = os.path.join(d, "env.json")
    try:
        IO.hex_env_to_json(env, None, fname=fn)
        if not ctx.symbolic:
            with open(fn) as f:
                same_env(ctx, env, IO.hex_environment_from_json(f.read()))
    finally:
        if os.path.exists(fn):
            os.remove(fn)
        os.rmdir(d)


@P.job(quick=[dict()])
def errors(ctx):
    IO = ctx.mod("env_io")
    env = make(ctx, (1, 2), 2, 1, False)
    m = ctx.state("m", 4)
    names = ["f%d" % i for i in range(m)]
    if m != 2:
        ctx.check_raises(lambda: IO.hex_env_to_dict(env, names), "wrong number of feature names rejected", AttributeError)
    else:
        d = IO.hex_env_to_dict(env, names)
        same_env(ctx, env, IO.hex_environment_from_dict(d))
        # explicit names choose the order of the features
        back = IO.hex_environment_from_dict(d, ["f1", "f0"])
        ctx.check(ctx.exact_array(back.mdp.features[0], env.mdp.features[1]) and ctx.exact_array(back.mdp.features[1], env.mdp.features[0]), "given feature names choose the order")
        d["type"] = "square"
        ctx.check_raises(lambda: IO.hex_environment_from_dict(d), "other kinds of grid are refused", NotImplementedError)


P.labels = ["features", "walls", "transitions", "agents in the same order", "position", "number of moves", "reward weights", "consumption list", "planner settings", "selector settings", "saving again gives the same dictionary",
            "saving does not modify the environment", "wrong number of feature names rejected", "feature names", "given feature names choose the order"]
