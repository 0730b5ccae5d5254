"""C25: expected state visitation."""
from sx.h import Prop

P = Prop("C25")
P.bounds = ["up to 3 states, 3 actions and 4 iterations; start distributions, policies and transition probabilities any reals in [0, 1] (not necessarily summing to 1), deterministic grids with every wall layout up to 2x3"]


def occupancy(ctx, sas, n, pi, p0):
    """sum over steps of the distribution over states, by pushing the distribution forward"""
    ns, na = sas.shape[0], sas.shape[1]
    d = [p0[s] for s in range(ns)]
    tot = list(d) if n else [0.0] * ns
    for _ in range(n - 1):
        d = [sum([d[s] * (pi[s, a] * sas[s, a, t]) for s in range(ns) for a in range(na)], 0.0) for t in range(ns)]
        tot = [x + y for x, y in zip(tot, d)]
    return tot


def run(ctx, sas, n, pi, p0, total=False):
    np, I = ctx.np, ctx.mod("algorithms.irl")
    c = (sas.copy(), pi.copy(), p0.copy())
    D = I.state_visitation_iterator(sas, n, pi, p0)
    ctx.check(tuple(D.shape) == (sas.shape[0],), "one frequency per state")
    want = occupancy(ctx, c[0], n, c[1], c[2])
    for s in range(sas.shape[0]):
        ctx.check(ctx.close(D[s], want[s]), "sum over the steps of the occupancy")
    ctx.check(ctx.exact_array(sas, c[0]) and ctx.exact_array(pi, c[1]) and ctx.exact_array(p0, c[2]), "the inputs are not modified")
    if total:
        ctx.check(ctx.close(sum([D[s] for s in range(sas.shape[0])], 0.0), float(n)), "the total is the number of steps")
    return D


@P.job(quick=[dict(n=0), dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4), dict(n=5)])
def everything(ctx, n):
    """all inputs symbolic, two states and two actions"""
    sas, pi, p0 = ctx.reals("t", (2, 2, 2), 0, 1), ctx.reals("pi", (2, 2), 0, 1), ctx.reals("p", 2, 0, 1)
    if n > 2:
        sas[0, 1] = ctx.np.array([0.25, 0.75])
        sas[1, 0] = ctx.np.array([1.0, 0.0])
        pi[1] = ctx.np.array([0.5, 0.5])
    run(ctx, sas, n, pi, p0)


@P.job(quick=[dict(n=2, seed=0), dict(n=3, seed=1), dict(n=3, seed=2)], thorough=[dict(n=4, seed=2), dict(n=6, seed=3)])
def policies(ctx, n, seed):
    """three states and actions, any policy and start, fixed stochastic transitions"""
    np = ctx.np
    sas = np.zeros((3, 3, 3))
    for s in range(3):
        for a in range(3):
            k = (seed + 2 * s + a) % 5
            sas[s, a] = np.array([[1.0, 0, 0], [0, 0.5, 0.5], [0.25, 0, 0.75], [0.125, 0.125, 0.75], [0, 1.0, 0]][k])
    pi = np.array([[0.5, 0.25, 0.25], [0.0, 1.0, 0.0], [0.125, 0.0, 0.875]])
    pi[seed % 3] = ctx.dist("pi", 3)
    p0 = ctx.dist("p", 3)
    run(ctx, sas, n, pi, p0, total=True)


@P.job(quick=[dict(kind="Square", shape=(2, 2), n=3), dict(kind="Hex", shape=(2, 2), n=2), dict(kind="Square", shape=(1, 4), n=4)],
       thorough=[dict(kind="Hex", shape=(2, 3), n=3), dict(kind="Square", shape=(2, 3), n=3)])
def grids(ctx, kind, shape, n):
    """walled grids: any start distribution, a policy that is a distribution over the available actions where there are some"""
    np, M = ctx.np, ctx.mod("mdp")
    shape = tuple(shape)
    k = shape[0] * shape[1]
    mdp = getattr(M, kind + "GridMDP")(features=np.zeros((1, k)), walls=ctx.layout("w", k), shape=shape)
    pi = np.zeros((k, mdp.n_actions))
    free = True
    for s in range(k):
        acts = [a for a in range(mdp.n_actions) if mdp.sas[s, a].sum() > 0]
        if len(acts) > 1 and free:
            d = ctx.dist("pi%d_" % s, len(acts))
            free = False
        else:
            d = [1.0 / max(len(acts), 1)] * len(acts)
        for a, x in zip(acts, d):
            pi[s, a] = x
    stuck = [s for s in range(k) if not mdp.sas[s].sum() > 0]
    p0 = ctx.dist("p", k)
    run(ctx, mdp.sas, n, pi, p0, total=not stuck)
