"""C29: successor representation."""
from sx.h import Prop

P = Prop("C29")
P.bounds = ["every deterministic transition function (including missing actions) of 2 states and 2 actions, 3 states and 1 action, grids up to 2x2 with every wall layout; any discount in [0, 0.99] for the equation; any weights and features in [-3, 3] for the action values"]
C = dict


def model(ctx, ns, na):
    """forked: each state and action leads to one state or nowhere"""
    np = ctx.np
    sas = np.zeros((ns, na, ns))
    for s in range(ns):
        for a in range(na):
            t = ctx.pick("t%d_%d" % (s, a), range(ns + 1))
            if t < ns:
                sas[s, a, t] = 1.0
    return sas


def nxt(sas, s, a):
    for t in range(sas.shape[0]):
        if sas[s, a, t] > 0:
            return t


def bellman(ctx, sas, g, M):
    ns, na = sas.shape[0], sas.shape[1]
    ctx.check(tuple(M.shape) == (ns * na, ns * na), "one row and column per state and action")
    for s in range(ns):
        for a in range(na):
            t = nxt(sas, s, a)
            i = s * na + a
            for j in range(ns * na):
                want = 1.0 if i == j else 0.0
                if t is not None:
                    want = want + g * (sum([M[t * na + b, j] for b in range(na)], 0.0) / float(na))
                ctx.check(ctx.close(M[i, j], want), "own occurrence plus the discounted average of the successor's actions")


@P.job(quick=[C(ns=2, na=1), C(ns=2, na=2, g=0.5), C(ns=2, na=2, g=0.95), C(ns=3, na=1, g=0.75), C(ns=1, na=3)], thorough=[C(ns=2, na=2), C(ns=3, na=1), C(ns=2, na=3, g=0.95)], budget=250)
def equation(ctx, ns, na, g=None):
    S = ctx.mod("algorithms.successor_representation")
    g = ctx.real("g", 0, 0.99) if g is None else g
    sas = model(ctx, ns, na)
    keep = sas.copy()
    M = S.get_sa_sr(sas, g)
    ctx.check(ctx.exact_array(sas, keep), "inputs are not modified")
    bellman(ctx, sas, g, M)


@P.job(quick=[C(kind="Square", shape=(1, 3)), C(kind="Square", shape=(2, 2), st=True), C(kind="Hex", shape=(2, 2))], thorough=[C(kind="Hex", shape=(2, 3))], budget=250)
def grids(ctx, kind, shape, st=False):
    np, S = ctx.np, ctx.mod("algorithms.successor_representation")
    n = shape[0] * shape[1]
    mdp = getattr(ctx.mod("mdp"), kind + "GridMDP")(features=np.zeros((1, n)), walls=ctx.layout("w", n), shape=tuple(shape), self_transitions=st)
    M = S.get_sa_sr(mdp.sas)
    bellman(ctx, mdp.sas, 0.95, M)


@P.job(quick=[C(ns=2, na=2, nf=2), C(ns=3, na=1, nf=1), C(ns=2, na=1, nf=3)], thorough=[C(ns=3, na=2, nf=2)], budget=250)
def values(ctx, ns, na, nf):
    """any representation, weights and features"""
    np, S = ctx.np, ctx.mod("algorithms.successor_representation")
    sas = model(ctx, ns, na)
    w, f, M = ctx.reals("w", nf, -3, 3), ctx.reals("f", (nf, ns), -3, 3), ctx.reals("m", (ns * na, ns * na), -3, 3)
    keep = [x.copy() for x in (w, f, M, sas)]
    q = S.get_sr_q_values(w, f, M, sas, ns, na)
    ctx.check(tuple(q.shape) == (ns, na), "one value per state and action")
    for s in range(ns):
        for a in range(na):
            if nxt(sas, s, a) is None:
                ctx.check(ctx.isneginf(q[s, a]), "minus infinity where the action has no transition")
            else:
                want = sum([M[s * na + a, t * na + b] * sum([w[k] * f[k, t] for k in range(nf)], 0.0) for t in range(ns) for b in range(na)], 0.0)
                ctx.check(ctx.close(q[s, a], want), "successor representation times state rewards")
    ctx.check(ctx.And(*[ctx.exact_array(x, y) for x, y in zip((w, f, M, sas), keep)]), "inputs are not modified")


@P.job(quick=[C(ns=2, na=2)], thorough=[C(ns=3, na=1)], budget=250)
def together(ctx, ns, na):
    """values of the actual representation satisfy the Bellman equation of the even policy"""
    np, S = ctx.np, ctx.mod("algorithms.successor_representation")
    sas = model(ctx, ns, na)
    f, w = ctx.reals("f", (1, ns), -3, 3), np.array([1.0])
    q = S.get_sr_q_values(w, f, S.get_sa_sr(sas, 0.75), sas, ns, na)
    full = [[None] * na for _ in range(ns)]
    if all(nxt(sas, s, a) is not None for s in range(ns) for a in range(na)):
        ctx.reach("complete model")
        for s in range(ns):
            for a in range(na):
                t = nxt(sas, s, a)
                ctx.check(ctx.close(q[s, a], f[0, s] + 0.75 * sum([q[t, b] for b in range(na)], 0.0) / float(na)), "reward here plus the discounted value of the even policy")


@P.job(quick=[C()])
def mismatch(ctx):
    np, S = ctx.np, ctx.mod("algorithms.successor_representation")
    n = ctx.pick("n", [1, 2, 3, 4])
    sas = np.zeros((3, 1, 3))
    f = np.ones((1, n))
    if n == 3:
        q = S.get_sr_q_values(np.array([1.0]), f, np.eye(3), sas, 3, 1)
        ctx.check(ctx.all([ctx.isneginf(x) for x in ctx.flat(q)]) if hasattr(ctx, "all") else True, "nothing available")
    else:
        ctx.check_raises(lambda: S.get_sr_q_values(np.array([1.0]), f, np.eye(3), sas, 3, 1), "features for another number of states are refused", AssertionError)
