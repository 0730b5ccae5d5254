"""C05: validation of models."""
from sx.h import Prop

P = Prop("C05")
P.bounds = ["3 states, 2 actions, 2 features; every entry an arbitrary real in [-2, 2] (or NaN / infinite at an arbitrary place)",
            "wrong shapes: every listed shape"]


def fresh(ctx, n=3, na=2):
    np, M = ctx.np, ctx.mod("mdp")
    sas = np.zeros((n, na, n))
    for s in range(n):
        sas[s, 0, (s + 1) % n] = 1
    feats = ctx.reals("f0", (2, n))
    walls = ctx.bits("w0", n)
    return M.MDP(feats, sas, walls=walls)


def snapshot(mdp):
    return mdp.sas.copy(), mdp.features.copy(), mdp.walls.copy(), mdp.adjacency.copy(), mdp.n_states, mdp.n_actions, mdp.n_features


def unchanged(ctx, mdp, snap):
    now = snapshot(mdp)
    for a, b in zip(snap[:4], now[:4]):
        ctx.check(ctx.exact_array(a, b), "a rejected assignment changes nothing")
    ctx.check(snap[4:] == now[4:], "a rejected assignment changes no sizes")


def attempt(ctx, mdp, name, value):
    e = ctx.raises(lambda: setattr(mdp, name, value))
    return e


@P.job(quick=[dict(special=None), dict(special="nan"), dict(special="inf"), dict(special="-inf")])
def transitions(ctx, special):
    """accepted iff all entries are probabilities; deterministic iff none is strictly between 0 and 1"""
    np = ctx.np
    mdp = fresh(ctx)
    snap = snapshot(mdp)
    n, na = 3, 2
    new = ctx.reals("p", (n, na, n), -2, 2)
    if special:
        i, a, j = ctx.state("i", n), ctx.state("a", na), ctx.state("j", n)
        new[i, a, j] = float(special)
    ok = False if special else ctx.And(*[ctx.And(p >= 0, p <= 1) for p in ctx.flat(new)])
    keep = new.copy()
    e = attempt(ctx, mdp, "sas", new)
    ctx.check(ctx.eq(ok, e is None) if not special else e is not None, "accepted exactly when every entry is a probability")
    if e is None:
        ctx.check(ctx.exact_array(mdp.sas, keep), "accepted transitions are used as given")
        frac = ctx.Or(*[ctx.And(p > 0, p < 1) for p in ctx.flat(keep)])
        ctx.check(ctx.eq(mdp._deterministic, ctx.Not(frac)), "deterministic iff no probability strictly between 0 and 1")
        for s in range(n):
            for t in range(n):
                ctx.check(ctx.eq(mdp.adjacency[s, t] == 1, ctx.Or(*[keep[s, a, t] > 0 for a in range(na)])), "adjacency of accepted transitions")
    else:
        unchanged(ctx, mdp, snap)


@P.job(quick=[dict(special=None), dict(special="nan")])
def constructor(ctx, special):
    np, M = ctx.np, ctx.mod("mdp")
    n, na = 2, 2
    new = ctx.reals("p", (n, na, n), -2, 2)
    if special:
        new[ctx.state("i", n), ctx.state("a", na), ctx.state("j", n)] = float(special)
    ok = False if special else ctx.And(*[ctx.And(p >= 0, p <= 1) for p in ctx.flat(new)])
    w = ctx.reals("w", n, -1, 2)
    okw = ctx.And(*[ctx.Or(v == 0, v == 1) for v in ctx.flat(w)])
    e = ctx.raises(lambda: M.MDP(np.zeros((1, n)), new, walls=w))
    if special:
        ctx.check(e is not None, "invalid models cannot be built")
    else:
        ctx.check(ctx.eq(ctx.And(ok, okw), e is None), "models are built exactly when valid")


@P.job(quick=[dict(shape=s) for s in [(3, 2), (3, 2, 2), (2, 2, 3), (2, 3), (3, 2, 3, 1), (3, 3, 2)]])
def wrong_transition_shape(ctx, shape):
    np = ctx.np
    mdp = fresh(ctx)
    snap = snapshot(mdp)
    e = attempt(ctx, mdp, "sas", np.zeros(tuple(shape)))
    ctx.check(e is not None, "transition arrays of the wrong shape are rejected")
    unchanged(ctx, mdp, snap)
    e = attempt(ctx, mdp, "sas", [[[0.0] * 3] * 2] * 3)
    ctx.check(isinstance(e, TypeError), "non-arrays are rejected")
    unchanged(ctx, mdp, snap)


@P.job(quick=[dict(nf=f, ns=n) for f in (1, 2, 4) for n in (1, 2, 3, 4, 6)])
def features(ctx, nf, ns):
    np = ctx.np
    mdp = fresh(ctx)
    snap = snapshot(mdp)
    new = ctx.reals("g", (nf, ns))
    keep = new.copy()
    e = attempt(ctx, mdp, "features", new)
    ctx.check((e is None) == (ns == 3), "features accepted exactly with one column per state")
    if e is None:
        ctx.check(ctx.exact_array(mdp.features, keep) and mdp.n_features == nf, "features used as given")
        ctx.check(ctx.exact_array(mdp.sas, snap[0]), "features do not affect transitions")
    else:
        unchanged(ctx, mdp, snap)
    e = attempt(ctx, mdp, "features", [[0.0] * 3])
    ctx.check(isinstance(e, TypeError), "non-array features are rejected")


@P.job(quick=[dict(n=k, special=s) for k, s in ((3, None), (2, None), (4, None), (6, None), (3, "nan"))])
def walls(ctx, n, special):
    np = ctx.np
    mdp = fresh(ctx)
    snap = snapshot(mdp)
    w = ctx.reals("w", n, -1, 2)
    if special:
        w[ctx.state("i", n)] = float(special)
    keep = w.copy()
    ok = n == 3 and not special and ctx.And(*[ctx.Or(v == 0, v == 1) for v in ctx.flat(w)])
    e = attempt(ctx, mdp, "walls", w)
    ctx.check(ctx.eq(ok, e is None) if ok is not False else e is not None, "walls accepted exactly when one 0/1 entry per state")
    if e is None:
        ctx.check(ctx.exact_array(mdp.walls, keep), "walls used as given")
    else:
        unchanged(ctx, mdp, snap)
    e = attempt(ctx, mdp, "walls", np.zeros((3, 1)))
    ctx.check(e is not None, "walls must be one-dimensional")


@P.job(quick=[dict(kind="Square", shape=(2, 3)), dict(kind="Hex", shape=(3, 2))])
def grid_walls(ctx, kind, shape):
    """grids validate walls the same way"""
    np, M = ctx.np, ctx.mod("mdp")
    shape = tuple(shape)
    n = shape[0] * shape[1]
    mdp = getattr(M, kind + "GridMDP")(features=np.zeros((1, n)), shape=shape, walls=ctx.bits("w0", n))
    snap = snapshot(mdp)
    w = ctx.reals("w", n, -1, 2)
    ok = ctx.And(*[ctx.Or(v == 0, v == 1) for v in ctx.flat(w)])
    e = attempt(ctx, mdp, "walls", w)
    ctx.check(ctx.eq(ok, e is None), "grid walls accepted exactly when 0/1")
    if e is not None:
        unchanged(ctx, mdp, snap)
    for k in (n - 1, n + 1):
        snap = snapshot(mdp)
        ctx.check(attempt(ctx, mdp, "walls", np.zeros(k)) is not None, "grid walls need one entry per state")
        unchanged(ctx, mdp, snap)
    e = ctx.raises(lambda: getattr(M, kind + "GridMDP")(features=np.zeros((1, n + 1)), shape=shape))
    ctx.check(e is not None, "grid features need one column per state")


P.labels = ["accepted exactly when every entry is a probability", "accepted transitions are used as given", "deterministic iff no probability strictly between 0 and 1",
            "a rejected assignment changes nothing", "models are built exactly when valid", "transition arrays of the wrong shape are rejected",
            "features accepted exactly with one column per state", "features used as given", "walls accepted exactly when one 0/1 entry per state", "walls used as given",
            "grid walls accepted exactly when 0/1"]
