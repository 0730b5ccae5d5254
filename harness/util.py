"""Shared pieces of the harnesses: planners and selectors with given tables (public extension points), snapshots of an environment."""

NAMES = ["m", "z", "b", "y"]      # agents by index; not in alphabetical order


def table_algorithm(ctx, q, values=None, log=None):
    """an Algorithm subclass whose fit publishes the given action values"""
    np = ctx.np
    Base = ctx.mod("algorithms.base").Algorithm

    class Table(Base):
        def _fit(self, mdp, reward_function, position, n_moves, *a, **k):
            if log is not None:
                log.append(dict(position=position, n_moves=n_moves, reward=reward_function))
            t = q(self) if callable(q) else q
            return (np.zeros(mdp.n_states) if values is None else values), t
    return Table


def policy_selector(ctx, pi, na):
    """an ActionSelector subclass with a given deterministic policy"""
    np = ctx.np
    Base = ctx.mod("algorithms.action_selection").ActionSelector

    class Given(Base):
        def get_pi(self, q):
            return pi

        def get_pi_p(self, q):
            return q
        _get_pi = get_pi
        _get_pi_p = get_pi_p
    return Given


def snap(env):
    return dict(features=env.mdp.features.copy(), sas=env.mdp.sas.copy(), walls=env.mdp.walls.copy(), n_steps=env.n_steps,
                agents={k: dict(position=a.position, history=list(a.position_history), consumed=a.consumed.copy(), n_moves=a.n_moves,
                                reward=a.reward_function.copy(), consumes=list(a.consumes), idx=a.agent_feature_idx) for k, a in env.agents.items()})


def same_agent(ctx, a, b, label):
    ctx.check(ctx.eq(a["position"], b["position"]), label)
    ctx.check(len(a["history"]) == len(b["history"]) and ctx.all([ctx.eq(x, y) for x, y in zip(a["history"], b["history"])]), label)
    ctx.check(ctx.exact_array(a["consumed"], b["consumed"]), label)
    ctx.check(ctx.exact_array(a["reward"], b["reward"]), label)
    ctx.check(a["consumes"] == b["consumes"] and a["idx"] == b["idx"], label)


def same_world(ctx, a, b, label):
    ctx.check(ctx.exact_array(a["features"], b["features"]), label)
    ctx.check(ctx.exact_array(a["sas"], b["sas"]), label)
    ctx.check(ctx.exact_array(a["walls"], b["walls"]), label)
    for k in a["agents"]:
        same_agent(ctx, a["agents"][k], b["agents"][k], label)
