"""Builds a problem from its JSON description and observes it through the public API only."""


def build_graph(inst):
    import networkx as nx

    G = nx.DiGraph()
    for lab, at in inst["node"]:
        G.add_node(lab, **{k: v for k, v in at.items() if v is not None})
    for u, v, c, t in inst["edge"]:
        kw = {"cost": list(c) if isinstance(c, list) else c}
        if t is not None:
            kw["time"] = t
        G.add_edge(u, v, **kw)
    return G


def copy_opts(opts):
    return {k: (list(v) if isinstance(v, list) else v) for k, v in opts.items()}


def make(vrpy, inst, opts, G=None):
    G = build_graph(inst) if G is None else G
    return vrpy.VehicleRoutingProblem(G, **copy_opts(opts))


def observe(prob):
    r = prob.best_routes
    routes = {k: list(v) for k, v in (r.items() if isinstance(r, dict) else enumerate(r))}
    o = {"routes": routes}
    o["types"] = {k: int(v) for k, v in prob.best_routes_type.items()}
    o["cost"] = dict(prob.best_routes_cost)
    o["value"] = prob.best_value if routes or prob.drop_penalty else 0
    o["load"] = dict(prob.best_routes_load)
    o["node_load"] = {k: dict(v) for k, v in prob.node_load.items()}
    o["duration"] = dict(prob.best_routes_duration)
    o["arrival"] = {k: dict(v) for k, v in prob.arrival_time.items()}
    o["departure"] = {k: dict(v) for k, v in prob.departure_time.items()}
    o["schedule"] = prob.schedule
    return o


def canon(obs):
    """Order independent summary of an observation, for equality between runs."""
    if "cost" not in obs:
        return canon_routes(obs)
    def norm(x):
        if isinstance(x, float):
            return round(x, 6) + 0.0
        return x

    items = []
    for rid, r in obs["routes"].items():
        items.append(
            (
                repr(r),
                obs["types"].get(rid),
                round(float(obs["cost"].get(rid, 0)), 6),
                round(float(obs["duration"].get(rid, 0)), 6),
                round(float(obs["load"].get(rid, 0)), 6),
            )
        )
    days = None
    if obs["schedule"]:
        days = sorted(
            (d, sorted(repr(obs["routes"].get(r)) for r in rs)) for d, rs in obs["schedule"].items()
        )
    return repr((sorted(items), round(float(obs["value"]), 6), days))


def minimal(prob):
    """Routes and vehicle types only."""
    r = prob.best_routes
    routes = {k: list(v) for k, v in (r.items() if isinstance(r, dict) else enumerate(r))}
    try:
        types = {k: int(v) for k, v in prob.best_routes_type.items()}
    except BaseException:  # noqa
        types = {k: 0 for k in routes}
    return {"routes": routes, "types": types, "schedule": prob.schedule, "value": None}


def canon_routes(obs):
    return repr(sorted((repr(r), obs["types"].get(k)) for k, r in obs["routes"].items()))
