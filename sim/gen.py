"""Seeded scenario generator (swarm style): instance + options + solve arguments."""
from . import kernel
from .ref import Ref

KINDS = [
    "cvrp", "cvrp", "stops", "dur", "capdur", "tw", "twcap", "sdc", "pd", "pdtw",
    "drop", "periodic", "mixed", "span", "fleet", "sdctw", "open",
]


def _dist(a, b, r, metric):
    if metric == "man":
        return abs(a[0] - b[0]) + abs(a[1] - b[1])
    if metric == "max":
        return max(abs(a[0] - b[0]), abs(a[1] - b[1]))
    return round(((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** 0.5, 3)


def gen_instance(r, kind, n, **want):
    """Returns (inst, opts).  Every customer can be served alone (or each request)."""
    for _ in range(200):
        inst, opts = _gen(r, kind, n, want)
        ref = Ref(inst, opts)
        ok = True
        if ref.pd:
            for v in ref.cust:
                d = ref.node[v].get("request")
                if d is not None and all(
                    ref.defects(["Source", v, d, "Sink"], k) for k in range(ref.types)
                ):
                    ok = False
        else:
            for v in ref.cust:
                if all(ref.defects(["Source", v, "Sink"], k) for k in range(ref.types)):
                    ok = False
        if ok:
            return inst, opts
    raise RuntimeError("generator could not produce a servable instance for %s" % kind)


BASE = {
    "cvrp": "cap", "stops": "stops", "dur": "dur", "capdur": "cap dur", "tw": "tw", "twcap": "tw cap",
    "sdc": "cap sdc", "pd": "cap pd", "pdtw": "cap pd tw", "drop": "cap drop", "periodic": "cap per",
    "mixed": "cap mixed", "span": "span", "fleet": "cap fleet", "sdctw": "cap sdc tw", "open": "",
}
EXTRA = ["stops", "dur", "tw", "drop", "fleet", "mixed", "sdc", "per", "cap"]


def features(r, kind, n, want):
    """The constraints of this instance: those of its kind plus random others."""
    F = set(BASE[kind].split())
    if kind in ("cvrp", "fleet", "drop", "mixed", "periodic", "span") and r.random() < 0.3:
        F.add("stops")
    if kind in ("mixed", "drop", "periodic", "fleet") and r.random() < 0.25:
        F.add("dur")
    if r.random() < want.get("cross", 0.35):
        for _ in range(r.choice([1, 1, 2, 3])):
            x = r.choice(EXTRA)
            if x in want.get("no", ()):
                continue
            if x == "drop" and "per" in F or x == "per" and F & {"drop", "pd", "span"}:
                continue  # partial service of a frequency is not defined
            if x == "mixed" and F & {"span"}:
                continue
            if x == "sdc" and F & {"pd"}:
                continue
            F.add(x)
    if "sdc" in F:
        F.add("cap")
    if kind in ("periodic", "mixed") and not F & {"sdc"} and n < (6 if "stops" in F else 4) and r.random() < 0.3:
        F.discard("cap")
    return F


LABELS = {
    "int": lambda i: i + 1,
    "zero": lambda i: i,
    "str": lambda i: "c%s" % "ABCDEFGHIJKLMNOP"[i],
    "mix": lambda i: i + 1 if i % 2 else "n%d" % i,
    "odd": lambda i: ["a b", "c-1", "d/2", "e[3]", "\u00e9", "x_1", "y+z", "node>7", "q.r", "s:t", "u,v", "w*"][i],
    "neg": lambda i: -i - 1,
}


def _gen(r, kind, n, want):
    F = features(r, kind, n, want)
    if "pd" in F:
        n += n % 2
    style = r.choice(["int", "int", "int", "str", "str", "zero", "mix", "odd", "neg"])
    cust = [LABELS[style](i) for i in range(n)]
    metric = r.choice(["man", "max", "euc"])
    side = r.choice([4, 10, 30])
    depot = (r.randint(0, side), r.randint(0, side))
    colocated = r.random() < 0.1
    pts = {}
    for v in cust:
        p = depot
        while p == depot:
            p = (r.randint(0, side), r.randint(0, side))
        pts[v] = p
    if colocated:
        pts[cust[0]] = r.choice([pts[cust[-1]], depot])
    if r.random() < 0.01:
        pts = {v: depot for v in cust}
    pts["Source"] = pts["Sink"] = depot
    timed = bool(F & {"dur", "tw"}) or r.random() < 0.05
    cost_style = want.get("cost") or r.choice(["same", "same", "asym", "unit", "rand", "zeros"])
    # a depot far away: routes get as long as the constraints allow
    far = r.choice([0, 0, 0, side, 3 * side, 20])
    scale = want.get("scale") or r.choice([1, 1, 1, 1, 1, 1, 0.01, 1000])
    types = r.choice([2, 2, 3]) if "mixed" in F else 1
    mult = [1.0] + [r.choice([0.5, 1.0, 1.5, 2.0]) for _ in range(types - 1)]
    graded = r.random() < 0.6  # small vehicles are the cheap ones
    if graded:
        mult.sort()
    nodes = {v: {} for v in ["Source"] + cust + ["Sink"]}
    edges = []
    sparse = want.get("sparse", r.random() < 0.2 and "pd" not in F)
    service = timed and r.random() < 0.5
    asym_time = timed and r.random() < 0.3 and not want.get("metric_time")
    half = timed and r.random() < 0.1
    for u in ["Source"] + cust:
        for v in cust + ["Sink"]:
            if u == v or (u == "Source" and v == "Sink"):
                continue
            if sparse and u != "Source" and v != "Sink" and r.random() < 0.3:
                continue
            d = _dist(pts[u], pts[v], r, metric)
            if cost_style == "same":
                c = d
            elif cost_style == "asym":
                c = d + r.choice([0, 1, 2])
            elif cost_style == "unit":
                c = 1
            elif cost_style == "zeros":
                c = r.choice([0, 0, 1, 7])
            else:
                c = r.randint(1, 20)
            if u == "Source" or v == "Sink":
                c += far
            t = None
            if timed:
                t = int(d) + (0 if d == int(d) else 1)
                if asym_time:
                    t += r.choice([0, 0, 1, 3, side])
                if half:
                    t += 0.5
            if types > 1:
                c = [round(c * m * scale, 3) for m in mult]
            elif scale != 1:
                c = round(c * scale, 3)
            edges.append([u, v, c, t])
    opts = {}
    dem_hi = r.choice([1, 4, 9])
    dem_lo = 0 if r.random() < 0.15 else 1
    if n > 7:
        dem_hi, dem_lo = 9, 4
    frac = r.random() < 0.1 and "pd" not in F
    for v in cust:
        nodes[v]["demand"] = r.randint(dem_lo, dem_hi) + (r.choice([0, 0.5]) if frac else 0)
    if service:
        for v in cust:
            nodes[v]["service_time"] = r.randint(0, 5)
    times = {(u, v): (t or 0) for u, v, c, t in edges}
    tot = sum(nodes[v]["demand"] for v in cust)
    mx = max(1, -int(-max(nodes[v]["demand"] for v in cust) // 1))
    cap = r.randint(mx, max(mx, min(int(tot), int(2 * mx + tot // 2))))
    if n > 7:
        cap = r.randint(mx, 2 * mx)
    rt = [
        times["Source", v] + times[v, "Sink"] + nodes[v].get("service_time", 0) for v in cust
    ]
    dur = max(1, int(max(rt) * r.choice([1.0, 1.2, 1.6, 2.5]) + 0.99))
    if "cap" in F:
        opts["load_capacity"] = cap
    if "stops" in F:
        opts["num_stops"] = r.randint(1, max(1, n - 1))
    if "dur" in F:
        opts["duration"] = dur
    if "tw" in F:
        opts["time_windows"] = True
        horizon = max(rt) * r.choice([2, 3, 5]) + 10
        src_lo = r.choice([0, 0, 0, 3])
        if src_lo:
            nodes["Source"]["lower"] = src_lo
        if r.random() < 0.7:
            nodes["Sink"]["upper"] = int(horizon) + src_lo
            nodes["Source"]["upper"] = int(horizon) + src_lo
        for v in cust:
            e = src_lo + times["Source", v]
            lo = r.randint(0, int(horizon / 2))
            hi = max(e, lo) + r.randint(0, int(horizon / 2))
            nodes[v]["lower"] = lo
            nodes[v]["upper"] = hi
    if "sdc" in F:
        opts["distribution_collection"] = True
        for v in cust:
            nodes[v]["collect"] = r.randint(0, mx)
    if "pd" in F:
        opts["pickup_delivery"] = True
        order = list(cust)
        r.shuffle(order)
        for i in range(0, n, 2):
            p, d = order[i], order[i + 1]
            nodes[p]["request"] = d
            nodes[d]["demand"] = -nodes[p]["demand"]
    if "drop" in F:
        opts["drop_penalty"] = r.choice([1, 5, 30, 1000]) * max(1, int(scale))
    if "per" in F:
        P = r.choice([2, 3])
        opts["periodic"] = P
        for v in cust:
            nodes[v]["frequency"] = r.choice([1, 1, 2, P])
        if r.random() < 0.4:
            opts["num_vehicles"] = r.randint(1, 3) if types == 1 else [r.randint(1, 3) for _ in range(types)]
    if "mixed" in F:
        opts["mixed_fleet"] = True
        caps = sorted(r.randint(max(1, mx // 2), mx * 2) for _ in range(types))
        caps[-1] = max(caps[-1], mx)
        if r.random() < 0.3:
            r.shuffle(caps)
        fc = [r.randint(0, 20) for _ in range(types)]
        if graded:
            fc.sort()
        if "cap" in F:
            opts["load_capacity"] = caps
            if r.random() < 0.6:
                opts["fixed_cost"] = fc
        else:
            opts["fixed_cost"] = fc  # the vehicle types are told apart by their fixed cost
        if "fleet" not in F and "per" not in F and r.random() < 0.3:
            opts["num_vehicles"] = [n] * types
    if "span" in F:
        opts["minimize_global_span"] = True
        if not F & {"stops", "cap"} and r.random() < 0.5:
            opts["load_capacity"] = cap
        if "fleet" not in F and r.random() < 0.4:
            opts["num_vehicles"] = n
    if "fleet" in F and "per" not in F:
        if types > 1:
            # tight or impossible fleets: then solve() has to raise
            opts["num_vehicles"] = [r.randint(1, max(1, n - 1)) for _ in range(types)]
        elif "cap" in F and "pd" not in F:
            opts["num_vehicles"] = r.randint(min(n, max(1, int(tot // cap))), n)
        else:
            opts["num_vehicles"] = r.randint(1, n)
        if r.random() < 0.3:
            opts["use_all_vehicles"] = True
    if types == 1 and r.random() < 0.25:
        opts["fixed_cost"] = r.choice([1, 5, 20]) * max(1, int(scale))
    # -- how the caller writes it down -----------------------------------------
    if types == 1:
        for o in ("load_capacity", "fixed_cost", "num_vehicles"):
            if o in opts and r.random() < 0.07:
                opts[o] = [opts[o]]
    if not opts.get("load_capacity") and r.random() < 0.5:
        for v in cust:
            nodes[v].pop("demand", None)
    if "pd" not in F and r.random() < 0.12:
        for v in r.choice([["Source"], ["Sink"], ["Source", "Sink"]]):
            nodes[v]["demand"] = r.randint(1, 2 * mx)
    order = ["Source"] + cust + ["Sink"]
    if r.random() < 0.2:
        r.shuffle(order)
    if r.random() < 0.1:
        r.shuffle(edges)
    inst = {
        "cust": cust,
        "node": [[v, nodes[v]] for v in order],
        "edge": edges,
    }
    return inst, opts


def pick_n(r, kind, cspy, big=False, large=True):
    if large and cspy and kind in ("cvrp", "fleet", "drop", "twcap") and r.random() < 0.03:
        return r.randint(8, 12)  # with a capacity for two or three customers
    if kind in ("pd", "pdtw"):
        return r.choice([2, 4])
    if kind == "span":
        return r.choice([2, 3, 4])
    if not cspy:
        return r.choice([2, 3, 3, 4])
    if kind in ("stops", "open", "dur", "tw"):
        # without a capacity the labelling algorithm keeps (nearly) every path
        return r.choice([2, 3, 4, 5, 5, 6, 6])
    return r.choice([3, 4, 5, 5, 6, 6, 7, 7] if big else [2, 3, 4, 5, 5, 6, 6, 7])


def gen_args(r, kind, opts, **want):
    """solve() arguments that the documentation allows with these options."""
    a = {}
    cspy = want.get("cspy")
    if kind in ("pd", "pdtw", "span"):
        a["cspy"] = False
    elif cspy is not None:
        a["cspy"] = cspy
    else:
        a["cspy"] = r.random() >= want.get("mip", 0.15)
    if kind in ("pd", "pdtw", "span"):
        a["pricing_strategy"] = "Exact"
    else:
        a["pricing_strategy"] = r.choice(
            want.get("strategies") or ["Exact", "BestEdges1", "BestEdges2", "BestPaths", "Hyper"]
        )
    if a["cspy"] and r.random() < 0.25:
        a["elementary"] = True
    if want.get("greedy", True) and kind not in ("span",) and r.random() < 0.25:
        a["greedy"] = True
    if want.get("dive") and kind not in ("span",) and r.random() < want["dive"]:
        a["dive"] = True
    if r.random() < 0.1:
        a["run_exact"] = r.choice([1, 2, 3])
    if r.random() < 0.06:
        a["solver"] = "cplex"
    return a


def random_partition(r, ref, tries=60):
    """A random feasible plan (list of routes) or None."""
    if ref.pd:
        units = [[v, ref.node[v]["request"]] for v in ref.cust if ref.node[v].get("request") is not None]
    else:
        units = [[v] for v in ref.cust]
    for _ in range(tries):
        r.shuffle(units)
        routes = []
        for u in units:
            if routes and r.random() < 0.6:
                i = r.randrange(len(routes))
                cand = routes[i] + u
                if drivable(ref, ["Source"] + cand + ["Sink"]):
                    routes[i] = cand
                    continue
            routes.append(list(u))
        routes = [["Source"] + x + ["Sink"] for x in routes]
        if all(drivable(ref, x) for x in routes):
            return routes
    return None


def drivable(ref, route):
    return any(not ref.defects(route, k) for k in range(ref.types))
