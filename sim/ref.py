"""Independent reference model of the routing problems vrpy solves.

Works on the plain JSON description of an instance and on plain route lists;
shares no code and no data structure with vrpy.
"""
import itertools

EPS = 1e-6


class Ref:
    def __init__(self, inst, opts):
        self.inst = inst
        self.o = opts
        self.cust = [tuple(c) if isinstance(c, list) else c for c in inst["cust"]]
        self.node = {}
        for lab, at in inst["node"]:
            self.node[lab] = at
        self.cost = {}
        self.time = {}
        for u, v, c, t in inst["edge"]:
            self.cost[u, v] = c
            self.time[u, v] = 0 if t is None else t
        o = opts
        self.mixed = bool(o.get("mixed_fleet"))
        cap = o.get("load_capacity")
        self.cap = None if not cap else (cap if isinstance(cap, list) else [cap])
        fc = o.get("fixed_cost") or 0
        self.fixed = fc if isinstance(fc, list) else [fc]
        nv = o.get("num_vehicles")
        self.nveh = None if not nv else (nv if isinstance(nv, list) else [nv])
        if self.mixed:
            self.types = len(self.cap or (o.get("fixed_cost")) or self.nveh)
        else:
            self.types = 1
        self.stops = o.get("num_stops")
        self.duration = o.get("duration")
        self.tw = bool(o.get("time_windows"))
        self.pd = bool(o.get("pickup_delivery"))
        self.sdc = bool(o.get("distribution_collection"))
        self.drop = o.get("drop_penalty")
        self.periodic = o.get("periodic")
        self.span = bool(o.get("minimize_global_span"))

    # -- attributes with the documented defaults ------------------------------
    def at(self, v, a):
        x = self.node.get(v, {}).get(a)
        if x is None:
            return 1 if a == "frequency" else 0
        if a == "demand" and v in ("Source", "Sink") and x > 0:
            return 0
        return x

    def upper(self, v):
        u = self.at(v, "upper")
        if v == "Sink" and u == 0:
            return max(
                self.at(x, "upper") + self.at(x, "service_time") + self.time[x, "Sink"]
                for x in self.cust + ["Source"]
                if (x, "Sink") in self.time
            )
        return u

    def need(self, v):
        return self.at(v, "frequency") if self.periodic else 1

    # -- figures --------------------------------------------------------------
    def edge_cost(self, u, v, k):
        if (u, v) == ("Source", "Sink") and (u, v) not in self.cost:
            return 0
        c = self.cost[u, v]
        c = c[k] if isinstance(c, list) else c
        return c

    def route_cost(self, route, k):
        c = sum(self.edge_cost(u, v, k) for u, v in zip(route[:-1], route[1:]))
        if len(route) > 2 or ("Source", "Sink") in self.cost:
            c += self.fixed[k] if k < len(self.fixed) else self.fixed[0]
        return c

    def edge_time(self, u, v):
        if (u, v) == ("Source", "Sink") and (u, v) not in self.time:
            return 0
        return self.time[u, v]

    def route_time(self, route):
        return sum(self.edge_time(u, v) for u, v in zip(route[:-1], route[1:])) + sum(
            self.at(v, "service_time") for v in route
        )

    def route_load(self, route):
        return sum(self.at(v, "demand") for v in route)

    def arrivals(self, route):
        t = self.at("Source", "lower")
        out = {"Source": t}
        for u, v in zip(route[:-1], route[1:]):
            t = max(t + self.at(u, "service_time") + self.edge_time(u, v), self.at(v, "lower"))
            out[v] = t
        return out

    def node_loads(self, route, k):
        out = {}
        amount = self.cap[k] if self.sdc else 0
        for v in route:
            if self.sdc:
                amount += self.at(v, "collect") - self.at(v, "demand")
            else:
                amount += self.at(v, "demand")
            out[v] = amount
        return out

    # -- feasibility ----------------------------------------------------------
    def defects(self, route, k):
        """Constraint names `route` (with vehicle type k) breaks; [] when drivable."""
        bad = []
        if not route or route[0] != "Source" or route[-1] != "Sink":
            return ["endpoints"]
        inner = route[1:-1]
        if any(v not in self.node or v in ("Source", "Sink") for v in inner):
            return ["unknown-node"]
        if len(set(inner)) != len(inner):
            bad.append("repeated-customer")
        for u, v in zip(route[:-1], route[1:]):
            if (u, v) not in self.cost and (u, v) != ("Source", "Sink"):
                return bad + ["missing-arc"]
        if not isinstance(k, int) or not 0 <= k < self.types:
            return bad + ["vehicle-type"]
        if self.stops and len(inner) > self.stops:
            bad.append("stops")
        if self.cap:
            q = self.cap[k]
            if self.pd:
                l = 0
                for v in inner:
                    l += self.at(v, "demand")
                    if l > q + EPS or l < -EPS:
                        bad.append("load")
                        break
            elif self.sdc:
                l = sum(self.at(v, "demand") for v in inner)
                if l > q + EPS:
                    bad.append("load")
                else:
                    for v in inner:
                        l += self.at(v, "collect") - self.at(v, "demand")
                        if l > q + EPS:
                            bad.append("load")
                            break
            elif self.route_load(route) > q + EPS:
                bad.append("load")
        if self.duration and self.route_time(route) > self.duration + EPS:
            bad.append("duration")
        if self.tw:
            a = self.arrivals(route)
            if any(a[v] > self.upper(v) + EPS for v in a):
                bad.append("time-window")
        if self.pd:
            pos = {v: i for i, v in enumerate(inner)}
            for v in self.cust:
                d = self.node[v].get("request")
                if d is None:
                    continue
                if (v in pos) != (d in pos) or (v in pos and pos[v] > pos[d]):
                    bad.append("precedence")
                    break
        return bad

    def all_routes(self, limit=200000):
        """Cheapest feasible route per (customer set, type): {(frozenset, k): (cost, route)}."""
        best = {}
        n = 0
        maxlen = min(len(self.cust), self.stops or len(self.cust))
        for L in range(1, maxlen + 1):
            for p in itertools.permutations(self.cust, L):
                n += 1
                if n > limit:
                    raise RuntimeError("instance too large for enumeration")
                r = ["Source"] + list(p) + ["Sink"]
                if any((u, v) not in self.cost for u, v in zip(r[:-1], r[1:])):
                    continue
                for k in range(self.types):
                    if not self.defects(r, k):
                        c = self.route_cost(r, k)
                        key = (frozenset(p), k)
                        if key not in best or c < best[key][0] - 1e-12:
                            best[key] = (c, r)
        return best

    def optimum(self, routes=None):
        """Cheapest exact partition of the customers (no fleet bound), or None."""
        routes = routes if routes is not None else self.all_routes()
        by = {}
        for (s, _k), (c, _r) in routes.items():
            if s not in by or c < by[s]:
                by[s] = c
        idx = {v: i for i, v in enumerate(self.cust)}
        full = (1 << len(self.cust)) - 1
        items = [(sum(1 << idx[v] for v in s), c) for s, c in by.items()]
        if self.drop:
            items += [(1 << idx[v], self.drop) for v in self.cust]
        dp = {0: 0}
        for m in range(full + 1):
            if m not in dp:
                continue
            rest = full & ~m
            if not rest:
                break
            low = rest & -rest
            for s, c in items:
                if s & low and not s & m:
                    v = dp[m] + c
                    t = m | s
                    if t not in dp or v < dp[t]:
                        dp[t] = v
        return dp.get(full)

    def full_lp(self, routes=None):
        """Minimum of the covering LP over all feasible routes; None if infeasible."""
        import pulp

        routes = routes if routes is not None else self.all_routes()
        p = pulp.LpProblem("ref", pulp.LpMinimize)
        ys = []
        cover = {v: [] for v in self.cust}
        fleet = {k: [] for k in range(self.types)}
        ob = []
        for i, ((s, k), (c, r)) in enumerate(sorted(routes.items(), key=lambda x: (repr(x[1][1]), x[0][1]))):
            y = pulp.LpVariable("y%d" % i, 0)
            ob.append(c * y)
            for v in s:
                cover[v].append(y)
            fleet[k].append(y)
        if self.drop:
            for i, v in enumerate(self.cust):
                y = pulp.LpVariable("d%d" % i, 0, 1)
                ob.append(self.drop * y)
                cover[v].append(y)
        p += pulp.lpSum(ob)
        for i, v in enumerate(self.cust):
            p += pulp.lpSum(cover[v]) >= self.need(v), "c%d" % i
        if self.nveh and not self.periodic:
            for k in range(self.types):
                if self.o.get("use_all_vehicles"):
                    p += pulp.lpSum(fleet[k]) == self.nveh[k], "f%d" % k
                else:
                    p += pulp.lpSum(fleet[k]) <= self.nveh[k], "f%d" % k
        p.solve(pulp.PULP_CBC_CMD(msg=False))
        if pulp.LpStatus[p.status] != "Optimal":
            return None
        return pulp.value(p.objective) or 0.0


def check_plan(ref, obs, locked=(), fleet=True, figures=True):
    """All defects of an observed plan, as (property id, class, detail)."""
    out = []
    routes = obs["routes"]
    types = obs["types"]
    # C02 -------------------------------------------------------------------
    for rid, r in routes.items():
        if len(r) <= 2 and r == ["Source", "Sink"]:
            continue
        if any(list(r) == list(l) for l in locked):
            continue
        for d in ref.defects(r, types.get(rid)):
            out.append(("C02", d, "route %s = %s (vehicle type %s)" % (rid, r, types.get(rid))))
    # C01 -------------------------------------------------------------------
    visits = {v: 0 for v in ref.cust}
    for r in routes.values():
        for v in r[1:-1]:
            if v in visits:
                visits[v] += 1
    missing = []
    for v in ref.cust:
        if visits[v] == ref.need(v):
            continue
        if visits[v] == 0 and ref.drop:
            missing.append(v)
            continue
        cls = "missed" if visits[v] < ref.need(v) else "over-served"
        out.append(("C01", cls, "customer %r visited %d times, required %d" % (v, visits[v], ref.need(v))))
    # C03 -------------------------------------------------------------------
    if fleet and ref.nveh and not ref.periodic and (not locked or fleet == "strict"):
        for k in range(ref.types):
            used = sum(1 for rid in routes if types.get(rid) == k)
            if used > ref.nveh[k]:
                out.append(("C03", "too-many", "%d routes of type %d, %d available" % (used, k, ref.nveh[k])))
            elif ref.o.get("use_all_vehicles") and used < ref.nveh[k]:
                out.append(("C03", "not-all-used", "%d routes of type %d, all %d required" % (used, k, ref.nveh[k])))
    # C04 -------------------------------------------------------------------
    if ref.periodic:
        out += check_schedule(ref, obs)
    # C05 -------------------------------------------------------------------
    if figures:
        out += check_figures(ref, obs, len(missing))
    return out


def check_schedule(ref, obs):
    out = []
    sch = obs["schedule"]
    routes, types = obs["routes"], obs["types"]
    if sch == {} or sch is None:
        return out
    seen = {}
    for day, rids in sch.items():
        if not isinstance(day, int) or not 0 <= day < ref.periodic:
            out.append(("C04", "day", "day %r outside 0..%d" % (day, ref.periodic - 1)))
        vis = {}
        fleet = {}
        for rid in rids:
            seen[rid] = seen.get(rid, 0) + 1
            if rid not in routes:
                out.append(("C04", "unknown-route", "route %r on day %r does not exist" % (rid, day)))
                continue
            fleet[types.get(rid)] = fleet.get(types.get(rid), 0) + 1
            for v in routes[rid][1:-1]:
                vis[v] = vis.get(v, 0) + 1
        for v, n in vis.items():
            if n > 1:
                out.append(("C04", "twice-a-day", "customer %r visited %d times on day %r" % (v, n, day)))
        if ref.nveh:
            for k in range(len(ref.nveh)):
                if fleet.get(k, 0) > ref.nveh[k]:
                    out.append(("C04", "fleet", "day %r uses %d vehicles of type %d, %d available" % (day, fleet[k], k, ref.nveh[k])))
    for rid in routes:
        if seen.get(rid, 0) != 1:
            out.append(("C04", "not-once", "route %r scheduled %d times" % (rid, seen.get(rid, 0))))
    return out


def close(a, b):
    try:
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    except TypeError:
        return False


def check_figures(ref, obs, ndropped):
    out = []
    routes, types = obs["routes"], obs["types"]

    def cmp(name, got, want, what=""):
        if not close(got, want):
            out.append(("C05", name, "%s %s reported %r, recomputed %r" % (name, what, got, want)))

    costs = {}
    for rid, r in routes.items():
        k = types.get(rid)
        if rid not in types:
            out.append(("C05", "type", "route %r has no vehicle type" % (rid,)))
            return out
        try:
            costs[rid] = ref.route_cost(r, k)
        except (KeyError, IndexError):
            return out  # a C02 matter
    for rid in routes:
        if rid not in obs["cost"]:
            out.append(("C05", "cost", "route %r missing" % (rid,)))
            continue
        cmp("cost", obs["cost"][rid], costs[rid], "of route %r" % (rid,))
    tot = (max(costs.values()) if costs else 0) if ref.span else sum(costs.values())
    tot += (ref.drop or 0) * ndropped
    cmp("best_value", obs["value"], tot)
    if ref.cap and not ref.sdc and not ref.pd:
        for rid, r in routes.items():
            cmp("load", obs["load"].get(rid), ref.route_load(r), "of route %r" % (rid,))
    if ref.cap:
        for rid, r in routes.items():
            want = ref.node_loads(r, types[rid])
            got = obs["node_load"].get(rid) or {}
            for v in r:
                cmp("node_load", got.get(v), want[v], "of route %r at %r" % (rid, v))
    if ref.duration or ref.tw:
        for rid, r in routes.items():
            cmp("duration", obs["duration"].get(rid), ref.route_time(r), "of route %r" % (rid,))
            a = ref.arrivals(r)
            ga = obs["arrival"].get(rid) or {}
            gd = obs["departure"].get(rid) or {}
            for v in r:
                cmp("arrival", ga.get(v), a[v], "of route %r at %r" % (rid, v))
                want = a[v] if v == "Source" else a[v] + ref.at(v, "service_time")
                cmp("departure", gd.get(v), want, "of route %r at %r" % (rid, v))
    return out


def schedule_exists(ref, obs, limit=200000):
    """Smallest possible max-min number of routes per day, None when impossible."""
    routes, types = obs["routes"], obs["types"]
    ids = sorted(routes, key=lambda r: -len(routes[r]))
    P = ref.periodic
    days = [set() for _ in range(P)]
    cnt = [0] * P
    fl = [dict() for _ in range(P)]
    best = [None]
    steps = [0]
    ideal = 1 if len(ids) % P else 0

    def rec(i):
        steps[0] += 1
        if steps[0] > limit:
            raise RuntimeError("schedule too large")
        if best[0] == ideal:
            return
        if i == len(ids):
            s = max(cnt) - min(cnt)
            if best[0] is None or s < best[0]:
                best[0] = s
            return
        r = ids[i]
        vs = set(routes[r][1:-1])
        k = types.get(r)
        for d in range(P):
            if vs & days[d]:
                continue
            if ref.nveh and k < len(ref.nveh) and fl[d].get(k, 0) >= ref.nveh[k]:
                continue
            days[d] |= vs
            cnt[d] += 1
            fl[d][k] = fl[d].get(k, 0) + 1
            rec(i + 1)
            days[d] -= vs
            cnt[d] -= 1
            fl[d][k] -= 1

    try:
        rec(0)
    except RuntimeError:
        return None
    return best[0]


def schedule_spread(ref, obs):
    sch = obs["schedule"]
    if not sch:
        return None
    c = [len(sch.get(d, ())) for d in range(ref.periodic)]
    return max(c) - min(c)
