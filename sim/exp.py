"""Experiments: one scenario (plain JSON) -> one simulated run -> violations.

`generate(prop, seed, tier)` draws the scenario, `execute(prop, sc, world)`
runs it against the code under test inside `world` and returns the list of
(class, detail) violations of that property.  A scenario together with the
world's decision trace is a complete, replayable description of the run.
"""
import copy
import random
import sys

from . import gen, kernel, observe, seams
from .kernel import Ctx, rng_for
from .ref import Ref, check_plan, schedule_exists, schedule_spread, close

MAX_CALLS = 1500  # solver calls in one solve(); the largest seen is below 250


# ---------------------------------------------------------------- one solve --
class Outcome:
    ok = False
    err = None
    obs = None
    obs_err = None
    elapsed = 0.0
    comp = None
    mutated = None


def new_ctx(sc, scope, prof):
    c = Ctx(scope)
    c.profile = dict(prof)
    c.max_calls = MAX_CALLS
    c.hash_seed = sc.get("hash", 0)
    return c


def seed_rngs(sc, scope):
    import numpy

    s = rng_for("py", sc.get("pyseed", 0), scope).getrandbits(31)
    random.seed(s)
    numpy.random.seed(s)


def solve(w, sc, prob, args, scope, prof, trace_calls=False):
    """prob.solve(**args) as the operation `scope` of the simulated history."""
    out = Outcome()
    ctx = new_ctx(sc, scope, prof)
    out.ctx = ctx
    task = w.sched is not None
    save = w.ctx
    w.set_ctx(ctx)
    given = copy.deepcopy(args)
    want = copy.deepcopy(args)
    t0 = w.now
    w.event("solve", scope)
    tracer = None
    if trace_calls:
        at = w.decide("intr.at", 0, lambda r: r.choice([r.randrange(1, 60), r.randrange(1, 2000)]))
        if at:
            tracer = _Interrupter(w, at)
    try:
        seed_rngs(sc, scope)
        if tracer:
            sys.settrace(tracer)
        try:
            prob.solve(**given)
        finally:
            if tracer:
                sys.settrace(None)
        out.ok = True
    except kernel.Budget as e:
        out.err = e
    except BaseException as e:  # noqa: the failure is the observation
        out.err = e
        if isinstance(e, (SystemExit, GeneratorExit)):
            raise
    finally:
        out.elapsed = w.now - t0
        if given != want:
            out.mutated = "solve() changed its arguments: %r -> %r" % (want, given)
        w.event("end", scope, out.ok, type(out.err).__name__)
        w.tally["ok" if out.ok else "err"] += 1
        w.tally["cbc"] += ctx.stats["cbc_int"] + ctx.stats["cbc_lp"]
        w.tally["csp"] += ctx.stats["csp"]
        if out.ok:
            out.comp = getattr(prob, "comp_time", None)
            try:
                out.obs = observe.observe(prob)
            except BaseException as e:  # noqa
                out.obs_err = e
                try:
                    out.obs = observe.minimal(prob)
                except BaseException:  # noqa
                    out.obs = None
            w.event("plan", None if out.obs is None else observe.canon_routes(out.obs))
        w.set_ctx(save)
    return out


class _Interrupter:
    """Ctrl-C delivered on entry of the n-th function of the code under test."""

    def __init__(self, w, at):
        self.w = w
        self.left = at
        self.root = seams.REPO + "/vrpy"

    def __call__(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(self.root):
            if frame.f_code.co_name.startswith("<"):
                return None
            self.left -= 1
            if self.left == 0:
                sys.settrace(None)
                self.w.fired("interrupt_in_python")
                self.w.ctx.stats["hard_fault"] += 1
                self.w.event("intr", frame.f_code.co_name)
                raise kernel.Interrupt()
        return None


def describe(e):
    return "%s: %s" % (type(e).__name__, str(e)[:200])


# --------------------------------------------------------------- generation --
def swarm(r, limit=None, faults=False):
    """A random mix of benign solver behaviours."""
    p = {
        "perm": r.choice([0, 0, 0.3, 1.0]),
        "csp_perm": r.choice([0, 0, 0.3, 1.0]),
        "noise": r.choice([0, 0, 0.5]),
        "clock_step": r.choice([0, 0, 0.2]),
        "zero": r.choice([0, 0, 0, 0.5]),
        "late": r.choice([0, 0.3]),
        "slow": r.choice([0, 0.05, 0.2, 0.5]),
    }
    if limit:
        p["T"] = limit
    return p


def time_limit(r):
    return r.choice([0.1, 0.6, 1, 2, 5, 10, 60])


def instance(r, kind, args, big=False, large=True, **want):
    n = gen.pick_n(r, kind, args.get("cspy", True), big, large)
    return gen.gen_instance(r, kind, n, **want)


def cw_ok(opts):
    """May the plan be computed by Clarke & Wright alone (documented)?"""
    return not any(
        opts.get(o) for o in
        ("time_windows", "pickup_delivery", "distribution_collection", "mixed_fleet", "periodic", "minimize_global_span")
    )


def lock_ok(opts):
    """Locked routes are defined: no frequencies, no fleet limit (a recorded finding)."""
    return not any(opts.get(o) for o in ("periodic", "num_vehicles", "use_all_vehicles"))


def add_initial(r, inst, opts, args):
    ref = Ref(inst, opts)
    if ref.types > 1 or ref.o.get("use_all_vehicles") or ref.periodic:
        return
    part = gen.random_partition(r, ref)
    if part is None:
        return
    if ref.nveh and len(part) > ref.nveh[0]:
        return
    args["initial_routes"] = part
    if r.random() < 0.25:
        # a pool of routes: several plans at once
        more = []
        for _ in range(r.choice([1, 2, 3, 40]) if ref.span else r.choice([1, 2, 3])):
            p = gen.random_partition(r, ref)
            if p and not (ref.nveh and len(p) > ref.nveh[0]):
                more += p
        args["initial_routes"] = part + more if r.random() < 0.5 else more + part
    return part


def add_locked(r, inst, opts, args, everything=0.1):
    """Complete preassigned routes (feasible, disjoint)."""
    ref = Ref(inst, opts)
    part = gen.random_partition(r, ref)
    if not part:
        return False
    k = len(part) if r.random() < everything else r.randint(1, max(1, len(part) - 1))
    locked = part[:k]
    rest = [v for v in ref.cust if not any(v in x for x in locked)]
    if "initial_routes" in args:
        args["initial_routes"] = part[k:] if ref.pd else [["Source", v, "Sink"] for v in rest]
        if not rest:
            del args["initial_routes"]
    args["preassignments"] = locked
    return True


def variation(r, kind, inst, opts):
    """A documented attribute change between two solves of the same problem."""
    ref = Ref(inst, opts)
    ch = {}
    n = len(ref.cust)
    c = ["stops", "fixed"]
    if opts.get("load_capacity"):
        c += ["cap"] * 4
    if opts.get("duration"):
        c += ["dur", "dur"]
    if not opts.get("use_all_vehicles") and not ref.span:
        c.append("fleet")
    if not ref.periodic and not ref.span:
        c.append("drop")
    c += [o for o in ("time_windows", "distribution_collection", "use_all_vehicles", "minimize_global_span") if opts.get(o)]
    if ref.periodic:
        c.append("periodic")
    what = r.choice(c)
    many = ref.mixed
    if what == "stops":
        ch["num_stops"] = r.choice([None] + list(range(2 if ref.pd else 1, n + 1)))
    elif what == "cap":
        mx = max(1, -int(-max(abs(ref.at(v, "demand")) for v in ref.cust) // 1))
        tot = int(sum(abs(ref.at(v, "demand")) for v in ref.cust))
        one = lambda: r.randint(mx, r.choice([mx, 2 * mx, 3 * mx, max(mx, tot)]))
        ch["load_capacity"] = [one() for _ in range(ref.types)] if many else one()
    elif what == "dur":
        lo = max(ref.route_time(["Source", v, "Sink"]) for v in ref.cust)
        ch["duration"] = r.choice([None, int(lo) + 1, int(lo * 1.5) + 1, int(lo * 3) + 1])
    elif what == "fleet":
        one = lambda: n if not ref.periodic else r.randint(1, 3)
        ch["num_vehicles"] = [one() for _ in range(ref.types)] if many else one()
    elif what == "fixed" and (ref.cap or ref.nveh or not many):
        ch["fixed_cost"] = [r.randint(0, 9) for _ in range(ref.types)] if many else r.choice([0, 3, 11])
    elif what == "drop":
        ch["drop_penalty"] = r.choice([None, 1, 10, 500])
    elif what == "periodic":
        ch["periodic"] = r.choice([None, 3])
    elif what in ("time_windows", "distribution_collection", "use_all_vehicles", "minimize_global_span"):
        ch[what] = False
    return ch


def apply_change(opts, ch):
    o = dict(opts)
    o.update(ch)
    return o


PLAN_KINDS = {
    "C01": gen.KINDS,
    "C02": gen.KINDS + ["sdc", "sdc", "sdctw", "mixed", "tw", "capdur", "dur"],
    "C03": ["fleet", "fleet", "fleet", "mixed", "span", "drop", "cvrp", "stops"],
    "C04": ["periodic"],
    "C05": gen.KINDS,
}


def generate(prop, seed, tier="quick"):
    r = rng_for("scenario", prop, seed)
    big = tier == "thorough"
    sc = {"prop": prop, "hash": r.choice([0, r.randrange(1, 1 << 30)]), "pyseed": r.randrange(1 << 30)}
    f = GEN[prop]
    f(r, sc, big)
    for d in sc.get("probs") or [sc]:
        # MIP pricing of more than a handful of customers takes minutes of real time
        if len(d["inst"]["cust"]) > 4 and d["kind"] != "span":
            for op in d.get("ops") or [d]:
                if op["args"].get("cspy") is False:
                    op["args"]["cspy"] = True
    return sc


def _single(r, sc, kinds, big, limit=0.5, dive=0.1, history=0.2, faults=False):
    kind = r.choice(kinds)
    args = gen.gen_args(r, kind, {}, dive=dive, mip=0.3 if sc["prop"] == "C02" else 0.15)
    inst, opts = instance(r, kind, args, big, cross=0.5 if sc["prop"] in ("C02", "C03") else 0.35)
    if sc["prop"] == "C03" and not opts.get("num_vehicles") and not opts.get("periodic"):
        m = len(inst["cust"])
        ref = Ref(inst, opts)
        opts["num_vehicles"] = [r.randint(1, m) for _ in range(ref.types)] if ref.mixed else r.randint(1, m)
    T = None
    if r.random() < limit:
        T = time_limit(r)
        args["time_limit"] = T
    if r.random() < 0.2:
        add_initial(r, inst, opts, args)
    if r.random() < 0.15:
        args["max_iter"] = r.randint(1, 4)
    if cw_ok(opts) and r.random() < 0.07:
        args = {"heuristic_only": True}
        if r.random() < 0.4:
            add_locked(r, inst, opts, args)
    elif lock_ok(opts) and r.random() < 0.1:
        add_locked(r, inst, opts, args)
    sc["kind"] = kind
    sc["inst"] = inst
    sc["opts"] = opts
    sc["prof"] = swarm(r, T)
    ops = [{"args": args, "set": {}}]
    if r.random() < history:
        for _ in range(r.choice([1, 1, 2])):
            a = gen.gen_args(r, kind, {}, dive=dive)
            if r.random() < limit:
                a["time_limit"] = T or time_limit(r)
            ops.append({"args": a, "set": variation(r, kind, inst, opts)})
    sc["ops"] = ops


def _gen_plan(r, sc, big):
    _single(r, sc, PLAN_KINDS[sc["prop"]], big)
    if sc["prop"] in ("C01", "C02") and r.random() < (0.04 if sc["prop"] == "C01" else 0.1):
        unservable(r, sc)


def triangle(ref):
    """No detour is shorter than the direct arc."""
    t = ref.time
    return all(
        (u, w) not in t or t[u, w] <= t[u, v] + t[v, w]
        for (u, v) in t for (x, w) in t if x == v
    )


def unservable(r, sc):
    """An input no plan can serve: it must be refused (or the customer dropped), never served wrongly."""
    inst, opts = sc["inst"], sc["opts"]
    ref = Ref(inst, opts)
    v = r.choice(ref.cust)
    at = ref.node[v]
    how = []
    if ref.cap and not ref.pd:
        how.append("demand")
    if ref.cap and ref.sdc:
        how.append("collect")
    if not triangle(ref):
        pass  # a detour might do
    else:
        if ref.pd:
            how.append("stops")
            if ref.duration:
                how.append("pair")
        if ref.duration:
            how.append("service")
        if ref.tw and ref.at("Source", "lower") + ref.time["Source", v] > 0:
            how.append("early")
        if ref.tw and ref.at("Sink", "upper"):
            how.append("late")
    if not how:
        return
    how = r.choice(how)
    if how == "demand":
        at["demand"] = max(ref.cap) + r.randint(0, 2)
    elif how == "collect":
        at["collect"] = max(ref.cap) + r.randint(1, 3)
    elif how == "service":
        at["service_time"] = int(ref.duration - ref.time["Source", v] - ref.time[v, "Sink"]) + r.choice([1, 1, 5])
    elif how == "early":
        at["upper"] = max(0, -int(-(ref.at("Source", "lower") + ref.time["Source", v]) // 1) - r.choice([1, 1, 4]))
        at["lower"] = min(at["lower"], at["upper"])
    elif how == "late":
        at["lower"] = int(ref.at("Sink", "upper") - ref.at(v, "service_time") - ref.time[v, "Sink"]) + r.choice([1, 1, 5])
        at["upper"] = max(at["upper"], at["lower"])
    elif how == "stops":
        opts["num_stops"] = 1
    elif how == "pair":
        p = r.choice([x for x in ref.cust if ref.node[x].get("request") is not None])
        d = ref.node[p]["request"]
        lo = max(ref.route_time(["Source", x, "Sink"]) for x in (p, d))
        hi = ref.route_time(["Source", p, d, "Sink"])
        opts["duration"] = max(1, r.randint(int(lo), max(int(lo), -int(-hi // 1) - 1)))
    for op in sc["ops"]:
        if how != "demand":
            # plans given by the caller are his responsibility
            op["args"].pop("initial_routes", None)
            op["args"].pop("preassignments", None)
        op["set"] = {}


def exec_plan(w, sc):
    prop = sc["prop"]
    out = []
    vrpy = seams.boot()
    prob = observe.make(vrpy, sc["inst"], sc["opts"])
    opts = sc["opts"]
    for i, op in enumerate(sc["ops"]):
        for k, v in op["set"].items():
            setattr(prob, k, copy.deepcopy(v))
        opts = apply_change(opts, op["set"])
        o = solve(w, sc, prob, op["args"], "op%d" % i, sc["prof"])
        if isinstance(o.err, kernel.Budget):
            raise o.err
        if not o.ok:
            continue
        out += plan_violations(prop, sc["inst"], opts, op["args"], o, sc.get("strict"))
    return out


def plan_violations(prop, inst, opts, args, o, strict=False):
    """`strict` lifts the exclusions that stand for recorded findings (findings/)."""
    ref = Ref(inst, opts)
    if o.obs_err is not None and prop in ("C05", None):
        return [("unreadable", "reading the solution of a finished solve raised " + describe(o.obs_err))]
    if o.obs is None:
        return []
    locked = [p for p in args.get("preassignments") or [] if p[0] == "Source" and p[-1] == "Sink"]
    res = check_plan(ref, o.obs, locked, fleet="strict" if strict else not args.get("heuristic_only"), figures=o.obs_err is None)
    if ref.periodic and prop in ("C04", None) and not args.get("heuristic_only"):
        res += _schedule_quality(ref, o)
    return [("%s" % c, d) for p, c, d in res if prop is None or p == prop]


def _schedule_quality(ref, o):
    last = getattr(o.ctx, "last_cbc", None)
    if last is None or last[2] or o.ctx.stats["hard_fault"]:
        return []  # the scheduling problem itself was cut short
    best = schedule_exists(ref, o.obs)
    if best is None:
        if o.obs["schedule"]:
            return []  # reported by check_schedule
        return []
    if not o.obs["schedule"] and o.obs["routes"]:
        return [("C04", "no-schedule", "a schedule exists (spread %d) but none was returned" % best)]
    sp = schedule_spread(ref, o.obs)
    if sp is not None and sp > best:
        return [("C04", "unbalanced", "routes per day differ by %d, %d is possible" % (sp, best))]
    return []


# ------------------------------------------------------------------ C06 time --
def _gen_time(r, sc, big):
    mode = r.choice(["bound", "bound", "bound", "bound", "bound", "bound", "unhit", "unhit", "clock", "clock", "rounds", "again"])
    kinds = [k for k in gen.KINDS if k != "span"] if mode != "bound" else gen.KINDS
    kind = r.choice(kinds)
    args = gen.gen_args(r, kind, {}, dive=0.15 if mode != "rounds" else 0)
    inst, opts = instance(r, kind, args, big or mode == "rounds")
    sc.update(kind=kind, inst=inst, opts=opts, mode=mode)
    if r.random() < 0.2:
        add_initial(r, inst, opts, args)
    prof = swarm(r)
    if mode == "bound":
        T = time_limit(r)
        args["time_limit"] = T
        prof["T"] = T
        prof["slow"] = r.choice([0.1, 0.3, 0.6])
        # when a limit cuts the final selection short a plan is still due if
        # the solver has one
        prof["timeout_outcomes"] = r.choice([None, ["incumbent", "partial", "zero", "optimal"]])
    else:
        prof["T"] = 2.0
        prof["slow"] = r.choice([0, 0.2])
        if mode == "rounds":
            args["max_iter"] = r.choice([1, 1, 2, 2, 3, 5])
        elif mode == "again":
            # a second solve, often a short one
            args2 = gen.gen_args(r, kind, {}, dive=0.1)
            if cw_ok(opts) and r.random() < 0.5:
                args2 = {"heuristic_only": True}
            elif lock_ok(opts) and r.random() < 0.5:
                add_locked(r, inst, opts, args2, everything=0.5)
            sc["args2"] = args2
        elif mode == "unhit" and r.random() < 0.3:
            sc["unhit"] = "max_iter"
        if mode == "clock":
            prof["clock_step"] = 0.5
            if r.random() < 0.5:
                args["time_limit"] = 4000.0
    sc["args"] = args
    sc["prof"] = prof


def exec_time(w, sc):
    out = []
    mode = sc["mode"]
    vrpy = seams.boot()
    prob = observe.make(vrpy, sc["inst"], sc["opts"])
    args = sc["args"]
    prof = dict(sc["prof"])
    if mode == "clock":
        prof["clock_step"] = 0
        w.no_clock = True
    o = solve(w, sc, prob, args, "op0", prof)
    w.no_clock = False
    if isinstance(o.err, kernel.Budget):
        raise o.err
    T = args.get("time_limit")
    if o.ok and not close_abs(o.comp, o.elapsed):
        out.append(("comp-time", "comp_time %r, elapsed %r" % (o.comp, o.elapsed)))
    if mode == "again":
        o = solve(w, sc, prob, sc["args2"], "op1", prof)
        if isinstance(o.err, kernel.Budget):
            raise o.err
        if o.ok and not close_abs(o.comp, o.elapsed):
            out.append(("comp-time", "second solve: comp_time %r, elapsed %r" % (o.comp, o.elapsed)))
        return out
    if mode == "bound":
        out += _time_bound(o, T)
        if not o.ok and not o.ctx.stats["hard_fault"]:
            last = getattr(o.ctx, "last_cbc", None)
            undecided = last is not None and last[2]  # final selection cut short
            tight = sc["opts"].get("num_vehicles") or sc["opts"].get("use_all_vehicles")
            if not undecided and not tight:
                out.append(("no-plan", "time limit %s: no plan but %s" % (T, describe(o.err))))
        return out
    if mode == "rounds":
        # every round solves the relaxed master problem once
        k = args["max_iter"]
        if len(o.ctx.lp) > k + 2:
            out.append(("rounds", "max_iter=%d but %d relaxations were solved" % (k, len(o.ctx.lp))))
        return out
    base = o
    args2 = dict(args)
    if mode == "unhit" and sc.get("unhit"):
        args2["max_iter"] = MAX_CALLS
        prof2 = prof
    elif mode == "unhit":
        args2["time_limit"] = round(base.elapsed * 2 + 20, 3)
        prof2 = prof
    else:
        prof2 = dict(sc["prof"])
    prob2 = observe.make(vrpy, sc["inst"], sc["opts"])
    o2 = solve(w, sc, prob2, args2, "op0", prof2)
    if isinstance(o2.err, kernel.Budget):
        raise o2.err
    if o.ok != o2.ok:
        out.append((mode + "-outcome", "without: %s, with: %s" % (_res(o), _res(o2))))
    elif o.ok and o.obs and o2.obs:
        a, b = observe.canon(o.obs), observe.canon(o2.obs)
        if a != b:
            what = "a limit that was not reached" if mode == "unhit" else "a step of the system clock"
            out.append((mode + "-plan", "%s changed the plan: %s -> %s" % (what, a[:300], b[:300])))
    if o2.ok and not close_abs(o2.comp, o2.elapsed):
        out.append(("comp-time", "comp_time %r, elapsed %r" % (o2.comp, o2.elapsed)))
    return out


def _res(o):
    return "plan" if o.ok else describe(o.err)


def close_abs(a, b, tol=0.05):
    return isinstance(a, (int, float)) and abs(a - b) <= tol


def _time_bound(o, T):
    out = []
    lim = T + 5.0 + o.ctx.injected_delay + 0.25
    if o.elapsed > lim:
        worst = sorted(
            (c for c in o.ctx.calls if c[3] > T), key=lambda c: c[3] - c[2], reverse=True
        )[:3]
        out.append(
            ("overrun", "time_limit=%s but %s after %.2f s; calls past the limit (kind, granted, start, end): %s"
             % (T, _res(o), o.elapsed, [(c[0], c[1], round(c[2], 2), round(c[3], 2)) for c in worst]))
        )
    if o.ok and o.comp is not None and not close_abs(o.comp, o.elapsed):
        out.append(("comp-time", "comp_time %r, elapsed %r" % (o.comp, o.elapsed)))
    return out


# -------------------------------------------------------------- C07 quality --
def _gen_quality(r, sc, big):
    mode = r.choice(["start", "start", "cw", "iter"])
    kinds = {
        "start": [k for k in gen.KINDS if k not in ("mixed", "periodic")],
        "cw": ["cvrp", "cvrp", "stops", "dur", "capdur", "open", "drop"],
        "iter": [k for k in gen.KINDS if k not in ("span",)],
    }[mode]
    kind = r.choice(kinds)
    args = gen.gen_args(r, kind, {}, dive=0.1 if mode != "iter" else 0)
    no = {"start": ("mixed", "per"), "cw": ("tw", "sdc", "mixed", "per"), "iter": ()}[mode]
    inst, opts = instance(r, kind, args, big, no=no)
    opts.pop("use_all_vehicles", None)
    if mode == "cw":
        opts.pop("num_vehicles", None)
    prof = swarm(r)
    if mode == "start" and kind == "span" and r.random() < 0.5:
        # a pool of more routes than a search of a small problem would ever hold
        inst, opts = gen.gen_instance(r, kind, r.randint(6, 9), no=("mixed", "per"))
        opts.pop("num_vehicles", None)
        opts.pop("use_all_vehicles", None)
        ref = Ref(inst, opts)
        parts = [p for p in (gen.random_partition(r, ref) for _ in range(40)) if p]
        if parts:
            parts.sort(key=lambda p: -max(ref.route_cost(x, 0) for x in p))
            sc["start"] = parts[-1]
            args["initial_routes"] = [x for p in parts for x in p]
        # pricing that many customers is left out: the limit is reached in the first relaxation
        args["time_limit"] = 0.1
        prof.update(T=10.0, slow=1.0)
        sc.update(kind=kind, inst=inst, opts=opts, mode=mode, args=args, prof=prof)
        return
    if mode == "start":
        sc["start"] = add_initial(r, inst, opts, args)
    if mode != "iter" and r.random() < 0.5:
        T = time_limit(r)
        args["time_limit"] = T
        prof["T"] = T
    if mode == "iter":
        k = r.randint(1, 5)
        sc["iters"] = [k, k + r.randint(1, 4)]
        prof["slow"] = 0
    elif r.random() < 0.4:
        args["max_iter"] = r.randint(1, 3)
    sc.update(kind=kind, inst=inst, opts=opts, mode=mode, args=args, prof=prof)


def _completed(o, ref):
    """Was the final selection (the last solver call, but for a schedule) solved to the end?"""
    last = getattr(o.ctx, "last_cbc", None)
    if last is not None and last[2]:
        return False
    return not ref.periodic or not (o.ctx.stats["mip_incumbent_only"] or o.ctx.stats["mip_no_incumbent"])


def exec_quality(w, sc):
    out = []
    ref = Ref(sc["inst"], sc["opts"])
    vrpy = seams.boot()
    prob = observe.make(vrpy, sc["inst"], sc["opts"])
    if sc["mode"] == "iter":
        vals = []
        for m in sc["iters"]:
            p = observe.make(vrpy, sc["inst"], sc["opts"])
            a = dict(sc["args"], max_iter=m)
            o = solve(w, sc, p, a, "op0", sc["prof"])
            if isinstance(o.err, kernel.Budget):
                raise o.err
            vals.append(o)
        a, b = vals
        if a.ok and b.ok and a.obs and b.obs and _completed(a, ref) and _completed(b, ref):
            if worse(b.obs["value"], a.obs["value"]):
                out.append(
                    ("iteration", "max_iter=%d gave %s, max_iter=%d under the same schedule %s"
                     % (sc["iters"][0], a.obs["value"], sc["iters"][1], b.obs["value"]))
                )
        elif a.ok and not b.ok and not isinstance(b.err, kernel.Interrupt):
            out.append(("iteration-lost", "max_iter=%d gave a plan, max_iter=%d %s" % (sc["iters"][0], sc["iters"][1], describe(b.err))))
        return out
    o = solve(w, sc, prob, sc["args"], "op0", sc["prof"])
    if isinstance(o.err, kernel.Budget):
        raise o.err
    if not o.ok or o.obs is None or not _completed(o, ref):
        return out
    val = o.obs["value"]
    init = sc.get("start") or sc["args"].get("initial_routes")
    if sc["mode"] == "start":
        if init:
            cs = [ref.route_cost(x, 0) for x in init]
            start = max(cs) if ref.span else sum(cs)
            if worse(val, start):
                out.append(("start", "initial_routes cost %s, returned plan costs %s" % (start, val)))
        elif not ref.nveh and not ref.span and not ref.pd and not ref.periodic:
            rt = sum(min(ref.route_cost(["Source", v, "Sink"], k) for k in range(ref.types)
                         if not ref.defects(["Source", v, "Sink"], k)) for v in ref.cust)
            if worse(val, rt):
                out.append(("roundtrips", "serving every customer alone costs %s, returned plan costs %s" % (rt, val)))
    if sc["mode"] == "cw":
        p2 = observe.make(vrpy, sc["inst"], sc["opts"])
        h = solve(w, sc, p2, {"heuristic_only": True}, "cw", {})
        if h.ok and h.obs and worse(val, h.obs["value"]):
            out.append(("heuristic", "heuristic_only gives %s, the full search %s" % (h.obs["value"], val)))
    if ref.drop and worse(val, ref.drop * len(ref.cust)) and not ref.span:
        out.append(("drop-all", "dropping everyone costs %s, returned plan costs %s" % (ref.drop * len(ref.cust), val)))
    return out


def worse(a, b):
    return a > b + 1e-3 + 1e-4 * abs(b)


# ---------------------------------------------------------- C08 convergence --
CONV_KINDS = [k for k in gen.KINDS if k != "span"]


def _gen_conv(r, sc, big):
    kind = r.choice(CONV_KINDS)
    args = gen.gen_args(r, kind, {}, dive=0, mip=0.25)
    inst, opts = instance(r, kind, args, False, large=False, metric_time=True)
    if args["cspy"] and opts.get("time_windows"):
        # whether waiting counts as duration is not specified; labelling counts it, the MIP does not
        opts.pop("duration", None)
    if r.random() < 0.15:
        add_initial(r, inst, opts, args)
    prof = swarm(r)
    prof["slow"] = r.choice([0, 0.2])
    prof["noise"] = 0
    if r.random() < 0.2:
        args["time_limit"] = 1e6
    sc.update(kind=kind, inst=inst, opts=opts, args=args, prof=prof)


def exec_conv(w, sc):
    ref = Ref(sc["inst"], sc["opts"])
    vrpy = seams.boot()
    prob = observe.make(vrpy, sc["inst"], sc["opts"])
    o = solve(w, sc, prob, sc["args"], "op0", sc["prof"])
    if isinstance(o.err, kernel.Budget):
        raise o.err
    seen = list(o.ctx.lp)
    if sc["args"].get("cspy"):
        seen += o.ctx.mip  # all of them are master problems: none is below the relaxation's optimum
    seen = [x for x in seen if x is not None]
    if not seen or o.ctx.stats["solver_timeout"]:
        return []
    if not o.ok and not str(o.err).startswith("problem "):
        return []
    got = min(seen)
    with outside(w):
        best = ref.full_lp()
    if best is None:
        return []
    tol = 2e-3 * sum(ref.need(v) for v in ref.cust) + 1e-4 * max(1.0, abs(best))
    if got > best + tol:
        return [
            ("gap", "column generation stopped at %.6f, the relaxation over all feasible routes is %.6f" % (got, best))
        ]
    return []


class outside:
    """Leave the simulated world for a reference computation."""

    def __init__(self, w):
        self.w = w

    def __enter__(self):
        kernel.current = None

    def __exit__(self, *a):
        kernel.current = self.w


# --------------------------------------------------------------- C09 faults --
def _gen_faults(r, sc, big):
    kind = r.choice(gen.KINDS)
    args = gen.gen_args(r, kind, {}, dive=0.15)
    inst, opts = instance(r, kind, args, big)
    T = None
    if r.random() < 0.6:
        T = time_limit(r)
        args["time_limit"] = T
    change = variation(r, kind, inst, opts) if r.random() < 0.35 else None
    now = apply_change(opts, change or {})
    if r.random() < 0.2:
        add_initial(r, inst, now, args)
    elif lock_ok(now) and r.random() < 0.15:
        add_locked(r, inst, now, args)
    prof = swarm(r, T)
    prof["slow"] = r.choice([0, 0.2, 0.6])
    f = r.choice(["cbc", "csp", "disk", "cut", "late"])
    rate = r.choice([0.02, 0.1, 0.4])
    if f == "cbc":
        prof["cbc_fault"] = rate
        if r.random() < 0.7:
            prof["cbc_kinds"] = r.sample(["spawn", "exit1", "kill9", "nosol", "interrupt"], r.randint(1, 3))
    elif f == "csp":
        prof["csp_fault"] = rate
    elif f == "disk":
        prof["enospc"] = rate
    elif f == "cut":
        # the time limit strikes in the final selection
        T = T or 2
        args["time_limit"] = T
        prof["T"] = T
        prof["slow"] = 0.8
        prof["timeout_outcomes"] = r.choice([["none", "partial", "zero"], ["incumbent", "partial"], ["none", "optimal"]])
    ops = [{"args": args, "set": {}}]
    if change is not None:
        # a healthy solve first, so that a stale plan could be passed off as the answer
        ops.insert(0, {"args": gen.gen_args(r, kind, {}), "set": {}, "clean": True})
        ops[1]["set"] = change
    sc.update(kind=kind, inst=inst, opts=opts, ops=ops, prof=prof)


def exec_faults(w, sc):
    out = []
    vrpy = seams.boot()
    prob = observe.make(vrpy, sc["inst"], sc["opts"])
    opts = sc["opts"]
    for i, op in enumerate(sc["ops"]):
        for k, v in op["set"].items():
            setattr(prob, k, copy.deepcopy(v))
        opts = apply_change(opts, op["set"])
        o = solve(w, sc, prob, op["args"], "op%d" % i, {} if op.get("clean") else sc["prof"])
        if isinstance(o.err, kernel.Budget):
            raise o.err
        if not o.ok:
            continue
        vs = plan_violations(None, sc["inst"], opts, op["args"], o)
        faulty = o.ctx.stats["hard_fault"] or o.ctx.stats["solver_timeout"]
        for c, d in vs:
            out.append((("fault-" if faulty else "plain-") + c, d + " [faults in this solve: %s]" % _faults(o)))
    return out


def _faults(o):
    return {k: v for k, v in sorted(o.ctx.stats.items()) if k not in ("cbc_int", "cbc_lp", "csp")}


# ------------------------------------------------------------- C10 histories --
def _gen_hist(r, sc, big):
    kind = r.choice(gen.KINDS)
    args0 = gen.gen_args(r, kind, {}, dive=0.15)
    inst, opts = instance(r, kind, args0, big)
    ops = []
    nops = r.choice([2, 2, 3, 4])
    sc["shared"] = r.random() < 0.3  # a second problem on the same graph object
    for i in range(nops):
        a = gen.gen_args(r, kind, {}, dive=0.15, cspy=args0["cspy"] if r.random() < 0.7 else None)
        if kind in ("pd", "pdtw", "span"):
            a["cspy"] = False
        x = r.random()
        if x < 0.15:
            add_initial(r, inst, opts, a)
        elif x < 0.3 and lock_ok(opts):
            add_locked(r, inst, opts, a)
        elif x < 0.36 and cw_ok(opts):
            a = {"heuristic_only": True}
            if lock_ok(opts) and r.random() < 0.3:
                add_locked(r, inst, opts, a)
        if r.random() < 0.25 and "heuristic_only" not in a:
            a["time_limit"] = time_limit(r)
        if r.random() < 0.15:
            a["max_iter"] = r.randint(1, 3)
        op = {"args": a, "set": variation(r, kind, inst, opts) if i and r.random() < 0.5 else {}}
        if i and r.random() < 0.2:
            op["edit"] = graph_edit(r, inst)
        if i < nops - 1:
            y = r.random()
            if y < 0.25:
                op["intr"] = True
            elif y < 0.45:
                op["fault"] = r.choice([0.1, 0.5])
            elif y < 0.52:
                op["bad"] = r.choice(["strategy", "initial"])
        if sc["shared"]:
            op["on"] = r.choice([0, 1])
        ops.append(op)
    prof = swarm(r, 2.0)
    sc.update(kind=kind, inst=inst, opts=opts, ops=ops, prof=prof)


def graph_edit(r, inst):
    """The caller changes its data between two solves."""
    if r.random() < 0.6:
        u, v, c, t = r.choice(inst["edge"])
        if t is not None and r.random() < 0.4:
            return ["time", u, v, t + r.choice([0, 1, 4])]
        return ["cost", u, v, [x + r.choice([0, 1, 30]) for x in c] if isinstance(c, list) else c + r.choice([1, 30])]
    lab = r.choice(inst["cust"])
    at = dict(inst["node"])[lab]
    k = r.choice([x for x in ("demand", "service_time", "frequency", "collect", "upper") if x in at] or ["demand"])
    if k == "demand" and (at.get("request") is not None or at.get(k, 0) < 0):
        return None
    return [k, lab, None, max(1, at.get(k, 1) + r.choice([-1, 1]))]


def apply_edit(inst, G, ed):
    inst = copy.deepcopy(inst)
    what, u, v, x = ed
    if what in ("cost", "time"):
        for e in inst["edge"]:
            if e[0] == u and e[1] == v:
                e[2 if what == "cost" else 3] = copy.deepcopy(x)
        G.edges[u, v][what] = copy.deepcopy(x)
    else:
        for lab, at in inst["node"]:
            if lab == u:
                at[what] = x
        G.nodes[u][what] = x
    return inst


def snapshot(G):
    return (
        dict(G.graph),
        [(n, copy.deepcopy(d)) for n, d in G.nodes(data=True)],
        [(u, v, copy.deepcopy(d)) for u, v, d in G.edges(data=True)],
    )


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            if isinstance(x, list):
                sx = [i for i in x if i not in y][:2]
                sy = [i for i in y if i not in x][:2]
                return "%s -> %s" % (sx, sy) if sx or sy else "order changed"
            return "%s -> %s" % (x, y)
    return "?"


def exec_hist(w, sc):
    out = []
    vrpy = seams.boot()
    inst = sc["inst"]
    G = observe.build_graph(inst)
    probs = [observe.make(vrpy, inst, sc["opts"], G)]
    if sc.get("shared"):
        probs.append(observe.make(vrpy, inst, sc["opts"], G))
    snap = snapshot(G)
    opts = [sc["opts"]] * len(probs)
    history = []
    for i, op in enumerate(sc["ops"]):
        j = op.get("on", 0) if len(probs) > 1 else 0
        for k, v in op["set"].items():
            setattr(probs[j], k, copy.deepcopy(v))
        opts[j] = apply_change(opts[j], op["set"])
        if op.get("edit"):
            inst = apply_edit(inst, G, op["edit"])
            snap = snapshot(G)
        prof = dict(sc["prof"])
        if op["args"].get("time_limit"):
            prof["T"] = op["args"]["time_limit"]
        if op.get("fault"):
            prof["cbc_fault"] = op["fault"]
            prof["csp_fault"] = op["fault"] / 2
            prof["enospc"] = op["fault"] / 2
        args = dict(op["args"])
        if op.get("bad") == "strategy":
            args["pricing_strategy"] = "NoSuchStrategy"
        elif op.get("bad") == "initial":
            args["initial_routes"] = [["Source", "nobody", "Sink"]]
        scope = "op%d" % i
        o = solve(w, sc, probs[j], args, scope, prof, trace_calls=bool(op.get("intr")))
        if isinstance(o.err, kernel.Budget):
            raise o.err
        history.append("%s:%s" % (scope, "ok" if o.ok else type(o.err).__name__))
        s2 = snapshot(G)
        if s2 != snap:
            out.append(("graph", "after %s the caller's graph changed: %s" % (history, diff(snap, s2)[:300])))
            return out
        if o.mutated:
            out.append(("arguments", o.mutated[:300]))
        # The same operation on a problem that was never solved before.
        G2 = observe.build_graph(inst)
        p2 = observe.make(vrpy, inst, opts[j], G2)
        f = solve(w, sc, p2, args, scope, prof, trace_calls=bool(op.get("intr")))
        if isinstance(f.err, kernel.Budget):
            raise f.err
        if o.ok != f.ok or (not o.ok and type(o.err) is not type(f.err)):
            if op.get("intr"):
                continue  # the interrupt falls elsewhere when the call counts differ
            out.append(("outcome", "history %s: %s; on a new problem: %s" % (history, _res(o), _res(f))))
            return out
        if o.ok and (o.obs_err is None) != (f.obs_err is None):
            out.append(("readable", "history %s: %s; new: %s" % (history, o.obs_err, f.obs_err)))
            return out
        if o.ok and o.obs and f.obs:
            a, b = observe.canon(o.obs), observe.canon(f.obs)
            if a != b:
                out.append(("plan", "history %s, last op set=%s args=%s: plan %s; on a new problem: %s"
                            % (history, op["set"], args, a[:400], b[:400])))
                return out
    return out


# ------------------------------------------------------------- C11 isolation --
def _gen_iso(r, sc, big):
    k = r.choice([2, 2, 3])
    probs = []
    for i in range(k):
        kind = r.choice(gen.KINDS)
        if probs and r.random() < 0.3:
            kind = probs[0]["kind"]
        if probs and r.random() < 0.65:
            # the same customers again, with other options or other data
            q = r.choice(probs)
            kind = q["kind"]
            args = gen.gen_args(r, kind, {}, dive=0.25)
            inst, opts = copy.deepcopy(q["inst"]), dict(q["opts"])
            how = r.choice(["same", "data", "options", "options", "options"])
            if how == "data":
                for _ in range(r.choice([1, 1, 3, 20])):
                    ed = graph_edit(r, inst)
                    if ed:
                        inst = apply_edit(inst, observe.build_graph(inst), ed)
            elif how == "options":
                for _ in range(r.choice([1, 2, 3])):
                    opts = apply_change(opts, variation(r, kind, inst, opts))
        else:
            args = gen.gen_args(r, kind, {}, dive=0.25)
            inst, opts = instance(r, kind, args, False)
        if r.random() < 0.25:
            add_initial(r, inst, opts, args)
        elif lock_ok(opts) and r.random() < 0.1:
            add_locked(r, inst, opts, args)
        elif cw_ok(opts) and r.random() < 0.1:
            args = {"heuristic_only": True}
        probs.append({"kind": kind, "inst": inst, "opts": opts, "args": args})
    sc["probs"] = probs
    sc["mode"] = r.choice(["interleaved", "interleaved", "sequential"])
    sc["switch"] = r.choice([0.05, 0.3, 0.8])
    prof = swarm(r)
    prof["slow"] = 0
    prof["clock_step"] = 0
    sc["prof"] = prof


def exec_iso(w, sc):
    out = []
    alone = []
    w.per_task_time = True
    for i, p in enumerate(sc["probs"]):
        vrpy = seams.boot()
        prob = observe.make(vrpy, p["inst"], p["opts"])
        o = solve(w, sc, prob, p["args"], "t%d" % i, sc["prof"])
        if isinstance(o.err, kernel.Budget):
            raise o.err
        alone.append(o)
    vrpy = seams.boot()
    res = [None] * len(sc["probs"])
    probs = [observe.make(vrpy, p["inst"], p["opts"]) for p in sc["probs"]]
    if sc["mode"] == "sequential":
        for i, p in enumerate(sc["probs"]):
            res[i] = solve(w, sc, probs[i], p["args"], "t%d" % i, sc["prof"])
    else:
        sch = kernel.Scheduler(w)
        sch.ctx.profile["switch"] = sc["switch"]
        for i, p in enumerate(sc["probs"]):
            def body(i=i, p=p):
                res[i] = solve(w, sc, probs[i], p["args"], "t%d" % i, sc["prof"])
            sch.spawn(Ctx("t%d" % i), body)
        w.sched = sch
        try:
            sch.run()
        finally:
            w.sched = None
        for t in sch.tasks:
            if t.error is not None:
                raise t.error
    for i, (a, b) in enumerate(zip(alone, res)):
        if isinstance(b.err, kernel.Budget):
            raise b.err
        if a.ok != b.ok or (not a.ok and type(a.err) is not type(b.err)):
            out.append(("outcome", "problem %d alone: %s; together (%s): %s" % (i, _res(a), sc["mode"], _res(b))))
        elif a.ok and a.obs and b.obs:
            x, y = observe.canon(a.obs), observe.canon(b.obs)
            if x != y:
                out.append(("plan", "problem %d alone: %s; together (%s): %s" % (i, x[:400], sc["mode"], y[:400])))
    return out


# ----------------------------------------------------------------- C12 locks --
def _gen_lock(r, sc, big):
    kinds = ["cvrp", "stops", "dur", "capdur", "tw", "twcap", "sdc", "drop", "mixed", "mixed", "open", "sdctw", "pd", "pdtw", "span"]
    while True:
        kind = r.choice(kinds)
        args = gen.gen_args(r, kind, {}, dive=0.15)
        inst, opts = instance(r, kind, args, big, no=("per",))
        opts.pop("num_vehicles", None)
        opts.pop("use_all_vehicles", None)
        if cw_ok(opts) and r.random() < 0.1:
            args = {"heuristic_only": True}
        elif r.random() < 0.2:
            add_initial(r, inst, opts, args)
        if add_locked(r, inst, opts, args, 0.15):
            break
    T = None
    if r.random() < 0.4:
        T = time_limit(r)
        args["time_limit"] = T
    if r.random() < 0.2:
        args["max_iter"] = r.randint(1, 3)
    sc.update(kind=kind, inst=inst, opts=opts, prof=swarm(r, T))
    ops = [{"args": args, "set": {}}]
    if r.random() < 0.4:
        a2 = gen.gen_args(r, kind, {}, dive=0.1)
        if r.random() < 0.5:
            add_locked(r, inst, opts, a2, 0.1)
        ops.insert(r.choice([0, 1]), {"args": a2, "set": {}})
    sc["ops"] = ops


def exec_lock(w, sc):
    out = []
    vrpy = seams.boot()
    prob = observe.make(vrpy, sc["inst"], sc["opts"])
    ref = Ref(sc["inst"], sc["opts"])
    for i, op in enumerate(sc["ops"]):
        o = solve(w, sc, prob, op["args"], "op%d" % i, sc["prof"])
        if isinstance(o.err, kernel.Budget):
            raise o.err
        if not o.ok:
            if not (o.ctx.stats["hard_fault"] or o.ctx.stats["solver_timeout"]):
                out.append(("no-plan", "locking %s: %s" % (op["args"].get("preassignments"), describe(o.err))))
            continue
        if o.obs is None or o.obs_err is not None:
            out.append(("unreadable", "reading the plan around the locked routes raised %s" % describe(o.obs_err)))
            continue
        for rid in o.obs["routes"]:
            if rid not in o.obs["types"]:
                out.append(("no-type", "route %s has no vehicle type" % o.obs["routes"][rid]))
        got = [list(x) for x in o.obs["routes"].values()]
        given = op["args"].get("preassignments") or []
        locked = [l for l in given if l[0] == "Source" and l[-1] == "Sink"]
        for l in given:
            if l not in locked and not any(l == x[i:i + len(l)] for x in got for i in range(len(x))):
                out.append(("partial", "preassigned path %s is not in the plan %s" % (l, got)))
        for l in locked:
            if got.count(list(l)) != 1:
                out.append(("not-verbatim", "locked route %s appears %d times in %s" % (l, got.count(list(l)), got)))
        lock_nodes = {v for l in locked for v in l[1:-1]}
        others = [x for x in got if x not in [list(l) for l in locked]]
        for x in others:
            hit = [v for v in x[1:-1] if v in lock_nodes]
            if hit:
                out.append(("revisited", "customers %s of locked routes are also in %s" % (hit, x)))
        if not out:
            for p, c, d in check_plan(ref, o.obs, locked):
                if p in ("C01", "C02"):
                    out.append(("rest-" + c, d))
    return out


# -------------------------------------------------------------- C13 progress --
def _gen_prog(r, sc, big):
    kind = r.choice(gen.KINDS)
    args = gen.gen_args(r, kind, {}, dive=0.15)
    inst, opts = instance(r, kind, args, big)
    n = len(inst["cust"])
    opts.pop("use_all_vehicles", None)
    if opts.get("num_vehicles") and not opts.get("periodic"):
        # as many vehicles as customers, and of each type
        opts["num_vehicles"] = [n + r.randint(0, 2) for _ in range(Ref(inst, opts).types)]
    prof = swarm(r)
    prof["clock_step"] = r.choice([0, 0.3])
    prof["zero"] = r.choice([0, 1.0])
    prof["noise"] = 0
    if r.random() < 0.3:
        args["time_limit"] = 1e5  # never reached
    if r.random() < 0.2:
        add_initial(r, inst, opts, args)
    elif lock_ok(opts) and r.random() < 0.1:
        add_locked(r, inst, opts, args)
    elif cw_ok(opts) and r.random() < 0.08:
        args = {"heuristic_only": True}
    if r.random() < 0.1 and "heuristic_only" not in args:
        args["max_iter"] = r.randint(1, 3)
    ops = [{"args": args, "set": {}}]
    if r.random() < 0.3:
        ops.append({"args": gen.gen_args(r, kind, {}, dive=0.1), "set": {}})
    sc.update(kind=kind, inst=inst, opts=opts, prof=prof, ops=ops)
    # faults that stop: the last solve of the history is healthy again
    if r.random() < 0.3:
        sc["ops"].insert(0, {"args": gen.gen_args(r, kind, {}, dive=0.1), "set": {}, "faulty": True})


def exec_prog(w, sc):
    out = []
    vrpy = seams.boot()
    prob = observe.make(vrpy, sc["inst"], sc["opts"])
    for i, op in enumerate(sc["ops"]):
        prof = dict(sc["prof"])
        if op.get("faulty"):
            prof.update(cbc_fault=0.2, csp_fault=0.1, enospc=0.05)
        o = solve(w, sc, prob, op["args"], "op%d" % i, prof)
        if isinstance(o.err, kernel.Skip):
            raise o.err
        if isinstance(o.err, kernel.Budget):
            out.append(("endless", "solve did not finish: %s" % o.err))
            return out
        if not o.ok and not op.get("faulty") and not o.ctx.stats["solver_timeout"]:
            out.append(("crash", "solve of a servable problem raised %s" % describe(o.err)))
            return out
    return out


GEN = {
    "C01": _gen_plan, "C02": _gen_plan, "C03": _gen_plan, "C04": _gen_plan, "C05": _gen_plan,
    "C06": _gen_time, "C07": _gen_quality, "C08": _gen_conv, "C09": _gen_faults,
    "C10": _gen_hist, "C11": _gen_iso, "C12": _gen_lock, "C13": _gen_prog,
}
EXEC = {
    "C01": exec_plan, "C02": exec_plan, "C03": exec_plan, "C04": exec_plan, "C05": exec_plan,
    "C06": exec_time, "C07": exec_quality, "C08": exec_conv, "C09": exec_faults,
    "C10": exec_hist, "C11": exec_iso, "C12": exec_lock, "C13": exec_prog,
}


class Result:
    pass


def run(sc, seed, trace=None, log=False):
    """Execute one scenario; returns a Result (violations, digest, trace, ...)."""
    seams.install()
    w = kernel.World(seed, trace)
    if log:
        w.keep_log = []
    res = Result()
    res.world = w
    res.budget = None
    try:
        with w.active():
            res.violations = EXEC[sc["prop"]](w, sc)
    except kernel.Budget as e:
        res.violations = [("endless", str(e))] if sc["prop"] == "C13" and not isinstance(e, kernel.Skip) else []
        res.budget = str(e)
    res.digest = w.digest()
    res.trace = w.trace
    return res
