"""Shrinks a failing run: fewer injected decisions, operations, options, customers."""
import copy

from . import exp

DROP_ARGS = ("elementary", "greedy", "dive", "run_exact", "max_iter", "time_limit", "initial_routes", "pricing_strategy")


def minimise(rep, clock, seconds, beat):
    end = clock() + seconds
    cls = rep["class"]
    best = copy.deepcopy(rep)
    tries = [0]

    def attempt(sc, trace):
        """The run's result when it still shows the same violation, else None."""
        if clock() > end:
            return None
        tries[0] += 1
        beat(tries=tries[0])
        try:
            r = exp.run(sc, rep["seed"], trace)
        except Exception:  # noqa
            return None
        for c, d in r.violations:
            if c == cls:
                return r, d
        return None

    def accept(sc, trace):
        got = attempt(sc, trace)
        if got is None:
            return False
        r, d = got
        best.update(scenario=sc, trace=r.trace, digest=r.digest, detail=d)
        return True

    progress = True
    while progress and clock() < end:
        progress = False
        # 1. decisions back to their defaults (all, halves, ..., single ones)
        if best["trace"] and accept(best["scenario"], {}):
            progress = True
        size = max(1, len(best["trace"]) // 2)
        while best["trace"] and size >= 1 and clock() < end:
            keys = list(best["trace"])
            hit = False
            for k in range(0, len(keys), size):
                drop = set(keys[k:k + size]) & set(best["trace"])
                if drop and accept(best["scenario"], {x: v for x, v in best["trace"].items() if x not in drop}):
                    hit = progress = True
                if clock() > end:
                    break
            size = size // 2 if not hit or size > 1 else 0
        # 2. the scenario
        for cand in candidates(best["scenario"]):
            if clock() > end:
                break
            if accept(cand, best["trace"]):
                progress = True
                break
    best["minimise_runs"] = tries[0]
    best["decisions"] = len(best["trace"])
    return best


def candidates(sc):
    c = lambda: copy.deepcopy(sc)
    if sc.get("hash"):
        s = c(); s["hash"] = 0; yield s
    if sc.get("ops"):
        for i in range(len(sc["ops"]) - 1):
            s = c(); del s["ops"][i]; yield s
        if len(sc["ops"]) > 1:
            s = c(); del s["ops"][-1]; yield s
        for i, op in enumerate(sc["ops"]):
            for k in op["set"]:
                s = c(); del s["ops"][i]["set"][k]; yield s
            for k in DROP_ARGS:
                if k in op["args"]:
                    s = c(); del s["ops"][i]["args"][k]; yield s
    elif sc.get("args"):
        for k in DROP_ARGS:
            if k in sc["args"]:
                if k == "time_limit" and sc["prop"] == "C06":
                    continue
                s = c(); del s["args"][k]; yield s
    if sc.get("probs"):
        if len(sc["probs"]) > 2:
            for i in range(len(sc["probs"])):
                s = c(); del s["probs"][i]; yield s
        return
    if sc.get("shared"):
        s = c(); s["shared"] = False; yield s
    inst = sc["inst"]
    pinned = set()
    for op in sc.get("ops") or [sc]:
        for key in ("initial_routes", "preassignments"):
            for r in op["args"].get(key) or ():
                pinned |= set(r)
    if not sc["opts"].get("pickup_delivery") and len(inst["cust"]) > 1:
        for v in inst["cust"]:
            if v in pinned:
                continue
            s = c()
            i = s["inst"]
            i["cust"] = [x for x in i["cust"] if x != v]
            i["node"] = [x for x in i["node"] if x[0] != v]
            i["edge"] = [e for e in i["edge"] if v not in (e[0], e[1])]
            yield s
    for k in ("fixed_cost", "num_stops", "duration"):
        if k in sc["opts"] and not isinstance(sc["opts"][k], list) and sc["prop"] not in ("C06",):
            s = c(); del s["opts"][k]; yield s
