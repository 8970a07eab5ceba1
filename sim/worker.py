"""One worker process: runs its share of the seeds, or replays / minimises one.

Protocol: one JSON object per line on the file descriptor given by --fd (the
labelling library prints on stdout from C++, so stdout is not usable).
"""
import argparse
import json
import os
import sys
import traceback


def run_seed(verif_seed, prop, index):
    from .kernel import rng_for

    return rng_for("run", verif_seed, prop, index).getrandbits(48)


def hash_seed(verif_seed, group):
    from .kernel import rng_for

    return rng_for("hash", verif_seed, group).randrange(1, 1 << 32)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode", choices=["run", "replay", "minimise", "prefix"])
    ap.add_argument("--prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--group", type=int, default=0)
    ap.add_argument("--groups", type=int, default=8)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--seconds", type=float, default=60)
    ap.add_argument("--file")
    ap.add_argument("--fd", type=int)
    ap.add_argument("--page", type=int)
    ap.add_argument("--log", action="store_true")
    a = ap.parse_args()
    out = os.fdopen(a.fd, "w", buffering=1)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)

    def send(**kw):
        out.write(json.dumps(kw, default=str) + "\n")

    from . import exp, kernel, seams

    def native(on):
        # a one byte note in a shared page instead of a message: no cost per call
        page[0] = 1 if on else 0
        page[1] = (page[1] + 1) % 256

    import mmap

    page = mmap.mmap(a.page, 4096) if a.page is not None else bytearray(2)
    kernel.native = native
    seams.install()
    clock = seams._real["perf_counter"]

    if a.mode in ("run", "prefix"):
        for i in range(a.first + a.group, a.runs, a.groups):
            send(t="start", i=i)
            t0 = clock()
            s = run_seed(a.seed, a.prop, i)
            m = one(exp, exp.generate(a.prop, s, a.tier), s)
            m.update(t="run", i=i, real=round(clock() - t0, 3))
            send(**m)
            if m["vio"]:
                break
        send(t="done")
    elif a.mode == "replay":
        with open(a.file) as f:
            rep = json.load(f)
        m = one(exp, rep["scenario"], rep["seed"], rep.get("trace"), log=a.log)
        m["t"] = "run"
        m["i"] = -1
        send(**m)
    elif a.mode == "minimise":
        from . import minimise

        with open(a.file) as f:
            rep = json.load(f)
        rep = minimise.minimise(rep, clock, a.seconds, lambda **k: send(t="beat", **k))
        send(t="min", rep=rep)


def one(exp, sc, seed, trace=None, log=False):
    """Run once; a plain dict."""
    try:
        r = exp.run(sc, seed, trace, log=log)
    except Exception as e:  # noqa: the program under test cannot even be set up
        tb = traceback.format_exc()
        return {"vio": [("setup", "%s: %s" % (type(e).__name__, str(e)[:300]))] if sc["prop"] == "C13" else [],
                "error": tb[-1500:], "dig": "error", "kind": sc.get("kind"), "stats": {}, "steps": 0,
                "sim": 0.0, "sched": None, "ok": 0, "err": 0, "cbc": 0, "csp": 0, "trace": {}, "budget": None,
                "nontrivial": False, "log": None}
    w = r.world
    return {
        "vio": r.violations,
        "budget": r.budget,
        "dig": r.digest,
        "kind": sc.get("kind") or "+".join(p["kind"] for p in sc.get("probs", ())),
        "stats": dict(w.stats),
        "steps": w.nlog,
        "sim": w.total_time,
        "sched": w.schedule_sig.hexdigest() if w.sched_runs else None,
        "ok": w.tally["ok"], "err": w.tally["err"], "cbc": w.tally["cbc"], "csp": w.tally["csp"],
        "nontrivial": bool(w.tally["cbc"]) and bool(r.trace),
        "trace": r.trace if r.violations or trace is not None else None,
        "log": w.keep_log,
        "error": None,
    }


if __name__ == "__main__":
    main()
