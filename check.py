#!/opt/venv/bin/python
"""Decide one property by seeded simulation.

  check.py C01                      quick (or VERIF_TIER) search, VERIF_SEED picks the seeds
  check.py C01 --tier thorough
  check.py --replay FILE            re-execute a recorded violation exactly
"""
import argparse
import fcntl
import json
import mmap
import os
import selectors
import shutil
import signal
import subprocess
import sys
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
GROUPS = 8
# simulated runs per check; fixed so that a verdict does not depend on machine speed
RUNS = {
    "C01": 2800, "C02": 6000, "C03": 2000, "C04": 2400, "C05": 3200, "C06": 3200, "C07": 4000,
    "C08": 3600, "C09": 3200, "C10": 1800, "C11": 2000, "C12": 5600, "C13": 3200,
}
THOROUGH = 15
CAP = {"quick": 480.0, "thorough": 5400.0}
STALL = 150.0  # real seconds without any sign of life in Python code
NATIVE = 12.0  # real seconds inside one labelling call; such a run is not evaluated
MINIMISE = 60.0
FINDINGS = os.path.join(HERE, "known_findings.txt")

REAL = [
    "vrpy (all of /repo/vrpy, imported afresh from the working tree for every simulated process)",
    "cspy labelling algorithm (C++), networkx, numpy, pulp (model building, MPS writing, solution parsing)",
    "CBC binary: every answer is computed by it",
]
STUB = [
    "process creation and exit status of CBC, its running time, its time limit, which optimal or cut-short answer it returns",
    "CPLEX (not installed): CBC's answers in CPLEX's conventions, in the few runs with solver='cplex'",
    "wall and monotonic clocks, time.sleep", "running time and time limit of the labelling algorithm",
    "random number generators without a seed, identity hashes", "opening of model files for writing (disk full)",
    "thread scheduler (concurrent solves only)",
]


def log(*a):
    print(*a, flush=True)


class Worker:
    def __init__(self, args, hs):
        r, w = os.pipe()
        os.set_inheritable(w, True)
        env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1")
        for k in ("PYTHONSTARTUP", "PYTHONOPTIMIZE", "PYTHONWARNINGS"):
            env.pop(k, None)
        for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
            env[k] = "1"
        m = os.memfd_create("page")
        os.ftruncate(m, 4096)
        self.page = mmap.mmap(m, 4096)
        self.note = None
        self.p = subprocess.Popen(
            [PY, "-W", "ignore", "-m", "sim.worker"] + args + ["--fd", str(w), "--page", str(m)],
            cwd=HERE, env=env, pass_fds=[w, m], stdin=subprocess.DEVNULL, start_new_session=True,
        )
        os.close(w)
        os.close(m)
        self.fd = r
        fl = fcntl.fcntl(r, fcntl.F_GETFL)
        fcntl.fcntl(r, fcntl.F_SETFL, fl | os.O_NONBLOCK)
        self.buf = b""
        self.last = time.time()
        self.cur = None
        self.closed = False

    def read(self):
        msgs = []
        while True:
            try:
                d = os.read(self.fd, 1 << 20)
            except BlockingIOError:
                break
            if not d:
                self.closed = True
                break
            self.buf += d
        *lines, self.buf = self.buf.split(b"\n")
        for l in lines:
            self.last = time.time()
            msgs.append(json.loads(l))
        return msgs

    def silent(self, now):
        """Why the worker counts as stuck, or None."""
        note = (self.page[0], self.page[1])
        if note != self.note:
            self.note = note
            self.last = now
        if self.page[0] and now - self.last > NATIVE:
            return "labelling-slow"
        if now - self.last > STALL:
            return "stalled"
        return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()
        try:
            os.close(self.fd)
        except OSError:
            pass
        # what a killed worker could not clean up itself
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        for d in os.listdir(base):
            if d.startswith("vrpysim-%d-" % self.p.pid):
                shutil.rmtree(os.path.join(base, d), ignore_errors=True)


def drive(workers, handle, deadline, stalled):
    """Pump messages until every worker ended; handle(worker, msg) -> keep going?"""
    sel = selectors.DefaultSelector()
    live = set(workers)
    for w in workers:
        sel.register(w.fd, selectors.EVENT_READ, w)
    while live:
        for key, _ in sel.select(timeout=1.0):
            w = key.data
            for m in w.read():
                if m["t"] == "start":
                    w.cur = m["i"]
                handle(w, m)
            if w.closed and w in live:
                live.discard(w)
                sel.unregister(w.fd)
                w.p.wait()
                why = "labelling-died" if w.page[0] else "died"
                new = stalled(w, why) if w.p.returncode else None
                w.kill()
                if new:
                    live.add(new)
                    sel.register(new.fd, selectors.EVENT_READ, new)
        now = time.time()
        for w in list(live):
            over = now > deadline
            why = w.silent(now)
            if over or why or getattr(w, "stop", False):
                live.discard(w)
                sel.unregister(w.fd)
                w.kill()
                if not over and not getattr(w, "stop", False):
                    new = stalled(w, why)
                    if new:
                        live.add(new)
                        sel.register(new.fd, selectors.EVENT_READ, new)


def once(mode, path, hs, extra=(), limit=STALL):
    """One replay or minimisation in its own process; the last message or None."""
    got = []
    w = Worker([mode, "--file", path] + list(extra), hs)
    drive([w], lambda _w, m: got.append(m), time.time() + limit, lambda _w, why: None)
    got = [m for m in got if m["t"] in ("run", "min")]
    return got[-1] if got else None


def search(prop, tier, seed, runs, deadline):
    from sim.worker import hash_seed

    st = {
        "runs": 0, "digests": set(), "nontrivial": set(), "scheds": set(), "faults": Counter(), "steps": 0,
        "sim": 0.0, "kinds": Counter(), "ok": 0, "err": 0, "cbc": 0, "csp": 0, "budget": 0, "errors": [],
        "stalls": [], "viol": [], "samples": [], "slowest": 0.0,
        "slow": [],
    }
    bound = [runs]
    workers = []

    def spawn(g, first):
        w = Worker(
            ["run", "--prop", prop, "--tier", tier, "--seed", str(seed), "--group", str(g), "--groups",
             str(GROUPS), "--first", str(first), "--runs", str(bound[0])], hash_seed(seed, g))
        w.group = g
        workers.append(w)
        return w

    def handle(w, m):
        if m["t"] == "start" and m["i"] > bound[0]:
            w.stop = True
        if m["t"] != "run":
            return
        st["runs"] += 1
        st["digests"].add(m["dig"])
        if m["nontrivial"]:
            st["nontrivial"].add(m["dig"])
        if m["sched"]:
            st["scheds"].add(m["sched"])
        st["faults"].update(m["stats"])
        for k in ("steps", "sim", "ok", "err", "cbc", "csp"):
            st[k] += m[k]
        st["kinds"][m["kind"]] += 1
        st["slowest"] = max(st["slowest"], m["real"])
        if m["real"] > 5:
            st["slow"].append((m["real"], m["i"]))
        if m["budget"]:
            st["budget"] += 1
        if m["error"]:
            st["errors"].append((m["i"], m["error"]))
        if m["i"] < 3:
            st["samples"].append({k: m[k] for k in ("i", "kind", "dig", "steps", "sim", "stats", "ok", "err")})
        if m["vio"]:
            st["viol"].append((m["i"], w.group, m))
            bound[0] = min(bound[0], m["i"])

    def stalled(w, why):
        if w.cur is None:
            st["errors"].append((-1, "worker %s before its first run" % why))
            return None
        st["stalls"].append((w.cur, w.group, why))
        nxt = w.cur - w.group + GROUPS
        if prop == "C13" and not why.startswith("labelling"):
            st["viol"].append((w.cur, w.group, {"vio": [("hang" if why == "stalled" else "process-died",
                               "solve() neither returned nor raised: worker %s" % why)], "trace": None, "dig": None}))
            bound[0] = min(bound[0], w.cur)
        if nxt + w.group >= bound[0] or len(st["stalls"]) > 40:
            return None
        return spawn(w.group, nxt)

    for g in range(GROUPS):
        spawn(g, 0)
    drive(list(workers), handle, deadline, stalled)
    return st


def report(prop, tier, seed, st):
    """Reproduce, minimise and store the violation with the lowest run number."""
    from sim.worker import hash_seed, run_seed

    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for i, g, m in sorted(st["viol"], key=lambda x: x[0])[:4]:
        hs = hash_seed(seed, g)
        s = run_seed(seed, prop, i)
        cls, detail = m["vio"][0]
        sc = scenario(prop, s, tier, hs)
        path = os.path.join(HERE, "replays", "%s-%s-%d-%d.json" % (prop, tier, seed, i))
        rep = {
            "property": prop, "class": cls, "detail": detail, "seed": s, "verif_seed": seed, "run": i,
            "tier": tier, "pythonhashseed": hs, "scenario": sc, "trace": m["trace"], "digest": m["dig"],
        }
        write(path, rep)
        if cls in ("hang", "process-died"):
            again = once("replay", path, hs, limit=STALL)
            if again is None:
                return path, rep
            log("note: run %d did not finish in its worker but does on its own" % i)
            continue
        again = once("replay", path, hs)
        if again is None or not any(c == cls for c, _ in again["vio"]):
            # state outside the simulated process: replay the whole worker up to it
            got = []
            w = Worker(["prefix", "--prop", prop, "--tier", tier, "--seed", str(seed), "--group", str(g),
                        "--groups", str(GROUPS), "--runs", str(i + 1)], hs)
            drive([w], lambda _w, x: got.append(x), time.time() + 200, lambda _w, why: None)
            hit = [x for x in got if x["t"] == "run" and x["i"] == i and any(c == cls for c, _ in x["vio"])]
            if hit:
                rep["prefix"] = {"group": g, "groups": GROUPS}
                write(path, rep)
                return path, rep
            log("note: violation %s in run %d is not reproducible; not reported" % (cls, i))
            continue
        rep["digest"] = again["dig"]
        write(path, rep)
        mi = once("minimise", path, hs, ["--seconds", str(MINIMISE)], limit=MINIMISE + 60)
        if mi:
            small = mi["rep"]
            tmp = path + ".tmp"
            write(tmp, small)
            v = once("replay", tmp, hs)
            if v and v["dig"] == small["digest"] and any(c == cls for c, _ in v["vio"]):
                rep = small
                os.replace(tmp, path)
            else:
                os.unlink(tmp)
        return path, rep
    return None, None


def scenario(prop, s, tier, hs):
    code = "import json,sys; from sim import exp; json.dump(exp.generate(%r, %d, %r), sys.stdout)" % (prop, s, tier)
    out = subprocess.run([PY, "-c", code], cwd=HERE, env=dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONPATH=HERE),
                         stdout=subprocess.PIPE, check=True)
    return json.loads(out.stdout)


def write(path, obj):
    with open(path, "w") as f:
        json.dump(obj, f, indent=1)


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    prop = rep["property"]
    if rep.get("prefix"):
        got = []
        w = Worker(["prefix", "--prop", prop, "--tier", rep["tier"], "--seed", str(rep["verif_seed"]), "--group",
                    str(rep["prefix"]["group"]), "--groups", str(rep["prefix"]["groups"]), "--runs",
                    str(rep["run"] + 1)], rep["pythonhashseed"])
        drive([w], lambda _w, x: got.append(x), time.time() + 600, lambda _w, why: None)
        m = ([x for x in got if x["t"] == "run" and x["i"] == rep["run"]] or [None])[0]
    else:
        m = once("replay", path, rep["pythonhashseed"], ["--log"])
    if m is None:
        hit = rep["class"] in ("hang", "process-died")
        log("replay: the run did not finish")
    else:
        for l in m.get("log") or ():
            log("  ", l[:300])
        hit = any(c == rep["class"] for c, _ in m["vio"])
        log("replay: digest %s (recorded %s)%s" % (m["dig"], rep["digest"], "" if m["dig"] == rep["digest"] else " DIFFERENT"))
        for c, d in m["vio"]:
            log("  %s: %s" % (c, d))
    if hit:
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    log("replay: no violation of %s" % prop)
    return 0


def known(prop):
    """Replays every recorded finding; prints those that still fail."""
    n = 0
    if not os.path.exists(FINDINGS):
        return n
    with open(FINDINGS) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("{"):
                continue
            k = json.loads(line)
            if k["property"] != prop or k.get("status") != "known":
                continue
            path = os.path.join(HERE, k["replay"])
            with open(path) as g:
                hs = json.load(g)["pythonhashseed"]
            m = once("replay", path, hs)
            if m and any(c == k["class"] for c, _ in m["vio"]):
                log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                n += 1
            else:
                log("note: known finding %s of %s no longer fails" % (k["id"], prop))
    return n


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    prop, tier = a.prop, a.tier
    runs = a.runs or RUNS[prop] * (THOROUGH if tier == "thorough" else 1)
    nknown = known(prop)
    st = search(prop, tier, a.seed, runs, t0 + CAP[tier])
    t1 = time.time()
    path = rep = None
    if st["viol"]:
        path, rep = report(prop, tier, a.seed, st)
    wall = time.time() - t0
    hours = max(t1 - t0, 1e-3) / 3600
    ev = {
        "property": prop, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": st["runs"],
            "distinct_nontrivial": len(st["nontrivial"]),
            "rule": "one evaluation is one simulated run: a scenario (instance, options, operations) and all its "
                    "schedule and fault decisions drawn from one seed; distinct by the digest of the complete event "
                    "history (every solver model, answer, duration, fault, clock step, task switch and plan); "
                    "non-trivial when the MIP/LP solver was called and at least one decision was not the default",
            "samples": st["samples"],
            "runs_requested": runs,
            "seeds_per_hour": round(st["runs"] / hours),
            "distinct_histories": len(st["digests"]),
            "distinct_interleavings": len(st["scheds"]),
            "simulated_seconds": round(st["sim"], 1),
            "events": st["steps"],
            "faults_injected": dict(sorted(st["faults"].items())),
            "operations": {"solves_returned": st["ok"], "solves_raised": st["err"],
                           "cbc_calls": st["cbc"], "labelling_calls": st["csp"]},
            "problem_kinds": dict(sorted(st["kinds"].items())),
            "step_budget_exhausted": st["budget"],
            "workers_stalled": len(st["stalls"]),
            "setup_errors": len(st["errors"]),
            "slowest_run_s": st["slowest"],
            "hash_seeds": GROUPS,
            "components_real": REAL, "components_stubbed": STUB,
            "known_findings_reproduced": nknown,
        },
        "assumptions": [
            "CBC and cspy answer correctly when they finish; only their timing, choice among equal answers, "
            "early termination and failure are varied",
        ],
        "wall_s": round(wall, 2),
        "violations": 1 if path else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    write(os.path.join(HERE, "evidence", prop + ".json"), ev)
    log("%s %s: %d runs (%d distinct histories), %.0f s simulated, %d faults, %.1f s"
        % (prop, tier, st["runs"], len(st["digests"]), st["sim"], sum(st["faults"].values()), wall))
    for i, e in st["errors"][:2]:
        log("note: run %s could not be set up: %s" % (i, e.strip().splitlines()[-1]))
    for i, g, why in st["stalls"]:
        log("note: run %d %s" % (i, why))
    if st["slow"]:
        log("note: slowest runs %s" % sorted(st["slow"], reverse=True)[:4])
    if path:
        log("violation (%s): %s" % (rep["class"], rep["detail"]))
        log("  run %d, seed %d, %d injected decisions" % (rep["run"], rep["seed"], len(rep["trace"] or {})))
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if st["runs"] == 0 or len(st["errors"]) == st["runs"]:
        log("error: nothing could be run")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
