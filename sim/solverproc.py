"""The external MIP/LP solver process, as the simulator sees it.

The answers come from the real CBC binary; the simulator owns when it answers
(simulated time), whether it answers, and which of several legal answers it
gives: rows and columns are permuted before the call (alternate optima), a
call that exceeds the limit it was given returns a feasible but sub-optimal
incumbent, or the continuous relaxation with the "no integer solution" header,
exactly in CBC's own file formats.
"""
import hashlib
import os
import select
import subprocess as _sp
import types

from . import kernel

REAL_POPEN = _sp.Popen
_CACHE = {}
_CACHE_MAX = 4000
real_calls = 0


class Model:
    def __init__(self, text):
        self.head = []
        self.rows = []  # lines, objective excluded
        self.objline = None
        self.cols = []  # [name, is_int, {row: coef-line}]
        self.rhs = []
        self.bounds = {}
        self.bound_order = []
        sec = None
        isint = False
        cur = None
        for line in text.splitlines():
            if not line or line[0] == "*":
                self.head.append(line)
                continue
            if line[0] != " ":
                sec = line.split()[0]
                if sec == "NAME":
                    self.head.append(line)
                continue
            f = line.split()
            if sec == "ROWS":
                if f[0] == "N":
                    self.objline = line
                    self.obj = f[1]
                else:
                    self.rows.append(line)
            elif sec == "COLUMNS":
                if "'MARKER'" in line:
                    isint = "INTORG" in line
                    continue
                if cur is None or cur[0] != f[0]:
                    cur = [f[0], isint, []]
                    self.cols.append(cur)
                cur[2].append((f[1], line, float(f[2])))
            elif sec == "RHS":
                self.rhs.append(line)
            elif sec == "BOUNDS":
                self.bounds.setdefault(f[2], []).append(line)
                if f[2] not in self.bound_order:
                    self.bound_order.append(f[2])
        # an integer variable that appears in no row may have no column line
        self.colset = {c[0] for c in self.cols}

    @property
    def has_int(self):
        return any(c[1] for c in self.cols)

    def objcoef(self):
        out = {}
        for name, _, ents in self.cols:
            for r, _, v in ents:
                if r == self.obj:
                    out[name] = v
        return out

    def text(self, perm=0, obj=None, relax=False):
        rows = list(self.rows)
        cols = list(self.cols)
        if perm:
            r = kernel.rng_for("perm", perm)
            r.shuffle(rows)
            r.shuffle(cols)
        out = list(self.head)
        out.append("ROWS")
        out.append(self.objline)
        out += rows
        out.append("COLUMNS")
        for name, isint, ents in cols:
            if isint and not relax:
                out.append("    MARK      'MARKER'                 'INTORG'")
            wrote = False
            for rname, line, v in ents:
                if rname == self.obj and obj is not None:
                    continue
                out.append(line)
                wrote = True
            if obj is not None and (name in obj or not wrote):
                out.append(
                    "    %-8s  %-8s  % .12e" % (name, self.obj, obj.get(name, 0.0))
                )
            if isint and not relax:
                out.append("    MARK      'MARKER'                 'INTEND'")
        out.append("RHS")
        out += self.rhs
        out.append("BOUNDS")
        order = [c[0] for c in cols] + [b for b in self.bound_order if b not in self.colset]
        for name in order:
            for line in self.bounds.get(name, ()):
                if relax and line.split()[0] == "BV":
                    line = " UP BND       %-8s  % .12e" % (name, 1.0)
                out.append(line)
        out.append("ENDATA")
        return "\n".join(out) + "\n"


def _run_real(path, text, args, scratch):
    """Run the real solver on `text`; returns (returncode, solution text)."""
    global real_calls
    key = hashlib.blake2b((text + "\0" + "\0".join(args)).encode(), digest_size=16).digest()
    hit = _CACHE.get(key)
    if hit is not None:
        return hit
    real_calls += 1
    mps = os.path.join(scratch, "m%d.mps" % os.getpid())
    sol = os.path.join(scratch, "m%d.sol" % os.getpid())
    with open(mps, "w") as f:
        f.write(text)
    try:
        os.unlink(sol)
    except FileNotFoundError:
        pass
    p = REAL_POPEN(
        [path, mps] + list(args) + ["-solution", sol],
        stdin=_sp.DEVNULL,
        stdout=_sp.DEVNULL,
        stderr=_sp.DEVNULL,
    )
    fd = os.pidfd_open(p.pid)
    try:
        done = select.select([fd], [], [], 2 * kernel.REAL_LIMIT)[0]
    finally:
        os.close(fd)
    if not done:
        p.kill()
        p.wait()
        os.unlink(mps)
        raise kernel.Skip("CBC needs too much real time")
    rc = p.wait()
    try:
        with open(sol) as f:
            res = (rc, f.read())
    except FileNotFoundError:
        res = (rc, None)
    for fn in (mps, sol):
        try:
            os.unlink(fn)
        except FileNotFoundError:
            pass
    if len(_CACHE) > _CACHE_MAX:
        _CACHE.clear()
    _CACHE[key] = res
    return res


def parse_sol(text):
    lines = text.splitlines()
    vals = {}
    for l in lines[1:]:
        f = l.split()
        if f and f[0] == "**":
            f = f[1:]
        if len(f) >= 4:
            vals[f[1]] = (float(f[2]), float(f[3]))
    return lines[0], vals


def _rewrite(text, header=None, fn=None):
    lines = text.splitlines()
    if header is not None:
        lines[0] = header
    if fn is not None:
        for i in range(1, len(lines)):
            f = lines[i].split()
            star = f and f[0] == "**"
            if star:
                f = f[1:]
            if len(f) < 4:
                continue
            v, d = fn(f[1], float(f[2]), float(f[3]))
            lines[i] = "%s%7s %s %22.15g %22.15g" % ("** " if star else "", f[0], f[1], v, d)
    return "\n".join(lines) + "\n"


def _duration(w, site, lim, profile):
    """Simulated seconds the solver would need; default a few milliseconds."""
    pslow = profile.get("slow", 0.0)
    pzero = profile.get("zero", 0.0)

    def draw(r):
        if pzero and r.random() < pzero:
            return 0.0
        if pslow and r.random() < pslow:
            base = profile.get("T") or 10.0
            return round(
                r.choice(
                    [
                        r.uniform(0.01, 0.2) * base,
                        r.uniform(0.2, 1.0) * base,
                        r.uniform(1.0, 4.0) * base,
                        50.0 * base,
                    ]
                ),
                4,
            )
        return 0.01

    return w.decide(site, 0.01, draw)


def account(w, kind, lim, dur, profile):
    """Advance simulated time for one solver call; True when it timed out."""
    c = w.ctx
    t0 = w.now
    timed_out = lim is not None and dur > lim
    if timed_out:
        over = w.decide(
            "late", 0.0,
            lambda r: (round(r.uniform(0, 0.3), 3) if r.random() < profile.get("late", 0.0) else 0.0),
        )
        el = max(0.001, lim) + over  # starting and stopping it takes time too
        c.injected_delay += over
        w.fired("solver_timeout")
        w.fired(kind + "_timeout")
    else:
        el = dur
        if dur != 0.01:
            w.fired("slow_call")
    w.advance(el)
    c.calls.append((kind, lim, t0, w.now, timed_out))
    if len(c.calls) > c.max_calls:
        raise kernel.Budget("more than %d solver calls" % c.max_calls)
    return timed_out


class SimPopen:
    """Stands for subprocess.Popen when pulp starts CBC."""

    def __init__(self, args, *a, **kw):
        self._real = None
        w = kernel.current
        if w is None or not os.path.basename(str(args[0])).startswith("cbc"):
            self._real = REAL_POPEN(args, *a, **kw)
            return
        self.returncode = None
        if w.sched:
            w.sched.switch_point()
        self._start(w, list(args))

    def __getattr__(self, k):
        return getattr(self._real, k)

    def poll(self):
        return self._real.poll() if self._real else self.returncode

    def wait(self, timeout=None):
        if self._real:
            return self._real.wait(timeout)
        return self.returncode

    def communicate(self, *a, **k):
        if self._real:
            return self._real.communicate(*a, **k)
        return (b"", b"")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    # ------------------------------------------------------------------
    def _start(self, w, args):
        prof = w.ctx.profile
        path, mps = args[0], args[1]
        rest = args[2:]
        lim = None
        keep = []
        sol = None
        i = 0
        while i < len(rest):
            if rest[i] in ("-sec", "-seconds"):
                lim = float(rest[i + 1])
                i += 2
                continue
            if rest[i] == "-solution":
                sol = rest[i + 1]
                i += 2
                continue
            if rest[i] == "-mips":
                i += 2
                continue
            keep.append(rest[i])
            i += 1
        with open(mps) as f:
            text = f.read()
        m = Model(text)
        isint = m.has_int
        pf = prof.get("cbc_fault", 0.0)
        kinds = prof.get("cbc_kinds") or ["spawn", "exit1", "kill9", "nosol", "interrupt"]
        fault = w.decide("cbc.fault", "", lambda r: r.choice(kinds) if r.random() < pf else "")
        pp = prof.get("perm", 0.0)
        perm = w.decide("cbc.perm", 0, lambda r: r.randrange(1, 1 << 20) if r.random() < pp else 0)
        dur = _duration(w, "cbc.dur", lim, prof)
        w.event("cbc", hashlib.blake2b(text.encode(), digest_size=8).hexdigest(), isint, fault, perm, dur, lim)
        w.ctx.stats["cbc_int" if isint else "cbc_lp"] += 1
        if fault:
            w.fired("cbc_" + fault)
            w.ctx.stats["hard_fault"] += 1
            account(w, "cbc", lim, dur, prof)
            if fault == "spawn":
                raise OSError(12, "Cannot allocate memory")
            if fault == "interrupt":
                raise kernel.Interrupt()
            if fault in ("exit1", "kill9"):
                self.returncode = 1 if fault == "exit1" else -9
                return
            if fault == "nosol":
                self.returncode = 0
                return
        timed_out = account(w, "cbc", lim, dur, prof)
        scratch = os.path.dirname(sol) or "."
        if perm:
            w.fired("alternate_optimum_order")
        txt = None
        if timed_out:
            txt = self._timed_out(w, m, path, keep, perm, isint, scratch)
        elif isint:
            txt = self._within_gap(w, m, path, keep, perm, scratch)
        if txt is None:
            rc, txt = _run_real(path, m.text(perm), keep, scratch)
            if rc != 0 or txt is None:
                self.returncode = rc or 1
                return
        head, vals = parse_sol(txt)
        w.ctx.last_cbc = (isint, head, timed_out)
        if head.startswith("Optimal"):
            try:
                ob = float(head.rsplit(None, 1)[1])
            except ValueError:
                ob = None
            (w.ctx.mip if isint else w.ctx.lp).append(ob)
        pn = prof.get("noise", 0.0)
        if isint and (pn or w.replaying):
            ns = w.decide("cbc.noise", 0, lambda r: r.randrange(1, 1 << 20) if r.random() < pn else 0)
            if ns:
                txt = self._noise(w, m, txt, ns)
        with open(sol, "w") as f:
            f.write(txt)
        w.event("cbc.done", hashlib.blake2b(txt.encode(), digest_size=8).hexdigest())
        if w.sched:
            w.sched.switch_point()
        self.returncode = 0

    def _within_gap(self, w, m, path, keep, perm, scratch):
        """A caller that allows a gap gets a solution within it, not the best one."""
        gap = {}
        for o, name in (("-ratio", "rel"), ("-allow", "abs")):
            if o in keep:
                gap[name] = float(keep[keep.index(o) + 1])
        if not any(gap.values()):
            return None
        ps = w.decide("cbc.gap", 0, lambda r: r.randrange(1, 1 << 20))
        if not ps:
            return None
        rc, txt = _run_real(path, m.text(perm), keep, scratch)
        if rc != 0 or txt is None or not txt.startswith("Optimal"):
            return None
        oc = m.objcoef()
        best = sum(oc.get(n, 0.0) * v[0] for n, v in parse_sol(txt)[1].items() if n in oc)
        room = max(gap.get("rel", 0.0) * abs(best), gap.get("abs", 0.0))
        r = kernel.rng_for("gap", ps)
        worst, pick = best, None
        for _ in range(4):
            obj = {c[0]: oc.get(c[0], 0.0) * r.choice([1, 1, 0.5, 1.5]) for c in m.cols}
            rc, t2 = _run_real(path, m.text(perm, obj), keep, scratch)
            if rc != 0 or t2 is None or not t2.startswith("Optimal"):
                continue
            val = sum(oc.get(n, 0.0) * v[0] for n, v in parse_sol(t2)[1].items() if n in oc)
            if worst + 1e-9 < val <= best + room:
                worst, pick = val, t2
        if pick is None:
            return txt
        w.fired("mip_within_gap")
        return _rewrite(pick, "Optimal - objective value %.8f" % worst)

    def _timed_out(self, w, m, path, keep, perm, isint, scratch):
        opts = ["incumbent", "none", "optimal"] if isint else ["partial", "zero", "optimal"]
        prefer = w.ctx.profile.get("timeout_outcomes")
        if prefer:
            opts = [o for o in opts if o in prefer] or ["optimal"]
        how = w.decide("cbc.cut", "optimal", lambda r: r.choice(opts))
        if how == "optimal":
            return None
        oc = m.objcoef()
        if how in ("incumbent", "partial"):
            ps = w.decide("cbc.pert", 1, lambda r: r.randrange(1, 1 << 20))
            r = kernel.rng_for("pert", ps)
            obj = {}
            for c in m.cols:
                k = oc.get(c[0], 0.0)
                big = abs(k) >= 1e8  # penalty columns keep their weight
                obj[c[0]] = k if big else round(r.uniform(0.1, 10), 3)
            rc, txt = _run_real(path, m.text(perm, obj), keep, scratch)
            if rc != 0 or txt is None:
                return None
            head, vals = parse_sol(txt)
            if not head.startswith("Optimal"):
                return None  # infeasible: let the real answer through
            val = sum(oc.get(n, 0.0) * v[0] for n, v in vals.items() if n in oc)
            if isint:
                w.fired("mip_incumbent_only")
                return _rewrite(txt, "Stopped on time - objective value %.8f" % val)
            w.fired("lp_stopped_early")
            return _rewrite(txt, "Stopped on iterations - objective value %.8f" % val)
        if how == "zero":
            rc, txt = _run_real(path, m.text(perm), keep, scratch)
            if rc != 0 or txt is None or not txt.startswith("Optimal"):
                return None
            w.fired("lp_stopped_at_start")
            return _rewrite(txt, "Stopped on iterations - objective value 0.00000000", lambda n, v, d: (0.0, 0.0))
        if how == "none":
            rc, txt = _run_real(path, m.text(perm, relax=True), keep, scratch)
            if rc != 0 or txt is None or not txt.startswith("Optimal"):
                return None
            val = txt.splitlines()[0].rsplit(None, 1)[1]
            w.fired("mip_no_incumbent")
            return _rewrite(
                txt,
                "Stopped on time (no integer solution - continuous used) - objective value " + val,
            )
        return None

    def _noise(self, w, m, txt, ns):
        """Integrality noise within the solver's own tolerance (1e-6)."""
        r = kernel.rng_for("noise", ns)
        ints = {c[0] for c in m.cols if c[1]}
        oc = m.objcoef()
        hit = [0]

        def fn(n, v, d):
            if n in ints and abs(oc.get(n, 0.0)) < 1e6 and r.random() < 0.3:
                hit[0] += 1
                e = r.choice([1e-9, 1e-8, 1e-7])
                return (v + e if v < 0.5 else v - e, d)
            return v, d

        head = txt.splitlines()[0]
        if "no integer solution" in head or head.startswith(("Infeas", "Integer")):
            return txt
        out = _rewrite(txt, None, fn)
        if hit[0]:
            w.fired("integrality_noise")
        return out


def proxy_subprocess():
    mod = types.ModuleType("subprocess")
    mod.__dict__.update(_sp.__dict__)
    mod.Popen = SimPopen
    return mod
