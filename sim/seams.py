"""Installs the seams and boots fresh copies of the code under test.

No hook in /repo is needed: every source of nondeterminism vrpy meets sits in
a module it imports (time, random, numpy, cspy, pulp -> CBC process and its
files, identity hashes of graphs), so they are replaced there, before vrpy is
imported.  Outside a simulated run (kernel.current is None) every replacement
falls through to the real thing.
"""
import atexit
import errno
import os
import random
import shutil
import sys
import tempfile
import time as _time
import types

from . import kernel, solverproc

REPO = os.environ.get("VERIF_REPO", "/repo")
_real = {}
_installed = False
SCRATCH = None


def _wrap_clock(name, fn):
    real = getattr(_time, name)
    _real[name] = real

    def clock():
        w = kernel.current
        if w is None:
            return real()
        if w.sched:
            w.sched.switch_point()
        return fn(w)

    clock.__name__ = name
    setattr(_time, name, clock)


def install():
    global _installed, SCRATCH
    if _installed:
        return
    _installed = True
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    SCRATCH = tempfile.mkdtemp(prefix="vrpysim-%d-" % os.getpid(), dir=base)
    atexit.register(shutil.rmtree, SCRATCH, True)
    for k in ("TMPDIR", "TMP", "TEMP"):
        os.environ[k] = SCRATCH
    tempfile.tempdir = SCRATCH

    # third party imported before the clock is replaced keeps the real clock
    import logging
    import networkx
    import numpy
    import numpy.random

    logging.disable(logging.CRITICAL)
    for lg in ("pulp",):
        logging.getLogger(lg).setLevel(logging.ERROR)

    _wrap_clock("time", lambda w: w.wall())
    _wrap_clock("monotonic", lambda w: w.mono())
    _wrap_clock("perf_counter", lambda w: w.mono())
    _wrap_clock("process_time", lambda w: w.mono())
    _wrap_clock("time_ns", lambda w: int(w.wall() * 1e9))
    _wrap_clock("monotonic_ns", lambda w: int(w.mono() * 1e9))
    _wrap_clock("perf_counter_ns", lambda w: int(w.mono() * 1e9))
    real_sleep = _time.sleep

    def sleep(s):
        w = kernel.current
        if w is None:
            return real_sleep(s)
        w.advance(max(0.0, s))

    _time.sleep = sleep

    # unseeded numpy generators
    RealRS = numpy.random.RandomState

    class RandomState(RealRS):
        def __init__(self, seed=None):
            w = kernel.current
            if seed is None and w is not None:
                seed = w.decide("np.seed", 0, lambda r: r.randrange(1 << 31))
            super().__init__(seed)

    RandomState.__module__ = RealRS.__module__
    numpy.random.RandomState = RandomState
    real_drng = numpy.random.default_rng

    def default_rng(seed=None):
        w = kernel.current
        if seed is None and w is not None:
            seed = w.decide("np.seed", 0, lambda r: r.randrange(1 << 31))
        return real_drng(seed)

    numpy.random.default_rng = default_rng
    RealRandom = random.Random

    class Random(RealRandom):
        def __init__(self, x=None):
            w = kernel.current
            if x is None and w is not None:
                x = w.decide("py.seed", 0, lambda r: r.randrange(1 << 31))
            super().__init__(x)

    random.Random = Random

    # identity hashes decide set iteration order
    def ghash(self):
        h = self.__dict__.get("_sim_hash")
        if h is None:
            w = kernel.current
            if w is None:
                h = id(self) >> 4
            else:
                c = w.ctx
                k = c.count["_ghash"]
                c.count["_ghash"] = k + 1
                hs = getattr(c, "hash_seed", 0)
                h = kernel.rng_for("gh", hs, k).getrandbits(40) if hs else k + 1
            self.__dict__["_sim_hash"] = h
        return h

    networkx.Graph.__hash__ = ghash
    networkx.DiGraph.__hash__ = ghash

    import pulp
    import pulp.apis.coin_api as coin
    import pulp.mps_lp as mps_lp

    coin.subprocess = solverproc.proxy_subprocess()
    coin.PULP_CBC_CMD.tmpDir = SCRATCH

    real_open = open

    def sim_open(file, mode="r", *a, **k):
        w = kernel.current
        if w is not None and "w" in mode:
            p = w.ctx.profile.get("enospc", 0.0)
            if p or w.replaying:
                if w.decide("disk.full", 0, lambda r: 1 if r.random() < p else 0):
                    w.fired("disk_full")
                    w.ctx.stats["hard_fault"] += 1
                    w.event("disk.full")
                    raise OSError(errno.ENOSPC, "No space left on device", file)
        return real_open(file, mode, *a, **k)

    mps_lp.open = sim_open

    _install_cplex(pulp)

    import cspy

    _install_cspy(cspy)


def _install_cplex(pulp):
    """CPLEX is not installed: a stub that answers with CBC's solutions.

    It keeps CPLEX_CMD's conventions: a preliminary integer solution is
    reported as optimal (the fixed problem is), and without any solution no
    file is written, which pulp reads as infeasible, leaving old values alone.
    """
    from pulp import constants

    real_solve, real_exec = pulp.CPLEX_CMD.actualSolve, pulp.CPLEX_CMD.executable

    def executable(command):
        return True if kernel.current is not None else real_exec(command)

    def actual(self, lp, **kw):
        w = kernel.current
        if w is None:
            return real_solve(self, lp, **kw)
        lim = self.timeLimit
        for o in self.options:
            f = str(o).split()
            if f[:2] == ["set", "timelimit"]:
                lim = float(f[2])
        w.fired("cplex_stub")
        vs, cs = lp.variables(), list(lp.constraints.values())
        old = [(v.varValue, v.dj) for v in vs], [(c.pi, c.slack) for c in cs]
        cbc = pulp.PULP_CBC_CMD(msg=False, mip=self.mip, timeLimit=lim, gapRel=self.optionsDict.get("gapRel"))
        cbc.solve_CBC(lp)
        isint, head, cut = w.ctx.last_cbc
        if head.startswith("Optimal") or isint and cut and "no integer" not in head and head.startswith("Stopped"):
            lp.assignStatus(constants.LpStatusOptimal)
            return constants.LpStatusOptimal
        for v, (x, d) in zip(vs, old[0]):
            v.varValue, v.dj = x, d
        for c, (p, k) in zip(cs, old[1]):
            c.pi, c.slack = p, k
        lp.assignStatus(constants.LpStatusInfeasible)
        return constants.LpStatusInfeasible

    pulp.CPLEX_CMD.actualSolve = actual
    pulp.CPLEX_CMD.executable = staticmethod(executable)
    pulp.CPLEX_CMD.available = lambda self: executable(self.path)


def _install_cspy(cspy):
    Real = cspy.BiDirectional

    class BiDirectional(Real):
        """The real labelling algorithm; its wall-clock limit is simulated."""

        def __init__(self, G, max_res, min_res, *a, **kw):
            w = kernel.current
            self._sim = None
            if w is None:
                super().__init__(G, max_res, min_res, *a, **kw)
                return
            if w.sched:
                w.sched.switch_point()
            prof = w.ctx.profile
            lim = kw.pop("time_limit", None)
            if isinstance(lim, bool) or not isinstance(lim, (int, float)):
                lim = None
            pf = prof.get("csp_fault", 0.0)
            kinds = prof.get("csp_kinds") or ["error", "interrupt"]
            fault = w.decide("csp.fault", "", lambda r: r.choice(kinds) if r.random() < pf else "")
            pp = prof.get("csp_perm", 0.0)
            perm = w.decide("csp.perm", 0, lambda r: r.randrange(1, 1 << 20) if r.random() < pp else 0)
            dur = solverproc._duration(w, "csp.dur", lim, prof)
            self._sim = dict(w=w, lim=lim, fault=fault, dur=dur, prof=prof, out=None)
            w.ctx.stats["csp"] += 1
            if perm:
                w.fired("alternate_label_order")
                G = _permuted(G, perm)
            if lim is not None and dur > lim:
                outs = prof.get("csp_cut") or ["first", "source", "optimal"]
                how = w.decide("csp.cut", "optimal", lambda r: r.choice(outs))
                self._sim["out"] = how
                if how == "first":
                    kw["threshold"] = 1e9
            kw["time_limit"] = kernel.REAL_LIMIT  # real seconds; reaching it voids the run
            super().__init__(G, max_res, min_res, *a, **kw)

        def run(self):
            s = self._sim
            if s is None:
                return super().run()
            w = s["w"]
            if w.sched:
                w.sched.switch_point()
            to = solverproc.account(w, "csp", s["lim"], s["dur"], s["prof"])
            if s["fault"]:
                w.fired("csp_" + s["fault"])
                w.ctx.stats["hard_fault"] += 1
                w.event("csp.fault", s["fault"])
                if s["fault"] == "interrupt":
                    raise kernel.Interrupt()
                raise MemoryError("simulated allocation failure in the labelling algorithm")
            t = _real["perf_counter"]()
            kernel.native(True)
            super().run()
            kernel.native(False)
            if _real["perf_counter"]() - t > 0.9 * kernel.REAL_LIMIT:
                raise kernel.Skip("labelling needs too much real time")
            if to and s["out"] == "first":
                w.fired("labelling_stopped_at_first_path")
            if to and s["out"] == "source":
                w.fired("labelling_stopped_before_any_path")
            w.event("csp", self.path, self.total_cost and round(self.total_cost, 6), s["lim"], to)
            if w.sched:
                w.sched.switch_point()

        @property
        def path(self):
            s = self._sim
            if s is not None and s["out"] == "source":
                return ["Source"]
            return Real.path.fget(self)

        @property
        def total_cost(self):
            s = self._sim
            if s is not None and s["out"] == "source":
                return 0.0
            return Real.total_cost.fget(self)

        @property
        def consumed_resources(self):
            s = self._sim
            if s is not None and s["out"] == "source":
                return [0.0]
            return Real.consumed_resources.fget(self)

    BiDirectional.__name__ = "BiDirectional"
    cspy.BiDirectional = BiDirectional
    import cspy.algorithms.bidirectional as mod

    mod.BiDirectional = BiDirectional


def _permuted(G, perm):
    r = kernel.rng_for("cperm", perm)
    H = G.__class__()
    H.graph.update(G.graph)
    ns = list(G.nodes())
    r.shuffle(ns)
    for n in ns:
        H.add_node(n, **G.nodes[n])
    es = list(G.edges())
    r.shuffle(es)
    for u, v in es:
        H.add_edge(u, v, **G.edges[u, v])
    return H


# -- booting the code under test ----------------------------------------------
_code = {}


class _Loader:
    @staticmethod
    def source(name):
        rel = name.replace(".", "/")
        for p, pkg in ((rel + "/__init__.py", True), (rel + ".py", False)):
            f = os.path.join(REPO, p)
            if os.path.exists(f):
                return f, pkg
        return None, False

    def find_spec(self, name, path=None, target=None):
        if name != "vrpy" and not name.startswith("vrpy."):
            return None
        import importlib.util

        f, pkg = self.source(name)
        if f is None:
            return None
        return importlib.util.spec_from_file_location(
            name, f, loader=self, submodule_search_locations=[os.path.dirname(f)] if pkg else None
        )

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        c = _code.get(f)
        if c is None:
            with open(f, "rb") as fh:
                c = compile(fh.read(), f, "exec", dont_inherit=True)
            _code[f] = c
        module.__file__ = f
        exec(c, module.__dict__)


_loader = _Loader()


def boot():
    """A new simulated process: vrpy imported afresh from /repo."""
    install()
    for k in [k for k in sys.modules if k == "vrpy" or k.startswith("vrpy.")]:
        del sys.modules[k]
    if _loader not in sys.meta_path:
        sys.meta_path.insert(0, _loader)
    import vrpy

    assert vrpy.__file__.startswith(REPO + "/"), vrpy.__file__
    return vrpy
