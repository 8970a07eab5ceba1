"""Deterministic simulation kernel.

One `World` is one simulated process lifetime.  Everything non-deterministic
that the code under test can meet is decided here, by `World.decide`, from one
integer seed and the *name* of the decision point, or, in replay mode, from an
explicit trace of the non-default decisions.

Decision keys are  <scope>/<site>#<k> : scope is the label of the operation
being executed (chosen by the experiment), site the seam, k how often that
site was reached within that scope.  Two executions that use the same scope
label therefore meet the same solver behaviour, which is what the comparison
oracles (re-solve == fresh, concurrent == alone, limit not reached == no
limit) rely on.
"""
import hashlib
import random as _random
import sys
import threading
from collections import Counter
from contextlib import contextmanager

_BASE_WALL = 1_700_000_000.0

current = None  # the World in which the process currently is (or None)


class Interrupt(KeyboardInterrupt):
    """Injected Ctrl-C."""


class Budget(BaseException):
    """Step budget of the run exhausted (progress violation)."""


class Skip(Budget):
    """A real solver call took too long in real time: the run is not evaluated."""


REAL_LIMIT = 8.0  # real seconds one native call may take


def native(on):
    """Replaced by the worker: tells the parent that a native call begins / ended."""


def rng_for(*parts):
    h = hashlib.blake2b("|".join(str(p) for p in parts).encode(), digest_size=8)
    return _random.Random(int.from_bytes(h.digest(), "big"))


class Ctx:
    """Per task execution context."""

    def __init__(self, scope):
        self.scope = scope
        self.count = Counter()
        self.profile = {}
        self.stats = Counter()  # events seen in this scope
        self.lp = []  # objective values of pure-LP solver calls in this scope
        self.mip = []  # and of the other ones
        self.calls = []  # (kind, granted limit, t0, t1, timed_out)
        self.injected_delay = 0.0
        self.rand_state = None
        self.np_state = None
        self.call_no = 0
        self.interrupt_at = None
        self.now = 0.0
        self.max_calls = 100000


class World:
    def __init__(self, seed, trace=None, max_steps=200000):
        self.seed = seed
        self.replaying = trace is not None
        self.given = dict(trace or {})
        self.trace = {}
        self.used = set()
        self._now = 0.0
        self.total_time = 0.0
        self.per_task_time = False
        self.no_clock = False
        self.sched_runs = 0  # interleaved executions in this world
        self.tally = Counter()  # solves that returned / raised, solver calls
        self.wall_off = 0.0
        self.steps = 0
        self.max_steps = max_steps
        self.log = hashlib.blake2b(digest_size=16)
        self.nlog = 0
        self.keep_log = None  # list when a readable log is wanted
        self.stats = Counter()  # fired fault kinds over the run
        self.sites = Counter()
        self.tl = threading.local()
        self.sched = None
        self.main = Ctx("main")
        self.tl.ctx = self.main
        self.schedule_sig = hashlib.blake2b(digest_size=8)
        self.hash_seq = 0

    # -- context ---------------------------------------------------------
    @property
    def ctx(self):
        c = getattr(self.tl, "ctx", None)
        return c if c is not None else self.main

    def set_ctx(self, ctx):
        self.tl.ctx = ctx

    # -- decisions -------------------------------------------------------
    def decide(self, site, default, draw):
        """Value of the next decision at `site`; `draw(rng)` in seeded mode."""
        c = self.ctx
        k = c.count[site]
        c.count[site] = k + 1
        key = "%s/%s#%d" % (c.scope, site, k)
        if self.replaying:
            v = self.given.get(key, default)
            if key in self.given:
                self.used.add(key)
        else:
            v = draw(rng_for(self.seed, key))
        if v != default:
            self.trace[key] = v
        return v

    def event(self, *what):
        self.steps += 1
        s = repr((self.ctx.scope,) + what)
        self.log.update(s.encode())
        self.nlog += 1
        if self.keep_log is not None:
            self.keep_log.append(s)
        if self.steps > self.max_steps:
            raise Budget("more than %d simulated events" % self.max_steps)

    def fired(self, kind):
        self.stats[kind] += 1
        self.ctx.stats[kind] += 1

    # -- time ------------------------------------------------------------
    @property
    def now(self):
        # one clock for the process; with per_task_time every operation sees
        # its own (isolation runs compare an operation with itself run alone)
        return self.ctx.now if self.per_task_time else self._now

    def advance(self, dt):
        # multiples of 2**-10 s: differences of clock readings are then exact
        # and do not depend on how long the process has been running
        dt = round(dt * 1024) / 1024
        if dt > 0:
            self.total_time += dt
            self._now += dt
            self.ctx.now += dt

    def wall(self):
        p = self.ctx.profile.get("clock_step", 0.0)
        if not self.no_clock and (p or self.replaying):
            st = self.decide(
                "clk.step",
                0,
                lambda r: (
                    r.choice([-3600.0, -60.0, -5.0, -0.5, 0.5, 5.0, 60.0, 3600.0])
                    if r.random() < p
                    else 0
                ),
            )
            if st:
                self.fired("clock_step")
                self.wall_off += st
                self.event("clk.step", st)
        return _BASE_WALL + self.now + self.wall_off

    def mono(self):
        return 1000.0 + self.now

    def digest(self):
        return self.log.hexdigest()

    @contextmanager
    def active(self):
        """Everything inside runs in this world."""
        global current
        save = current
        current = self
        try:
            yield self
        finally:
            current = save


# -- cooperative threads ------------------------------------------------------
class Scheduler:
    """Real threads, parked and released one at a time.

    Which task proceeds at every switch point is a decision of the World.
    """

    def __init__(self, world, scope="sched"):
        self.w = world
        self.tasks = []
        self.lock = threading.Lock()
        self.ctx = Ctx(scope)
        self.running = None
        self.done_evt = threading.Event()
        self.switches = 0

    def spawn(self, ctx, fn):
        t = _Task(self, ctx, fn)
        self.tasks.append(t)
        return t

    def pick(self, cur):
        alive = [t for t in self.tasks if not t.finished]
        if not alive:
            return None
        names = [t.ctx.scope for t in alive]
        # default: stay on the current task if possible, else first alive
        default = cur.ctx.scope if cur in alive else names[0]
        save = self.w.ctx
        self.w.set_ctx(self.ctx)
        p = self.ctx.profile.get("switch", 0.3)
        v = self.w.decide(
            "next",
            default,
            lambda r: (r.choice(names) if r.random() < p else default),
        )
        self.w.set_ctx(save)
        if v not in names:
            v = default
        return alive[names.index(v)]

    def switch_point(self):
        cur = self.running
        if cur is None or threading.current_thread() is not cur.thread:
            return
        nxt = self.pick(cur)
        if nxt is not cur:
            self.switches += 1
            self.w.fired("task_switch")
            self.w.schedule_sig.update(nxt.ctx.scope.encode())
            cur.save_state()
            self.running = nxt
            nxt.evt.set()
            cur.evt.wait()
            cur.evt.clear()
            cur.load_state()

    def run(self):
        self.w.sched_runs += 1
        for t in self.tasks:
            t.start()
        first = self.pick(None)
        self.running = first
        first.evt.set()
        self.done_evt.wait()
        for t in self.tasks:
            t.thread.join()

    def finished(self, task):
        task.save_state()
        task.finished = True
        nxt = self.pick(task)
        self.running = nxt
        if nxt is None:
            self.done_evt.set()
        else:
            self.w.schedule_sig.update(nxt.ctx.scope.encode())
            nxt.evt.set()


class _Task:
    def __init__(self, sched, ctx, fn):
        self.sched = sched
        self.ctx = ctx
        self.fn = fn
        self.finished = False
        self.evt = threading.Event()
        self.result = None
        self.error = None
        self.rand = None
        self.nprand = None
        self.thread = threading.Thread(target=self._main, daemon=True)

    def start(self):
        self.thread.start()

    def save_state(self):
        import numpy

        self.rand = _random.getstate()
        self.nprand = numpy.random.get_state()

    def load_state(self):
        import numpy

        _random.setstate(self.rand)
        numpy.random.set_state(self.nprand)

    def _main(self):
        self.evt.wait()
        self.evt.clear()
        self.sched.w.set_ctx(self.ctx)
        try:
            self.result = self.fn()
        except BaseException as e:  # noqa
            self.error = e
        finally:
            self.sched.w.set_ctx(self.sched.ctx)
            self.sched.finished(self)
