"""The scheduler: real threads, run one at a time, switched only where the simulator decides.

Scheduling points are the interpreter's own LINE (or INSTRUCTION) events of /repo's code, writes to the
simulated output stream, contended locks, sleeps and operation boundaries. Every decision is either drawn from
the run's PRNG and recorded, or taken from a recorded list (replay).
"""
import gc
import random
import sys
import threading

import world

mon = sys.monitoring
TOOL = 3
EV = mon.events


class SimTimeout(Exception):
    """A caller's own cancellation exception (delivered asynchronously)."""


class SimStop(BaseException):
    """Raised by the simulator itself to end an operation that exceeded its step bound."""


EXC = {
    "KeyboardInterrupt": lambda: KeyboardInterrupt("simulated ctrl-c"),
    "MemoryError": lambda: MemoryError("simulated allocation failure"),
    "SystemExit": lambda: SystemExit("simulated thread shutdown"),
    "Timeout": lambda: SimTimeout("simulated cancellation"),
    "RecursionError": lambda: RecursionError("simulated stack exhaustion"),
    "GeneratorExit": lambda: GeneratorExit("simulated close"),
    "InterruptedError": lambda: InterruptedError(4, "simulated EINTR"),
    "OSError": lambda: OSError(5, "simulated I/O error"),
    "ValueError": lambda: ValueError("simulated handler error"),
    "TypeError": lambda: TypeError("simulated handler error"),
    "KeyError": lambda: KeyError("simulated handler error"),
    "IndexError": lambda: IndexError("simulated handler error"),
    "AttributeError": lambda: AttributeError("simulated handler error"),
    "StopIteration": lambda: StopIteration("simulated handler error"),
}


IDENT = 0x7E0000000000


class Task:
    def __init__(self, eng, tid, fn):
        self.eng, self.tid, self.fn = eng, tid, fn
        self.gate = world.real_allocate()
        self.gate.acquire()
        self.state = "new"         # new, ready, blocked, stalled, done
        self.wait = None
        self.wake_t = None
        self.timed_out = False
        self.quiet = 1             # > 0: harness code is running, no scheduling points
        self.ident = None
        self.ev = 0                # events since the current operation began
        self.next_at = 1 << 60     # next op-local event number at which something happens
        self.pending = []          # [(event number, fault dict)] sorted
        self.limit = 1 << 60
        self.depth_limit = None
        self.depth_fault = None
        self.prio = 0
        self.fired = []            # faults fired during the current operation
        self.died = None
        self.lib = False           # started by the code under test (or for it), not by the plan
        self.home = tid            # whose tokenisers it uses
        self.owner = tid           # the plan task on whose behalf it was started
        self.sentinel = None       # what Thread.join() waits for
        self.sim_ident = None      # what get_ident() says in this thread
        self.in_nested = 0
        self.own = None            # the settings of this thread
        self.lib_api = None        # the classes this thread has imported (C23)
        self.reporting = False
        self.last_ev = 0

    def arm(self):
        self.next_at = min([self.limit] + [n for n, _ in self.pending])

    def begin(self, faults, limit):
        self.ev = 0
        self.fired = []
        self.pending = sorted(((f["at"], f) for f in faults if f["kind"] != "stack"), key=lambda x: x[0])
        self.limit = limit
        self.arm()
        self.depth_limit = None
        for f in faults:
            if f["kind"] == "stack":
                self.depth_limit, self.depth_fault = f["depth"], f
                self.base_depth = None

    def end(self):
        self.next_at = 1 << 60
        self.pending = []
        self.depth_limit = None
        self.limit = 1 << 60


class Engine:
    def __init__(self, plan, seed):
        self.plan = plan
        self.rng = random.Random(seed)
        self.gran = plan.get("gran", "line")
        self.sched = plan.get("sched") or {"kind": "rand", "mean": 50}
        self.replay = list(plan["decisions"]) if "decisions" in plan else None
        self.replay_pos = 0
        self.decisions = []
        self.tasks = []
        self.next_tid = 0
        self.free_idents = []      # of threads that have ended
        self.cur = None
        self.steps = 0
        self.since = 0             # events since the last decision
        self.budget = 1 << 60
        self.switches = 0
        self.fault_counts = {}
        self.violations = []
        self.digest = 0
        self.host = Task(self, -1, None)      # the thread that set the run up; it runs when no plan task does
        self.host.ident = world.get_ident()
        self.hot = None
        self.hot_p = 0.0
        self.change_points = []
        self.stuck = False
        self.dead_locked = False
        self.on_deadlock = None
        self.exec_nested = None    # callback(task, op) set by the interpreter
        self.overrun = False
        self.profile = None        # {(phase, code, position): [event numbers]}
        self.phase = "parse"
        self.inflight_switches = 0

    # ------------------------------------------------------------ set-up
    def add(self, fn):
        t = Task(self, self.next_tid, fn)
        self.next_tid += 1
        if self.free_idents and self.plan.get("idents") == "reuse":
            t.sim_ident = self.free_idents.pop()
        else:
            t.sim_ident = IDENT + 4096 * self.next_tid
        self.tasks.append(t)
        return t

    def mine(self):
        return self.cur is not None and self.cur.ident == world.get_ident()

    def enter(self):
        """From here on this thread is part of the simulation."""
        self.host.ident = world.get_ident()
        self.host.state = "ready"
        self.cur = self.host
        world.engine = self

    def run(self):
        world.on_new_code = self._instrument
        self.mask = {"line": EV.LINE, "instr": EV.INSTRUCTION, "none": 0}[self.gran]
        mon.use_tool_id(TOOL, "verif-sim")
        mon.register_callback(TOOL, EV.LINE, self._on_event)
        mon.register_callback(TOOL, EV.INSTRUCTION, self._on_event)
        if self.plan.get("stack"):
            self.mask |= EV.PY_START
            mon.register_callback(TOOL, EV.PY_START, self._on_start)
        self._instrument(world.codes)
        self._init_strategy()
        for t in self.tasks:
            if not t.lib:
                t.state = "ready"
                world.real_start(self._thread_main, (t,))
        self.host.state = "hosting"
        first = self._choose_forced(None)
        self.cur = first
        self._renew_budget()
        first.gate.release()
        self.host.gate.acquire()
        world.on_new_code = None
        for c in world.codes:
            mon.set_local_events(TOOL, c, 0)
        mon.free_tool_id(TOOL)

    def _instrument(self, codes):
        for c in codes:
            mon.set_local_events(TOOL, c, self.mask)

    def _thread_main(self, t):
        t.gate.acquire()
        t.ident = world.get_ident()
        if self.plan.get("names") and not t.lib:
            threading.current_thread().name = self.plan["names"]
        try:
            t.fn(t)
        except BaseException as e:      # the interpreter catches everything it expects
            if not t.lib:
                import traceback
                self.violations.append({"cls": "harness", "detail": "".join(traceback.format_exception(e))[-3000:]})
        t.state = "done"
        t.quiet = 1
        if self.plan.get("idents") == "reuse":
            self.free_idents.append(t.sim_ident)
        if t.sentinel is not None:
            t.sentinel.owner, t.sentinel.count = None, 0
            self.wake(t.sentinel)
        self.wake(t)
        self._leave(t)

    def _leave(self, t):
        if self.host.state == "hosting" and all(x.state == "done" for x in self.tasks if not x.lib):
            self._finish()
            return
        nxt = self._choose_forced(t)
        if nxt is None:
            self._deadlock()
            self._finish()
            return
        self._hand(nxt)

    def _finish(self):
        """The plan is done (or can go no further): back to the thread that set it up."""
        h = self.host
        self.stuck = h.state == "blocked"
        h.state, h.wait, h.wake_t = "ready", None, None
        self.cur = h
        h.gate.release()

    # ------------------------------------------------------------ threads that the code under test starts
    def spawn(self, fn, quiet=0):
        """A further thread; it runs when the scheduler picks it."""
        t = self.add(lambda t: fn())
        t.lib = True
        t.quiet = quiet
        t.owner = self.cur.owner
        t.prio = self.rng.random() * 2000
        t.state = "ready"
        world.real_start(self._thread_main, (t,))
        self._count("library-thread" if not quiet else "short-lived-thread")
        return t

    def in_thread(self, fn):
        """fn() in a new thread, which is waited for."""
        out, failed = [], []

        def body():
            try:
                out.append(fn())
            except BaseException as e:
                failed.append(e)
        t = self.spawn(body, quiet=1)
        me = self.cur
        if t.state != "done":
            me.wait = t
            self._park(me, "blocked", None)
        self.tasks.remove(t)
        if failed:
            raise failed[0]
        return out[0]

    def forked(self):
        """In the child of a fork() only the calling thread goes on."""
        for x in self.tasks:
            if x is not self.cur:
                x.state = "done"
        if self.cur is not self.host:
            self.host.state = "hosting"
            self.cur.lib = False              # nothing else is left that could be waited for

    def _deadlock(self):
        self.dead_locked = True
        if self.on_deadlock is not None:
            self.on_deadlock()
        self.violations.append({"cls": "deadlock", "detail": "no thread can run; blocked: " + ", ".join(
            "T%d" % x.tid for x in self.tasks if x.state == "blocked")})

    def _hand(self, nxt):
        self.cur = nxt
        self.switches += 1
        self.digest = (self.digest * 1000003 + nxt.tid * 8191 + nxt.ev) & 0xFFFFFFFFFFFF
        nxt.gate.release()

    # ------------------------------------------------------------ strategy
    def _init_strategy(self):
        s = self.sched
        k = s["kind"]
        if k == "hot":
            self.hot = set(map(tuple, s["locs"]))
            self.hot_p = s.get("p", 0.5)
            idx = {}
            for ci, ln in self.hot:
                if ci < len(world.codes):
                    idx[(id(world.codes[ci]), ln)] = 1
            self.hot = idx
        elif k == "pct":
            order = list(range(len(self.tasks)))
            self.rng.shuffle(order)
            for t, p in zip(self.tasks, order):
                t.prio = p + 1000
            self.change_points = sorted(self.rng.randrange(1, max(2, s["len"])) for _ in range(s["d"]))

    def _renew_budget(self):
        self.since = 0
        if self.replay is not None:
            self._replay_budget()
            return
        k = self.sched["kind"]
        if k == "rand":
            m = self.sched["mean"]
            self.budget = 1 + int(self.rng.expovariate(1.0 / m)) if m > 1 else 1
        elif k == "rr":
            self.budget = self.sched["q"]
        elif k == "mix":
            m = self.rng.choice(self.sched["means"])
            self.budget = 1 + int(self.rng.expovariate(1.0 / m))
        elif k == "pct":
            while self.change_points and self.change_points[0] <= self.steps:
                self.change_points.pop(0)
            self.budget = self.change_points[0] - self.steps if self.change_points else 1 << 60
        else:      # "hot", "serial"
            self.budget = 1 << 60

    def _replay_budget(self):
        if self.replay_pos < len(self.replay) and self.replay[self.replay_pos][0] >= 0:
            self.budget = max(1, self.replay[self.replay_pos][0])
        else:
            self.budget = 1 << 60

    def _all(self):
        return self.tasks if self.host.state == "hosting" else self.tasks + [self.host]

    def _runnable(self):
        self._release_timed()
        r = [t for t in self._all() if t.state == "ready"]
        if not r:
            timed = [t for t in self._all() if t.state in ("stalled", "blocked") and t.wake_t is not None]
            if timed:
                w = min(timed, key=lambda t: (t.wake_t, t.tid))
                world.clock.t = max(world.clock.t, w.wake_t)
                self._release_timed()
                r = [t for t in self._all() if t.state == "ready"]
        return r

    def _release_timed(self):
        now = world.clock.t
        for t in self._all():
            if t.wake_t is not None and t.wake_t <= now and t.state in ("stalled", "blocked"):
                t.timed_out = t.state == "blocked"
                t.state, t.wake_t, t.wait = "ready", None, None

    def _pick(self, cands):
        k = self.sched["kind"]
        if k == "pct":
            return max(cands, key=lambda t: t.prio)
        if k == "rr":
            later = [t for t in cands if t.tid > (self.cur.tid if self.cur else -1)]
            return later[0] if later else cands[0]
        if k == "serial":
            return cands[0]
        return self.rng.choice(cands)

    def _choose_forced(self, leaving):
        """The running task cannot continue (or none runs yet)."""
        cands = [t for t in self._runnable() if t is not leaving or leaving.state == "ready"]
        if not cands:
            return None
        if self.replay is not None:
            nxt = None
            if self.replay_pos < len(self.replay) and self.replay[self.replay_pos][0] < 0:
                want = self.replay[self.replay_pos][1]
                self.replay_pos += 1
                nxt = next((t for t in cands if t.tid == want), None)
            if nxt is None:
                nxt = cands[0]
            self._renew_budget()
            self.decisions.append([-1, nxt.tid])
            return nxt
        nxt = self._pick(cands) if len(cands) > 1 else cands[0]
        self.decisions.append([-1, nxt.tid])
        self._renew_budget()
        return nxt

    def _preempt(self, t):
        """A voluntary scheduling decision inside task t."""
        gap = self.since
        if self.replay is not None:
            want = self.replay[self.replay_pos][1] if self.replay_pos < len(self.replay) else t.tid
            self.replay_pos += 1
            cands = self._runnable()
            nxt = next((x for x in cands if x.tid == want), t)
        else:
            if self.sched["kind"] == "pct":
                t.prio = self.rng.random()
            cands = self._runnable()
            others = [x for x in cands if x is not t]
            nxt = self._pick(cands if self.sched["kind"] == "pct" else (others or cands)) if cands else t
            if nxt is t:                      # nothing else can run: no decision to record
                since = self.since
                self._renew_budget()
                self.since = since
                return
        self.decisions.append([gap, nxt.tid])
        self._renew_budget()
        if nxt is not t:
            if t.ev > 0:
                self.inflight_switches += 1
            self._hand(nxt)
            t.gate.acquire()

    # ------------------------------------------------------------ events
    def _on_event(self, code, pos):
        t = self.cur
        if t is None or t.quiet or world.importing or t.ident != world.get_ident():
            return
        self.steps += 1
        self.since += 1
        t.ev += 1
        world.clock.t += 1e-6
        if self.profile is not None and not t.lib:
            self.profile.setdefault((self.phase, world.code_index[id(code)], pos), []).append(t.ev)
        if t.ev >= t.next_at:
            self._happen(t)
        if self.hot is not None and self.replay is None:
            if (id(code), pos) in self.hot and self.rng.random() < self.hot_p:
                self._preempt(t)
            return
        self.budget -= 1
        if self.budget <= 0:
            self._preempt(t)

    def _on_start(self, code, off):
        t = self.cur
        if t is None or t.quiet or t.depth_limit is None or world.importing or t.ident != world.get_ident():
            return
        f = sys._getframe(1)
        n = 0
        ci = world.code_index
        while f is not None:
            if id(f.f_code) in ci:
                n += 1
            f = f.f_back
        if n > t.depth_limit:
            fault = t.depth_fault
            self._count("stack-exhaustion")
            t.fired.append(fault)
            if not fault.get("sticky"):
                t.depth_limit = None
            raise RecursionError("maximum recursion depth exceeded (simulated)")

    def _count(self, kind, n=1):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + n

    def _happen(self, t):
        while t.pending and t.pending[0][0] <= t.ev:
            _, f = t.pending.pop(0)
            t.arm()
            t.fired.append(f)
            k = f["kind"]
            if k == "exc":
                self._count("exception:" + f["exc"])
                raise EXC[f["exc"]]()
            if k == "gc":
                self._count("gc-collection")
                gc.collect()
            elif k == "clock":
                self._count("clock-jump")
                world.clock.wall_jump += f["d"]
            elif k == "stall":
                if len(self.tasks) > 1:
                    self._count("thread-stall")
                    self._park(t, "stalled", world.clock.t + f["d"])
            elif k == "nest":
                self._count("re-entrant-call")
                t.quiet_saved = t.quiet
                self.exec_nested(t, f)
            elif k == "fork":
                self._count("fork")
                self.exec_nested(t, f)
        if t.ev >= t.limit:
            t.limit = 1 << 60
            t.arm()
            self.overrun = True
            raise SimStop("operation exceeded its step bound")

    def _park(self, t, state, wake_t):
        t.state, t.wake_t = state, wake_t
        nxt = self._choose_forced(t)
        if nxt is None:
            if t is not self.host:
                self._deadlock()
            t.state = "ready"
            if t is self.host:
                t.wait = None
                raise world.Deadlock("the only thread waits for something that nobody is left to do")
            self._finish()
            t.gate.acquire()          # never returns: the run is over
        if nxt is t:
            return
        if t.ev > 0:
            self.inflight_switches += 1
        self._hand(nxt)
        t.gate.acquire()
        if t is self.host and self.stuck:
            self.stuck = False
            raise world.Deadlock("the thread that set the run up waits for something that nobody can do")

    def point(self, t):
        """Operation boundary / stream write: a scheduling point outside the interpreter's events."""
        self.steps += 1
        self.since += 1
        world.clock.t += 1e-6
        if self.hot is not None and self.replay is None:
            if self.rng.random() < 0.3:
                self._preempt(t)
            return
        self.budget -= 1
        if self.budget <= 0:
            self._preempt(t)

    # ------------------------------------------------------------ locks and sleeping
    def lock_point(self, lock):
        if self.mine() and not self.cur.quiet and not world.importing:
            self.point(self.cur)

    def block(self, lock, timeout):
        t = self.cur
        self.waits(t, "for a lock that thread %r holds" % (lock.owner,))
        t.wait = lock
        t.timed_out = False
        self._count("lock-contention")
        self._park(t, "blocked", None if timeout is None else world.clock.t + timeout)
        return not t.timed_out

    def wake(self, lock):
        for t in self._all():
            if t.state == "blocked" and t.wait is lock:
                t.state, t.wait, t.wake_t = "ready", None, None

    def sleep(self, d):
        if not self.mine():
            world.clock.t += max(0.0, d)
            return
        t = self.cur
        self.waits(t, "for %s seconds to pass" % d)
        if any(x is not t and x.state != "done" for x in self.tasks):
            self._park(t, "stalled", world.clock.t + max(0.0, d))
        else:
            world.clock.t += max(0.0, d)

    def waits(self, t, what):
        """A call of the library waits (only C11 asks)."""
        if not t.quiet and t.ev > 0 and not t.lib and "wait" in self.plan["judge"]:
            f = sys._getframe(1)
            while f is not None:
                if "importlib._bootstrap" in f.f_code.co_filename:
                    return                    # the interpreter's own import lock
                f = f.f_back
            self.violate("wait", "a call of the library waits %s" % what)

    def violate(self, cls, detail, **kw):
        v = {"cls": cls, "detail": detail, "step": self.steps}
        v.update(kw)
        self.violations.append(v)


def bare():
    """This process does library work without a plan; threads the library starts are still the simulator's."""
    e = Engine({"judge": [], "sched": {"kind": "rand", "mean": 40}}, 1)
    e.enter()
    return e


def start_new_thread(function, args, kwargs=None):
    """Stands in for _thread.start_new_thread."""
    e = world.engine
    if e is None or not e.mine():
        return world.real_start(function, args, kwargs or {})
    return e.spawn(lambda: function(*args, **(kwargs or {}))).sim_ident


def set_sentinel():
    """Stands in for _thread._set_sentinel: a lock that is released when the thread has ended."""
    e = world.engine
    if e is None or not e.mine():
        return world.real_sentinel()
    lock = world.SimLock()
    e.cur.sentinel = lock
    return lock


def get_ident():
    """Stands in for _thread.get_ident: thread identifiers are the simulator's (never reused, or always reused)."""
    e, me = world.engine, world.get_ident()
    if e is None or e.cur is None or e.cur.ident != me or e.cur.sim_ident is None:
        return me
    return e.cur.sim_ident


def get_native_id():
    e = world.engine
    if e is None or not e.mine() or e.cur.sim_ident is None:
        return world.real_native()
    return (e.cur.sim_ident - IDENT) // 4096 + 1000000
