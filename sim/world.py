"""The simulated world: seams that have to exist before any module of /repo is imported.

- every code object of /repo is compiled from source by our own loader and registered, so that a run can
  switch on sys.monitoring events for exactly those code objects (no change to /repo is needed);
- threading.Lock/RLock, the clocks, time.sleep, os.urandom and random are replaced by simulated ones.

The real primitives the simulator itself needs are captured first.
"""
import _thread
import datetime as _dt
import importlib.abc
import importlib.machinery
import importlib.util
import os
import random
import sys
import threading
import time
import types

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))

real_allocate = _thread.allocate_lock
real_start = _thread.start_new_thread
real_sentinel = _thread._set_sentinel
real_native = _thread.get_native_id
real_time = time.time
real_monotonic = time.monotonic
real_perf = time.perf_counter
real_sleep = time.sleep
real_urandom = os.urandom
get_ident = _thread.get_ident

codes = []            # every registered code object of /repo, in a deterministic order
code_index = {}       # id(code) -> index in codes
on_new_code = None    # set by the engine while a run is active (lazily imported modules)
import_changed = None  # the setting of the process that importing the library changed, if any
importing = 0         # > 0 while module-level code of /repo runs


def register(code):
    stack = [code]
    new = []
    while stack:
        c = stack.pop()
        if id(c) in code_index:
            continue
        code_index[id(c)] = len(codes)
        codes.append(c)
        new.append(c)
        stack.extend(k for k in reversed(c.co_consts) if isinstance(k, types.CodeType))
    if on_new_code is not None:
        on_new_code(new)


simulate_imports = False   # module-level code has scheduling points and faults of its own (C23)
unreadable = None          # how many more modules can be read, and the error after that


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        global unreadable
        path = self.get_filename(fullname)
        if unreadable is not None:
            if unreadable[0] <= 0:
                e, unreadable = unreadable[1], None
                raise OSError(e, os.strerror(e), path)
            unreadable[0] -= 1
        with open(path, "rb") as f:
            code = compile(f.read(), path, "exec", dont_inherit=True)
        register(code)
        return code

    def exec_module(self, module):
        global importing
        if simulate_imports:
            super().exec_module(module)
            return
        importing += 1
        try:
            super().exec_module(module)
        finally:
            importing -= 1


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        spec = importlib.machinery.PathFinder.find_spec(fullname, path if path is not None else [REPO])
        if spec is None or not spec.origin or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return None if spec is None or spec.origin else spec
        if not os.path.realpath(spec.origin).startswith(REPO + os.sep):
            return None
        spec.loader = Loader(fullname, spec.origin)
        spec.cached = None
        return spec


# ---------------------------------------------------------------- time
class Clock:
    def __init__(self):
        self.t = 0.0            # simulated seconds since the start of the run
        self.base = 1_700_000_000.0
        self.wall_jump = 0.0
        self.reads = 0

    def now(self):
        self.reads += 1
        return self.base + self.t + self.wall_jump

    def mono(self):
        self.reads += 1
        return 1000.0 + self.t


clock = Clock()
engine = None          # the active engine, or None


def _sleep(d):
    if engine is not None:
        engine.sleep(d)
    else:
        clock.t += max(0.0, d)


class SimDatetime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(clock.now(), tz)

    @classmethod
    def utcnow(cls):
        return cls.utcfromtimestamp(clock.now())

    @classmethod
    def today(cls):
        return cls.fromtimestamp(clock.now())


class SimDate(_dt.date):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(clock.now())


def patch_time():
    time.time = clock.now
    time.time_ns = lambda: int(clock.now() * 1e9)
    for n in ("monotonic", "perf_counter", "process_time", "thread_time"):
        setattr(time, n, clock.mono)
        setattr(time, n + "_ns", lambda: int(clock.mono() * 1e9))
    time.sleep = _sleep
    for n in ("localtime", "gmtime", "ctime"):
        f = getattr(time, n)
        setattr(time, n, (lambda f: lambda secs=None: f(clock.now() if secs is None else secs))(f))
    strftime = time.strftime
    time.strftime = lambda fmt, t=None: strftime(fmt, time.localtime() if t is None else t)
    _dt.datetime = SimDatetime
    _dt.date = SimDate


# ---------------------------------------------------------------- locks
class SimLock:
    """Non-reentrant lock. Outside a run (or for threads the simulator does not own) it just records its state."""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = engine.cur.tid if engine is not None and engine.mine() else "main"
        if engine is not None:
            engine.lock_point(self)
        while True:
            if self.count == 0 or (self.reentrant and self.owner == me):
                self.owner = me
                self.count += 1
                return True
            if not blocking or timeout == 0:
                return False
            if engine is None or not engine.mine():
                raise Deadlock("lock held by %r acquired by %r outside the simulation" % (self.owner, me))
            if not engine.block(self, timeout if timeout is not None and timeout > 0 else None):
                return False

    def release(self):
        if self.count == 0:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if engine is not None:
                engine.wake(self)

    def locked(self):
        return self.count > 0

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    acquire_lock = acquire
    release_lock = release

    # what threading.Condition asks of a lock
    def _is_owned(self):
        return self.count > 0 and self.owner == (engine.cur.tid if engine is not None and engine.mine() else "main")

    def _release_save(self):
        n, self.count, self.owner = self.count, 0, None
        if engine is not None:
            engine.wake(self)
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.count = n

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0

    def __reduce_ex__(self, protocol):        # as the real ones: neither pickled nor copied
        raise TypeError("cannot pickle '_thread.%s' object" % ("RLock" if self.reentrant else "lock"))


class SimRLock(SimLock):
    reentrant = True


class Deadlock(BaseException):
    pass


def patch_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock
    threading._allocate_lock = SimLock        # Condition, Event, Semaphore and Queue are built from these
    import queue
    queue.SimpleQueue = queue._PySimpleQueue
    import engine as E                        # threads that the code under test starts
    _thread.start_new_thread = _thread.start_new = threading._start_new_thread = E.start_new_thread
    threading._set_sentinel = E.set_sentinel
    _thread.get_ident = threading.get_ident = E.get_ident
    _thread.get_native_id = threading.get_native_id = E.get_native_id


# ---------------------------------------------------------------- randomness
_rng = random.Random(0)


def patch_random():
    os.urandom = lambda n: _rng.randbytes(n)
    random._urandom = os.urandom


# ---------------------------------------------------------------- environment variables the code under test looks at
env_keys = set()


def record_env():
    cls = type(os.environ)
    get = cls.__getitem__

    def __getitem__(self, key):
        if isinstance(key, str):
            f, n = sys._getframe(1), 0
            while f is not None and n < 4:
                if f.f_code.co_filename.startswith(REPO + os.sep):
                    env_keys.add(key)
                    break
                f, n = f.f_back, n + 1
        return get(self, key)
    cls.__getitem__ = __getitem__
    cls.__contains__ = lambda self, key: _has(self, key)


def _has(environ, key):
    try:
        environ[key]
        return True
    except KeyError:
        return False


def reset(seed):
    """Deterministic start of a run (called in the forked child)."""
    clock.t = 0.0
    clock.wall_jump = 0.0
    clock.reads = 0
    _rng.seed(seed)
    random.seed(seed)


class API:
    """The public entry points of the code under test."""


api = API()


def prepare(patch=True):
    """Everything up to the import of the code under test."""
    # dependencies first, with the real primitives
    import copy, re, math, enum, functools, io, collections, weakref, queue, itertools, string, logging  # noqa: F401,E401
    import contextlib, dataclasses, hashlib, json, uuid, tempfile, traceback, operator, types, typing    # noqa: F401,E401
    import concurrent.futures, decimal, fractions, bisect, heapq, gc, inspect, warnings, contextvars  # noqa: F401,E401
    import geographiclib.geodesic                                                                          # noqa: F401
    for m in ("accumulator", "constants", "geodesiccapability", "geodesicline", "geomath", "polygonarea"):
        try:                                    # some are imported late, from inside a computation
            importlib.import_module("geographiclib." + m)
        except ImportError:
            pass
    sys.dont_write_bytecode = True
    if patch:
        patch_time()
        patch_locks()
        patch_random()
        record_env()
        if engine is None:
            import engine as E
            E.bare()
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != REPO]
    sys.meta_path.insert(0, Finder())
    sys.path.insert(0, REPO)


NAMES = [("Tokenizer.Tokenize", "Tokenize"), ("Tokenizer.Tokens", "Tokens"), ("Tokenizer.Token", "Token"), ("F15_Parser.F15Parse", "ParseF15"),
         ("F15_Parser.ExtractedRouteSequence", "ExtractedRouteSequence"), ("F15_Parser.ExtractedRouteRecord", "ExtractedRouteRecord"),
         ("F15_Parser.F15TokenSyntaxDescriptions", "F15TokenSyntaxDefinition"), ("F15_Parser.F15TokenSyntaxDescriptions", "TokenBaseType"),
         ("F15_Parser.F15TokenSyntaxDescriptions", "TokenSubType"), ("F15_Parser.ErrorMessageDefinitions", "ErrorMessages"),
         ("Utilities.Utils", "Utils")]


def fill(a):
    for mod, cls in NAMES:
        setattr(a, cls, getattr(importlib.import_module(mod), cls))
    return a


def load(patch=True):
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        prepare(patch)
    import hostset
    before = hostset.take() if patch else None
    fill(api)
    global import_changed
    import_changed = hostset.changed(before, hostset.take()) if patch else None
    random.seed(0)
    return api
