"""The settings that a process has only one of, and that therefore belong to the program a library is used in."""
import builtins
import codecs
import decimal
import gc
import locale
import logging
import os
import random
import re
import resource
import signal
import sys
import threading
import time
import warnings

SIGNALS = [s for s in sorted(signal.valid_signals()) if s not in (signal.SIGKILL, signal.SIGSTOP)]
LIMITS = ["RLIMIT_AS", "RLIMIT_CORE", "RLIMIT_CPU", "RLIMIT_DATA", "RLIMIT_FSIZE", "RLIMIT_NOFILE", "RLIMIT_STACK"]
CODEC_ERRORS = ["strict", "ignore", "replace", "xmlcharrefreplace", "backslashreplace", "namereplace", "surrogateescape", "surrogatepass"]


def name(o):
    return "%s at %x" % (getattr(o, "__qualname__", type(o).__name__), id(o))


def names(seq):
    return [name(o) for o in seq]


def stream(f):
    return [name(f)] + [repr(getattr(f, a, None)) for a in ("encoding", "errors", "newlines", "line_buffering", "write_through")]


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


def context(c):
    return [c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp] + sorted(k.__name__ for k, v in c.traps.items() if v)


class Frozen(int):
    """Frozen objects may die, but there are more or none only if someone asks for it."""
    def __ne__(self, now):
        return now > self or (now == 0 and self > 0)


PROCESS = {
    "recursion limit": sys.getrecursionlimit,
    "thread switch interval": sys.getswitchinterval,
    "garbage collector on": gc.isenabled,
    "garbage collector thresholds": gc.get_threshold,
    "garbage collector debug flags": gc.get_debug,
    "garbage collector callbacks": lambda: names(gc.callbacks),
    "frozen objects": lambda: Frozen(gc.get_freeze_count()),
    "sys.stdout": lambda: stream(sys.stdout),
    "sys.stderr": lambda: stream(sys.stderr),
    "sys.stdin": lambda: name(sys.stdin),
    "sys.__stdout__ and sys.__stderr__": lambda: stream(sys.__stdout__) + stream(sys.__stderr__),
    "exception hooks": lambda: names([sys.excepthook, sys.unraisablehook, sys.displayhook, sys.breakpointhook, threading.excepthook]),
    "trace and profile functions of new threads": lambda: names([threading.gettrace(), threading.getprofile()]),
    "thread stack size": threading.stack_size,
    "traceback limit": lambda: getattr(sys, "tracebacklimit", None),
    "digits of an int": sys.get_int_max_str_digits,
    "bytecode writing": lambda: sys.dont_write_bytecode,
    "sys.argv": lambda: list(sys.argv),
    "sys.path": lambda: list(sys.path),
    "import hooks": lambda: names(sys.meta_path) + names(sys.path_hooks),
    "alarm clock": lambda: signal.getitimer(signal.ITIMER_REAL)[0] > 0,
    "signal handlers": lambda: [signal.getsignal(s) if isinstance(signal.getsignal(s), int) else name(signal.getsignal(s)) for s in SIGNALS],
    "interval timer": lambda: [signal.getitimer(w) for w in (signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
    "locale": lambda: locale.setlocale(locale.LC_ALL),
    "time zone": lambda: (time.tzname, time.timezone, time.altzone, time.daylight),
    "warning filters": lambda: [repr(f) for f in warnings.filters] + [name(warnings.showwarning)],
    "logging": lambda: [logging.root.level, names(logging.root.handlers), logging.root.manager.disable, logging.raiseExceptions, name(logging.getLoggerClass()),
                        name(logging.getLogRecordFactory()), name(logging.lastResort), logging.getLevelName(30)],
    "working directory": os.getcwd,
    "umask": umask,
    "environment variables": lambda: dict(os.environ),
    "resource limits": lambda: [resource.getrlimit(getattr(resource, n)) for n in LIMITS],
    "priority": lambda: os.getpriority(os.PRIO_PROCESS, 0),
    "random number generator": lambda: hash(random.getstate()),
    "text error handlers": lambda: names(map(codecs.lookup_error, CODEC_ERRORS)),
    "default decimal context": lambda: context(decimal.DefaultContext),
    "builtins": lambda: {k: id(v) for k, v in vars(builtins).items()},
}

THREAD = {
    "decimal context": lambda: context(decimal.getcontext()),
    "trace function": lambda: name(sys.gettrace()),
    "profile function": lambda: name(sys.getprofile()),
    "blocked signals": lambda: sorted(int(s) for s in signal.pthread_sigmask(signal.SIG_BLOCK, [])),
}


def take(table=PROCESS):
    return {k: fn() for k, fn in table.items()}


def changed(old, new):
    """What differs, in words; None if nothing does."""
    for k in old:
        if old[k] != new[k]:
            a, b = old[k], new[k]
            if isinstance(a, dict):
                keys = [x for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)]
                a, b = [(x, a.get(x)) for x in keys[:3]], [(x, b.get(x)) for x in keys[:3]]
            elif isinstance(a, (list, tuple)) and len(a) == len(b):
                at = [n for n, (x, y) in enumerate(zip(a, b)) if x != y][0]
                a, b = "[%d] %r" % (at, a[at]), "[%d] %r" % (at, b[at])
            return re.sub(r" at [0-9a-f]+", "", "%s: %.200r -> %.200r" % (k, a, b))
    return None


def handler(*a):
    pass


def apply(what, v):
    """The program itself changes one of its settings."""
    if what == "reclimit":
        sys.setrecursionlimit(v)
    elif what == "switch":
        sys.setswitchinterval(v)
    elif what == "gc":
        gc.enable() if v else gc.disable()
    elif what == "threshold":
        gc.set_threshold(1000000000, *v)
    elif what == "decimal":
        decimal.getcontext().prec = v
    elif what == "rounding":
        decimal.getcontext().rounding = v
    elif what == "random":
        random.seed(v)
    elif what == "signal":
        signal.signal(v[0], {"ign": signal.SIG_IGN, "dfl": signal.SIG_DFL, "own": handler}[v[1]]) if threading.current_thread() is threading.main_thread() else None
    elif what == "umask":
        os.umask(v)
    elif what == "chdir":
        os.chdir(v)
    elif what == "environ":
        os.environ[v[0]] = v[1]
    elif what == "warnings":
        warnings.simplefilter(v)
    elif what == "level":
        logging.root.setLevel(v)
    elif what == "disable":
        logging.disable(v)
    elif what == "hook":
        sys.excepthook = [sys.__excepthook__, handler][v]
    elif what == "digits":
        sys.set_int_max_str_digits(v)
    elif what == "argv":
        sys.argv = list(v)
    elif what == "fsize":
        resource.setrlimit(resource.RLIMIT_CORE, (0, resource.getrlimit(resource.RLIMIT_CORE)[1]))
    elif what == "locale":
        try:
            locale.setlocale(locale.LC_ALL, v)
        except locale.Error:
            pass


def draw(r):
    """[what, value] of a change that the program may make while others work."""
    return r.choice([
        lambda: ["reclimit", r.choice([1500, 2000, 3000, 5000])], lambda: ["switch", r.choice([0.001, 0.01, 0.05])], lambda: ["gc", r.randrange(2)],
        lambda: ["threshold", [r.randrange(1, 50), r.randrange(1, 50)]], lambda: ["decimal", r.choice([4, 9, 50])],
        lambda: ["rounding", r.choice(["ROUND_UP", "ROUND_DOWN", "ROUND_HALF_UP"])], lambda: ["random", r.randrange(1000)],
        lambda: ["umask", r.choice([0o22, 0o77, 0o27])], lambda: ["chdir", r.choice(["/", "/usr"])],
        lambda: ["environ", [r.choice(["TZ", "LANG", "PYTHONHASHSEED", "APP_MODE"]), r.choice(["UTC", "C", "0", "x"])]],
        lambda: ["warnings", r.choice(["ignore", "always", "default"])], lambda: ["level", r.choice([10, 20, 30, 40])],
        lambda: ["disable", r.choice([0, 20, 50])], lambda: ["hook", r.randrange(2)], lambda: ["digits", r.choice([0, 5000])],
        lambda: ["argv", ["prog", r.choice(["-v", "x y", ""])]], lambda: ["fsize", 0], lambda: ["locale", r.choice(["C", "C.UTF-8", "POSIX"])]])()
