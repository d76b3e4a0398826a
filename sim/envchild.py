"""Run in a freshly started interpreter (C15): parses the fields it is given, under the environment its parent chose, and
writes what it observed. Reads one JSON document on stdin, writes one on stdout."""
import json
import os
import sys

REAL_OUT = os.dup(1)


def record_paths(world):
    """Which files the code under test looks for (not those of the code itself)."""
    found = set()

    def note(p):
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.fspath(p) if hasattr(p, "__fspath__") else p
        if not isinstance(p, str):
            return
        f, n = sys._getframe(2), 0
        while f is not None and n < 7:
            if f.f_code.co_filename.startswith(world.REPO + os.sep):
                found.add(os.path.abspath(p))
                return
            f, n = f.f_back, n + 1
    busy = []

    def hook(event, args):
        if event in ("open", "os.listdir", "os.scandir") and not busy and args:
            busy.append(1)
            try:
                note(args[0])
            finally:
                busy.clear()
    sys.addaudithook(hook)
    for name in ("stat", "lstat", "access", "readlink"):
        def wrap(fn):
            def wrapped(path, *a, **kw):
                if not busy:
                    busy.append(1)
                    try:
                        note(path)
                    finally:
                        busy.clear()
                return fn(path, *a, **kw)
            return wrapped
        setattr(os, name, wrap(getattr(os, name)))
    return found


def use(m, world, spec, early):
    """What this module alone can do right after it was imported."""
    import interp
    mod = sys.modules[m]
    for n in ("F15TokenSyntaxDefinition", "ErrorMessages"):
        if hasattr(mod, n) and getattr(mod, n).__module__ == m:
            setattr(world.api, n, getattr(mod, n))
            if n == "ErrorMessages":
                early["msgs"] = interp.messages()
            else:
                early["cls"] = interp.classify(spec["probes"])
                early["desc"] = interp.descriptions()


def main():
    spec = json.loads(sys.stdin.buffer.read().decode("ascii"))
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    if spec.get("switch"):
        sys.setswitchinterval(spec["switch"])
    if spec.get("gc"):
        import gc
        gc.set_threshold(*spec["gc"])
    if spec.get("gcoff"):
        import gc
        gc.disable()
    if spec.get("rlimit"):
        sys.setrecursionlimit(spec["rlimit"])
    if spec.get("prec"):
        import decimal
        decimal.getcontext().prec = spec["prec"]
    if spec.get("digits"):
        sys.set_int_max_str_digits(spec["digits"])
    if spec.get("locale") is not None:
        import locale
        try:
            locale.setlocale(locale.LC_ALL, spec["locale"])
        except locale.Error:
            pass
    if spec.get("umask") is not None:
        os.umask(spec["umask"])
    import world
    world.clock.base = spec.get("epoch", 1.7e9)
    paths = record_paths(world) if spec.get("record") else None
    sys.path.insert(0, world.REPO)
    early = {}
    for m in spec.get("imports", []):          # some other order than the usual one
        try:
            __import__(m)
        except ImportError:
            if m.split(".")[0] in spec.get("must", []):
                raise
            continue
        if spec.get("early"):                  # a program that needs no more than this module
            use(m, world, spec, early)
    world.load(patch=spec.get("patch", True))
    world.reset(spec.get("rng", 0))
    import interp
    out = []
    if spec.get("tty"):
        import io

        class Terminal(io.StringIO):
            """Looks like a terminal."""
            def isatty(self):
                return True
        interp.stream = Terminal
        interp.both = True
    if spec.get("nostd"):                      # a service without a console
        sys.stdin = sys.stdout = sys.stderr = sys.__stdin__ = sys.__stdout__ = sys.__stderr__ = None
    if spec.get("argv") is not None:
        sys.argv[1:] = spec["argv"]

    def work():
        shared = world.api.ParseF15()
        times = spec.get("times") or [world.clock.base]
        for n, f in enumerate(spec["fields"]):
            world.clock.base = times[n % len(times)]
            out.append(interp.alone(f, shared if spec.get("shared") else None))
        out.append({"cls": interp.classify(spec["probes"]), "msgs": interp.messages(), "desc": interp.descriptions(),
                    "utils": [[k, a, interp.outcome(lambda: (lambda v: [float(x) for x in v] if isinstance(v, list) else v)(
                        interp.models_call(k, a)))] for k, a in spec.get("utils", [])],
                    "early": early, "paths": sorted(paths or ()), "env_keys": sorted(world.env_keys)})
    if spec.get("thread") and world.engine is not None:
        world.engine.in_thread(work)
    elif spec.get("thread"):
        import threading
        th = threading.Thread(target=work)
        th.start()
        th.join()
    else:
        work()
    os.write(REAL_OUT, json.dumps(out).encode("ascii"))


main()
