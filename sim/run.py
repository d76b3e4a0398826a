"""Command line of the checks: check PROP | replay FILE | selftest [PROP...] | profile-reach PROP."""
import hashlib
import json
import mmap
import os
import pickle
import random
import select
import shutil
import struct
import subprocess
import sys
import tempfile
import time as _time

now = _time.monotonic           # captured before the simulated clock is installed
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import world                                                                  # noqa: E402

PROPS = ["C%02d" % n for n in range(1, 25)]
# runs of one check: (quick, thorough)
RUNS = {"C01": (7500, 60000), "C02": (9000, 200000), "C03": (8000, 90000), "C04": (8000, 100000), "C05": (9000, 200000),
        "C06": (3000, 25000), "C07": (7000, 70000), "C08": (12000, 250000), "C09": (12000, 250000), "C10": (9000, 140000),
        "C11": (4500, 60000), "C12": (6000, 70000), "C13": (10000, 220000), "C14": (4000, 60000), "C15": (400, 6000),
        "C16": (240, 4000), "C17": (4500, 60000), "C18": (8000, 80000), "C19": (5000, 60000), "C20": (5500, 40000),
        "C21": (6000, 60000), "C22": (5000, 50000),
        "C23": (5000, 50000), "C24": (5000, 50000)}
GRANS = {"C15": [], "C23": [], "C08": [("line", False)], "C13": [("line", False)]}
WALL = {"quick": 420, "thorough": 3600}

LEVEL = "exploration"
REAL = ["Tokenizer (Tokenize, Tokens, Token)", "F15_Parser (ParseF15, ExtractedRouteSequence, ExtractedRouteRecord, "
        "F15TokenSyntaxDefinition, ErrorMessages)", "Utilities.Utils", "CPython 3.12 interpreter and standard library, "
        "including io.TextIOWrapper/BufferedWriter", "geographiclib", "operating system threads and fork()"]
STUB = ["thread scheduler (one thread runs at a time, the simulator picks which, at every line or bytecode of the library)",
        "threading.Lock/RLock, SimpleQueue, threads started by the library, thread identifiers", "time.*, datetime.now, time.sleep", "os.urandom and random seeding", "output device below BufferedWriter",
        "asynchronous exceptions, allocation failures and stack depth (injected; refused allocations by CPython's own allocator hooks)"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode("utf-8", "surrogatepass"))
    return h.hexdigest()[:16]


# ------------------------------------------------------------------------------------------------ executing one plan
class Bases:
    """What each field gives alone, computed in pristine children."""

    def __init__(self, ctx=None):
        import ctx as C
        self.alone = C.Ctx._alone
        self.ctx = ctx
        self.cache = {}

    def get(self, f):
        k = (f["t"], f["w"])
        if f.get("e"):
            k += (repr(f["e"]),)
        elif self.ctx is not None and k in self.ctx.index:
            return self.ctx.base[self.ctx.index[k]]
        if len(self.cache) > 5000:
            self.cache.clear()
        if k not in self.cache:
            self.cache[k] = self.alone(f)
        return self.cache[k]

    def known(self, f):
        k = (f["t"], f["w"])
        if self.ctx is not None and k in self.ctx.index:
            return self.ctx.base[self.ctx.index[k]]
        return {}


TOKEN_ONLY = {"tok", "recheck"}


def needs_bases(plan):
    return not plan.get("nobase") and any(o["op"] not in TOKEN_ONLY for ops in plan.get("tasks", ()) for o in ops)


def fresh_facts(plan, facts):
    """Things a plan compares against that do not depend on its fields."""
    plan = dict(plan)
    if plan.get("probes") == "ctx":
        plan["probes"] = facts["probes"]
    plan["_desc"], plan["_msgs"], plan["_main"] = facts["desc"], facts["msgs"], facts["main"]
    if plan.get("probes") is not None:
        plan["_cls"] = facts["cls"]
    return plan


def compute_facts(probes):
    import interp
    f = {"probes": probes}
    for k, fn in (("desc", interp.descriptions), ("msgs", interp.messages), ("cls", lambda: interp.classify(probes)),
                  ("main", lambda: interp.alone(interp.SAMPLE).get("print"))):
        st, v = interp.in_child(fn)
        if st != "ok":
            raise SystemExit("cannot compute %s in a fresh process: %s" % (k, v))
        f[k] = v
    return f


def execute(plan, bases, facts):
    """Run one plan in a pristine forked child. Returns (status, result)."""
    import interp
    if plan.get("runner") == "env":
        return run_env(plan, bases, facts)
    if plan.get("runner") == "fork-after-import":
        return fork_after_import(plan)
    if plan.get("runner") == "script":
        return run_script(plan, facts)
    if needs_bases(plan):
        b = {i: bases.get(f) for i, f in enumerate(plan["fields"])}
    else:
        b = {i: {} for i in range(len(plan["fields"]))}
    full = fresh_facts(plan, facts)
    cpu = 150 if "leak" in plan["judge"] or any(o["op"] == "mega" for t in plan["tasks"] for o in t) else 25
    if plan.get("imports"):
        st, v = in_unloaded(full, b, cpu)
    else:
        st, v = interp.in_child(lambda: slim(interp.Interp(full, b).run()), cpu=cpu)
    if st in ("cpu", "blocked"):
        return "ok", {"violations": [{"cls": "progress", "detail": v if st == "blocked" else "a call of the library never finished: %d s of CPU time used" % cpu}],
                      "digest": 0, "log": 0, "steps": 0, "switches": 0, "inflight": 0, "faults": {}, "stats": {}, "time": 0.0,
                      "decisions": None, "hang": True}
    if st == "died" and v.endswith((" 6", " 11", " 134", " 139")) and any(o["op"] == "starve" for t in plan["tasks"] for o in t):
        # the library is Python only: it was the interpreter that could not do without the memory it was refused
        return "ok", {"violations": [], "digest": 0, "log": 0, "steps": 0, "switches": 0, "inflight": 0, "time": 0.0, "decisions": None,
                      "faults": {"interpreter-crash-without-memory": 1}, "stats": {}}
    return st, v


def slim(r):
    r.pop("profile", None)
    return r


# ------------------------------------------------------------------------------------------------ processes without the library
UNLOADED = []                  # (write, read) ends of processes that were set aside before the library was imported
slot = 0                       # which of them this worker uses


def set_aside(n):
    """n processes in which everything is prepared but the library is not imported yet (C23)."""
    import interp
    world.prepare()
    for _ in range(n):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        if os.fork() == 0:
            try:
                os.close(w1), os.close(r2)
                for w, r in UNLOADED:
                    os.close(w), os.close(r)
                while True:
                    full, b, cpu = pickle.loads(interp.receive(r1, struct.unpack("q", interp.receive(r1, 8))[0]))
                    data = pickle.dumps(interp.in_child(lambda: slim(interp.Interp(full, b).run()), cpu=cpu))
                    interp.send(w2, struct.pack("q", len(data)) + data)
            except EOFError:
                pass
            finally:
                os._exit(0)
        os.close(r1), os.close(w2)
        UNLOADED.append((w1, r2))


def in_unloaded(full, b, cpu):
    import interp
    w, r = UNLOADED[slot]
    data = pickle.dumps((full, b, cpu))
    interp.send(w, struct.pack("q", len(data)) + data)
    return pickle.loads(interp.receive(r, struct.unpack("q", interp.receive(r, 8))[0]))


def run_script(plan, facts):
    """C14: the example program started the way a user does, its standard output failing as an operating system makes it fail."""
    import resource
    import signal
    out, n = plan["out"]["kind"], plan["out"].get("n")
    env = {"PATH": "/usr/bin:/bin", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent/pyc"}
    env.update(plan["env"])
    res = {"violations": [], "digest": 0, "log": 0, "steps": 0, "switches": 0, "inflight": 0, "faults": {}, "stats": {"reports": 1}, "time": 0.0,
           "decisions": None}
    if out != "pipe":
        res["faults"]["process-output-" + out] = 1
    want = facts["main"].encode("ascii")

    def limits():
        resource.setrlimit(resource.RLIMIT_CPU, (60, 62))
        if out == "limit":
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
    top = tempfile.mkdtemp(prefix="dst-main-")
    got = None
    try:
        if out == "pipe":
            dst = subprocess.PIPE
        elif out == "closed":
            r, dst = os.pipe()
            os.close(r)
        elif out == "full":
            dst = os.open("/dev/full", os.O_WRONLY)
        else:
            dst = os.open(os.path.join(top, "report"), os.O_WRONLY | os.O_CREAT, 0o600)
        try:
            p = subprocess.run([sys.executable] + plan["flags"] + [os.path.join(world.REPO, "main.py")] + plan["argv"], stdin=subprocess.DEVNULL, stdout=dst,
                               stderr=subprocess.PIPE, env=env, cwd=world.REPO if plan["cwd"] == "repo" else top, preexec_fn=limits, timeout=300)
        except subprocess.TimeoutExpired:
            return "died", "main.py did not end within 300 s"
        finally:
            if out != "pipe":
                os.close(dst)
        if out == "pipe":
            got = p.stdout
        elif out == "limit":
            got = open(os.path.join(top, "report"), "rb").read()
    finally:
        shutil.rmtree(top, ignore_errors=True)
    err = p.stderr.decode("utf-8", "replace")

    def bad(cls, detail):
        res["violations"].append({"cls": cls, "op": None, "detail": "main.py started as a program %s %s, output %s: %s" % (
            plan["flags"], plan["argv"], plan["out"], detail)})
    if out == "pipe" or out == "limit" and n >= len(want):
        if p.returncode != 0 or got != want:
            import interp
            bad("view", "ended with %d %s, printed %s, the report is %s" % ((p.returncode, err[-300:]) + interp.diff(got.decode("ascii", "replace"), facts["main"])))
    else:
        if p.returncode <= 0 or "Error" not in err:
            sig = " (signal %s)" % signal.Signals(-p.returncode).name if p.returncode < 0 else ""
            bad("stream-silent", "its output failed, yet it ended with %d%s without an exception: %r" % (p.returncode, sig, err[-300:]))
        if got is not None and not want.startswith(got):
            bad("stream-prefix", "it wrote something else than a prefix of the report")
    res["log"] = int(sha(p.returncode, got), 16) & 0xFFFFFFFFFFFF
    return "ok", res


def fork_after_import(plan):
    """C20: import, fork, parse in the child - where a fresh interpreter parses the same fields."""
    import interp
    env = {"PATH": "/usr/bin:/bin", "VERIF_REPO": world.REPO, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent/pyc"}
    p = subprocess.run([sys.executable, os.path.join(HERE, "envchild.py")], input=json.dumps({"fields": plan["fields"], "probes": []}).encode("ascii"),
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd="/", timeout=300)
    res = {"violations": [], "digest": 0, "log": 0, "steps": 0, "switches": 0, "inflight": 0, "faults": {"fork": 1}, "stats": {}, "time": 0.0,
           "decisions": None}
    if p.returncode == 0:
        for f, want in zip(plan["fields"], json.loads(p.stdout.decode("ascii"))):
            st, v = interp.in_child(lambda: interp.alone(f))
            if "failed" not in want and (st != "ok" or "failed" in v):
                res["violations"].append({"cls": "fork", "op": None, "detail": "a child forked right after the import cannot parse %r (%s), a fresh process can" % (
                    f["t"], v.strip().split("\n")[-1] if st != "ok" else v["failed"])})
    return "ok", res


LOCALES = ["de_DE.UTF-8", "tr_TR.UTF-8", "hi_IN.UTF-8", "fa_IR.UTF-8", "ja_JP.EUC-JP", "tr_TR.ISO-8859-9", "ru_RU.KOI8-R"]
locpath = None                 # scratch folder of compiled locales, made on demand, removed at the end


def make_locales(names=LOCALES):
    global locpath
    if locpath is None:
        locpath = tempfile.mkdtemp(prefix="verif-locales-")
        ps = []
        for n in names:
            lang, _, charset = n.partition(".")
            try:
                ps.append(subprocess.Popen(["localedef", "-i", lang, "-f", charset, os.path.join(locpath, n)], stdin=subprocess.DEVNULL,
                                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
            except OSError:
                pass            # not installed: these locales then fall back to C in the child
        for p in ps:
            p.wait()


def drop_locales():
    if locpath is not None:
        shutil.rmtree(locpath, ignore_errors=True)


def run_env(plan, bases, facts):
    """C15: a freshly started interpreter with the plan's environment, compared with this one."""
    env = {"PATH": "/usr/bin:/bin", "VERIF_REPO": world.REPO, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent/pyc"}
    env.update(plan["env"])
    if any(v in LOCALES for v in plan["env"].values()):
        make_locales()
        env["LOCPATH"] = locpath
    spec = dict(plan["spec"], fields=plan["fields"])
    if plan.get("files") is not None:
        return with_files(plan, bases, facts, env, spec)
    return env_run(plan, bases, facts, env, spec)


def with_files(plan, bases, facts, env, spec):
    """In a working directory, home and temporary directory of its own, holding what the plan says."""
    top = tempfile.mkdtemp(prefix="dst-env-")
    try:
        for d in ROOTS:
            os.mkdir(os.path.join(top, d))
        for root, rel, content in plan["files"]:
            path = os.path.normpath(os.path.join(top, root, rel))
            if not path.startswith(top + os.sep):
                continue
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if os.path.isdir(path):
                path = os.path.join(path, "AAA.txt")
            with open(path, "w") as f:
                f.write(content)
        env = dict(env, HOME=os.path.join(top, "home"), TMPDIR=os.path.join(top, "tmp"))
        return env_run(dict(plan, cwd=os.path.join(top, "cwd")), bases, facts, env, spec)
    finally:
        shutil.rmtree(top, ignore_errors=True)


ROOTS = ("cwd", "home", "tmp")


def env_run(plan, bases, facts, env, spec):
    cwd = world.REPO if plan["cwd"] == "repo" else HERE if plan["cwd"].startswith("/verif") else plan["cwd"]

    def limits():
        import resource
        resource.setrlimit(resource.RLIMIT_CPU, (60, 62))
        if plan.get("nofile"):
            resource.setrlimit(resource.RLIMIT_NOFILE, (plan["nofile"], plan["nofile"]))
    res = {"violations": [], "digest": 0, "log": 0, "steps": 0, "switches": 0, "inflight": 0, "faults": {"environment-change":
           len(plan["env"]) + len(plan["flags"]) + len(plan["spec"]) - 4}, "stats": {"jobs": len(plan["fields"])}, "time": 0.0, "decisions": None}

    def bad(detail):
        res["violations"].append({"cls": "env", "detail": detail, "op": None})
        return "ok", res
    try:
        p = subprocess.run([sys.executable] + plan["flags"] + [os.path.join(HERE, "envchild.py")], input=json.dumps(spec).encode("ascii"),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, preexec_fn=limits, timeout=300)
    except subprocess.TimeoutExpired:
        return "died", "interpreter with another environment did not end within 300 s"
    if p.returncode != 0:
        err = p.stderr.decode("utf-8", "replace")[-1500:]
        if world.REPO + os.sep in err or p.returncode == -24:
            return bad("a freshly started interpreter fails: %s" % err)
        return "died", err
    out = json.loads(p.stdout.decode("ascii"))
    norm = lambda x: json.loads(json.dumps(x))                # noqa: E731
    import interp
    n = 0
    for f, got in zip(plan["fields"], out):
        base = bases.get(f)
        if "failed" in base and "failed" in got:
            continue
        want = norm(base)
        for k in sorted(set(got) | set(want)):
            n += 1
            if got.get(k) != want.get(k):
                bad("field %r: %s is %s, in the reference environment %s" % ((f["t"][:160], k) + interp.diff(got.get(k), want.get(k))))
                break
        if res["violations"]:
            break
    last = out[-1]
    if not res["violations"]:
        for k, want in (("cls", facts["cls"] if spec["probes"] == facts["probes"] else None), ("msgs", facts["msgs"]), ("desc", facts["desc"])):
            if want is not None and last[k] != norm(want):
                bad("%s is %s, in the reference environment %s" % ((k,) + interp.diff(last[k], norm(want))))
    for k, v in last["early"].items():
        if not res["violations"] and (k != "cls" or spec["probes"] == facts["probes"]) and v != norm(facts[k]):
            bad("%s, when nothing but its own module was imported, is %s, in the reference environment %s" % ((k,) + interp.diff(v, norm(facts[k]))))
    if not res["violations"]:
        calls = spec.get("utils", [])
        st, want = interp.in_child(lambda: [[k, a, interp.outcome(lambda: (lambda v: [float(x) for x in v] if isinstance(v, list) else v)(
            interp.models_call(k, a)))] for k, a in calls])
        if st == "ok" and norm(want) != last["utils"]:
            bad("helper results are %s, in the reference environment %s" % interp.diff(last["utils"], norm(want)))
    res["stats"]["compared"] = n
    res["log"] = int(sha(out), 16) & 0xFFFFFFFFFFFF
    return "ok", res


def looked_at(fs):
    """The environment variables and files the code under test looks at, at import or while it works: (names, [(root, path)])."""
    top = tempfile.mkdtemp(prefix="dst-env-")
    try:
        for d in ROOTS:
            os.mkdir(os.path.join(top, d))
        top = os.path.realpath(top)
        env = {"PATH": "/usr/bin:/bin", "VERIF_REPO": world.REPO, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent/pyc",
               "HOME": os.path.join(top, "home"), "TMPDIR": os.path.join(top, "tmp")}
        spec = {"record": True, "probes": [], "fields": fs, "imports": ["F15_Parser.F15Parse"]}
        p = subprocess.run([sys.executable, os.path.join(HERE, "envchild.py")], input=json.dumps(spec).encode("ascii"), stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, env=env, cwd=os.path.join(top, "cwd"), timeout=300)
        if p.returncode != 0:
            return [], []
        last = json.loads(p.stdout.decode("ascii"))[-1]
        paths = []
        for path in last["paths"]:
            for d in ROOTS:
                if path.startswith(os.path.join(top, d) + os.sep):
                    paths.append([d, path[len(os.path.join(top, d)) + 1:]])
        return last["env_keys"], paths
    finally:
        shutil.rmtree(top, ignore_errors=True)


def own(plan, res):
    """Violations that count for this plan."""
    return [v for v in res["violations"] if v["cls"] != "harness"]


# ------------------------------------------------------------------------------------------------ known findings
def known_findings():
    path = os.path.join(VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.strip():
                    out.append(json.loads(line))
    return out


def matches(k, prop, v):
    m = k.get("match")
    if k.get("status") != "open" or k["property"] != prop or not m:
        return False
    if m.get("cls") != v["cls"] or ("exc" in m and m["exc"] != v.get("exc")):
        return False
    return v.get("ntok", 0) >= m.get("min_tokens", 0)


# ------------------------------------------------------------------------------------------------ one check
class Check:
    def __init__(self, prop, tier, seed, runs=None, workers=None):
        import ctx as C
        import props
        self.prop, self.tier, self.seed = prop, tier, seed
        self.workers = workers or min(8, os.cpu_count() or 1)
        self.t0 = now()
        self.ctx = C.Ctx(seed)
        self.ctx.probes = props.probes(random.Random("probes:%s" % seed), self.ctx)
        self.facts = compute_facts(self.ctx.probes)
        self.ctx.env_keys, self.ctx.env_paths = [], []
        if prop == "C15":
            make_locales()
            self.ctx.env_keys, self.ctx.env_paths = looked_at(self.ctx.fields[:self.ctx.ncorpus])
        self.bases = Bases(self.ctx)
        for g, rep in GRANS.get(prop, [("line", False), ("instr", False), ("line", True), ("instr", True)]):
            if rep and prop not in ("C03", "C10", "C12", "C14", "C21"):
                continue
            self.ctx.profiles(g, 60 if g == "instr" else None, rep)
        self.gen = props.GEN[prop]
        self.n = runs or RUNS[prop][1 if tier == "thorough" else 0]
        self.t_setup = now() - self.t0

    def plan(self, i):
        r = random.Random("%s:%s:%d" % (self.seed, self.prop, i))
        return self.gen(r, self.ctx, i)

    def one(self, i):
        plan = self.plan(i)
        st, res = execute(plan, self.bases, self.facts)
        if st != "ok":
            return {"i": i, "st": st, "err": res}
        bad = [v for v in res["violations"] if v["cls"] == "harness"]
        if bad and not own(plan, res):
            return {"i": i, "st": "harness", "err": bad[0]["detail"]}
        out = {"i": i, "st": "ok", "key": sha({k: v for k, v in plan.items() if k != "seed"}), "log": res["log"],
               "inter": (res["digest"], len(plan.get("tasks", ()))), "steps": res["steps"], "switches": res["switches"],
               "inflight": res["inflight"], "faults": res["faults"], "stats": res["stats"], "time": res["time"],
               "nt": bool(res["inflight"] or res["faults"] or res["stats"].get("compared", 0) > 1),
               "gran": plan.get("gran", "process"), "sched": plan.get("sched", {}).get("kind", "process"), "tasks": len(plan.get("tasks", ()))}
        v = own(plan, res)
        if v:
            out["violation"] = v[0]
            out["decisions"] = res["decisions"]
        return out

    def run(self, deadline):
        """Runs 0..n-1 over forked workers, stopping at the first violation (lowest run number)."""
        shm = mmap.mmap(-1, 8)
        shm[:8] = struct.pack("q", self.n)
        pipes = {}
        pids = []
        for w in range(self.workers):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    global slot
                    slot = w
                    for x in pipes:
                        os.close(x)
                    os.close(r)
                    batch = []
                    for i in range(w, self.n, self.workers):
                        if i >= struct.unpack("q", shm[:8])[0] or now() > deadline:
                            break
                        out = self.one(i)
                        batch.append(out)
                        if out["st"] != "ok" or "violation" in out:
                            if i < struct.unpack("q", shm[:8])[0]:
                                shm[:8] = struct.pack("q", i)
                        if len(batch) >= 40 or "violation" in out:
                            self.send(wr, batch)
                            batch = []
                    self.send(wr, batch)
                    code = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(wr)
            pipes[r] = b""
            pids.append(pid)
        outs = []
        while pipes:
            ready, _, _ = select.select(list(pipes), [], [])
            for r in ready:
                data = os.read(r, 1 << 16)
                if not data:
                    os.close(r)
                    del pipes[r]
                    continue
                buf = pipes[r] + data
                while len(buf) >= 8:
                    n = struct.unpack("q", buf[:8])[0]
                    if len(buf) < 8 + n:
                        break
                    outs.extend(pickle.loads(buf[8:8 + n]))
                    buf = buf[8 + n:]
                pipes[r] = buf
        ok = True
        for p in pids:
            _, st = os.waitpid(p, 0)
            ok = ok and st == 0
        if not ok:
            raise SystemExit("a worker of the check failed")
        return sorted(outs, key=lambda o: o["i"])

    @staticmethod
    def send(fd, batch):
        data = pickle.dumps(batch)
        data = struct.pack("q", len(data)) + data
        while data:
            data = data[os.write(fd, data):]


def baseline_findings(chk):
    """C11 and C10 also judge what a field gives when it is the only work of a process."""
    out = []
    for i, b in enumerate(chk.ctx.base):
        f = chk.ctx.fields[i]
        if chk.prop == "C11":
            if b.get("status") == "cpu":
                out.append((f, {"cls": "progress", "detail": "parsing alone never finished: field %r" % f["t"][:300]}))
            elif "ret" in b and b["ret"][0] == "exc":
                n = len(b["tok"])
                out.append((f, {"cls": "baseline", "detail": "parse_f15() raised %s for a field of %d tokens" % (b["ret"][1], n),
                                "exc": b["ret"][1], "ntok": n}))
        if chk.prop == "C10" and "ret" in b and b["ret"][0] == "ret":
            if "failed" in b or b.get("xml", ("ret",))[0] == "exc":
                out.append((f, {"cls": "view", "detail": "reporting a finished route failed alone: %s" % (b.get("failed") or b["xml"],)}))
            elif "again" in b:
                out.append((f, {"cls": "view-mut", "detail": "reading the route changed it"}))
    return out


def recursion_probe(chk):
    """C11: a field of a few hundred tokens, alone, with the interpreter's default recursion limit."""
    out = []
    for n in (300, 600, 1200):
        f = {"t": "N0450F350 " + " ".join(["00N000E"] * (n - 1)), "w": " \n\t\r/"}
        b = chk.bases.get(f)
        if "ret" in b and b["ret"][0] == "exc":
            out.append((f, {"cls": "baseline", "detail": "parse_f15() raised %s for a field of %d tokens" % (b["ret"][1], n),
                            "exc": b["ret"][1], "ntok": n}))
    return out


def field_plan(f, judge):
    return {"seed": 1, "gran": "none", "fields": [f], "judge": judge, "sched": {"kind": "serial"},
            "tasks": [[{"op": "job", "id": 1, "f": 0, "faults": []}, {"op": "report", "id": 2, "of": 1, "what": "xml"},
                       {"op": "report", "id": 3, "of": 1, "what": "print"}]], "final": False}


def check(prop, tier, seed, runs=None, workers=None):
    try:
        chk = Check(prop, tier, seed, runs, workers)
    except SystemExit:
        if prop != "C20":
            raise
        import interp
        plan = {"runner": "fork-after-import", "judge": ["fork"], "seed": 1, "fields": [interp.SAMPLE]}
        found = fork_after_import(plan)[1]["violations"]
        if not found:
            raise
        path = write_replay(prop, seed, -1, plan, found[0])
        print("[fork] " + found[0]["detail"])
        print("replay in a fresh process: %s" % ("reproduced" if confirm(path) else "NOT reproduced"))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    bad_share = len(chk.ctx.bad_base) / len(chk.ctx.fields)
    findings = known_findings()
    pre = baseline_findings(chk)
    if prop == "C11":
        pre += recursion_probe(chk)
    known_seen = {}
    fresh = []
    for f, v in pre:
        k = next((k for k in findings if matches(k, prop, v)), None)
        if k is not None:
            known_seen.setdefault(k["id"], (k, v))
        else:
            fresh.append((f, v))
    viol = None
    outs = []
    if fresh:
        f, v = min(fresh, key=lambda x: len(x[0]["t"]))
        if v["cls"] == "baseline":
            plan = field_plan(f, ["baseline"])
        else:
            plan = field_plan(f, ["view", "view-mut"])
        plan["alone"] = True
        viol = (plan, v, -1)
    else:
        if bad_share > 0.5:
            print("error: %d of %d fields cannot be processed even alone, e.g. %s" % (
                len(chk.ctx.bad_base), len(chk.ctx.fields), chk.ctx.base[chk.ctx.bad_base[0]]))
            if prop != "C11":
                return 2
        deadline = now() + WALL[tier]
        t_run = now()
        outs = chk.run(deadline)
        t_run = now() - t_run
        errs = [o for o in outs if o["st"] != "ok"]
        hits = [o for o in outs if "violation" in o]
        if hits:
            o = hits[0]
            plan = dict(chk.plan(o["i"]))
            if o["decisions"] is not None:
                plan["decisions"] = o["decisions"]
            viol = (plan, o["violation"], o["i"])
        elif errs:
            print("error: run %d of seed %s: %s: %s" % (errs[0]["i"], seed, errs[0]["st"], errs[0]["err"]))
            return 2
    for k, v in known_seen.values():
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k["what"], v["detail"]))
    rc = 0
    if viol:
        rc = 1
        plan, v, i = viol
        import minimise
        if plan.get("probes") == "ctx":
            plan["probes"] = chk.facts["probes"]
        mplan, mv = minimise.minimise(chk, plan, v, now, budget=25.0)
        path = write_replay(prop, seed, i, mplan, mv)
        conf = confirm(path)
        if not conf and mplan is not plan:
            path2 = write_replay(prop, seed, i, plan, v)
            conf = confirm(path2)
        print("run %d of seed %s: [%s] %s" % (i, seed, mv["cls"], mv["detail"][:1500]))
        print("minimised: " + minimise.describe(mplan))
        print("replay in a fresh process: %s" % ("reproduced" if conf else "NOT reproduced"))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    else:
        short = len(outs) < chk.n
        print("%s held on %d simulated runs%s" % (prop, len(outs), " (time cap reached before %d)" % chk.n if short else ""))
    evidence(chk, outs, 1 if viol else 0, known_seen, now() - chk.t0)
    return rc


def write_replay(prop, seed, i, plan, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (prop, seed, i if i >= 0 else "alone"))
    with open(path, "w") as f:
        json.dump({"property": prop, "verif_seed": seed, "run": i, "violation": v, "plan": plan}, f, indent=1)
    return path


def confirm(path):
    p = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300,
                       env=dict(os.environ))
    return p.returncode == 1 and b"VIOLATION property=" in p.stdout


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    plan, want = doc["plan"], doc["violation"]
    import props
    probes = plan.get("probes")
    if not isinstance(probes, list):
        probes = plan.get("spec", {}).get("probes") or ["VFR"]
    bases = Bases()
    facts = compute_facts(probes) if plan.get("runner") != "fork-after-import" else None
    if plan.get("alone") and want["cls"] == "progress":
        b = bases.get(plan["fields"][0])
        got = [want] if b.get("status") == "cpu" else []
    else:
        st, res = execute(plan, bases, facts)
        if st != "ok":
            print("error: %s: %s" % (st, res))
            return 2
        got = [v for v in own(plan, res) if v["cls"] == want["cls"]]
    if got:
        print("[%s] %s" % (got[0]["cls"], got[0]["detail"][:3000]))
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1
    print("the replay file no longer shows a violation")
    return 0


# ------------------------------------------------------------------------------------------------ evidence
def evidence(chk, outs, violations, known, wall):
    faults, kinds, stats, grans, scheds = {}, {}, {}, {}, {}
    steps = switches = inflight = 0
    simtime = 0.0
    keys, inter, logs = set(), set(), set()
    for o in outs:
        if o["st"] != "ok":
            continue
        for k, n in o["faults"].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in o["stats"].items():
            stats[k] = stats.get(k, 0) + n
        grans[o["gran"]] = grans.get(o["gran"], 0) + 1
        scheds[o["sched"]] = scheds.get(o["sched"], 0) + 1
        steps += o["steps"]
        switches += o["switches"]
        inflight += o["inflight"]
        simtime += o["time"]
        if o["nt"]:
            keys.add((o["key"], o["log"], o["inter"][0]))
        if o["tasks"] > 1:
            inter.add(o["inter"])
        logs.add(o["log"])
    samples = []
    for i in ([0, len(outs) // 2] if outs else []):
        p = dict(chk.plan(i))
        samples.append(json.loads(json.dumps(trim(p))))
    rate = len(outs) / wall * 3600 if wall else 0
    cov = {
        "evaluations": len(outs),
        "distinct_nontrivial": len(keys),
        "rule": "One evaluation is one simulated run: a plan drawn from random.Random('VERIF_SEED:property:run'), executed in its own freshly "
                "forked pristine process under the simulator's scheduler. A run counts as non-trivial if at least one thread was switched out in the "
                "middle of a library call, or a fault fired inside one, or more than one library result was compared with its reference; two runs "
                "are the same if plan, schedule digest and operation log agree.",
        "samples": samples or [{"note": "the violation showed before any run was needed"}],
        "runs_per_hour": round(rate), "seeds_per_hour": round(rate),
        "seed_note": "every run has its own seed, derived from VERIF_SEED; repeating it repeats the run exactly",
        "simulated_steps": steps, "simulated_seconds": round(simtime, 3),
        "thread_switches": switches, "switches_inside_a_call": inflight,
        "faults_fired": dict(sorted(faults.items())),
        "distinct_interleavings": len(inter),
        "interleaving_measure": "distinct (switch target, position) sequences among runs with more than one thread",
        "distinct_operation_logs": len(logs),
        "operations": stats, "granularity": grans, "schedulers": scheds,
        "fields_in_universe": len(chk.ctx.fields), "fields_unusable_alone": len(chk.ctx.bad_base),
        "real_components": REAL, "stubbed_components": STUB,
        "known_findings_seen": sorted(known),
        "setup_seconds": round(chk.t_setup, 2),
    }
    doc = {"property": chk.prop, "tier": chk.tier, "seed": chk.seed, "level": LEVEL, "coverage": cov,
           "assumptions": ["Threads are switched only between lines or bytecodes of the library's own Python code (and at its locks, sleeps and "
                           "stream writes), which is where CPython with the GIL can switch them apart from inside the standard library.",
                           "Sampling: a clean batch is evidence over the runs explored, not proof."],
           "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", chk.prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)


def trim(x, depth=0):
    if isinstance(x, dict):
        return {k: trim(v, depth + 1) for k, v in x.items() if not k.startswith("_")}
    if isinstance(x, list):
        return [trim(v, depth + 1) for v in x[:6]] + (["... %d more" % (len(x) - 6)] if len(x) > 6 else [])
    if isinstance(x, str) and len(x) > 200:
        return x[:200] + "..."
    return x


# ------------------------------------------------------------------------------------------------ determinism
def digest_of(outs):
    return [sha(o["i"], o["st"], o.get("key"), o.get("log"), o.get("inter"), o.get("steps"), sorted((o.get("faults") or {}).items()),
                o.get("violation")) for o in outs]


def selftest(names, n):
    """The same seeds twice, with another worker count, and in a fresh interpreter under another PYTHONHASHSEED."""
    rc = 0
    for prop in names:
        cnt = n if prop not in ("C15", "C16") else max(8, n // 10)
        docs = []
        for workers, hs in ((8, "0"), (8, "0"), (3, "0"), (5, "12345")):
            p = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), "digest", prop, str(cnt), str(workers)],
                               env=dict(os.environ, PYTHONHASHSEED=hs), stdout=subprocess.PIPE)
            docs.append(p.stdout)
        same = all(d == docs[0] and d for d in docs)
        print("%s: %d runs, 4 times: %s" % (prop, cnt, "identical" if same else "DIFFERENT"))
        if not same:
            for d in docs[1:]:
                for k, (a, b) in enumerate(zip(docs[0].split(), d.split())):
                    if a != b:
                        print("   first difference at run %d" % k)
                        break
            rc = 2
    return rc


def replayed(argv):
    with open(argv[2]) as f:
        return json.load(f)["plan"]


def main():
    cmd = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if cmd == "setup":
        world.load()
        print("ready: Python %s, code of %s" % (sys.version.split()[0], world.REPO))
        return 0
    if cmd == "selftest":
        names = [a for a in sys.argv[2:] if a.startswith("C")] or PROPS
        n = next((int(a) for a in sys.argv[2:] if a.isdigit()), 200)
        return selftest(names, n)
    if replayed(sys.argv).get("imports") if cmd == "replay" else sys.argv[2] == "C23":
        import gc
        gc.freeze()
        set_aside(1 if cmd in ("replay", "show") else 8)
    world.load()
    import gc
    gc.collect()
    gc.freeze()
    if cmd == "check":
        runs = workers = None
        args = sys.argv[3:]
        while args:
            a = args.pop(0)
            if a == "--tier":
                tier = args.pop(0)
            elif a == "--runs":
                runs = int(args.pop(0))
            elif a == "--workers":
                workers = int(args.pop(0))
            elif a == "--seed":
                seed = int(args.pop(0))
        return check(sys.argv[2], tier, seed, runs, workers)
    if cmd == "replay":
        return replay(sys.argv[2])
    if cmd == "digest":
        chk = Check(sys.argv[2], tier, seed, int(sys.argv[3]), int(sys.argv[4]))
        for d in digest_of(chk.run(now() + 3600)):
            print(d)
        return 0
    if cmd == "show":
        chk = Check(sys.argv[2], tier, seed)
        plan = chk.plan(int(sys.argv[3]))
        print(json.dumps(plan)[:20000])
        print(execute(plan, chk.bases, chk.facts))
        return 0
    print("unknown command " + cmd)
    return 2


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit as e:
        if isinstance(e.code, str):
            print("error: " + e.code)
            rc = 2
        else:
            rc = e.code or 0
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    drop_locales()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
