"""Runs a plan: generic operations on the library's public API, with oracles.

Every oracle emits a violation class; a plan's "judge" list says which classes count for the property under test.
"""
import array
import atexit
import builtins
import collections
import copy
import gc
import html
import importlib
import io
import json
import os
import pickle
import random
import re
import select
import struct
import subprocess
import sys
import threading
import warnings

try:
    import _testcapi
except ImportError:                # this interpreter cannot refuse allocations
    _testcapi = None
import engine as E
import fields
import hostset
import models
import streams
import world

api = world.api
warnings.filterwarnings("ignore", category=DeprecationWarning)


# ------------------------------------------------------------------ observation through the public API
def plain(v):
    if isinstance(v, str):
        return v
    if isinstance(v, bool):
        return repr(v)
    if isinstance(v, int):
        return int(v)
    return repr(v)


GETTERS = ["get_name", "get_start_index", "get_end_index", "get_base_type", "get_sub_type", "get_altitude", "get_altitude_si",
           "get_speed", "get_speed_si", "get_break_text", "get_flight_rules", "get_error_text", "get_stay_time",
           "get_altitude_cruise_to", "get_altitude_cruise_to_si", "get_latitude", "get_longitude", "get_bearing",
           "get_distance", "is_lat_long_valid"]


def snap_rec(r):
    return tuple(plain(getattr(r, g)()) for g in GETTERS)


def snap_ers(ers):
    return {"elements": [snap_rec(r) for r in ers.get_all_elements()], "errors": [snap_rec(r) for r in ers.get_all_errors()],
            "rules": plain(ers.get_derived_flight_rules()), "n": ers.get_number_of_elements(), "nerr": ers.get_number_of_errors()}


def snap_tok(tokens):
    return [(t.get_token_string(), t.get_token_start_index(), t.get_token_end_index()) for t in tokens.get_tokens()]


def snap_types(tokens):
    return [(plain(t.get_token_base_type()), plain(t.get_token_sub_type())) for t in tokens.get_tokens()]


stream = io.StringIO           # what reports are collected in


both = False                   # a process whose own standard output it is


def capture(fn):
    """Output of fn printed to a private stream (harness side, quiet)."""
    old, own = sys.stdout, sys.__stdout__
    sys.stdout = out = stream()
    if both:
        sys.__stdout__ = out
    try:
        fn()
        return out.getvalue()
    finally:
        sys.stdout, sys.__stdout__ = old, own


def outcome(fn):
    try:
        return ("ret", plain(fn()))
    except Exception as e:
        return ("exc", type(e).__name__)


def edit(ers, edits):
    """What a caller writes into a finished route: [errors?, index, setter, value]."""
    for where, at, name, v in edits:
        if where == 2:                            # a method of the route itself
            getattr(ers, name)(*v)
            continue
        recs = ers.get_all_errors() if where else ers.get_all_elements()
        if recs:
            getattr(recs[at % len(recs)], name)(v)


def views_of(out, toks, ers):
    out["xml"] = outcome(ers.as_xml)
    out["print"] = capture(ers.print_ers)
    out["ptok"] = capture(toks.print_tokens)
    out["rec"] = capture(lambda: ers.get_last_element().print_record(False))
    out["rec_err"] = capture(lambda: ers.get_last_element().print_record(True))
    out["ptok1"] = capture(lambda: toks.get_token_at(0).print_token() if toks.get_token_at(0) else None)
    miss = incomplete(out)
    if miss is not None:
        out["incomplete"] = miss
    out["again"] = snap_ers(ers)
    if out["again"] == {k: out[k] for k in out["again"]}:
        out.pop("again")


def alone(f, parser=None, views=True, a=None, keep=None):
    """What this field gives when it is the only thing this process ever does."""
    out = {}
    a = a or api
    try:
        tk = a.Tokenize()
        tk.set_whitespace(f["w"])
        tk.set_string_to_tokenize(f["t"])
        tk.tokenize()
        toks = tk.get_tokens()
        out["tok"] = snap_tok(toks)
        ers = a.ExtractedRouteSequence()
        out["ret"] = outcome(lambda: (parser or a.ParseF15()).parse_f15(ers, toks))
        out["types"] = snap_types(toks)
        out["tok_after"] = snap_tok(toks)
        edit(ers, f.get("e", ()))
        out.update(snap_ers(ers))
        if keep is not None:
            keep.extend((toks, ers))
        if views:
            views_of(out, toks, ers)
    except Exception as e:
        out["failed"] = type(e).__name__ + ": " + str(e)[:200]
    return out


def in_order(text, pieces, escaped=False):
    """The first piece that does not follow the earlier ones in the text, or None."""
    pos = 0
    for p in pieces:
        at = text.find(p, pos)
        if at < 0 and escaped:
            for q in (html.escape(p, False), html.escape(p), html.escape(p).replace("&#x27;", "&apos;")):
                at = text.find(q, pos)
                if at >= 0:
                    p = q
                    break
        if at < 0:
            return p
        pos = at + len(p)
    return None


def incomplete(out):
    """What is missing in the printed and XML reports that were made of these records and tokens; None if nothing is."""
    def cells(r, err):
        return [r[0], str(r[1]), str(r[2]), str(r[3]), str(r[4]), r[7], r[5], r[10], r[13], r[11] if err else r[9]]
    el = [cells(r, False) for r in out["elements"]]
    er = [cells(r, True) for r in out["errors"]]
    miss = in_order(out["print"], [str(len(el))] + [c for r in el for c in r] + [str(len(er))] + [c for r in er for c in r])
    if miss is not None:
        return "the printed report lacks %r" % (miss,)
    toks = [x for (t, s, e), (b, u) in zip(out["tok_after"], out["types"]) for x in (t, str(s), str(e), str(b), str(u))]
    miss = in_order(out["ptok"], [str(len(out["tok_after"]))] + toks)
    if miss is not None:
        return "the printed token list lacks %r" % (miss,)
    if out["xml"][0] == "ret":
        miss = in_order(out["xml"][1], [out["rules"]] + [x for err, rows in ((False, out["elements"]), (True, out["errors"])) for r in rows
                                                        for x in (str(r[1]), str(r[2]), r[7], r[5], r[10], r[13], r[11] if err else r[9], r[0])], True)
        if miss is not None:
            return "the XML form lacks %r" % (miss,)
    for k, err in (("rec", False), ("rec_err", True)):
        miss = in_order(out[k], cells(out["elements"][-1], err))
        if miss is not None:
            return "the printed record lacks %r" % (miss,)
    return None


def classify(probes, api=api):
    d = api.F15TokenSyntaxDefinition()
    return [tuple(plain(x) for x in d.get_token_type(p)) for p in probes]


def messages():
    m = getattr(api.ErrorMessages, "error_messages", {})
    return sorted((repr(k), v) for k, v in m.items())


def descriptions():
    return capture(api.F15TokenSyntaxDefinition().print_descriptions)


def models_call(k, a):
    """The library's own helper named k in the models."""
    u, U = api.Utils(), api.Utils
    return {"deg": U.is_degree_semantics, "degmin": U.is_degree_minute_semantics, "sound": U.speed_of_sound_at_altitude,
            "mach": U.mach_to_ms_speed, "proj": u.get_bearing_distance_projected_point,
            "inv": u.get_bearing_distance_between_points}[k](*a)


def main_code():
    """The shipped example program, compiled by the simulator so that its lines are scheduling points too."""
    path = os.path.join(world.REPO, "main.py")
    with open(path, "rb") as f:
        code = compile(f.read(), path, "exec", dont_inherit=True)
    world.register(code)
    return code


SAMPLE = {"t": "N0450M0825 00N000E B9 00N001E VFR IFR 00N001W/N0350F100 01N001W 01S001W 02S001W180060", "w": " \n\t\r/"}


class Blocked(BaseException):
    """A call sits in the operating system and nothing in this process moves any more."""


def watch(cpu):
    """Looks every ten real seconds whether this process still does something."""
    import signal
    last = [None, 0.0, 0]
    ticks = [0]

    def tick(sig, frame):
        ticks[0] += 1
        used = sum(os.times()[:4])
        now = world.engine.steps if world.engine is not None else 0
        last[2] = last[2] + 1 if now == last[0] and used - last[1] < 0.05 else 0
        last[0], last[1] = now, used
        if last[2] >= 5:
            where = []
            for f in sys._current_frames().values():
                while f is not None and not f.f_code.co_filename.startswith(world.REPO + os.sep):
                    f = f.f_back
                if f is not None:
                    where.append("%s line %d" % (os.path.relpath(f.f_code.co_filename, world.REPO), f.f_lineno))
            raise Blocked(", ".join(sorted(where)))
        if ticks[0] > 1.5 * cpu:            # only a harness fault can reach it
            os._exit(99)
        signal.alarm(10)
    signal.signal(signal.SIGALRM, tick)
    signal.alarm(10)


def in_child(fn, cpu=20):
    """fn() in a forked pristine child; returns (status, value)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            import resource
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            watch(cpu)
            gc.set_threshold(1000000000, 10, 10)      # on, as in any process, but collections happen where the plan says
            gc.enable()
            E.bare()
            try:
                res = ("ok", fn())
            except Blocked as e:
                res = ("blocked", "a call of the library never finished: it waits in the operating system (%s)" % e)
            except BaseException as e:
                import traceback
                res = ("error", "".join(traceback.format_exception(e))[-4000:])
            data = pickle.dumps(res)
            with os.fdopen(w, "wb") as f:
                f.write(struct.pack("q", len(data)) + data)
        finally:
            os._exit(0)
    os.close(w)
    data, ended, st = b"", 0, None
    while len(data) < 8 or len(data) < 8 + struct.unpack("q", data[:8])[0]:
        if not select.select([r], [], [], 5)[0]:      # a grandchild may hold the pipe open
            if not ended:
                ended, st = os.waitpid(pid, os.WNOHANG)
                continue
            break
        more = os.read(r, 1 << 16)
        if not more:
            break
        data += more
    os.close(r)
    if st is None or not ended:
        if len(data) >= 8:
            kill_group(pid)
        _, st = os.waitpid(pid, 0)
    kill_group(pid)
    if len(data) > 8:
        return pickle.loads(data[8:])
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == 24:
        return ("cpu", "CPU limit of %d s exceeded" % cpu)
    return ("died", "child ended with status %d" % st)


def kill_group(pid):
    """Whatever that child started and left behind."""
    try:
        os.killpg(pid, 9)
    except OSError:
        pass


def in_fork(fn):
    """fn() in a child of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            world.engine.forked()
            with os.fdopen(w, "wb") as fh:
                fh.write(pickle.dumps(fn()))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else {"failed": "no answer from the second child"}


# ------------------------------------------------------------------ coherence of one finished parse (no baseline needed)
def coherent(f, obs):
    """Invariants every returned parse obeys; returns a message or None."""
    if obs["ret"][0] != "ret":
        return "parse raised " + obs["ret"][1]
    v = obs["ret"][1]
    el, er = obs["elements"], obs["errors"]
    toks = models.tokenize(f["t"], f["w"])
    if v not in ("True", "False"):
        return "verdict is not a boolean: %r" % (v,)
    if (v == "True") != (len(er) == 0):
        return "verdict %s with %d reported errors" % (v, len(er))
    if obs["n"] != len(el) or obs["nerr"] != len(er):
        return "record counts disagree with the record lists"
    if len(el) < 2 or el[0][0] != "ADEP" or el[-1][0] != "ADES":
        return "route is not framed by ADEP ... ADES"
    P, A = int(api.TokenBaseType.F15_POINT), int(api.TokenSubType.F15_SB_PRP_AERO)
    for r in (el[0], el[-1]):
        if r[1:3] != (0, 0) or r[3] != P or r[4] != A:
            return "the departure/arrival placeholder is not an aerodrome point at 0-0"
    if not toks:
        if [r[0] for r in er] != ["NULL"] or len(el) != 2:
            return "an empty field must give exactly the 'empty' error and ADEP, ADES"
        return None
    spans = {(s, e): t for t, s, e in toks}
    pos = -1
    for r in el[1:-1]:
        t = spans.get((r[1], r[2]))
        if t is None or (t != r[0] and not (r[0] == "VFR" and t.endswith("VFR"))):
            return "record %r at %d-%d is not a token of the field" % (r[0], r[1], r[2])
        if r[1] <= pos:
            return "route records out of field order at %r" % (r[0],)
        pos = r[1]
        if r[11]:
            return "route record %r carries an error text" % (r[0],)
    for r in er:
        if spans.get((r[1], r[2])) != r[0]:
            return "error record %r at %d-%d is not a token of the field" % (r[0], r[1], r[2])
        if not r[11]:
            return "error record %r has no message" % (r[0],)
    rules = [r[10] for r in el]
    if el[-1][10] != el[-2][10]:
        return "arrival rules differ from those of the record before"
    if rules[0] == "VFR":
        want = "Z" if "IFR" in rules else "V"
    else:
        want = "Y" if "VFR" in rules else "I"
    if obs["rules"] != want:
        return "derived flight rules %r, records give %r" % (obs["rules"], want)
    return None


# ------------------------------------------------------------------ the interpreter
VIEWS = ("xml", "print", "ptok", "rec", "rec_err")


def stand(toks):
    """Where the cursor of a list stands and what it sees from there."""
    at = {id(t): n for n, t in reversed(list(enumerate(toks.get_tokens())))}
    return [at.get(id(t)) for t in (toks.get_current_token(), toks.peek_next_token(), toks.peek_previous_token(), toks.peek_next_token(2))]


def shipped(x, e, parser):
    """What a stored token list or route gives where it is used; (observations, the objects)."""
    toks, ers = x
    obs = {}
    if toks is not None:
        obs["tok"] = snap_tok(toks)
        obs["stand"] = stand(toks)
    if ers is None:
        ers = api.ExtractedRouteSequence()
        obs["ret"] = outcome(lambda: parser.parse_f15(ers, toks))
        obs["tok_after"] = snap_tok(toks)
    edit(ers, e)
    obs.update(snap_ers(ers))
    obs["xml"] = outcome(ers.as_xml)
    obs["print"] = capture(ers.print_ers)
    if ers.get_last_element() is not None:
        obs["rec"] = capture(lambda: ers.get_last_element().print_record(False))
        obs["rec_err"] = capture(lambda: ers.get_last_element().print_record(True))
    if toks is not None:
        obs["types"] = snap_types(toks)
        obs["ptok"] = capture(toks.print_tokens)
    return obs, (toks, ers)


def elsewhere(req):
    """In another process: what it gives, and perhaps the result sent back."""
    data, e, back = pickle.loads(req)
    obs, x = shipped(pickle.loads(data), e, api.ParseF15())
    return {"obs": obs, "back": pickle.dumps(x) if back else None}


def send(fd, data):
    data = memoryview(data)
    while data:
        data = data[os.write(fd, data):]


def receive(fd, n):
    data = b""
    while len(data) < n:
        more = os.read(fd, min(1 << 16, n - len(data)))
        if not more:
            raise EOFError("the other process has ended")
        data += more
    return data


class Interp:
    def __init__(self, plan, baselines):
        self.plan = plan
        self.base = baselines              # {field index: alone() result}
        self.child = None
        self.judge = set(plan["judge"]) | {"harness", "deadlock", "progress", "crash"}
        self.eng = E.Engine(plan, plan["seed"] * 2 + 1)
        self.eng.exec_nested = self.nested
        self.parsers = {}
        self.tokenizers = {}
        self.holds = {}                    # what each kept tokeniser was last given
        self.kept = {}                     # op id -> dict(tokens, ers, f, obs)
        self.stats = {"jobs": 0, "compared": 0, "rechecks": 0, "interrupted": 0, "reports": 0}
        self.cov = set()
        self.log = 0
        self.utils = None
        self.direct = None
        self.host = None                   # the settings the program gave this process
        self.open = False
        self.importing = 0                 # imports of the library under way
        self.swapped = []                  # those the harness itself has changed for a moment

    # -------------------------------------------------------- helpers
    def violate(self, cls, detail, op=None, **kw):
        if cls in self.judge:
            self.eng.violate(cls, detail, op=op.get("id") if isinstance(op, dict) else op, **kw)

    def note(self, *parts):
        self.log = (self.log * 16777619 ^ hash_str(repr(parts))) & 0xFFFFFFFFFFFF

    def parser(self, k):
        if k not in self.parsers:
            self.parsers[k] = api.ParseF15()
        return self.parsers[k]

    def call(self, t, fn, faults=(), limit=1 << 59):
        """Run one call of the library with scheduling points and faults; ('ret', value) or ('exc', exception)."""
        nested = t.in_nested
        if not nested:
            t.begin(list(faults), limit)
            q, t.quiet = t.quiet, 0
        try:
            r = ("ret", fn())
        except E.SimStop:
            r = ("stop", None)
        except BaseException as e:
            r = ("exc", e)
        finally:
            if not nested:
                t.quiet = q
                t.last_ev = t.ev
                t.end()
        return r

    def raising(self, t):
        return [f for f in t.fired if f["kind"] in ("exc", "stack")]

    @staticmethod
    def surfaced(exc, fault):
        want = "RecursionError" if fault["kind"] == "stack" else fault["exc"]
        want = "SimTimeout" if want == "Timeout" else want
        seen = 0
        while exc is not None and seen < 20:
            if type(exc).__name__ == want:
                return True
            exc, seen = exc.__cause__ or exc.__context__, seen + 1
        return False

    def clean_unraisable(self, *a):
        pass

    def settings(self, t, op):
        """The process's settings are what the program made them."""
        if self.host is None:
            return
        self.stats["settings"] = self.stats.get("settings", 0) + 1
        c = hostset.changed(self.host, dict(hostset.take(), **{k: self.host[k] for k in self.swapped}))
        if c is None and t is not None and t.own is not None:
            c = hostset.changed(t.own, hostset.take(hostset.THREAD))
        if c:
            self.violate("settings", "a setting of the process is no longer what the program made it: %s" % c, op)
            self.host = None                          # once is enough

    def op_host(self, t, op):
        """The program itself changes settings, whatever the other threads are in the middle of."""
        if self.host is None:
            return
        self.settings(t, op)
        if self.host is None:
            return
        a, b = hostset.take(), hostset.take(hostset.THREAD)
        for what, v in op["set"]:
            hostset.apply(what, v)
        now = hostset.take()
        self.host.update((k, now[k]) for k in now if now[k] != a[k])
        now = hostset.take(hostset.THREAD)
        t.own.update((k, now[k]) for k in now if now[k] != b[k])
        self.eng._count("host-setting-changed", len(op["set"]))

    def op_look(self, t, op):
        """The program looks at its settings; step() does."""

    def limit_for(self, text):
        ntok = len(text.split()) + 2 * text.count("/")
        return (10000 + 60 * len(text) + 1500 * ntok) * (9 if self.plan.get("gran") == "instr" else 1)

    def verdict(self, t, op, what, r):
        """Common handling of a call's ending. True if it completed normally."""
        bad = self.raising(t) if not t.in_nested else []
        if r[0] == "stop":
            self.violate("progress", "%s did not finish within %d of its own steps" % (what, t.last_ev), op)
            return False
        if bad:
            self.stats["interrupted"] += 1
            if r[0] == "ret":
                self.violate("swallow", "%s returned %r although %s struck inside it" % (what, r[1], json.dumps(bad[0])), op)
            elif not self.surfaced(r[1], bad[0]):
                self.violate("swallow", "%s raised %s instead of the interruption %s" % (
                    what, type(r[1]).__name__, json.dumps(bad[0])), op)
            return False
        return True

    # -------------------------------------------------------- operations
    def main(self, t, ops):
        for op in ops:
            self.eng.point(t)
            self.step(t, op)
            if t.died:
                break

    def step(self, t, op):
        if self.host is not None and t.own is None:
            t.own = hostset.take(hostset.THREAD)
        try:
            getattr(self, sys.intern("op_" + op["op"]))(t, op)
            self.settings(t, op)
        except Exception as e:
            tb, inner = e.__traceback__, None
            while tb is not None:
                inner, tb = tb, tb.tb_next
            if not os.path.realpath(inner.tb_frame.f_code.co_filename).startswith(world.REPO + os.sep):
                raise
            self.violate("crash", "%s: %s raised inside the library by a call that needs no fault to fail (%s)" % (
                type(e).__name__, str(e)[:200], op["op"]), op)
        finally:
            if self.child is not None and not t.in_nested:
                self.child(sys.exc_info()[1])

    def faults(self, op, phase):
        self.eng.phase = phase
        return [f for f in op.get("faults", ()) if f.get("ph", "parse") == phase]

    def op_job(self, t, op):
        """Tokenise and parse one field with own tokeniser and own route."""
        i = op["f"]
        f = self.plan["fields"][i]
        base = self.base[i]
        if "failed" in base and "baseline" not in self.judge:
            return None
        self.stats["jobs"] += 1
        obs = {}
        toks = self.do_tok(t, op, f)
        if toks is None:
            return None
        obs["tok"] = snap_tok(toks)
        if op.get("pre"):                         # the caller looks at the list before parsing it
            toks.get_last_token(), toks.get_next_token()
        r = self.do_parse(t, op, f, toks, obs, op.get("p", 0))
        if r is None:
            self.kept[op["id"]] = {"tokens": toks, "ers": None, "f": i, "obs": None}
            return None
        ers = r
        if op.get("views"):
            if op["views"] == "raw":
                obs["xml"] = outcome(ers.as_xml)
                obs["print"] = capture(ers.print_ers)
        self.compare(op, i, obs, base)
        self.kept[op["id"]] = {"tokens": toks, "ers": ers, "f": i, "obs": obs}
        return obs

    def op_tok(self, t, op):
        """Tokenise only."""
        self.stats["jobs"] += 1
        toks = self.do_tok(t, op, self.plan["fields"][op["f"]])
        if toks is not None:
            self.stats["compared"] += 1
            self.kept[op["id"]] = {"tokens": toks, "ers": None, "f": op["f"], "obs": {"tok": snap_tok(toks)}}

    def do_tok(self, t, op, f):
        mode = op.get("tk", "new")
        if mode == "hand":                        # a caller with a tokeniser of its own
            toks = api.Tokens()
            for n, (text, a, e) in enumerate(models.tokenize(f["t"], f["w"])):
                if n % 3 == 2:
                    toks.insert_token(api.Token(text, a, e), toks.get_number_of_tokens())
                elif n % 3 == 1:
                    toks.append_token(api.Token(text, a, e))
                else:
                    toks.create_append_token(text, a, e)
            return toks
        if mode == "new":
            tk = api.Tokenize()
        else:
            key = (t.home, mode)
            if key not in self.tokenizers:
                self.tokenizers[key] = api.Tokenize()
            tk = self.tokenizers[key]
        if op.get("prefill") is not None:         # what the caller set before and then overrides
            tk.set_string_to_tokenize(op["prefill"])
        hold = (t.home, mode)
        if op.get("again"):                       # tokenise what was set before, without setting it again
            f = self.holds.get(hold) if mode != "new" else None
            if f is None:
                return None
        else:
            self.holds[hold] = None

        def go():
            if not op.get("again"):
                tk.set_whitespace(f["w"])
                tk.set_string_to_tokenize(f["t"])
                self.holds[hold] = f
            tk.tokenize()
            return tk.get_tokens()
        r = self.call(t, go, self.faults(op, "tok"), self.limit_for(f["t"]))
        if not self.verdict(t, op, "tokenize()", r):
            if self.holds[hold] is not None and (tk.get_string_to_tokenize(), tk.get_whitespace()) != (f["t"], f["w"]):
                self.violate("tokens", "after an interrupted tokenize() the tokeniser holds %r and %r instead of the text %r and whitespace %r" % (
                    tk.get_string_to_tokenize(), tk.get_whitespace(), f["t"], f["w"]), op)
            return None
        if r[0] == "exc":
            self.violate("tokens", "tokenize() raised %s" % type(r[1]).__name__, op)
            return None
        toks = r[1]
        got, want = snap_tok(toks), models.tokenize(f["t"], f["w"])
        if any(isinstance(k, dict) and k["tokens"] is toks for k in self.kept.values()):
            self.violate("tokens", "tokenize() returned the very list that it had handed out before", op)
        if got != want:
            self.violate("tokens", "token list is %s, the text reads %s" % (diff(got, want)), op)
        if tk.get_string_to_tokenize() != f["t"] or tk.get_whitespace() != f["w"]:
            self.violate("tokens", "the tokeniser no longer holds the text or whitespace it was given", op)
        return toks

    def do_parse(self, t, op, f, toks, obs, p):
        """Parses; fills obs; returns the route or None if the parse did not return."""
        ers = api.ExtractedRouteSequence()
        parser = self.parser(p)
        before = snap_tok(toks)
        r = self.call(t, lambda: parser.parse_f15(ers, toks), self.faults(op, "parse"), self.limit_for(f["t"]))
        self.note(op["id"], r[0], t.last_ev if not t.in_nested else 0)
        after = snap_tok(toks)
        if after != before:
            self.violate("inputs", "parsing changed the caller's token list: %s -> %s" % diff(after, before), op)
        if not self.verdict(t, op, "parse_f15()", r):
            if op.get("retry") is not None:
                self.kept[op["id"]] = {"tokens": toks, "ers": None, "f": op["f"], "obs": None}
            return None
        obs["ret"] = ("ret", plain(r[1])) if r[0] == "ret" else ("exc", type(r[1]).__name__)
        obs["tok_after"] = after
        obs["types"] = snap_types(toks)
        obs.update(snap_ers(ers))
        if "coherent" in self.judge:
            m = coherent(f, obs)
            if m:
                self.violate("coherent", "%s; field %r" % (m, f["t"][:300]), op)
        if "baseline" in self.judge and r[0] == "exc":
            self.violate("baseline", "parse_f15() raised %s: %s; field of %d tokens %r" % (
                type(r[1]).__name__, str(r[1])[:100], len(before), f["t"][:200]), op, exc=type(r[1]).__name__, ntok=len(before))
        return ers

    def compare(self, op, i, obs, base, cls="result"):
        self.stats["compared"] += 1
        for k in ("tok", "ret", "elements", "errors", "rules", "types", "tok_after", "n", "nerr", "xml", "print"):
            if k in obs and k in base and obs[k] != base[k]:
                self.violate(cls, "field %r: %s is %s, alone it is %s" % (
                    (self.plan["fields"][i]["t"][:160], k) + diff(obs[k], base[k])), op)
                return False
        return True

    def op_reparse(self, t, op):
        """Parse a token list that was parsed (or whose parse was interrupted) before."""
        k = self.kept.get(op["of"])
        if k is None or k.get("spoiled") or k.get("list_edited"):
            return
        i, toks = k["f"], k["tokens"]
        base = self.base[i]
        if "failed" in base:
            return
        obs = {"tok": snap_tok(toks)}
        ers = self.do_parse(t, dict(op, f=i), self.plan["fields"][i], toks, obs, op.get("p", 0))
        if ers is None:
            return
        self.compare(op, i, obs, base, "reparse" if "reparse" in self.judge else "result")
        self.kept[op["id"]] = {"tokens": toks, "ers": ers, "f": i, "obs": obs}

    def op_odd(self, t, op):
        """A token list made by hand is parsed several times, the first time perhaps interrupted: it stays as it is and always gives the same."""
        def build():
            toks = api.Tokens()
            for n, (text, a, e) in enumerate(op["toks"]):
                if op.get("alias") and n == op["alias"][1]:
                    toks.append_token(toks.get_token_at(op["alias"][0]))
                else:
                    toks.append_token(api.Token(text, a, e))
            return toks
        self.stats["jobs"] += 1
        f = {"t": " ".join(x[0] for x in op["toks"]), "w": fields.WS_FULL}
        toks, results = build(), []
        for k in range(op["times"] + 1):
            if k == op["times"]:
                toks = build()                    # an equal list, parsed for the first time
            obs = {}
            ers = self.do_parse(t, dict(op, f=None, faults=op["faults"] if k == 0 else []), f, toks, obs, op["p"][k % 3])
            if ers is not None:
                results.append(obs)
        for x in results[1:]:
            if x != results[0]:
                self.violate("reparse", "parsing the same list again gives %s, the first time %s; tokens %r" % (diff(x, results[0]) + (op["toks"],)), op)
                break

    def op_bulk(self, t, op):
        """A long life: the same few fields parsed again and again, every result compared."""
        for n in range(op["n"]):
            i = op["fs"][n % len(op["fs"])]
            f, base = self.plan["fields"][i], self.base[i]
            if "failed" in base:
                continue
            tk = api.Tokenize()
            tk.set_whitespace(f["w"])
            tk.set_string_to_tokenize(f["t"])
            tk.tokenize()
            toks = tk.get_tokens()
            ers = api.ExtractedRouteSequence()
            obs = {"tok": snap_tok(toks), "ret": outcome(lambda: (api.ParseF15() if op["own"] else self.parser(op["p"])).parse_f15(ers, toks))}
            obs["types"] = snap_types(toks)
            obs.update(snap_ers(ers))
            self.stats["jobs"] += 1
            if not self.compare(op, i, obs, base):
                return
            if n < 2 * len(op["fs"]) or n % 97 == 0:      # some results are kept to the end of the life
                self.kept[1000000 + n] = {"tokens": toks, "ers": ers, "f": i, "obs": obs}

    def op_mega(self, t, op):
        """A very long life: tens of thousands of parses or tokens, only verdict and numbers compared."""
        todo = []
        for i in op["fs"]:
            f, base = self.plan["fields"][i], self.base[i]
            if "failed" not in base and base["ret"][0] == "ret":
                todo.append((f, (base["ret"], base["n"], base["nerr"]), i))
        tk = api.Tokenize()
        for n in range(op["n"] if todo else 0):
            f, want, i = todo[n % len(todo)]
            tk.set_whitespace(f["w"])
            tk.set_string_to_tokenize(f["t"])
            tk.tokenize()
            ers = api.ExtractedRouteSequence()
            toks = tk.get_tokens()
            ret = outcome(lambda: (api.ParseF15() if op["own"] else self.parser(op["p"])).parse_f15(ers, toks))
            got = (ret, ers.get_number_of_elements(), ers.get_number_of_errors())
            if got != want:
                self.violate("result", "parse number %d: %r with %d records and %d errors, alone %r with %d and %d; field %r" %
                             (n + 1, got[0], got[1], got[2], want[0], want[1], want[2], f["t"]), op)
                return
        self.stats["jobs"] += op["n"]

    def op_scale(self, t, op):
        """The same pattern once, twice and four times as often: the call's own steps grow no faster than the field."""
        unit = max(1, len(models.tokenize(op["text"], fields.WS_FULL)))
        n = max(2, op["base"] // unit)
        steps = []
        for m in (n, n, 2 * n, 4 * n):            # the first time fills whatever is prepared on first use
            f = {"t": "N0450F350 " + " ".join([op["text"]] * m), "w": fields.WS_FULL}
            row = []
            tk = api.Tokenize()
            tk.set_whitespace(f["w"])
            tk.set_string_to_tokenize(f["t"])
            ers = api.ExtractedRouteSequence()
            parser = self.parser(0)
            for what, fn in (("tokenize()", tk.tokenize), ("parse_f15()", lambda: parser.parse_f15(ers, tk.get_tokens())), ("as_xml()", ers.as_xml),
                             ("print_ers()", ers.print_ers)):
                r = self.call(t, fn, (), 40 * self.limit_for(f["t"]))
                if r[0] == "stop":
                    self.violate("scale", "%s did not finish within %d of its own steps, field of %d times %r" % (what, t.last_ev, m, op["text"]), op)
                    return
                if r[0] == "exc" and what in ("tokenize()", "parse_f15()"):
                    self.violate("scale", "%s raised %s, field of %d times %r" % (what, type(r[1]).__name__, m, op["text"]), op)
                    return
                row.append((what, t.last_ev))
            steps.append(row)
        self.direct.chunks.clear()
        self.stats["compared"] += 1
        for (what, a), (_, b), (_, c) in zip(*steps[1:]):
            self.note(what, a, b, c)
            if c - b > 2.2 * (b - a) + 500:
                self.violate("scale", "%s takes %d, %d, %d of its own steps for %d, %d, %d times %r: faster than linear" % (
                    what, a, b, c, n, 2 * n, 4 * n, op["text"]), op)
                return

    # ---- stored, copied, handed to other processes
    def op_ship(self, t, op):
        """A result is stored or copied, and used here or in another process."""
        k = self.kept.get(op["of"])
        if k is None or k.get("spoiled") or k.get("list_edited") or "failed" in self.base[k["f"]]:
            return
        what = op["what"] if k["ers"] is not None and k["obs"] is not None else "tokens"
        base = self.base[op["f"]] if op.get("f") is not None and what != "tokens" else self.base[k["f"]]
        if "failed" in base:
            return
        x = (k["tokens"] if what != "route" else None, k["ers"] if what != "tokens" else None)
        before = snap_tok(k["tokens"])
        how = op["how"]
        self.stats["shipped"] = self.stats.get("shipped", 0) + 1
        if op.get("cur") is not None:
            k["tokens"].get_first_token()
            for _ in range(op["cur"]):
                k["tokens"].get_next_token()
        stood = stand(k["tokens"])
        r = self.call(t, lambda: copy.deepcopy(x) if how is None else pickle.dumps(x, how), self.faults(op, "parse"), 1 << 50)
        if self.raising(t):
            if r[0] == "ret":
                self.violate("swallow", "storing a result returned although it was interrupted", op)
            r = None
        elif r[0] != "ret":
            self.violate("ship", "a result cannot be %s: %s: %s" % ("copied" if how is None else "pickled", type(r[1]).__name__, str(r[1])[:200]), op)
            return
        if snap_tok(k["tokens"]) != before:
            self.violate("ship", "storing a token list changed it: %s was %s" % diff(snap_tok(k["tokens"]), before), op)
        if stand(k["tokens"]) != stood:
            self.violate("ship", "storing a token list moved its cursor: at %s, it was at %s" % (stand(k["tokens"]), stood), op)
        self.recheck(op, op["of"])
        if r is None:
            return
        e = op.get("e", ()) if what != "tokens" else ()
        where = op["where"]
        self.eng._count("%s used %s" % ("copy" if how is None else "stored result",
                                       {"here": "in the same process", "fork": "in a forked process", "fresh": "in a fresh process",
                                        "interp": "in a freshly started interpreter"}[where if how is not None else "here"]))
        try:
            if how is None:
                obs, back = shipped(r[1], e, self.parser(op["p"]))
            elif where == "here":
                obs, back = shipped(pickle.loads(r[1]), e, self.parser(op["p"]))
            else:
                req = pickle.dumps((r[1], e, op.get("back", False)))
                got = self.in_fork(lambda: elsewhere(req)) if where == "fork" else self.zygote(req) if where == "fresh" else self.started(req, op)
                obs, back = got["obs"], pickle.loads(got["back"]) if got.get("back") else None
        except Exception as ex:
            self.violate("ship", "a %s result cannot be used: %s: %s" % ("copied" if how is None else "stored", type(ex).__name__, str(ex)[:300]), op)
            return
        if obs.pop("stand", stood) != stood:
            self.violate("ship", "the cursor of a %s list (%s) does not stand where that of the original stood" % ("copied" if how is None else "stored", where), op)
            return
        for key in obs:
            if key in base and obs[key] != base[key]:
                self.violate("ship", "field %r %s and used %s: %s is %s, the original gives %s" % (
                    (self.plan["fields"][k["f"]]["t"][:160], "copied" if how is None else "stored", where, key) + diff(obs[key], base[key])), op)
                return
        self.stats["compared"] += 1
        self.recheck(op, op["of"])
        if back is not None and "ret" in obs:
            self.kept[op["id"]] = {"tokens": back[0], "ers": back[1], "f": k["f"], "obs": {x: obs[x] for x in obs if x not in VIEWS}}
        elif back is not None:
            toks = back[0] if back[0] is not None else api.Tokens()
            obs = {x: obs[x] for x in obs if x not in VIEWS}
            obs.update(tok=snap_tok(toks), types=snap_types(toks))
            self.kept[op["id"]] = {"tokens": toks, "ers": back[1], "f": op["f"] if e else k["f"], "obs": obs, "list_edited": back[0] is None}

    def op_big(self, t, op):
        """A list and a route of many elements, put together by the caller, are stored or copied."""
        toks, ers = api.Tokens(), api.ExtractedRouteSequence()
        for w, a, z in models.many(op["many"]):
            toks.create_append_token(w, a, z)
            ers.create_append_element(w, a, z, 1, 1)
            if op["err"]:
                ers.add_error(w, a, z, 1, 1, "'!' again")
        x = (toks, ers)[op["what"]]

        def look(y):
            return (snap_tok(y), y.get_number_of_tokens()) if op["what"] == 0 else (snap_ers(y), outcome(y.as_xml))
        before = look(x)
        how = op["how"]
        self.stats["shipped"] = self.stats.get("shipped", 0) + 1
        r = self.call(t, lambda: copy.deepcopy(x) if how is None else pickle.dumps(x, how), [], 1 << 50)
        what = "a %s of %d elements" % (("token list", "route")[op["what"]], op["many"][1])
        if r[0] == "stop":
            return
        if r[0] != "ret":
            self.violate("ship", "%s cannot be %s: %s: %s" % (what, "copied" if how is None else "pickled", type(r[1]).__name__, str(r[1])[:200]), op)
            return
        try:
            after = look(r[1] if how is None else pickle.loads(r[1])) if op["where"] == "here" or how is None else self.in_fork(
                lambda: {"obs": look(pickle.loads(r[1]))})["obs"]
        except Exception as ex:
            self.violate("ship", "%s, stored, cannot be used: %s: %s" % (what, type(ex).__name__, str(ex)[:300]), op)
            return
        self.stats["compared"] += 1
        if after != before:
            self.violate("ship", "%s, stored: %s, the original %s" % ((what,) + diff(after, before)), op)
        elif look(x) != before:
            self.violate("ship", "storing changed %s: %s, before %s" % ((what,) + diff(look(x), before)), op)

    @staticmethod
    def in_fork(fn):
        got = in_fork(fn)
        if "failed" in got:
            raise RuntimeError(got["failed"])
        return got

    def zygote(self, req):
        """Asks the process that was set aside, before any work was done in this one, to fork a worker for this."""
        w, r = self.pristine
        os.write(w, struct.pack("q", len(req)))
        send(w, req)
        n = struct.unpack("q", receive(r, 8))[0]
        got = pickle.loads(receive(r, n))
        if "failed" in got:
            raise RuntimeError(got["failed"])
        return got

    def set_aside(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        if os.fork() == 0:
            try:
                os.close(w1), os.close(r2)
                while True:
                    req = receive(r1, struct.unpack("q", receive(r1, 8))[0])
                    pid = os.fork()
                    if pid == 0:
                        try:
                            E.bare()
                            try:
                                got = elsewhere(req)
                            except BaseException as e:
                                got = {"failed": "%s: %s" % (type(e).__name__, str(e)[:300])}
                            data = pickle.dumps(got)
                            send(w2, struct.pack("q", len(data)) + data)
                        finally:
                            os._exit(0)
                    os.waitpid(pid, 0)
            finally:
                os._exit(0)
        os.close(r1), os.close(w2)
        self.pristine = (w1, r2)

    def started(self, req, op):
        env = {"PATH": "/usr/bin:/bin", "VERIF_REPO": world.REPO, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent/pyc",
               "PYTHONHASHSEED": str(op.get("hash", 0))}
        p = subprocess.run([sys.executable] + op.get("flags", []) + [os.path.join(os.path.dirname(os.path.abspath(__file__)), "shipchild.py")], input=req,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd="/")
        if p.returncode != 0:
            raise RuntimeError(p.stderr.decode("utf-8", "replace").strip().split("\n")[-1])
        return pickle.loads(p.stdout)

    # -------------------------------------------------------- loading the library, and the end of the process
    def op_import(self, t, op):
        """This thread imports the library, module by module, and then has its classes."""
        t.lib_api = None
        mods, have = op["mods"], world.API()

        def go():
            for m in mods:
                importlib.import_module(m)
            world.fill(have)
        if op.get("unreadable"):
            world.unreadable = list(op["unreadable"])
        self.eng.phase = "import"
        self.importing += 1
        r = self.call(t, go, self.faults(op, "import"), 1 << 40)
        self.importing -= 1
        told = op.get("unreadable") and world.unreadable is None
        if op.get("unreadable"):
            if told:
                self.eng._count("module-unreadable")
            world.unreadable = None
        self.note(op["id"], r[0], t.last_ev)
        if not self.verdict(t, op, "the import", r):
            return
        if r[0] == "exc":
            e, mine = r[1], False
            while e is not None:
                mine = mine or isinstance(e, OSError) and told
                e = e.__cause__ or e.__context__
            if not mine:
                self.violate("import", "importing %s failed: %s: %s" % (", ".join(mods) or "the library", type(r[1]).__name__, str(r[1])[:300]), op)
            return
        if told:
            self.violate("import", "the import returned although a module could not be read", op)
        t.lib_api = have

    def op_gate(self, t, op):
        """Wait until the first thread has made its attempts."""
        while not self.open and self.eng.tasks[0].state != "done":
            self.eng.sleep(0.001)

    def op_open(self, t, op):
        self.open = True

    def op_fresh(self, t, op):
        """This thread works with the library it has imported."""
        a = t.lib_api
        if a is None:
            return
        f, base = self.plan["fields"][op["f"]], self.base[op["f"]]
        if "failed" in base:
            return
        self.stats["jobs"] += 1
        keep = []
        r = self.call(t, lambda: alone(f, None, False, a, keep), self.faults(op, "parse"), 5 * self.limit_for(f["t"]))
        if not self.verdict(t, op, "tokenising and parsing", r):
            return
        obs = r[1]
        if r[0] == "exc" or "failed" in obs:
            self.violate("import", "a thread that has imported the library cannot process the field %r: %s" % (
                f["t"][:200], obs["failed"] if r[0] == "ret" else "%s: %s" % (type(obs).__name__, str(obs)[:200])), op)
            return
        if len(keep) == 2:
            views_of(obs, *keep)
            self.kept[op["id"]] = {"tokens": keep[0], "ers": keep[1], "f": op["f"], "obs": {k: obs[k] for k in obs if k not in VIEWS}}
        self.compare(op, op["f"], obs, base, "import")
        if op.get("probes") and "import" in self.judge:
            got = classify(self.plan["probes"], a)
            if got != self.plan_cls:
                self.violate("import", "after the import a token is classified as %s, in a fresh process as %s" % diff(got, self.plan_cls), op)

    def op_unload(self, t, op):
        """The program throws the library away (nobody uses it at that time)."""
        if self.importing or len(self.plan["tasks"]) > 1:
            return
        t.lib_api = None
        for k in list(self.kept):
            del self.kept[k]
        for name, m in list(sys.modules.items()):
            if any(os.path.realpath(p).startswith(world.REPO + os.sep) for p in [getattr(m, "__file__", None) or "", *getattr(m, "__path__", ())] if p):
                del sys.modules[name]
        importlib.invalidate_caches()
        self.eng._count("library-unloaded")
        if op.get("gc"):
            gc.collect()

    def op_quit(self, t, op):
        """The main thread has come to its end: what the interpreter then does, in its order. Other threads may still work."""
        self.eng._count("main-thread-ended")
        shut = [fn for fn in reversed(threading._threading_atexits)]
        threading._SHUTTING_DOWN = True
        for fn in shut:
            self.call(t, fn, (), 1 << 40)
        threading._main_thread._is_stopped = True
        for o in op["ops"]:                       # the threads that are waited for go on, this one's last work too
            self.step(t, o)
        if op["wait"]:
            others = [x for x in self.eng.tasks if x is not t and not x.lib]
            while any(x.state != "done" for x in others):
                self.eng.sleep(0.001)
        for o in op["handlers"]:                  # exit handlers registered after the library was imported
            self.step(t, o)
        r = self.call(t, atexit._run_exitfuncs, (), 1 << 40)
        self.eng._count("exit-handlers-run")
        if r[0] == "exc":
            self.violate("quit", "an exit handler raised %s: %s" % (type(r[1]).__name__, str(r[1])[:200]), op)
        for o in op["late"]:                      # those registered before
            self.step(t, o)

    # -------------------------------------------------------- no memory left
    def op_starve(self, t, op):
        """The interpreter's allocator refuses a stretch of requests (or all further ones) while a field is tokenised and parsed."""
        f, base = self.plan["fields"][op["f"]], self.base[op["f"]]
        if "failed" in base or _testcapi is None:
            return
        parser = self.parser(op["p"])
        tk = api.Tokenize()
        tk.set_whitespace(f["w"])
        tk.set_string_to_tokenize(f["t"])
        toks = None
        if op["what"] != "tok":
            tk.tokenize()
            toks = tk.get_tokens()
        ers = api.ExtractedRouteSequence()
        if op["what"] in ("xml", "print"):
            parser.parse_f15(ers, toks)
        fn = {"tok": tk.tokenize, "parse": lambda: parser.parse_f15(ers, toks), "xml": ers.as_xml, "print": lambda: capture(ers.print_ers)}[op["what"]]
        self.stats["starved"] = self.stats.get("starved", 0) + 1
        refused = sys.stdout
        try:
            _testcapi.set_nomemory(*op["at"])
            try:
                r = fn()
            finally:
                _testcapi.remove_mem_hooks()
        except MemoryError:
            self.eng._count("allocation-refused")
            self.stats["interrupted"] += 1
            self.note(op["id"], "MemoryError")
            if op["what"] == "tok" and (tk.get_string_to_tokenize(), tk.get_whitespace()) != (f["t"], f["w"]):
                self.violate("tokens", "after an interrupted tokenize() the tokeniser no longer holds what it was given", op)
            if toks is not None and snap_tok(toks) != base["tok"]:
                self.violate("inputs", "a parse without memory changed the caller's token list", op)
        except SystemError:                       # the interpreter's own code mishandled it
            self.eng._count("interpreter-crash-without-memory")
        except Exception as e:
            self.violate("swallow", "%s without memory raised %s: %s" % (op["what"], type(e).__name__, str(e)[:200]), op)
        else:
            self.note(op["id"], "returned")
            if op["what"] == "tok":
                obs = {"tok": snap_tok(tk.get_tokens())}
            else:
                obs = dict(snap_ers(ers), types=snap_types(toks), tok_after=snap_tok(toks))
                if op["what"] == "parse":
                    obs["ret"] = ("ret", plain(r))
                else:
                    obs[op["what"]] = ("ret", r) if op["what"] == "xml" else r
            self.compare(op, op["f"], obs, base, "swallow")
        if sys.stdout is not refused:
            sys.stdout = refused
        if op["what"] == "tok":                   # the same tokeniser goes on
            tk.tokenize()
            if snap_tok(tk.get_tokens()) != models.tokenize(f["t"], f["w"]):
                self.violate("tokens", "after a tokenize() without memory the tokeniser gives %s, the text reads %s" % diff(
                    snap_tok(tk.get_tokens()), models.tokenize(f["t"], f["w"])), op)
        elif op["what"] == "parse":
            e2 = api.ExtractedRouteSequence()
            v = outcome(lambda: parser.parse_f15(e2, toks))
            self.compare(op, op["f"], dict(snap_ers(e2), ret=v), base)
        else:
            self.compare(op, op["f"], dict(snap_ers(ers), xml=outcome(ers.as_xml), print=capture(ers.print_ers)), base)

    def op_recheck(self, t, op):
        self.recheck(op, op["of"])

    def recheck(self, op, ref):
        k = self.kept.get(ref)
        if k is None or k.get("spoiled") or k["obs"] is None:
            return
        self.stats["rechecks"] += 1
        now = {} if k.get("list_edited") else {"tok": snap_tok(k["tokens"])}
        if k["ers"] is not None:
            now.update(snap_ers(k["ers"]))
            if not k.get("list_edited"):
                now["types"] = snap_types(k["tokens"])
        for key in now:
            if now[key] != k["obs"][key]:
                self.violate("later", "a finished result changed afterwards: %s was %s, now %s" % (
                    (key,) + diff(k["obs"][key], now[key])), op)
                return

    def op_mutate(self, t, op):
        """The caller edits its own token list and route."""
        k = self.kept.get(op["of"])
        if k is None or k.get("spoiled"):
            return
        k["spoiled"] = True
        for other in self.kept.values():          # results whose parse was given the same token list
            if isinstance(other, dict) and other["tokens"] is k["tokens"]:
                other["list_edited"] = True
        what = op["what"]

        def go():
            toks, ers = k["tokens"], k["ers"]
            if "tokens" in what:
                for n, x in enumerate(toks.get_tokens()):
                    if n % 2 == op.get("par", 0):
                        x.set_token_string("ZZ" + str(n))
                        x.set_token_start_index(900 + n)
                        x.set_token_end_index(950 + n)
                    x.set_token_base_type(api.TokenBaseType.F15_UNKNOWN)
                    x.set_token_sub_type(api.TokenSubType.F15_SB_UNKNOWN)
            if "list" in what:
                toks.create_append_token("EXTRA", 999, 1004)
                toks.remove_tokens_from_end_of_list(max(0, toks.get_number_of_tokens() // 2))
                toks.get_last_token()
            if "clear" in what:
                del toks.get_tokens()[:]
            if ers is None:
                return
            if "route" in what:
                for r in list(ers.get_all_elements()) + list(ers.get_all_errors()):
                    r.set_name("QQQQ")
                    r.set_start_index(777)
                    r.set_end_index(778)
                    r.set_altitude("F999")
                    r.set_altitude_si(1)
                    r.set_speed("N9999")
                    r.set_speed_si(2)
                    r.append_break_text("scribble")
                    r.append_error_text("scribble!")
                    r.set_flight_rules("XXX")
                    r.set_latitude(1.5)
                    r.set_longitude(2.5)
                    r.set_bearing(3.5)
                    r.set_distance(4.5)
                    r.set_stay_time("2359")
                    r.set_altitude_cruise_to("F001")
                    r.set_altitude_cruise_to_si(9)
                    r.set_lat_long_valid(True)
                    r.set_base_type(api.TokenBaseType.F15_TOO_LONG)
                    r.set_sub_type(api.TokenSubType.F15_SB_SLASH)
                ers.set_derived_flight_rules("?")
            if "routelist" in what:
                ers.add_error("OOPS", 1, 2, 3, 4, "bad '!'")
                ers.create_append_element("OOPS", 5, 6, 7, 8)
                del ers.get_all_elements()[:1]
            if "routeclear" in what:
                ers.get_all_elements().clear()
                ers.get_all_errors().clear()
        r = self.call(t, go, self.faults(op, "parse"), 1 << 50)
        self.verdict(t, op, "caller edits", r)

    def prep(self, op):
        """A result produced before the simulated threads start."""
        f = self.plan["fields"][op["f"]]
        if "failed" in self.base[op["f"]]:
            return
        tk = api.Tokenize()
        tk.set_whitespace(f["w"])
        tk.set_string_to_tokenize(f["t"])
        tk.tokenize()
        toks = tk.get_tokens()
        ers = api.ExtractedRouteSequence()
        obs = {"tok": snap_tok(toks)}
        obs["ret"] = outcome(lambda: self.parser(op.get("p", 0)).parse_f15(ers, toks))
        edit(ers, f.get("e", ()))
        obs["types"] = snap_types(toks)
        obs.update(snap_ers(ers))
        self.kept[op["id"]] = {"tokens": toks, "ers": ers, "f": op["f"], "obs": obs}

    def op_drop(self, t, op):
        for ref in ([op["of"]] if "of" in op else list(self.kept)):
            self.kept.pop(ref, None)
        if op.get("gc"):
            gc.collect()
            self.eng._count("gc-collection")

    def op_clock(self, t, op):
        world.clock.wall_jump += op["d"]
        if op["d"] > 0:
            world.clock.t += op.get("mono", 0.0)
        self.eng._count("clock-jump")

    def op_gc(self, t, op):
        gc.collect()
        self.eng._count("gc-collection")

    def op_thr(self, t, op):
        """The operations happen in a thread of their own, which then ends."""
        def body():
            nt = self.eng.cur
            nt.owner, nt.home = nt.tid, t.home
            for o in op["ops"]:
                self.eng.point(nt)
                self.step(nt, o)
        self.eng._count("short-lived-thread")
        self.eng.in_thread(body)

    def op_die(self, t, op):
        """The thread ends here for good."""
        self.eng._count("thread-death")
        t.died = True

    def op_sleep(self, t, op):
        self.eng.sleep(op["d"])

    # ---- nested (signal handler / finaliser at an arbitrary point of the same thread)
    def nested(self, t, f):
        t.in_nested += 1
        q, t.quiet = t.quiet, 1
        saved = (t.ev, t.next_at, t.pending, t.limit, t.depth_limit, t.depth_fault, t.fired)
        try:
            self.step(t, f["op"])
        finally:
            (t.ev, t.next_at, t.pending, t.limit, t.depth_limit, t.depth_fault, t.fired) = saved
            t.quiet = q if self.child is None else 1
            t.in_nested -= 1

    # ---- fork
    def op_fork(self, t, op):
        """fork() now, whatever the other threads are in the middle of; the child goes on alone."""
        jobs = op["fs"]
        r, w = os.pipe()
        self.eng._count("fork")
        mid = sum(1 for x in self.eng.tasks if x is not t and x.state != "done" and x.ev > 0 and not x.quiet)
        if mid:
            self.eng._count("fork-with-thread-mid-call")
        pid = os.fork()
        if pid == 0:
            out, onward = [], False
            try:
                os.close(r)
                import resource
                resource.setrlimit(resource.RLIMIT_CPU, (20, 22))
                self.eng.forked()
                t.quiet = 1

                def send():
                    with os.fdopen(w, "wb") as fh:
                        fh.write(pickle.dumps(out))
                    os._exit(0)

                def dead():
                    out.append("deadlock")
                    send()
                self.eng.on_deadlock = dead
                for n, i in enumerate(jobs):
                    def one():
                        try:
                            return alone(self.plan["fields"][i], self.parser(op.get("p", 0)) if n % 2 == 0 else None, views=op.get("views", False))
                        except BaseException as e:
                            return {"failed": repr(e)}
                    via = op.get("via", "same") if n else "same"
                    out.append(one() if via == "same" else self.eng.in_thread(one) if via == "thread" else in_fork(one))
                if not (op.get("onward") and t.in_nested):
                    send()
                onward, before = True, len(self.eng.violations)
                self.judge = {"result", "tokens", "inputs", "crash"}

                def child(failed):
                    out.append({"failed": repr(failed)} if failed else {"bad": [v["detail"] for v in self.eng.violations[before:]]})
                    send()
                self.child = child
                return                            # to what was going on when the process forked; step() ends the child
            finally:
                if not onward:
                    os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        out = pickle.loads(data) if data else ["no answer"]
        for n, i in enumerate(jobs):
            got = out[n] if n < len(out) else "nothing"
            base = self.base[i]
            if "failed" in base:
                continue
            self.stats["compared"] += 1
            if not isinstance(got, dict):
                self.violate("fork", "the forked child could not parse %r: %s" % (self.plan["fields"][i]["t"][:120], got), op)
                return
            if "failed" in got:
                self.violate("fork", "in the forked child, %r failed: %s" % (self.plan["fields"][i]["t"][:120], got["failed"]), op)
                return
            for k in got:
                if got[k] != base.get(k):
                    self.violate("fork", "in the forked child, field %r: %s is %s, alone it is %s" % (
                        (self.plan["fields"][i]["t"][:120], k) + diff(got[k], base.get(k))), op)
                    return
        if op.get("onward") and t.in_nested:
            got = out[len(jobs)] if len(jobs) < len(out) else "nothing"
            if not isinstance(got, dict) or got.get("failed") or got["bad"]:
                self.violate("fork", "in the forked child, the call in which the process forked does not end as it should: %s" % (
                    got if not isinstance(got, dict) else got.get("failed") or got["bad"][0]), op)

    # ---- reading and printing
    def op_report(self, t, op):
        k = self.kept.get(op["of"])
        if k is None or k["ers"] is None or k.get("spoiled"):
            return
        base = self.base[k["f"]]
        what = op["what"]
        ers, toks = k["ers"], k["tokens"]
        self.stats["reports"] += 1
        if "incomplete" in base:
            self.violate("complete", "%s; field %r" % (base["incomplete"], self.plan["fields"][k["f"]]["t"][:200]), op)
        if what == "xml":
            r = self.call(t, ers.as_xml, self.faults(op, "parse"), 1 << 50)
            if self.verdict(t, op, "as_xml()", r):
                got = ("ret", r[1]) if r[0] == "ret" else ("exc", type(r[1]).__name__)
                if got != tuple(base["xml"]):
                    self.violate("view", "as_xml() gives %s, alone it gives %s" % diff(got, base["xml"]), op)
        elif what == "getters":
            def go():
                out = []
                for n in range(ers.get_number_of_elements()):
                    out.append(snap_rec(ers.get_element_at(n)))
                first, last, prev = ers.get_first_element(), ers.get_last_element(), ers.get_previous_to_last_element()
                return (out, snap_rec(first), snap_rec(last), snap_rec(prev), ers.get_number_of_errors(),
                        [snap_rec(x) for x in ers.get_all_errors()], ers.get_derived_flight_rules(),
                        ers.get_element_at(-1), [x.to_string(False) for x in ers.get_all_elements()][:1])
            r = self.call(t, go, self.faults(op, "parse"), 1 << 50)
            if self.verdict(t, op, "getters", r):
                if r[0] != "ret":
                    self.violate("view", "reading a finished route raised %s: %s" % (type(r[1]).__name__, str(r[1])[:200]), op)
                else:
                    out, a, b, c, n, errs, rules, neg, _ = r[1]
                    el = base["elements"]
                    if (out, a, b, c, n, errs, rules, neg) != (el, el[0], el[-1], el[-2], base["nerr"], base["errors"], base["rules"], None):
                        self.violate("view", "the getters give %s, alone %s" % diff(
                            (out, a, b, c, n, errs, rules, neg), (el, el[0], el[-1], el[-2], base["nerr"], base["errors"], base["rules"], None)), op)
        else:
            fn, want = {"print": (ers.print_ers, base.get("print")), "ptok": (toks.print_tokens, base.get("ptok")),
                        "rec": (lambda: ers.get_last_element().print_record(False), base.get("rec")),
                        "rec_err": (lambda: ers.get_last_element().print_record(True), base.get("rec_err")),
                        "ptok1": (lambda: toks.get_token_at(0).print_token() if toks.get_token_at(0) else None, base.get("ptok1")),
                        "desc": (lambda: api.F15TokenSyntaxDefinition().print_descriptions(), self.plan_desc)}[what]
            self.print_to(t, op, fn, want, what)
        if op.get("after", True):
            self.recheck_view(op, k)

    def op_edit(self, t, op):
        """The caller goes on editing a route it has read before."""
        k = self.kept.get(op["of"])
        if k is None or k["ers"] is None or k.get("spoiled") or "failed" in self.base[op["f"]]:
            return
        edit(k["ers"], op["e"])
        k["f"] = op["f"]
        k["obs"].update(snap_ers(k["ers"]))
        base = self.base[op["f"]]
        for key in ("elements", "errors", "rules", "n", "nerr"):
            if k["obs"][key] != base[key]:
                self.violate("view", "after the edits %s is %s, the same edits on a route nobody has read give %s" % (
                    (key,) + diff(k["obs"][key], base[key])), op)
                return

    def recheck_view(self, op, k):
        if k.get("spoiled") or k["obs"] is None:
            return
        now = snap_ers(k["ers"])
        for key in now:
            if now[key] != k["obs"][key]:
                self.violate("view-mut", "reading changed the route: %s was %s, now %s" % ((key,) + diff(k["obs"][key], now[key])), op)
                return

    def print_to(self, t, op, fn, want, what):
        spec = op.get("stream")
        if spec is None:
            mark = self.direct.mark()
            t.reporting = True
            r = self.call(t, fn, self.faults(op, "parse"), 1 << 50)
            t.reporting = False
            got = self.direct.text_of(t.tid, mark)
            if self.verdict(t, op, "printing", r):
                if r[0] == "exc":
                    self.violate("view", "printing raised %s" % type(r[1]).__name__, op)
                elif got != want:
                    self.violate("view", "printed %s, alone it prints %s" % diff(got, want), op)
            elif not want.startswith(got):
                self.violate("stream-prefix", "an interrupted report printed %s, the report is %s" % diff(got, want), op)
            return
        # real io stack over a simulated device; one thread at a time owns sys.stdout here
        txt, raw = streams.build(spec, self.eng._count)
        old, sys.stdout = sys.stdout, txt
        reps = op.get("reps", 1)
        res = []
        self.swapped.append("sys.stdout")
        look = hostset.stream(txt)
        try:
            for _ in range(reps):
                before = raw.failed
                r = self.call(t, fn, self.faults(op, "parse"), 1 << 50)
                res.append((r, raw.failed - before, self.raising(t)))
                if r[0] != "ret":
                    break
            try:
                txt.flush()
                end = None
            except Exception as e:
                end = e
            if sys.stdout is not txt or hostset.stream(txt) != look:
                self.violate("settings", "printing changed the standard output: %s -> %s" % (
                    re.sub(" at 0x[0-9a-f]+", "", str(look)), re.sub(" at 0x[0-9a-f]+", "", str(hostset.stream(sys.stdout)))), op)
        finally:
            sys.stdout = old
            self.swapped.remove("sys.stdout")
        enc = spec.get("encoding", "utf-8")
        errors = spec.get("errors", "strict")
        full = (want * reps)
        try:
            expect = full.encode(enc, errors)
            encodable = True
        except UnicodeEncodeError:
            encodable = False
            # up to the first piece that cannot be encoded
            cut = 0
            while True:
                try:
                    full[:cut + 1].encode(enc)
                    cut += 1
                except UnicodeEncodeError:
                    break
            expect = full.encode(enc, "ignore")[:len(full[:cut].encode(enc))]
            self.eng._count("stream:narrow-encoding")
        got = bytes(raw.data)
        for r, failed, intr in res:
            if r[0] == "stop":
                self.violate("progress", "printing did not finish", op)
                return
            if r[0] == "ret" and failed and spec.get("error") != "EAGAIN":      # io keeps what a busy device refused
                self.violate("stream-silent", "the output device failed %d times with %s while %s printed, yet it returned normally" % (
                    failed, spec.get("error"), what), op)
                return
            if r[0] == "ret" and intr:
                self.violate("swallow", "printing returned although %s struck inside it" % json.dumps(intr[0]), op)
                return
        ok = all(r[0] == "ret" for r, _, _ in res)
        if ok and not encodable:
            self.violate("stream-silent", "text that the %s stream cannot represent was printed without an error" % enc, op)
        elif not ok and encodable and raw.failed == 0 and not any(i for _, _, i in res):
            self.violate("stream-incomplete", "printing raised %r on a device without hard errors" % (res[-1][0][1],), op)
        elif not expect.startswith(got):
            self.violate("stream-prefix", "the device received %s, which is not a prefix of the report %s" % diff(
                got.decode(enc, "replace"), expect.decode(enc, "replace")), op)
        elif ok and encodable and end is None and raw.failed == 0 and got != expect:
            self.violate("stream-incomplete", "the device received %s, the report is %s" % diff(
                got.decode(enc, "replace"), expect.decode(enc, "replace")), op)
        elif ok and encodable and end is None and raw.failed and got != expect:
            self.violate("stream-silent", "a device that was busy for a while received %s, the report is %s" % diff(
                got.decode(enc, "replace"), expect.decode(enc, "replace")), op)
        # retry on a healthy stream: complete
        if op.get("retry", True):
            got = capture(fn)
            if got != want:
                self.violate("stream-incomplete", "after the failure a new report reads %s instead of %s" % diff(got, want), op)

    def op_main(self, t, op):
        """The shipped example program, run as it stands."""
        self.stats["reports"] += 1
        code = self.prog

        def go():
            try:
                exec(code, {"__name__": "__main__", "__file__": code.co_filename, "__builtins__": builtins})
            except SystemExit as e:
                if e.code not in (None, 0) or "simulated" in str(e):
                    raise
        self.print_to(t, op, go, self.plan["_main"], "main.py")

    # ---- containers against models
    def op_tokens(self, t, op):
        key = op.get("key", op["id"])
        st = self.kept.get(("tokens", key))
        if st is None:
            st = self.kept[("tokens", key)] = (api.Tokens(), models.TokensModel([plain(api.TokenBaseType.F15_UNKNOWN), plain(api.TokenSubType.F15_SB_UNKNOWN)]))
        real, m = st

        def apply(o):
            k = o[0]
            if k == "append":
                return real.append_token(api.Token(o[1], o[2], o[3]))
            if k == "create":
                return real.create_append_token(o[1], o[2], o[3])
            if k == "many":
                for w, a, z in models.many(o):
                    real.create_append_token(w, a, z)
                return None
            if k == "insert":
                return real.insert_token(api.Token(o[1], o[2], o[3]), o[4])
            if k == "tset":
                x = real.get_token_at(o[1])
                if x is not None:
                    (x.set_token_string, x.set_token_start_index, x.set_token_end_index, x.set_token_base_type, x.set_token_sub_type)[o[2]](o[3])
                return None
            return {"at": lambda: real.get_token_at(o[1]), "first": real.get_first_token, "last": real.get_last_token,
                    "next": real.get_next_token, "prev": real.get_previous_token, "peekn": lambda: real.peek_next_token(*o[1:]),
                    "peekp": lambda: real.peek_previous_token(*o[1:]), "cur": real.get_current_token,
                    "n": real.get_number_of_tokens, "cut": lambda: real.remove_tokens_from_end_of_list(o[1])}[k]()

        def key_of(x):
            return None if x is None else (x.get_token_string(), x.get_token_start_index(), x.get_token_end_index(),
                                           plain(x.get_token_base_type()), plain(x.get_token_sub_type()))

        def state():
            return ([key_of(x) for x in real.get_tokens()], key_of(real.get_current_token()), real.get_number_of_tokens())

        def mstate(mm):
            return ([tuple(x) for x in mm.l], mm.at(mm.c), len(mm.l))
        for n, o in enumerate(op["seq"]):
            fl = [f for f in op.get("faults", ()) if f["n"] == n]
            before = m.copy()
            if o[0] in ("peekn", "peekp") and len(o) == 1:
                want = m.do((o[0], 1))
            else:
                want = m.do(o)
            r = self.call(t, lambda: apply(o), fl, 20000 + 200 * len(m.l) + (200 * o[1] if o[0] == "many" else 0))
            bad = self.raising(t)
            if r[0] == "stop":
                self.violate("progress", "token list operation %r did not finish" % (o,), op)
                return
            if bad:
                self.stats["interrupted"] += 1
                if r[0] == "ret":
                    self.violate("swallow", "operation %r returned although interrupted" % (o,), op)
                    return
                s = state()
                if s != mstate(m) and s != mstate(before):
                    self.violate("container", "operation %r interrupted half way left %s, expected %s or %s" % (
                        o, short(s), short(mstate(before)), short(mstate(m))), op)
                    return
                if s[0] != mstate(m)[0]:
                    m.l = before.l
                real.get_first_token()
                m.do(("first",))
                continue
            self.stats["compared"] += 1
            if r[0] == "exc":
                self.violate("container", "operation %r raised %s" % (o, type(r[1]).__name__), op)
                return
            got = r[1] if o[0] == "n" else key_of(r[1]) if o[0] not in ("append", "create", "insert", "tset", "cut", "many") else None
            if got != want:
                self.violate("container", "token list operation %d %r returned %r, expected %r" % (n, o, got, want), op)
                return
            s = state()
            if s != mstate(m):
                self.violate("container", "after operation %d %r the token list is %s, expected %s" % (n, o, short(s), short(mstate(m))), op)
                return

    def op_ers(self, t, op):
        key = op.get("key", op["id"])
        st = self.kept.get(("ers", key))
        P, A = int(api.TokenBaseType.F15_POINT), int(api.TokenSubType.F15_SB_PRP_AERO)
        if st is None:
            st = self.kept[("ers", key)] = (api.ExtractedRouteSequence(), models.ErsModel(P, A))
        real, m = st

        def val(r, fld):
            v = getattr(r, "is_lat_long_valid" if fld == "lat_long_valid" else "get_" + fld)()
            return int(v) if isinstance(v, int) and not isinstance(v, bool) else v

        def key_of(r):
            return None if r is None else tuple(val(r, x) for x in models.REC_FIELDS)

        def state():
            return ([key_of(x) for x in real.get_all_elements()], [key_of(x) for x in real.get_all_errors()], real.get_derived_flight_rules())

        def apply(o):
            k = o[0]
            if k == "create":
                return real.create_append_element(*o[1:6])
            if k == "many":
                for w, a, z in models.many(o):
                    real.add_error(w, a, z, 1, 1, o[4]) if o[4] else real.create_append_element(w, a, z, 1, 1)
                return None
            if k == "append":
                return real.append_element(api.ExtractedRouteRecord(*o[1:6]))
            if k == "ades":
                return real.add_dummy_ades()
            if k == "error":
                return real.add_error(*o[1:7])
            if k in ("brk", "err", "stay", "set", "get"):
                lst = real.get_all_errors() if o[1] else real.get_all_elements()
                if o[2] >= len(lst):
                    return None
                r = lst[o[2]]
                if k == "brk":
                    return r.append_break_text(o[3])
                if k == "err":
                    return r.append_error_text(o[3])
                if k == "stay":
                    return r.set_stay_time(o[3])
                if k == "get":
                    return val(r, o[3])
                return getattr(r, "set_" + o[3])(o[4])
            return {"at": lambda: real.get_element_at(o[1]), "first": real.get_first_element, "last": real.get_last_element,
                    "prev": real.get_previous_to_last_element, "n": real.get_number_of_elements, "nerr": real.get_number_of_errors,
                    "rules": lambda: real.set_derived_flight_rules(o[1]), "getrules": real.get_derived_flight_rules}[k]()
        for n, o in enumerate(op["seq"]):
            fl = [f for f in op.get("faults", ()) if f["n"] == n]
            before = m.copy()
            want = m.do(o)
            r = self.call(t, lambda: apply(o), fl, 50000 + (400 * o[1] if o[0] == "many" else 0))
            bad = self.raising(t)
            if r[0] == "stop":
                self.violate("progress", "route operation %r did not finish" % (o,), op)
                return
            if bad:
                self.stats["interrupted"] += 1
                if r[0] == "ret":
                    self.violate("swallow", "operation %r returned although interrupted" % (o,), op)
                    return
                s = state()
                if s == before.key():
                    self.kept[("ers", key)] = (real, before)
                    m = before
                elif s != m.key():
                    self.violate("container", "operation %r interrupted half way left %s, expected %s or %s" % (
                        (o,) + (diff(s, before.key())[0], diff(before.key(), s)[0], diff(m.key(), s)[0])), op)
                    return
                continue
            self.stats["compared"] += 1
            if r[0] == "exc":
                self.violate("container", "route operation %d %r raised %s: %s" % (n, o, type(r[1]).__name__, str(r[1])[:100]), op)
                return
            got = r[1]
            if o[0] in ("create", "append", "ades", "at", "first", "last", "prev"):
                got, want = key_of(got), None if want is None else tuple(want[x] for x in models.REC_FIELDS)
            elif o[0] in ("error", "brk", "err", "stay", "set", "rules", "many"):
                got = None
            if got != want:
                self.violate("container", "route operation %d %r returned %s, expected %s" % ((n, o) + diff(got, want)), op)
                return
            s = state()
            if s != m.key():
                self.violate("container", "after route operation %d %r: %s, expected %s" % ((n, o) + diff(s, m.key())), op)
                return

    # ---- helpers library
    def op_utils(self, t, op):
        if self.utils is None:
            self.utils = api.Utils()
        u = self.utils
        U = api.Utils
        for n, (k, args) in enumerate(op["calls"]):
            fl = [f for f in op.get("faults", ()) if f["n"] == n]
            fn = {"deg": lambda: U.is_degree_semantics(*args), "degmin": lambda: U.is_degree_minute_semantics(*args),
                  "sound": lambda: U.speed_of_sound_at_altitude(*args), "mach": lambda: U.mach_to_ms_speed(*args),
                  "proj": lambda: u.get_bearing_distance_projected_point(*args),
                  "inv": lambda: u.get_bearing_distance_between_points(*args)}[k]
            r = self.call(t, fn, fl, 20000)
            if r[0] == "stop":
                self.violate("progress", "helper %s did not finish" % k, op)
                return
            bad = self.raising(t)
            if bad:
                self.stats["interrupted"] += 1
                if r[0] == "ret":
                    self.violate("swallow", "helper %s%r returned although interrupted" % (k, tuple(args)), op)
                continue
            self.stats["compared"] += 1
            want = models.UTILS[k](*args)
            if r[0] == "exc":
                self.violate("utils", "helper %s%r raised %s" % (k, tuple(args), type(r[1]).__name__), op)
                return
            ok = False
            try:
                ok = models.close(r[1], want)
            except TypeError:
                pass
            if not ok:
                self.violate("utils", "helper %s%r gave %r, the formula gives %r" % (k, tuple(args), r[1], want), op)
                return
            if k in ("proj", "inv") and op.get("scribble"):
                r[1][0] = -999.0           # the returned list is the caller's own

    def op_classify(self, t, op):
        probes = self.plan["probes"]
        sel = op.get("sel", range(len(probes)))
        d = api.F15TokenSyntaxDefinition()
        want = self.plan_cls
        for n in sel:
            fl = [f for f in op.get("faults", ()) if f["n"] == n]
            r = self.call(t, lambda: d.get_token_type(probes[n]), fl, 60000)
            if r[0] == "stop":
                self.violate("progress", "classification did not finish", op)
                return
            if self.raising(t):
                if r[0] == "ret":
                    self.violate("swallow", "classification returned although interrupted", op)
                continue
            self.stats["compared"] += 1
            got = tuple(plain(x) for x in r[1]) if r[0] == "ret" else ("exc", type(r[1]).__name__)
            if got != want[n]:
                self.violate("classify", "token %r is classified %r, in a fresh process %r" % (probes[n], got, want[n]), op)
                return
        if op.get("msgs"):
            now = messages()
            if now != self.plan_msgs:
                self.violate("classify", "error messages drifted: %s, fresh %s" % diff(now, self.plan_msgs), op)
            if descriptions() != self.plan_desc:
                self.violate("classify", "the printed token table drifted", op)

    def op_table(self, t, op):
        """The table of patterns is printed."""
        self.print_to(t, op, lambda: api.F15TokenSyntaxDefinition().print_descriptions(), self.plan_desc, "desc")

    # ---- accumulation
    def op_leak(self, t, op):
        """Phases of identical work; what is still alive after each phase must not grow."""
        kinds = (api.Token, api.Tokens, api.Tokenize, api.ParseF15, api.ExtractedRouteSequence, api.ExtractedRouteRecord, api.Utils,
                 api.F15TokenSyntaxDefinition)

        def live():
            gc.collect()
            return sum(1 for o in gc.get_objects() if isinstance(o, kinds))
        counts, blocks, volumes, opened = [], [], [], []
        fresh = op.get("fresh", 0)
        gc.unfreeze()
        done = 0

        def phase(times):
            nonlocal done
            for rep in range(op["reps"] * times):
                for j in op["jobs"]:
                    if j["op"] == "job":
                        self.op_job(t, j)
                    else:
                        getattr(self, sys.intern("op_" + j["op"]))(t, j)
                self.kept.clear()
                self.tokenizers.clear()
                self.holds.clear()
                if op.get("newparser"):
                    self.parsers.clear()
            for n in range(fresh * times):
                f = fresh_field(done)
                done += 1

                def work():
                    try:
                        tk = api.Tokenize()
                        tk.set_whitespace(f["w"])
                        tk.set_string_to_tokenize(f["t"])
                        tk.tokenize()
                        e = api.ExtractedRouteSequence()
                        self.parser(0).parse_f15(e, tk.get_tokens())
                        e.as_xml()
                    except Exception:
                        pass
                if op.get("threads"):             # each field in a thread of its own that ends afterwards
                    def body():
                        me = threading.get_ident()
                        threading._active.pop(me, None)
                        threading._DummyThread()      # what current_thread() gives: a new object for every thread
                        try:
                            work()
                        finally:
                            threading._active.pop(me, None)
                    self.eng.in_thread(body)
                else:
                    work()
            self.eng.decisions.clear()
            self.direct.chunks.clear()
            counts.append(live())
            blocks.append(sys.getallocatedblocks())
            volumes.append(volume((counts, blocks, volumes, opened)))
            opened.append(len(os.listdir("/proc/self/fd")) + sum(1 for x in world.engine.tasks if x.state != "done"))

        def growing(floor):
            """Which measure grew in each of the last two phases."""
            for what, seq in (("objects still alive", counts), ("memory blocks in use", blocks),
                              ("container entries and characters held", volumes), ("open files and running threads", opened)):
                if seq[-1] - seq[-2] >= floor and seq[-2] - seq[-3] >= floor:
                    return what, seq
            return None
        for _ in range(op["phases"]):
            phase(1)
        self.stats["compared"] += 1
        self.leak = (counts, blocks, volumes)
        floor = max(7, (fresh or op["reps"]) // 3)
        if growing(floor):
            # something that fills up to a limit would stop; what accumulates goes on
            for _ in range(3):
                phase(10)
            g = growing(10 * floor)
            if g:
                self.violate("leak", "%s after phases of %d operations (the last three ten times as long) with nothing referenced keep "
                             "growing: %s" % (g[0], op["reps"] * len(op["jobs"]) + fresh, g[1]), op)

    # -------------------------------------------------------- the run
    def run(self):
        plan = self.plan
        world.reset(plan["seed"])
        if any(o["op"] == "main" for ops in plan["tasks"] for o in flat(ops)):
            self.prog = main_code()
        if any(o["op"] == "ship" and o["where"] == "fresh" for ops in plan["tasks"] for o in flat(ops)):
            self.set_aside()
        self.plan_desc = plan.get("_desc")
        self.plan_cls = plan.get("_cls")
        self.plan_msgs = plan.get("_msgs")
        world.simulate_imports = bool(plan.get("imports"))
        eng = self.eng
        eng.enter()
        self.direct = streams.DirectText(eng, None)
        old_out, old_err = sys.stdout, sys.stderr
        old_limit = sys.getrecursionlimit()
        if plan.get("stack"):
            sys.setrecursionlimit(20000)
        sys.argv = [os.path.join(world.REPO, "main.py")] + plan.get("argv", [])
        sys.stdout = self.direct
        for ops in plan["tasks"]:
            eng.add(lambda t, ops=ops: self.main(t, ops))
        if plan.get("profile"):
            eng.profile = {}
        for what, v in plan.get("host", ()):
            hostset.apply(what, v)
        if "settings" in self.judge:
            if world.import_changed:
                self.violate("settings", "importing the library changed a setting of the process: %s" % world.import_changed)
            self.host = hostset.take()
            eng.host.own = hostset.take(hostset.THREAD)
        for op in plan.get("prep", ()):
            self.prep(op)
        self.settings(eng.host, {"id": "prep"})
        try:
            eng.run()
        finally:
            self.settings(None, {"id": "end"})
            sys.stdout, sys.stderr = old_out, old_err
            sys.setrecursionlimit(old_limit)
        try:
            self.afterwards()
        except world.Deadlock as e:
            eng.violate("deadlock", "after the run: %s" % e)
        return {"violations": eng.violations, "decisions": eng.decisions, "steps": eng.steps, "switches": eng.switches,
                "inflight": eng.inflight_switches, "digest": eng.digest, "faults": eng.fault_counts, "stats": self.stats,
                "log": self.log, "time": world.clock.t + abs(world.clock.wall_jump), "profile": eng.profile,
                "evs": [t.last_ev for t in eng.tasks if not t.lib], "leak": getattr(self, "leak", None)}

    def afterwards(self):
        """The process is quiet again."""
        plan = self.plan
        if plan.get("final", True) and not self.eng.dead_locked:
            for ref in list(self.kept):
                if isinstance(ref, int):
                    self.recheck({"id": "end"}, ref)
        if self.judge & {"result"} and plan.get("after") and not self.eng.dead_locked:
            for i in plan["after"]:               # fresh work gives the fresh result
                if "failed" not in self.base[i]:
                    o = alone(plan["fields"][i], self.parser(0), views=False)
                    self.compare({"id": "after"}, i, o, self.base[i])
        if plan.get("after") and not self.eng.dead_locked and self.host is not None:
            self.host["sys.stdout"] = hostset.PROCESS["sys.stdout"]()
            self.host["sys.stderr"] = hostset.PROCESS["sys.stderr"]()
            self.host["recursion limit"] = sys.getrecursionlimit()
            for i in plan["after"]:               # in the main thread of the process
                alone(plan["fields"][i], self.parser(0))
            self.settings(self.eng.host, {"id": "after"})


def flat(ops):
    """All operations, those inside others included."""
    for o in ops:
        yield o
        for key in ("ops", "handlers", "late"):
            yield from flat(o.get(key, ()))
        yield from flat([f["op"] for f in o.get("faults", ()) if "op" in f])


def volume(skip):
    """Entries of every container and characters of every string that is reachable."""
    skip = {id(x) for x in skip}
    seen = set()
    total = 0
    for o in gc.get_objects():
        if id(o) in skip:
            continue
        if isinstance(o, (list, tuple, dict, set, frozenset)):
            total += len(o)
        elif isinstance(o, (collections.deque, array.array)):
            total += len(o)
        elif isinstance(o, io.StringIO) and not o.closed:
            total += len(o.getvalue())
        elif isinstance(o, io.BytesIO) and not o.closed:
            total += o.getbuffer().nbytes
        stack = [o]
        while stack:
            for r in gc.get_referents(stack.pop()):
                if gc.is_tracked(r) or id(r) in seen:
                    continue
                seen.add(id(r))
                if isinstance(r, (str, bytes, bytearray, array.array)):
                    total += len(r)
                elif isinstance(r, int):
                    total += r.bit_length() // 64
                elif isinstance(r, (tuple, dict)):
                    total += len(r)
                    stack.append(r)
    return total


def fresh_field(n):
    """The n-th of a sequence of fields that share nothing: every kind of token, never the same twice."""
    w, j = "", n * 7919 % 11881376
    for _ in range(5):
        w = chr(65 + j % 26) + w
        j //= 26
    k = n % 6
    extra = ["%s%s DCT %s %02dN%03dE" % (w[:3], n % 1000, w, n % 90, n % 180), w + "%", w * 6, "C/%s/N%04dF350F%03d" % (w, n % 10000, n % 1000),
             "%02d%02dN%03d%02dE%03d%03d" % (n % 90, n % 60, n % 180, n % 60, n % 360, n % 1000),
             "%s VFR %s TEXT IFR %s/M%03dS%04d" % (w, w[1:], w[:3], n % 1000, n % 10000)][k]
    f = fields.field(random.Random(n))
    return {"t": "%s %s" % (f["t"], extra) if n % 2 else "N%04dF%03d %s %s" % (n % 10000, n % 1000, extra, f["t"]), "w": fields.WS_FULL}


def hash_str(s):
    h = 2166136261
    for c in s.encode("utf-8", "surrogatepass")[:4000]:
        h = ((h ^ c) * 16777619) & 0xFFFFFFFF
    return h


def short(x, n=240):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def diff(a, b):
    """Short renderings of a and b at the first place they differ."""
    path = ""
    while True:
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                for k, (x, y) in enumerate(zip(a, b)):
                    if x != y:
                        path += "[%d]" % k
                        a, b = x, y
                        break
                else:
                    k = min(len(a), len(b))
                    pa = path + " length %d: ...%s" % (len(a), short(a[k:k + 2]))
                    return pa, path + " length %d: ...%s" % (len(b), short(b[k:k + 2]))
                continue
            for k, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    path += "[%d]" % k
                    a, b = x, y
                    break
            else:
                return short(a), short(b)
            continue
        if isinstance(a, str) and isinstance(b, str) and len(a) > 120:
            k = 0
            while k < min(len(a), len(b)) and a[k] == b[k]:
                k += 1
            return "%s@%d %r (length %d)" % (path, k, a[max(0, k - 20):k + 60], len(a)), \
                "%s@%d %r (length %d)" % (path, k, b[max(0, k - 20):k + 60], len(b))
        return path + short(a), path + short(b)
