"""Per property: which runs are generated and which violation classes count."""
import calendar
import random

import fields as F
import hostset
import models
import world

SOFT = ["gc", "clock", "stall"]
ASYNC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "MemoryError", "Timeout", "Timeout", "SystemExit", "RecursionError"]
HANDLER = ["OSError", "InterruptedError", "GeneratorExit", "Timeout"]      # not the kinds a table lookup may catch itself


class B:
    """Plan builder."""

    def __init__(self, r, ctx, judge, gran=None, instr_p=0.12):
        self.r, self.ctx = r, ctx
        self.gran = gran or ("instr" if r.random() < instr_p else "line")
        self.p = {"seed": r.randrange(1 << 40), "judge": judge, "tasks": [], "fields": [], "gran": self.gran}
        self.map = {}
        self.next = 1
        self.focus = None

    def f(self, i):
        """Use universe field i; returns its index in the plan."""
        if i not in self.map:
            self.map[i] = len(self.p["fields"])
            self.p["fields"].append(self.ctx.fields[i])
        return self.map[i]

    def new(self, f):
        """A field of this run only; returns its index in the plan."""
        self.p["fields"].append(f)
        return len(self.p["fields"]) - 1

    def id(self):
        self.next += 1
        return self.next - 1

    def op(self, kind, **kw):
        kw.update(op=kind, id=self.id())
        return kw

    def meet(self, fs, phase="parse", report=False, p=0.35):
        """Threads meet at one place of the code which the fields pass: fs with some fields replaced."""
        if self.gran == "none" or self.r.random() >= p:
            return fs
        self.focus, self.reach = self.ctx.meet(self.r, phase, self.gran, report)
        fs = list(fs)
        for k in range(len(fs)):
            if k == 0 or self.r.random() < 0.6:
                fs[k] = self.r.choice(self.reach)
        return fs

    def sched(self, est=3000, report=False, phase=None):
        r = self.r
        k = r.random() if self.focus is None else 0.0
        if self.gran == "instr":
            est *= 5
        if k < 0.34:
            s = {"kind": "hot", "locs": self.ctx.locs(r, r.choice([1, 1, 2, 3, 6, 12]), gran=self.gran if self.gran != "none" else "line",
                                                      phase=phase or r.choice(["parse", "parse", "parse", "tok"]), report=report),
                 "p": r.choice([0.05, 0.3, 0.6, 1.0])}
            if self.focus is not None:
                s["locs"] = [self.focus] + s["locs"][:1 if r.random() < 0.3 else 0]
                s["p"] = r.choice([0.3, 0.6, 1.0])
        elif k < 0.58:
            s = {"kind": "rand", "mean": r.choice([2, 5, 15, 40, 120, 400, 1500])}
        elif k < 0.75:
            s = {"kind": "mix", "means": r.choice([[2, 400], [5, 60, 900], [3, 2000], [1, 30, 300]])}
        elif k < 0.85:
            s = {"kind": "rr", "q": r.choice([1, 2, 3, 7, 20, 100, 333])}
        else:
            s = {"kind": "pct", "d": r.choice([1, 2, 3, 5, 8]), "len": est * max(1, len(self.p["tasks"]))}
        if self.gran == "none":
            s = {"kind": "rand", "mean": r.choice([1, 2, 5])}
        self.p["sched"] = s
        if len(self.p["tasks"]) > 1 and r.random() < 0.4:
            self.p["names"] = "worker"            # every thread of the pool has the same name
        if "idents" not in self.p and r.random() < 0.5:
            self.p["idents"] = "reuse"
        return self.p

    def brief(self, p):
        """Some operations happen in threads that live no longer than that."""
        for ops in self.p["tasks"]:
            out = []
            for o in ops:
                if self.r.random() < p and o["op"] not in ("die", "bulk", "mega", "quit"):
                    if out and out[-1]["op"] == "thr" and self.r.random() < 0.3:
                        out[-1]["ops"].append(o)
                    else:
                        out.append(self.op("thr", ops=[o]))
                else:
                    out.append(o)
            ops[:] = out

    def soft(self, n=1, p=0.35):
        """Harmless disturbances inside an operation."""
        out = []
        if self.gran == "none" or self.r.random() > p:
            return out
        for _ in range(n):
            k = self.r.choice(SOFT)
            at = 1 + int(self.r.expovariate(1 / 600.0))
            if k == "gc":
                out.append({"kind": "gc", "at": at})
            elif k == "clock":
                out.append({"kind": "clock", "at": at, "d": self.r.choice([-86400.0, -1.0, 0.5, 61.0, 3601.0, 1e6])})
            else:
                out.append({"kind": "stall", "at": at, "d": self.r.choice([1e-4, 1e-3, 1e-2, 1.0])})
        return out

    def exc(self, at, kinds=ASYNC):
        return {"kind": "exc", "exc": self.r.choice(kinds), "at": at}


def mixfields(b, n):
    """n universe indices with repeats and siblings."""
    r, ctx = b.r, b.ctx
    fam = [ctx.family(r) for _ in range(r.choice([1, 1, 2, 3]))]
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.25 and out:
            out.append(r.choice(out))
        elif k < 0.75:
            out.append(r.choice(r.choice(fam)))
        else:
            out.append(ctx.pick(r))
    return out


# ---------------------------------------------------------------------------------------------- C01
def c01(r, ctx, i):
    b = B(r, ctx, ["result", "later", "tokens"])
    nt = r.choice([2, 2, 2, 3, 3, 4, 6])
    per = r.choice([1, 1, 2, 3, 4])
    fs = mixfields(b, nt * per)
    np = r.choice([1, 1, 1, 1, 2])
    fs = b.meet(fs, p=0.4)
    for t in range(nt):
        ops = []
        for k in range(per):
            ops.append(b.op("job", f=b.f(fs[t * per + k]), p=r.randrange(np), tk=r.choice(["new", "new", "a", "a", "hand"]), faults=b.soft(p=0.15)))
        b.p["tasks"].append(ops)
    b.p["after"] = [b.f(r.choice(fs))]
    if r.random() < 0.1:
        b.p["tasks"][0].append(b.op("die"))
    if r.random() < 0.15:
        b.brief(r.choice([0.3, 1.0]))
    return b.sched()


# ---------------------------------------------------------------------------------------------- C02
ODD_WS = [" \n\t\r/", " \n\t\r", " ", "/", "", " /", "AB", "/ \n", "\t", " \n\t\r/-.", "0", "É /", " \u00a0/"]


def odd_text(r):
    k = r.random()
    if k < 0.4:
        return F.field(r)["t"]
    if k < 0.6:
        return "".join(r.choice("AB/ \t\n\r0-.É\u00a0\u2003") for _ in range(r.randrange(0, 60)))
    if k < 0.7:
        return r.choice(["", " ", "/", "//", " / ", "A", "/A", "A/", "\n\n", "A  B", "A//B", " A", "A ", "\tA/\r\nB\t", "A/ /B"])
    if k < 0.8:
        return r.choice(" /A") * r.randrange(1, 90)
    if k < 0.9:
        return "X" * r.randrange(1, 200) + r.choice([" ", "/"]) + "Y" * r.randrange(0, 40)
    return " ".join(F._l(r, r.randrange(1, 7)) for _ in range(r.randrange(30, 200)))


def long_text(r):
    """Thousands of characters, around the sizes at which something that works in blocks goes over to the next."""
    n = r.choice([1000, 1024, 4096, 8192, 16384, 65536, r.randrange(500, 9000)]) + r.choice([0, 1, 2, -1, r.randrange(-40, 40)])
    k = r.random()
    if k < 0.3:
        unit = " ".join(F._l(r, r.randrange(1, 7)) for _ in range(r.randrange(1, 12))) + r.choice([" ", "/", "\n", "  "])
    elif k < 0.6:
        unit = F.field(r)["t"] + " "
    elif k < 0.8:
        unit = F._l(r, 1)
    else:
        unit = r.choice(["A ", "AB/", " ", "/", "A\t\r\n", "XYZ  "])
    return (unit * (n // len(unit) + 1))[:n] + r.choice(["", "", " Z", "/"])


def c02(r, ctx, i):
    if i % 40 == 7:
        b = B(r, ctx, ["tokens", "later"], gran="none")
        b.p["fields"] = [{"t": long_text(r), "w": r.choice([F.WS_FULL, F.WS_FULL, " ", "", "/"])} for _ in range(2)]
        b.p["tasks"] = [[b.op("tok", f=r.randrange(2), tk=r.choice(["new", "a"]), faults=[]) for _ in range(3)] for _ in range(r.choice([1, 2]))]
        return b.sched()
    b = B(r, ctx, ["tokens", "later"])
    nt = r.choice([1, 2, 2, 3, 4])
    texts = [odd_text(r) for _ in range(r.choice([1, 2, 4, 6]))]
    for x in list(texts):
        if x and r.random() < 0.6:
            texts.append(F.sibling(r, {"t": x, "w": ""})["t"])
    ws = [r.choice(ODD_WS) if r.random() < 0.6 else F.WS_FULL for _ in range(2)]
    combos = [{"t": x, "w": r.choice(ws)} for x in texts]
    if r.random() < 0.5:
        combos.append({"t": texts[0], "w": r.choice(ODD_WS)})
    b.p["fields"] = combos
    for t in range(nt):
        ops = []
        for k in range(r.randrange(1, 6)):
            o = b.op("tok", f=r.randrange(len(combos)), tk=r.choice(["new", "a", "a", "b"]))
            o["faults"] = [dict(x, ph="tok") for x in b.soft(p=0.15)]
            if r.random() < 0.15:
                o["prefill"] = r.choice(texts)
            ops.append(o)
            if r.random() < 0.15:
                ops.append(b.op("recheck", of=r.choice(ops)["id"]))
        b.p["tasks"].append(ops)
    return b.sched(est=400, phase="tok")


# ---------------------------------------------------------------------------------------------- C03
EDITS = [("set_error_text", ["BAD", "W\u00fcrzburg", ""]), ("set_break_text", ["FREE TEXT", "", "100%% {0} \\1 & <b>"]), ("append_break_text", ["MORE"]),
         ("append_error_text", ["WORSE"]), ("set_stay_time", ["0130"]), ("set_name", ["RENAMED", "A" * 30, "A%%B", "{x}", "\\g<0>", "%(n)s"]), ("set_flight_rules", ["VFR", ""]),
         ("set_bearing", [359.996]), ("set_distance", [1e9]), ("set_altitude_cruise_to", ["PLUS"]), ("set_altitude_cruise_to_si", [11278]),
         ("set_latitude", [-0.001]), ("set_speed", ["N0450"]), ("set_lat_long_valid", [True])]


def edited(b, fs, prep):
    """One of the prepared routes was completed by hand, as the documentation tells the caller to."""
    r = b.r
    if r.random() < 0.4:
        b.p["fields"].append(dict(b.ctx.fields[fs[0]], e=edits(r)))
        prep[0]["f"] = len(b.p["fields"]) - 1


def edits(r):
    es = []
    for _ in range(r.choice([1, 2, 5, 12])):
        if r.random() < 0.2:
            rec = [r.choice(["NEW", "N!W", "A%%B"]), 3, 7, 1, 2]
            es.append([2, 0] + r.choice([["create_append_element", rec], ["add_error", rec + ["'!' is late"]], ["set_derived_flight_rules", ["X"]],
                                         ["add_dummy_ades", []]]))
        else:
            n, vs = r.choice(EDITS)
            es.append([r.randrange(2), r.choice([0, 1, 2, -1, -2]), n, r.choice(vs)])
    return es


def further(b, p):
    """The caller edits a prepared route again, after it was read."""
    f = b.p["fields"][p.get("now", p["f"])]
    es = edits(b.r)
    b.p["fields"].append(dict(f, e=f.get("e", []) + es))
    p["now"] = len(b.p["fields"]) - 1
    return b.op("edit", of=p["id"], e=es, f=p["now"])


def c03(r, ctx, i):
    b = B(r, ctx, ["view", "view-mut", "later", "swallow"])
    fs = b.meet(mixfields(b, r.choice([1, 1, 2, 3])), report=True)
    prep = [b.op("prep", f=b.f(x)) for x in fs]
    b.p["prep"] = prep
    edited(b, fs, prep)
    nt = r.choice([2, 2, 3, 4])
    for t in range(nt):
        ops = []
        for k in range(r.randrange(1, 4)):
            kind = r.random()
            if kind < 0.12:
                ops.append(b.op("job", f=b.f(r.choice(fs)), faults=[]))
                continue
            o = b.op("report", of=r.choice(prep)["id"], what=r.choice(["xml", "xml", "print", "getters", "getters", "rec", "rec_err", "ptok", "ptok1"]))
            o["faults"] = b.soft(p=0.2)
            if r.random() < 0.2:
                o["faults"] = [b.exc(1 + int(r.expovariate(1 / 150.0)))]
            ops.append(o)
        b.p["tasks"].append(ops)
    return b.sched(est=600, report=True)


# ---------------------------------------------------------------------------------------------- C04
def stack_fault(b, sticky=False):
    return {"kind": "stack", "depth": b.r.randrange(1, 24), "sticky": sticky}


def interrupted_job(b, phase="parse", kinds=None, **kw):
    r = b.r
    f, at = b.ctx.place(r, phase, b.gran)
    if b.gran == "line" and phase == "parse" and r.random() < 0.15:
        b.p["stack"] = True
        flt = stack_fault(b, r.random() < 0.5)
        flt["ph"] = phase
    else:
        flt = b.exc(at, kinds or (ASYNC if r.random() < 0.7 else HANDLER))
        flt["ph"] = phase
    return b.op("job", f=b.f(f), faults=[flt], **kw), f


def relatives(b, f):
    """Fields whose result could depend on what an interrupted run of f left behind."""
    r, ctx = b.r, b.ctx
    fam = next((x for x in ctx.families if f in x), None)
    out = [f]
    if fam and len(fam) > 1:
        out.append(r.choice(fam))
    out += [ctx.pick(r), r.randrange(ctx.ncorpus)]
    return out


def starved(r, ctx, judge, whats):
    """Calls for which the interpreter's allocator refuses requests."""
    b = B(r, ctx, judge, gran="none")
    ops = []
    for k in range(r.choice([2, 4, 8])):
        what = r.choice(whats)
        fs = [b.f(ctx.pick(r)) for _ in range(r.choice([1, 2]))]
        for _ in range(r.choice([1, 3, 6])):
            a = 1 + int(r.expovariate(1 / r.choice([10.0, 60.0, 400.0])))
            ops.append(b.op("starve", f=r.choice(fs), p=0, what=what, at=[a, a + r.choice([1, 1, 2, 10, 60, 400])]))
        ops.append(b.op("job", f=r.choice(fs), p=0, faults=[]))
        if r.random() < 0.3:
            ops.append(b.op("job", f=b.f(ctx.pick(r)), p=r.choice([0, 1]), faults=[]))
    b.p["tasks"] = [ops]
    return b.sched()


def c04(r, ctx, i):
    if i % 12 == 7:
        return starved(r, ctx, ["swallow", "result", "later", "tokens", "inputs"], ["parse", "parse", "parse", "tok"])
    b = B(r, ctx, ["swallow", "result", "later", "tokens", "settings"])
    nt = r.choice([1, 1, 2, 2, 3])
    if i % 90 == 31:                              # many interruptions in one life
        b.gran = b.p["gran"] = "line"
        ops = []
        few = [r.randrange(ctx.ncorpus) if r.random() < 0.5 else ctx.pick(r) for _ in range(3)]
        for k in range(r.choice([40, 80, 150])):
            if r.random() < 0.6:
                ops.append(b.op("job", f=b.f(r.choice(few)), p=0, tk="a", faults=[
                    dict(b.exc(1 + int(r.expovariate(1 / r.choice([60.0, 400.0, 2000.0]))), ASYNC if r.random() < 0.7 else HANDLER), ph="parse")]))
            else:
                ops.append(interrupted_job(b, p=0, tk="a")[0])
        ops += [b.op("job", f=b.f(x), p=q, faults=[]) for x in few + [ctx.pick(r)] for q in (0, 1)]
        b.p["tasks"] = [ops]
        return b.sched()
    for t in range(nt):
        ops = []
        for k in range(r.choice([1, 1, 2, 3])):
            if t == 0 or r.random() < 0.5:
                o, f = interrupted_job(b, p=0, tk=r.choice(["new", "a"]))
                ops.append(o)
                rel = relatives(b, f)
                if r.random() < 0.25:
                    ops.append(b.op("reparse", of=o["id"], p=0))
                for x in [f] + r.sample(rel, r.randrange(1, 4)):
                    ops.append(b.op("job", f=b.f(x), p=0 if r.random() < 0.85 else 1, faults=[]))
            else:
                ops.append(b.op("job", f=b.f(ctx.pick(r)), p=0, faults=b.soft(p=0.1)))
        b.p["tasks"].append(ops)
    b.p["after"] = [b.f(ctx.pick(r)), b.f(r.randrange(ctx.ncorpus))]
    if r.random() < 0.2:
        b.brief(r.choice([0.3, 1.0]))
    return b.sched()


# ---------------------------------------------------------------------------------------------- C21
def c21(r, ctx, i):
    b = B(r, ctx, ["settings"], gran="none" if r.random() < 0.15 else None, instr_p=0.06)
    b.p["host"] = [hostset.draw(r) for _ in range(r.choice([0, 0, 2, 6]))]
    if r.random() < 0.5:
        b.p["host"].append(["signal", [r.choice([2, 10, 12, 13, 14, 15, 17]) if r.random() < 0.8 else r.choice([1, 3, 20]), r.choice(["ign", "dfl", "own"])]])
        if b.p["host"][-1][1][0] == 14:           # the simulator's own
            b.p["host"].pop()
    nt = r.choice([1, 1, 2, 2, 3])
    prep = [b.op("prep", f=b.f(ctx.pick(r))) for _ in range(2)]
    b.p["prep"] = prep
    for t in range(nt):
        ops = []
        for k in range(r.choice([1, 2, 3, 4])):
            j = r.random()
            if j < 0.3 and b.gran != "none":
                o, f = interrupted_job(b, phase=r.choice(["parse", "parse", "tok"]), p=0)
                if r.random() < 0.3:
                    o["p"] = 1
            elif j < 0.4 and b.gran != "none":
                f, at = ctx.place(r, "parse", b.gran)
                inner = r.choice([lambda: b.op("look"), lambda: b.op("host", set=[hostset.draw(r)]),
                                  lambda: b.op("job", f=b.f(ctx.pick(r)), p=0, faults=[], views="raw" if r.random() < 0.3 else None)])()
                o = b.op("job", f=b.f(f), p=0, faults=[{"kind": "nest", "at": at, "ph": "parse", "op": inner}])
            elif j < 0.55:
                o = b.op("job", f=b.f(ctx.pick(r) if r.random() < 0.8 else r.choice(ctx.long)), p=0, faults=b.soft(p=0.2), tk=r.choice(["new", "a", "hand"]))
            elif j < 0.8:
                o = b.op("report", of=r.choice(prep)["id"], what=r.choice(["xml", "print", "getters", "rec", "rec_err", "ptok", "ptok1"]))
                o["faults"] = b.soft(p=0.1)
                if r.random() < 0.35:
                    o["faults"] = [b.exc(1 + int(r.expovariate(1 / 150.0)))]
                if nt == 1 and o["what"] not in ("xml", "getters") and r.random() < 0.7:
                    o["stream"] = stream_spec(r, 3000)
            elif j < 0.86:
                o = b.op("main", faults=[b.exc(1 + int(r.expovariate(1 / 1500.0)))] if r.random() < 0.3 else [])
                if nt == 1:
                    o["stream"] = stream_spec(r, 4500)
            elif j < 0.93:
                calls = [util_call(r) for _ in range(3)]
                o = b.op("utils", calls=calls, faults=[dict(b.exc(1 + r.randrange(7)), n=r.randrange(3))] if r.random() < 0.4 else [])
            else:
                o = b.op("mutate", of=r.choice(prep)["id"], what=["tokens", "list", "route"])
            ops.append(o)
            if r.random() < 0.35:
                ops.append(b.op("host", set=[hostset.draw(r) for _ in range(r.choice([1, 1, 3]))]))
        b.p["tasks"].append(ops)
    b.p["after"] = [b.f(ctx.pick(r)), b.f(r.randrange(ctx.ncorpus))]
    if r.random() < 0.1:
        b.brief(r.choice([0.3, 1.0]))
    return b.sched()


# ---------------------------------------------------------------------------------------------- C22
def c22(r, ctx, i):
    b = B(r, ctx, ["ship", "later", "swallow", "reparse", "view", "view-mut"], gran="none" if r.random() < 0.3 else None, instr_p=0.06)
    nt = r.choice([1, 1, 2, 2, 3])
    far = i % 30 == 11                            # an interpreter of its own
    for t in range(nt):
        ops, have = [], []
        if r.random() < 0.06:
            ops.append(b.op("big", many=["many", r.choice(MANY), F._l(r, 3), r.randrange(50)], err=r.random() < 0.3, what=r.randrange(2),
                            how=r.choice([None, 0, 1, 2, 3, 4, 5]), where=r.choice(["here", "here", "fork"])))
        for k in range(r.choice([1, 2, 3])):
            if b.gran != "none" and r.random() < 0.3:
                o, _ = interrupted_job(b, p=0, retry=True)
            else:
                o = b.op("job", f=b.f(ctx.pick(r)), p=0, faults=b.soft(p=0.1), tk=r.choice(["new", "a", "hand"]))
            ops.append(o)
            have.append((o["id"], o["f"]))
            for _ in range(r.choice([1, 1, 2, 3])):
                of, f = r.choice(have)
                s = b.op("ship", of=of, what=r.choice(["tokens", "route", "route", "both"]), how=r.choice([None, 0, 1, 2, 3, 4, 5, 4]),
                         where=r.choice(["here", "fork", "fresh", "fresh"]), p=r.choice([0, 0, 1]), back=r.random() < 0.5, faults=[])
                if far and s["how"] is not None:
                    far = False
                    s.update(where="interp", hash=r.randrange(1, 1 << 30), flags=r.choice([[], [], ["-O"], ["-OO"]]))
                if b.gran != "none" and r.random() < 0.15:
                    s["faults"] = [b.exc(1 + r.randrange(30))]
                if s["what"] != "route" and r.random() < 0.6:
                    s["cur"] = r.randrange(7)
                if s["what"] != "tokens" and r.random() < 0.3:
                    e = edits(r)
                    b.p["fields"].append(dict(b.p["fields"][f], e=b.p["fields"][f].get("e", []) + e))
                    s["e"], s["f"] = e, len(b.p["fields"]) - 1
                elif s["what"] == "tokens" or not s["faults"]:
                    have.append((s["id"], f))
                ops.append(s)
                j = r.random()
                if j < 0.15:
                    ops.append(b.op("mutate", of=r.choice(have)[0], what=r.sample(["tokens", "list", "clear", "route", "routelist", "routeclear"], 2), par=r.randrange(2)))
                elif j < 0.3:
                    ops.append(b.op("reparse", of=r.choice(have)[0], p=r.choice([0, 1]), faults=[]))
                elif j < 0.5:
                    ops.append(b.op("report", of=r.choice(have)[0], what=r.choice(["xml", "print", "getters"]), faults=[]))
                elif j < 0.6:
                    ops.append(b.op("drop", of=r.choice(have)[0], gc=r.random() < 0.5))
        b.p["tasks"].append(ops)
    if r.random() < 0.1:
        b.brief(r.choice([0.3, 1.0]))
    return b.sched()


# ---------------------------------------------------------------------------------------------- C23
LIBRARY = sorted({m for m, _ in world.NAMES})


def mods(r):
    k = r.random()
    if k < 0.3:
        return []
    if k < 0.6:
        return ["F15_Parser.F15Parse", "Tokenizer.Tokenize"]
    return r.sample(LIBRARY, r.randrange(1, len(LIBRARY) + 1))


def c23(r, ctx, i):
    b = B(r, ctx, ["import", "swallow", "later", "settings"] if r.random() < 0.2 else ["import", "swallow", "later"], instr_p=0.15)
    b.p["imports"] = True
    b.p["probes"] = "ctx"

    def fresh(n):
        return [b.op("fresh", f=b.f(ctx.pick(r)), faults=b.soft(p=0.1)) for _ in range(n)]

    def attempt():
        """An import that does not come to its end."""
        o = b.op("import", mods=mods(r), faults=[])
        if r.random() < 0.25:
            o["unreadable"] = [r.randrange(9), r.choice([5, 12, 13, 23, 24])]
        else:
            o["faults"] = [dict(b.exc(1 + int(r.random() * r.choice([1000, 1000, 300]) * (1 if b.gran == "line" else 2.8))), ph="import")]
        return o
    nt = r.choice([1, 1, 2, 2, 3, 4])
    first = []
    for _ in range(r.choice([0, 1, 1, 2, 3]) if nt > 1 else r.choice([1, 1, 2, 3, 5])):
        first.append(attempt())
        if r.random() < 0.3:
            first += fresh(1)
    if nt == 1:
        for _ in range(r.choice([1, 1, 2, 3])):
            if first and r.random() < 0.35:
                first.append(b.op("unload", gc=r.random() < 0.5))
                if r.random() < 0.4:
                    first.append(attempt())
            first.append(b.op("import", mods=mods(r), faults=b.soft(p=0.1)))
            o = fresh(r.choice([1, 2]))
            o[-1]["probes"] = True
            first += o
    for t in range(nt):
        ops = first if t == 0 else []
        if nt > 1:
            ops.append(b.op("open" if t == 0 else "gate"))
            for _ in range(r.choice([1, 1, 2])):
                ops.append(b.op("import", mods=mods(r), faults=b.soft(p=0.2)))
                ops += fresh(r.choice([1, 1, 2]))
        b.p["tasks"].append(ops)
    b.sched()
    b.p["sched"] = r.choice([{"kind": "rand", "mean": r.choice([1, 3, 10, 30, 100, 400])}, {"kind": "mix", "means": r.choice([[2, 400], [5, 60, 900]])},
                             {"kind": "rr", "q": r.choice([1, 2, 7, 33, 100])}, {"kind": "pct", "d": r.choice([1, 2, 3, 5, 8]), "len": 2500 * nt}])
    return b.p


# ---------------------------------------------------------------------------------------------- C24
def c24(r, ctx, i):
    b = B(r, ctx, ["result", "later", "view", "view-mut", "swallow", "quit", "tokens"], gran="none" if r.random() < 0.2 else None, instr_p=0.06)
    nt = r.choice([1, 1, 2, 2, 3, 4])

    def work(n, p):
        ops = []
        for _ in range(n):
            o = b.op("job", f=b.f(ctx.pick(r)), p=p, faults=b.soft(p=0.15), tk=r.choice(["new", "a", "hand"]), views=r.choice([None, "raw"]) if nt == 1 else None)
            ops.append(o)
            if r.random() < 0.5:
                ops.append(b.op("report", of=o["id"], what=r.choice(["xml", "print", "getters", "ptok"]), faults=[]))
            if r.random() < 0.1:
                ops.append(b.op("gc"))
        return ops
    for t in range(nt):
        p = r.choice([0, 0, 1])
        ops = work(r.choice([0, 1, 2]) if t == 0 else r.choice([1, 2, 3, 4]), p)
        if t == 0:
            if b.gran != "none" and r.random() < 0.25:
                o, _ = interrupted_job(b, p=p)
                ops.append(o)
            old = [o["id"] for o in ops if o["op"] == "job"]
            late = work(r.choice([1, 2, 3]), r.choice([0, 5]))
            for x in old[:2]:
                late.append(b.op("report", of=x, what=r.choice(["xml", "print", "getters"]), faults=[]))
                if r.random() < 0.5:
                    late.append(b.op("reparse", of=x, p=r.choice([p, 6]), faults=[]))
            ops.append(b.op("quit", wait=r.random() < 0.6, ops=work(r.choice([0, 0, 1, 2]), p), handlers=work(r.choice([0, 0, 1]), p), late=late))
        b.p["tasks"].append(ops)
    if r.random() < 0.25:
        b.brief(r.choice([0.3, 1.0]))
    return b.sched()


# ---------------------------------------------------------------------------------------------- C05
def c05(r, ctx, i):
    if i % 25 == 7:
        return starved(r, ctx, ["swallow", "tokens", "later"], ["tok"])
    b = B(r, ctx, ["swallow", "tokens", "later"])
    nt = r.choice([1, 1, 2, 3])
    texts = [odd_text(r) for _ in range(r.choice([1, 2, 3]))]
    for x in list(texts):
        if x:
            texts.append(F.sibling(r, {"t": x, "w": ""})["t"])
    b.p["fields"] = [{"t": x, "w": F.WS_FULL if r.random() < 0.75 else r.choice(ODD_WS)} for x in texts]
    for t in range(nt):
        ops = []
        tk = "a"
        for k in range(r.randrange(2, 7)):
            fi = r.randrange(len(texts))
            o = b.op("tok", f=fi, tk=tk if r.random() < 0.8 else "new", faults=[])
            if r.random() < 0.55:
                n = max(1, int(4.5 * len(texts[fi])) + 12) * (6 if b.gran == "instr" else 1)
                o["faults"] = [dict(b.exc(1 + r.randrange(n), ASYNC if r.random() < 0.7 else HANDLER), ph="tok")]
                ops.append(o)
                if r.random() < 0.7:
                    ops.append(b.op("tok", f=fi, tk=o["tk"], faults=[], again=r.random() < 0.5))
            else:
                ops.append(o)
        b.p["tasks"].append(ops)
    if r.random() < 0.15:
        b.brief(r.choice([0.3, 1.0]))
    return b.sched(est=400, phase="tok")


# ---------------------------------------------------------------------------------------------- C06
def c06(r, ctx, i):
    heavy = i % 12 == 5
    long = i % 12 == 8
    b = B(r, ctx, ["result", "later"], gran="none" if (heavy or r.random() < 0.6) else None, instr_p=0.05)
    nt = r.choice([1, 1, 1, 2, 3])
    n = r.choice([6, 12, 25, 60]) if b.gran == "none" else r.choice([4, 8, 14])
    if b.gran == "instr":
        n = 4
    if i % 25 == 13:                          # a long life: thousands of parses
        b.p["gran"] = "none"
        fs = mixfields(b, r.choice([3, 8, 20]))
        b.p["tasks"] = [[b.op("bulk", fs=[b.f(x) for x in fs], n=r.choice([300, 700, 1500, 2600]), p=0, own=r.random() < 0.3)]
                        + [b.op("job", f=b.f(x), p=0, faults=[]) for x in fs]]
        return b.sched()
    if i % 250 == 49:                         # a very long one: beyond sixteen bits of parses, tokens or errors
        b.p["gran"] = "none"
        k = r.randrange(3)
        fs = [[{"t": F.anytoken(r), "w": F.WS_FULL}, {"t": "", "w": F.WS_FULL}], [{"t": r.choice(["N0450F350 ", ""]) + " ".join([F.anytoken(r)] * 60), "w": F.WS_FULL}],
              [{"t": "N0450F350", "w": F.WS_FULL}]][k]
        b.p["tasks"] = [[b.op("mega", fs=[b.new(x) for x in fs], n=[66000, 1120, 66000][k], p=0, own=r.random() < 0.2)]
                        + [b.op("job", f=b.f(ctx.pick(r)), p=0, faults=[]) for _ in range(3)]]
        return b.sched()
    for t in range(nt):
        fs = mixfields(b, max(2, n // nt))
        if nt > 1:
            fs = b.meet(fs, p=0.2)
        if heavy and t == 0:
            hv = r.sample(ctx.heavy, r.choice([6, 14, len(ctx.heavy)]))
            fs = fs[:3] + hv + fs[3:8] + [r.choice(hv)] + fs[:3]
        if long:
            fs.insert(r.randrange(len(fs)), r.choice(ctx.long))
        ops = []
        for x in fs:
            ops.append(b.op("job", f=b.f(x), p=r.choice([0, 0, 0, 1, 2]), tk=r.choice(["new", "a", "a", "a", "hand"]), faults=b.soft(p=0.1),
                            views="raw" if r.random() < 0.15 else None))
            k = r.random()
            if k < 0.1:
                ops.append(b.op("clock", d=r.choice([-1e5, 1.0, 301.0, 3601.0, 1e7]), mono=r.choice([0, 10.0, 4000.0])))
            elif k < 0.16:
                ops.append(b.op("gc"))
            elif k < 0.3:
                ops.append(b.op("drop", of=ops[-1]["id"], gc=r.random() < 0.3))
            elif k < 0.34:
                ops.append(b.op("report", of=ops[-1]["id"], what=r.choice(["xml", "print", "getters"])))
        # the first field again at the very end of the history
        ops.append(b.op("job", f=b.f(fs[0]), p=0, faults=[]))
        b.p["tasks"].append(ops)
    b.p["after"] = [b.f(ctx.pick(r)) for _ in range(2)]
    if r.random() < 0.2:
        b.brief(r.choice([0.3, 1.0]))
    return b.sched(est=8000)


# ---------------------------------------------------------------------------------------------- C07
def c07(r, ctx, i):
    b = B(r, ctx, ["result", "later", "tokens"], gran="none" if r.random() < 0.4 else None)
    nt = r.choice([1, 1, 2, 3])
    what = ["tokens", "list", "clear", "route", "routelist", "routeclear"]
    for t in range(nt):
        fs = mixfields(b, r.choice([2, 3, 5, 7]))
        if nt > 1:
            fs = b.meet(fs, p=0.3)
        ops = []
        jobs = []
        for x in fs:
            o = b.op("job", f=b.f(x), p=0, tk=r.choice(["new", "a", "new", "a", "hand"]), faults=[])
            ops.append(o)
            jobs.append(o["id"])
            if r.random() < 0.6:
                m = b.op("mutate", of=r.choice(jobs), what=r.sample(what, r.choice([1, 2, 3])), par=r.randrange(2))
                if r.random() < 0.15 and b.gran != "none":
                    m["faults"] = [b.exc(1 + r.randrange(120))]
                ops.append(m)
                if r.random() < 0.6:
                    ops.append(b.op("job", f=b.f(x), p=0, tk=r.choice(["new", "a"]), faults=[]))
                if r.random() < 0.3:
                    ops.append(b.op("recheck", of=r.choice(jobs)))
            if r.random() < 0.2:
                ops.append(b.op("reparse", of=r.choice(jobs), p=0))
                jobs.append(ops[-1]["id"])
                # the re-parse reuses the list: what the first parse reported must stand
        b.p["tasks"].append(ops)
    if r.random() < 0.15:
        b.brief(r.choice([0.3, 1.0]))
    return b.sched()


# ---------------------------------------------------------------------------------------------- C08
def tok_seq(r, n, big=None):
    out = []
    size = 0
    for j in range(n):
        if big and j in big:
            out.append(["many", big[j], F._l(r, 2), r.randrange(50)])
            size += big[j]
            if r.random() < 0.5:
                out += [["last"], ["next"], ["cur"]]
            continue
        if out and r.random() < 0.06 and out[-1][0] in ("create", "append", "insert"):
            out.append(list(out[-1]))
            size += 1
            continue
        k = r.random()
        if k < 0.2 or (size == 0 and k < 0.4):
            s = r.randrange(80)
            w = F._l(r, r.randrange(1, 6))
            if r.random() < 0.6:
                out.append(["create", w, s, s + len(w)])
            else:
                out.append(["append", w, s, s + len(w)])
            size += 1
        elif k < 0.26:
            out.append(["insert", F._l(r, 3), r.randrange(90), r.randrange(90), r.choice([0, 0, size, size // 2, size + 3, -1, -2, -size, -size - 2])])
            size += 1
        elif k < 0.30:
            i = r.choice([size - 1, size // 2, 0, size + 2, -1])
            out.append(["cut", i])
            size = min(size, max(0, i + 1))
        elif k < 0.34 and size:
            j = r.randrange(5)
            out.append(["tset", r.randrange(size), j, r.choice(["QQ", "ZZZ"]) if j == 0 else r.randrange(99)])
        elif k < 0.40:
            out.append(["at", r.choice([-2, -1, 0, 1, size - 1, size, size + 1, 1000])])
        elif k < 0.46:
            out.append(["first"])
        elif k < 0.52:
            out.append(["last"])
        elif k < 0.66:
            out.append(["next"])
        elif k < 0.76:
            out.append(["prev"])
        elif k < 0.84:
            out.append(r.choice([["peekn"], ["peekn", r.choice([0, 1, 2, 3, 50, -1, -2])]]))
        elif k < 0.92:
            out.append(r.choice([["peekp"], ["peekp", r.choice([0, 1, 2, 3, 50, -1])]]))
        elif k < 0.96:
            out.append(["n"])
        else:
            out.append(["cur"])
    return out


MANY = [30, 64, 100, 127, 129, 200, 255, 256, 257, 300, 500, 513, 700, 1025]


def sized(r, lengths):
    """How many operations, and where and how much a list grows at one stroke."""
    if r.random() < 0.93:
        return r.choice(lengths), None
    n = r.choice([4, 10, 20])
    return n, {r.randrange(n): r.choice(MANY) for _ in range(r.choice([1, 1, 2]))}


def fault_places(r, seq):
    return [n for n, o in enumerate(seq) if o[0] != "many"] or [0]


def c08(r, ctx, i):
    b = B(r, ctx, ["container", "swallow"], instr_p=0.35)
    for t in range(r.choice([1, 2, 2, 3])):
        ops = []
        key = "k%d" % t
        for k in range(r.choice([1, 2])):
            o = b.op("tokens", key=key if r.random() < 0.8 else "z%d_%d" % (t, k), seq=tok_seq(r, *sized(r, [8, 8, 20, 20, 40, 40, 40, 150])))
            if r.random() < 0.7:
                o["faults"] = [dict(b.exc(1 + r.randrange(24 if b.gran == "instr" else 6)), n=r.choice(fault_places(r, o["seq"])))
                               for _ in range(r.choice([1, 2, 4]))]
            ops.append(o)
            if r.random() < 0.2:
                ops.append(b.op("job", f=b.f(ctx.pick(r)), faults=[]))
        b.p["tasks"].append(ops)
    return b.sched(est=300)


# ---------------------------------------------------------------------------------------------- C09
TXT = ["ABC", "A", "00N000E", "!", "X!Y", "DEF%", "", "VFR", "B9", "M!"]
MSG = ["Element '!' is bad", "no mark", "!", "'!' and '!' again", "", "Expecting '/' before '!'"]
SETS = [("altitude", ["F350", "S1130", ""]), ("altitude_si", [10668, 0, 1.5]), ("speed", ["N0450", "M082"]), ("speed_si", [231, 0.5]),
        ("break_text", ["FREE", ""]), ("flight_rules", ["IFR", "VFR"]), ("error_text", ["BAD", ""]), ("altitude_cruise_to", ["F370", "PLUS"]),
        ("altitude_cruise_to_si", [11278]), ("latitude", [12.5, -3.25]), ("longitude", [123.0, -1.0]), ("bearing", [90.0, 359.5]),
        ("distance", [1000.25]), ("lat_long_valid", [True, False]), ("name", ["PNT", "ADEX"]), ("start_index", [5, 77]),
        ("end_index", [9, 99]), ("base_type", [9, 10]), ("sub_type", [13, 14])]


def ers_seq(r, n, big=None):
    out = []
    size, errs = 1, 0
    for j in range(n):
        if big and j in big:
            out.append(["many", big[j], F._l(r, 2), r.randrange(50), r.choice(["", "", "'!' again"])])
            if out[-1][4]:
                errs += big[j]
            else:
                size += big[j]
            continue
        if out and r.random() < 0.06:             # the same once more
            o = r.choice(out[-4:])
            out.append(list(o))
            size += o[0] in ("create", "append", "ades")
            errs += o[0] == "error"
            continue
        k = r.random()
        rec = [r.choice(TXT), r.randrange(90), r.randrange(90), r.randrange(19), r.randrange(100)]
        if k < 0.14:
            out.append([r.choice(["create", "append"])] + rec)
            size += 1
        elif k < 0.17:
            out.append(["ades"])
            size += 1
        elif k < 0.28:
            out.append(["error"] + rec + [r.choice(MSG)])
            errs += 1
        elif k < 0.40:
            out.append(["at", r.choice([-1, 0, 1, size - 1, size, size + 1, 500, -500])])
        elif k < 0.55:
            out.append([r.choice(["first", "last", "prev", "n", "nerr", "getrules"])])
        elif k < 0.6:
            out.append(["rules", r.choice("IVYZ")])
        else:
            where = 1 if errs and r.random() < 0.3 else 0
            at = r.randrange(errs if where else size)
            j = r.random()
            if j < 0.25:
                out.append(["brk", where, at, r.choice(["ONE", "TWO", "", "A B"])])
            elif j < 0.45:
                out.append(["err", where, at, r.choice(["BAD", "WORSE", "", "X Y"])])
            elif j < 0.6:
                out.append(["stay", where, at, "%02d%02d" % (r.randrange(24), r.randrange(60))])
            elif j < 0.85:
                f, vs = r.choice(SETS)
                out.append(["set", where, at, f, r.choice(vs)])
            else:
                out.append(["get", where, at, r.choice(models.REC_FIELDS)])
    return out


def c09(r, ctx, i):
    b = B(r, ctx, ["container", "swallow"], instr_p=0.35)
    for t in range(r.choice([1, 2, 2, 3])):
        ops = []
        for k in range(r.choice([1, 2])):
            o = b.op("ers", key="k%d" % t if r.random() < 0.7 else "z%d_%d" % (t, k), seq=ers_seq(r, *sized(r, [6, 6, 15, 15, 30, 30, 100])))
            if r.random() < 0.7:
                o["faults"] = [dict(b.exc(1 + r.randrange(40 if b.gran == "instr" else 12)), n=r.choice(fault_places(r, o["seq"])))
                               for _ in range(r.choice([1, 2, 4]))]
            ops.append(o)
            if r.random() < 0.2:
                ops.append(b.op("job", f=b.f(ctx.pick(r)), faults=[]))
        b.p["tasks"].append(ops)
    return b.sched(est=300)


# ---------------------------------------------------------------------------------------------- C10
def stream_spec(r, size):
    s = {"bufsize": r.choice([1, 16, 100, 1024, 8192]), "line": r.random() < 0.7, "through": r.random() < 0.2}
    if r.random() < 0.5:
        s["short"] = [r.choice([0, 1, 3, 7, 50]) for _ in range(r.randrange(1, 5))]
    if r.random() < 0.4:
        s["eintr"] = sorted(set(r.randrange(60) for _ in range(r.randrange(1, 6))))
    if r.random() < 0.65:
        s["error"] = r.choice(["ENOSPC", "EPIPE", "EIO", "EAGAIN"] * 2 + ["ECONNRESET", "ETIMEDOUT", "EBADF", "closed", "closed", "detached", "revoked", "record", "type", "eof"])
        s["capacity"] = r.choice([0, 1, r.randrange(max(1, size)), r.randrange(max(1, size)), max(0, size - 1), size - r.randrange(1, 120)])
        s["capacity"] = max(0, s["capacity"])
        if r.random() < 0.25:
            s["heal"] = r.choice([1, 2, 5])
    if r.random() < 0.2:
        s["encoding"] = r.choice(["ascii", "latin-1", "utf-16-le"])
    return s


def c10(r, ctx, i):
    if i % 25 == 7:
        return starved(r, ctx, ["swallow", "view", "view-mut", "result"], ["xml", "print"])
    b = B(r, ctx, ["view", "view-mut", "later", "complete", "stream-prefix", "stream-silent", "stream-incomplete", "swallow"])
    fs = b.meet(mixfields(b, r.choice([1, 2, 3])), report=True, p=0.2)
    prep = [b.op("prep", f=b.f(x)) for x in fs]
    b.p["prep"] = prep
    edited(b, fs, prep)
    whats = ["print", "print", "print", "ptok", "ptok", "rec", "rec_err", "ptok1", "desc"]
    if r.random() < 0.3:                      # several threads print to one shared stream
        for t in range(r.choice([2, 3])):
            ops = []
            for k in range(r.randrange(1, 4)):
                o = b.op("report", of=r.choice(prep)["id"], what=r.choice(whats), faults=b.soft(p=0.2))
                if r.random() < 0.2:
                    o["faults"] = [b.exc(1 + int(r.expovariate(1 / 100.0)))]
                ops.append(o)
            b.p["tasks"].append(ops)
        return b.sched(est=400, report=True)
    ops = []
    for k in range(r.randrange(1, 5)):
        j = r.randrange(len(prep))
        what = r.choice(whats)
        base = ctx.base[fs[j]]
        size = len((base.get("print") if what == "print" else base.get("ptok") if what == "ptok" else base.get("rec")) or "")
        if what == "desc":
            size = 12000
        if what == "ptok1":
            size = 31
        o = b.op("report", of=prep[j]["id"], what=what, stream=stream_spec(r, size), reps=r.choice([1, 1, 1, 2]))
        if r.random() < 0.12:
            o["faults"] = [b.exc(1 + int(r.expovariate(1 / 80.0)))]
        ops.append(o)
        if r.random() < 0.35:
            ops.append(further(b, prep[j]))
            ops.append(b.op("report", of=prep[j]["id"], what=r.choice(whats + ["xml", "xml", "getters"])))
    b.p["tasks"].append(ops)
    if r.random() < 0.3:
        b.p["tasks"].append([b.op("job", f=b.f(ctx.pick(r)), faults=[]) for _ in range(2)])
    if r.random() < 0.1:
        b.brief(r.choice([0.3, 1.0]))
    return b.sched(est=400, report=True)


# ---------------------------------------------------------------------------------------------- C11
def c11(r, ctx, i):
    if i % 8 == 3:
        b = B(r, ctx, ["scale", "wait"], gran="line")
        snip = F.snippet(r)
        b.p["tasks"] = [[b.op("scale", text=snip, base=r.choice([20, 40, 70]))]]
        b.p["stack"] = True
        b.p["final"] = False
        b.p["sched"] = {"kind": "serial"}
        return b.p
    if i % 8 == 5:                                # many fields nobody has seen
        b = B(r, ctx, ["baseline", "wait"], gran="none")
        b.p["nobase"] = True
        for _ in range(200):
            k = r.random()
            f = F.short_field(r) if k < 0.6 else F.field(r) if k < 0.9 else F.repeat_field(r, r.choice([5, 10, 30])) if k < 0.85 else F.sibling(r, F.field(r))
            k = r.random()
            if k < 0.15:
                f = {"t": f["t"] + r.choice(["", " "]) + (F.special(r) if k < 0.1 else F.giant(r) if k < 0.11 else F.exotic(r, F.anytoken(r))), "w": f["w"]}
            b.p["fields"].append(f)
        b.p["tasks"] = [[b.op("job", f=n, p=0, faults=[]) for n in range(200)]]
        return b.sched()
    b = B(r, ctx, ["baseline", "wait"], instr_p=0.06)
    nt = r.choice([1, 2, 3, 4])
    for t in range(nt):
        ops = []
        for k in range(r.choice([1, 2, 3])):
            j = r.random()
            if j < 0.3 and b.gran == "line":
                o = b.op("job", f=b.f(r.choice(ctx.long)), p=0, faults=b.soft(p=0.3))
            elif j < 0.62:
                o, _ = interrupted_job(b, phase=r.choice(["parse", "parse", "parse", "tok"]), p=0)
            else:
                o = b.op("job", f=b.f(ctx.pick(r)), p=0, faults=b.soft(2, p=0.5))
            ops.append(o)
            if r.random() < 0.12:
                ops.append(b.op("report", of=o["id"], what=r.choice(["xml", "print", "getters"])))
            if r.random() < 0.08:
                ops.append(b.op("sleep", d=r.choice([0.001, 1.0])))
        if r.random() < 0.25 and t:
            ops.insert(r.randrange(1, len(ops) + 1), b.op("die"))
        b.p["tasks"].append(ops)
    return b.sched(est=6000)


# ---------------------------------------------------------------------------------------------- C12
def c12(r, ctx, i):
    b = B(r, ctx, ["result", "later", "tokens", "view"])
    nt = r.choice([1, 1, 1, 2])
    for t in range(nt):
        ops = []
        for k in range(r.choice([1, 2, 3])):
            phase = r.choice(["parse"] * 6 + ["tok"] * 2)
            f, at = ctx.place(r, phase, b.gran)
            nests = []
            for _ in range(r.choice([1, 1, 2, 3])):
                x = r.choice(relatives(b, f))
                if r.random() < 0.15:
                    inner = b.op("tok", f=b.f(x), tk=r.choice(["new", "sig"]), faults=[])
                else:
                    inner = b.op("job", f=b.f(x), p=0 if r.random() < 0.85 else 1, tk=r.choice(["new", "sig"]), faults=[],
                                 views="raw" if r.random() < 0.3 else None)
                nests.append({"kind": "nest", "at": at, "ph": phase, "op": inner})
                at = 1 + int(r.expovariate(1 / 900.0)) if r.random() < 0.5 else ctx.place(r, phase, b.gran)[1]
            o = b.op("job", f=b.f(f), p=0, tk=r.choice(["new", "a"]), faults=nests)
            ops.append(o)
            if r.random() < 0.4:
                rep = b.op("report", of=o["id"], what=r.choice(["xml", "xml", "getters", "print", "ptok"]))
                rep["faults"] = []
                for _ in range(r.choice([1, 1, 2, 3])):
                    if r.random() < 0.6:
                        inner = b.op("job", f=b.f(ctx.pick(r)), p=0, faults=[], views="raw" if r.random() < 0.5 else None)
                    else:
                        inner = b.op("report", of=r.choice(ops)["id"], what=r.choice(["xml", "getters"]), faults=[])
                    rep["faults"].append({"kind": "nest", "at": 1 + int(r.expovariate(1 / 60.0)), "op": inner})
                ops.append(rep)
        b.p["tasks"].append(ops)
    if r.random() < 0.15:
        b.brief(r.choice([0.3, 1.0]))
    return b.sched()


# ---------------------------------------------------------------------------------------------- C13
def util_call(r):
    k = r.choice(["deg", "degmin", "sound", "mach", "mach", "proj", "inv", "inv"])
    la = lambda: r.choice([0.0, 89.5, -45.0, 90.0, -90.0, r.uniform(-90, 90), float(r.randrange(-90, 91)), r.uniform(-1e-3, 1e-3)])      # noqa: E731
    lo = lambda: r.choice([0.0, 179.5, -180.0, 180.0, r.uniform(-180, 180), float(r.randrange(-180, 181)), r.uniform(-1e-3, 1e-3),       # noqa: E731
                           r.choice([-1, 1]) * r.uniform(179, 181), r.uniform(-400, 400)])
    alt = lambda: r.choice([0, 0, 1, 10668, 10999, 11000, 11001, 11278, 15000, 20000, 60000, r.randrange(0, 20000), r.uniform(0, 12000),  # noqa: E731
                            0.0, -0.0, 0.25, 0.999, 1e-9, -1, -0.5, -50, -430.0, r.uniform(-1000, 0), r.uniform(10990, 11010), 11000.5])
    if k == "deg":
        m = r.choice([90, 180, 360])
        if r.random() < 0.2:
            m = r.choice([0, 1, 9, 10, 59, 99, 100, 400, 999, 1000, 6400, 12345, 10 ** r.randrange(1, 20), 90.5, 359.99])
            return [k, [r.choice(["%d", "%d", "%0*d"]).replace("*", str(r.randrange(1, 12))) % max(0, int(m) + r.choice([-1, 0, 1, r.randrange(100)])), m]]
        return [k, [r.choice(["%03d", "%02d", "%d"]) % r.choice([0, 90, 91, 89, 180, 181, 179, 360, 361, 359, r.randrange(1000)]), m]]
    if k == "degmin":
        if r.random() < 0.1:
            m = r.choice([0, 1, 45, 89, 99, 100, 360, 999])
            return [k, ["%03d%02d" % (max(0, m + r.choice([-1, 0, 1])), r.choice([0, 1, 59, 60, 99])), m, 3]]
        if r.random() < 0.5:
            return [k, ["%02d%02d" % (r.choice([0, 89, 90, 91, r.randrange(100)]), r.choice([0, 1, 59, 60, r.randrange(100)])), 90, 2]]
        return [k, ["%03d%02d" % (r.choice([0, 179, 180, 181, r.randrange(1000)]), r.choice([0, 1, 59, 60, r.randrange(100)])), 180, 3]]
    if k == "sound":
        return [k, [alt()]]
    if k == "mach":
        return [k, [r.choice([0, 1, 82, 80, 100, 101, 250, 999, r.randrange(1000), r.uniform(0, 300), 82.5]), alt()]]
    if k == "proj":
        return [k, [la(), lo(), r.choice([float(r.randrange(0, 361)), r.uniform(0, 360), -r.uniform(0, 360), 720.0]),
                    r.choice([0.0, 1852.0 * r.randrange(1000), 111319.49, r.uniform(0, 3e7), 1e-3, -r.uniform(0, 1e6)])]]
    a, b, c, d = la(), lo(), la(), lo()
    j = r.random()
    if j < 0.15:
        c, d = a, b                               # the same point
    elif j < 0.3:
        c, d = -a, b + 180 + r.choice([0, 0, 0.1, -0.3, r.uniform(-1, 1)])      # the other side of the earth
    elif j < 0.45:
        c, d = a + r.uniform(-1e-4, 1e-4), b + r.uniform(-1e-4, 1e-4)
        c = max(-90.0, min(90.0, c))
    elif j < 0.55:
        c = a
    elif j < 0.65:
        d = b
    return [k, [a, b, c, d]]


def c13(r, ctx, i):
    b = B(r, ctx, ["utils", "swallow"], instr_p=0.3)
    shared = [util_call(r) for _ in range(4)]
    for t in range(r.choice([1, 2, 3, 4])):
        calls = [r.choice(shared) if r.random() < 0.4 else util_call(r) for _ in range(r.choice([3, 8, 20]))]
        for n in range(1, len(calls)):
            if r.random() < 0.2 and calls[n - 1][0] not in ("deg", "degmin"):      # same leading arguments, another last one
                c = util_call(r)
                while c[0] != calls[n - 1][0]:
                    c = util_call(r)
                calls[n] = [c[0], calls[n - 1][1][:-1] + c[1][-1:]] if r.random() < 0.5 else [c[0], c[1][:1] + calls[n - 1][1][1:]]
        o = b.op("utils", calls=calls, scribble=r.random() < 0.5)
        if r.random() < 0.5:
            o["faults"] = [dict(b.exc(1 + r.randrange(40 if b.gran == "instr" else 7)), n=r.randrange(len(calls))) for _ in range(2)]
        ops = [o]
        if r.random() < 0.3:
            ops.append(b.op("job", f=b.f(ctx.pick(r)), faults=[]))
        b.p["tasks"].append(ops)
    return b.sched(est=150)


# ---------------------------------------------------------------------------------------------- C17
def probes(r, ctx):
    out = ["", "/", "VFR", "IFR", "DCT", "OAT", "GAT", "IFPSTOP", "IFPSTART", "STAY1", "0100", "2359", "T", "C", "SID", "STAR", "NATA", "NATA1",
           "PTS1", "PTSA", "AB", "ABC", "ABCD", "ABCDE", "ABC123456", "00N000E", "0000N00000E", "00N000E123456", "0000N00000E123456", "B9",
           "B9A", "B99", "UB9", "UB99", "UB9A", "ABC999", "ABC99", "ABCD99", "UB99A", "ABC9A", "ABCDE9", "ABCD9A", "ABCDE99A", "N0450F350",
           "M082F350", "K0800S1130", "M082A045", "M082M0840", "N0450VFR", "K0800VFR", "M082VFR", "N0450F350F370", "M082S1130S1200",
           "K0800A045PLUS", "M082F350PLUS", "A%B", "abc", "X" * 26, "VFR ", "123", "STAY", "ÉAB"]
    for _ in range(25):
        t = r.choice(F.tokens_of(r) or ["X"]).split("/")[0]
        out.append(t)
        out.append(F.sibling(r, {"t": t, "w": ""})["t"])
    return out


def c17(r, ctx, i):
    b = B(r, ctx, ["classify", "swallow", "view", "stream-prefix", "stream-silent", "stream-incomplete"], gran="none" if r.random() < 0.5 else None)
    b.p["probes"] = "ctx"
    nt = r.choice([1, 1, 2, 3])
    for t in range(nt):
        ops = []
        if i % 10 == 3 and t == 0 and b.gran == "none":
            for x in r.sample(ctx.heavy, r.choice([4, 12, len(ctx.heavy)])):
                ops.append(b.op("job", f=b.f(x), faults=[]))
        for k in range(r.choice([1, 2, 4, 8])):
            j = r.random()
            if j < 0.35:
                ops.append(b.op("job", f=b.f(ctx.pick(r)), p=r.choice([0, 1]), faults=[]))
            elif j < 0.42:
                o = b.op("table", faults=b.soft(p=0.1))
                if b.gran != "none" and r.random() < 0.5:
                    o["faults"] = [b.exc(1 + int(r.expovariate(1 / (500.0 if b.gran == "instr" else 150.0))))]
                if nt == 1 and r.random() < 0.6:
                    o["stream"] = stream_spec(r, 12000)
                ops.append(o)
            elif j < 0.6 and b.gran != "none":
                o, _ = interrupted_job(b, p=0)
                ops.append(o)
            else:
                sel = sorted(r.sample(range(len(ctx.probes)), r.choice([3, 8])))
                o = b.op("classify", sel=r.sample(sel, len(sel)))
                if b.gran != "none" and r.random() < 0.4:
                    o["faults"] = [dict(b.exc(1 + int(r.expovariate(1 / (600.0 if b.gran == "instr" else 120.0)))), n=r.choice(sel))]
                ops.append(o)
            if r.random() < 0.1:
                ops.append(b.op("clock", d=r.choice([301.0, 1e6])))
        ops.append(b.op("classify", sel=list(range(len(ctx.probes))) if b.gran == "none" or r.random() < 0.2
                        else sorted(r.sample(range(len(ctx.probes)), 6)), msgs=True))
        b.p["tasks"].append(ops)
    if r.random() < 0.2:
        b.brief(r.choice([0.3, 1.0]))
    return b.sched()


# ---------------------------------------------------------------------------------------------- C18
def odd_list(b):
    """A token list put together by the caller: positions as they come, perhaps the same token object twice."""
    r = b.r
    f = F.short_field(r) if r.random() < 0.5 else b.ctx.fields[b.ctx.pick(r)]
    toks = [list(x) for x in models.tokenize(f["t"], f["w"])][:40]
    k = r.randrange(7)
    for n, x in enumerate(toks):
        if k == 0:
            x[1:] = [0, 0]
        elif k == 1:
            x[1:] = [1000 - 10 * n, 1000 - 10 * n + len(x[0])]
        elif k == 2:
            x[1:] = [r.randrange(-20, 200), r.randrange(-20, 200)]
        elif k == 3:
            x[1:] = [n * 7 % 5, n * 7 % 5 + 1]
        elif k == 4:
            x[1] += 3000
        elif k == 5:
            x[0] = x[0].lower() if r.random() < 0.3 else " " + x[0] if r.random() < 0.2 else x[0] if r.random() < 0.9 else ""
    o = b.op("odd", toks=toks, times=r.choice([2, 2, 3]), p=[r.choice([0, 0, 1]) for _ in range(3)], faults=[])
    if len(toks) > 2 and r.random() < 0.3:
        o["alias"] = sorted(r.sample(range(len(toks)), 2))
    if b.gran != "none" and r.random() < 0.4:
        o["faults"] = [dict(b.exc(1 + int(r.expovariate(1 / 900.0))), ph="parse")]
    return o


def c18(r, ctx, i):
    b = B(r, ctx, ["inputs", "reparse", "swallow"], gran="none" if r.random() < 0.25 else None)
    nt = r.choice([1, 1, 2, 3])
    for t in range(nt):
        ops = []
        if r.random() < 0.15:
            ops.append(odd_list(b))
        for k in range(r.choice([1, 2, 3])):
            if b.gran != "none" and r.random() < 0.55:
                o, f = interrupted_job(b, p=0)
            else:
                f = (b.meet([ctx.pick(r)])[0] if b.focus is None else r.choice(b.reach)) if nt > 1 else ctx.pick(r)
                o = b.op("job", f=b.f(f), p=0, faults=b.soft(p=0.1), pre=r.random() < 0.2, tk=r.choice(["new", "new", "hand"]))
            ops.append(o)
            last = o["id"]
            for _ in range(r.choice([1, 1, 2, 3])):
                if r.random() < 0.3:
                    ops.append(b.op("job", f=b.f(r.choice(relatives(b, f))), p=0, faults=[]))
                q = b.op("reparse", of=o["id"], p=r.choice([0, 0, 1, 2]), faults=[])
                if b.gran != "none" and r.random() < 0.25:
                    q["faults"] = [b.exc(1 + int(r.expovariate(1 / 1200.0)))]
                if r.random() < 0.1 and b.gran != "none":
                    q["faults"] = [{"kind": "nest", "at": 1 + int(r.expovariate(1 / 1200.0)),
                                    "op": b.op("job", f=b.f(ctx.pick(r)), p=0, faults=[])}]
                ops.append(q)
        b.p["tasks"].append(ops)
    if r.random() < 0.2:
        b.brief(r.choice([0.3, 1.0]))
    return b.sched()


# ---------------------------------------------------------------------------------------------- C19
def c19(r, ctx, i):
    b = B(r, ctx, ["coherent", "later"], gran="none" if r.random() < 0.6 else None, instr_p=0.04)
    nt = r.choice([1, 2, 2, 3])
    n = 24 if b.gran == "none" else 3
    fam = []
    for t in range(nt):
        ops = []
        for k in range(n // nt + 1):
            j = r.random()
            if b.gran == "none" and j < 0.75:
                # fields nobody has seen: the invariants need no reference run
                f = F.sibling(r, r.choice(fam)) if fam and r.random() < 0.35 else F.short_field(r) if r.random() < 0.3 else F.field(r)
                fam.append(f)
                b.p["fields"].append(f)
                ops.append(b.op("job", f=len(b.p["fields"]) - 1, p=0, faults=[]))
            elif b.gran != "none" and j < 0.35:
                o, f = interrupted_job(b, p=0)
                ops.append(o)
                ops.append(b.op("job", f=b.f(r.choice(relatives(b, f))), p=0, faults=[]))
            else:
                ops.append(b.op("job", f=b.f(ctx.pick(r)), p=r.choice([0, 0, 1]), faults=b.soft(p=0.2)))
            if r.random() < 0.08:
                ops.append(b.op("mutate", of=ops[-1]["id"], what=["tokens", "route"]))
        b.p["tasks"].append(ops)
    b.p["nobase"] = True
    return b.sched()


# ---------------------------------------------------------------------------------------------- C20
def c20(r, ctx, i):
    b = B(r, ctx, ["fork"], instr_p=0.08)
    nt = r.choice([1, 2, 2, 3])
    for t in range(nt):
        ops = []
        for k in range(r.choice([1, 2])):
            fk = b.op("fork", fs=[b.f(x) for x in mixfields(b, r.choice([1, 2, 3]))], p=0, views=r.random() < 0.2,
                      via=r.choice(["same", "same", "thread", "fork"]))
            if len(fk["fs"]) == 1 and fk["via"] != "same":
                fk["fs"] = fk["fs"] * 2
            if t == 0 and (r.random() < 0.45 or nt == 1):
                ph = "tok" if r.random() < 0.15 else "parse"
                f, at = ctx.place(r, ph, b.gran)
                fk["onward"] = r.random() < 0.7
                if r.random() < 0.5:
                    fk["fs"] = [b.f(x) for x in r.sample(relatives(b, f), 2)]
                if fk["onward"] and r.random() < 0.6:
                    fk["fs"] = []
                ops.append(b.op("job", f=b.f(f), p=0, faults=[{"kind": "fork", "ph": ph, "at": at, "op": fk}]))
            elif t == 0:
                ops.append(fk)
            elif r.random() < 0.3:
                o, _ = interrupted_job(b, p=0)
                ops.append(o)
            else:
                ops.append(b.op("job", f=b.f(b.meet([ctx.pick(r)])[0] if b.focus is None else r.choice(b.reach)), p=0, faults=b.soft(p=0.2)))
        b.p["tasks"].append(ops)
    if r.random() < 0.15:
        b.brief(r.choice([0.3, 1.0]))
    return b.sched()


# ---------------------------------------------------------------------------------------------- C16
def c16(r, ctx, i):
    fresh = i % 4 == 1
    gran = "none" if fresh or r.random() < 0.3 else "line"
    b = B(r, ctx, ["leak"], gran=gran)
    jobs = []
    for k in range(r.choice([2, 4, 6])):
        if gran == "line" and r.random() < 0.5:
            o, f = interrupted_job(b, phase=r.choice(["parse", "parse", "parse", "tok"]), p=0)
        else:
            o = b.op("job", f=b.f(ctx.pick(r)), p=0, faults=[], views="raw" if r.random() < 0.4 else None)
        jobs.append(o)
        if r.random() < 0.2:
            jobs.append(b.op("report", of=o["id"], what=r.choice(["xml", "getters", "print", "ptok"])))
        if r.random() < 0.15 and not o["faults"]:
            jobs.append(b.op("mutate", of=o["id"], what=["list", "route"]))
    reps = (r.choice([8, 15]) if gran == "line" else 25) if not fresh else 1
    op = b.op("leak", phases=4, reps=reps, jobs=jobs, newparser=r.random() < 0.5)
    if fresh:
        op["jobs"], op["fresh"] = [], 500
        if i % 8 == 1:
            op["fresh"], op["threads"] = 150, True
    b.p["tasks"] = [[op]]
    b.p["sched"] = {"kind": "serial"}
    b.p["final"] = False
    return b.p


# ---------------------------------------------------------------------------------------------- C14
def c14(r, ctx, i):
    if i % 40 == 17:                              # a process of its own
        out = {"kind": r.choice(["pipe", "closed", "full", "limit", "limit"])}
        if out["kind"] == "limit":
            out["n"] = r.choice([0, 1, 100, r.randrange(5000), r.randrange(5000), 100000])
        p = {"runner": "script", "judge": ["view", "stream-prefix", "stream-silent"], "seed": r.randrange(1 << 40), "fields": [], "tasks": [], "env": {},
             "out": out, "cwd": r.choice(["repo", "other"]), "argv": r.choice([[], [], [], ["-v"], ["N0450F350 ABC"], ["a", "b"]]),
             "flags": [x for x in ("-u", "-O", "-OO", "-bb", "-Xdev", "-Werror") if r.random() < (0.35 if x == "-u" else 0.12)]}
        for k, v in (("PYTHONHASHSEED", str(r.randrange(1 << 30))), ("LC_ALL", "C"), ("TERM", "dumb"), ("COLUMNS", "20"), ("PYTHONUTF8", "1")):
            if r.random() < 0.3:
                p["env"][k] = v
        return p
    b = B(r, ctx, ["view", "stream-prefix", "stream-silent", "stream-incomplete", "swallow"])
    j = r.random()
    ops = []
    if i and r.random() < 0.3:                    # started with arguments
        b.p["argv"] = r.choice([["-q"], ["-v"], ["--help"], ["N0450F350 ABC"], ["a", "b", "c"], [""], ["x"] * 20])
    for k in range(r.choice([0, 0, 1, 2])):
        if r.random() < 0.4:
            ops.append(interrupted_job(b, p=0)[0])
        else:
            ops.append(b.op("job", f=b.f(ctx.pick(r)), p=0, faults=[]))
    if j < 0.35:
        for t in range(r.choice([1, 2, 3])):
            o = b.op("main", faults=b.soft(p=0.2))
            if r.random() < 0.3:
                o["faults"] = [b.exc(1 + int(r.expovariate(1 / 1500.0)))]
            b.p["tasks"].append(ops + [o] if t == 0 else [o])
    else:
        o = b.op("main", faults=[])
        if i:                                # the very first run is the plain one
            o.update(stream=stream_spec(r, 4500), reps=r.choice([1, 1, 2]))
        if r.random() < 0.2:
            o["faults"] = [b.exc(1 + int(r.expovariate(1 / 1500.0)))]
        b.p["tasks"].append(ops + [o])
        if r.random() < 0.4:
            b.p["tasks"].append([b.op("job", f=b.f(ctx.pick(r)), faults=[]) for _ in range(2)])
    return b.sched(est=2500)


# ---------------------------------------------------------------------------------------------- C15
MODULES = ["Tokenizer.Token", "Tokenizer.Tokens", "Tokenizer.Tokenize", "Utilities.Utils", "F15_Parser.ErrorMessageDefinitions",
           "F15_Parser.ExtractedRouteRecord", "F15_Parser.ExtractedRouteSequence", "F15_Parser.F15TokenSyntaxDescriptions",
           "F15_Parser.F15Parse", "random", "decimal", "locale", "xml.dom.minidom", "re", "logging"]


def special_time(r):
    """Ends and beginnings of years, months, weeks, days and hours, leap days, the ends of number ranges; in seconds since 1970."""
    y, mon, d = r.choice([1970, 1999, 2000, 2024, 2026, 2027, 2028, 2036, 2038, 2040, 2099, 2100]), r.choice([1, 2, 2, 3, 12, 12, r.randrange(1, 13)]), None
    d = r.choice([1, 28, 29, 30, 31, r.randrange(1, 32)])
    at = calendar.timegm((y, mon, min(d, calendar.monthrange(y, mon)[1]), r.choice([0, 0, 12, 23, r.randrange(24)]), r.choice([0, 0, 59, r.randrange(60)]),
                          r.choice([0, 0, 59, r.randrange(60)])))
    return float(at) + r.choice([0.0, 0.0, 0.999999, r.random()])


def c15(r, ctx, i):
    p = {"runner": "env", "judge": ["env"], "seed": r.randrange(1 << 40)}
    p["fields"] = [ctx.fields[x] for x in sorted(set(r.randrange(ctx.ncorpus) if r.random() < 0.5 else ctx.pick(r) for _ in range(90)))]
    p["fields"] += [ctx.fields[x] for x in r.sample(ctx.long, 3)]
    p["fields"] += [F.short_field(r) for _ in range(20)]
    p["fields"] += [{"t": "N0450F350 %s %s" % (F.giant(r), F.point(r)), "w": F.WS_FULL} for _ in range(6)]
    r.shuffle(p["fields"])
    e = p["env"] = {"PYTHONHASHSEED": str(r.choice([0, 1, 42, r.randrange(1, 4294967295)]))}
    for k, vs, q in (("TZ", ["UTC", "Asia/Kolkata", "America/St_Johns", "XYZ-13"], .5),
                     ("LC_ALL", ["C", "POSIX", "C.UTF-8"] + ["tr_TR.UTF-8", "de_DE.UTF-8"] * 2 + ["hi_IN.UTF-8", "fa_IR.UTF-8", "ja_JP.EUC-JP",
                             "tr_TR.ISO-8859-9", "ru_RU.KOI8-R"], .75),
                     ("PYTHONUTF8", ["0", "1"], .4), ("PYTHONMALLOC", ["debug", "malloc", "pymalloc_debug"], .3),
                     ("PYTHONIOENCODING", ["ascii:replace", "latin-1", "utf-8"], .3), ("PYTHONDEVMODE", ["1"], .2),
                     ("HOME", ["/nonexistent"], .2), ("LANG", ["ja_JP.eucJP", "C"], .3), ("COLUMNS", ["1", "500"], .2),
                     ("DEBUG", ["1"], .3), ("PYTHONINTMAXSTRDIGITS", ["640", "0"], .2), ("USER", ["", "root", "x"], .2)):
        if r.random() < q:
            e[k] = r.choice(vs)
    for k in ctx.env_keys:                    # whatever else the code looks at
        if k not in e and r.random() < 0.4:
            e[k] = r.choice(["", "0", "1", "true", "xyz", "C"])
    p["flags"] = r.choice([[], [], ["-O"], ["-OO"], ["-O"], ["-B"], ["-u"], ["-X", "importtime"][:0], ["-X", "no_debug_ranges"], ["-s"], ["-W", "error"], ["-bb"], ["-X", "dev"], ["-E"][:0]])
    p["cwd"] = r.choice(["/", "/usr", "/verif/sim", "repo"])
    p["nofile"] = r.choice([0, 0, 32])
    if ctx.env_paths and r.random() < 0.6:    # files the code looks for, if it does
        p["files"] = [[d, x, r.choice(["", "1\n", "7", "{}", "[]", "true\n", "X" * 40 + "\n", "[DEFAULT]\nx = 1\n", "A B\nC D\n"])]
                      for d, x in ctx.env_paths if r.random() < 0.8]
    s = p["spec"] = {"patch": r.random() < 0.8, "epoch": r.choice([0.0, 1.0, 86399.0, 951782400.0, 1.7e9, 4102444800.0, 2.0 ** 31, 3.2e10] + [float(r.randrange(1, 4000000000)) for _ in range(6)]),
                     "rng": r.randrange(1 << 30), "shared": r.random() < 0.5, "thread": r.random() < 0.4}
    if r.random() < 0.6:
        s["imports"] = r.sample(MODULES, r.randrange(1, len(MODULES)))
        s["early"] = r.random() < 0.5
    if r.random() < 0.7:                      # every field is parsed at another time of the calendar
        s["times"] = [special_time(r) for _ in range(40)]
    for k, v, q in (("switch", 1e-6, .3), ("gc", [1, 1, 1], .2), ("gcoff", True, .2), ("rlimit", r.choice([800, 20000]), .2),
                    ("tty", True, .3), ("nostd", True, .25), ("argv", r.choice([["-v"], ["--debug", "x"], [""]]), .3),
                    ("prec", 3, .3), ("digits", 640, .2), ("locale", r.choice(["", "", "", "C", "C.UTF-8"]), .65), ("umask", r.choice([0, 0o777]), .2)):
        if r.random() < q:
            s[k] = v
    s["probes"] = ctx.probes
    s["utils"] = [util_call(r) for _ in range(12)]
    return p


GEN = {"C14": c14, "C15": c15, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
       "C11": c11, "C12": c12, "C13": c13, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24}
