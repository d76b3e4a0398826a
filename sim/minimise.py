"""Shrinks a failing plan: fewer threads, operations, faults, scheduling decisions and field tokens, same violation class."""
import copy
import json


def strip(decisions, k):
    """Drop decision k; the next voluntary one keeps its absolute place."""
    d = [list(x) for x in decisions]
    gap = d[k][0]
    del d[k]
    if gap >= 0 and k < len(d) and d[k][0] >= 0:
        d[k][0] += gap
    return d


class Min:
    def __init__(self, chk, plan, v, now, budget):
        self.chk, self.cls, self.now = chk, v["cls"], now
        self.end = now() + budget
        self.best, self.v = plan, v
        self.tries = 0

    def attempt(self, plan):
        import run
        if self.now() > self.end:
            return False
        self.tries += 1
        try:
            st, res = run.execute(plan, self.chk.bases, self.chk.facts)
        except (IndexError, KeyError, ValueError):
            return False
        if st != "ok" or res.get("hang"):
            return False
        hit = [v for v in run.own(plan, res) if v["cls"] == self.cls]
        if not hit:
            return False
        p = copy.deepcopy(plan)
        if res["decisions"] is not None:
            p["decisions"] = res["decisions"]
        self.best, self.v = p, hit[0]
        return True

    def ddmin(self, get, put):
        """Remove chunks of the list get(plan) while the plan still fails."""
        n = 2
        while self.now() < self.end:
            items = get(self.best)
            if len(items) == 0:
                return
            size = max(1, len(items) // n)
            done = False
            for k in range(0, len(items), size):
                p = copy.deepcopy(self.best)
                put(p, items[:k] + items[k + size:])
                if self.attempt(p):
                    done = True
                    break
            if not done:
                if size == 1:
                    return
                n = min(len(items), n * 2)

    def run(self):
        if self.best.get("runner") == "script":
            return self.best, self.v
        if self.best.get("runner") == "env":
            self.env()
            return self.best, self.v
        if self.best.get("alone"):
            self.tokens()
            return self.best, self.v
        p = copy.deepcopy(self.best)
        p["decisions"] = []
        self.attempt(p)
        # whole threads become empty (thread numbers stay)
        for t in range(len(self.best["tasks"])):
            if self.best["tasks"][t]:
                p = copy.deepcopy(self.best)
                p["tasks"][t] = []
                self.attempt(p)
        for rnd in range(2):
            for t in range(len(self.best["tasks"])):
                self.ddmin(lambda p: p["tasks"][t], lambda p, x: p["tasks"].__setitem__(t, x))
            for key in ("prep", "after"):
                if self.best.get(key):
                    self.ddmin(lambda p: p[key], lambda p, x: p.__setitem__(key, x))
            self.inner()
            self.decisions()
        self.tokens()
        self.decisions()
        self.fields()
        return self.best, self.v

    def ops(self, plan):
        for t, ops in enumerate(plan["tasks"]):
            for k in range(len(ops)):
                yield t, k

    def inner(self):
        for t, k in list(self.ops(self.best)):
            op = self.best["tasks"][t][k]
            for key in ("faults", "seq", "calls", "jobs", "sel", "what", "fs", "ops", "handlers", "late"):
                if not isinstance(op.get(key), list):
                    continue
                if key in ("seq", "calls"):
                    self.seq(t, k, key)
                    continue
                self.ddmin(lambda p: p["tasks"][t][k][key], lambda p, x: p["tasks"][t][k].__setitem__(key, x))

    def seq(self, t, k, key):
        """Sub-operations carry their fault's position by number: faults move with them."""
        def get(p):
            op = p["tasks"][t][k]
            return [(x, [f for f in op.get("faults", ()) if f["n"] == n]) for n, x in enumerate(op[key])]

        def put(p, items):
            op = p["tasks"][t][k]
            op[key] = [x for x, _ in items]
            op["faults"] = [dict(f, n=n) for n, (_, fl) in enumerate(items) for f in fl]
        self.ddmin(get, put)

    def decisions(self):
        d = self.best.get("decisions") or []
        k = len(d) - 1
        fails = 0
        while k >= 0 and self.now() < self.end and fails < 400:
            cur = self.best.get("decisions") or []
            if k < len(cur) and cur[k][0] >= 0:
                p = copy.deepcopy(self.best)
                p["decisions"] = strip(cur, k)
                if not self.attempt(p):
                    fails += 1
                else:
                    k = min(k, len(self.best["decisions"]))
            k -= 1

    def tokens(self):
        """Shorter field texts."""
        used = self.used(self.best)
        for i in used:
            if self.now() > self.end:
                return
            if len(self.best["fields"][i]["t"]) > 2000:
                continue

            def get(p):
                return p["fields"][i]["t"].split(" ")

            def put(p, x):
                p["fields"][i] = dict(p["fields"][i], t=" ".join(x))
            self.ddmin(get, put)

    @staticmethod
    def used(plan):
        out = []
        blob = json.dumps([plan.get("tasks"), plan.get("prep"), plan.get("after")])
        for i in range(len(plan["fields"])):
            if '"f": %d' % i in blob or i in plan.get("after", ()) or any(
                    i in op.get("fs", ()) for ops in plan["tasks"] for op in ops) or '"fs"' in blob:
                out.append(i)
        return out

    def fields(self):
        """Fields nothing refers to become empty."""
        used = self.used(self.best)
        p = copy.deepcopy(self.best)
        for i in range(len(p["fields"])):
            if i not in used:
                p["fields"][i] = {"t": "", "w": " "}
        self.attempt(p)

    def env(self):
        for k in list(self.best["env"]):
            if k != "PYTHONHASHSEED":
                p = copy.deepcopy(self.best)
                del p["env"][k]
                self.attempt(p)
        p = copy.deepcopy(self.best)
        p["flags"] = []
        self.attempt(p)
        for k in list(self.best["spec"]):
            if k not in ("probes", "utils", "patch"):
                p = copy.deepcopy(self.best)
                del p["spec"][k]
                self.attempt(p)
        self.ddmin(lambda p: p["fields"], lambda p, x: p.__setitem__("fields", x))


def minimise(chk, plan, v, now, budget):
    m = Min(chk, plan, v, now, budget)
    if v["cls"] == "progress":
        return plan, v
    best, bv = m.run()
    best = dict(best)
    best["_"] = None
    del best["_"]
    return best, bv


def describe(plan):
    if plan.get("runner") == "script":
        return "main.py as a program: flags %s, arguments %s, environment %s, output %s" % (plan["flags"], plan["argv"], plan["env"], plan["out"])
    if plan.get("runner") == "env":
        return "environment %s %s, fields %s" % (plan["env"], plan["flags"], [f["t"][:80] for f in plan["fields"]][:3])
    ops = [[dict((k, v) for k, v in op.items() if v not in (None, [])) for op in t] for t in plan["tasks"]]
    s = "threads %s; fields %s; decisions %s" % (json.dumps(ops), json.dumps([f["t"] for f in plan["fields"] if f["t"]]),
                                                 json.dumps(plan.get("decisions")))
    return s if len(s) < 1800 else s[:1800] + "..."
