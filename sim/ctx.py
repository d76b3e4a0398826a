"""What a check prepares before its runs: a seeded universe of fields with the result each gives when it is the only
thing a pristine process does, and a profile of the code positions the fields reach (for placing faults)."""
import os
import pickle
import random
import select

import fields
import interp


def par_map(fn, n, nproc):
    """[fn(i) for i in range(n)] over forked workers; each worker itself never runs the code under test."""
    out = [None] * n
    pipes = []
    for w in range(nproc):
        r, wr = os.pipe()
        if os.fork() == 0:
            os.close(r)
            try:
                with os.fdopen(wr, "wb") as f:
                    f.write(pickle.dumps([(i, fn(i)) for i in range(w, n, nproc)]))
            finally:
                os._exit(0)
        os.close(wr)
        pipes.append(r)
    for r in pipes:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        for i, v in (pickle.loads(data) if data else []):
            out[i] = v
    for _ in pipes:
        os.wait()
    return out


def profile_plan(f, gran, report=False):
    tasks = [[{"op": "job", "id": 1, "f": 0}]]
    if report:
        for k, what in enumerate(("xml", "print", "ptok", "getters")):
            tasks[0].append({"op": "report", "id": 10 + k, "of": 1, "what": what})
    return {"seed": 1, "gran": gran, "fields": [f], "judge": [], "tasks": tasks, "sched": {"kind": "serial"}, "profile": True,
            "final": False}


class Ctx:
    def __init__(self, seed, size=900, heavy=24, long=36, nproc=None):
        self.nproc = nproc or min(8, os.cpu_count() or 1)
        r = random.Random("universe:%s" % seed)
        self.fields = fields.corpus()
        self.ncorpus = len(self.fields)
        self.families = []                      # lists of indices of resembling fields
        for i in range(self.ncorpus):
            if i % 3 == 0:
                fam = [i]
                for _ in range(2):
                    self.fields.append(fields.sibling(r, self.fields[r.choice(fam)]))
                    fam.append(len(self.fields) - 1)
                self.families.append(fam)
        for _ in range(24):                     # a few tokens repeated; tokens that make a careless pattern backtrack
            self.fields.append(fields.repeat_field(r, r.choice([6, 10, 20])))
            f = fields.field(r)
            self.families.append([len(self.fields) - 1])
            k = r.random()
            self.fields.append({"t": fields.mill(r) if k < 0.3 else f["t"] + " " + fields.mill(r), "w": f["w"]})
            self.families.append([len(self.fields) - 1])
        while len(self.fields) < size:
            legs = r.random() < 0.12
            self.fields.append(fields.leg_field(r) if legs else fields.field(r))
            fam = [len(self.fields) - 1]
            if legs:
                for _ in range(3):
                    self.fields.append({"t": fields.nudge(r, self.fields[r.choice(fam)]["t"]), "w": fields.WS_FULL})
                    fam.append(len(self.fields) - 1)
            for _ in range(r.choice([0, 1, 2, 2, 3, 5])):
                self.fields.append(fields.sibling(r, self.fields[r.choice(fam)]))
                fam.append(len(self.fields) - 1)
            self.families.append(fam)
        self.nbase = len(self.fields)
        self.heavy = list(range(len(self.fields), len(self.fields) + heavy))
        for k in range(heavy):
            self.fields.append(fields.distinct_tokens_field(r, 100, 1000 * k + r.randrange(500)))
        self.long = list(range(len(self.fields), len(self.fields) + long))
        for k in range(long):
            self.fields.append(fields.repeat_field(r, r.randrange(40, 145)) if k % 3 == 1 else fields.long_field(r, r.randrange(40, 151)))
        self.index = {(f["t"], f["w"]): i for i, f in enumerate(self.fields)}
        self.base = par_map(lambda i: self._alone(self.fields[i]), len(self.fields), self.nproc)
        self.bad_base = [i for i, b in enumerate(self.base) if b is None or "failed" in b]
        self.prof = {}

    @staticmethod
    def _alone(f):
        st, v = interp.in_child(lambda: interp.alone(f), cpu=4)
        return v if st == "ok" else {"failed": "%s: %s" % (st, v), "status": st}

    def profiles(self, gran, count=None, report=False):
        """{phase: {(code, position): [(field index, event number)]}}"""
        key = (gran, report)
        if key in self.prof:
            return self.prof[key]
        idx = list(range(0, self.ncorpus)) + list(range(self.ncorpus, self.nbase, 7))
        idx = [i for i in idx if "failed" not in self.base[i]]
        if count:
            step = max(1, len(idx) // count)
            idx = idx[::step]

        def one(k):
            i = idx[k]
            plan = profile_plan(self.fields[i], gran, report)
            st, v = interp.in_child(lambda: interp.Interp(plan, {0: self.base[i]}).run()["profile"])
            if st != "ok":
                return {}
            return {p: (e if len(e) <= 4 else [e[0], e[1], e[len(e) // 2], e[-1]]) for p, e in v.items()}
        merged = {}
        self.lengths = {}
        for k, v in enumerate(par_map(one, len(idx), self.nproc)):
            for (ph, ci, pos), evs in (v or {}).items():
                lst = merged.setdefault(ph, {}).setdefault((ci, pos), [])
                if len(lst) < 24:
                    lst.extend((idx[k], e) for e in evs)
        out = {ph: (sorted(d), d) for ph, d in merged.items()}
        self.prof[key] = out
        return out

    def place(self, r, phase, gran="line", report=False):
        """A (field index, event number) that sits at a uniformly chosen code position."""
        keys, d = self.profiles(gran, 60 if gran == "instr" else None, report)[phase]
        return r.choice(d[r.choice(keys)])

    def meet(self, r, phase, gran="line", report=False):
        """A uniformly chosen code position and the fields that reach it."""
        keys, d = self.profiles(gran, 60 if gran == "instr" else None, report)[phase]
        k = r.choice(keys)
        return list(k), sorted(set(f for f, _ in d[k]))

    def locs(self, r, n, phase="parse", gran="line", report=False):
        p = self.profiles(gran, 60 if gran == "instr" else None, report)
        keys = p[phase][0] if phase in p else p["parse"][0]
        return [list(r.choice(keys)) for _ in range(n)]

    def family(self, r):
        return r.choice(self.families)

    def pick(self, r):
        return r.choice(self.family(r)) if r.random() < 0.7 else r.randrange(self.nbase)
