"""Seeded random programs for the Core specification, one profile per property."""
import random

ACT = ["END", "IGNORE", "RESTART"]


class G:
    def __init__(self, rng, **w):
        self.r = rng
        self.w = w
        self.cfg = dict(nact=w.get("nact", 1), nets=[], evts=[rng.random() < w.get("ar", 0.93) for _ in range(w.get("evts", 2))],
                        stores=[], conts=[rng.randint(0, 3) for _ in range(w.get("conts", 1))],
                        ress=[rng.randint(1, 2) for _ in range(w.get("ress", 1))])
        for i in range(w.get("stores", 1)):
            n = rng.randint(0, 2)
            self.cfg["stores"].append(dict(items=[10 * i + j + 1 for j in range(n)], cap=rng.choice([1 + n, 2 + n, 1000, max(1, n)])))
        self.tasks = []
        self.names = 0
        self.holding = False

    def pick(self, d):
        ks = [k for k in d if d[k] > 0]
        return self.r.choices(ks, [d[k] for k in ks])[0]

    def dur(self):
        return self.r.choice([0, 1, 1, 2, 2, 3, 4])

    def event(self, depth=0, inrout=False):
        r, c = self.r, self.cfg
        d = dict(wait=4, evt=2 if c["evts"] else 0, get=2 if c["stores"] else 0, fget=0, put=1.5 if c["stores"] else 0,
                 cget=1 if c["conts"] else 0, cput=0.7 if c["conts"] else 0, any=2 if depth < 2 else 0, all=1.2 if depth < 2 else 0)
        if self.w.get("filter"): d["fget"] = 2
        for k, v in self.w.get("ev", {}).items():
            if d.get(k, 0) or k in ("kevt", "hold", "rel", "proc", "rout"): d[k] = v
        if depth or inrout:
            for k in ("kevt", "rout", "proc"): d.pop(k, None)
        if depth: [d.pop(k, None) for k in ("hold", "rel")]
        k = self.pick(d)
        if k == "wait": return dict(s="wait", d=self.dur())
        if k == "evt": return dict(s="evt", e=r.randint(1, len(c["evts"])))
        if k == "get": return dict(s="get", r=r.randint(1, len(c["stores"])))
        if k == "fget": return dict(s="fget", r=r.randint(1, len(c["stores"])), v=r.randint(0, 1))
        if k == "put": return dict(s="put", r=r.randint(1, len(c["stores"])))
        if k in ("cget", "cput"): return dict(s=k, r=r.randint(1, len(c["conts"])), v=r.randint(1, 3))
        if k in ("any", "all"): return dict(s=k, m=self.members(depth))
        if k == "hold": return dict(s="hold", r=r.randint(1, len(c["ress"])))
        if k == "rel": return dict(s="rel")
        if k == "proc": return dict(s="proc", d=self.dur())
        if k == "kevt": return dict(s="kevt", n=r.choice(["ka", "kb"]), **({"as": r.choice(["ka", "kb", "kc"])} if r.random() < 0.4 else {}))
        if k == "rout":
            return dict(s="rout", steps=[self.event(0, True) for _ in range(r.randint(0, 3))], ret=r.choice([-1, r.randint(50, 99)]),
                        cancel=[self.event(0, True) if r.random() < 0.5 else dict(s="wait", d=self.dur()) for _ in range(r.randint(0, 2))])
        raise ValueError(k)

    def members(self, depth):
        out, evs = [], set()
        for _ in range(self.r.randint(1, 3)):
            m = self.event(depth + 1)
            if m["s"] == "evt":
                if m["e"] in evs: continue
                evs.add(m["e"])
            # one object of a shared event per expression
            if m["s"] in ("any", "all") and self.evs(m) & evs: continue
            evs |= self.evs(m)
            out.append(m)
        return out or [dict(s="wait", d=1)]

    def evs(self, m):
        if m["s"] == "evt": return {m["e"]}
        if m["s"] in ("any", "all"): return set().union(*[self.evs(x) for x in m["m"]])
        return set()

    def instant(self, me):
        r, c = self.r, self.cfg
        nn = len(c["nets"])
        d = dict(act=1, deact=0.5, mimic=0.5, unmimic=0.3, mark=1, succ=1 if c["evts"] else 0, reset=0.3 if c["evts"] else 0, setw=0.5, intr=0.3,
                 kset=0, ksucc=0.3, kclear=0, kalias=0.1, setq=0.3, clearq=0.1, xput=0, cancel=0)
        d.update(self.w.get("op", {}))
        if not me:
            for k in ("act", "deact", "mimic", "unmimic", "mark"): d[k] = 0
            if c["stores"]: d["xput"] = 1
            if c["conts"]: d["xcput"] = 0.7
        k = self.pick(d)
        if k == "act": return dict(s="act", i=r.randint(1, 2), rate=r.choice([1, 2, -1]))
        if k == "deact": return dict(s="deact", i=r.randint(1, 2))
        if k in ("mimic", "unmimic"): return dict(s=k)
        if k == "mark": return dict(s="mark", a=r.choice(["CLEAR", "PLAIN", "END", "IGNORE", "RESTART"]))
        if k in ("succ", "reset"): return dict(s=k, e=r.randint(1, len(c["evts"])))
        if k in ("kset", "ksucc", "kclear"): return dict(s=k, actor=r.randint(1, c["nact"]), n=r.choice(["ka", "kb"]))
        if k == "kalias": return dict(s=k, actor=r.randint(1, c["nact"]), n=r.choice(["ka", "kb"]), **{"as": r.choice(["ka", "kb", "kc"])})
        if k == "setw": return dict(s="setw", actor=r.randint(1, c["nact"]), st=r.choice(["w1", "w2"]))
        if k == "intr": return dict(s="intr", net=r.randint(1, nn))
        if k == "setq": return dict(s="setq", net=(n := r.randint(1, nn)), list=self.queue(n))
        if k == "clearq": return dict(s="clearq", net=r.randint(1, nn))
        if k == "xput": return dict(s="xput", r=r.randint(1, len(c["stores"])))
        if k == "xcput": return dict(s="xcput", r=r.randint(1, len(c["conts"])), v=r.randint(1, 3))
        if k == "nucadd": return dict(s="nucadd", net=r.randint(1, nn), sts=r.choice([["w1"], ["w2"], ["w1", "w2"]]), obj=r.random() < 0.5)
        if k == "nucrm": return dict(s="nucrm", net=r.randint(1, nn), obj=r.random() < 0.5)
        raise ValueError(k)

    def by_factory(self, n):
        """Links as the ready-made factories document them."""
        mine = [t for t in self.tasks if t["net"] == n and t["kind"] in ("normal", "decision")]
        if not any(t["kind"] == "normal" for t in mine): return
        how = self.r.choice(["single_looping", "single_terminating", "ordered_terminating", "ordered_loop"])
        if how.startswith("single"): mine = [next(t for t in mine if t["kind"] == "normal")]
        self.tasks = [t for t in self.tasks if t["net"] != n] + mine
        names = [t["name"] for t in mine]
        for i, t in enumerate(mine):
            t["dflt"] = names[i + 1] if i + 1 < len(names) else names[0] if how.endswith("loop") or how.endswith("looping") else "TERM"
            t["allowed"] = [t["dflt"]]
        if how.endswith("terminating"): self.tasks.append(dict(net=n, name="TERM", dflt="", allowed=[], kind="terminal", pol=None, steps=[], made=True))
        self.plan[n] = [t for t in self.plan[n] if t["name"] in names]
        self.cfg["nets"][n - 1]["factory"] = how

    def queue(self, n):
        """A queue that can be run from whatever task is current, most of the time."""
        names = [t["name"] for t in self.plan[n]]
        return [self.r.choice(names) for _ in range(self.r.randint(0, 3))]

    def steps(self, nev):
        out = []
        r = self.r
        for _ in range(nev):
            while r.random() < self.w.get("pop", 0.4): out.append(self.instant(True))
            e = self.event()
            out.append(e)
        while r.random() < 0.3: out.append(self.instant(True))
        return out

    def program(self):
        r, c, w = self.r, self.cfg, self.w
        nn = w.get("nets") or r.choice([1, 1, 2, 3])
        self.plan = {}
        for n in range(1, nn + 1):
            c["nets"].append(dict(actor=r.randint(1, c["nact"]), name=f"N{n}", q=[]))
            kinds = []
            for j in range(r.randint(1, w.get("maxtasks", 3))):
                kinds.append(self.pick(w.get("kinds", dict(normal=8, decision=1, skip=0.6, terminal=0.3))))
            if not any(k in ("normal", "decision") for k in kinds): kinds[0] = "normal"
            self.plan[n] = [dict(name=f"T{n}{j}", kind=k) for j, k in enumerate(kinds)]
        for n in range(1, nn + 1):
            names = [t["name"] for t in self.plan[n]]
            for j, t in enumerate(self.plan[n]):
                nonskip = [x["name"] for x in self.plan[n] if x["kind"] != "skip"]
                dflt = r.choice(names if t["kind"] != "skip" else nonskip)
                allowed = [dflt] + [x for x in names if x != dflt and r.random() < (0.75 if t["kind"] != "skip" else (0.75 if x in nonskip else 0))]
                if r.random() < w.get("notallowed", 0.04): allowed = [x for x in allowed if x != dflt]
                if r.random() < w.get("nodflt", 0.05): dflt = ""
                pol = None
                if r.random() < w.get("handler", 0.75): pol = [r.choice(ACT) if r.random() > 0.03 else "NONE" for _ in range(r.randint(1, 3))]
                if t["kind"] == "normal":
                    st = self.steps(r.randint(1, w.get("nev", 3)))
                    if not any(x["s"] == "wait" and x["d"] > 0 for x in st): st.append(dict(s="wait", d=r.randint(1, 3)))
                elif t["kind"] in ("decision", "skip"):
                    st = [dict(s="setq", net=n, list=self.queue(n)) if r.random() < 0.6 else self.instant(False) for _ in range(r.randint(0, 2))]
                    st = [x for x in st if x["s"] not in ("xput",)]
                else:
                    st = []
                self.tasks.append(dict(net=n, name=t["name"], dflt=dflt, allowed=allowed, kind=t["kind"], pol=pol if t["kind"] == "normal" else None, steps=st))
            if r.random() < w.get("factory", 0): self.by_factory(n)
            if r.random() < 0.3: c["nets"][n - 1]["q"] = self.queue(n)
        sched = []
        ops = []
        if w.get("nuc"):
            for n in range(1, nn + 1):
                if r.random() < 0.8 and not any(t["kind"] == "terminal" for t in self.plan[n]):
                    ops.append(dict(s="nucadd", net=n, sts=r.choice([["w1"], ["w2"], ["w1", "w2"]]), obj=r.random() < 0.5))
        for n in range(1, nn + 1):
            init = r.choice(self.plan[n])["name"]
            if c["nets"][n - 1]["q"] and r.random() < 0.6: init = c["nets"][n - 1]["q"][0]
            if c["nets"][n - 1]["q"] and init == c["nets"][n - 1]["q"][0] and r.random() < 0.5: init = ""
            ops.append(dict(s="loop", net=n, n=init))
        sched.append(dict(dt=0, ops=ops))
        for _ in range(r.randint(2, w.get("acts", 9))):
            ops = [self.instant(False) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
            sched.append(dict(dt=r.choice([0, 0, 1, 1, 1, 2, 3]), after=r.random() < 0.4, ops=ops))
        sched.append(dict(dt=r.randint(1, 3), ops=[]))
        ok = {n: {t["name"] for t in self.plan[n]} for n in self.plan}
        for st in [x for t in self.tasks for x in t["steps"]] + [x for s in sched for x in s["ops"]]:
            if st["s"] == "setq": st["list"] = [x for x in st["list"] if x in ok[st["net"]]]
        return dict(cfg=c, tasks=self.tasks, sched=sched, nuc=bool(w.get("nuc")), filter=bool(w.get("filter")), limit=w.get("limit", 200))


PROFILES = {
    # what an interrupt does to a task, its states, mimics, knowledge events, markers
    "C01": dict(op=dict(intr=4, act=2, mimic=1.5, mark=2), nact=2, ev=dict(kevt=1, hold=0.6, rel=0.6, proc=0.5), nev=4),
    # requests abandoned at any instant, alone and within Any/All
    "C02": dict(op=dict(intr=6, act=0.3, mimic=0, unmimic=0, deact=0, setw=0, cancel=0), nact=1, stores=2, conts=1, nev=3, handler=0.9, nets=3, maxtasks=2, acts=12,
                ev=dict(wait=2, evt=1, get=4, put=3, cget=2, cput=1.5, hold=1.5, rel=1.5, any=3.5, all=2), kinds=dict(normal=1), notallowed=0, nodflt=0),
    "C02f": dict(op=dict(intr=6, act=0, mimic=0, unmimic=0, deact=0, setw=0), nact=1, stores=1, filter=True, nev=3, handler=0.9, nets=3, maxtasks=1, acts=12,
                 ev=dict(wait=2, evt=1, get=2, fget=4, put=4, any=3, all=1.5), kinds=dict(normal=1), notallowed=0, nodflt=0),
    # routines
    "C03": dict(op=dict(intr=5, act=1, mark=1), nact=1, stores=1, nev=3, maxtasks=2, ev=dict(rout=7, wait=2, any=2, evt=1.5, get=2, put=2), kinds=dict(normal=6, decision=0.5),
                notallowed=0, nodflt=0, acts=10),
    # networks and queues
    "C04": dict(factory=0.35, op=dict(setq=6, clearq=2, intr=1, succ=0.5, act=0.2), nact=2, nev=1, maxtasks=5, stores=0, conts=0, ress=0, pop=0.55, notallowed=0.1, nodflt=0.15, acts=12,
                kinds=dict(normal=6, decision=2.5, skip=1.5, terminal=0.7), ev=dict(wait=5, evt=2, any=1, all=0.7)),
    # nucleus
    "C05": dict(op=dict(setw=6, nucadd=1.5, nucrm=1, intr=1, act=0.3, mimic=0, unmimic=0), nact=2, nuc=True, nev=3, maxtasks=2, pop=0.5, stores=1, acts=12, notallowed=0, nodflt=0.03,
                kinds=dict(normal=8, decision=1.5, skip=1)),
    # events and their combination
    "C13": dict(ar=0.75, op=dict(succ=5, reset=2, intr=0.7, act=0.2, mimic=0, unmimic=0, setq=0), nact=1, evts=3, nev=4, maxtasks=2, notallowed=0, nodflt=0, acts=12,
                kinds=dict(normal=1), ev=dict(wait=3, evt=4, any=3.5, all=3, get=1, put=1)),
    # knowledge events
    "C12": dict(op=dict(kset=2, ksucc=5, kclear=1, kalias=2, intr=2, act=0), nact=2, nev=3, maxtasks=2, stores=0, conts=0, ress=0, ev=dict(kevt=5, wait=2, any=1), notallowed=0, nodflt=0, acts=12),
}


def random_program(rng, profile):
    return G(rng, **PROFILES[profile]).program()
