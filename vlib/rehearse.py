"""Driver for clones and rehearsals (specification Rehearse.tla)."""
from vlib.core import Rec

NONE = -99
NAMES = ["A", "B", "C", "D", "S0", "S1", "S2", "S3"]
DECISION = {"D", "S3"}


def execute(p):
    import simpy
    import upstage_des.api as UP
    from upstage_des.base import MockEnvironment
    from upstage_des.states import ActiveStatus
    rec = Rec()
    made = []          # every task instance

    class Multi(UP.Routine):
        def __init__(self, ts, sim):
            super().__init__()
            self.ts = ts
            self.sim = sim

        def run(self):
            for i, t in enumerate(self.ts):
                if i % 2 and self.sim: yield UP.Event(rehearsal_time_to_complete=t)
                else: yield UP.Wait(t)

        def cancel(self):
            yield from ()

    with UP.EnvironmentContext() as env:
        class Thing(UP.Actor):
            kind = "a kind"
            x = UP.State(recording=True, recording_functions=[(lambda t, v: v % 3, "xr")])
            f = UP.LinearChangingState(recording=True)
            l = UP.State()
            d = UP.DictionaryState(recording=True, recording_functions=[(lambda t, v: sum(v.values()), "dn")])
            dc = UP.DataclassState(recording=True)
            s = UP.ResourceState(default=UP.SelfMonitoringStore)
            c = UP.ResourceState(default=simpy.Container)
            m = UP.MultiStoreState(default=simpy.Store, valid_types=(simpy.Store, simpy.Container))
            cs = UP.CommunicationStore(modes=None)
            y = UP.State(allow_none_default=True)
            z = UP.State(default=7, no_init=True)
            u = UP.State(default=1, frozen=True)
            g = UP.SharedLinearChangingState(recording=True)
            p = UP.CartesianLocationChangingState(recording=True)
            det = UP.DetectabilityState(default=True)
            bl = UP.State(default_factory=list)
            bs = UP.State(default_factory=set)
            bo = UP.State()
            bn = UP.State(default_factory=dict, no_init=True)
            w = UP.State(allow_none_default=True)
            fs = UP.ResourceState(default=UP.SelfMonitoringFilterStore)
            ss = UP.ResourceState(default=UP.SelfMonitoringSortedFilterStore)

            @property
            def twice(self): return self.x * 2

            @classmethod
            def made_by(cls): return cls.__name__

        from dataclasses import make_dataclass
        P = make_dataclass("P", [("p", int)])

        class Box:
            n = 0

        def grow(b):
            if isinstance(b, list): b.append(len(b))
            elif isinstance(b, set): b.add(len(b))
            elif isinstance(b, dict): b[len(b)] = 1
            else: b.n += 1

        def size(b): return b.n if isinstance(b, Box) else len(b)

        class Source(UP.Actor):
            w = UP.State()

        source, mimicker = Source(name="source", w=1), UP.Task()
        caller = []       # a list the caller gives to rehearsals as knowledge
        pool = {}         # events that nobody succeeds

        told = []

        class Manager:
            def _start_mover(self, a, *x): told.append([a, 1])
            def _stop_mover(self, a): told.append([a, 2])
            def _mover_not_detectable(self, a): told.append([a, 3])
            def _mover_became_detectable(self, a): told.append([a, 4])
        UP.add_stage_variable("motion_manager", Manager())
        UP.add_stage_variable("distance_units", "m")

        class RV(UP.Routine):
            def __init__(self, t, v):
                super().__init__()
                self.t, self.v = t, v

            def run(self):
                yield UP.Wait(self.t)
                return self.v

            def cancel(self): yield from ()

            def rehearse(self): return super().rehearse()[0], self.v

        # what others in the simulation use: no rehearsal may be seen in it
        class shared:
            s, c, r = simpy.Store(env), simpy.Container(env, init=3), simpy.Resource(env)

        shared.s.put(1)

        def helper(t, fn):
            def go():
                yield env.timeout(t)
                fn()
            env.process(go())

        def leaf(actor, m, sim):
            k, t = m["k"], m["t"]
            if k in ("any", "all"):
                return (UP.Any if k == "any" else UP.All)(*[q for q in (leaf(actor, n, sim) for n in m["ms"])])
            if k == "w": return UP.Wait(t)
            if k == "s": return pool.setdefault(m["j"], UP.Event(rehearsal_time_to_complete=t))
            if k == "e":
                e = UP.Event(rehearsal_time_to_complete=t)
                if not sim: helper(t, e.succeed)
                return e
            if k == "g":
                if sim: return UP.Get(shared.s if t % 2 else actor.s, rehearsal_time_to_complete=t)
                st = simpy.Store(env)
                helper(t, lambda: st.put(5))
                return UP.Get(st, rehearsal_time_to_complete=t)
            if k == "c":
                if sim: return UP.Get(shared.c if t % 2 else actor.c, 2, rehearsal_time_to_complete=t)
                st = simpy.Container(env)
                helper(t, lambda: st.put(2))
                return UP.Get(st, 2, rehearsal_time_to_complete=t)
            if k == "p": return UP.Put(shared.s if t % 2 else actor.s, 9, rehearsal_time_to_complete=t)
            if k == "h": return UP.ResourceHold(shared.r if t % 2 else simpy.Resource(env), rehearsal_time_to_complete=t)
            raise ValueError(k)

        def leaves(e):
            yield e
            for q in getattr(e, "events", ()): yield from leaves(q)

        def takes(m): return m["t"] if m["k"] not in ("any", "all") else (min if m["k"] == "any" else max)(takes(q) for q in m["ms"])

        def seen(m, t, up):
            """For each event of a multi-event: whether it can be told to be complete or not."""
            mine, nest = takes(m), m["k"] in ("any", "all")
            yield not (nest and up < mine <= t)
            for q in m["ms"]: yield from seen(q, t, min(mine, up))

        def lin(actor, n):
            v = getattr(actor, n)
            return rec.int(v if n != "p" else v.x)

        def now_(task, actor, a):
            """One action that takes no time; True if the next a["t"] actions are to be passed over."""
            k = a["k"]
            if k == "setx": actor.x = a["v"]
            elif k == "addx": actor.x += a["v"]
            elif k == "setf": setattr(actor, a["n"], float(a["v"]))
            elif k == "usef": actor.l.append(lin(actor, a["n"]))
            elif k == "det": actor.det = a["v"] == 1
            elif k == "box":
                b = actor.get_knowledge(a["n"]) if a["n"] in ("bk", "bg") else getattr(actor, a["n"])
                if b is not None: grow(b)
            elif k == "app": actor.l.append(a["v"])
            elif k == "now": actor.l.append(rec.int(actor.env.now))
            elif k == "dset":
                if a["n"] == "p": actor.dc.p = a["v"]
                else: actor.d[a["n"]] = a["v"]
            elif k == "ks":
                if task is None: actor.set_knowledge(a["n"], a["v"], overwrite=True)
                else: task.set_actor_knowledge(actor, a["n"], a["v"], overwrite=True)
            elif k == "kc":
                if task is None: actor.clear_knowledge(a["n"])
                else: task.clear_actor_knowledge(actor, a["n"])
            elif k == "kme":
                actor.l.append(actor.get_knowledge(a["n"], must_exist=True) if task is None else task.get_actor_knowledge(actor, a["n"], must_exist=True))
            elif k == "q":
                actor.clear_task_queue("net")
                if a["q"]: actor.set_task_queue("net", a["q"])
            elif k == "note": actor.log(f"NOTE {a['v']}")
            elif k == "act" and a["n"] == "p": actor.activate_location_state(state="p", speed=a["v"], waypoints=[UP.CartesianLocation(5000, 0), UP.CartesianLocation(100000, 0)], task=task)
            elif k == "act": actor.activate_linear_state(state=a["n"], rate=a["v"], task=task)
            elif k == "deact": actor.deactivate_all_states(task=task)
            elif k == "mimic": actor.activate_mimic_state(self_state="x", mimic_state="x", mimic_actor=actors[0], task=task)
            elif k == "ifx": return actor.x < a["v"]
            elif k == "reh":
                t = classes[a["n"]]()
                r = t.rehearse(actor=actor)
                actor.l.append(r.x)
            elif k == "fail" and a["how"] == "raise": raise RuntimeError("raised by the task")
            else: raise ValueError(k)
            return False

        def run_prog(task, actor, prog):
            sim = isinstance(actor.env, MockEnvironment)
            i = 0
            while i < len(prog):
                a = prog[i]
                i += 1
                k = a["k"]
                if k == "wait":
                    yield UP.Wait(a["t"]) if a["r"] == a["t"] else UP.Wait(a["t"], rehearsal_time_to_complete=a["r"])
                elif k == "ev":
                    e = UP.Event(rehearsal_time_to_complete=a["t"])
                    if not sim: helper(a["t"], e.succeed)
                    v = yield e
                    actor.l.append(-1 if v is UP.PLANNING_FACTOR_OBJECT else 0)
                    if not e.is_complete(): rec.note_bad("an event that was waited for is not complete")
                elif k == "kev":
                    e = actor.create_knowledge_event(name="kv", rehearsal_time_to_complete=a["t"])
                    if not sim: helper(a["t"], lambda: actor.succeed_knowledge_event(name="kv"))
                    yield e
                    if sim: actor.clear_knowledge("kv")
                    if not e.is_complete(): rec.note_bad("a knowledge event that was waited for is not complete")
                elif k in ("get", "cget"):
                    g = leaf(actor, dict(k="g" if k == "get" else "c", t=a["t"]), sim)
                    v = yield g
                    if not g.is_complete(): rec.note_bad("a request that was waited for is not complete")
                    if k == "get":
                        if v is not g.get_value(): rec.note_bad("the request gave one value to the task and has another")
                        actor.l.append(-1 if v is UP.PLANNING_FACTOR_OBJECT else a["v"] if v == 5 else -2)
                elif k == "put":
                    yield UP.Put(shared.s if sim and a["v"] % 2 else actor.s, a["v"], rehearsal_time_to_complete=a["r"])
                elif k == "hold":
                    h = UP.ResourceHold(shared.r if sim else simpy.Resource(env), rehearsal_time_to_complete=a["t"])
                    yield h
                    yield UP.Wait(2)
                    yield h
                elif k == "multi":
                    m = leaf(actor, a["m"], sim)
                    yield m
                    t = takes(a["m"])
                    actor.l.extend(1 if q.is_complete() else 0 for q, yes in zip(leaves(m), seen(a["m"], t, t)) if yes)
                    if a["gv"]:
                        for q in leaves(m):
                            if isinstance(q, UP.Get) and q.get_location is not actor.c and isinstance(q.get_location, simpy.Store):
                                v = q.get_value()
                                actor.l.append(-1 if v is UP.PLANNING_FACTOR_OBJECT else v)
                elif k == "routine":
                    v = yield Multi(a["ts"], sim)
                    if v is not None: rec.note_bad("a routine without a result gave one")
                elif k == "routv":
                    v = yield RV(a["t"], [a["v"], float(a["v"]), bool(a["v"])][a["how"]])
                    actor.l.append(NONE if v is None else rec.int(v + 0))
                elif k == "windowed":
                    v = yield UP.WindowedGet(shared.s if a["t"] % 2 else actor.s, timeout=a["t"])
                    actor.l.append(-1 if v == [UP.PLANNING_FACTOR_OBJECT] else -2)
                elif k == "fail" and a["how"] == "proc": yield done_proc
                elif k == "fail" and a["how"] == "bad": yield 5
                else:
                    if now_(task, actor, a): i += a["t"]

        def run_now(task, actor, prog):
            i = 0
            while i < len(prog):
                a = prog[i]
                i += 1
                if now_(task, actor, a): i += a["t"]

        def make(name):
            prog = p["progs"].get(name)
            if name == "Z":
                class T(UP.Task):
                    def __init__(self):
                        super().__init__()
                        made.append(self)

                    def task(self, *, actor): yield UP.Event(rehearsal_time_to_complete=6)
            elif name in DECISION:
                class T(UP.DecisionTask):
                    DO_NOT_HOLD = bool(p.get("skip"))

                    def __init__(self):
                        super().__init__()
                        made.append(self)

                    def make_decision(self, *, actor): run_now(self, actor, prog)
                    rehearse_decision = make_decision
            else:
                class T(UP.Task):
                    def __init__(self):
                        super().__init__()
                        made.append(self)

                    def task(self, *, actor): return run_prog(self, actor, prog)
            T.__name__ = T.__qualname__ = name
            return T

        classes = {n: make(n) for n in [*NAMES, "Z"]}
        fac = UP.TaskNetworkFactory("net", {n: classes[n] for n in ["A", "B", "C", "D", "Z"]},
                                    {n: UP.TaskLinks(default=li["default"] or None, allowed=li["allowed"]) for n, li in p["links"].items()})
        kw = dict(x=p["x0"], f=p["f0"], l=[], d={"a": p["d0"]}, dc=P(p["p0"]), cs={"modes": "m1"}, g=float(p["f0"] + 1), p=UP.CartesianLocation(p["f0"] + 2, 0), bo=Box())
        if p["given"]:
            kw.update(s=UP.SelfMonitoringStore(env), c=simpy.Container(env, init=p["c0"]), m={"u": simpy.Store(env), "w": simpy.Container(env, init=p["c0"])})
        else:
            kw.update(c={"init": p["c0"]}, m={"u": {}, "w": {"kind": simpy.Container, "init": p["c0"]}})
        actors = [Thing(name="it", **kw)]
        real = actors[0]
        net = fac.make_network()
        real.add_task_network(net)
        if p["bk"] == 0: real.set_knowledge("bk", [])
        told.clear()

        # a network that watches the real actor's states: no rehearsal may interrupt it
        class Watch(UP.Task):
            def task(self, *, actor): yield UP.Event()
            def on_interrupt(self, *, actor, cause): return self.INTERRUPT.IGNORE

        nucleus = UP.TaskNetworkNucleus(actor=real)
        watch = UP.TaskNetworkFactory("watch", {"Watch": Watch}, {"Watch": UP.TaskLinks(default="Watch", allowed=["Watch"])})
        real.add_task_network(watch.make_network())
        nucleus.add_network("watch", ["x", "bl", "det"])
        real.start_network_loop("watch", "Watch")
        while env.peek() == 0: env.step()
        done_proc = env.process(iter_nothing(env))
        base = UP.UpstageBase()

        def ents():
            return [len(base.get_actors()), sum(len(v) for v in base.get_all_entity_groups().values()), len(base.get_monitored())]
        groups, mons = ents()[1:]

        def tv(h): return [[rec.int(t), rec.int(v)] for t, v in h]

        def obs(a):
            f = {n: lin(a, n) for n in "fgp"}
            H = a._state_histories
            modes = [k for k in vars(a) if k.endswith("mode_names_")]
            if len(modes) != 1 or vars(a)[modes[0]] != {"m1"}: rec.note_bad("the communication store's modes are wrong")
            if a.kind != "a kind" or a.twice != 2 * a.x or type(a) is not Thing or a.made_by() != "Thing": rec.note_bad("not an actor of its class")
            try: y = rec.int(a.y)
            except UP.SimulationError: y = NONE
            try: w = rec.int(a.w)
            except UP.SimulationError: w = NONE
            kb = {n: a.get_knowledge(n) for n in ("bk", "bg")}
            if any(b is not None and not isinstance(b, list) for b in kb.values()): rec.note_bad("a list in knowledge is something else")
            known = {"x", "f", "g", "p", "xr", "d.a", "d.b", "dc.p", "dn"}
            if set(H) - known: rec.note_bad(f"other histories: {sorted(set(H) - known)}")
            return dict(t=rec.int(a.env.now), x=rec.int(a.x), hx=tv(H.get("x", [])), hr=tv(H.get("xr", [])), f=f,
                        hf={n: [[rec.int(t), {ActiveStatus.activating: 1, ActiveStatus.deactivating: 2}[v], 0] if isinstance(v, ActiveStatus) else [rec.int(t), 0, rec.int(v if n != "p" else v.x)] for t, v in H.get(n, [])] for n in "fgp"},
                        bx={**{n: size(getattr(a, n)) for n in ("bl", "bs", "bo", "bn")}, **{n: NONE if b is None else len(b) for n, b in kb.items()}}, w=w, dt=bool(a.det),
                        fs=[rec.int(v) for v in a.fs.items], hfs=[[rec.int(v)] for _, v in a.fs._quantities], ss=[rec.int(v) for v in a.ss.items], hss=[[rec.int(v)] for _, v in a.ss._quantities],
                        l=[rec.int(v) for v in a.l],
                        d=dict(a=rec.int(a.d["a"]) if "a" in a.d else NONE, b=rec.int(a.d["b"]) if "b" in a.d else NONE, p=rec.int(a.dc.p)),
                        hd=dict(a=tv(H.get("d.a", [])), b=tv(H.get("d.b", [])), p=tv(H.get("dc.p", [])), n=tv(H.get("dn", []))),
                        s=[rec.int(v) for v in a.s.items], hs=[[rec.int(v)] for _, v in a.s._quantities], c=rec.int(a.c.level),
                        mu=[rec.int(v) for v in a.m["u"].items], mw=rec.int(a.m["w"].level), cs=[rec.int(v) for v in a.cs.items],
                        know={n: (rec.int(v) if (v := a.get_knowledge(n)) is not None else NONE) for n in ("k1", "k2")},
                        q=[rec.str(v) for v in a.get_task_queue("net")],
                        nt=[[rec.int(t), int(m.split()[-1])] for t, m in a.get_log() if "NOTE" in m], y=y, z=rec.int(a.z), u=rec.int(a.u))

        def add(op, a=0, exc="", **f):
            run = net._current_task_name or ""
            o = [obs(x) for x in actors]
            e = ents()
            clean = all(not t._rehearsing and t.env is env for t in made)
            if any(a is not real for a, _ in told): rec.note_bad("the motion manager was told of a clone")
            if any(q.is_complete() for q in pool.values()): rec.note_bad("an event that was only rehearsed is complete")
            rec.add(op, a=a + 1, exc=exc, now=rec.int(env.now), run=run, obs=o, ents=e, clean=clean, mm=[k for _, k in told], **f)

        def know(o):
            k = dict(o["know"])
            if o["kg"]: k["bg"] = caller
            return k or None

        add("init")
        for n, o in enumerate(p["ops"]):
            op, i = o["op"], o.get("a", 0)
            if i >= len(actors): continue
            if op == "tick" and i == 0: continue
            if op in ("start", "advance") and i: continue
            A = actors[i]
            f = {k: v for k, v in o.items() if k not in ("op", "a")}
            own = 1000 * (n + 1)
            exc = ""
            pending = len(env._queue)
            try:
                if op == "start":
                    real.start_network_loop("net", o["n"])
                    env.run(until=1)
                elif op == "advance": env.run(until=env.now + o["v"])
                elif op == "tick": A.env.now += o["v"]
                elif op == "clone":
                    new = {}
                    if o["x"] != NONE: new["x"] = o["x"]
                    if o["y"] != NONE: new["y"] = o["y"]
                    if o["badinit"]: new["z"] = 3
                    actors.append(A.clone(knowledge=know(o), **new))
                elif op == "rehearse":
                    if i: continue
                    t = classes[o["n"]]()
                    if o.get("running") and isinstance(net._current_task_inst, UP.Task) and net._current_task_name in p["progs"]:
                        t, f["n"] = net._current_task_inst, net._current_task_name
                        f.pop("running")
                    actors.append(t.rehearse(actor=A, knowledge=know(o)))
                elif op == "continue":
                    if not i: continue
                    r = classes[o["n"]]().rehearse(actor=A, cloned_actor=True)
                    if r is not A: rec.note_bad("continuing on a clone gave another actor")
                elif op == "network":
                    actors.append(A.rehearse_network("net", list(o["list"]), knowledge=know(o), end_task=o["end"] or None))
                elif op == "do": now_(None, A, o["act"])
                elif op == "sput": A.s.put(o["v"])
                elif op == "sget":
                    if not A.s.items: continue
                    A.s.get()
                elif op == "cput": A.c.put(o["v"])
                elif op == "muput": A.m["u"].put(o["v"])
                elif op == "mwput": A.m["w"].put(o["v"])
                elif op == "csput": A.cs.put(o["v"])
                elif op == "fsput": A.fs.put(o["v"])
                elif op == "fsget":
                    if not A.fs.items: continue
                    n = len(A.fs.items)
                    got = []
                    A.fs.get(lambda v: got.append(v) or len(got) == n)
                elif op == "ssput": A.ss.put(o["v"])
                elif op == "ssget":
                    if not A.ss.items: continue
                    A.ss.get(lambda v: True, lambda v: v)
                elif op == "gapp": grow(caller)
                elif op == "src": source.w = o["v"]
                elif op in ("mim", "unmim", "setw"):
                    if i and op != "setw" or ("w" in A._mimic_states) is (op != "unmim"): continue
                    if op == "mim": A.activate_mimic_state(self_state="w", mimic_state="w", mimic_actor=source, task=mimicker)
                    elif op == "unmim": A.deactivate_mimic_state(self_state="w", task=mimicker)
                    else: A.w = o["v"]
                elif op == "sety": A.y = o["v"]
                elif op == "setz": A.z = o["v"]
                elif op == "qpop":
                    if not A.get_task_queue("net"): continue
                    A._clear_task("net")
                else: raise AssertionError(op)
            except (UP.SimulationError, UP.UpstageError, RuntimeError) as e:
                exc = type(e).__name__
            if op in ("clone", "rehearse", "network", "continue", "tick") and len(env._queue) != pending: rec.note_bad("events were added to the simulation")
            S, C, Q = shared.s, shared.c, shared.r
            if S.items != [1] or C.level != 3 or Q.count or S.get_queue or S.put_queue or C.get_queue or C.put_queue or Q.queue: rec.note_bad("a shared store, container or resource was used")
            add(op, i, exc, own=own, **f)
    cfg = dict(x0=p["x0"], f0=p["f0"], l0=[], d0=p["d0"], p0=p["p0"], s0=[], c0=p["c0"], progs={**p["progs"], "Z": [dict(k="kev", t=6)]}, links=p["links"], bk=p["bk"], groups=groups, mons=mons)
    return {"cfg": cfg, "ev": rec.ev}


def iter_nothing(env):
    yield env.timeout(0)


# ------------------------------------------------------------------ programs
def _multi(rng, real, depth, times, wide):
    k = rng.choice(["any", "all"])
    ms = []
    for _ in range(rng.randint(1 if rng.random() < .1 else 2, 3)):
        if real and not times: break
        if depth and rng.random() < .3 and (not real or len(times) > 1): ms.append(_multi(rng, real, depth - 1, times, wide))
        else: ms.append(dict(k=rng.choice("wegc" if real else "wegcphs"), t=times.pop() if real else rng.randint(0, 5), j=rng.randrange(10**9), ms=[]))
    return dict(k=k, t=0, ms=ms)


def _action(rng, real, later, reh):
    T = (lambda: rng.choice([2, 2, 4, 6])) if real else (lambda: rng.choice([0, 1, 2, 3, 5]))
    k = rng.choice(["wait"] * 4 + ["ev", "kev", "get", "cget", "put", "hold", "routv", "multi", "multi", "multi", "routine"] + ([] if real else ["windowed"]))
    if k == "wait":
        t = T()
        return dict(k=k, t=t, r=t if real or rng.random() < .7 else T())
    if k == "put": return dict(k=k, v=rng.randint(1, 9), r=0 if real else T())
    if k == "multi":
        times = rng.sample(range(2, 40, 2), 19)
        return dict(k=k, m=_multi(rng, real, 2, times, False), gv=not real and rng.random() < .25)
    if k == "routine": return dict(k=k, ts=[T() for _ in range(rng.randint(0 if not real else 1, 3))])
    if k == "routv": return dict(k=k, t=T(), v=rng.randint(0, 1), how=rng.randrange(3))
    return dict(k=k, t=T(), v=rng.randint(1, 9))


def _zero(rng, real, later, reh, active):
    ks = ["setx", "addx", "addx", "app", "dset", "dset", "ks", "note", "usef", "now", "setf", "box", "box", "box", "det"]
    if later: ks += ["q"]
    ks += ["ifx"]
    if not real: ks += ["kc", "kme", "fail", "mimic"] if rng.random() < .35 else []
    if reh: ks.append("reh")
    k = rng.choice(ks)
    v = rng.randint(0, 5)
    if k == "box": return dict(k=k, n=rng.choice(["bl", "bs", "bo", "bn", "bk", "bg"]))
    if k == "det": return dict(k=k, v=rng.randint(0, 1))
    if k in ("usef", "setf"): return dict(k=k, n=rng.choice("fgp" if k == "usef" else "fg"), v=v)
    if k == "dset": return dict(k=k, n=rng.choice("abp"), v=v)
    if k in ("ks", "kc", "kme"): return dict(k=k, n=rng.choice(["k1", "k2"]), v=v)
    if k == "q": return dict(k=k, q=[rng.choice(later) for _ in range(rng.randint(0, 2))])
    if k == "fail":
        how = rng.choice(["raise", "proc", "bad"])
        return dict(k=k, how=how, e="RuntimeError" if how == "raise" else "SimulationError")
    if k == "ifx": return dict(k=k, v=v, t=rng.randint(1, 2))
    if k == "reh": return dict(k=k, n=rng.choice(reh))
    return dict(k=k, v=v)


def _prog(rng, name, real, n):
    order = ["A", "D", "B", "C"]
    later = [x for x in order if name in order and order.index(x) > order.index(name)]
    reh = [] if name.startswith("S0") else ["S0"] if real else ["S0", "S1"] if name in order else []
    out, act = [], []
    for _ in range(n):
        r = rng.random()
        if r < .45 and name not in DECISION: out.append(_action(rng, real, later, reh))
        elif r < .6 and name not in DECISION:
            free = [n for n in "fgp" if n not in act]
            if free and (not act or rng.random() < .4):
                n = rng.choice(free)
                out.append(dict(k="act", n=n, v=rng.randint(-2, 3) if n != "p" else rng.randint(1, 3)))
                act.append(n)
            else:
                out.append(dict(k="deact"))
                act = []
        else:
            z = _zero(rng, real, later, reh, act)
            if z["k"] == "fail" and z["how"] != "raise" and name in DECISION: z = dict(k="fail", how="raise", e="RuntimeError")
            if z["k"] == "ifx" and (real or name in DECISION):
                # what is passed over must not leave a state active or the program without its end
                out.append(z)
                for _ in range(z["t"]): out.append(dict(k="addx", v=rng.randint(0, 3)))
                continue
            if z["k"] == "reh" and name in DECISION and rng.random() < .7: continue
            out.append(z)
    if act and (real or rng.random() < .7): out.append(dict(k="deact"))
    return out


MIX = {"all": ["clone"] * 2 + ["rehearse"] * 2 + ["network"] * 2 + ["continue"] * 2 + ["do"] * 3 + ["res"] * 2 + ["tick"],
       "C14": ["rehearse"] * 5 + ["network"] * 5 + ["continue", "do", "do", "res"],
       "C15": ["rehearse"] * 4 + ["network"] * 4 + ["continue"] * 3 + ["do", "tick"],
       "C16": ["clone"] * 4 + ["rehearse", "network", "continue"] + ["do"] * 6 + ["res"] * 7 + ["tick"]}


def random_program(rng, big=False, mix="all"):
    real = rng.random() < .5
    progs = {n: _prog(rng, n, real or n == "S0", rng.randint(0, 7 if big else 5)) for n in NAMES}
    if real:
        for n in ("S1", "S2"): progs[n] = _prog(rng, n, False, rng.randint(0, 5))
    links = {"A": ["D", "B", "C", "Z"], "D": ["B", "C", "Z"], "B": ["C", "Z", "A"], "C": ["Z", "A", "C"], "Z": ["A"]}
    dflt = {"A": rng.choice(["D", "B", "C"]), "D": rng.choice(["B", "C", "Z"]), "B": rng.choice(["C", "Z"]), "C": "Z", "Z": ""}
    if not real and rng.random() < .3: dflt[rng.choice("ADB")] = ""
    for n in links:
        if rng.random() < .15 and len(links[n]) > 1: links[n].pop(rng.randrange(len(links[n])))
    order = ["A", "D", "B", "C"]

    def know(): return {} if rng.random() < .5 else {rng.choice(["k1", "k2"]): rng.randint(0, 5)}
    focus = sum(rng.sample([["fsput", "fsput", "fsget"], ["ssput", "ssput", "ssget"], ["gapp"], ["src", "mim", "mim", "unmim", "setw"], ["sput", "sput", "sget"], ["cput"],
                            ["muput", "mwput"], ["csput"], ["sety"], ["setz"], ["qpop"]], 3), [])
    ops = []
    if rng.random() < .5: ops.append(dict(op="do", act=dict(k="q", q=[rng.choice(order) for _ in range(rng.randint(0, 3))])))
    if real: ops.append(dict(op="start", n="A"))
    nact = 1
    for _ in range(rng.randint(3, 14 if big else 9)):
        i = rng.randrange(nact) if rng.random() < .6 else 0
        k = rng.choice(["advance"] * (4 if real else 2) + MIX[mix])
        if k == "advance": ops.append(dict(op=k, v=2 * rng.randint(1, 4)))
        elif k == "tick": ops.append(dict(op=k, a=i, v=rng.randint(1, 3)))
        elif k == "clone":
            ops.append(dict(op=k, a=i, x=NONE if rng.random() < .6 else rng.randint(0, 5), y=NONE if rng.random() < .7 else 4, badinit=rng.random() < .06, know=know(), kg=rng.random() < .3))
            nact += 1
        elif k == "rehearse":
            o = dict(op=k, a=0, n=rng.choice(NAMES), know=know(), kg=rng.random() < .3)
            if real and rng.random() < .3: o["running"] = True
            ops.append(o)
            nact += 1
        elif k == "continue": ops.append(dict(op=k, a=rng.randrange(1, nact) if nact > 1 else 0, n=rng.choice(NAMES)))
        elif k == "network":
            end = rng.choice(["", "", "Z", "Z", "C"])
            lst = [rng.choice(order) for _ in range(rng.randint(1, 3))]
            if rng.random() < .75:
                lst = [lst[0]]
                for _ in range(rng.randint(0, 2)):
                    al = [q for q in links[lst[-1]] if q != "Z"]
                    if al: lst.append(rng.choice(al))
            ops.append(dict(op=k, a=i, list=lst, end=end, know=know(), kg=rng.random() < .3))
            nact += 1
        elif k == "do":
            while True:
                z = _zero(rng, True, [], [], False)
                if z["k"] != "ifx": break
            if rng.random() < .2: z = dict(k=rng.choice(["kc", "kme"]), n=rng.choice(["k1", "k2"]))
            # the real actor's queue is left to the task that is running
            if rng.random() < .15: z = dict(k="q", q=[rng.choice(order) for _ in range(rng.randint(0, 2))])
            if z["k"] == "q" and i == 0 and real: z = dict(k="addx", v=1)
            ops.append(dict(op=k, a=i, act=z))
        else:
            op = rng.choice(focus)
            if op == "qpop" and i == 0 and real: op = "sput"
            ops.append(dict(op=op, a=0 if op in ("mim", "unmim", "src", "gapp") else i, v=rng.randint(1, 9)))
    return dict(bk=rng.choice([0, NONE]), x0=rng.randint(0, 5), f0=rng.randint(0, 9), d0=rng.randint(0, 3), p0=rng.randint(0, 3), c0=rng.randint(1, 5), given=rng.random() < .5,
                skip=rng.random() < .5, progs=progs, links={n: dict(default=dflt[n], allowed=links[n]) for n in links}, ops=ops)
