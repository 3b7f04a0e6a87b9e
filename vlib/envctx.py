"""Driver for environment contexts (specification EnvCtx.tla)."""
import contextvars
import random as pyrandom

from vlib.core import Rec

TSC = 4
NAMES = ["alpha", "beta", "items", "copy", "random"]
NDRAW = 60


def execute(p):
    import upstage_des.api as UP
    from upstage_des.base import clear_top_context, create_top_context
    rec = Rec()
    classes = []
    for i, c in enumerate(p["cls"]):
        base = {"actor": UP.Actor, "entity": UP.NamedUpstageEntity, "monitor": {"s": UP.SelfMonitoringStore, "c": UP.SelfMonitoringContainer}[c.get("res", "s")]}[c["kind"]]
        bases = tuple(classes[q] for q in c["parents"]) or (base,)
        kw = {}
        if c["groups"]: kw["entity_groups"] = c["groups"][0] if len(c["groups"]) == 1 and c.get("bare") else list(c["groups"])
        if c["skip"]: kw["skip_classname"] = True
        if not c["add"]: kw["add_to_entity_groups"] = False
        ns = {}
        if c.get("eq"): ns.update(__eq__=lambda self, o: type(self) is type(o), __hash__=lambda self: 7)
        if c["kind"] == "entity" and not c["parents"]:
            classes_of = []

            def init(self, name=None, _c=classes_of):
                super(_c[0], self).__init__()
            ns["__init__"] = init
            k = type(c["name"], bases, ns, **kw)
            classes_of.append(k)
        else:
            k = type(c["name"], bases, ns, **kw)
        classes.append(k)
    groups = sorted({g for c in p["cls"] for g in c["groups"]} | {c["name"] for c in p["cls"]} | {"nosuch"})
    gens = {g: pyrandom.Random(int(g[1:])) for g in p["gens"]}
    # what each source is going to give: plain Python, not the code under test
    table = {}
    for g in p["gens"]:
        r = pyrandom.Random(int(g[1:]))
        table[g] = [int(r.uniform(0, 1) * 1000000) for _ in range(NDRAW)]
    cfg_rng = dict(table)
    py = [contextvars.copy_context() for _ in range(p["threads"])]
    outside = UP.UpstageBase() if p.get("warnbase") else None
    stack = [[] for _ in range(p["threads"])]
    objs, pool, fired, left = {}, {}, {}, []

    def look(th):
        b = outside or UP.UpstageBase()
        ins = []
        for f in (lambda: b.env.now, lambda: b.stage, UP.get_stage, b.get_actors, b.get_monitored, b.get_recorded, lambda: b.get_entity_group("x"), b.get_all_entity_groups):
            try:
                f()
                ins.append(True)
            except (UP.UpstageError, ValueError, LookupError):
                ins.append(False)
        if True not in ins: return {"in": False}
        if False in ins:
            rec.note_bad("only a part of a context is there")
            return {"in": False}
        ids = lambda lst: [next((k for k, o in objs.items() if o is x), -1) for x in lst]
        vars_ = {}
        for n in p["names"]:
            try:
                v = UP.get_stage_variable(n)
                vars_[n] = -1 if n == "random" and v is b.stage.random else next((k for k, o in pool.items() if o is v), -2)
            except UP.UpstageError:
                vars_[n] = -1
        g = {n: ids(b.get_entity_group(n)) for n in groups}
        allg = b.get_all_entity_groups()
        for n, l in allg.items():
            if n in groups and ids(l) != g[n]: rec.note_bad("the entity groups disagree")
        return {"in": True, "now": rec.num(b.env.now, TSC), "vars": vars_, "actors": ids(b.get_actors()), "monitored": ids(b.get_monitored()),
                "recs": [[rec.num(t, TSC), v] for t, v in b.get_recorded()], "groups": g, "all": [n for n, l in allg.items() if l and n in groups],
                "fired": [[i, rec.num(t, TSC)] for i, t in fired[stack[th][-1][2]]]}

    def add(op, th, exc="", **f):
        rec.add(op, th=th + 1, exc=exc, see=[py[t].run(look, t) for t in range(p["threads"])], **f)

    add("init", 0)
    cn = [0]
    for o in p["ops"]:
        op, th = o["op"], o["th"] - 1
        f, x = {}, ""

        def do():
            nonlocal x
            b = outside or UP.UpstageBase()
            if op == "enter":
                old = None
                if o.get("again") and left:
                    old, o2 = left.pop()          # the same object entered again, after it was left
                    o.update({k: o2[k] for k in ("t0", "how", "gen")}, top=False)
                kw = dict(initial_time=o["t0"] / TSC)
                gen = ""
                if o["how"] == "seed":
                    kw["random_seed"] = int(o["gen"][1:])
                    cn[0] += 1
                    gen = f"{o['gen']}#{cn[0]}"
                    cfg_rng[gen] = table[o["gen"]]
                elif o["how"] == "gen":
                    kw["random_gen"] = gens[o["gen"]]
                    if o.get("both"): kw["random_seed"] = 99
                    gen = o["gen"]
                f.update(t0=o["t0"], gen=gen)
                if o.get("top"): ctx, env = create_top_context(**kw), None
                else:
                    ctx = old or UP.EnvironmentContext(**kw)
                    env = ctx.__enter__()
                    if env is not b.env: rec.note_bad("the environment given is not the current one")
                cn[0] += 1
                fired[cn[0]] = []
                stack[th].append((ctx, o.get("top"), cn[0], o))
            elif op == "exit":
                ctx, top, _, how = stack[th].pop()
                if not top: left.append((ctx, dict(how)))
                if top: clear_top_context(ctx)
                elif o.get("err"):
                    try:
                        raise KeyError("left through an error")
                    except KeyError as e:
                        if ctx.__exit__(KeyError, e, e.__traceback__): rec.note_bad("the error was swallowed")
                else: ctx.__exit__(None, None, None)
            elif op == "addvar":
                f.update(n=o["n"], v=o["v"])
                v = pool.setdefault(o["v"], [o["v"]] if o["v"] % 2 else object())
                if o.get("attr"): setattr(UP.get_stage(), o["n"], v)
                else: UP.add_stage_variable(o["n"], v)
            elif op == "getvar":
                f.update(n=o["n"], v=-2)
                attr = o.get("attr") and not hasattr(dict, o["n"])
                v = getattr(b.stage, o["n"]) if attr else UP.get_stage_variable(o["n"])
                f["v"] = next((k for k, q in pool.items() if q is v), -2)
            elif op == "make":
                f.update(c=o["c"], id=o["id"])
                c = p["cls"][o["c"] - 1]
                K = classes[o["c"] - 1]
                objs[o["id"]] = K(name=f"n{o['id'] % 3}") if c["kind"] == "actor" else K(f"n{o['id'] % 3}") if c["kind"] == "entity" else K(b.env)
            elif op == "record":
                f["v"] = o["v"]
                UP_record(o["v"])
            elif op == "timer":
                f.update(id=o["id"], d=o["d"])
                lst, e = (fired[stack[th][-1][2]] if stack[th] else []), b.env
                def proc(d=o["d"], i=o["id"]):
                    yield UP.Wait(d / TSC).as_event()
                    lst.append((i, (outside or UP.UpstageBase()).env.now))
                e.process(proc())
            elif op == "run":
                f["d"] = o["d"]
                b.env.run(until=b.env.now + o["d"] / TSC)
            elif op == "draw":
                f["v"] = 0
                if o["how"] == "wait":
                    w = UP.Wait.from_random_uniform(0, 1)
                    f["v"] = int(w.timeout * 1000000)
                else: f["v"] = int(b.stage.random.uniform(0, 1) * 1000000)
            else:
                raise ValueError(op)

        from upstage_des.data_utils import record_data as UP_record
        if op == "exit" and not stack[th]: continue
        try:
            py[th].run(do)
        except (UP.UpstageError, AttributeError, LookupError, ValueError) as e:
            x = type(e).__name__
        add(op, th, x, **f)
    cls = []
    for i, c in enumerate(p["cls"]):
        anc, todo = [], [i]
        while todo:
            q = todo.pop()
            if q not in anc:
                anc.append(q)
                todo += p["cls"][q]["parents"]
        cls.append(dict(kind=c["kind"], name=c["name"], groups=c["groups"], skip=c["skip"], add=c["add"], anc=[q + 1 for q in anc]))
    return {"spec": "EnvCtx", "cfg": dict(cls=cls, rng=cfg_rng, names=p["names"], threads=p["threads"]), "ev": rec.ev}


def random_program(rng, long=False):
    """Clocks and runs are even, waits odd: no wait ends at the moment a run stops."""
    nth = rng.choice([1, 1, 2, 3])
    cls = []
    for i in range(rng.randint(2, 6)):
        kind = rng.choice(["actor", "actor", "entity", "monitor"])
        same = [q for q in range(i) if cls[q]["kind"] == kind and not (kind == "entity" and False)]
        parents = []
        if same and rng.random() < 0.6:
            parents = [rng.choice(same)]
            two = [q for q in same if q != parents[0] and q not in anc(cls, parents[0]) and parents[0] not in anc(cls, q)]
            if two and rng.random() < 0.4: parents.append(rng.choice(two))
        cls.append(dict(kind=kind, name=f"K{i}", parents=parents, groups=rng.sample(["g", "h", "K0", "veh"], rng.choice([0, 0, 1, 2])),
                        skip=rng.random() < 0.2, add=rng.random() < 0.85, bare=rng.random() < 0.5, eq=rng.random() < 0.2,
                        res=cls[parents[0]]["res"] if parents else rng.choice("sc")))
        for q in parents[1:]:
            if cls[q]["res"] != cls[-1]["res"]: cls[-1]["parents"] = parents[:1]
    ops, depth, n, tids = [], [0] * nth, 0, 0
    names = rng.sample(NAMES, rng.randint(2, 5))
    gens = [f"s{rng.randint(1, 9999)}" for _ in range(2)]
    for _ in range(rng.randint(8, 45 if long else 26)):
        th = rng.randint(1, nth)
        op = rng.choice(["enter", "enter", "exit", "exit", "addvar", "addvar", "getvar", "getvar", "make", "make", "make", "record", "timer", "run", "run", "draw", "draw"])
        if not depth[th - 1] and rng.random() < 0.8: op = "enter"
        if op == "exit" and not depth[th - 1]: continue
        if not depth[th - 1] and op in ("make", "timer"): continue       # objects made outside: only a warning is promised
        o = dict(op=op, th=th)
        if op == "enter":
            depth[th - 1] += 1
            o.update(t0=rng.choice([0, 0, 4, 10, 400]), how=rng.choice(["none", "seed", "seed", "gen"]), gen=rng.choice(gens), both=rng.random() < 0.3, top=rng.random() < 0.3, again=rng.random() < 0.25)
        elif op == "exit":
            depth[th - 1] -= 1
            o["err"] = rng.random() < 0.4
        elif op in ("addvar", "getvar"):
            o.update(n=rng.choice([x for x in names if op == "addvar" or x != "random"] or ["alpha"]), v=rng.randint(0, 4), attr=rng.random() < 0.5)
            if o["n"] not in names: continue
            was = [q["n"] for q in ops if q["op"] == "addvar" and q["th"] == th]
            if op == "getvar" and was and rng.random() < 0.7: o["n"] = rng.choice(was)
            if op == "getvar" and o["n"] == "random": continue
        elif op == "make":
            n += 1
            o.update(c=rng.randint(1, len(cls)), id=n)
        elif op == "record": o["v"] = rng.randint(0, 9)
        elif op == "timer":
            tids += 1
            o.update(id=tids, d=rng.choice([1, 3, 5, 9]))
        elif op == "run": o["d"] = rng.choice([2, 4, 6])
        elif op == "draw": o["how"] = rng.choice(["wait", "direct"])
        ops.append(o)
    return dict(threads=nth, cls=cls, names=names, gens=gens, ops=ops, warnbase=rng.random() < 0.4)


def anc(cls, i):
    out, todo = set(), [i]
    while todo:
        q = todo.pop()
        out.add(q)
        todo += cls[q]["parents"]
    return out


def concrete(g):
    """A program printed by TLC for the driver."""
    cls = [dict(kind="actor", name="K0", parents=[], groups=["g"], skip=False, add=True), dict(kind="actor", name="K1", parents=[0], groups=[], skip=False, add=True),
           dict(kind="monitor", name="K2", parents=[], groups=["g"], skip=True, add=True)]
    return dict(threads=2, cls=cls, names=["alpha", "items"], gens=["s1", "s2"], ops=g["ops"])
