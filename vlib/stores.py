"""Driver for stores and containers (specification Stores.tla)."""
from __future__ import annotations

from vlib.core import Rec


class Obj:
    def __init__(self, i): self.i = i


class EqObj:
    """equal to every item with the same key"""
    def __init__(self, i, k): self.i, self.k = i, k
    def __eq__(self, o): return isinstance(o, EqObj) and o.k == self.k
    def __hash__(self): return hash(self.k)


class Falsy:
    def __init__(self, i): self.i = i
    def __bool__(self): return False


class Empty:
    def __init__(self, i): self.i = i
    def __len__(self): return 0


BUILTIN = [0, "", (), 0.0, None, False, 1, True, 1.0, "a", (0,), 2, "b", 2.0, (1,), -1, "c", 3]


def make_store(UP, env, cfg):
    import simpy
    kind, mon, cap = cfg["kind"], cfg["mon"], cfg["cap"]
    fn = {"len": None, "sum": "sum", "first": "first"}[cfg["qf"]]
    from upstage_des.resources import monitoring as M
    from upstage_des.resources.sorted import SortedFilterStore
    return kind, mon, cap, fn, M, SortedFilterStore, simpy


def execute(program):
    import upstage_des.api as UP
    cfg = program["cfg"]
    rec = Rec()
    with UP.EnvironmentContext() as env:
        kind, mon, cap, fn, M, Sorted, simpy = make_store(UP, env, cfg)
        flavour = program.get("flavour", "obj")
        if kind == "filter" and flavour in ("eq", "builtin"):
            flavour = "obj"    # SimPy's FilterStore removes by ==: equal items are its own affair
        api = program.get("api", "raw")
        table = []      # (real item, meta)

        def real(meta):
            i = meta["id"]
            if flavour == "obj": x = Obj(i)
            elif flavour == "eq": x = EqObj(i, meta["k"])
            elif flavour == "falsy": x = Falsy(i)
            elif flavour == "empty": x = Empty(i)
            else:
                x = BUILTIN[len(table) % len(BUILTIN)]
                if len(table) >= len(BUILTIN): x = ("x", i)
            table.append((x, meta))
            return x

        def meta_of(x):
            for y, m in table:
                if y is x or (flavour == "builtin" and type(y) is type(x) and y == x):
                    return m
            rec.note_bad(f"foreign item {x!r}")
            return {"id": -1, "k": 0, "c": 0}

        kw = {}
        if mon and fn == "sum":
            kw["item_func"] = lambda items: sum(meta_of(x)["k"] for x in items)
        if mon and fn == "first":
            kw["item_func"] = lambda items: meta_of(items[0])["k"] if items else -1
        if kind == "container":
            store = M.SelfMonitoringContainer(env, capacity=cap, init=cfg["init"]) if mon else simpy.Container(env, capacity=cap, init=cfg["init"])
        else:
            cls = {("store", True): M.SelfMonitoringStore, ("store", False): simpy.Store,
                   ("filter", True): M.SelfMonitoringFilterStore, ("filter", False): simpy.FilterStore,
                   ("sorted", True): M.SelfMonitoringSortedFilterStore, ("sorted", False): Sorted}[(kind, mon)]
            store = cls(env, capacity=cap, **kw)

        gets, puts = {}, {}
        amt = {}

        def make_get(o):
            if kind == "container":
                amt[o["rid"]] = o["amt"]
                return UP.Get(store, o["amt"]).as_event() if api == "up" else store.get(o["amt"])
            if kind == "store":
                return UP.Get(store).as_event() if api == "up" else store.get()
            cl = o["cls"]
            flt = lambda x: meta_of(x)["c"] in cl
            if kind == "filter":
                return UP.FilterGet(store, flt).as_event() if api == "up" else store.get(flt)
            sorter = None
            if o["sort"] == "key": sorter = lambda x: meta_of(x)["k"]
            elif o["sort"] == "tuple": sorter = lambda x: (meta_of(x)["k"], "z")
            if api == "up":
                if o["sort"] == "none" and not o["rev"]:
                    return UP.SortedFilterGet(store, flt).as_event()
                return UP.SortedFilterGet(store, flt, sorter, o["rev"]).as_event()
            return store.get(filter=flt, sorter=sorter, reverse=o["rev"])

        for o in program["ops"]:
            op = o["op"]
            fields = {k: v for k, v in o.items() if k != "op"}
            if op == "put":
                what = o["amt"] if kind == "container" else real(o["item"])
                puts[o["pid"]] = UP.Put(store, what).as_event() if api == "up" else store.put(what)
            elif op == "get":
                gets[o["rid"]] = make_get(o)
            elif op == "cancelg":
                if o["rid"] in gets and gets[o["rid"]] in store.get_queue: gets[o["rid"]].cancel()
            elif op == "cancelp":
                if o["rid"] in puts and puts[o["rid"]] in store.put_queue: puts[o["rid"]].cancel()
            elif op == "step":
                if env.peek() <= env.now: env.step()
            elif op == "settle":
                while env.peek() <= env.now: env.step()
            elif op == "advance":
                while env.peek() <= env.now: env.step()
                env.run(until=env.now + o["dt"])
            got = []
            for rid, g in gets.items():
                if g.triggered:
                    if kind == "container":
                        got.append([rid, amt[rid]])
                    else:
                        got.append([rid, meta_of(g.value)["id"]])
            f = dict(got=got, puts=[p for p, ev in puts.items() if ev.triggered])
            f["items"] = [meta_of(x)["id"] for x in store.items] if kind != "container" else []
            f["level"] = rec.int(store.level) if kind == "container" else 0
            f["rec"] = [[rec.int(t), rec.int(q)] for t, q in store._quantities] if mon else []
            rec.add(op, **fields, **f)
    return {"cfg": {k: cfg[k] for k in ("kind", "cap", "mon", "qf", "init")}, "ev": rec.ev}


def random_program(rng, kinds, mon, long=False):
    kind = rng.choice(kinds)
    n = rng.randint(6, 40 if long else 22)
    cap = rng.choice([1, 2, 3, 100]) if kind != "container" else rng.choice([3, 5, 10])
    nk, nc = rng.choice([1, 2, 3, 6]), rng.choice([1, 2, 3])
    ops = []
    pids, rids = [], []
    for i in range(1, n + 1):
        r = rng.random()
        if r < 0.36:
            ops.append(dict(op="put", pid=i, item=dict(id=i, k=rng.randrange(nk), c=rng.randrange(nc)),
                            amt=rng.randint(1, min(4, cap)) if kind == "container" else 0))
            pids.append(i)
        elif r < 0.68:
            cls = [c for c in range(nc) if rng.random() < 0.6]
            if not cls and rng.random() < 0.8: cls = [rng.randrange(nc)]
            if kind != "sorted": sort, rev = "none", False
            else: sort, rev = rng.choice([("none", False), ("key", False), ("key", True), ("tuple", False), ("tuple", True), ("none", True)])
            ops.append(dict(op="get", rid=i, cls=cls if kind in ("filter", "sorted") else [], sort=sort, rev=rev,
                            amt=rng.randint(1, min(4, cap)) if kind == "container" else 0))
            rids.append(i)
        elif r < 0.74 and rids:
            ops.append(dict(op="cancelg", rid=rng.choice(rids)))
        elif r < 0.77 and pids:
            ops.append(dict(op="cancelp", rid=rng.choice(pids)))
        elif r < 0.85:
            ops.append(dict(op="step"))
        elif r < 0.93:
            ops.append(dict(op="settle"))
        else:
            ops.append(dict(op="advance", dt=rng.randint(1, 3)))
    ops.append(dict(op="settle"))
    ops.append(dict(op="advance", dt=1))
    if kind != "container" and isinstance(mon, bool) is False: pass
    return dict(cfg=dict(kind=kind, cap=cap, mon=rng.random() < mon, qf=rng.choice(["len", "len", "sum", "first"]) if kind != "container" else "len",
                         init=rng.randint(0, cap) if kind == "container" else 0),
                flavour=rng.choice(["obj", "eq", "falsy", "empty", "builtin"]), api=rng.choice(["raw", "up"]), ops=ops)


def from_generated(rng, gen, n, mon):
    progs = [p for _, p in gen]
    if len(progs) > n: progs = rng.sample(progs, n)
    out = []
    for p in progs:
        p = dict(p, cfg=dict(p["cfg"], mon=rng.random() < mon), flavour=rng.choice(["obj", "eq", "falsy", "empty", "builtin"]),
                 api=rng.choice(["raw", "up"]))
        p["ops"] = p["ops"] + [dict(op="settle"), dict(op="advance", dt=1)]
        out.append(p)
    return out
