"""Driver for the declaration of states (specification Decl.tla)."""
import inspect
import random

from vlib.core import Rec


class SubList(list):
    pass


def execute(p):
    import simpy
    import upstage_des.api as UP
    from upstage_des.resources import monitoring as M
    rec = Rec()
    RES = {"Store": simpy.Store, "FilterStore": simpy.FilterStore, "SMStore": M.SelfMonitoringStore,
           "Container": simpy.Container, "SMContainer": M.SelfMonitoringContainer}
    PY = {"int": int, "str": str, "list": list, "sub": SubList, "bool": bool, "float": float, "none": type(None), **RES}
    INF = float("inf")

    def mk(t, k="", v=(), m=()): return dict(t=t, k=k, v=list(v), m=list(m))

    with UP.EnvironmentContext() as env:
        def py(g):
            t, k, v = g["t"], g["k"], g["v"]
            if t == "int": return v[0]
            if t == "bool": return bool(v[0])
            if t == "float": return v[0] / 2
            if t == "str": return k
            if t == "none": return None
            if t == "list": return list(v)
            if t == "sub": return SubList(v)
            if t == "resd":
                d = {}
                if k: d["kind"] = RES[k]
                if v[0] != -1: d["capacity"] = v[0]
                if v[1] != -1: d["init"] = v[1]
                if v[2]: d["colour"] = 3
                return d
            if t == "res":
                kw = {} if v[0] == -1 else {"capacity": v[0]}
                if "Store" in k:
                    s = RES[k](env, **kw)
                    for i in range(v[1]): s.put(7)
                    return s
                return RES[k](env, init=v[1], **kw)
            if t == "multid":
                if g.get("plain"): return [x["k"] for x in g["m"]]
                return {x["k"]: py(x["v"]) for x in g["m"]}
            raise ValueError(t)

        def absv(o):
            t = type(o)
            if o is None: return mk("none")
            if t is bool: return mk("bool", v=[int(o)])
            if t is int: return mk("int", v=[o])
            if t is float: return mk("float", v=[rec.int(o * 2)])
            if t is str: return mk("str", k=o)
            if t is list: return mk("list", v=o)
            if t is SubList: return mk("sub", v=o)
            for k, c in RES.items():
                if t is c:
                    cap = -1 if o.capacity == INF else rec.int(o.capacity)
                    return mk("res", k=k, v=[cap, len(o.items) if "Store" in k else rec.int(o.level)])
            rec.note_bad(f"foreign value {o!r}"[:80])
            return mk("?")

        def absm(proxy):
            return mk("multid", m=[dict(k=k, v=absv(proxy[k])) for k in proxy])

        def statecls(d):
            kind = d["kind"]
            types = tuple(PY[t] for t in d["types"]) or None
            if types and len(types) == 1 and d.get("bare"): types = types[0]
            dkw = {n: x for n, x in zip(("capacity", "init"), d["dkw"]) if x != -1}
            if kind == "res":
                return UP.ResourceState(default=RES[d["dk"]] if d["dk"] else None, valid_types=types, default_kwargs=dkw or None)
            if kind == "multi":
                return UP.MultiStoreState(default=RES[d["dk"]] if d["dk"] else None, valid_types=types, default_kwargs=dkw or None)
            if kind == "detect":
                return UP.DetectabilityState(default=py(d["dv"]))
            kw = dict(frozen=d["frozen"], no_init=d["noinit"], valid_types=types, allow_none_default=d["none"], recording=d.get("rec", False))
            if d["recs"]: kw["recording_functions"] = [((lambda t, v: 1), r) for r in d["recs"]]
            if d["def"] == "val": kw["default"] = py(d["dv"])
            if d["def"] == "fac": kw["default_factory"] = lambda: py(d["dv"])
            if d["def"] == "both": kw.update(default=py(d["dv"]), default_factory=lambda: py(d["dv"]))
            return getattr(UP, d["cls"])(**kw)

        classes, actors, decls = [], [], []

        def allstates(i):
            c = p["classes"][i]
            out = {d["n"]: d for b in c["bases"] for d in allstates(b - 1).values()}
            out.update({d["n"]: d for d in c["states"]})
            return out

        def observe():
            out = []
            for c, a in actors:
                row = []
                for n, d in allstates(c).items():
                    if n not in a.__dict__ and d["kind"] == "plain":
                        row.append(dict(n=n, v=mk("unset")))
                        continue
                    try: x = getattr(a, n)
                    except Exception as ex:
                        rec.note_bad(f"reading {n} raised {ex!r}"[:120])
                        continue
                    row.append(dict(n=n, v=absm(x) if d["kind"] == "multi" else absv(x)))
                out.append(row)
            return out

        def add(op, exc, **kw): rec.add(op, **{**kw, "exc": exc, "obs": observe()})

        for i, c in enumerate(p["classes"]):
            exc = ""
            try:
                ns = {d["n"]: statecls(d) for d in c["states"]}
                bases = tuple(classes[b - 1] for b in c["bases"])
                if not c["mixin"] and not any(issubclass(b, UP.Actor) for b in bases): bases = (UP.Actor,) + bases
                cl = type(f"K{i}", bases, ns)
            except Exception as ex:
                exc = type(ex).__name__
                if "MRO" in str(ex): break        # Python's own refusal
            add("class", exc, c=i + 1)
            if exc: break
            classes.append(cl)
            if not c["mixin"]:
                ps = [q for q in inspect.signature(cl).parameters.values() if q.name in allstates(i)]
                add("sig", "", c=i + 1, sig=[dict(n=q.name) for q in ps])
        rng = random.Random(p["seed"])

        for o in p["ops"]:
            exc = ""
            f = {k: v for k, v in o.items() if k != "op"}
            if o["op"] == "make":
                if o["c"] > len(classes) or p["classes"][o["c"] - 1]["mixin"]: continue
                given = list(o["given"])
                try:
                    kw = {g["n"]: py(g["v"]) for g in given}
                except Exception as ex:
                    continue
                keep = {k: (dict(v) if isinstance(v, dict) else v) for k, v in kw.items()}
                try:
                    a = classes[o["c"] - 1](name=f"a{len(actors)}", **kw)
                except Exception as ex:
                    exc = type(ex).__name__
                else:
                    actors.append((o["c"] - 1, a))
                if any(isinstance(v, dict) and keep[k] != v for k, v in kw.items()): rec.note_bad("the caller's dictionary was changed")
            else:
                if not actors: continue
                f["a"] = (o["a"] - 1) % len(actors) + 1
                c, a = actors[f["a"] - 1]
                names = sorted(allstates(c))
                if "n" not in o or o["n"] not in names:
                    if not names: continue
                    f["n"] = names[o.get("i", 0) % len(names)]
                n = f["n"]
                d = allstates(c)[n]
                if o["op"] == "set":
                    if d["kind"] in ("res", "multi"):
                        f["v"] = mk("resd", v=[-1, -1, 0])
                    if d["kind"] == "detect" and o["v"]["t"] not in ("bool", "int"): f["v"] = mk("bool", v=[1])
                    try: setattr(a, n, py(f["v"]) if d["kind"] != "multi" else {})
                    except Exception as ex: exc = type(ex).__name__
                elif o["op"] == "read":
                    try: getattr(a, n)
                    except Exception as ex: exc = type(ex).__name__
                elif o["op"] == "grow":
                    if n not in a.__dict__: continue
                    x = getattr(a, n)
                    op = "grow"
                    if d["kind"] == "multi":
                        ks = list(x)
                        if not ks: continue
                        f["k"] = ks[o.get("i", 0) % len(ks)]
                        x, op = x[f["k"]], "growpart"
                    try:
                        if isinstance(x, list): x.append(7)
                        elif isinstance(x, simpy.Store): x.put(7)
                        elif isinstance(x, simpy.Container): x.put(1)
                        else: continue
                        if not isinstance(x, list): env.run(until=env.now + 1)
                    except Exception as ex: exc = type(ex).__name__
                    f = {k: f[k] for k in f if k != "i"}
                    add(op, exc, **f)
                    continue
            f.pop("i", None)
            add(o["op"], exc, **f)
    return {"cfg": {"classes": p["classes"]}, "ev": rec.ev}


def mkv(t, k="", v=(), m=()): return dict(t=t, k=k, v=list(v), m=list(m))


def rvalue(rng):
    t = rng.choice(["int", "int", "bool", "float", "str", "none", "list", "sub"])
    if t == "int": return mkv(t, v=[rng.choice([0, 1, 2, -3])])
    if t == "bool": return mkv(t, v=[rng.randint(0, 1)])
    if t == "float": return mkv(t, v=[rng.choice([0, 1, 3])])
    if t == "str": return mkv(t, k=rng.choice(["", "a", "bc"]))
    if t in ("list", "sub"): return mkv(t, v=[rng.randint(0, 3) for _ in range(rng.randint(0, 2))])
    return mkv("none")


def matching(rng, types, p_ok=0.85):
    if not types or rng.random() > p_ok: return rvalue(rng)
    t = rng.choice(types)
    for _ in range(200):
        v = rvalue(rng)
        if v["t"] == t or (t == "int" and v["t"] == "bool" and rng.random() < 0.3) or (t == "list" and v["t"] == "sub" and rng.random() < 0.3): return v
    return rvalue(rng)


STORES, CONTS = ["Store", "FilterStore", "SMStore"], ["Container", "SMContainer"]


def ask(rng, fancy=True):
    k = rng.choice(["", "", "", *STORES, *CONTS])
    cap = rng.choice([-1, -1, 1, 3, 5] + ([0] if rng.random() < 0.1 else []))
    fill = rng.choice([-1, -1, -1, 0, 2])
    if k in STORES and rng.random() < 0.9: fill = -1
    if fill > cap != -1 and rng.random() < 0.8: fill = 0
    if rng.random() < 0.2:
        k = rng.choice(STORES + CONTS)
        cap = cap if cap != 0 else -1
        fill = 0 if fill == -1 else fill
        if cap != -1: fill = min(fill, cap)
        return mkv("res", k=k, v=[cap, fill])
    return mkv("resd", k=k, v=[cap, fill, int(rng.random() < 0.07)])


def multi(rng, d):
    ks = rng.sample(["p", "q", "r"], rng.randint(0, 3))
    if rng.random() < 0.2:
        return dict(mkv("multid", m=[dict(k=k, v=mkv("resd", v=[-1, -1, 0])) for k in ks]), plain=True)
    return mkv("multid", m=[dict(k=k, v=ask(rng)) for k in ks])


def rstate(rng, n):
    kind = rng.choices(["plain", "res", "multi", "detect"], [7, 2, 1, 0.7])[0]
    d = dict(n=n, kind=kind, cls="State", dv=mkv("none"), frozen=False, noinit=False, none=False, types=[], recs=[], dk="", dkw=[-1, -1], bare=rng.random() < 0.5)
    d["def"] = "no"
    if kind == "plain":
        d["cls"] = rng.choice(["State", "State", "State", "LinearChangingState"])
        d["types"] = rng.choice([[], [], ["int"], ["list"], ["str"], ["int", "none"], ["float", "str"], ["bool"]])
        d["def"] = rng.choices(["no", "val", "fac", "both"], [5, 4, 4, 0.2])[0]
        if d["def"] != "no":
            for _ in range(100):
                d["dv"] = matching(rng, d["types"], 0.93)
                if d["def"] == "fac": break
                if d["dv"]["t"] not in ("none", "list", "sub"): break
            else: d["def"] = "no"
            if d["def"] == "no": d["dv"] = mkv("none")
        d["frozen"] = rng.random() < 0.3
        d["noinit"] = rng.random() < (0.25 if d["def"] != "no" else 0.02)
        d["none"] = rng.random() < 0.2
        d["rec"] = rng.random() < 0.3
        if rng.random() < 0.12: d["recs"] = [rng.choice(["r1", "r2", "r3", "x", "r4", "r5"]) for _ in range(rng.randint(1, 2))]
    elif kind == "detect":
        d["def"], d["dv"], d["types"] = "val", mkv("bool", v=[rng.randint(0, 1)]), ["bool"]
    else:
        d["dk"] = rng.choice(["", "Store", "Container", "SMStore", "SMContainer", "FilterStore"])
        d["types"] = rng.choice([[], [], ["Store"], ["Container"], ["SMStore", "SMContainer"], ["Store", "Container"]])
        if d["kind"] == "multi" and not d["types"]: d["types"] = ["Store", "Container"]
        if d["dk"] and rng.random() < 0.3: d["dkw"] = [rng.choice([2, 4]), -1 if d["dk"] in STORES else rng.choice([-1, 1])]
    return d


def random_program(rng, long=False):
    nc = rng.randint(1, 5)
    classes = []
    names = ["x", "y", "z", "w", "u", "t"]
    fresh = rng.random() < 0.75      # avoid redeclaring most of the time
    used = {}                        # class index -> names along ancestors

    def anc(i): return {i}.union(*[anc(b) for b in classes[i - 1]["bases"]])
    for i in range(1, nc + 1):
        bases = []
        mixin = rng.random() < 0.2 and i < nc
        acts = [j for j in range(1, i) if not classes[j - 1]["mixin"]]
        mixs = [j for j in range(1, i) if classes[j - 1]["mixin"]]
        if not mixin:
            if acts and rng.random() < 0.75: bases.append(rng.choice(acts))
            if acts and rng.random() < 0.4:
                c = [j for j in acts if j not in bases and all(j not in anc(b) and b not in anc(j) for b in bases)]
                if c: bases.append(rng.choice(c))
            c = [m for m in mixs if all(m not in anc(b) for b in bases)]
            if c and rng.random() < 0.7: bases.append(rng.choice(c))
            if bases and all(classes[b - 1]["mixin"] for b in bases): pass
        inherited = set().union(set(), *[used[b] for b in bases])
        pool = [n for n in names if n not in inherited] if fresh else names
        if fresh: pool = [n for n in pool if all(n not in used[j] for j in used)] or pool
        sts = [rstate(rng, n) for n in rng.sample(pool, min(len(pool), rng.randint(0, 3)))]
        if rng.random() < 0.015: sts.append(dict(rstate(rng, "log")))
        used[i] = inherited | {d["n"] for d in sts}
        classes.append(dict(bases=bases, mixin=mixin, states=sts))
    ops = []

    def alls(i):
        out = {}
        for b in classes[i - 1]["bases"]: out.update(alls(b))
        out.update({d["n"]: d for d in classes[i - 1]["states"]})
        return out
    makes = [i for i in range(1, nc + 1) if not classes[i - 1]["mixin"]]
    for _ in range(rng.randint(5, 40 if long else 18)):
        r = rng.random()
        if r < 0.4 or not ops:
            c = rng.choice(makes)
            given = []
            for n, d in alls(c).items():
                hd = d["def"] != "no" or d["none"] or (d["kind"] == "res" and d["dk"])
                if d["noinit"]:
                    if rng.random() > 0.04: continue
                elif hd and rng.random() < 0.5: continue
                elif not hd and rng.random() < 0.06: continue
                if d["kind"] == "res":
                    v = ask(rng)
                    if d["types"] and v["t"] == "resd" and rng.random() < 0.4: v["k"] = rng.choice(d["types"] + ([""] if d["dk"] else []))
                    if rng.random() < 0.5 and v["t"] == "resd": v["v"] = [v["v"][0] or -1, -1, 0]
                    if rng.random() < 0.03: v = mkv("int", v=[3])
                elif d["kind"] == "multi":
                    v = multi(rng, d)
                    for x in v["m"]:
                        if rng.random() < 0.7 and not v.get("plain"): x["v"] = mkv("resd", k=rng.choice(d["types"]) if not d["dk"] or rng.random() < 0.3 else "", v=[rng.choice([-1, 2]), -1, 0])
                elif d["kind"] == "detect": v = matching(rng, ["bool"], 0.9)
                else: v = matching(rng, d["types"], 0.94)
                given.append(dict(n=n, v=v))
            if rng.random() < 0.04: given.append(dict(n="nosuch", v=mkv("int", v=[1])))
            rng.shuffle(given)
            ops.append(dict(op="make", c=c, given=given))
        elif r < 0.75:
            ops.append(dict(op="set", a=rng.randint(1, 4), i=rng.randint(0, 6), v=rvalue(rng)))
        elif r < 0.83: ops.append(dict(op="read", a=rng.randint(1, 4), i=rng.randint(0, 6)))
        else: ops.append(dict(op="grow", a=rng.randint(1, 4), i=rng.randint(0, 6)))
    return dict(classes=classes, ops=ops, seed=rng.randrange(10 ** 6))
