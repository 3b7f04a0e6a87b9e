"""Records what has been recorded and the tables made of it."""
import random
from collections import Counter
from dataclasses import asdict, dataclass, is_dataclass

from vlib import core

SC = 4


def _types():
    global Point

    @dataclass
    class Point:
        u: int
        w: float
    return Point


_types()


class Codes:
    """Equal values have equal codes."""

    def __init__(self): self.d = {}

    def __call__(self, v):
        import simpy
        from upstage_des.data_types import CartesianLocation, GeodeticLocation
        if isinstance(v, (simpy.Store, simpy.Container)): r = f"resource {id(v)}"
        elif isinstance(v, CartesianLocation): r = f"C {v.x!r} {v.y!r} {v.z!r}"
        elif isinstance(v, GeodeticLocation): r = f"G {v.lat!r} {v.lon!r} {v.alt!r}"
        elif isinstance(v, (list, tuple)): r = f"{type(v).__name__} {[self(x) for x in v]}"
        elif is_dataclass(v) and not isinstance(v, type): r = f"dc {self(asdict(v))}"
        elif isinstance(v, dict): r = f"dict {sorted((k, self(x)) for k, x in v.items())}"
        else: r = f"{type(v).__name__} {v!r}"
        return self.d.setdefault(r, len(self.d) + 1)


def fn_len(t, v): return len(str(v))
def fn_time(t, v): return t
def fn_dict(t, v): return {"one": 1, "text": str(v)[:3]}


FNS = {"len": fn_len, "time": fn_time, "parts": fn_dict}


def execute(p):
    import simpy
    import upstage_des.api as UP
    from upstage_des.data_utils import create_location_table, create_table, get_recorded_data, record_data
    from upstage_des.states import ActiveStatus
    rec, code = core.Rec(SC), Codes()
    mark = {ActiveStatus.activating: "activating", ActiveStatus.deactivating: "deactivating"}

    class Twin(UP.SelfMonitoringContainer):
        """Equal to all of its kind."""

        def __eq__(self, other): return isinstance(other, Twin)
        def __hash__(self): return 1

    KINDS = dict(store=UP.SelfMonitoringStore, filter=UP.SelfMonitoringFilterStore, cont=UP.SelfMonitoringContainer, sorted=UP.SelfMonitoringSortedFilterStore,
                 reserve=UP.SelfMonitoringReserveContainer, cc=UP.SelfMonitoringContinuousContainer, twin=Twin)
    counting = dict(item_func=lambda items: Counter(str(i) for i in items))

    def value(x):
        """A program's value as the real one."""
        if isinstance(x, dict) and "dc" in x: return Point(*x["dc"])
        if isinstance(x, dict) and "loc" in x: return (UP.GeodeticLocation if p["geo"] else UP.CartesianLocation)(*x["loc"])
        if isinstance(x, dict): return dict(x)
        return x

    def state(st):
        k, r = st["k"], dict(recording=st.get("rec"))
        fns = [(FNS[f], f"{st['n']}_{f}" if not st.get("dot") else f"{st['n']}.{f}") for f in st.get("fns", [])] or None
        if k in ("plain", "unset"): return UP.State(record_duplicates=st["dup"], recording_functions=fns, **r, **(dict(default=None, allow_none_default=True) if k == "unset" else {}))
        if k == "lin": return UP.LinearChangingState(recording=st["rec"], record_duplicates=st["dup"], recording_functions=fns)
        if k == "loc":
            c = UP.GeodeticLocationChangingState if p["geo"] else UP.CartesianLocationChangingState
            return c(recording=st["rec"])
        if k == "keyed": return UP.DictionaryState(recording=st["rec"], record_duplicates=st["dup"], recording_functions=fns)
        if k == "kdc": return UP.DataclassState(valid_types=Point, recording=True, record_duplicates=st["dup"], recording_functions=fns)
        if k == "res": return UP.ResourceState(default=simpy.Store)
        if k == "held": return UP.ResourceState(default=KINDS[st["of"]], default_kwargs=counting if st.get("count") else st.get("kw") or {})
        if k == "shared": return UP.State()
        if k == "multi": return UP.MultiStoreState(default=UP.SelfMonitoringStore, valid_types=(simpy.Store, simpy.Container))
        raise AssertionError(k)

    ctx = UP.EnvironmentContext(initial_time=p["t0"])
    with ctx as env:
        if p["geo"]:
            from upstage_des.geography import Spherical
            UP.add_stage_variable("stage_model", Spherical)
            UP.add_stage_variable("distance_units", "nmi")
            UP.add_stage_variable("altitude_units", "ft")
        UP.add_stage_variable("time_unit", "hr")
        classes = []
        for c in p["classes"]:
            base = (classes[c["base"]],) if c.get("base") is not None else (UP.Actor,)
            classes.append(type(c["n"], base, {st["n"]: state(st) for st in c["states"]}))

        def states_of(ci):
            c = p["classes"][ci]
            got = states_of(c["base"]) if c.get("base") is not None else []
            return got + c["states"]
        res = []     # monitored resources: the object, what holds it
        for f in p["free"]:
            kw = dict(capacity=100) if f["kind"] == "cc" else {}
            res.append([KINDS[f["kind"]](env, name=f["name"], **kw), []])
        acts, unset = [], set()
        defs = []

        def make(a):
            sts = states_of(a["cls"])
            # declared states, base classes last as python finds them: the order is not checked
            vals = {}
            for st in sts:
                v = a["vals"].get(st["n"])
                if st["k"] == "unset": continue
                if st["k"] == "shared": vals[st["n"]] = res[v % len(res)][0] if res else 0
                elif st["k"] in ("held", "res"): continue
                elif st["k"] == "multi": vals[st["n"]] = {k: {} for k in v}
                else: vals[st["n"]] = value(v)
            x = classes[a["cls"]](name=a["name"], **vals)
            i = len(acts)
            acts.append(x)
            ds = []
            for st in sts:
                if st["k"] == "unset": unset.add((i, st["n"]))
                k = dict(plain="plain", unset="plain", lin="active", loc="loc", keyed="keyed", kdc="keyed", res="other", held="held", shared="held", multi="other")[st["k"]]
                if st["k"] == "shared" and vals[st["n"]] == 0: k = "other"
                ds.append(dict(n=st["n"], k=k, rec=bool(st.get("rec")), fns=[f"{st['n']}_{f}" if not st.get("dot") else f"{st['n']}.{f}" for f in st.get("fns", [])]))
                if st["k"] == "held": res.append([getattr(x, st["n"]), [(i, st["n"])]])
                if st["k"] == "shared" and k == "held": [r for r in res if r[0] is vals[st["n"]]][0][1].append((i, st["n"]))
                if st["k"] == "multi":
                    for key in a["vals"][st["n"]]: res.append([getattr(x, st["n"])[key], []])
            defs.append(sts)
            rec.add("make", exc="", actor=dict(id=i + 1, name=a["name"], kind=p["classes"][a["cls"]]["n"], states=ds))

        def entry(t, v):
            t = rec.num(t)
            if isinstance(v, ActiveStatus): return dict(t=t, k="m", n=mark[v], v=0, kv=[])
            if is_dataclass(v) and not isinstance(v, type): return dict(t=t, k="d", n="", v=0, kv=[dict(n=k, v=code(x)) for k, x in asdict(v).items()])
            if isinstance(v, dict): return dict(t=t, k="d", n="", v=0, kv=[dict(n=str(k), v=code(x)) for k, x in v.items()])
            return dict(t=t, k="s", n="", v=code(v), kv=[])

        def plain(t, v): return dict(t=rec.num(t), k="s", n="", v=code(v), kv=[])

        def hists(i):
            fns = {f"{st['n']}.{f}" for st in defs[i] for f in st.get("fns", []) if st.get("dot")}
            keyed = {st["n"] for st in defs[i] if st["k"] in ("keyed", "kdc")}
            out = []
            for n, h in acts[i]._state_histories.items():
                of = n.split(".", 1)[0] if "." in n and n not in fns and n.split(".", 1)[0] in keyed else ""
                out.append(dict(n=n, of=of, h=[entry(*x) for x in h]))
            return out

        def vals(i):
            out = []
            for st in defs[i]:
                if (i, st["n"]) in unset or (st.get("rec") and st["k"] != "keyed") or st["k"] in ("held", "kdc") or (st["k"] == "shared" and getattr(acts[i], st["n"]) != 0): out.append([])
                elif st["k"] in ("keyed", "multi"): out.append([dict(n=f"{st['n']}.{k}", v=code(v)) for k, v in getattr(acts[i], st["n"]).items()])
                else: out.append([dict(n=st["n"], v=code(getattr(acts[i], st["n"])))])
            return out

        def quantities():
            return [dict(name=str(r.name), kind=type(r).__name__, by=[dict(id=i + 1, n=n) for i, n in by], h=[(entry if by else plain)(*x) for x in r._quantities]) for r, by in res]

        def fingerprint():
            return ([[(n, [(t, code(v)) for t, v in h]) for n, h in a._state_histories.items()] for a in acts],
                    [[(t, code(v)) for t, v in r._quantities] for r, _ in res], [sorted(a._knowledge) for a in acts],
                    [{k: code(v) for k, v in a.__dict__.items() if k in a._state_defs} for a in acts], [sorted(a._active_states) for a in acts],
                    len(env._queue), env.now, code([v for _, v in get_recorded_data()]))
        junk = UP.Task()
        mine = []      # things recorded by hand without a copy
        for a in p["actors"]: make(a)
        for o in p["ops"]:
            op, a, exc = o["op"], None, ""
            if acts and "a" in o:
                i = o["a"] % len(acts)
                a = acts[i]
                st = defs[i][o["s"] % len(defs[i])] if "s" in o and defs[i] else None
            try:
                if op in ("table", "loc"):
                    f = dict(skip=o.get("skip", False), static=o.get("static", False))
                    if f["static"]:
                        for i in range(len(acts)): vals(i)       # reading brings active states up to date
                    before = fingerprint()
                    try: rows, cols = create_table(skip_locations=f["skip"], save_static=f["static"]) if op == "table" else create_location_table()
                    except Exception as e:
                        exc, rows, cols = type(e).__name__, [], []
                        if p.get("raise"): raise
                    f["kept"] = before == fingerprint()
                    if not exc:
                        rows2, cols2 = create_table(skip_locations=f["skip"], save_static=f["static"]) if op == "table" else create_location_table()
                        f["same"] = [(*r[:4], *map(code, r[4:-1]), r[-1]) for r in rows2] == [(*r[:4], *map(code, r[4:-1]), r[-1]) for r in rows] and cols == cols2
                    else: f["same"] = True

                    def row(r):
                        if len(r) != (6 if op == "table" else 8): rec.note_bad(f"a row has {len(r)} columns")
                        v = code(r[4]) if op == "table" else code((UP.GeodeticLocation if p["geo"] else UP.CartesianLocation)(*r[4:7]))
                        return dict(a=rec.str(r[0]), k=rec.str(r[1]), n=rec.str(r[2]), t=rec.num(r[3]), v=v, st="" if r[-1] is None else rec.str(r[-1]))
                    see = []
                    for i in range(len(acts)):
                        see.append(dict(hists=hists(i), vals=vals(i) if f["static"] else [[] for _ in defs[i]], has=[st["n"] for st in defs[i] if (i, st["n"]) not in unset]))
                    rec.add(op, exc=exc, rows=[row(r) for r in rows], cols=list(cols), see=see, res=quantities(), **f)
                    if exc: break
                    continue
                if op == "put":
                    v = value(o["v"])
                    record_data(v, copy=o["copy"]) if o["copy"] else record_data(v)
                    mine.append(None if o["copy"] or not isinstance(v, dict) else v)
                    rec.add("put", exc="", t=rec.num(env.now), v=code(v))
                    continue
                if op == "change":
                    at = [n for n, m in enumerate(mine) if m is not None]
                    if not at: continue
                    m = mine[at[o["x"] % len(at)]]
                    m["new"] = o["x"]
                    rec.add("change", exc="", at=[n + 1 for n in at if mine[n] is m], v=code(m))
                    continue
                if op == "data":
                    rec.add("data", exc="", rows=[dict(t=rec.num(t), v=code(v)) for t, v in get_recorded_data()])
                    continue
                if op == "make":
                    make(o["actor"])
                    continue
                if op == "advance": env.run(until=env.now + o["v"] / SC)
                elif op == "nested":       # another simulation in between
                    with UP.EnvironmentContext() as e2:
                        if p["geo"]: UP.add_stage_variable("stage_model", Spherical); UP.add_stage_variable("distance_units", "nmi"); UP.add_stage_variable("altitude_units", "ft")
                        if classes:
                            UP.SelfMonitoringStore(e2, name="elsewhere")
                            record_data("elsewhere")
                elif op == "res" and res:
                    r = res[o["r"] % len(res)][0]
                    if isinstance(r, UP.SelfMonitoringReserveContainer):
                        if o["get"]:
                            if r.reserve(junk, 1): r.take(junk)
                        else: r.put(1, capacity_increase=True)
                    elif isinstance(r, UP.SelfMonitoringContinuousContainer): r.get(rate=1, time=.5) if o["get"] and r.level > 1 else r.put(rate=1, time=1)
                    elif isinstance(r, simpy.Store): r.get() if o["get"] else r.put(o["r"] % 3)
                    else: r.get(1) if o["get"] else r.put(1)
                    env.run(until=env.now + .25) if o["get"] else None
                elif a is None: pass
                elif op == "clone": a.clone()
                elif op == "know": a.set_knowledge("k", o["s"], overwrite=True)
                elif st is None: pass
                elif op == "set":
                    n, k = st["n"], st["k"]
                    if k in ("plain", "unset") and n not in a._mimic_states:
                        setattr(a, n, value(o["v"]) if not st.get("typed") else value(a_typed(o, st)))
                        unset.discard((i, n))
                    elif k == "lin": setattr(a, n, o["x"] / 4)
                    elif k == "loc": setattr(a, n, value(dict(loc=[o["x"], o["x"] + 1, 0])))
                    elif k == "keyed": getattr(a, n)[o["key"]] = value(o["v"])
                    elif k == "kdc": setattr(getattr(a, n), "u", o["x"])
                elif op == "record":
                    if st["k"] in ("plain", "unset", "lin", "loc") and (i, st["n"]) not in unset and n_ok(a, st["n"]): a.record_state(st["n"])
                elif op == "raw":
                    if st["k"] == "keyed":
                        d = getattr(a, st["n"]).raw_object()
                        if o["x"] % 2: d.pop(o["key"], None)
                        else: d[o["key"]] = value(o["v"])
                    elif st["k"] in ("plain", "unset") and (i, st["n"]) not in unset:
                        v = getattr(a, st["n"])
                        if isinstance(v, dict): v[o["key"]] = o["x"]
                        elif is_dataclass(v): v.u = o["x"]
                elif op == "act":
                    if st["n"] in a._active_states: pass
                    elif st["k"] == "lin": a.activate_linear_state(state=st["n"], rate=o["x"] / 2, task=junk)
                    elif st["k"] == "loc":
                        w = value(dict(loc=[60 if p["geo"] else 500 + o["x"], 0, 0]))
                        (a.activate_location_state)(state=st["n"], speed=1.0, waypoints=[w], task=junk)
                elif op == "deact":
                    if st["n"] in a._active_states: a.deactivate_state(state=st["n"], task=junk)
                elif op == "look":
                    if (i, st["n"]) not in unset: getattr(a, st["n"])
                elif op == "mimic":
                    src = acts[o["x"] % (i + 1)]
                    m = [z["n"] for z in defs[acts.index(src)] if z["k"] == "plain"]
                    if st["k"] == "plain" and m and src is not a and st["n"] not in a._mimic_states: a.activate_mimic_state(self_state=st["n"], mimic_state=m[0], mimic_actor=src, task=junk)
                    elif st["n"] in a._mimic_states: a.deactivate_mimic_state(self_state=st["n"], task=junk)
            except Exception as e:
                if p.get("raise"): raise
                rec.note_bad(f"{op} failed: {type(e).__name__} {e}")
                rec.add("do", exc=type(e).__name__, what=op)
                break
            rec.add("do", exc=exc, what=op)
    return {"cfg": dict(actors=[], geo=p["geo"]), "ev": rec.ev}


def n_ok(a, n): return n not in a._mimic_states
def a_typed(o, st): return o["v"]


# ------------------------------------------------------------------ programs
def random_program(rng, big=False):
    geo = rng.random() < .3
    words = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n"]
    free = [dict(name=rng.choice(["F1", "F2", "F1", None]), kind=rng.choice(["store", "filter", "cont", "sorted", "reserve", "cc", "twin", "twin"])) for _ in range(rng.choice([0, 1, 2, 3]))]

    def val():
        return rng.choice([rng.randint(0, 3), rng.randint(0, 3), rng.choice([.5, 1.0]), "", "txt", None, True, {"dc": [rng.randint(0, 3), .5]}, {"x": 1}, {"x": rng.randint(0, 3), "y": 2}, {}, (1, 2)])

    def state(n):
        k = rng.choice(["plain"] * 4 + ["unset", "lin", "lin", "loc", "loc", "keyed", "keyed", "kdc", "res", "held", "held", "shared", "multi"])
        st = dict(n=n, k=k)
        if k in ("plain", "unset", "lin", "loc", "keyed", "kdc"):
            st.update(rec=k == "kdc" or rng.random() < .7, dup=rng.random() < .3, fns=rng.sample(list(FNS), rng.choice([0, 0, 1, 2])), dot=rng.random() < .25)
        if k == "loc": st.update(dup=False, fns=[])
        if k == "held": st.update(of=rng.choice(["store", "filter", "cont", "sorted", "twin"]), count=False)
        if k == "held" and st["of"] in ("store", "filter"): st["count"] = rng.random() < .4
        return st
    classes = []
    for c in range(rng.randint(1, 3)):
        names = rng.sample(words, rng.choice([0, 1, 2, 3, 4]))
        base = rng.randrange(c) if c and rng.random() < .3 else None
        if base is not None:
            b = base
            while b is not None:
                names = [n for n in names if n not in [s["n"] for s in classes[b]["states"]]]
                b = classes[b]["base"]
        classes.append(dict(n=f"K{rng.choice([c, c, 7])}", base=base, states=[state(n) for n in names]))
    if len({c["n"] for c in classes}) < len(classes):
        for j, c in enumerate(classes): c["n"] = f"K{j}"

    def sts(ci):
        c = classes[ci]
        return (sts(c["base"]) if c["base"] is not None else []) + c["states"]

    def actor():
        ci = rng.randrange(len(classes))
        vals = {}
        for st in sts(ci):
            k = st["k"]
            if k == "plain": vals[st["n"]] = val() if st["rec"] or rng.random() < .5 else rng.choice([1, 2.5, "x"])
            elif k == "lin": vals[st["n"]] = rng.choice([0., 1., 2.5])
            elif k == "loc": vals[st["n"]] = dict(loc=[rng.randint(0, 5), rng.randint(0, 5), rng.randint(0, 2)])
            elif k == "keyed": vals[st["n"]] = {key: rng.choice([1, 2.5, "v", {"z": 1}]) for key in rng.sample(["p", "q", "r.s"], rng.randint(0, 2))}
            elif k == "kdc": vals[st["n"]] = {"dc": [rng.randint(0, 3), 1.5]}
            elif k == "shared": vals[st["n"]] = rng.randrange(4)
            elif k == "multi": vals[st["n"]] = rng.sample(["m1", "m2"], rng.randint(0, 2))
        return dict(name=rng.choice(["A", "B", "C", "D"]), cls=ci, vals=vals)
    actors = [actor() for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
    ops = []
    for _ in range(rng.randint(3, 30 if big else 16)):
        k = rng.choice(["set"] * 5 + ["record", "raw", "act", "act", "deact", "look", "mimic", "advance", "advance", "res", "res", "put", "change", "data", "nested", "clone", "know", "make", "table", "loc"])
        o = dict(op=k)
        if k in ("set", "record", "raw", "act", "deact", "look", "mimic", "clone", "know"): o.update(a=rng.randrange(6), s=rng.randrange(12), x=rng.randint(0, 5), v=val(), key=rng.choice(["p", "q", "new", "r.s"]))
        elif k == "advance": o["v"] = rng.choice([1, 2, 4, 6])
        elif k == "res": o.update(r=rng.randrange(6), get=rng.random() < .4)
        elif k == "put": o.update(v=val(), copy=rng.random() < .5)
        elif k == "change": o["x"] = rng.randint(0, 9)
        elif k == "make": o["actor"] = actor()
        elif k == "table": o.update(skip=rng.random() < .5, static=rng.random() < .4)
        ops.append(o)
    ops += [dict(op="table", skip=rng.random() < .5, static=rng.random() < .5), dict(op="loc"), dict(op="data")]
    return dict(geo=geo, t0=rng.choice([0, 0, 2]), free=free, classes=classes, actors=actors, ops=ops)


def gen_program(rng, ops):
    sts = [dict(n="a", k="plain", rec=True, dup=False, fns=["time"]), dict(n="l", k="lin", rec=True, dup=False, fns=[]), dict(n="p", k="loc", rec=True, dup=False, fns=[]),
           dict(n="k", k="keyed", rec=True, dup=False, fns=[]), dict(n="n", k="plain", rec=False, dup=False, fns=[]), dict(n="h", k="held", of="cont", count=False)]
    order = list(ops)
    if rng.random() < .5: order.insert(rng.randrange(len(order) + 1), dict(op="table", skip=rng.random() < .5, static=rng.random() < .5))
    return dict(geo=rng.random() < .2, t0=0, free=[dict(name="F1", kind="cont")], classes=[dict(n="K0", base=None, states=sts)],
                actors=[dict(name="A", cls=0, vals=dict(a=0, l=0.0, p=dict(loc=[1, 0, 0]), k={"p": 0}, n=5))],
                ops=order + [dict(op="table", skip=s, static=x) for s, x in ((False, False), (rng.random() < .5, True))] + [dict(op="loc")])
