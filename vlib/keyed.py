"""Driver for dictionary and dataclass states (specification Keyed.tla)."""
from dataclasses import dataclass, fields, make_dataclass

from vlib.core import Rec

TSC = 4
POOL = ["text", "", "other"]
PY = {"int": int, "float": float, "str": str, "bool": bool, "NoneType": type(None), "object": object}


def topy(v):
    ty, x = v["ty"], v["x"]
    return {"int": lambda: x, "float": lambda: float(x), "bool": lambda: bool(x), "str": lambda: POOL[x - 1000], "NoneType": lambda: None}[ty]()


def execute(p):
    import upstage_des.api as UP
    rec = Rec()

    def tov(o):
        ty = type(o).__name__
        if ty == "NoneType": return dict(ty=ty, x=-1000)
        if ty == "str" and o in POOL: return dict(ty=ty, x=1000 + POOL.index(o))
        if ty in ("int", "float", "bool"): return dict(ty=ty, x=rec.int(int(o)) if ty != "float" or o == int(o) else rec.int(o))
        rec.note_bad(f"value of another type: {o!r}"[:80])
        return dict(ty=ty, x=0)

    def f_sum(t, v):
        vals = v.values() if hasattr(v, "values") else [getattr(v, f.name) for f in fields(v)]
        return sum(x if isinstance(x, (int, float)) else 1 for x in vals)

    def f_len(t, v): return len(v) if hasattr(v, "values") else len(fields(v))

    class Last:
        def __call__(self, time, value):
            vals = list(value.values()) if hasattr(value, "values") else [getattr(value, f.name) for f in fields(value)]
            return tov(vals[-1])["x"] if vals else -1

    FN = {"sum": f_sum, "len": f_len, "last": Last}
    flat, actors, dcs, given = [], [], {}, []
    with UP.EnvironmentContext() as env:
        classes = []
        for c, lay in enumerate(p["classes"]):
            ns = {}
            for st in lay:
                fns = [(FN[f], f"{st['n']}_{f}") for f in st["fns"]]
                if st["kind"] == "dict":
                    vt = tuple(PY[t] for t in st["types"]) or None
                    if vt and len(vt) == 1 and st.get("bare"): vt = vt[0]
                    ns[st["n"]] = UP.DictionaryState(valid_types=vt, recording=st["rec"], record_duplicates=st["dup"], recording_functions=fns or None)
                else:
                    # possibly with inherited fields and with annotations as text
                    fs = [(n, PY[t]) for n, t in st["ft"]]
                    nb = st.get("inherit", 0)
                    if st.get("text"): fs = [(n, t.__name__) for n, t in fs if t is not type(None)]
                    B = make_dataclass("B", fs[:nb]) if nb else None
                    D = make_dataclass(f"D{c}{st['n']}", fs[nb:], bases=(B,) if B else ())
                    dcs[(c, st["n"])] = D
                    ns[st["n"]] = UP.DataclassState(valid_types=D if st.get("bare") else (D,), recording=st["rec"], record_duplicates=st["dup"], recording_functions=fns or None)
            classes.append(type(f"K{c}", (UP.Actor,), ns))
        def m0s(m): return [(q["k"], q["v"]) for q in m]

        for a, ac in enumerate(p["actors"]):
            lay = p["classes"][ac["cls"]]
            kw = {}
            for st, m0 in zip(lay, ac["m0"]):
                if st["kind"] == "dict":
                    kw[st["n"]] = {q["k"]: topy(q["v"]) for q in m0}
                    if st.get("share"):                 # two actors made with the same dictionary
                        kw[st["n"]] = next((g for g in given if g is not None and [(q, tov(x)) for q, x in g.items()] == m0s(m0)), kw[st["n"]])
                    given.append(kw[st["n"]])
                else:
                    kw[st["n"]] = dcs[(ac["cls"], st["n"])](**{q["k"]: topy(q["v"]) for q in m0})
                    given.append(None)
                flat.append(dict(a=a, n=st["n"], kind=st["kind"], rec=st["rec"], dup=st["dup"], types=st["types"], fns=st["fns"],
                                 ft={n: [t] for n, t in st["ft"]} if st["kind"] == "dc" else {"": []}, m0=m0))
            actors.append(classes[ac["cls"]](name=f"a{a}", **kw))
        held = [getattr(actors[st["a"]], st["n"]) for st in flat]
        seen, fseen = [{} for _ in flat], [[[] for _ in st["fns"]] for st in flat]

        def content(j):
            st = flat[j]
            o = getattr(actors[st["a"]], st["n"])
            if st["kind"] == "dc": return [dict(k=f.name, v=tov(getattr(o, f.name))) for f in fields(o)], len(fields(o))
            out = [dict(k=k, v=tov(v)) for k, v in o.items()]
            if [q["k"] for q in out] != list(o) or list(o) != list(o.keys()) or [tov(v) for v in o.values()] != [q["v"] for q in out]: rec.note_bad("keys, values and items disagree")
            return out, len(o)

        def add(op, s=0, k="", v=None, exc="", **f):
            h, fh = [], []
            for j, st in enumerate(flat):
                H = actors[st["a"]]._state_histories
                new = []
                for name, hist in H.items():
                    if not name.startswith(st["n"] + "."): continue
                    key = name[len(st["n"]) + 1:]
                    cur = [(t, tov(x)) for t, x in hist]
                    old = seen[j].get(key, [])
                    if cur[:len(old)] != old: rec.note_bad("an entry already recorded was changed")
                    seen[j][key] = cur
                    new += [dict(k=key, t=rec.num(t, TSC), v=x) for t, x in cur[len(old):]]
                h.append(new)
                fl = []
                for q, fn in enumerate(st["fns"]):
                    cur = list(H.get(f"{st['n']}_{fn}", []))
                    old = fseen[j][q]
                    if cur[:len(old)] != old: rec.note_bad("an entry already recorded was changed")
                    fseen[j][q] = cur
                    fl.append([dict(t=rec.num(t, TSC), x=rec.int(x)) for t, x in cur[len(old):]])
                fh.append(fl)
                if st["n"] in H: rec.note_bad("the state as a whole has a history")
            for a, act in enumerate(actors):
                ok = {st["n"] + "_" + fn for st in flat if st["a"] == a for fn in st["fns"]}
                for name in act._state_histories:
                    if name not in ok and not any(name.startswith(st["n"] + ".") for st in flat if st["a"] == a): rec.note_bad(f"unexpected history {name}")
            cs = [content(j) for j in range(len(flat))]
            rec.add(op, t=rec.num(env.now, TSC), s=s + 1, k=k, v=v or dict(ty="NoneType", x=-1000), exc=exc,
                    m=[c[0] for c in cs], len=[c[1] for c in cs], h=h, f=fh, **f)

        add("init")
        for o in p["ops"]:
            op = o["op"]
            if op == "tick":
                env.run(until=env.now + o["d"] / TSC)
                add("tick")
                continue
            i = o["s"] - 1
            st = flat[i]
            px = held[i] if o.get("held") else getattr(actors[st["a"]], st["n"])
            dc = st["kind"] == "dc"
            k = o.get("k", "")
            if dc and k and k not in st["ft"] and op != "get": continue
            x, f, v = "", {}, o.get("v")
            try:
                if op == "set":
                    if dc: setattr(px, k, topy(v))
                    else: px[k] = topy(v)
                elif op == "setdefault":
                    if dc: continue
                    f["r"] = None
                    f["r"] = tov(px.setdefault(k, topy(v)))
                elif op == "add":
                    cur = getattr(px, k, None) if dc else (px[k] if k in px else None)
                    if k in ([q["k"] for q in content(i)[0]]) and not isinstance(cur, (int, float)): continue
                    v = tov(cur + o["d"]) if cur is not None else dict(ty="int", x=0)
                    if abs(v["x"]) > 900: continue
                    if dc:
                        setattr(px, k, getattr(px, k) + o["d"])
                    else: px[k] += o["d"]
                elif op == "raw":
                    raw = px.raw_object()
                    if dc: setattr(raw, k, topy(v))
                    else: raw[k] = topy(v)
                elif op == "get":
                    f["r"] = dict(ty="NoneType", x=0)
                    f["r"] = tov(getattr(px, k) if dc else px[k])
                elif op == "has":
                    f["b"] = hasattr(px, k) if dc else k in px
                elif op == "eq":
                    now = content(i)[0]
                    m = now if o["same"] else o["m"]
                    if dc:
                        if not o["same"]: continue
                        f["b"] = bool(px == px.raw_object().__class__(**{q["k"]: topy(q["v"]) for q in m}))
                    else: f["b"] = bool(px == {q["k"]: topy(q["v"]) for q in m})
                    f["m"] = m
                    if sorted(map(repr, m)) == sorted(map(repr, now)) and m != now: continue       # equal in another order
                    if any(q["v"]["ty"] in ("float", "bool") for q in m + now) and m != now: continue
                elif op == "eqp":
                    j = o["j"] - 1
                    if dc or flat[j]["kind"] == "dc": continue
                    a_, b_ = content(i)[0], content(j)[0]
                    if a_ != b_ and {q["k"]: topy(q["v"]) for q in a_} == {q["k"]: topy(q["v"]) for q in b_}: continue
                    f.update(j=j + 1, b=bool(px == getattr(actors[flat[j]["a"]], flat[j]["n"])))
                elif op == "replace":
                    if dc: setattr(actors[st["a"]], st["n"], type(px.raw_object())(**{q["k"]: topy(q["v"]) for q in st["m0"]}))
                    else: setattr(actors[st["a"]], st["n"], {q["k"]: topy(q["v"]) for q in o["m"]})
                elif op == "caller":
                    if given[i] is None: continue
                    given[i][k] = topy(v)
                else:
                    raise ValueError(op)
            except (TypeError, KeyError, AttributeError, UP.SimulationError, UP.UpstageError) as e:
                x = type(e).__name__
            if op == "eq" or op == "eqp": f.setdefault("b", False)
            if "m" in f: f["em"] = f.pop("m")
            if op in ("setdefault",) and f.get("r") is None: f["r"] = dict(ty="NoneType", x=0)
            add(op, i, k, v, x, **f)
    return {"spec": "Keyed", "cfg": dict(states=flat), "ev": rec.ev}


KEYS = ["a", "b", "c", "a.b", "long key", "", "z"]


def rval(rng, types):
    t = rng.choice(types) if types and rng.random() < 0.8 else rng.choice(["int", "float", "str", "bool", "NoneType"])
    if t == "object": t = rng.choice(["int", "str"])
    return dict(ty=t, x=dict(int=rng.randint(0, 4), float=rng.randint(0, 4), bool=rng.randint(0, 1), str=1000 + rng.randint(0, 2), NoneType=-1000)[t])


def okval(rng, types):
    while True:
        v = rval(rng, types)
        if not types or v["ty"] in types or "object" in types or (v["ty"] == "bool" and "int" in types): return v


def random_program(rng, long=False):
    def mk(n):
        rec, dup = rng.random() < 0.8, rng.random() < 0.4
        fns = [f for f in ("sum", "len", "last") if rng.random() < 0.35]
        if rng.random() < 0.6:
            return dict(n=n, kind="dict", rec=rec, dup=dup, fns=fns, types=rng.choice([[], ["int"], ["int", "float"], ["str"], ["float", "NoneType"], ["bool"]]), ft=[], bare=rng.random() < 0.5, share=rng.random() < 0.5)
        ft = [[k, rng.choice(["int", "float", "str", "bool", "object"])] for k in ("u", "w", "x", "y")[:rng.randint(1, 4)]]
        return dict(n=n, kind="dc", rec=rec, dup=dup, fns=fns, types=[], ft=ft, bare=rng.random() < 0.5, inherit=rng.choice([0, 0, 1]) if len(ft) > 1 else 0, text=rng.random() < 0.2)
    classes = [[mk(n) for n in ("st", "stx", "u")[:rng.randint(1, 3)]] for _ in range(rng.randint(1, 2))]
    actors = []
    for _ in range(rng.randint(1, 3)):
        c = rng.randrange(len(classes))
        m0 = []
        for st in classes[c]:
            if st["kind"] == "dict": m0.append([dict(k=k, v=okval(rng, st["types"])) for k in rng.sample(KEYS, rng.randint(0, 3))])
            else: m0.append([dict(k=k, v=okval(rng, [t])) for k, t in st["ft"]])
        if actors and rng.random() < 0.5:
            same = [x for x in actors if x["cls"] == c]
            if same: m0 = same[0]["m0"]
        actors.append(dict(cls=c, m0=m0))
    flat = [(st, m) for ac in actors for st, m in zip(classes[ac["cls"]], ac["m0"])]
    ops = []
    for _ in range(rng.randint(6, 40 if long else 24)):
        s = rng.randrange(len(flat))
        st, m0 = flat[s]
        op = rng.choice(["tick", "tick", "set", "set", "set", "set", "add", "add", "setdefault", "setdefault", "get", "has", "raw", "eq", "eqp", "replace", "caller"])
        if op == "tick":
            ops.append(dict(op="tick", d=rng.choice([1, 2, 4, 6])))
            continue
        k = rng.choice([x[0] for x in st["ft"]] + (["nothere"] if op == "get" else [])) if st["kind"] == "dc" else rng.choice([q["k"] for q in m0] * 2 + KEYS)
        ty = dict(map(tuple, st["ft"])).get(k) if st["kind"] == "dc" else None
        ops.append(dict(op=op, s=s + 1, k=k, v=rval(rng, [ty] if ty else st["types"]), d=rng.choice([0, 1, 1, -1]), held=rng.random() < 0.4, same=rng.random() < 0.5,
                        m=[dict(k=q, v=okval(rng, st["types"])) for q in rng.sample(KEYS, 2)], j=rng.randint(1, len(flat))))
    return dict(classes=classes, actors=actors, ops=ops)


def concrete(g):
    """A program printed by TLC for the driver: two actors with one state each."""
    dc = g["kind"] == "dc"
    st = dict(n="st", kind=g["kind"], rec=True, dup=g["dup"], fns=["sum"], types=["int"], ft=[["u", "int"], ["w", "int"]] if dc else [], bare=False, share=True)
    m0 = [dict(k="u", v=dict(ty="int", x=0))] + ([dict(k="w", v=dict(ty="int", x=1))] if dc else [])
    return dict(classes=[[st]], actors=[dict(cls=0, m0=[m0]), dict(cls=0, m0=[m0])], ops=[dict(o, held=i % 2 == 1) for i, o in enumerate(g["ops"])])
