"""Driver for states of actors (specification ActiveStates.tla)."""
import math

from vlib.core import Rec


class Frame:
    """The specification's coordinates on a turned globe: its equator may be any great circle."""

    def __init__(self, yaw, pitch, roll):
        (a, b), (c, d), (e, f) = [(math.cos(math.radians(x)), math.sin(math.radians(x))) for x in (yaw, pitch, roll)]
        self.still = not (yaw or pitch or roll)
        self.m = [[a * c, a * d * f - b * e, a * d * e + b * f], [b * c, b * d * f + a * e, b * d * e - a * f], [-d, c * f, c * e]]

    def _turn(self, lat, lon, m):
        la, lo = math.radians(lat), math.radians(lon)
        v = (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la))
        x, y, z = (sum(a * b for a, b in zip(r, v)) for r in m)
        return math.degrees(math.atan2(z, math.hypot(x, y))), math.degrees(math.atan2(y, x))

    def true(self, lat, lon): return (lat, lon) if self.still else self._turn(lat, lon, self.m)
    def back(self, lat, lon): return (lat, lon) if self.still else self._turn(lat, lon, list(zip(*self.m)))


def execute(p):
    import upstage_des.api as UP
    from upstage_des.geography import Spherical, WGS84
    from upstage_des.states import ActiveStatus
    rec = Rec()
    layouts = p["classes"]
    q0 = p.get("q", 1)                          # how fine the clock is
    TSC, VSC, LSC = 4 * q0, 16 * q0, 120 * q0

    def fnnum(t, v): return math.floor(v) % 3
    def fnlist(t, v): return len(v["items"][0])

    class FnNum:
        def __call__(self, time, value): return math.floor(value) % 3

    with UP.EnvironmentContext() as env:
        world = p.get("world") or {}
        model, frame = WGS84 if world.get("wgs") else Spherical, Frame(*world.get("turn", (0, 0, 0)))
        du, high = world.get("du", "km"), world.get("alt", 0)
        UP.add_stage_variable("stage_model", model)
        UP.add_stage_variable("distance_units", du)
        UP.add_stage_variable("altitude_units", "ft" if high else du)
        deg = model.distance_and_bearing((0.0, 0.0), (0.0, 1.0), units=du)[0]
        unit = UP.unit_convert(1.0, du, "ft")
        count = iter(range(10**6))

        def mkstate(n, st):
            k, kw = st["k"], {}
            if st["fn"]:
                kw["recording_functions"] = [((fnlist if k == "list" else FnNum if st.get("cls") else fnnum), n + "_fn")]
            if k in ("plain", "list"): return UP.State(recording=st["rec"], record_duplicates=st["dup"], **(dict(valid_types=(float, int)) if k == "plain" else {}), **kw)
            if k == "lin": return UP.LinearChangingState(recording=st["rec"], record_duplicates=st["dup"], valid_types=(float, int), **kw)
            if k == "shared": return UP.SharedLinearChangingState(recording=st["rec"])
            if k == "cart":
                return UP.State(recording=st["rec"], valid_types=UP.CartesianLocation, record_duplicates=st["dup"]) if st.get("still") else UP.CartesianLocationChangingState(recording=st["rec"])
            if k == "geo":
                return UP.State(recording=st["rec"], valid_types=UP.GeodeticLocation, record_duplicates=st["dup"]) if st.get("still") else UP.GeodeticLocationChangingState(recording=st["rec"])
            raise ValueError(k)

        # (a keyed state, which cannot take part in mimicking, for "mimkv")
        classes = [type(f"K{c}", (UP.Actor,), {**{st["n"]: mkstate(st["n"], st) for st in lay}, "kv_": UP.DictionaryState()}) for c, lay in enumerate(layouts)]

        def topy(k, v):
            if k == "list": return {"items": [list(v)]}      # nested: the record must not share any of it
            if k == "cart":
                if world.get("alt", 0) >> (next(count) % 5) & 1: return UP.CartesianLocation(v[0] / LSC, v[1] / LSC, v[2] / LSC * unit, use_altitude_units=True)
                return UP.CartesianLocation(*[x / LSC for x in v])
            if k == "geo":
                g = UP.GeodeticLocation(*frame.true(v[0] / LSC, v[1] / LSC), v[2] / LSC)
                return g.to_radians() if world.get("rad", 0) >> (next(count) % 5) & 1 else g
            return v[0] / VSC

        def tov(k, o):
            if isinstance(o, ActiveStatus): return [0, 0, 0, 0, 1 if o is ActiveStatus.activating else 2]
            try:
                if k == "list": return [rec.int(x) for x in o["items"][0]]
                if k == "cart": return [num(x, 1e-6) for x in (o.x, o.y, o.z / unit if o.use_altitude_units else o.z)]
                if k == "geo":
                    lat, lon = (math.degrees(o.lat), math.degrees(o.lon)) if o.in_radians else (o.lat, o.lon)
                    return [num(x, 0, 5e-6) for x in frame.back(lat, lon)] + [num(o.alt, 1e-6)]
            except (AttributeError, TypeError, KeyError):
                rec.note_bad(f"value of another type: {o!r}"[:80])
                return [0]
            return [rec.num(o, VSC)]

        def num(x, tol, most=0):
            y = x * LSC
            if not abs(y - round(y)) <= tol * max(1.0, abs(y)) + most * LSC: rec.note_bad(f"coordinate off its path: {x!r}")
            return int(round(y)) if y == y and abs(y) < 2**30 else 0

        flat, actors = [], []
        for a, ac in enumerate(p["actors"]):
            lay = layouts[ac["cls"]]
            vals = {st["n"]: topy(st["k"], v) for st, v in zip(lay, ac["v0"])}
            actors.append(classes[ac["cls"]](name=f"a{a}", kv_={"x": 1.0}, **vals))
            for st, v in zip(lay, ac["v0"]):
                flat.append(dict(a=a + 1, n=st["n"], k=st["k"], rec=st["rec"], dup=st["dup"], fn=st["fn"], v0=list(v), still=st.get("still", False)))

        class T(UP.Task):
            def task(self, *, actor):
                yield UP.Wait(1)
        tasks = [None] + [T() for _ in range(3)]
        seen = [[] for _ in flat]
        fseen = [[] for _ in flat]
        mim, mtask = [0] * len(flat), {}
        act = [set() for _ in flat]

        def diff(store, i, hist, conv):
            new = [(t, conv(v)) for t, v in hist]
            old = store[i]
            if len(new) < len(old) or new[:len(old)] != old: rec.note_bad("an entry already recorded was changed")
            store[i] = new
            return [[rec.num(t, TSC), v] for t, v in new[len(old):]]

        def add(op, i=0, exc="", **f):
            h, fh = [], []
            for j, st in enumerate(flat):
                H = actors[st["a"] - 1]._state_histories
                h.append(diff(seen, j, H.get(st["n"], []), lambda v: tov(st["k"], v)))
                fh.append(diff(fseen, j, H.get(st["n"] + "_fn", []), lambda v: [rec.int(v)]))
                if st["n"] in H and not st["rec"]: rec.note_bad("a state that does not record has a history")
            f.setdefault("v", [])
            rec.add(op, t=rec.num(env.now, TSC), s=i + 1, exc=exc, h=h, fh=fh, **f)

        def attempt(fn):
            try:
                return "", fn()
            except Exception as e:
                return type(e).__name__, None

        def src_of(i):
            while mim[i]: i = mim[i] - 1
            return i

        add("init")
        for o in p["ops"]:
            op = o["op"]
            if op == "tick":
                env.run(until=env.now + o["d"] / TSC)
                add("tick")
                continue
            if op in ("deactall", "unmimicall"):
                a = actors[o["a"] - 1]
                fn = a.deactivate_all_states if op == "deactall" else a.deactivate_all_mimic_states
                x, _ = attempt(lambda: fn(task=tasks[o["k"]]))
                if not x:
                    for j, st in enumerate(flat):
                        if st["a"] != o["a"]: continue
                        if op == "deactall": act[j].discard(o["k"])
                        elif mim[j] and o["k"] == mtask[j]: mim[j] = 0
                add(op, exc=x, a=o["a"], k=o["k"])
                if x: break
                continue
            i = o["s"] - 1
            st = flat[i]
            a, n, k = actors[st["a"] - 1], st["n"], st["k"]
            if op == "read":
                x, r = attempt(lambda: getattr(a, n))
                add(op, i, x, v=[] if x else tov(k, r))
            elif op == "set":
                if k in ("cart", "geo") and (act[i] or not st["still"]): continue
                x, _ = attempt(lambda: setattr(a, n, topy(k, o["v"])))
                add(op, i, x, v=o["v"])
            elif op == "mut":
                if k != "list": continue
                a.__dict__[n]["items"][0].append(o["v"][0])
                add(op, i, "", v=o["v"])
            elif op == "record":
                x, _ = attempt(lambda: a.record_state(n))
                add(op, i, x)
            elif op == "act":
                if mim[i] or k in ("plain", "list") or st["still"]: continue
                path = []
                if k in ("lin", "shared"):
                    x, _ = attempt(lambda: a.activate_linear_state(state=n, rate=o["rate"] / 4, task=tasks[o["k"]]) if o.get("short") else a.activate_state(state=n, rate=o["rate"] / 4, task=tasks[o["k"]]))
                else:
                    e0, cur = attempt(lambda: getattr(a, n))
                    if e0: break
                    add("read", i, "", v=tov(k, cur))
                    at = rec.ev[-1]["v"]
                    if any(q % LSC for q in at) and k == "geo" or any(q % LSC for q in at): continue   # paths start at whole points
                    for leg in o["legs"]:
                        if k == "geo":
                            if leg[0] == "lat" and world.get("wgs"): continue      # (degrees of latitude differ)
                            if leg[0] == "lat": d = [leg[1], 0, leg[3]]
                            elif at[0] == 0: d = [0, leg[1], leg[3]]
                            else: continue
                            if abs(at[0] + d[0] * LSC) > 60 * LSC or abs(at[1] + d[1] * LSC) > 150 * LSC: continue
                            ln = abs(leg[1])
                        else: d, ln = leg[0], leg[1]
                        at = [q + e * LSC for q, e in zip(at, d)]
                        path.append(dict(to=at, len=ln))
                    if not path: continue
                    wps = [topy(k, q["to"]) for q in path]
                    sp = o["rate"] / 2 * (deg if k == "geo" else 1)
                    x, _ = attempt(lambda: a.activate_location_state(state=n, speed=sp, waypoints=wps, task=tasks[o["k"]]) if o.get("short") else a.activate_state(state=n, speed=sp, waypoints=wps, task=tasks[o["k"]]))
                    # the list is the caller's own, who goes on using it
                    if o.get("reuse") == 1: del wps[len(wps) // 2:]
                    elif o.get("reuse") == 2: wps.append(topy(k, [0, 0, 0]))
                if not x: act[i].add(o["k"])
                add(op, i, x, k=o["k"], rate=o["rate"], path=path)
            elif op == "deact":
                if o.get("many"): x, _ = attempt(lambda: a.deactivate_states(states=[n], task=tasks[o["k"]]))
                else: x, _ = attempt(lambda: a.deactivate_state(state=n, task=tasks[o["k"]]))
                mine = o["k"] in act[i]
                if not x: act[i].discard(o["k"])
                add(op, i, x, k=o["k"])
                if x and mine: break          # gone beyond the end of its path: undefined afterwards
            elif op == "mimic":
                j = o["src"] - 1
                q = j
                while q != i and mim[q]: q = mim[q] - 1
                if q == i or act[i] or k == "list" or flat[j]["k"] == "list": continue
                x, _ = attempt(lambda: a.activate_mimic_state(self_state=n, mimic_state=flat[j]["n"], mimic_actor=actors[flat[j]["a"] - 1], task=tasks[o["k"]]))
                if not x:
                    mim[i] = j + 1
                    mtask[i] = o["k"]
                add(op, i, x, k=o["k"], src=j + 1)
            elif op == "mimkv":
                if act[i] or mim[i]: continue
                me, src = (n, "kv_") if o["way"] == 0 else ("kv_", n) if o["way"] == 1 else ("kv_", "kv_")
                b = actors[o["b"] % len(actors)] if o["way"] != 1 else a
                if me == "kv_" and src == "kv_" and b is a and len(actors) > 1: b = actors[(o["b"] + 1) % len(actors)]
                x, _ = attempt(lambda: a.activate_mimic_state(self_state=me, mimic_state=src, mimic_actor=b, task=tasks[o["k"]]))
                if dict(a.__dict__["kv_"]) != {"x": 1.0}: rec.note_bad("a keyed state took another value")
                add(op, i, x, k=o["k"])
                if not x: break
            elif op == "unmimic":
                x, _ = attempt(lambda: a.deactivate_mimic_state(self_state=n, task=tasks[o["k"]]))
                mine = mim[i] and mtask[i] == o["k"]
                if not x: mim[i] = 0
                add(op, i, x, k=o["k"])
                if x and mine: break
            elif op == "wp":
                if k not in ("cart", "geo") or not act[i]: continue
                x, r = attempt(lambda: a.get_remaining_waypoints(n))
                add(op, i, x, wps=[] if x else [tov(k, q) for q in r])
            else:
                raise ValueError(op)
    return {"spec": "ActiveStates", "cfg": dict(st=flat, q=q0), "ev": rec.ev}


UNIT = [((3, 4, 0), 5), ((1, 2, 2), 3), ((1, 0, 0), 1), ((0, 1, 0), 1), ((0, 0, 1), 1), ((0, 3, 4), 5), ((2, 1, 2), 3), ((-4, 3, 0), 5), ((-1, 0, 0), 1), ((0, -2, 0), 2)]


def legs(rng, k):
    out = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        if k == "geo": out.append((rng.choice(["lat", "lon", "lon"]), rng.choice([-7, -2, -1, 1, 2, 3, 5, 10]), 0, rng.choice([0, 0, 0, 1])))
        else:
            (d, n), m, s = rng.choice(UNIT), rng.choice([1, 1, 2, 3]), rng.choice([1, -1])
            out.append(([x * m * s for x in d], n * m))
    # altitudes interpolate with the share of the leg: keep them whole in our units
    return [(a, b, c, d * abs(b)) if k == "geo" else (a, b) for a, b, *r in out for c, d in [r if r else (0, 0)]]


PROFILES = {
    "C06": (["lin"] * 4 + ["plain"], dict(act=4, deact=3, read=4, set=2, tick=5, deactall=1)),
    "C07": (["shared"] * 4 + ["lin"], dict(act=6, deact=4, read=3, set=1, tick=5, deactall=1)),
    "C08": (["cart"] * 3 + ["geo"] * 2, dict(act=4, deact=2, read=5, tick=6, wp=4, deactall=1)),
    "C09": (["plain", "lin", "cart", "lin", "shared", "plain", "cart", "geo", "list"], dict(act=3, deact=2, read=4, set=3, tick=4, mimic=6, unmimic=3, unmimicall=1, deactall=1, wp=1, mimkv=0.6)),
    "C10": (["plain", "lin", "list", "shared", "cart", "list", "plain", "geo"], dict(act=3, deact=2, read=3, set=4, tick=4, mut=3, record=3, mimic=1, unmimic=1)),
}


def random_program(rng, prof, long=False):
    kinds, w = PROFILES[prof]
    ncls = rng.choice([1, 1, 2])
    classes = []
    for _ in range(ncls):
        lay = []
        same = rng.choice(kinds) if prof == "C09" and rng.random() < 0.4 else ""
        for j in range(rng.choice([1, 2, 2, 3]) if not same else 3):
            k = same or rng.choice(kinds)
            r = rng.random() < 0.8
            lay.append(dict(n=f"s{j}", k=k, rec=r, dup=k in ("plain", "list", "lin") and rng.random() < 0.2 and prof != "C09",
                            fn=k in ("plain", "lin", "list") and rng.random() < 0.4, cls=rng.random() < 0.3,
                            still=k in ("cart", "geo") and prof == "C09" and rng.random() < 0.5))
        classes.append(lay)

    q = rng.choice([1, 1, 16])

    def val(k):
        if k == "list": return [rng.randint(0, 3) for _ in range(rng.randint(0, 2))]
        if k == "cart": return [120 * q * rng.randint(-3, 3) for _ in range(3)]
        if k == "geo": return [0, 120 * q * rng.randint(-20, 20), 120 * q * rng.randint(0, 2)]
        return [q * 16 * rng.randint(-2, 5) + rng.choice([0, 0, 4, 8, 1])]
    acts = [dict(cls=c, v0=[val(st["k"]) for st in classes[c]]) for c in (rng.randrange(ncls) for _ in range(rng.choice([1, 2, 3])))]
    flat = [(a, st) for a, ac in enumerate(acts) for st in classes[ac["cls"]]]
    ops = []
    names, ws = list(w), list(w.values())
    hot = rng.randrange(len(flat)) + 1
    guided, mine = rng.random() < 0.6, {}      # mine: which task mimics with which state, roughly
    for _ in range(rng.randint(6, 45 if long else 26)):
        op = rng.choices(names, ws)[0]
        s = hot if rng.random() < 0.5 else rng.randint(1, len(flat))
        k = flat[s - 1][1]["k"]
        task = rng.choice([1, 1, 2, 2, 3, 0]) if op != "mimic" and k != "shared" else rng.choice([1, 2, 3])
        if op == "tick": ops.append(dict(op="tick", d=rng.choice([1, 1, 2, 3, 4, 4, 8] if q == 1 else [1, 1, 2, 5, 16, 16, 48, 64, 100])))
        elif guided and op in ("mimic", "unmimic", "unmimicall") and (mine or op == "mimic"):
            if op == "mimic":
                free = [i + 1 for i in range(len(flat)) if i + 1 not in mine and i + 1 != hot]
                s = rng.choice(free) if free else s
                like = [i + 1 for i, f in enumerate(flat) if f[1]["k"] == flat[s - 1][1]["k"] and i + 1 != s]
                src = rng.choice(like) if like else hot
                mine.setdefault(s, task)
                ops.append(dict(op=op, s=s, k=task, src=src))
            elif op == "unmimic":
                s = rng.choice(list(mine))
                ops.append(dict(op=op, s=s, k=mine.pop(s)))
            else:
                task = rng.choice(list(mine.values()))
                a = flat[rng.choice([i for i, t in mine.items() if t == task]) - 1][0]
                mine = {i: t for i, t in mine.items() if t != task or flat[i - 1][0] != a}
                ops.append(dict(op=op, a=a + 1, k=task))
        elif op in ("deactall", "unmimicall"): ops.append(dict(op=op, a=rng.randint(1, len(acts)), k=task))
        elif op == "act": ops.append(dict(op="act", s=s, k=task, rate=rng.choice([1, 2, 2, 4] if k in ("cart", "geo") else [-6, -4, -1, 0, 1, 2, 4, 4, 10]), legs=legs(rng, k) if k in ("cart", "geo") else [], short=rng.random() < 0.5, reuse=rng.choice([0, 0, 0, 1, 2])))
        elif op in ("deact",):
            acts_ = [o for o in ops if o["op"] == "act"]
            if acts_ and rng.random() < 0.6: s, task = (lambda o: (o["s"], o["k"]))(rng.choice(acts_))
            ops.append(dict(op=op, s=s, k=task, many=rng.random() < 0.3))
        elif op == "mimkv": ops.append(dict(op=op, s=s, k=task, way=rng.choice([0, 0, 1, 2]), b=rng.randint(0, 3)))
        elif op == "unmimic": ops.append(dict(op=op, s=s, k=rng.choice([1, 2, 3])))
        elif op == "mimic": ops.append(dict(op=op, s=s, k=task, src=rng.randint(1, len(flat))))
        elif op == "set": ops.append(dict(op=op, s=s, v=val(k)))
        elif op == "mut": ops.append(dict(op=op, s=s, v=[rng.randint(0, 3)]))
        else: ops.append(dict(op=op, s=s))
    if prof == "C09" and rng.random() < 0.5:
        # two tasks that follow each other in mimicking with the same states
        byact = [[i + 1 for i, f in enumerate(flat) if f[0] == a] for a in range(len(acts))]
        many = [(x, y) for l in byact for x in l for y in l if x != y]
        if many:
            x, y = rng.choice(many)
            k1, k2 = rng.sample([1, 2, 3], 2)
            like = lambda z: rng.choice([i + 1 for i, f in enumerate(flat) if f[1]["k"] == flat[z - 1][1]["k"] and i + 1 not in (x, y)] or [z])
            M = lambda z, k: dict(op="mimic", s=z, k=k, src=like(z))
            end = [dict(op="unmimicall", a=flat[x - 1][0] + 1, k=rng.choice([k1, k1, k2])), dict(op="tick", d=4), dict(op="read", s=x), dict(op="read", s=y), dict(op="unmimic", s=x, k=k2)]
            block = [M(x, k1), M(y, rng.choice([k1, k1, k2])), dict(op=rng.choice(["unmimic", "unmimic", "unmimicall"]), s=x, a=flat[x - 1][0] + 1, k=k1), M(x, k2)] + end
            at = sorted(rng.randint(0, len(ops)) for _ in block)
            if rng.random() < 0.5: ops = [o for o in ops if o["op"] not in ("mimic", "unmimic", "unmimicall")]; at = [min(i, len(ops)) for i in at]
            for j, o in reversed(list(zip(at, block))): ops.insert(j, o)
    world = {}
    if any(st["k"] in ("cart", "geo") for _, st in flat) and rng.random() < 0.7:
        world = dict(rad=rng.choice([0, 0, 31, 1, 2, rng.randint(0, 31)]), alt=rng.choice([0, 0, 31, 1, 2, rng.randint(0, 31)]),
                     du=rng.choice(["km", "km", "nmi", "m", "ft"]))
        if rng.random() < 0.2: world["wgs"] = True
        elif rng.random() < 0.6: world["turn"] = rng.choice([(90, 0, 0), (180, 0, 0), (175, 0, 0), (0, 90, 0), (0, 0, 45), (10, 20, 30), (0, 85, 90), (0, 60, 90), (-170, 33, -61), [rng.randint(-180, 180) for _ in range(3)]])
    return dict(classes=classes, actors=acts, ops=ops, q=q, world=world)
