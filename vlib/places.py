"""Driver for locations and stored location data (specification Places.tla)."""
from math import degrees, radians

from vlib.core import Rec

METRES = dict(m=1.0, km=1000.0, mi=1609.344, nmi=1852.0, ft=0.3048)
R = 6378137.0
LEN10 = dict(m=10000, km=10000000, mi=16093440, nmi=18520000, ft=3048)


def big(x):
    """whole number, cut off where the specification's integers end"""
    return round(max(-1e9, min(1e9, x))) if x == x else -1


CLEAN = [x for x in range(-180, 181, 15) if degrees(radians(x)) == x and radians(degrees(radians(x))) == radians(x)]
ROUGH = [-120, -60, -30, 0, 30, 60, 90, 120, 180]


def execute(p):
    import upstage_des.api as UP
    from upstage_des.data_types import CartesianLocationData, GeodeticLocationData
    from upstage_des.geography import WGS84, Spherical
    from upstage_des.utils import waypoint_time_and_dist
    rec = Rec()
    cfg = p["cfg"]
    du, au = cfg["du"], cfg["au"]
    model = {"s": Spherical, "w": WGS84, "": None}[cfg["model"]]

    def alt(l): return l["k"] * R / METRES[au or "m"] + l["c"] if l["k"] else l["c"]

    def args(l):
        if l["kind"] == "c":
            return [l["a"] + l["e"] * 1e-6 if l["e"] else l["a"], l["b"], l["c"]], dict(use_altitude_units=l["f"])
        ang = [radians(l["a"]), radians(l["b"])] if l["f"] else [l["a"], l["b"]]
        return [*ang, alt(l)], dict(in_radians=l["f"])

    def give(cls, l, how):
        a, k = args(l)
        names = ("x", "y", "z") if l["kind"] == "c" else ("lat", "lon", "alt")
        if how == 1: return cls(**dict(zip(names, a)), **k)
        if how == 2 and l["c"] == 0 and l["k"] == 0: a = a[:2]
        if how >= 2 and not l["f"] and "Data" not in cls.__name__: k = {}
        return cls(*a, **k)

    def ang(x, f):
        y = degrees(x) if f else x
        if abs(y) > 1e6 or abs(y - round(y)) > 1e-9: rec.note_bad(f"not a whole degree: {x!r}")
        return round(y)

    def split(z):
        if not abs(z) < 1e9:
            rec.note_bad(f"not the altitude given: {z!r}")
            return 0, 0
        k = round(z * METRES[au or "m"] / R)
        c = z - k * R / METRES[au or "m"]
        if abs(c - round(c)) > 1e-3: rec.note_bad(f"not the altitude given: {z!r}")
        return k, round(c)

    def shown(o):
        if isinstance(o, UP.CartesianLocation):
            a = round(o.x)
            return ["c", a, rec.int(o.y), rec.int(o.z), rec.num(o.x - a, 10**6), 0, bool(o.use_altitude_units)]
        f = bool(o.in_radians)
        k, c = split(o.alt)
        return ["g", ang(o.lat, f), ang(o.lon, f), c, 0, k, f]

    def val(d, kind):
        """distance as the specification counts it"""
        if isinstance(d, bool) or not isinstance(d, (int, float)) or d != d or d < 0 or d > 1e9:
            rec.note_bad(f"no distance: {d!r}")
            return 0
        return big(d * d * 100) if kind == "c" else big(d * METRES[du] / R * 180 / 3.141592653589793 * 1000)

    data = [give(CartesianLocationData if l["kind"] == "c" else GeodeticLocationData, l, n % 2) for n, l in enumerate(cfg["data"])]
    locs = []
    with UP.EnvironmentContext():
        if model: UP.add_stage_variable("stage_model", model)
        if du: UP.add_stage_variable("distance_units", du)
        if au: UP.add_stage_variable("altitude_units", au)

        def L(o, n="i"): return locs[o[n] - 1]
        for o in p["ops"]:
            op, x, f = o["op"], "", {}
            try:
                if op == "new":
                    f = dict(l=o["l"])
                    locs.append(give(UP.CartesianLocation if o["l"]["kind"] == "c" else UP.GeodeticLocation, o["l"], o.get("how", 0)))
                elif op == "copy":
                    f = dict(i=o["i"])
                    locs.append(L(o).copy())
                elif op in ("torad", "todeg"):
                    f = dict(i=o["i"])
                    locs.append(L(o).to_radians() if op == "torad" else L(o).to_degrees())
                elif op == "make":
                    f = dict(i=o["i"])
                    locs.append(data[o["i"] - 1].make_location())
                elif op == "read":
                    f = dict(i=o["i"], got=["", 0, 0, 0, 0, 0, False])
                    f["got"] = shown(L(o))
                elif op == "index":
                    f = dict(i=o["i"], n=o["n"], v=0)
                    g, l = L(o), o["n"]
                    v = g[l]
                    f["v"] = big(v) if isinstance(g, UP.CartesianLocation) else split(v)[1] if l == 2 else ang(v, g.in_radians)
                elif op == "set":
                    f = dict(i=o["i"], n=o["n"])
                    g = L(o)
                    names = ("x", "y", "z", "use_altitude_units") if isinstance(g, UP.CartesianLocation) else ("lat", "lon", "alt", "in_radians")
                    nm = names[o["n"]]
                    if o.get("same"): setattr(g, nm, getattr(g, nm))
                    elif o["n"] == 3: g.__setattr__(nm, not getattr(g, nm))
                    else: setattr(g, nm, 7)
                elif op in ("dist", "sld"):
                    f = dict(i=o["i"], j=o["j"], d=0, rd=0)
                    a, b = L(o), L(o, "j")
                    kd = "c" if isinstance(a, UP.CartesianLocation) else "g"
                    if op == "dist": d, rd = a - b, b - a
                    else: d, rd = a.straight_line_distance(b), b.straight_line_distance(a)
                    if op == "sld" and kd == "g":
                        u = R / METRES[du]
                        f["d"], f["rd"] = big(100 * (d / u) ** 2), big(100 * (rd / u) ** 2)
                    else: f["d"], f["rd"] = val(d, kd), val(rd, kd)
                    if (a is b or op == "dist" and kd == "g" and shown(a)[1:3] == shown(b)[1:3] and a.in_radians == b.in_radians) and d != 0: rec.note_bad(f"a location is {d!r} away from itself")
                elif op == "dwa":
                    f = dict(i=o["i"], j=o["j"], h=0)
                    a, b = L(o), L(o, "j")
                    d = a.dist_with_altitude(b)
                    g = a - b
                    f["h"] = big(max(0.0, (d - g) * (d + g)) ** 0.5 * METRES[du] * 10)
                    if not d == d or d < g: rec.note_bad(f"a distance with altitude of {d!r} on {g!r}")
                    if abs(b.dist_with_altitude(a) - d) > 1e-9 * (1 + d): rec.note_bad("not the same in both directions")
                elif op == "eq":
                    f = dict(i=o["i"], j=o["j"], eq=False, ne=False)
                    a, b = L(o), L(o, "j")
                    f["eq"] = (a == b) is True
                    f["ne"] = (a != b) is True
                elif op == "hash":
                    f = dict(i=o["i"], j=o["j"], found=False)
                    a, b = L(o), L(o, "j")
                    f["found"] = hash(a) == hash(b)
                    # looking up compares, which needs the same kind and may need units
                    if f["found"] and type(a) is type(b) and du and au: f["found"] = {a: 1}.get(b) == 1
                elif op == "latlon":
                    f = dict(i=o["i"], got=[0, 0])
                    t = L(o).latlon() if o["i"] > 0 else data[-o["i"] - 1].latlon()
                    f["got"] = [ang(t[0], False), ang(t[1], False)]
                elif op == "dataeq":
                    f = dict(i=o["i"], j=o["j"], eq=False)
                    f["eq"] = (data[o["i"] - 1] == data[o["j"] - 1]) is True
                elif op == "way":
                    f = dict(dist=0, sum=0, ts=0)
                    pts = [locs[i - 1] for i in o["w"]]
                    s = sum(b - a for a, b in zip(pts, pts[1:]))
                    t, d = waypoint_time_and_dist(pts[0], pts[1:] if o["how"] else tuple(pts[1:]), o["speed"])
                    z = 1000000 / s if s > 1e7 else 100
                    f.update(dist=big(d * z), sum=big(s * z), ts=big(t * o["speed"] * z))
                elif op == "other":
                    f = dict(i=o["i"], what=o["what"])
                    g = L(o)
                    z = {"num": 3, "tuple": (1, 2, 3), "none": None, "data": data[0] if data else 3}[o["with"]]
                    if o["what"] == "sub": g - z
                    elif o["what"] == "eq": g == z
                    elif o["what"] == "sld": g.straight_line_distance(z)
                    elif o["what"] == "ne": g != z
            except Exception as e:  # noqa: BLE001
                x = type(e).__name__
                if op in ("new", "copy", "torad", "todeg", "make"):
                    rec.add(op, exc=x, **f)
                    break
            rec.add(op, exc=x, **f)
    return {"spec": "Places", "cfg": cfg, "ev": rec.ev}


def heights(rng, du, au):
    """altitudes that are whole numbers in distance units"""
    if not (du and au): return rng.randint(-20, 20)
    from math import gcd
    step = LEN10[du] // gcd(LEN10[du], LEN10[au])
    one = LEN10[du] / LEN10[au]                     # one distance unit in altitude units
    if step > 200 * one or step * LEN10[au] > 2**30: return 0
    lo = max(1, int(200 * one) // step)
    lo = min(lo, (2**30 // LEN10[au]) // step)
    return step * rng.choice([0, 1, -1, rng.randint(-lo, lo)])


def loc(rng, kind, cfg, pool):
    if kind == "c":
        f = rng.random() < 0.5
        z = heights(rng, cfg["du"], cfg["au"]) if f else rng.choice([0, 0, rng.randint(-200, 200)])
        return dict(kind="c", a=rng.choice([0, 3, rng.randint(-200, 200)]), b=rng.choice([0, 4, rng.randint(-200, 200)]), c=z, e=rng.choice([0] * 6 + [1, 100]), k=0, f=f)
    k = rng.choice([0, 0, 0, 1, 2]) if cfg["au"] else 0
    return dict(kind="g", a=rng.choice([a for a in pool if -90 <= a <= 90] + [0, 0]), b=rng.choice(pool), c=rng.choice([0, 0, rng.randint(-50, 50), rng.randint(0, 20)]) if rng.random() < 0.7 else 0, e=0, k=k, f=rng.random() < 0.5)


def related(rng, l, cfg):
    """a location that differs in little from the given one"""
    m = dict(l)
    w = rng.choice(["same", "a", "b", "c", "f", "e", "k"])
    if w == "a": m["a"] = 0 if l["a"] else 45
    elif w == "b": m["b"] = -l["b"]
    elif w == "c" and not (l["kind"] == "c" and l["f"]): m["c"] = l["c"] + 1
    elif w == "f" and l["kind"] == "g": m["f"] = not l["f"]
    elif w == "f" and cfg["du"] and cfg["au"]:
        a, b = LEN10[cfg["du"]], LEN10[cfg["au"]]
        x, y = (a, b) if not l["f"] else (b, a)
        if (l["c"] * x) % y == 0 and abs(l["c"] * x // y) * b < 2**30: m["c"], m["f"] = l["c"] * x // y, not l["f"]
    elif w == "e" and l["kind"] == "c": m["e"] = rng.choice([0, 1, 100])
    elif w == "k" and l["kind"] == "g" and cfg["au"]: m["k"] = 1 - l["k"] if l["k"] < 2 else 0
    return m


def random_program(rng, long=False):
    units = list(METRES)
    du = rng.choice(units * 3 + [""])
    au = rng.choice([rng.choice(units), rng.choice(units), {"km": "m", "m": "km", "mi": "ft", "ft": "mi", "nmi": "m", "": ""}[du], {"km": "m", "m": "km", "mi": "ft", "ft": "mi", "nmi": "ft", "": "m"}[du], ""])
    cfg = dict(du=du, au=au, model=rng.choice(["s", "s", "s", "w", "w", ""]), data=[])
    rough = rng.random() < 0.5
    pool = ROUGH if rough else CLEAN
    kinds = rng.choice(["c", "g", "g", "cg"])
    for _ in range(rng.choice([0, 1, 2, 3])):
        cfg["data"].append(related(rng, rng.choice(cfg["data"]), cfg) if cfg["data"] and rng.random() < 0.5 else loc(rng, rng.choice(kinds), cfg, pool))
    ops, ls = [], []

    def add(l):
        ls.append(l)
    for _ in range(rng.randint(6, 60 if long else 25)):
        if not ls or rng.random() < 0.3:
            w = rng.choice(["new", "new", "near", "copy", "rad", "deg", "make"])
            if w == "new" or not ls:
                l = loc(rng, rng.choice(kinds), cfg, pool)
                ops.append(dict(op="new", l=l, how=rng.randint(0, 3)))
                add(l)
            elif w == "near":
                l = related(rng, rng.choice(ls), cfg)
                ops.append(dict(op="new", l=l, how=rng.randint(0, 3)))
                add(l)
            elif w == "make" and cfg["data"]:
                i = rng.randrange(len(cfg["data"]))
                ops.append(dict(op="make", i=i + 1))
                add(cfg["data"][i])
            else:
                i = rng.randrange(len(ls))
                if w == "rad" and ls[i]["kind"] == "g":
                    ops.append(dict(op="torad", i=i + 1))
                    add(dict(ls[i], f=True))
                elif w == "deg" and ls[i]["kind"] == "g" and not (rough and ls[i]["f"]):
                    ops.append(dict(op="todeg", i=i + 1))
                    add(dict(ls[i], f=False))
                else:
                    ops.append(dict(op="copy", i=i + 1))
                    add(ls[i])
            continue
        i, j = rng.randrange(len(ls)), rng.randrange(len(ls))
        w = rng.choice(["dist"] * 4 + ["eq"] * 4 + ["sld"] * 3 + ["dwa", "dwa", "set", "set", "read", "index", "hash", "latlon", "dataeq", "way", "other"])
        g = ls[i]["kind"] == "g"
        o = dict(op=w, i=i + 1)
        if w in ("dist", "eq", "sld", "hash"): o["j"] = j + 1
        elif w == "dwa":
            if not g or ls[j]["kind"] != "g": continue
            o["j"] = j + 1
        elif w == "set": o.update(n=rng.randrange(4), same=rng.random() < 0.3)
        elif w == "index": o["n"] = rng.choice([0, 1, 2, 2, 3, -1, 7]) if not ls[i]["k"] else rng.choice([0, 1, 3, -1])
        elif w == "latlon":
            ds = [-n - 1 for n, d in enumerate(cfg["data"]) if d["kind"] == "g"]
            if ds and rng.random() < 0.5: o["i"] = rng.choice(ds)
            elif not g: continue
        elif w == "dataeq":
            if not cfg["data"]: continue
            o["i"], o["j"] = rng.randint(1, len(cfg["data"])), rng.randint(1, len(cfg["data"]))
        elif w == "way":
            same = [n + 1 for n, l in enumerate(ls) if l["kind"] == ls[i]["kind"]]
            if not du or (g and cfg["model"] != "s") or (not g and not au): continue
            o.update(w=[rng.choice(same) for _ in range(rng.randint(1, 5))], speed=rng.choice([1, 2, 0.5, 10]), how=rng.random() < 0.5)
            del o["i"]
        elif w == "other": o.update(what=rng.choice(["sub", "eq", "sld", "ne"]), **{"with": rng.choice(["num", "tuple", "none", "data"])})
        ops.append(o)
    ops += [dict(op="read", i=n + 1) for n in range(len(ls))]
    return dict(cfg=cfg, ops=ops)
