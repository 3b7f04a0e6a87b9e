"""Driver for the geometry of the globe (specification Globe.tla)."""
import math
from vlib.core import Rec
from vlib.activestates import Frame

A, F = 6378137.0, 1 / 298.257223563
B = A * (1 - F)
TOL = 2e-5              # degrees on the sphere (2 m)
METRES = 0.05           # on the ellipsoid


def vec(lat, lon):
    la, lo = math.radians(lat), math.radians(lon)
    return (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la))


def dot(u, v): return sum(a * b for a, b in zip(u, v))
def cross(u, v): return (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
def add(u, v, k=1.0): return tuple(a + k * b for a, b in zip(u, v))
def norm(u): return math.sqrt(dot(u, u))
def unit(u): return tuple(a / norm(u) for a in u)
def sep(u, v): return math.degrees(math.atan2(norm(cross(u, v)), dot(u, v)))


def axes(lat, lon):
    """East and north at a point given by its coordinates (also at a pole)."""
    la, lo = math.radians(lat), math.radians(lon)
    return (-math.sin(lo), math.cos(lo), 0.0), (-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la))


def wrap(x): return (x + 179) % 360 - 179


def whole(lat, lon):
    """A point with whole coordinates as the specification writes it."""
    lat, lon = round(lat), round(lon)
    return [lat, 0 if abs(lat) == 90 else wrap(lon)]


class Sphere:
    wgs = False
    deg = math.pi / 180 * A                     # metres in a degree

    def __init__(self, p):
        self.f = Frame(*p["turn"])

    def place(self, pt): return self.f.true(*pt)

    def seen(self, rec, ll):
        """The specification's name for a place the code answered with."""
        la, lo = self.f.back(*ll)
        pt = whole(la, lo)
        if not all(map(math.isfinite, ll)) or sep(vec(*self.place(pt)), vec(*ll)) > TOL: rec.note_bad(f"no such place: {la:.6f} {lo:.6f}")
        return pt

    def bearing(self, pt, ll, b):
        """The real bearing, at the real place ll of pt, of the specification's course b (from a pole: a meridian)."""
        if abs(pt[0]) == 90:
            d = vec(*self.place([0, b]))
        else:
            e, n = axes(*pt)
            t = add(tuple(math.sin(math.radians(b)) * x for x in e), n, math.cos(math.radians(b)))
            m = list(self.f.m)
            d = tuple(dot(r, t) for r in m)
        e, n = axes(*ll)
        return math.degrees(math.atan2(dot(d, e), dot(d, n))) % 360

    def course(self, rec, pt, ll, real):
        """The specification's course of a real bearing."""
        e, n = axes(*ll)
        t = add(tuple(math.sin(math.radians(real)) * x for x in e), n, math.cos(math.radians(real)))
        t = tuple(dot(c, t) for c in zip(*self.f.m))
        e, n = axes(*pt)
        b = math.degrees(math.atan2(dot(t, e), dot(t, n)))
        if not math.isfinite(b) or abs(b - round(b)) > 1e-4: rec.note_bad(f"no such course: {b:.6f}")
        return round(b) % 360

    def direct(self, ll, bearing, m):
        e, n = axes(*ll)
        t = add(tuple(math.sin(math.radians(bearing)) * x for x in e), n, math.cos(math.radians(bearing)))
        x = add(tuple(math.cos(m / A) * c for c in vec(*ll)), t, math.sin(m / A))
        return math.degrees(math.atan2(x[2], math.hypot(x[0], x[1]))), math.degrees(math.atan2(x[1], x[0]))

    def apart(self, p, q): return sep(vec(*p), vec(*q)) * self.deg
    def ecef(self, ll, h): return tuple((A + h) * c for c in vec(*ll))


class Ellipsoid:
    """The points <<0, k>> are k steps along the geodesic that leaves p["at"] on the bearing p["az"]."""
    wgs = True

    def __init__(self, p):
        self.deg = p["step"]
        self.line = {}
        for sgn in (1, -1):
            x, t = self._start(p["at"], p["az"] if sgn == 1 else p["az"] + 180)
            for k in range(0, p["reach"] + 1):
                self.line[sgn * k] = (x, t if sgn == 1 else tuple(-c for c in t))
                x, t = self._run(x, t, self.deg)

    @staticmethod
    def _start(ll, az):
        e, n = axes(*ll)
        return Ellipsoid.surface(*ll), add(tuple(math.sin(math.radians(az)) * c for c in e), n, math.cos(math.radians(az)))

    @staticmethod
    def surface(lat, lon, h=0.0):
        la, lo = math.radians(lat), math.radians(lon)
        w = math.sqrt((A * math.cos(la)) ** 2 + (B * math.sin(la)) ** 2)
        r, z = A * A * math.cos(la) / w + h * math.cos(la), B * B * math.sin(la) / w + h * math.sin(la)
        return (r * math.cos(lo), r * math.sin(lo), z)

    @staticmethod
    def _run(x, t, s):
        """A geodesic: it accelerates along the normal only (fourth-order Runge-Kutta)."""
        q = (1 / A ** 2, 1 / A ** 2, 1 / B ** 2)

        def acc(x, v):
            g = tuple(c * k for c, k in zip(x, q))
            k = sum(c * v_ * v_ for c, v_ in zip(q, v)) / dot(g, g)
            return tuple(-k * c for c in g)
        n = max(1, math.ceil(abs(s) / 30000))
        h = s / n
        for _ in range(n):
            k1v, k1 = acc(x, t), t
            k2 = add(t, k1v, h / 2); k2v = acc(add(x, k1, h / 2), k2)
            k3 = add(t, k2v, h / 2); k3v = acc(add(x, k2, h / 2), k3)
            k4 = add(t, k3v, h); k4v = acc(add(x, k3, h), k4)
            x = tuple(a + h / 6 * (b + 2 * c + 2 * d + e) for a, b, c, d, e in zip(x, k1, k2, k3, k4))
            t = tuple(a + h / 6 * (b + 2 * c + 2 * d + e) for a, b, c, d, e in zip(t, k1v, k2v, k3v, k4v))
            x = tuple(c / math.sqrt(sum(a * a * k for a, k in zip(x, q))) for c in x)
            g = unit(tuple(c * k for c, k in zip(x, q)))
            t = unit(add(t, g, -dot(t, g)))
        return x, t

    @staticmethod
    def latlon(x): return math.degrees(math.atan2(x[2] / B ** 2, math.hypot(x[0], x[1]) / A ** 2)), math.degrees(math.atan2(x[1], x[0]))

    def place(self, pt): return self.latlon(self.line[pt[1]][0])

    def seen(self, rec, ll):
        x = self.surface(*ll)
        k = min(self.line, key=lambda k: norm(add(self.line[k][0], x, -1)))
        if not norm(add(self.line[k][0], x, -1)) < METRES: rec.note_bad(f"no such place: {norm(add(self.line[k][0], x, -1)):.3f} m from {k}")
        return [0, k]

    def bearing(self, pt, ll, b):
        d = self.line[pt[1]][1]
        if b == 270: d = tuple(-c for c in d)
        e, n = axes(*ll)
        return math.degrees(math.atan2(dot(d, e), dot(d, n))) % 360

    def course(self, rec, pt, ll, real):
        for b in (90, 270):
            if abs((self.bearing(pt, ll, b) - real + 180) % 360 - 180) < 1e-5: return b
        rec.note_bad(f"no such course: {real - self.bearing(pt, ll, 90):.6f}")
        return -1

    def direct(self, ll, bearing, m): return self.latlon(self._run(*self._start(ll, bearing), m)[0])
    def apart(self, p, q): return norm(add(self.surface(*p), self.surface(*q), -1))
    def ecef(self, ll, h): return self.surface(*ll, h)


class Mark:
    """Anything with latlon() is a place as well."""

    def __init__(self, ll): self.ll = ll
    def latlon(self): return self.ll


def execute(p):
    import upstage_des.api as UP
    from upstage_des.geography import Spherical, WGS84, get_intersection_locations
    from upstage_des.motion import great_circle_calcs as gc
    rec = Rec()
    with UP.EnvironmentContext():
        earth = WGS84 if p["wgs"] else Spherical
        for k, v in dict(stage_model=earth, distance_units=p["du"], altitude_units="m").items(): UP.add_stage_variable(k, v)
        g = (Ellipsoid if p["wgs"] else Sphere)(p)
        conv = lambda m: UP.unit_convert(m, "m", p["du"])
        pts = [list(x) for x in p["pts"]]
        real = [g.place(x) for x in pts]
        loc = lambda i: (lambda x: x.to_radians() if p.get("rad") else x)(UP.GeodeticLocation(*real[i]))
        tup = lambda i: Mark(real[i]) if (i + p["mark"]) % 3 == 0 else real[i]

        def degrees(m):
            x = m / g.deg
            if not math.isfinite(x) or abs(x - round(x)) > (METRES / g.deg if p["wgs"] else TOL): rec.note_bad(f"not a whole distance: {x:.6f}")
            return round(x)

        def answer(o):
            op, i, j, k = o["op"], o["i"] - 1, o["j"] - 1, o["k"] - 1
            how = o.get("how", "")
            if op == "go":
                ll = earth.point_from_bearing_dist(tup(i), g.bearing(pts[i], real[i], o["b"]) + o.get("turns", 0) * 360, conv(o["d"] * g.deg), p["du"])
                return dict(r=g.seen(rec, ll)), ll
            if op == "along":
                d = gc.get_dist_rad(loc(i), loc(j)) if how == "pos" else None
                if how == "pos": ll = tuple(map(math.degrees, gc.get_pos_from_points_and_distance(loc(i), loc(j), math.radians(o["d"]))))
                else: ll = earth.point_along(tup(i), tup(j), o["d"] / o["of"])
                return dict(r=g.seen(rec, ll)), ll
            if op == "dist":
                if how == "rad": return dict(r=degrees(gc.get_dist_rad(loc(i), loc(j)) * A)), None
                if how == "loc": x = loc(i) - loc(j)
                elif how == "both": x = earth.distance_and_bearing(tup(i), tup(j), units=p["du"])[0]
                else: x = earth.distance(tup(i), tup(j), units=p["du"])
                return dict(r=degrees(UP.unit_convert(x, p["du"], "m"))), None
            if op == "course":
                if how == "rad": x = -math.degrees(gc.get_course_rad(loc(i), loc(j)))
                elif how == "both": x = earth.distance_and_bearing(tup(i), tup(j))[1]
                else: x = earth.bearing(tup(i), tup(j))
                if how != "rad" and not 0 <= x <= 360: rec.note_bad("a bearing is not between 0 and 360")
                return dict(r=g.course(rec, pts[i], real[i], x)), None
            if op == "lin":
                n, h0, h1 = o["n"], o["h0"], o["h1"]
                f = dict(alts=[h0 + k * ((h1 - h0) // max(n, 1)) for k in range(n + 1)])
                if how == "ecef": es = earth.ecef_linspace(tup(i), tup(j), h0, h1, n); lla = [g.latlonalt(x) if False else x for x in earth.ecef2lla(es)]
                elif how == "both": es, lla = earth.ecef_and_geo_linspace(tup(i), tup(j), h0, h1, n)
                else: es, lla = None, [(*x, None) for x in earth.geo_linspace(tup(i), tup(j), n)]
                if es is not None:
                    f["alts"] = [round(x[2]) if abs(x[2] - round(x[2])) < 0.1 else rec.note_bad(f"not a whole height: {x[2]}") or -1 for x in lla]
                    if len(es) != len(lla) or any(norm(add(g.ecef(x[:2], x[2]), e, -1)) > 0.1 for x, e in zip(lla, es)): rec.note_bad("the two forms of a path differ")
                return dict(r=[g.seen(rec, x[:2]) for x in lla], **f), None
            if op == "circle":
                r = []
                for k, ll in enumerate(earth.geo_circle(tup(i), conv(o["d"] * g.deg), p["du"], o["n"])):
                    b = k * 360 / o["n"]
                    if g.apart(ll, g.direct(real[i], b, o["d"] * g.deg)) > (METRES if p["wgs"] else TOL * g.deg): rec.note_bad("a point is not on the circle")
                    r.append(round(b) % 360)
                return dict(r=r), None
            if op == "off": return dict(r=degrees(UP.unit_convert(earth.cross_track_distance(tup(i), tup(j), tup(k), units=p["du"]), p["du"], "m"))), None
            if op == "foot":
                ll = earth.cross_track_point(tup(i), tup(j), tup(k))
                return dict(r=g.seen(rec, ll)), ll
            if op == "cuts":
                x = gc.get_great_circle_points(loc(i), loc(j), loc(k), around(o["off"], o["w"]))
                return dict(r=[] if x is None else [[g.seen(rec, tuple(map(math.degrees, q))), degrees(d * A)] for q, d in zip(*x)]), None
            if op == "cross":
                h = o["h"]
                lla = [(*real[x], float(h)) for x in (i, j, k)]
                r = norm(add(g.ecef(g.place([0, 0]), h), g.ecef(g.place([0, o["w"]]), h), -1)) if p["wgs"] else 2 * (A + h) * math.sin(around(o["off"], o["w"]) / 2)
                res = get_intersection_locations(*lla, conv(r), p["du"], earth, *([o["between"], o["levels"]] if o.get("between") else []))
                step = (o.get("between") or 9260.0) / math.prod(o.get("levels") or [10, 20])
                out = []
                for c in res:
                    exact = c.kind.endswith("INSIDE")
                    if abs(c.begin[2] - h) > 0.1: rec.note_bad("a crossing is at another height")
                    la, lo = (g.f.back(*c.begin[:2]) if not p["wgs"] else (0, min(g.line, key=lambda k: norm(add(g.line[k][0], g.surface(*c.begin[:2]), -1)))))
                    pt = whole(la, lo)
                    off = g.apart(g.place(pt), c.begin[:2])
                    if off > (TOL * g.deg if exact else step * 1.1 + 1): rec.note_bad(f"a crossing is {off:.1f} m out of place")
                    out.append([c.kind, pt])
                return dict(r=out), None
            if op == "ecef":
                e = earth.lla2ecef([(*real[i], float(o["h0"]))])[0]
                if norm(add(g.ecef(real[i], o["h0"]), e, -1)) > 0.1: rec.note_bad("a point has the wrong cartesian coordinates")
                lat, lon, h = earth.ecef2lla([e])[0]
                if abs(h - o["h0"]) > 0.1: rec.note_bad(f"a height of {o['h0']} becomes {h}")
                return dict(r=[g.seen(rec, (lat, lon)), round(h)]), None
            raise ValueError(op)

        for o in p["ops"]:
            try: f, new = answer(o)
            except Exception as e: f, new, exc = dict(r=0), None, type(e).__name__
            else: exc = ""
            if new is not None:
                pts.append(f["r"]); real.append(tuple(new))
            o = {k: v for k, v in o.items() if k in ("i", "j", "k", "b", "d", "n", "w", "h0", "h1")}
            rec.add(p["ops"][len(rec.ev)]["op"], exc=exc, **o, **f)
            if exc and new is None and p["ops"][len(rec.ev) - 1]["op"] in ("go", "along", "foot"): break
    return {"spec": "Globe", "cfg": dict(pts=p["pts"], wgs=p["wgs"]), "ev": rec.ev}


def around(off, w):
    """The radius (radians) of a circle whose centre is off degrees from a great circle of which it cuts w either way."""
    return 2 * math.asin(math.sqrt((1 - math.cos(math.radians(off)) * math.cos(math.radians(w))) / 2))


# ---- which questions have whole answers (as in the specification) ----
def pole(p): return abs(p[0]) == 90
def dlon(p, q): return wrap(q[1] - p[1])
def equ(p, q): return p[0] == 0 and q[0] == 0
def line(p, q): return equ(p, q) or pole(p) or pole(q) or dlon(p, q) in (0, 180)
def quarter(p, q): return not pole(p) and not pole(q) and abs(dlon(p, q)) == 90 and (p[0] == 0 or q[0] == 0)
def norm_(lat, lon):
    f = abs(lat) > 90
    if f: lat = (180 if lat > 0 else -180) - lat
    return [lat, 0 if abs(lat) == 90 else wrap(lon + 180 if f else lon)]
def antip(p, q): return q == norm_(-p[0], p[1] + 180)
def path(p, q): return p != q and not antip(p, q) and line(p, q)
def dist(p, q): return round(sep(vec(*p), vec(*q)))
def go(p, b, d):
    if pole(p): return norm_(p[0] - math.copysign(d, p[0]), b)
    e, n = axes(*p)
    t = add(tuple(math.sin(math.radians(b)) * x for x in e), n, math.cos(math.radians(b)))
    x = add(tuple(math.cos(math.radians(d)) * c for c in vec(*p)), t, math.sin(math.radians(d)))
    return whole(math.degrees(math.atan2(x[2], math.hypot(x[0], x[1]))), math.degrees(math.atan2(x[1], x[0])))
def can_go(p, b, d): return pole(p) or b in (0, 180) or (p[0] == 0 and b in (90, 270)) or (d == 90 and (p[0] == 0 or b in (90, 270)))
def meridian(a, b): return b[1] if pole(a) else a[1]
def can_cross(a, b, p): return path(a, b) and (equ(a, b) or pole(p) or wrap(p[1] - meridian(a, b)) in (0, 180, 90, -90))
def plane(a, b): return unit(cross(vec(*a), vec(*b)))
def off(a, b, p): return round(abs(math.degrees(math.asin(max(-1.0, min(1.0, dot(plane(a, b), vec(*p))))))))
def along(a, b, p):
    n = plane(a, b)
    e = cross(n, vec(*a))
    return wrap(round(math.degrees(math.atan2(dot(vec(*p), e), dot(vec(*p), vec(*a))))))
def at(a, b, x):
    n = plane(a, b)
    v = add(tuple(math.cos(math.radians(x)) * c for c in vec(*a)), cross(n, vec(*a)), math.sin(math.radians(x)))
    return whole(math.degrees(math.atan2(v[2], math.hypot(v[0], v[1]))), math.degrees(math.atan2(v[1], v[0])))


def world(rng, wgs):
    w = dict(wgs=wgs, du=rng.choice(["m", "km", "nmi", "mi", "ft"]), mark=rng.randint(0, 2), rad=rng.random() < 0.3)
    if wgs:
        # no two points may be nearly opposite to each other
        step = rng.choice([1000.0, 20000.0, 55000.0, 111319.490793])
        lat = rng.choice([0, 0, 30, -45, 60, 89, 90, -90, round(rng.uniform(-90, 90), 3)])
        az = rng.choice([0, 90, 270, 180, 45, round(rng.uniform(0, 360), 3)])
        if step > 100000: lat, az = (0, 90) if rng.random() < 0.6 else (lat, az)
        w.update(at=[lat, rng.choice([0, 179.5, 180, -75, round(rng.uniform(-180, 180), 3)])], az=az, step=step, reach=80 if step > 50000 else 40)
    else:
        w["turn"] = rng.choice([[0, 0, 0], [180, 0, 0], [rng.randint(-180, 180), 0, 0], [0, 90, 0], [rng.randint(-180, 180), 90, 0], [0, 0, 90], [0, -90, rng.randint(0, 359)]]
                               + [[rng.randint(-180, 180), rng.randint(-90, 90), rng.randint(-180, 180)]] * 8)
    return w


def concrete(g, rng):
    p = dict(world(rng, False), pts=[list(x) for x in g["pts"]], ops=[])
    pts = [list(x) for x in g["pts"]]
    for o in g["ops"]:
        o = dict(o)
        a, b = pts[o["i"] - 1], pts[o["j"] - 1]
        if o["op"] == "go": pts.append(go(a, o["b"], o["d"]))
        elif o["op"] == "along": o["of"] = dist(a, b); pts.append(at(a, b, o["d"])); o["how"] = rng.choice(["", "pos"])
        elif o["op"] == "foot": pts.append(at(a, b, along(a, b, pts[o["k"] - 1])))
        elif o["op"] == "dist": o["how"] = rng.choice(["", "both", "loc", "rad"])
        elif o["op"] == "course": o["how"] = rng.choice(["", "both", "rad"])
        p["ops"].append(o)
    return p


def random_program(rng, long=False):
    wgs = rng.random() < 0.25
    p = dict(world(rng, wgs))
    reach = p.get("reach")
    lat = lambda: rng.choice([0, 0, 90, -90, 89, -1, rng.randint(-90, 90)])
    if wgs: p["pts"] = [[0, rng.randint(-reach, reach)] for _ in range(rng.randint(2, 4))]
    else:
        l0 = rng.choice([0, 180, 90, rng.randint(-179, 180)])
        p["pts"] = [norm_(*rng.choice([(0, rng.randint(-179, 180)), (lat(), l0), (lat(), l0 + 180), (lat(), l0 + 90)])) for _ in range(rng.randint(3, 5))]
    pts, ops = [list(x) for x in p["pts"]], []
    kinds = ["go", "dist", "course", "lin", "circle", "cross", "ecef"] + ([] if wgs else ["along", "off", "foot", "cuts"] * 2)
    tries = 0
    while len(ops) < (18 if long else 10) and tries < 200:
        tries += 1
        op, i, j, k = rng.choice(kinds), *(rng.randrange(len(pts)) for _ in range(3))
        a, b, c = pts[i], pts[j], pts[k]
        o = dict(op=op, i=i + 1, j=j + 1, k=k + 1)
        new = None
        if op == "go":
            o["b"] = rng.choice([90, 270] if wgs else [0, 180, 90, 270, rng.randint(0, 359)])
            o["d"] = rng.choice([0, 1, 90, rng.randint(1, 170), rng.randint(1, 20)])
            if rng.random() < 0.2: o["turns"] = rng.choice([-1, 1])
            if pole(a): o["b"] = wrap(o["b"])
            if wgs:
                new = [0, a[1] + (o["d"] if o["b"] == 90 else -o["d"])]
                if abs(new[1]) > reach: continue
            elif not can_go(a, o["b"], o["d"]): continue
            else: new = go(a, o["b"], o["d"])
        elif op == "dist":
            if not (line(a, b) or quarter(a, b)): continue
            o["how"] = rng.choice(["", "both", "loc"] + ([] if wgs else ["rad"]))
        elif op == "course":
            if pole(a) or a == b or antip(a, b) or not (line(a, b) or quarter(a, b)): continue
            o["how"] = rng.choice(["", "both"] + ([] if wgs else ["rad"]))
        elif op == "along":
            if not path(a, b): continue
            o["of"] = dist(a, b); o["d"] = rng.choice([0, o["of"], rng.randint(0, o["of"])]); new = at(a, b, o["d"])
            o["how"] = rng.choice(["", "pos"])
        elif op == "lin":
            D = dist(a, b) if not wgs else abs(a[1] - b[1])
            if a != b and not path(a, b): continue
            n = rng.choice([1, 0, 2, 3, 4, 5, 6, 8, 9, 10, 12])
            if a == b and not wgs and pole(a): continue        # several longitudes, one place
            if n and D % n: continue
            h0 = rng.choice([0, 0, 1000, 12000]); h1 = h0 + n * rng.choice([0, 0, 7, -50, 100])
            o.update(n=n, h0=h0, h1=h1, how=rng.choice(["", "both", "ecef"]))
        elif op == "circle": o.update(n=rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 12]), d=rng.choice([1, 5, 30, 90, rng.randint(1, 170)]) if not wgs else rng.randint(1, 60))
        elif op == "off":
            if not can_cross(a, b, c): continue
        elif op == "foot":
            if not can_cross(a, b, c) or off(a, b, c) == 90: continue
            new = at(a, b, along(a, b, c))
        elif op in ("cuts", "cross"):
            if not can_cross(a, b, c) or off(a, b, c) > 80: continue
            D, f = (dist(a, b), along(a, b, c)) if not wgs else (abs(a[1] - b[1]), (c[1] - a[1]) * (1 if b[1] > a[1] else -1))
            w = rng.choice([1, 2, 5, rng.randint(1, 30), rng.randint(1, 80)])
            if wgs and (p["at"][0] != 0 or p["az"] not in (90, 270) or p["step"] < 100000): continue
            if not wgs and (f - w < -178 or f + w > 178): continue
            if any(x in (0, D) for x in (f - w, f + w)): continue
            o.update(w=w, off=0 if wgs else off(a, b, c))
            if op == "cross":
                o["h"] = rng.choice([0, 0, 5000, 10000])
                if rng.random() < 0.4: o.update(between=rng.choice([5000.0, 9260.0, 20000.0, 60000.0]), levels=rng.choice([[10, 20], [5], [4, 6], [10, 10]]))
        elif op == "ecef": o["h0"] = rng.choice([0, 100, 12000, 400000, -50])
        ops.append(o)
        if new is not None: pts.append(new)
    p["ops"] = ops
    return p
