"""Driver for sensors and movers (specification Motion.tla)."""
import math
import warnings

from vlib.activestates import Frame
from vlib.core import Rec

ROTS = 5          # turns of the flat world; 5 and 6 are a patch of the earth's surface, with either way to find crossings


def turn(rot, p):
    """The world as the code sees it: turned and shifted."""
    x, y, z = p
    if rot == 1: return (z + 3, x - 7, y + .5)
    if rot == 2: return (.6 * x - .8 * y, .8 * x + .6 * y, z)
    if rot == 3: return (x + 100.25, .8 * y - .6 * z, .6 * y + .8 * z)
    if rot == 4: return (-y, -x, -z)
    return (x, y, z)


def back(rot, p):
    x, y, z = p
    if rot == 1: return (y + 7, z - .5, x - 3)
    if rot == 2: return (.6 * x + .8 * y, -.8 * x + .6 * y, z)
    if rot == 3: return (x - 100.25, .8 * y + .6 * z, -.6 * y + .8 * z)
    if rot == 4: return (-y, -x, -z)
    return (x, y, z)


def execute(p):
    import upstage_des.api as UP
    from upstage_des.motion import SensorMotionManager
    from upstage_des.motion.cartesian_model import cartesian_linear_intersection
    rec = Rec()
    u, w, rot = p["u"], p["w"], p["rot"]       # length and time units, turn of the world
    warnings.simplefilter("ignore")

    with UP.EnvironmentContext() as env:
        geo = rot >= 5
        frame = Frame(*p.get("world", (p.get("lon", 0), 0, 0)))       # where on the globe all this happens
        if geo:
            from upstage_des.geography import Spherical, get_intersection_locations
            from upstage_des.motion.geodetic_model import analytical_intersection, subdivide_intersection
            UP.add_stage_variable("stage_model", Spherical)
            UP.add_stage_variable("altitude_units", "ft")
            UP.add_stage_variable("distance_units", p["unit"])
            UP.add_stage_variable("intersection_model", get_intersection_locations)
            rad = UP.unit_convert(Spherical.EARTH_RADIUS, "m", p["unit"])
            flat = lambda *a: analytical_intersection(*a) if rot == 5 else subdivide_intersection(*a)
        else: flat = cartesian_linear_intersection
        man = SensorMotionManager(flat, debug=p["debug"])
        UP.add_stage_variable("motion_manager", man)

        class Mover(UP.Actor):
            location = UP.GeodeticLocationChangingState(recording=True) if geo else UP.CartesianLocationChangingState(recording=True)
            seen = UP.DetectabilityState(default=False, recording=True)

        class Plain(UP.Actor):
            location = UP.GeodeticLocationChangingState() if geo else UP.CartesianLocationChangingState()

        class Fly(UP.Task):
            def task(self, *, actor): yield UP.Wait(1.0)

        def loc(q):
            if geo: return UP.GeodeticLocation(*frame.true(math.degrees(q[1] / 1000 * u / rad), math.degrees(q[0] / 1000 * u / rad)), UP.unit_convert(q[2] / 1000 * u, p["unit"], "ft"))
            return UP.CartesianLocation(*[x * u / 1000 for x in turn_milli(q)])

        def turn_milli(q): return [x * 1000 for x in turn(rot, [y / 1000 for y in q])]
        task = Fly()
        movers = [Mover(name=f"mover {i}", location=loc(m["p"]), seen=m["det"]) if m["has"] else Plain(name=f"mover {i}", location=loc(m["p"])) for i, m in enumerate(p["movers"])]
        calls, sensors, ends = [], [], {}

        def tm(t): return rec.int(round(t / w * 1000))

        def where(a):
            q = a.location
            if geo: return [rec.int(round(math.radians(x) * rad / u * 1000)) for x in frame.back(*q.latlon())[::-1]] + [rec.int(round(UP.unit_convert(q.alt, "ft", p["unit"]) / u * 1000))]
            return [rec.int(round(x * 1000)) for x in back(rot, (q.x / u, q.y / u, q.z / u))]

        def call(s, a, k, look, kill):
            m = next((i for i, x in enumerate(movers) if x is a), None)
            if m is None:
                rec.note_bad("a sensor is told of something that is not a mover")
                return
            calls.append(dict(t=tm(env.now), s=s, m=m + 1, k=k, p=where(a) if look else [0, 0, 0]))
            if kill and k == 1: a.seen = False

        class Sensor:
            def __init__(self, n, at, r, look, kill): self.n, self.location, self.radius, self.look, self.kill = n, at, r, look, kill

            def entity_entered_range(self, entity): call(self.n, entity, 1, self.look, self.kill)

            def entity_exited_range(self, entity): call(self.n, entity, 2, self.look, self.kill)

        class SensorActor(UP.Actor):
            spot = UP.State()
            reach = UP.State()
            n = UP.State()
            look = UP.State()
            kill = UP.State()

            def entity_entered_range(self, entity): call(self.n, entity, 1, self.look, self.kill)

            def entity_exited_range(self, entity): call(self.n, entity, 2, self.look, self.kill)

        def add(op, exc="", **f):
            rec.add(op, exc=exc, now=tm(env.now), calls=list(calls), **f)
            calls.clear()

        def stop(m):
            ends.pop(m, None)
            movers[m - 1].deactivate_all_states(task=task)
        add("init")
        for o in p["ops"]:
            op, exc = o["op"], ""
            f = {k: v for k, v in o.items() if k not in ("op", "how")}
            try:
                if op == "start":
                    if o["m"] in ends: continue
                    a, q = movers[o["m"] - 1], where(movers[o["m"] - 1])
                    pts, legs = [], [(x["k"], x["d"]) if isinstance(x, dict) else x for x in o["legs"]]
                    for k, d in legs:
                        q[k - 1] += d
                        pts.append(loc(q))
                    f["legs"] = [dict(k=k, d=d) for k, d in legs]
                    speed = o["sp"] * u / w
                    ends[o["m"]] = env.now + sum((y - x) / speed for x, y in zip([a.location, *pts], pts))
                    a.activate_location_state(state="location", speed=speed, waypoints=pts, task=task)
                elif op == "stop":
                    if o["m"] not in ends: continue
                    stop(o["m"])
                elif op == "detect":
                    if not p["movers"][o["m"] - 1]["has"]: continue
                    movers[o["m"] - 1].seen = o["on"]
                elif op == "sensor":
                    n = len(sensors) + 1
                    if o.get("how"):
                        s = SensorActor(name=f"s{n}", spot=loc(o["c"]), reach=o["r"] * u / 1000, n=n, look=o["look"], kill=o["kill"])
                        sensors.append(s)
                        man.add_sensor(s, "spot", "reach")
                    else:
                        s = Sensor(n, loc(o["c"]), o["r"] * u / 1000, o["look"], o["kill"])
                        sensors.append(s)
                        man.add_sensor(s)
                elif op == "advance":
                    to = env.now + o["v"] * w / 1000
                    while ends and min(ends.values()) <= to + 1e-9 * w:
                        m = min(ends, key=lambda x: (ends[x], x))
                        if ends[m] > env.now:
                            v = tm(ends[m]) - tm(env.now)
                            env.run(until=ends[m])
                            add("advance", v=v)
                        stop(m)
                        add("stop", m=m)
                    if to <= env.now + 1e-9 * w: continue
                    f["v"] = tm(to) - tm(env.now)
                    env.run(until=to)
                else: raise AssertionError(op)
            except Exception as e:
                exc = type(e).__name__
                if p.get("raise"): raise
            add(op, exc, **f)
            if exc: break
    return {"cfg": dict(rot=rot, movers=p["movers"]), "ev": rec.ev}


# ------------------------------------------------------------------ programs
def random_program(rng, big=False, rots=None):
    rot = rng.choice([0, 0, 1, 2, 3, 4, 5, 5, 6]) if rots is None else rng.choice(rots)
    nm, dims = rng.randint(1, 3), rng.choice([1, 2, 2, 3]) if rot < 5 else rng.choice([1, 2]) if rot == 5 else 1
    half = rng.random() < .3

    def num(lo, hi): return 500 * rng.randint(2 * lo, 2 * hi) if half else 1000 * rng.randint(lo, hi)

    def point(s=6): return [num(-s, s) if k < dims else 0 for k in range(3)]
    movers = [dict(p=point(), det=rng.random() < .75, has=rng.random() < .93) for _ in range(nm)]
    ops = []
    high = rot == 5 and rng.random() < .4      # at constant heights over sensors on the ground
    if high:
        for m in movers: m["p"] = [1000 * round(m["p"][0] / 1000), 1000 * round(m["p"][1] / 1000), 1000 * rng.randint(0, 4)]
        half = False

    def clear(r):
        """Not nearly touching from any height and side."""
        return all(abs(r - 1000 * math.hypot(a, b)) > 25 for a in range(5) for b in range(12))

    def sensor():
        if high:
            r = next(x for x in iter(lambda: rng.randint(700, 6000), None) if clear(x))
            c = point(4)
            return dict(op="sensor", c=[1000 * round(c[0] / 1000), 1000 * round(c[1] / 1000), 0], r=r, kill=rng.random() < .12, look=rng.random() < .3, how=rng.random() < .3)
        return dict(op="sensor", c=point(4), r=500 * rng.randint(1, 10) + rng.randint(60, 440) if rot >= 5 else rng.choice([num(1, 5) or 1000, 5000, rng.randint(500, 6000)]), kill=rng.random() < .12, look=rng.random() < .3, how=rng.random() < .3)

    def start(m):
        legs = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            k = rng.randint(1, dims)
            d = 0 if rng.random() < .04 and rot != 6 else (num(-12, 12) or 1000)
            legs.append([k, d])
        if not any(d for _, d in legs): legs[0][1] = 4000
        return dict(op="start", m=m, legs=legs, sp=rng.choice([1, 1, 2]))
    for _ in range(rng.randint(0, 3)): ops.append(sensor())
    for _ in range(rng.randint(4, 30 if big else 16)):
        m = rng.randint(1, nm)
        k = rng.choice(["start"] * 5 + ["stop"] * 2 + ["on", "off", "off", "sensor"] + ["advance"] * 7)
        if k == "start": ops.append(start(m))
        elif k == "stop": ops.append(dict(op=k, m=m))
        elif k in ("on", "off"): ops.append(dict(op="detect", m=m, on=k == "on"))
        elif k == "sensor" and sum(o["op"] == k for o in ops) < 5: ops.append(sensor())
        else: ops.append(dict(op="advance", v=rng.choice([500, 1000, 1000, 2000, 3000, 5000, 8000, 20000])))
    ops.append(dict(op="advance", v=30000))
    return dict(rot=rot, u=rng.choice([1, 1, .25, 100, 1e4]) if rot < 5 else .01 if rot == 5 else 20, unit=rng.choice(["nmi", "km", "mi"]), world=rng.choice([[rng.choice([0, 77, -120, 180]), 0, 0], [0, 80, 0], [rng.randint(-180, 180), 80, 0], [rng.randint(-180, 180), rng.randint(-85, 85), rng.randint(-180, 180)], [rng.randint(-180, 180), rng.randint(-85, 85), 0]]), w=rng.choice([1, 1, .5, 60, 3600]), debug=rng.random() < .3, movers=movers, ops=ops)
