"""Driver for sensing by time steps (specification Stepped.tla)."""
import math
import warnings

from vlib.activestates import Frame
from vlib.core import Rec
from vlib.motion import back, turn


def execute(p):
    import upstage_des.api as UP
    from upstage_des.motion import SteppedMotionManager
    rec = Rec()
    u, w, rot = p["u"], p["w"], p["rot"]
    warnings.simplefilter("ignore")

    with UP.EnvironmentContext() as env:
        man = SteppedMotionManager(p["dt"] * w / 1000, max_empty_events=p["max"], debug=p["debug"])
        UP.add_stage_variable("motion_manager", man)

        geo = rot == 5                             # a small flat piece of the globe
        if geo:
            from upstage_des.geography import Spherical
            frame, rad = Frame(*p["world"]), UP.unit_convert(Spherical.EARTH_RADIUS, "m", p["unit"])
            for k, v in dict(stage_model=Spherical, altitude_units="ft", distance_units=p["unit"]).items(): UP.add_stage_variable(k, v)

        def loc(q):
            if geo: return UP.GeodeticLocation(*frame.true(*[math.degrees(q[k] / 1000 * u / rad) for k in (1, 0)]), UP.unit_convert(q[2] / 1000 * u, p["unit"], "ft"))
            return UP.CartesianLocation(*[x * u for x in turn(rot, [y / 1000 for y in q])])

        def tm(t): return rec.int(t / w * 1000)

        def milli(q):
            if geo: return [rec.int(round(math.radians(x) * rad / u * 1000)) for x in frame.back(*q.latlon())[::-1]] + [rec.int(round(UP.unit_convert(q.alt, "ft", p["unit"]) / u * 1000))]
            return [rec.int(round(x * 1000)) for x in back(rot, (q.x / u, q.y / u, q.z / u))]
        calls, sensors, ends, runs = [], [], {}, []

        class Sense:
            """What makes a sensor; `no` is its number."""

            def tell(self, entity, k):
                m = next((i for i, x in enumerate(movers) if x is entity), None)
                if m is None: return rec.note_bad("a sensor is told of something unknown")
                calls.append(dict(t=tm(env.now), s=self.no, m=m + 1, k=k, p=milli(entity.location)))
                if self.busy: env.timeout(self.busy * w / 1000)
                if self.kill and k == 1 and p["movers"][m]["has"]: entity.seen = False

            def entity_entered_range(self, entity): self.tell(entity, 1)

            def entity_exited_range(self, entity): self.tell(entity, 2)

        class Mover(UP.Actor, Sense):
            location = UP.GeodeticLocationChangingState(recording=True) if geo else UP.CartesianLocationChangingState(recording=True)
            reach = UP.State(default=1.0)
            seen = UP.DetectabilityState(default=False)

        class Plain(UP.Actor, Sense):
            location = UP.GeodeticLocationChangingState() if geo else UP.CartesianLocationChangingState()
            reach = UP.State(default=1.0)

        class Thing(Sense):
            def __init__(self, at): self.location, self.reach = at, None

        class Post(Sense):
            def __init__(self, at, r): self.location, self.radius = at, r

        class Checker(Post):
            def detection_checker(self, at): return milli(at)[0] >= self.edge

        class Fly(UP.Task):
            def task(self, *, actor): yield UP.Wait(1.0)
        task = Fly()
        movers = [Thing(loc(m["p"])) if m["kind"] == "thing" else Mover(name=f"mover {i}", location=loc(m["p"]), seen=m["det"]) if m["has"] else Plain(name=f"mover {i}", location=loc(m["p"])) for i, m in enumerate(p["movers"])]

        def add(op, exc="", **f):
            rec.add(op, exc=exc, now=tm(env.now), calls=list(calls), **f)
            calls.clear()

        def stop(m):
            ends.pop(m, None)
            movers[m - 1].deactivate_all_states(task=task)
        add("init")
        endless = False
        for o in p["ops"]:
            op, exc = o["op"], ""
            f = {k: v for k, v in o.items() if k != "op"}
            a = movers[o["m"] - 1] if o.get("m") else None
            kind = p["movers"][o["m"] - 1]["kind"] if o.get("m") else ""
            try:
                if op == "start":
                    if o["m"] in ends or kind == "thing": continue
                    legs = [(x["k"], x["d"]) if isinstance(x, dict) else x for x in o["legs"]]
                    q, pts = milli(a.location), []
                    for k, d in legs:
                        q[k - 1] += d
                        pts.append(loc(q))
                    f["legs"] = [dict(k=k, d=d) for k, d in legs]
                    speed = o["sp"] * u / w
                    if not runs: runs.append(env.now)
                    ends[o["m"]] = env.now + sum(abs(d) for _, d in legs) / o["sp"] / 1000 * w
                    a.activate_location_state(state="location", speed=speed, waypoints=pts, task=task)
                elif op == "stop":
                    if o["m"] not in ends: continue
                    stop(o["m"])
                elif op == "detect":
                    if not p["movers"][o["m"] - 1]["has"]: continue
                    a.seen = o["on"]
                elif op == "register": man.add_detectable(a, "location")
                elif op == "run":
                    runs.append(env.now)
                    man.run()
                elif op == "particular":
                    endless = True
                    man.run_particular(o["rate"] * w / 1000, a)
                elif op == "place":
                    if kind != "thing": continue
                    a.location = loc(o["p"])
                elif op == "radius":
                    if o["s"] > len(sensors): continue
                    s = sensors[o["s"] - 1]
                    if isinstance(s, Post): s.radius = o["r"] * u / 1000
                    else: s.reach = o["r"] * u / 1000
                elif op == "sensor":
                    n, r = len(sensors) + 1, o["r"] * u / 1000
                    if o["m"]:
                        if a in sensors: continue
                        s, a.reach = a, r
                    else:
                        s = (Checker if o["chk"] else Post)(loc(o["c"]), r)
                        s.edge = o["c"][0]
                    f["b"] = o.get("b", 0)
                    s.__dict__["no"], s.__dict__["kill"], s.__dict__["busy"] = n, o["kill"], f["b"]
                    sensors.append(s)
                    if o["m"]: man.add_sensor(s, "reach")
                    else: man.add_sensor(s, "radius", "location")
                elif op == "drain":
                    if endless or (runs[-1:] == [env.now] and runs[0] < env.now): continue      # the second run may end after the step that is due now
                    # as env.run() does, up to the end of the first motion
                    lim = min(ends.values()) if ends else None
                    while env.peek() < (float("inf") if lim is None else lim): env.step()
                    f["lim"] = -1 if lim is None else tm(lim)
                elif op == "advance":
                    to = env.now + o["v"] * w / 1000
                    while ends and min(ends.values()) <= to:
                        m = min(ends, key=lambda x: (ends[x], x))
                        if ends[m] > env.now:
                            v = tm(ends[m]) - tm(env.now)
                            env.run(until=ends[m])
                            add("advance", v=v)
                        stop(m)
                        add("stop", m=m)
                    if to <= env.now: continue
                    f["v"] = tm(to) - tm(env.now)
                    env.run(until=to)
                else: raise AssertionError(op)
            except Exception as e:
                exc = type(e).__name__
                if p.get("raise"): raise
            add(op, exc, **f)
            if exc: break
    return {"cfg": dict(dt=p["dt"], max=p["max"], movers=[{k: m[k] for k in ("p", "det", "has")} for m in p["movers"]]), "ev": rec.ev}


# ------------------------------------------------------------------ programs
def random_program(rng, big=False):
    rot = rng.choice([0, 0, 1, 4, 5])
    nm, dims = rng.randint(1, 4), rng.choice([1, 2, 2, 3] if rot != 5 else [1, 2])

    def num(lo, hi): return 1000 * rng.randint(lo, hi)

    def point(s=6): return [num(-s, s) if k < dims else 0 for k in range(3)]
    movers = []
    for _ in range(nm):
        kind = rng.choice(["mover", "mover", "mover", "thing"])
        has = kind == "mover" and rng.random() < .8
        movers.append(dict(kind=kind, p=point(), det=not has or rng.random() < .75, has=has))
    ops, ns = [], 0

    def clear(r):
        """Not touching any place where something can be at a step."""
        return all(abs(math.hypot(a, math.sqrt(max(0, round((r / 250) ** 2 - a * a)))) * 250 - r) > .3 for a in range(int(r / 250) + 2))

    def radius():
        if rot == 5: return next(x for x in iter(lambda: rng.randint(500, 6000), None) if clear(x))
        return rng.choice([num(1, 5), 5000, rng.randint(500, 6000)])

    def sensor():
        m = rng.randint(1, nm) if rng.random() < .35 else 0
        return dict(op="sensor", m=m, c=point(4), r=radius(), kill=rng.random() < .12, chk=m == 0 and rng.random() < .15, b=rng.choice([0, 0, 125, 375, 1125]))

    def legs():
        if rng.random() < .2: return [[1, num(-40, 40) or 1000]]
        q = [[rng.randint(1, dims), num(-12, 12) or 1000] for _ in range(rng.choice([1, 1, 2, 3]))]
        return q
    head = [sensor() for _ in range(rng.randint(0, 3))]
    if rng.random() < .4: head.append(dict(op="run"))
    head += [dict(op="register", m=i + 1) for i in range(nm) if rng.random() < .5]
    rng.shuffle(head)
    ops += head
    for _ in range(rng.randint(4, 30 if big else 16)):
        m = rng.randint(1, nm)
        k = rng.choice(["start"] * 4 + ["stop", "on", "off", "sensor", "place", "place", "radius", "run", "register", "drain"] + ["particular"] * (rng.random() < .3) + ["advance"] * 7)
        if k == "start": ops.append(dict(op=k, m=m, legs=legs(), sp=rng.choice([1, 1, 2])))
        elif k in ("stop", "register"): ops.append(dict(op=k, m=m))
        elif k in ("on", "off"): ops.append(dict(op="detect", m=m, on=k == "on"))
        elif k == "sensor" and sum(o["op"] == k for o in ops) < 5: ops.append(sensor())
        elif k == "place": ops.append(dict(op=k, m=m, p=point()))
        elif k == "radius": ops.append(dict(op=k, s=rng.randint(1, 4), r=radius()))
        elif k == "particular": ops.append(dict(op=k, m=m, rate=rng.choice([250, 500, 1500])))
        elif k in ("run", "drain"): ops.append(dict(op=k))
        else: ops.append(dict(op="advance", v=rng.choice([500, 1000, 1000, 2000, 3000, 5000, 8000])))
    ops.append(dict(op="advance", v=5000))
    geo = dict(world=rng.choice([[0, 0, 0], [180, 0, 0], [0, 80, 0], [rng.randint(-180, 180), rng.randint(-85, 85), rng.randint(-180, 180)]]), unit=rng.choice(["nmi", "km", "mi"])) if rot == 5 else {}
    return dict(rot=rot, **geo, u=rng.choice([1, .25, 4]) if rot != 5 else .01, w=rng.choice([1, .5, 64]), dt=rng.choice([250, 500, 1000, 1000, 1500]), max=rng.randint(1, 4), debug=rng.random() < .3, movers=movers, ops=ops)
