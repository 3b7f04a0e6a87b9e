"""Driver for waits with units, the formatted clock and conversions (specification Units.tla)."""
import re
from fractions import Fraction

from vlib.core import Rec

SECS = dict(s=1, second=1, seconds=1, min=60, minute=60, minutes=60, hr=3600, hour=3600, hours=3600, day=86400, days=86400, week=604800, weeks=604800)
TEN = dict(m=10000, km=10000000, mi=16093440, nmi=18520000, ft=3048)
HMS = re.compile(r"^\[Day ([ \d-]{4,}) - (\d\d):(\d\d):(\d\d)\]$")
DAYS = re.compile(r"^\[Day ([ \d-]{4,}) - (\d+(?:\.\d+)?) (.*)\]$")
PLAIN = re.compile(r"^\[(-?\d+(?:\.\d+)?) (.*)\]$")


def execute(p):
    import upstage_des.api as UP
    rec = Rec()

    def frac(x):
        if isinstance(x, bool) or not isinstance(x, (int, float)) or x != x or abs(x) > 1e9:
            rec.note_bad(f"not a time: {x!r}")
            return 0, 1
        f = Fraction(x).limit_denominator(1000)
        if abs(float(f) - x) > 1e-9 * max(1.0, abs(x)): rec.note_bad(f"not close to a simple fraction: {x!r}")
        return f.numerator, f.denominator

    def case(u, c): return u.upper() if c == 1 else u.capitalize() if c == 2 else u

    class A(UP.Actor):
        st = UP.State(default=0)

    for o in p["ops"]:
        op, x = o["op"], ""
        if op == "conv":
            f = dict(vn=o["vn"], vd=o["vd"], on=0, od=1, ten=0, back=[0, 1])
            a, b = case(o["from"], o.get("ca", 0)), case(o["to"], o.get("cb", 0))
            v = o["vn"] / o["vd"] if o["vd"] > 1 else o["vn"]
            fr = Fraction(o["vn"], o["vd"])
            f["vn"], f["vd"] = fr.numerator, fr.denominator
            try:
                r = UP.unit_convert(v, a, b)
                if o["to"] in SECS and o["from"] in SECS: f["on"], f["od"] = frac(r * SECS[o["to"]])
                elif o["to"] in TEN: f["ten"] = int(round(r * TEN[o["to"]]))
                f["back"] = list(frac(UP.unit_convert(r, b, a)))
            except ValueError as e:
                x = type(e).__name__
            rec.add("conv", exc=x, **{"from": o["from"]}, to=o["to"], **f)
            continue
        t0, grow = 0.0, 0
        if op == "clock":
            u = o["su"] or "hr"
            t0 = o["half"] / 2 / SECS[u] if SECS.get(u, 9e9) <= 3600 else o["quarter"] / 4
            if o.get("int") and t0 == int(t0): t0 = int(t0)
            if SECS.get(u, 9e9) <= 3600 and t0 > 0: grow = o.get("grow", 0)
        with UP.EnvironmentContext(initial_time=0.0 if grow else t0) as env:
            if o["su"]: UP.add_stage_variable("time_unit", case(o["su"], o.get("cs", 0)))
            elif o.get("none"): UP.add_stage_variable("time_unit", None)
            if op == "clock":
                if o["daily"]: UP.add_stage_variable("daily_time_count", o["daily"] / 4)
                f = dict(kind="", d=0, h=0, mi=0, sec=0, milli=0)
                if grow:                   # get there in many steps
                    def proc():
                        for _ in range(grow): yield env.timeout(t0 / grow)
                    env.process(proc())
                    env.run()
                try:
                    s = UP.UpstageBase().pretty_now
                    if m := HMS.match(s): f.update(kind="hms", d=int(m[1]), h=int(m[2]), mi=int(m[3]), sec=int(m[4]))
                    elif m := DAYS.match(s):
                        f.update(kind="days", d=int(m[1]), milli=int(round(float(m[2]) * 1000)))
                        if m[3] != case(o["su"], o.get("cs", 0)): rec.note_bad("the unit shown is wrong: " + s)
                    elif m := PLAIN.match(s):
                        f.update(kind="plain", milli=int(round(float(m[1]) * 1000)))
                        if m[2] != case(o["su"], o.get("cs", 0)): rec.note_bad("the unit shown is wrong: " + s)
                    else: rec.note_bad("the clock is no known form: " + s)
                except (ValueError, KeyError, TypeError, UP.UpstageError) as e:
                    x = type(e).__name__
                rec.add("clock", exc=x, su=o["su"], half=o["half"], quarter=o["quarter"], daily=o["daily"], **f)
                continue
            v = o["vn"] / o["vd"] if o["vn"] % o["vd"] else o["vn"] // o["vd"]
            unit = case(o["unit"], o.get("cu", 0)) if o["unit"] else None
            how = o.get("how", "run")
            f = dict(on=0, od=1)

            def mk():
                if how in ("uniform", "uniform-rehearse"): return UP.Wait.from_random_uniform(v, v, timeout_unit=unit)
                return UP.Wait(v, unit) if o.get("pos") else UP.Wait(v, timeout_unit=unit)

            class T(UP.Task):
                def task(self, *, actor):
                    yield mk()
                    actor.st = self.env.now

            try:
                a = A(name="a")
                if how.endswith("rehearse"): now = T().rehearse(actor=a).env.now
                elif how == "multi":
                    class M(UP.Task):
                        def task(self, *, actor):
                            yield UP.Any(mk(), UP.Event())
                    M().run(actor=a)
                    env.run()
                    now = env.now
                else:
                    T().run(actor=a)
                    env.run()
                    now = a.st
                # seconds when stage and wait have units, the bare clock otherwise
                f["on"], f["od"] = frac(now * (SECS.get(o["su"], 1) if unit and o["su"] else 1))
            except ValueError as e:
                x = type(e).__name__
            rec.add("wait", exc=x, su=o["su"], unit=o["unit"], vn=o["vn"], vd=o["vd"], **f)
    return {"spec": "Units", "cfg": {}, "ev": rec.ev}


def random_program(rng, long=False):
    ops = []
    names = list(SECS)
    for _ in range(rng.randint(4, 20 if long else 10)):
        op = rng.choice(["wait", "wait", "clock", "clock", "conv"])
        su = rng.choice(names + ["", "ticks", "clock ticks"])
        if op == "wait":
            vd = rng.choice([1, 2, 4, 5])
            ops.append(dict(op=op, su=su, unit=rng.choice(names * 3 + ["", "", "", "km", "ticks", "fortnight", "ms"]), vn=rng.randint(0, 40), vd=vd, cs=rng.choice([0, 0, 1, 2]), cu=rng.choice([0, 0, 1, 2]),
                            how=rng.choice(["run", "run", "rehearse", "uniform", "uniform-rehearse", "multi"]), pos=rng.random() < 0.5, none=rng.random() < 0.3))
        elif op == "clock":
            sign = rng.choice([1, 1, 1, 1, 1, -1])
            ops.append(dict(op=op, su=su, half=sign * rng.choice([rng.randint(0, 400), rng.randint(0, 200000), rng.randint(0, 40000000)]) * rng.choice([1, 2, 2]), quarter=sign * rng.randint(0, 4000), daily=rng.choice([0, 10, 96, 500, 5]),
                            cs=rng.choice([0, 0, 1, 2]), grow=rng.choice([0, 0, 3, 7, 10]), int=rng.random() < 0.5, none=rng.random() < 0.3))
        else:
            grp = rng.choice([names, names, list(TEN), list(TEN), names + list(TEN) + ["parsec"]])
            ops.append(dict(op=op, **{"from": rng.choice(grp)}, to=rng.choice(grp), vn=rng.randint(0, 30), vd=rng.choice([1, 2, 4]), ca=rng.choice([0, 0, 1, 2]), cb=rng.choice([0, 0, 1, 2])))
    return dict(ops=ops)
