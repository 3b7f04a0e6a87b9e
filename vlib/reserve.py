"""Driver for reservable containers (specification Reserve.tla)."""
from vlib.core import Rec


class Who:
    def __init__(self, i): self.i = i


def requester(flavour, i, cache):
    if flavour == "obj": return cache.setdefault(i, Who(i))
    if flavour == "str": return "".join(["r", str(i)])          # equal, never identical
    if flavour == "tuple": return tuple(["r", i])
    return i


def execute(program):
    import upstage_des.api as UP
    from upstage_des.resources.monitoring import SelfMonitoringReserveContainer
    cfg = program["cfg"]
    rec = Rec()
    with UP.EnvironmentContext() as env:
        cls = SelfMonitoringReserveContainer if cfg["mon"] else UP.ReserveContainer
        c = cls(env, init=cfg["init"], capacity=cfg["cap"])
        cache = {}
        fl = program.get("flavour", "obj")

        def back(x):
            if fl == "obj": return x.i
            if fl == "str": return int(x[1:])
            if fl == "tuple": return x[1]
            return x

        for o in program["ops"]:
            ok, amt = True, 0
            op = o["op"]
            if op == "reserve":
                r = requester(fl, o["who"], cache)
                if o["exp"] == -1: ok = c.reserve(r, o["q"])
                elif program.get("kwexp"): ok = c.reserve(r, o["q"], expiration=o["exp"])
                else: ok = c.reserve(r, o["q"], o["exp"])
            elif op == "cancel":
                ok = c.cancel_request(requester(fl, o["who"], cache))
            elif op == "take":
                try:
                    amt = c.take(requester(fl, o["who"], cache))
                except ValueError:
                    ok = False
            elif op == "put":
                try:
                    if o["incr"]: c.put(o["q"], capacity_increase=True)
                    else: c.put(o["q"])
                except ValueError:
                    ok = False
            elif op == "settle":
                while env.peek() <= env.now: env.step()
            elif op == "advance":
                env.run(until=env.now + o["dt"])
            if not isinstance(ok, bool): rec.note_bad(f"result {ok!r}")
            f = dict(ok=bool(ok), amt=rec.int(amt), avail=rec.int(c.available), remaining=rec.int(c.remaining),
                     queued=[back(x) for x in c.queued],
                     rec=[[rec.int(t), rec.int(q)] for t, q in c._quantities] if cfg["mon"] else [])
            rec.add(op, **{k: v for k, v in o.items() if k != "op"}, **f)
    return {"cfg": cfg, "ev": rec.ev, "spec": "Reserve"}


def random_program(rng, mon, long=False):
    n = rng.randint(8, 60 if long else 30)
    cap = rng.choice([2, 4, 8, 20])
    nw = rng.choice([1, 2, 3, 5])
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.38:
            ops.append(dict(op="reserve", who=rng.randint(1, nw), q=rng.randint(0 if rng.random() < .1 else 1, max(1, cap // 2)),
                            exp=rng.choice([-1, -1, 0, 1, 1, 2, 3, 5])))
        elif r < 0.52: ops.append(dict(op="take", who=rng.randint(1, nw)))
        elif r < 0.64: ops.append(dict(op="cancel", who=rng.randint(1, nw)))
        elif r < 0.76: ops.append(dict(op="put", q=rng.randint(1, cap), incr=rng.random() < 0.1))
        elif r < 0.86: ops.append(dict(op="settle"))
        else: ops.append(dict(op="advance", dt=rng.randint(1, 3)))
    ops += [dict(op="settle"), dict(op="advance", dt=6), dict(op="settle")]
    return dict(cfg=dict(init=rng.randint(0, cap), cap=cap, mon=rng.random() < mon), ops=ops,
                flavour=rng.choice(["obj", "str", "tuple", "int"]), kwexp=rng.random() < 0.5)


def from_generated(rng, gen, n, mon):
    progs = [p for _, p in gen]
    if len(progs) > n: progs = rng.sample(progs, n)
    return [dict(p, cfg=dict(p["cfg"], mon=rng.random() < mon), flavour=rng.choice(["obj", "str", "tuple", "int"]), kwexp=rng.random() < 0.5,
                 ops=p["ops"] + [dict(op="advance", dt=1), dict(op="settle"), dict(op="advance", dt=3)]) for p in progs]
