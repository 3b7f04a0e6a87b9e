"""Driver for continuous containers (specification ContCont.tla)."""
from vlib.core import Rec

K = 1000


def execute(program):
    import upstage_des.api as UP
    from upstage_des.resources.container import ContinuousContainer
    from upstage_des.resources.monitoring import SelfMonitoringContinuousContainer
    cfg = program["cfg"]
    rec = Rec()
    with UP.EnvironmentContext() as env:
        cls = SelfMonitoringContinuousContainer if cfg["mon"] else ContinuousContainer
        kw = {}
        if not (cfg["errE"] and program.get("defaults")): kw["error_empty"] = cfg["errE"]
        if not (cfg["errF"] and program.get("defaults")): kw["error_full"] = cfg["errF"]
        c = cls(env, cfg["cap"], init=cfg["init"], **kw)
        users, cbs, ends = {}, {}, []

        def R(x):
            # recorded to the nearest 1/1000
            try:
                y = x * K
                assert y == y and abs(y) < 2**30
                return int(round(y))
            except Exception:
                rec.note_bad(f"number {x!r}")
                return -999999

        def P(x):
            return -1000000 if x == float("inf") else R(x)

        def start(o):
            uid = o["uid"]
            cbs[uid] = 0

            def cb():
                cbs[uid] += 1
            dur = float("inf") if o["dur"] == -1 else o["dur"]
            f = c.put if o["rate"] > 0 else c.get
            ev = f(abs(o["rate"]), dur, [cb])
            users[uid] = ev
            ev.process.callbacks.append(lambda e: ends.append([uid, R(env.now)]))

        n = 0
        for o in program["ops"]:
            exc, exct = "", 0
            try:
                if o["dt"]: env.run(until=env.now + o["dt"])
                for b in o["batch"]:
                    if b["op"] == "start": start(b)
                    elif b["uid"] in users: users[b["uid"]].cancel()
                while env.peek() <= env.now: env.step()
            except Exception as e:  # the error configured at the bounds
                exc, exct = type(e).__name__, R(env.now)
            f = dict(exc=exc, exct=exct, ends=[list(x) for x in ends])
            if not exc:
                f["level"] = R(c.level)
                f["rate"] = rec.int(c.rate)
                f["users"] = [dict(alive=users[u].process.is_alive, cb=cbs[u]) for u in sorted(users)]
                f["preds"] = [dict(level=l, extra=x, t=P(c.time_until_level(l, x) if x else c.time_until_level(l))) for l, x in o.get("preds", [])]
                dx = o.get("dextra", 0)
                f["dextra"] = dx
                f["done"] = P(c.time_until_done(dx) if dx else c.time_until_done())
                f["rec"] = [[R(t), R(q)] for t, q in c._quantities] if cfg["mon"] else []
            rec.add("batch", dt=o["dt"], batch=o["batch"], **f)
            n += 1
            if exc: break
    return {"cfg": cfg, "ev": rec.ev, "spec": "ContCont"}


def preds(rng, cap):
    return [[rng.randint(0, cap), rng.choice([0, 0, 1, -1, 2, -3])] for _ in range(rng.randint(0, 2))]


def random_program(rng, mon, long=False):
    cap = rng.choice([4, 6, 10, 24])
    ops, uid = [], 0
    live = []
    for _ in range(rng.randint(3, 14 if long else 9)):
        batch = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            if live and rng.random() < 0.25:
                batch.append(dict(op="cancel", uid=rng.choice(live)))
            elif uid < 7:
                uid += 1
                live.append(uid)
                batch.append(dict(op="start", uid=uid, rate=rng.choice([1, 1, 2, 3, -1, -1, -2, -3]), dur=rng.choice([-1, 1, 2, 3, 4, 6])))
        # a request cancelled in the same batch that starts it is legal too
        ops.append(dict(dt=rng.choice([0, 1, 1, 2, 3, 5]), batch=batch, preds=preds(rng, cap), dextra=rng.choice([0, 0, 0, 1, -1, -4, 5])))
    errs = rng.random() < 0.3
    return dict(cfg=dict(cap=cap, init=rng.randint(0, cap), errE=errs and rng.random() < .6, errF=errs and rng.random() < .6, mon=rng.random() < mon),
                defaults=rng.random() < 0.5, ops=ops)


def from_generated(rng, gen, n, mon):
    progs = [p for _, p in gen]
    if len(progs) > n: progs = rng.sample(progs, n)
    return [dict(p, cfg=dict(p["cfg"], mon=rng.random() < mon, errE=rng.random() < .2, errF=rng.random() < .2), defaults=rng.random() < 0.5,
                 ops=[dict(o, preds=preds(rng, 4)) for o in p["ops"]] + [dict(dt=1, batch=[]), dict(dt=3, batch=[])]) for p in progs]
