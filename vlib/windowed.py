"""Driver for the windowed get (specification Windowed.tla)."""
from vlib.core import Rec


class Stop(BaseException): pass


def execute(p):
    import simpy
    import upstage_des.api as UP
    cfg = p["cfg"]
    rec = Rec()
    limit = p.get("limit", 160)
    with UP.EnvironmentContext() as env:
        def add(op, **f):
            if len(rec.ev) >= limit: raise Stop()
            rec.add(op, t=rec.int(env.now), **f)

        store = (simpy.FilterStore if cfg["par"] >= 0 else simpy.Store)(env)
        store.items.extend(cfg["init"])
        state = dict(win=False, pol=0)

        class A(UP.Actor):
            s = UP.State(default=0)

        class T(UP.Task):
            def task(self, *, actor):
                add("begin")
                state["win"] = True
                kw = dict(timeout=cfg["t"], reset_window=cfg["reset"])
                if cfg["par"] >= 0:
                    f = lambda it: it % 2 == cfg["par"]
                    if p.get("kw"): kw["get_kwargs"] = dict(filter=f)
                    else: kw["get_args"] = (f,)
                r = yield UP.WindowedGet(store, **kw) if hasattr(UP, "WindowedGet") else WG(store, **kw)
                state["win"] = False
                add("result", list=[rec.int(x) for x in r])
                if cfg["gap"]:
                    add("idle")
                    yield UP.Wait(cfg["gap"])
                else: add("end")

            def on_interrupt(self, *, actor, cause):
                if not state["win"]: return self.INTERRUPT.IGNORE
                a = cfg["pol"][state["pol"] % len(cfg["pol"])]
                state["pol"] += 1
                if a != "IGNORE": state["win"] = False
                add("intr", act=a)
                return getattr(self.INTERRUPT, a)

        from upstage_des.routines import WindowedGet as WG
        a = A(name="a")
        net = UP.TaskNetworkFactory.from_single_looping("net", T).make_network()
        a.add_task_network(net)
        a.start_network_loop("net", "T")
        env.step()      # the network's process exists from here on

        def settle():
            while env.peek() <= env.now: env.step()

        def snap(): add("snap", items=[rec.int(i) for i in store.items])

        now = [0]
        try:
            settle() if not p['hist'][0]['at'] else None
            for h in p["hist"] + [dict(at=p["hist"][-1]["at"] + 4, after=True, o=None)]:
                while env.now < h["at"]:
                    settle()
                    snap()
                    nxt = min(env.peek(), h["at"])
                    add("tick", to=rec.int(nxt))
                    if nxt == h["at"]: env.run(until=nxt)
                    else: env.step()
                if h["after"]: settle()
                o = h["o"]
                if o is None: break
                if o["s"] == "put":
                    store.put(o["v"])
                    add("put", v=o["v"])
                else:
                    cause = f"c{len(rec.ev)}"
                    try:
                        a.interrupt_network("net", cause=cause)
                    except Exception as e: rec.note_bad(f"interrupt failed: {e}"[:80])
                    add("intrn", cause=cause)
            settle()
            snap()
        except Stop:
            pass
        except Exception as e:
            rec.add("crash", t=rec.int(env.now), exc=type(e).__name__ + " " + str(e)[:100])
    return {"spec": "Windowed", "cfg": cfg, "ev": rec.ev}


def random_program(rng, long=False):
    par = rng.choice([-1, -1, 0, 1])
    cfg = dict(init=list(range(1, 1 + rng.choice([0, 0, 1, 2, 3]))), par=par, t=rng.choice([0, 1, 1, 2, 2, 3]), reset=rng.random() < 0.5, gap=rng.choice([0, 1, 2]),
               pol=[rng.choice(["END", "RESTART", "IGNORE"]) for _ in range(rng.randint(1, 3))])
    at, hist = 0, []
    for i in range(rng.randint(3, 30 if long else 14)):
        at += rng.choice([0, 0, 0, 1, 1, 1, 2, 3])
        hist.append(dict(at=at, after=rng.random() < 0.4, o=dict(s="put", v=10 + i) if rng.random() < 0.7 else dict(s="intr")))
    # a zero window that is restarted or looped for ever is of no interest
    if cfg["t"] == 0 and cfg["gap"] == 0: cfg["gap"] = 1
    return dict(cfg=cfg, hist=hist, kw=rng.random() < 0.5)
