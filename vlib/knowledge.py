"""Driver for actor knowledge (specification Knowledge.tla)."""
from vlib.core import Rec

NAMES = ["x", "y", "z", "u", "some longer name"]


class Obj:
    def __eq__(self, o): return isinstance(o, Obj)      # equal to any other: identity must be kept
    def __hash__(self): return 1


def execute(p):
    import upstage_des.api as UP
    rec = Rec()
    names, nact = p["names"], p["nact"]
    with UP.EnvironmentContext() as env:
        table = {0: None}
        pool = [0, "", [], {}, False, 1, True, "text", [1, 2], (), 1.0]

        def val(v):
            if v not in table: table[v] = Obj() if v % 3 == 2 else [v] if v % 3 == 1 else pool[v % len(pool)]
            return table[v]

        def vid(o):
            for k, x in table.items():
                if x is o: return k
            rec.note_bad(f"unknown value {o!r}"[:100])
            return -5

        class A(UP.Actor):
            st = UP.State(default=0)

        class T(UP.Task):
            def task(self, *, actor):
                yield UP.Wait(1)

        init = p.get("init", [{} for _ in range(nact)])
        actors = [A(name=f"a{i}", debug_log=p.get("debug", False), initial_knowledge={n: val(v) for n, v in init[i].items()} or None) for i in range(nact)]
        task = T()
        events = []

        def attempt(f):
            try:
                return "", f()
            except Exception as e:
                return type(e).__name__, None

        for o in p["ops"]:
            op, a, via = o["op"], actors[o["a"] - 1], o.get("task", False)
            f = dict(a=o["a"])
            if op == "set":
                f.update(n=o["n"], v=o["v"], ow=o["ow"])
                v = val(o["v"])
                x, _ = attempt(lambda: task.set_actor_knowledge(a, o["n"], v, o["ow"]) if via else a.set_knowledge(o["n"], v, overwrite=o["ow"]))
            elif op == "clear":
                f.update(n=o["n"])
                x, _ = attempt(lambda: task.clear_actor_knowledge(a, o["n"]) if via else a.clear_knowledge(o["n"]))
            elif op == "get":
                f.update(n=o["n"], must=o["must"])
                x, r = attempt(lambda: task.get_actor_knowledge(a, o["n"], o["must"]) if via else a.get_knowledge(o["n"], o["must"]))
                f["v"] = vid(r) if not x else 0
            elif op == "getclear":
                f.update(n=o["n"])
                x, r = attempt(lambda: task.get_and_clear_actor_knowledge(a, o["n"]) if via else a.get_and_clear_knowledge(o["n"]))
                f["v"] = vid(r) if not x else 0
            elif op == "bset":
                d = {q["n"]: val(q["v"]) for q in o["ps"]}
                f.update(ps=o["ps"], ow=o["ow"])
                x, _ = attempt(lambda: task.set_actor_bulk_knowledge(a, d, o["ow"]) if via else a.set_bulk_knowledge(d, o["ow"]))
            elif op == "bclear":
                f.update(ns=o["ns"])
                x, _ = attempt(lambda: task.clear_actor_bulk_knowledge(a, list(o["ns"])) if via else a.clear_bulk_knowledge(list(o["ns"])))
            elif op == "bget":
                f.update(ns=o["ns"], must=o["must"])
                x, r = attempt(lambda: task.get_actor_bulk_knowledge(a, list(o["ns"]), o["must"]) if via else a.get_bulk_knowledge(list(o["ns"]), o["must"]))
                f["vs"] = [dict(n=n, v=vid(q)) for n, q in r.items()] if not x else []
            elif op == "bgetclear":
                f.update(ns=o["ns"])
                x, r = attempt(lambda: task.get_and_clear_actor_bulk_knowledge(a, list(o["ns"])) if via else a.get_and_clear_bulk_knowledge(list(o["ns"])))
                f["vs"] = [dict(n=n, v=vid(q)) for n, q in r.items()] if not x else []
            elif op == "kevent":
                f.update(n=o["n"], v=o["v"])
                x, r = attempt(lambda: a.create_knowledge_event(name=o["n"]))
                if not x:
                    table[o["v"]] = r
                    events.append((o["v"], r))
            elif op == "event":
                f.update(v=o["v"])
                x = ""
                table[o["v"]] = UP.Event()
                events.append((o["v"], table[o["v"]]))
            elif op == "ksucc":
                f.update(n=o["n"])
                x, _ = attempt(lambda: a.succeed_knowledge_event(name=o["n"], pay=3))
            else:
                raise ValueError(op)
            env.run(until=env.now + 1)
            fired = []
            for v, e in events:
                if e.is_complete():
                    fired.append(v)
                    if e.get_payload() != {"pay": 3}: rec.note_bad("wrong payload")
            has = []
            for b in actors:
                h = {}
                for n in names:
                    try:
                        b.get_knowledge(n, must_exist=True)
                        h[n] = True
                    except UP.SimulationError:
                        h[n] = False
                has.append(h)
            rec.add(op, exc=x, all=[{n: vid(b.get_knowledge(n)) for n in names} for b in actors], has=has, fired=fired, **f)
    return {"spec": "Knowledge", "cfg": dict(init=[{n: init[i].get(n, -1) for n in names} for i in range(nact)]), "ev": rec.ev}


def random_program(rng, long=False):
    nact = rng.choice([1, 2, 2])
    names = NAMES[:rng.randint(2, 5)]
    vals = list(range(0, 12))
    ops, ev = [], 100
    some = lambda: rng.sample(names, rng.randint(1, len(names)))
    for _ in range(rng.randint(5, 40 if long else 22)):
        op = rng.choice(["set"] * 4 + ["clear", "get", "getclear", "bset", "bset", "bclear", "bget", "bgetclear", "kevent", "kevent", "ksucc", "ksucc", "event"])
        o = dict(op=op, a=rng.randint(1, nact), task=rng.random() < 0.5)
        n = rng.choice(names)
        if op == "set": o.update(n=n, v=rng.choice(vals + [x for x in range(100, ev) if any(q.get("v") == x and q["op"] == "event" for q in ops)]), ow=rng.random() < 0.4)
        elif op in ("clear", "getclear", "ksucc"): o.update(n=n)
        elif op == "get": o.update(n=n, must=rng.random() < 0.5)
        elif op == "bset": o.update(ps=[dict(n=m, v=rng.choice(vals)) for m in some()], ow=rng.random() < 0.5)
        elif op in ("bclear", "bgetclear"): o.update(ns=some())
        elif op == "bget": o.update(ns=some(), must=rng.random() < 0.5)
        elif op in ("kevent", "event"):
            o.update(n=n, v=ev)
            ev += 1
        ops.append(o)
    init = [{n: rng.choice(vals) for n in names if rng.random() < 0.2} for _ in range(nact)]
    return dict(names=names, nact=nact, ops=ops, init=init, debug=rng.random() < 0.5)
