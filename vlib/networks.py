"""Driver for the task networks of actors (specification Networks.tla)."""
from vlib.core import Rec

T = 4       # the specification's clock is in quarters


def execute(p):
    import upstage_des.api as UP
    rec = Rec()
    with UP.EnvironmentContext() as env:
        log = {}                               # network object -> what began since the last operation
        objs, meta = [], []                    # in order of being added

        def task(fac, i, d):
            def run(self, *, actor):
                log.setdefault(id(self._network_ref), []).append([i, rec.num(env.now, T)])
                yield UP.Wait(d / T)
            return type(f"T{fac}_{i}", (UP.Task,), dict(task=run, on_interrupt=lambda self, *, actor, cause: self.INTERRUPT.END))

        class A(UP.Actor):
            pass
        actors = [A(name=f"a{i}") for i in range(p["nact"])]
        facs = []
        for j, f in enumerate(p["facs"]):
            ts = [task(j, i + 1, d) for i, d in enumerate(f["dur"])]
            F, nm = UP.TaskNetworkFactory, f["name"]
            if f["kind"] == "loop": x = F.from_ordered_loop(nm, ts)
            elif f["kind"] == "term": x = F.from_ordered_terminating(nm, ts)
            elif f["kind"] == "sloop": x = F.from_single_looping(nm, ts[0])
            elif f["kind"] == "sterm": x = F.from_single_terminating(nm, ts[0])
            else:
                names = [t.__name__ for t in ts]
                x = F(nm, dict(zip(names, ts)), {n: UP.TaskLinks(default=names[(i + 1) % len(names)], allowed=list(names)) for i, n in enumerate(names)})
            facs.append(x)
        names = sorted({f["name"] + x for f in p["facs"] for x in ("", "_1", "_2")} | {"X"})
        known = {}                             # (actor, name) -> index of the network the driver added last
        tname = lambda o, i: f"T{meta[o]['f']}_{i}"

        def pos(o, n):
            pre, _, i = n.rpartition("_")
            return int(i) if pre == f"T{meta[o]['f']}" and i.isdigit() else -1

        def settle():
            while env.peek() <= env.now: env.step()

        def add(op, exc="", **f):
            says, qs, rs = [], [], []
            for a, act in enumerate(actors):
                allq, allr = act.get_all_task_queues(), act.get_running_tasks()
                qs.append(sorted(allq)); rs.append(sorted(allr))
                for n in names:
                    o = known.get((a, n))
                    has = act.has_task_network(n)
                    v = dict(a=a + 1, n=n, has=bool(has), q=[], nxt=-1, run="ERR")
                    try: r = act.get_running_task(n)
                    except UP.UpstageError: pass
                    else:
                        v["run"] = "NONE" if r is None else ("END" if pos(o, r.name) == -1 else str(pos(o, r.name))) if o is not None else r.name
                        if (n in allr) != (r is not None): rec.note_bad("the queries for running tasks differ")
                        elif r is not None and (allr[n].name != r.name or allr[n].process is not r.process or not r.process.is_alive): rec.note_bad("the queries for running tasks differ")
                    if has and o is not None:
                        v["q"] = [pos(o, x) for x in act.get_task_queue(n)]
                        x = act.get_next_task(n)
                        v["nxt"] = -1 if x is None else pos(o, x)
                        if n in allq and [pos(o, x) for x in allq[n]] != v["q"]: rec.note_bad("the queries for queues differ")
                    says.append(v)
            rec.add(op, exc=exc, t=rec.num(env.now, T), says=says, qs=qs, rs=rs, log=[log.pop(id(x), []) for x in objs], **f)
            if log: rec.note_bad("a task of an unknown network began")

        def attempt(fn):
            try: return "", fn()
            except Exception as e: return type(e).__name__, None

        for o in p["ops"]:
            op, a, n = o["op"], o["a"] - 1, o["n"]
            if op == "tick":
                x, _ = attempt(lambda: env.run(until=env.now + o["d"] / T) or settle())
                add("tick", x, a=1, n="")
                if x: break
                continue
            act, i = actors[a], known.get((a, n))
            live = i is not None and act.has_task_network(n)
            run = act.get_running_task(n) if live else None
            at = -1 if run is None else pos(i, run.name)
            if op == "suggest":
                n = p["facs"][o["f"] - 1]["name"]
                x, r = attempt(lambda: act.suggest_network_name(facs[o["f"] - 1]))
                add(op, x, a=a + 1, n=n, r=str(r))
                if x or not o.get("add"): continue
                op, n = "add", str(r)
                if n not in names: names.append(n)
                i = known.get((a, n)); live = i is not None and act.has_task_network(n)
            if op == "add":
                # a network that was deleted while it ran keeps its name's queue busy
                if i is not None and not live and meta[i]["on"] and not (objs[i]._current_task_name or "").endswith(("_FINAL", "_TERMINATING")): continue
                fac = facs[o["f"] - 1]
                net = fac.make_network() if n == p["facs"][o["f"] - 1]["name"] and o["f"] % 2 else fac.make_network(n)
                x, _ = attempt(lambda: act.add_task_network(net))
                if not x:
                    known[(a, n)] = len(objs)
                    objs.append(net); meta.append(dict(f=o["f"] - 1, on=False))
                add(op, x, a=a + 1, n=n, f=o["f"])
                continue
            if i is not None: spec = p["facs"][meta[i]["f"]]
            if op == "delete":
                x, _ = attempt(lambda: act.delete_task_network(n))
                f = {}
            elif op == "start":
                if live and meta[i]["on"]: continue
                k = (o["p"] - 1) % len(spec["dur"]) + 1 if i is not None else 1
                x, _ = attempt(lambda: act.start_network_loop(n, tname(i, k) if i is not None else "T"))
                if not x:
                    y, _ = attempt(settle)
                    x = x or y
                    if live: meta[i]["on"] = True
                f = dict(p=k)
            elif op == "setq":
                if not live or (meta[i]["on"] and at == -1): continue
                m, full = len(spec["dur"]), spec["kind"] == "full"
                q, c = [], at if at > 0 else 0
                for k in o["q"]:
                    if full: c = (k - 1) % m + 1
                    elif at <= 0 and not q: c = (k - 1) % m + 1
                    elif c < m: c += 1
                    elif spec["kind"] in ("loop", "sloop"): c = 1
                    else: break
                    q.append(c)
                if not q: continue
                mine = [tname(i, k) for k in q]
                x, _ = attempt(lambda: act.set_task_queue(n, mine))
                mine.clear()
                f = dict(q=q)
            elif op == "clearq":
                if not live: continue
                x, _ = attempt(lambda: act.clear_task_queue(n))
                f = {}
            elif op == "interrupt":
                if live and meta[i]["on"] and at == -1: continue           # a terminal task
                x, _ = attempt(lambda: act.interrupt_network(n, cause=o.get("c")))
                if not x:
                    y, _ = attempt(settle)
                    x = x or y
                f = {}
            else: raise ValueError(op)
            add(op, x, a=a + 1, n=n, **f)
    return {"spec": "Networks", "cfg": dict(facs=[dict(kind=f["kind"], dur=f["dur"]) for f in p["facs"]]), "ev": rec.ev}


def concrete(g):
    return dict(nact=1, facs=[dict(name="N", kind="loop", dur=[1, 2]), dict(name="N_1", kind="sterm", dur=[2])],
                ops=g["ops"] + [dict(op="tick", a=1, n="", d=3)])


def random_program(rng, long=False):
    nact = rng.choice([1, 1, 2])
    facs = []
    for nm in rng.sample(["N", "N_1", "N_2", "M", ""], rng.randint(1, 3)):
        k = rng.choice(["loop", "term", "sloop", "sterm", "full", "full"])
        facs.append(dict(name=nm, kind=k, dur=[rng.randint(1, 5) for _ in range(1 if k in ("sloop", "sterm") else rng.randint(1, 4))]))
    base = [f["name"] for f in facs]
    pool = base * 3 + [b + "_1" for b in base] * 2 + [b + "_2" for b in base] + ["X"]
    ops, likely = [], []
    for _ in range(rng.randint(6, 40 if long else 22)):
        op = rng.choices(["add", "suggest", "delete", "start", "setq", "clearq", "interrupt", "tick"], [4, 4, 1.5, 5, 4, 1, 4, 6])[0]
        o = dict(op=op, a=rng.randint(1, nact), n=rng.choice(pool))
        if op == "add": likely.append((o["a"], o["n"]))
        elif likely and op not in ("suggest", "tick") and rng.random() < 0.75: o["a"], o["n"] = rng.choice(likely)
        if op in ("add", "suggest"): o["f"] = rng.randint(1, len(facs))
        if op == "suggest": o["add"] = rng.random() < 0.7
        if op == "start": o["p"] = rng.randint(1, 4)
        if op == "setq": o["q"] = [rng.randint(1, 4) for _ in range(rng.randint(1, 4))]
        if op == "interrupt": o["c"] = rng.choice([None, "x"])
        if op == "tick": o["d"] = rng.choice([1, 1, 2, 3, 5, 8])
        ops.append(o)
    return dict(nact=nact, facs=facs, ops=ops)
