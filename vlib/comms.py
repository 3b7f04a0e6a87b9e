"""Driver for communications (specification Comms.tla)."""
from vlib.core import Rec


def execute(p):
    import simpy
    import upstage_des.api as UP
    from upstage_des.communications.comms import Message, MessageContent, PointToPointCommsManager
    from upstage_des.communications.processes import generate_comms_wait
    from upstage_des.communications.routing import RoutingTableCommsManager
    rec = Rec()
    u = p["u"]              # what one unit of the specification's time is here

    def tm(t): return -1 if t is None else rec.int(t / u)

    with UP.EnvironmentContext() as env:
        sts, mgrs = p["stores"], p["mgrs"]
        hops = []

        class Recording(RoutingTableCommsManager):
            def select_hop(self, source, dest, ignore_nodes=None):
                r = super().select_hop(source, dest, ignore_nodes)
                hops.append(dict(m=managers.index(self) + 1, t=tm(env.now), a=num(source), b=num(dest), bad=sorted({num(x) for x in ignore_nodes or []}), hop=0 if r is None else num(r)))
                return r

        # each actor has its own class, with its communication stores and a plain one
        actors, stores = [], []
        for a in range(p["n"]):
            mine = [s for s in sts if s["a"] == a + 1]
            ns, kw = dict(plain=UP.ResourceState(default=simpy.Store)), {}
            for j, s in enumerate(mine):
                if s["how"] == "plain": continue
                modes = s["modes"][0] if s["how"] == "str" else list(s["modes"])
                ns[f"c{j}"] = UP.CommunicationStore(modes=None if s["how"] == "init" else modes)
                if s["how"] == "init":
                    kw[f"c{j}"] = {"modes": modes}
                    if j % 2: kw[f"c{j}"]["kind"] = UP.SelfMonitoringStore
            actors.append(type(f"Node{a}", (UP.Actor,), ns)(name=f"node {a}", **kw))
        for s in sts:
            j = [q for q in sts if q["a"] == s["a"]].index(s)
            s = dict(s, name="plain" if s["how"] == "plain" else f"c{j}")
            stores.append(s)

        def num(a): return next(i for i, x in enumerate(actors) if x is a) + 1

        def store(s): return getattr(actors[s["a"] - 1], s["name"])
        managers = []
        for i, g in enumerate(mgrs):
            cls = PointToPointCommsManager if g["kind"] == "p" else Recording
            kw = dict(name=f"manager {i}", mode=g["mode"], send_time=g["send"] * u, retry_max_time=g["max"] * u, retry_rate=g["rate"] * u, debug_logging=g["debug"])
            if g["kind"] == "r": kw["global_ignore"] = g["ignore"]
            elif g["conn"]: kw["init_entities"] = [(actors[a - 1], stores[s - 1]["name"]) for a, s in g["conn"]]
            managers.append(cls(**kw))
            managers[-1].run()
        heard = {}
        for i, s in enumerate(stores):
            if s["listen"]:
                heard[i] = []
                generate_comms_wait(store(s), lambda c, q=heard[i]: q.append((env.now, c)))()
        sent = []            # (message, content, number, time made)

        def ident(c):
            """The number of the message with this content."""
            for i, (_, _, body, _) in enumerate(sent):
                if (c.message == body and c.data == {}) if isinstance(body, str) else (c.data is body and c.message is None) if isinstance(body, dict) else c is body: return i + 1
            rec.note_bad("a message's content was changed")
            return 0

        def one(s, it):
            i = ident(it.content)
            if i and sent[i - 1][0] is not it: rec.note_bad("a message is not the one that was sent")
            return dict(id=i, t=-1)

        def observe():
            out = []
            for i, s in enumerate(stores):
                if i in heard:
                    out.append([dict(id=ident(c), t=tm(t)) for t, c in heard[i]] + [one(s, it) for it in store(s).items])
                else: out.append([one(s, it) for it in store(s).items])
            for m, (msg, sender, body, made) in enumerate(sent):
                a, b, mode = p_sent[m]
                if msg.sender is not actors[a - 1] or msg.destination is not actors[b - 1] or msg.mode != mode or msg.time_created != made:
                    rec.note_bad("a message's sender, destination, mode or time of making is wrong")
            if len({m.uid for m, *_ in sent}) != len(sent): rec.note_bad("two messages have the same id")
            log = [[] for _ in sent]
            last = [0] * len(managers)
            for k, g in enumerate(managers):
                for r in g.debug_log:
                    i = next(i for i, q in enumerate(sent) if q[0] is r["message"])
                    if p_mgr[i] != k: rec.note_bad("a message is in another manager's log")
                    log[i].append([tm(r["time"]), num(r["current"]), num(r["destination"])])
                    if r["time"] < last[k]: rec.note_bad("a log is not in the order of time")
                    last[k] = r["time"]
            return dict(st=out, log=log, sent=[tm(m.time_sent) for m, *_ in sent])
        p_sent, p_mgr = [], []

        def add(op, exc="", **f):
            rec.add(op, exc=exc, pick=0, now=tm(env.now), hops=list(hops), **f, **observe())
            hops.clear()

        def sender(put):
            yield put.as_event()
        add("init")
        for n, o in enumerate(p["ops"]):
            op = o["op"]
            f = {k: v for k, v in o.items() if k != "op"}
            exc = ""
            g = managers[o["m"] - 1] if "m" in o else None
            A = actors[o["a"] - 1] if "a" in o else None
            B = actors[o["b"] - 1] if "b" in o else None
            try:
                if op == "send":
                    mode, how = mgrs[o["m"] - 1]["mode"], o["how"]
                    if how == "str": body = arg = f"message {n}"
                    elif how == "dict": body = arg = {"n": n}
                    else: body = arg = MessageContent(data={"n": n}, message=f"m{n}")
                    if how == "message": arg = Message(sender=A, content=body, destination=B, mode=mode, header="h")
                    put = g.make_put(arg, A, B)
                    made = env.now
                    msg = put.put_object
                    sent.append((msg, A, body, made))
                    p_sent.append((o["a"], o["b"], mode))
                    p_mgr.append(o["m"] - 1)
                    if p["direct"]: put.as_event()
                    else: env.process(sender(put))
                elif op == "advance": env.run(until=env.now + o["v"] * u)
                elif op == "degrade": g.comms_degraded = o["on"]
                elif op == "block": g.blocked_links.append((A, B))
                elif op == "unblock":
                    if (A, B) not in g.blocked_links: continue
                    g.blocked_links.remove((A, B))
                elif op == "blocknode": g.blocked_nodes.append(A)
                elif op == "unblocknode":
                    if A not in g.blocked_nodes: continue
                    g.blocked_nodes.remove(A)
                elif op == "clear": g.blocked_nodes, g.blocked_links = [], []
                elif op == "ignore": g.global_ignore = o["on"]
                elif op == "connect": g.connect(A, stores[o["s"] - 1]["name"])
                elif op == "edge": g.connect_nodes(A, B, two_way=o["two"])
                elif op == "declare":
                    w = o["w"]
                    if w == "nomode": type("X", (UP.Actor,), dict(c=UP.CommunicationStore(modes=None)))(name="x")
                    elif w == "nomode2": type("X", (UP.Actor,), dict(c=UP.CommunicationStore(modes=None)))(name="x", c={"kind": simpy.Store})
                    elif w == "container": UP.CommunicationStore(modes="m", valid_types=simpy.Container)
                    elif w == "kind": type("X", (UP.Actor,), dict(c=UP.CommunicationStore(modes="m")))(name="x", c={"kind": simpy.Container})
                    elif w == "good":
                        q = type("X", (UP.Actor,), dict(c=UP.CommunicationStore(modes="m", default=simpy.Store)))(name="x", c={"modes": ["k", "l"]})
                        if type(q.c) is not simpy.Store: rec.note_bad("not the store asked for")
                else: raise AssertionError(op)
            except (UP.SimulationError, UP.UpstageError) as e: exc = type(e).__name__
            add(op, exc, **f)
            if op == "advance" and exc: break
    cfg = dict(stores=[dict(a=s["a"], modes=[] if s["how"] == "plain" else s["modes"]) for s in sts],
               mgrs=[dict(kind=g["kind"], mode=g["mode"], send=g["send"], max=g["max"], rate=g["rate"], ignore=g["ignore"], debug=g["debug"], conn=g["conn"]) for g in mgrs])
    return {"cfg": cfg, "ev": rec.ev}


# ------------------------------------------------------------------ programs
def random_program(rng, kinds="pr", big=False):
    n = rng.randint(2, 4) if kinds == "p" else rng.randint(3, 8 if big else 6)
    modes = ["m1", "m2", "m3"]
    nm = rng.randint(1, 3)
    routed = kinds == "r" or ("r" in kinds and rng.random() < .7)
    stores, mgrs = [], []
    for a in range(1, n + 1):
        left = modes[:]
        if rng.random() < .25: left.remove(rng.choice(left))
        rng.shuffle(left)
        while left:
            k = rng.randint(1, len(left))
            ms, left = left[:k], left[k:]
            stores.append(dict(a=a, modes=ms, how="init" if rng.random() < .3 else "str" if k == 1 and rng.random() < .5 else "list", listen=rng.random() < .2))
        if rng.random() < .6: stores.append(dict(a=a, modes=[], how="plain", listen=rng.random() < .2))
    plain = [i + 1 for i, s in enumerate(stores) if s["how"] == "plain"]
    ops = []
    for i in range(nm):
        kind = "r" if routed and (i == 0 or rng.random() < .5) else "p"
        rate = rng.randint(1, 4)
        mgrs.append(dict(kind=kind, mode=rng.choice(modes), send=rng.choice([1, 2, 3] if kind == "r" else [0, 0, 1, 2, 5]), max=rng.choice([0, rate, 2 * rate, 3 * rate, 2 * rate + rng.randint(0, rate), rng.randint(0, 9)]),
                         rate=rate, ignore=kind == "r" and rng.random() < .4, debug=rng.random() < .6, conn=[]))
        if kind == "p" and plain and rng.random() < .3: mgrs[-1]["conn"] = [(stores[s - 1]["a"], s) for s in rng.sample(plain, rng.randint(1, len(plain)))]
        if kind == "r":
            dens = rng.choice([.25, .4, .6])
            for a in range(1, n + 1):
                for b in range(1, n + 1):
                    if a != b and rng.random() < dens: ops.append(dict(op="edge", m=i + 1, a=a, b=b, two=rng.random() < .3))
    rng.shuffle(ops)
    ops = ops[:24]
    if rng.random() < .2: ops.insert(0, dict(op="declare", w=(w := rng.choice(["nomode", "nomode2", "container", "kind", "good"])), want="" if w == "good" else "UpstageError" if w == "kind" else "SimulationError"))
    on = {}
    for _ in range(rng.randint(5, 40 if big else 20)):
        m = rng.randint(1, nm)
        g = mgrs[m - 1]
        a, b = rng.randint(1, n), rng.randint(1, n)
        k = rng.choice(["send"] * 6 + ["advance"] * 7 + ["block", "block", "unblock", "blocknode", "unblocknode", "degrade", "clear", "rare"])
        if k == "send":
            # to an actor without a store only now and then: it ends the simulation
            if g["mode"] not in {x for s in stores if s["a"] == b for x in s["modes"]} and b not in {c[0] for c in g["conn"]} and rng.random() < .9: continue
            for _ in range(rng.choice([1, 1, 1, 2, 3])): ops.append(dict(op=k, m=m, a=a, b=b, how=rng.choice(["str", "dict", "content", "message"])))
        elif k == "advance": ops.append(dict(op=k, v=rng.choice([1, 1, 2, 3, 5, 8])))
        elif k in ("block", "blocknode"):
            o = dict(op=k, m=m, a=a) | (dict(b=b) if k == "block" else {})
            ops.append(o)
            on.setdefault(m, []).append(o)
        elif k in ("unblock", "unblocknode"):
            c = [o for o in on.get(m, []) if o["op"] == k[2:]]
            if c: ops.append(dict(rng.choice(c), op=k))
        elif k == "degrade": ops.append(dict(op=k, m=m, on=rng.random() < .45))
        elif k == "clear": ops.append(dict(op=k, m=m))
        elif g["kind"] == "r":
            k = rng.choice(["ignore", "edge", "edge", "connect"])
            ops.append(dict(op=k, m=m) | (dict(on=rng.random() < .5) if k == "ignore" else dict(a=a, b=b, two=rng.random() < .3) if k == "edge" else dict(a=a, s=1)))
        elif plain:
            s = rng.choice(plain)
            ops.append(dict(op="connect", m=m, a=stores[s - 1]["a"], s=s))
    ops.append(dict(op="advance", v=rng.choice([1, 10, 60])))
    return dict(direct=rng.random() < .5, u=rng.choice([1, 1, .25, .5, 2]), n=n, stores=stores, mgrs=mgrs, ops=ops)
