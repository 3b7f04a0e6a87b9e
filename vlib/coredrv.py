"""Driver for actors, task networks, tasks, routines, events and the nucleus (specification Core.tla)."""
import copy
import warnings

from vlib.core import Rec


class Stop(BaseException):
    pass


class Drv:
    def __init__(self, program):
        import simpy
        import upstage_des.api as UP
        self.UP, self.simpy = UP, simpy
        program = self.p = copy.deepcopy(program)
        self.cfg = program["cfg"]
        self.rec = Rec()
        self.lists = {}
        self.limit = program.get("limit", 260)

    # ------------------------------------------------------------ recording
    def add(self, op, poll=True, **f):
        if poll: self.poll()
        if len(self.rec.ev) >= self.limit: raise Stop()
        self.rec.add(op, t=self.rec.int(self.env.now), **f)

    def complete(self, i):
        k, o, extra = self.objs[i]
        if k == "hold":
            if extra.get("rel"): return True
            return bool(o.is_complete())
        if k == "proc": return o.processed
        return bool(o.is_complete())

    def poll(self):
        for i in range(len(self.objs)):
            if self.objs[i] is None or self.flag[i]: continue
            if not self.objs[i][2].get("live"): continue
            try:
                c = self.complete(i)
            except Exception as e:
                self.rec.note_bad(f"is_complete raised {type(e).__name__}")
                c = False
            if c:
                self.flag[i] = True
                k, o, _ = self.objs[i]
                val = -1
                if k in ("get", "fget"):
                    try:
                        val = self.rec.int(o.get_value())
                    except Exception as e:
                        self.rec.note_bad(f"get_value raised {type(e).__name__}")
                if len(self.rec.ev) >= self.limit: raise Stop()
                self.rec.add("done", t=self.rec.int(self.env.now), o=i + 1, val=val)

    def guard(self, f, *a, **k):
        try:
            f(*a, **k)
            return ""
        except Stop:
            raise
        except Exception as e:
            return type(e).__name__

    # ------------------------------------------------------------ objects
    def new(self, k, py, x=0, v=0, subs=(), ar=True, **extra):
        self.objs.append((k, py, dict(extra, x=x, v=v)))
        self.flag.append(False)
        self.fresh.append(dict(k=k, x=x, v=v, subs=list(subs), ar=ar))
        return len(self.objs)

    def build(self, st, loc):
        """Python event for an expression; returns (event, id, used ids)."""
        UP, k = self.UP, st["s"]
        if k == "wait":
            e = UP.Wait(st["d"])
            i = self.new("wait", e, x=st["d"])
            if "as" in st: loc["named"][st["as"]] = (e, i)
            return e, i, [i]
        if k == "named":
            e, i = loc["named"][st["n"]]
            return e, i, [i]
        if k == "evt":
            e = self.evts[st["e"] - 1]
            return e, st["e"], [st["e"]]
        if k == "kobj":
            return st["py"], st["id"], [st["id"]]
        if k == "get":
            e = UP.Get(self.stores[st["r"] - 1])
            i = self.new("get", e, x=st["r"])
        elif k == "fget":
            e = UP.FilterGet(self.stores[st["r"] - 1], lambda it, par=st["v"]: it % 2 == par)
            i = self.new("fget", e, x=st["r"], v=st["v"])
        elif k == "put":
            self.item += 1
            v = self.item
            e = UP.Put(self.stores[st["r"] - 1], v)
            i = self.new("put", e, x=st["r"], v=v)
        elif k == "cget":
            e = UP.Get(self.conts[st["r"] - 1], st["v"])
            i = self.new("cget", e, x=st["r"], v=st["v"])
        elif k == "cput":
            e = UP.Put(self.conts[st["r"] - 1], st["v"])
            i = self.new("cput", e, x=st["r"], v=st["v"])
        elif k == "hold":
            e = UP.ResourceHold(self.ress[st["r"] - 1])
            i = self.new("hold", e, x=st["r"])
            loc["hold"] = i
        elif k == "rel":
            h = loc["hold"]
            e = self.objs[h - 1][1]
            self.objs[h - 1][2]["rel"] = True
            i = self.new("rel", e, x=self.objs[h - 1][2]["x"], v=h)
            loc["hold"] = 0
        elif k in ("any", "all"):
            parts = [self.build(m, loc) for m in st["m"]]
            e = (UP.Any if k == "any" else UP.All)(*[x[0] for x in parts])
            i = self.new(k, e, subs=[x[1] for x in parts])
            return e, i, [i] + [u for x in parts for u in x[2]]
        else:
            raise ValueError(k)
        if "as" in st: loc["named"][st["as"]] = (e, i)
        return e, i, [i]

    def announce(self, n, o, uses):
        """Record a yield; requests are issued right after."""
        objs, self.fresh = self.fresh, []
        self.add("yield", net=n, o=o, objs=objs, uses=uses)
        ar = lambda u: u > len(self.cfg["evts"]) or self.cfg["evts"][u - 1]
        if any(self.objs[u - 1][0] == "evt" and not ar(u) and self.objs[u - 1][1].is_complete() for u in uses): return   # the yield will be refused
        for u in uses:
            self.objs[u - 1][2]["live"] = True
            # a completed event is armed again by being awaited, if it may be
            if self.objs[u - 1][0] == "evt" and ar(u): self.flag[u - 1] = False

    def shared(self, names):
        """The caller's own list, used again for every equal queue: it must stay the caller's."""
        key = tuple(names)
        mine = self.lists.setdefault(key, list(names))
        if tuple(mine) != key: self.rec.note_bad("the caller's list was changed")
        return mine

    def val(self, k, v):
        if k in ("any", "all"): return -2
        return -1 if v is None else self.rec.int(v)

    # ------------------------------------------------------------ task code
    def events(self, n, steps, loc, inst):
        """A list of steps as a generator of upstage events (used by tasks, routines and clean-ups)."""
        for st in steps:
            k = st["s"]
            if k == "kevt":
                if not self.kset(n["actor"], st["n"]): continue
                if st.get("as"): self.act(dict(s="kalias", actor=n["actor"], n=st["n"], **{"as": st["as"]}), n, inst, loc)
                o = len(self.objs)
                ev, i, uses = self.objs[o - 1][1], o, [o]
            elif k == "rel" and not loc.get("hold"):
                continue
            elif k == "named" and st["n"] not in loc["named"]:
                continue
            elif k == "rout":
                if inst is None: continue
                self.rid += 1
                r = self.Routine(self, n, st, self.rid)
                v = yield r
                self.add("rret", net=n["id"], val=-1 if v is None else self.rec.int(v))
                continue
            elif k == "proc":
                if inst is None: continue
                o = len(self.objs) + 1
                ev = self.env.process(self.child(o, st["d"]))
                i = self.new("proc", ev, x=st["d"])
                uses = [i]
            elif k in ("wait", "named", "evt", "get", "fget", "put", "cget", "cput", "hold", "rel", "any", "all"):
                ev, i, uses = self.build(st, loc)
            else:
                self.act(st, n, inst, loc)
                continue
            self.announce(n["id"], i, uses)
            v = yield ev
            self.add("resume", net=n["id"], o=i, val=self.val(self.objs[i - 1][0], v))

    def child(self, o, d):
        try:
            yield self.env.timeout(d)
        except self.simpy.Interrupt:
            self.add("pintr", o=o)
        return 7

    def act(self, st, n, inst, loc):
        """A step that takes no time.  n: network record or None (driver), inst: task instance or None."""
        UP, k, g = self.UP, st["s"], self.guard
        me = n["id"] if n else 0
        if k == "act":
            if inst is None: return
            a = n["actor"]
            exc = g(self.actors[a - 1].activate_linear_state, state="ab"[st["i"] - 1], rate=st["rate"], task=inst)
            self.add("act", net=me, actor=a, i=st["i"], rate=st["rate"], exc=exc)
        elif k == "deact":
            if inst is None: return
            a = n["actor"]
            exc = g(self.actors[a - 1].deactivate_state, state="ab"[st["i"] - 1], task=inst)
            self.add("deact", net=me, actor=a, i=st["i"], exc=exc)
        elif k == "mimic":
            if inst is None or len(self.actors) < 2: return
            a = n["actor"]
            of = a % len(self.actors) + 1
            exc = g(self.actors[a - 1].activate_mimic_state, self_state="m", mimic_state="a", mimic_actor=self.actors[of - 1], task=inst)
            self.add("mimic", net=me, actor=a, of=of, exc=exc)
        elif k == "unmimic":
            if inst is None: return
            a = n["actor"]
            exc = g(self.actors[a - 1].deactivate_mimic_state, self_state="m", task=inst)
            self.add("unmimic", net=me, actor=a, exc=exc)
        elif k == "mark":
            if inst is None: return
            if st["a"] == "CLEAR":
                inst.clear_marker()
                a, mk = "END", ""
            elif st["a"] == "PLAIN":
                mk = f"x{self.pay}"
                inst.set_marker(mk)
                a = "END"
            else:
                a = st["a"]
                mk = f"m{a}{self.pay}"
                inst.set_marker(mk, getattr(UP.InterruptStates, a))
            self.pay += 1
            self.add("mark", net=me, act=a, mk=mk)
        elif k == "succ":
            e = self.evts[st["e"] - 1]
            self.pay += 1
            p = self.pay
            self.poll()
            exc = g(e.succeed, p=p)
            self.objs[st["e"] - 1][2]["live"] = True
            self.add("succ", poll=False, o=st["e"], pay=p, exc=exc)
        elif k == "reset":
            e = self.evts[st["e"] - 1]
            if not e.is_complete(): return
            self.poll()
            e.reset()
            self.flag[st["e"] - 1] = False
            self.add("reset", o=st["e"])
        elif k == "kset":
            self.kset(st["actor"], st["n"])
        elif k == "kalias":                     # the same event kept under a second name
            v = self.actors[st["actor"] - 1].get_knowledge(st["n"])
            if v is None or self.actors[st["actor"] - 1].get_knowledge(st["as"]) is not None: return
            self.knames.add(st["as"])
            self.actors[st["actor"] - 1].set_knowledge(st["as"], v)
            self.add("kalias", actor=st["actor"], name=st["n"], to=st["actor"], new=st["as"])
        elif k == "ksucc":
            v = self.actors[st["actor"] - 1].get_knowledge(st["n"])
            if v is not None and any(v is x for x in self.ksdone): return
            self.ksdone.append(v)
            self.pay += 1
            p = self.pay
            self.poll()
            exc = g(self.actors[st["actor"] - 1].succeed_knowledge_event, name=st["n"], p=p)
            self.add("ksucc", poll=False, actor=st["actor"], name=st["n"], pay=p, exc=exc)
        elif k == "kclear":
            exc = g(self.actors[st["actor"] - 1].clear_knowledge, st["n"])
            self.add("kclear", actor=st["actor"], name=st["n"], exc=exc)
        elif k == "setw":
            if me and (st["actor"], st["st"], me) in self.watch: return      # a task cannot interrupt itself (documented)
            self.pay += 1
            v = self.pay
            self.poll()
            exc = g(setattr, self.actors[st["actor"] - 1], st["st"], v)
            self.add("setw", poll=False, actor=st["actor"], st=st["st"], cause=f"nuc:{st['st']}:{v}", exc=exc)
        elif k == "nucadd":
            net = self.nets[st["net"] - 1]
            self.nuc[net["actor"] - 1].add_network(net["py"] if st.get("obj") else net["name"], list(st["sts"]))
            for s in st["sts"]: self.watch.add((net["actor"], s, net["id"]))
            self.add("nucadd", actor=net["actor"], net=net["id"], sts=list(st["sts"]))
        elif k == "nucrm":
            net = self.nets[st["net"] - 1]
            exc = g(self.nuc[net["actor"] - 1].remove_network, net["py"] if st.get("obj") else net["name"])
            self.watch = {w for w in self.watch if w[2] != net["id"]}
            self.add("nucrm", net=net["id"], exc=exc)
        elif k == "setq":
            net = self.nets[st["net"] - 1]
            if inst is not None and me == st["net"]: exc = g(inst.set_actor_task_queue, self.actors[net["actor"] - 1], self.shared(st["list"]))
            else: exc = g(self.actors[net["actor"] - 1].set_task_queue, net["name"], self.shared(st["list"]))
            self.add("setq", net=net["id"], list=list(st["list"]), exc=exc)
        elif k == "clearq":
            net = self.nets[st["net"] - 1]
            if inst is not None and me == st["net"]: inst.clear_actor_task_queue(self.actors[net["actor"] - 1])
            else: self.actors[net["actor"] - 1].clear_task_queue(net["name"])
            self.add("clearq", net=net["id"])
        elif k == "intr":
            if me == st["net"]: return
            net = self.nets[st["net"] - 1]
            self.pay += 1
            c = f"c{self.pay}"
            self.poll()
            exc = g(self.actors[net["actor"] - 1].interrupt_network, net["name"], cause=c)
            self.add("intrn", poll=False, net=net["id"], cause=c, exc=exc)
        elif k == "cancel":
            if st["n"] not in loc["named"]: return
            e, i = loc["named"][st["n"]]
            if not self.objs[i - 1][2].get("live") or self.flag[i - 1]: return
            self.poll()
            exc = g(e.cancel)
            self.add("cancel", poll=False, o=i, exc=exc)
        elif k == "xput":
            s = self.stores[st["r"] - 1]
            if len(s.items) >= self.cfg["stores"][st["r"] - 1]["cap"] or s.put_queue: return
            self.item += 1
            self.poll()
            s.put(self.item)
            self.add("xput", poll=False, r=st["r"], v=self.item)
        elif k == "xcput":
            self.poll()
            self.conts[st["r"] - 1].put(st["v"])
            self.add("xcput", poll=False, r=st["r"], v=st["v"])
        elif k == "loop":
            net = self.nets[st["net"] - 1]
            if net["started"]: return
            net["started"] = True
            if st["n"]: self.actors[net["actor"] - 1].start_network_loop(net["name"], st["n"])
            else: self.actors[net["actor"] - 1].start_network_loop(net["name"])
            self.add("loop", net=net["id"], name=st["n"])
        else:
            raise ValueError(k)

    def kset(self, a, name):
        self.poll()
        self.knames.add(name)
        try:
            e = self.actors[a - 1].create_knowledge_event(name=name)
            exc = ""
        except Exception as x:
            exc = type(x).__name__
        if not exc:
            self.objs.append(("evt", e, dict(x=0, v=0, live=True)))
            self.flag.append(False)
        self.add("kset", poll=False, actor=a, name=name, exc=exc)
        return not exc

    # ------------------------------------------------------------ classes
    def task_class(self, n, td):
        UP, d = self.UP, self
        name, kind, pol = td["name"], td["kind"], td["pol"]

        def began(self_, actor):
            # restarted tasks come through here as well
            q = list(actor.get_task_queue(n["name"]))
            if self_.get_actor_next_task(actor) != (q[0] if q else None): d.rec.note_bad("next-task query of the task differs")
            run = name
            if kind != "skip":
                r = actor.get_running_task(n["name"])
                run = r.name if r is not None else ""
            d.add("start", net=n["id"], name=name, q=q, run=run)

        def on_int(self_, *, actor, cause):
            if isinstance(cause, UP.NucleusInterrupt): c = f"nuc:{cause.state_name}:{cause.value}"
            else: c = str(cause)
            m, mt = self_.get_marker(), self_.get_marker_time()
            if (m is None) != (mt is None): d.rec.note_bad("marker and marker time disagree")
            seen = dict(mk=m or "", mkt=-1 if mt is None else d.rec.int(mt))
            if pol:
                i = n["pol"]
                n["pol"] += 1
                a = pol[i % len(pol)]
                d.add("intr", net=n["id"], cause=c, act=a, custom=True, **seen)
                return None if a == "NONE" else getattr(UP.InterruptStates, a)
            r = super(cls, self_).on_interrupt(actor=actor, cause=cause)
            d.add("intr", net=n["id"], cause=c, act=r.name if r is not None else "NONE", custom=False, **seen)
            return r

        if kind in ("decision", "skip"):
            def make_decision(self_, *, actor):
                began(self_, actor)
                for st in td["steps"]: d.act(st, n, self_, dict(named={}))
            cls = type(name, (UP.DecisionTask,), dict(make_decision=make_decision, DO_NOT_HOLD=(kind == "skip")))
        elif kind == "terminal":
            def log_message(self_, *, actor):
                began(self_, actor)
                return "terminal"
            cls = type(name, (UP.TerminalTask,), dict(log_message=log_message))
        else:
            def task(self_, *, actor):
                began(self_, actor)
                loc = dict(named={})
                yield from d.events(n, td["steps"], loc, self_)
                d.add("end", net=n["id"])
            cls = type(name, (UP.Task,), dict(task=task, on_interrupt=on_int))
        return cls

    # ------------------------------------------------------------ run
    def setup(self):
        UP, simpy, cfg, d = self.UP, self.simpy, self.cfg, self

        class CoreActor(UP.Actor):
            a = UP.LinearChangingState(default=0.0, recording=True)
            b = UP.LinearChangingState(default=0.0)
            m = UP.State(default=0.0, recording=True)
            w1 = UP.State(default=0)
            w2 = UP.State(default=0, recording=True)

        class R(UP.Routine):
            def __init__(self, drv, n, st, rid):
                super().__init__()
                self.d, self.n, self.st, self.rid = drv, n, st, rid

            def run(self):
                self.d.add("rstart", net=self.n["id"], rid=self.rid)
                yield from self.d.events(self.n, self.st["steps"], dict(named={}), None)
                r = self.st["ret"]
                self.d.add("rend", net=self.n["id"], rid=self.rid, val=r)
                if r != -1: return r

            def cancel(self):
                self.d.add("rcancel", net=self.n["id"], rid=self.rid)
                yield from self.d.events(self.n, self.st["cancel"], dict(named={}), None)
                self.d.add("rcend", net=self.n["id"])

        self.Routine = R
        self.objs, self.flag, self.fresh = [], [], []
        self.item, self.pay, self.rid, self.watch, self.knames, self.ksdone = 100, 0, 0, set(), set(), []
        self.actors = [CoreActor(name=f"actor{i}") for i in range(cfg["nact"])]
        self.nuc = [UP.TaskNetworkNucleus(actor=a) for a in self.actors] if self.p.get("nuc") else []
        self.stores = []
        for s in cfg["stores"]:
            c = simpy.FilterStore if self.p.get("filter") else simpy.Store
            st = c(self.env) if s["cap"] >= 1000 else c(self.env, capacity=s["cap"])
            st.items.extend(s["items"])
            self.stores.append(st)
        self.conts = [simpy.Container(self.env, init=l) for l in cfg["conts"]]
        self.ress = [simpy.Resource(self.env, capacity=c) for c in cfg["ress"]]
        self.evts = [UP.Event(auto_reset=ar) for ar in cfg["evts"]]
        for e in self.evts:
            self.objs.append(("evt", e, dict(x=0, v=0, live=True)))
            self.flag.append(False)
        self.nets = []
        for i, nd in enumerate(cfg["nets"], 1):
            n = dict(id=i, name=nd["name"], actor=nd["actor"], pol=0, started=False)
            tds = [t for t in self.p["tasks"] if t["net"] == i]
            classes = {t["name"]: self.task_class(n, t) for t in tds}
            links = {t["name"]: UP.TaskLinks(default=t["dflt"] or None, allowed=list(t["allowed"])) for t in tds if t["kind"] != "terminal"}
            how = nd.get("factory")
            if how:
                order = [classes[t["name"]] for t in tds if not t.get("made")]
                f = getattr(UP.TaskNetworkFactory, "from_" + how)("fact", order[0] if how.startswith("single") else order)
                n["py"] = f.make_network(nd["name"])
                # the factory's own terminal task, made to report its start
                ends = [k for k, c in n["py"].task_classes.items() if c is UP.TerminalTask]
                for t in tds:
                    if t.get("made"):
                        new = ends[0] if len(ends) == 1 else "no single terminal task"
                        for u in tds:
                            u["dflt"] = new if u["dflt"] == t["name"] else u["dflt"]
                            u["allowed"] = [new if x == t["name"] else x for x in u["allowed"]]
                        t["name"] = new
                        n["py"].task_classes[new] = self.task_class(n, t)
            else:
                n["py"] = UP.TaskNetworkFactory("fact", classes, links).make_network(nd["name"])
            self.actors[nd["actor"] - 1].add_task_network(n["py"])
            if nd["q"]: self.actors[nd["actor"] - 1].set_task_queue(nd["name"], self.shared(nd["q"]))
            self.nets.append(n)

    def snap(self):
        rec = self.rec
        self.poll()
        # a queued put that belongs to no pending Put of a task is an item on its way back
        waiting = {x[2]["v"] for i, x in enumerate(self.objs) if x[0] == "put" and x[2].get("live") and not self.flag[i]}
        stores = []
        for s in self.stores:
            stores.append(dict(items=[rec.int(i) for i in s.items], limbo=[rec.int(p.item) for p in s.put_queue if p.item not in waiting]))
        objs = []
        for i, x in enumerate(self.objs):
            k, o, ex = x
            r = dict(c=0, pay=0, gv=-1)
            if ex.get("live"):
                try:
                    r["c"] = 1 if self.complete(i) else 0
                except Exception as e:
                    rec.note_bad(f"is_complete raised {type(e).__name__}")
                if k == "evt":
                    r["pay"] = rec.int(o.get_payload().get("p", 0))
                if k in ("get", "fget"):
                    try:
                        r["gv"] = rec.int(o.get_value())
                    except self.UP.SimulationError:
                        r["gv"] = -1
                    except Exception:
                        r["gv"] = -99
            objs.append(r)
        acts = []
        for a in self.actors:
            acts.append(dict(a=rec.int(a.a), b=rec.int(a.b), m=rec.int(a.m), know=[k for k in sorted(self.knames) if a.get_knowledge(k) is not None]))
        nets = []
        for n in self.nets:
            a = self.actors[n["actor"] - 1]
            q = list(a.get_task_queue(n["name"]))
            if a.get_all_task_queues()[n["name"]] != q: rec.note_bad("queue queries differ")
            r = a.get_running_task(n["name"])
            rs = a.get_running_tasks()
            if (r is None) != (n["name"] not in rs) or (r is not None and rs[n["name"]].process is not r.process): rec.note_bad("running-task queries differ")
            nets.append(dict(q=q, nxt=a.get_next_task(n["name"]) or "", run=r.name if r is not None and r.process.is_alive else ""))
        self.add("snap", poll=False, stores=stores, conts=[rec.int(c.level) for c in self.conts], ress=[r.count for r in self.ress],
                 objs=objs, acts=acts, nets=nets)

    def settle(self):
        while self.env.peek() <= self.env.now:
            self.env.step()
            self.poll()

    def tick(self, to):
        self.snap()
        self.rec.add("tick", t=self.rec.int(self.env.now), to=self.rec.int(to))

    def run(self):
        warnings.simplefilter("ignore")
        with self.UP.EnvironmentContext() as env:
            self.env = env
            self.setup()
            if self.p.get("refs"): pass
            try:
                for item in self.p["sched"]:
                    target = env.now + item["dt"]
                    try:
                        while env.now < target:
                            self.settle()
                            nxt = env.peek()
                            if nxt < target:
                                self.tick(nxt)
                                env.step()
                                self.poll()
                            else:
                                self.tick(target)
                                env.run(until=target)
                        if item.get("after"): self.settle()
                    except Stop:
                        raise
                    except Exception as e:
                        self.add("crash", poll=False, exc=type(e).__name__, why="cancel" if "failed to cancel" in str(e) else "", msg=str(e)[:160])
                        break
                    for o in item["ops"]: self.act(o, None, None, dict(named={}))
                else:
                    try:
                        self.settle()
                        self.snap()
                    except Stop:
                        raise
                    except Exception as e:
                        self.add("crash", poll=False, exc=type(e).__name__, why="cancel" if "failed to cancel" in str(e) else "", msg=str(e)[:160])
            except Stop:
                pass
        cfg = dict(self.cfg, tasks=[{k: t[k] for k in ("net", "name", "dflt", "allowed", "kind")} for t in self.p["tasks"]])
        return {"cfg": cfg, "ev": self.rec.ev, "spec": "Core"}


def execute(program):
    return Drv(program).run()
