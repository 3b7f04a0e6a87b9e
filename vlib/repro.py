"""Runs the same model in several processes, with different hash seeds and different histories, and compares what it did."""
import atexit
import json
import os
import random
import re
import select
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if __name__ == "__main__": sys.path[0] = os.path.dirname(HERE)
from vlib import core  # noqa: E402

HASHES = ["0", "1", "2", "3"]
_SERVERS = {}


# ------------------------------------------------------------------ servers (one process per hash seed and worker)
def _server(h):
    p = _SERVERS.get(h)
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=h, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=str(core.REPO))
        p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(HERE, "repro.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, env=env, cwd=os.path.dirname(HERE))
        _SERVERS[h] = p
    return p


def _kill():
    for p in _SERVERS.values():
        p.kill()
    _SERVERS.clear()


atexit.register(_kill)


def execute(p):
    ks = p["seeds"]
    ev, rec = [], core.Rec()
    n = 0
    try:
        for r in p["runs"]:
            srv = _server(HASHES[r["h"]])
            srv.stdin.write((json.dumps(dict(p, run=r, runs=None)) + "\n").encode())
            srv.stdin.flush()
            line = srv.stdout.readline()
            if not line: raise RuntimeError("a run ended its process")
            a = json.loads(line)
            rec.add("begin", k=r["k"] + 1, hash=r["h"], how=r["how"], pre=r["pre"], exc="")
            for e in a: rec.add(e.pop("op"), **e)
            rec.add("end", exc="")
    except BaseException:
        _kill()
        raise
    ev = rec.ev
    most = max([0] + [sum(e["op"] in ("wait", "own") for e in ev)])
    stream = []
    for k in ks:
        g = random.Random(k)
        stream.append([int(g.random() * 2**20) for _ in range(most + 1)])
    return {"cfg": dict(stream=stream), "ev": ev}


# ------------------------------------------------------------------ inside a server
ADDR = re.compile(r"0x[0-9a-f]+|(?<=ID )\d+|\d{12,}-")


def norm(x):
    return ADDR.sub("0x", x if isinstance(x, str) else repr(x))[:400]


class Out:
    def __init__(self): self.ev, self.n, self.live = [], 0, True

    def line(self, *xs):
        t = " ".join(norm(x) for x in xs)
        self.n += 1
        if self.live and self.n > 300: raise ValueError("too long")
        if self.ev and self.ev[-1]["op"] == "lines" and len(self.ev[-1]["txts"]) < 40: self.ev[-1]["txts"].append(t)
        else: self.ev.append(dict(op="lines", txts=[t], exc=""))

    def draw(self, op, v, glob): self.ev.append(dict(op=op, v=v, glob=glob, exc=""))


def one(q):
    r, out = q["run"], Out()
    for n in range(r["pre"]):        # earlier simulations in this process
        run_model(_PRE[n % len(_PRE)], 5 + n, "seed", Out(), random.Random(n))
    if q["kind"] == "drv":
        import importlib
        mod = importlib.import_module(q["mod"])
        try:
            tr = mod.execute(q["prog"])
            for e in tr["ev"]: out.line(json.dumps(e, sort_keys=True, default=repr))
        except Exception as e:
            out.line("failed", type(e).__name__, str(e))
    else:
        run_model(q, q["seeds"][r["k"]], r["how"], out, random.Random(r["h"] * 7 + r["pre"]))
    return out.ev


def run_model(q, seed, how, out, junk):
    import upstage_des.api as UP
    kw = dict(random_seed=seed) if how == "seed" else dict(random_gen=random.Random(seed))
    if how == "both": kw["random_seed"] = seed + 1     # the seed does not count when a generator is given
    with UP.EnvironmentContext(**kw) as env:
        try:
            (ops_model if q["kind"] == "ops" else mix_model)(q, UP, env, out, junk)
        except Exception as e:
            out.line("failed", type(e).__name__, str(e))


def rwait(UP, out, lo, hi, junk):
    before = random.getstate()
    w = UP.Wait.from_random_uniform(lo, hi)
    d = w.calculate_time_to_complete()
    out.draw("wait", int((d - lo) / (hi - lo) * 2**20), random.getstate() != before)
    return w


def own(UP, out):
    out.draw("own", int(UP.get_stage().random.random() * 2**20), False)


def noise(out, junk):
    random.seed(junk.random())
    out.ev.append(dict(op="noise", exc=""))


NETS = ["gamma", "alpha"]


def ops_model(q, UP, env, out, junk):
    class A(UP.Actor):
        x = UP.State(default=0)

    class Idle(UP.Task):
        def task(self, *, actor):
            yield UP.Wait(1000000)

        def on_interrupt(self, *, actor, cause):
            out.line("told", env.now, self._net)
            return self.INTERRUPT.IGNORE

    a = A(name="a")
    nuc = UP.TaskNetworkNucleus(actor=a)
    names = q["names"]
    for n in names:
        cls = type("Idle" + n, (Idle,), {"_net": n})
        a.add_task_network(UP.TaskNetworkFactory.from_single_looping(n, cls).make_network())
        a.start_network_loop(n, "Idle" + n)
    on = []

    def proc():
        for i, o in enumerate(q["ops"]):
            if o == "wait":
                w = rwait(UP, out, 1, 3, junk)
                yield w.as_event()
            elif o == "own": own(UP, out)
            elif o == "noise": noise(out, junk)
            elif o in ("watch1", "watch2"):
                n = names[int(o[-1]) - 1]
                if n not in on: on.append(n)
                nuc.add_network(n, ["x"])
            elif o == "unwatch1":
                if names[0] in on: on.remove(names[0]); nuc.remove_network(names[0])
            elif o == "change":
                a.x = i + 1
                yield UP.Wait(.5).as_event()
            elif o == "both": out.line("both", env.now, len(on))
    env.process(proc())
    env.run(until=500)
    out.line("end", env.now)


def mix_model(q, UP, env, out, junk):
    import simpy
    from upstage_des.data_utils import create_location_table, create_table, get_recorded_data, record_data
    UP.add_stage_variable("time_unit", "min")

    class Base(UP.Actor, entity_groups=q["groups"]):
        a = UP.LinearChangingState(default=0.0, recording=True)
        b = UP.LinearChangingState(default=0.0, recording=True)
        c = UP.LinearChangingState(default=1.0)
        loc = UP.CartesianLocationChangingState(recording=True)
        p = UP.State(default=0, recording=True)
        q = UP.State(default="", recording=True, recording_functions=[(lambda t, v: len(str(v)), "q_len")])
        m1 = UP.State(default=0, recording=True)
        m2 = UP.State(default=0, recording=True)
        kv = UP.DictionaryState(valid_types=(int, float), recording=True)
        st = UP.ResourceState(default=UP.SelfMonitoringStore)
        tank = UP.ResourceState(default=UP.SelfMonitoringContainer)

    classes = [type(n, (Base,), {}, entity_groups=g) for n, g in q["classes"]]
    acts = []
    evs = [UP.Event() for _ in range(2)]
    cont = UP.SelfMonitoringContinuousContainer(env, capacity=100, init=50, error_empty=False, error_full=False, name="cc")
    reserve = UP.SelfMonitoringReserveContainer(env, capacity=10, init=5, name="rc")
    sfs = UP.SelfMonitoringSortedFilterStore(env, name="sfs")

    def task_of(spec):
        nm, instrs, onint = spec

        class T(UP.Task):
            def task(self, *, actor):
                for ins in instrs:
                    k, v = ins[0], ins[1:]
                    out.line(env.now, actor.name, nm, k)
                    try:
                        if k == "wait": yield UP.Wait(v[0])
                        elif k == "rwait": yield rwait(UP, out, v[0], v[1], junk)
                        elif k == "own": own(UP, out)
                        elif k == "noise": noise(out, junk)
                        elif k == "set": setattr(actor, v[0], v[1])
                        elif k == "act":
                            for s in v[0]:
                                if s not in [x for x, d in actor._active_states.items() if d]: actor.activate_linear_state(state=s, rate=v[1], task=self)
                        elif k == "move":
                            if not actor._active_states.get("loc"): actor.activate_location_state(state="loc", speed=1.0, waypoints=[UP.CartesianLocation(*w) for w in v[0]], task=self)
                        elif k == "deact": actor.deactivate_all_states(task=self)
                        elif k == "mimic":
                            for mine, theirs in v[1]:
                                if mine not in actor._mimic_states: actor.activate_mimic_state(self_state=mine, mimic_state=theirs, mimic_actor=acts[v[0] % len(acts)], task=self)
                        elif k == "demimic": actor.deactivate_all_mimic_states(task=self)
                        elif k == "look": out.line([getattr(actor, s) for s in v[0]])
                        elif k == "kv": actor.kv[v[0]] = v[1]
                        elif k == "put": yield UP.Put(acts[v[0] % len(acts)].st, v[1])
                        elif k == "get":
                            g = UP.Get(acts[v[0] % len(acts)].st)
                            t = UP.Wait(v[1])
                            yield UP.Any(g, t)
                            if g.is_complete(): out.line("got", g.get_value())
                            else: g.cancel()
                            if not t.is_complete(): t.cancel()
                        elif k == "tank": yield UP.Put(acts[v[0] % len(acts)].tank, v[1])
                        elif k == "sput": yield UP.Put(sfs, v[0])
                        elif k == "sget":
                            g = UP.FilterGet(sfs, filter=lambda x: True) if False else sfs.get(filter=lambda x: x >= 0, sorter=lambda x: (x % 3,))
                            t = env.timeout(v[0])
                            yield UP.Any(UP.Wait(v[0]), UP.Wait(v[0] + 1))
                            if g.triggered: out.line("sorted", g.value)
                            else: g.cancel()
                        elif k == "all": yield UP.All(*[UP.Wait(x) for x in v[0]])
                        elif k == "any": yield UP.Any(*[UP.Wait(x) for x in v[0]])
                        elif k == "succ":
                            try: evs[v[0]].succeed(by=actor.name)
                            except UP.SimulationError: out.line("already")
                        elif k == "await":
                            t = UP.Wait(v[1])
                            yield UP.Any(evs[v[0]], t)
                            out.line(evs[v[0]].get_payload())
                            if not t.is_complete(): t.cancel()
                        elif k == "know": actor.set_knowledge(v[0], v[1], overwrite=True)
                        elif k == "data": record_data((actor.name, nm))
                        elif k == "flow": cont.put(rate=v[0], time=v[1]) if v[2] else cont.get(rate=v[0], time=v[1])
                        elif k == "groups": out.line(list(UP.UpstageBase().get_all_entity_groups()))
                        elif k == "stop":
                            for n in list(actor._task_networks):
                                if n != self._network_name: actor.interrupt_network(n, cause=nm)
                    except RuntimeError as e:
                        if str(e).startswith("generator"): raise
                        out.line("cannot", str(e))
                yield UP.Wait(.25)

            def on_interrupt(self, *, actor, cause):
                out.line(env.now, actor.name, nm, "interrupted", cause)
                return {"ignore": self.INTERRUPT.IGNORE, "end": self.INTERRUPT.END, "restart": self.INTERRUPT.RESTART}[onint]
        T.__name__ = T.__qualname__ = nm
        return T
    for i, ac in enumerate(q["actors"]):
        a = classes[ac["cls"] % len(classes)](name=ac["name"], debug_log=True, loc=UP.CartesianLocation(0, i, 0), kv={})
        acts.append(a)
    for a, ac in zip(acts, q["actors"]):
        nuc = UP.TaskNetworkNucleus(actor=a)
        for net, tasks in ac["nets"]:
            cl = {t[0]: task_of(t) for t in tasks}
            names = [t[0] for t in tasks]
            links = {n: UP.TaskLinks(default=names[(j + 1) % len(names)], allowed=names) for j, n in enumerate(names)}
            a.add_task_network(UP.TaskNetworkFactory(net, cl, links).make_network())
        for net, states in ac["watch"]: nuc.add_network(net, states)
        for net, tasks in ac["nets"]: a.start_network_loop(net, tasks[0][0])
    try: run_ops(q, UP, env, out, acts, reserve)
    except (simpy.Interrupt, Exception) as e:
        out.live = False
        out.line("failed", type(e).__name__, str(e))
    out.live = False
    b = UP.UpstageBase()
    out.line("groups", [(g, [x.name for x in m]) for g, m in b.get_all_entity_groups().items()])
    for a in acts:
        for x in a.get_log(): out.line(x)
        out.line(sorted(a._state_histories))
        out.line({k: v for k, v in a._knowledge.items()})
        out.line([x for x in a._active_states if a._active_states[x]])
    for t in (create_table(skip_locations=False, save_static=False)[0], create_location_table()[0]):
        for row in t: out.line(row)
    for x in (cont, reserve, sfs): out.line(x._quantities)
    out.line([x for x in UP.get_stage() if x != "random"])


def run_ops(q, UP, env, out, acts, reserve):
    for t, i, what, v in q["ops"]:
        if t > env.now: env.run(until=t)
        a = acts[i % len(acts)]
        if what == "set":
            try: setattr(a, v[0], v[1])
            except RuntimeError as e: out.line("cannot", str(e))
        elif what == "look": out.line(env.now, [getattr(a, s) for s in v])
        elif what == "interrupt": a.interrupt_network(v, cause="ops") if v in a._task_networks else None
        elif what == "reserve": out.line(reserve.reserve(a, v[0], expiration=v[1]), reserve.available)
    env.run(until=q["until"])


_PRE = []


# ------------------------------------------------------------------ programs
WORDS = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa", "lam", "mu", "nu", "xi", "omi", "pi", "rho"]


def runs_of(rng, seeds):
    """Every seed in several processes, fresh or not, with the seed or a generator."""
    rs = []
    for h in rng.sample(range(4), 3):
        k = 0 if len(seeds) == 1 else rng.randrange(len(seeds))
        rs.append(dict(h=h, k=k, how=rng.choice(["seed", "gen", "both"]), pre=rng.choice([0, 0, 1, 2])))
    for k in range(len(seeds)):
        if sum(r["k"] == k for r in rs) < 2: rs += [dict(h=h, k=k, how=rng.choice(["seed", "gen"]), pre=0) for h in rng.sample(range(4), 2)]
    return rs


def mix_program(rng, big=False):
    lins, plain = ["a", "b", "c"], ["p", "q", "m1", "m2"]

    def t(): return rng.choice([.25, .5, .5, 1, 1, 2, 3])

    def instr():
        k = rng.choice(["wait", "wait", "rwait", "rwait", "own", "noise", "set", "act", "act", "move", "deact", "deact", "mimic", "mimic", "demimic", "look", "kv", "put", "get",
                        "tank", "sput", "sget", "all", "any", "succ", "await", "know", "data", "flow", "groups", "stop"])
        if k == "wait": return [k, t()]
        if k == "rwait":
            lo = rng.choice([0, .5, 1]); return [k, lo, lo + rng.choice([.5, 1, 3])]
        if k == "set": return [k, rng.choice(["p", "q"]), rng.randint(0, 9)]
        if k == "act": return [k, rng.sample(lins, rng.randint(1, 3)), rng.choice([1, 2, -1])]
        if k == "move": return [k, [[rng.randint(-9, 9), rng.randint(1, 9), 0] for _ in range(rng.randint(1, 3))]]
        if k == "mimic": return [k, rng.randrange(5), [list(x) for x in zip(rng.sample(["m1", "m2"], rng.randint(1, 2)), rng.sample(["p", "a", "q", "b"], 2))]]
        if k == "look": return [k, rng.sample(lins + plain, rng.randint(1, 3))]
        if k == "kv": return [k, rng.choice(WORDS), rng.randint(0, 9)]
        if k in ("put", "tank"): return [k, rng.randrange(5), rng.randint(1, 9)]
        if k == "get": return [k, rng.randrange(5), t()]
        if k in ("sput",): return [k, rng.randint(0, 9)]
        if k == "sget": return [k, t()]
        if k in ("all", "any"): return [k, [t() for _ in range(rng.randint(1, 3))]]
        if k == "succ": return [k, rng.randrange(2)]
        if k == "await": return [k, rng.randrange(2), t()]
        if k == "know": return [k, rng.choice(WORDS), rng.randint(0, 9)]
        if k == "flow": return [k, rng.randint(1, 5), t(), rng.random() < .5]
        return [k]
    classes = [[n.capitalize(), rng.sample(WORDS, rng.randint(0, 3))] for n in rng.sample(WORDS, rng.randint(1, 3))]
    actors = []
    for n in rng.sample(WORDS, rng.randint(1, 4)):
        names = rng.sample(WORDS, 16)
        nets = []
        for _ in range(rng.randint(1, 4)):
            nets.append([names.pop(), [[names.pop().capitalize(), [instr() for _ in range(rng.randint(1, 5))], rng.choice(["ignore", "end", "restart"])] for _ in range(rng.randint(1, 2))]])
        watch = [[x[0], rng.sample(["p", "q", "a", "b", "m1"], rng.randint(1, 3))] for x in nets if rng.random() < .7]
        rng.shuffle(watch)
        actors.append(dict(cls=rng.randrange(3), name=n, nets=nets, watch=watch))
    ops, now = [], 0
    for _ in range(rng.randint(0, 6)):
        now += t()
        i = rng.randrange(5)
        k = rng.choice(["set", "set", "look", "interrupt", "reserve"])
        v = [rng.choice(["p", "q", "a"]), rng.randint(0, 9)] if k == "set" else rng.sample(lins + plain + ["loc"], 2) if k == "look" else \
            rng.choice([x[0] for x in rng.choice(actors)["nets"]]) if k == "interrupt" else [rng.randint(1, 4), t()]
        ops.append([now, i, k, v])
    seeds = [rng.randrange(1000)] + ([rng.randrange(1000)] if rng.random() < .2 else [])
    return dict(kind="mix", groups=rng.sample(WORDS, rng.randint(0, 3)), classes=classes, actors=actors, ops=ops, until=now + rng.choice([3, 6, 12]),
                seeds=seeds, runs=runs_of(rng, seeds))


def ops_program(rng, ops):
    seeds = [rng.randrange(1000)] + ([rng.randrange(1000)] if rng.random() < .2 else [])
    return dict(kind="ops", names=rng.sample(WORDS, 2), ops=ops, seeds=seeds, runs=runs_of(rng, seeds))


def drv_program(rng, mod, prog):
    rs = [dict(h=h, k=0, how="seed", pre=rng.choice([0, 0, 1])) for h in rng.sample(range(4), 3)]
    return dict(kind="drv", mod=mod, prog=prog, seeds=[1], runs=rs)


def _serve():
    core.setup_path()
    core.quiet()
    sys.unraisablehook = lambda *a: None
    sink = os.fdopen(os.dup(1), "w")
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    g = random.Random(11)
    _PRE.extend(mix_program(g) for _ in range(3))
    for line in sys.stdin:
        a = one(json.loads(line))
        sink.write(json.dumps(a) + "\n")
        sink.flush()


if __name__ == "__main__":
    _serve()
