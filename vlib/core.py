"""Shared machinery: run programs on the real code, let TLC judge the recordings, write evidence.

A property module (props/cNN.py) provides

    PROP      property id
    SPEC      name of the specification module (spec/<SPEC>.tla) defining SpecInit_(cfg) and SpecStep_(st, e)
    MC        list of (module, cfg file, kind) exhaustive TLC runs; kind "inv" (check invariants only) or
              "gen" (also print programs to run on the real code, one `PROGRAM <json>` line each)
    programs(rng, tier, generated)  -> list of JSON-able programs
    execute(program) -> {"cfg": {...}, "ev": [ {...}, ... ]}   (runs the real code and records)
"""
from __future__ import annotations

import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import pathlib
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

ROOT = pathlib.Path(__file__).resolve().parents[1]
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
SPECDIR = ROOT / "spec"
EVID = ROOT / "evidence"
BAD = -999999
JARS = "/opt/veriftools/tla/tla2tools.jar"


class Machinery(Exception):
    """Something in the checking machinery (not in the code under test) failed."""


class Hang(BaseException):
    pass


# ----------------------------------------------------------------- recording
class Rec:
    """Collects events.  Every field is coerced to what the specification expects; what cannot be
    coerced becomes a note in `bad`, which the specification always rejects."""

    def __init__(self, scale: int = 1):
        self.ev: list[dict] = []
        self.scale = scale
        self._bad: list[str] = []

    def num(self, x, scale=None) -> int:
        """An exact number as an integer in units of 1/scale."""
        sc = self.scale if scale is None else scale
        try:
            if isinstance(x, bool) or not isinstance(x, (int, float)):
                raise ValueError
            y = x * sc
            if y != y or abs(y) > 2**30:
                raise ValueError
            r = round(y)
            if abs(y - r) > 1e-7:
                raise ValueError
            return int(r)
        except (ValueError, OverflowError, TypeError):
            self._bad.append(f"not an exact number: {x!r}")
            return BAD

    def int(self, x) -> int:
        return self.num(x, 1)

    def str(self, x) -> str:
        if not isinstance(x, str):
            self._bad.append(f"not a string: {x!r}")
            return repr(x)
        return x

    def note_bad(self, msg: str) -> None:
        self._bad.append(msg)

    def add(self, op: str, **fields) -> None:
        e = {"op": op, **fields, "bad": "; ".join(self._bad)[:300]}
        self._bad = []
        self.ev.append(e)


def exc_name(e: BaseException) -> str:
    return type(e).__name__


def quiet():
    warnings.simplefilter("ignore")


# ----------------------------------------------------------------- execution
_MOD = None


def _init_worker(modname: str):
    global _MOD
    import importlib

    sys.path.insert(0, str(ROOT))
    setup_path()
    # a runaway change in the code under test must not take the machine down
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    quiet()
    # generators left suspended by an aborted run complain when collected; that is not evidence of anything
    sys.unraisablehook = lambda *a: None
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    _MOD = importlib.import_module(modname)


def setup_path():
    src = str(REPO / "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    sys.dont_write_bytecode = True


def _alarm(signum, frame):
    raise Hang()


def _exec_one(args):
    idx, program, limit = args
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    devnull = None
    try:
        try:
            tr = _MOD.execute(program)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return idx, tr, None
    except Hang:
        return idx, None, f"no end within {limit} s"
    except RecursionError as e:
        return idx, None, f"RecursionError: {e}"
    except MemoryError:
        return idx, None, "MemoryError"
    except Exception:
        return idx, None, traceback.format_exc()[-1800:]


def execute_all(modname, programs, limit=20.0, workers=8):
    """Returns list of (trace | None, error | None) in order."""
    out = [None] * len(programs)
    if not programs:
        return out
    # spread the load: interleave
    ctx = mp.get_context("fork")
    with ctx.Pool(workers, initializer=_init_worker, initargs=(modname,)) as pool:
        args = [(i, p, limit) for i, p in enumerate(programs)]
        for idx, tr, err in pool.imap_unordered(_exec_one, args, chunksize=max(1, min(32, len(args) // 64))):
            out[idx] = (tr, err)
    return out


# ----------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, workers=8, timeout=800, extra=(), heap="6g"):
    """Run TLC in a scratch copy of spec/ and return (stdout, rc)."""
    tmp = tempfile.mkdtemp(prefix="tlc_")
    try:
        meta = os.path.join(tmp, "meta")
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-Dtlc2.TLC.ide=verif",
               "-cp", classpath(), "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
               "-config", str(cfg), "-deadlock", "-noGenerateSpecTE", *extra, str(SPECDIR / f"{module}.tla")]
        p = subprocess.run(cmd, cwd=str(SPECDIR), env=e, capture_output=True, text=True, timeout=timeout)
        return p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as x:
        so = x.stdout or b""
        raise Machinery(f"TLC timed out on {module}: {so[-1500:]!r}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


_CP = None


def classpath():
    global _CP
    if _CP is None:
        d = pathlib.Path(JARS).parent
        jars = [JARS] + sorted(str(x) for x in d.glob("*.jar") if str(x) != JARS)
        _CP = ":".join(jars)
    return _CP


RE_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")
RE_DEPTH = re.compile(r"depth of the complete state graph search is (\d+)")


def states_of(out):
    m = None
    for m in RE_STATES.finditer(out):
        pass
    if not m:
        return 0, 0
    return int(m.group(1)), int(m.group(2))


def tlc_failed(out, rc):
    return rc != 0 or "Error:" in out


# TLC may wrap a long printed tuple over several lines
RE_VERDICT = re.compile(r'<<\s*"VERDICT",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', re.S)
RE_KNOWN = re.compile(r'<<\s*"KNOWN",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', re.S)


RE_EVAL = re.compile(r"(Overflow when computing[^\n]*|Attempted to [^\n]*|The first argument of [^\n]*|The second argument of [^\n]*|In evaluation,[^\n]*|CHOOSE x \\\\in S[^\n]*|was evaluated[^\n]*|Evaluating [^\n]*)")


def judge(spec, traces, idx, timeout):
    fd, path = tempfile.mkstemp(prefix="traces_", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump([traces[i] for i in idx], f)
        return tlc(f"{spec}Trace", SPECDIR / f"{spec}Trace.cfg", env={"TRACES": path}, timeout=timeout)
    finally:
        os.unlink(path)


def validate(spec, traces, timeout=800, chunk_events=60000):
    """Let TLC judge the traces.  Returns (verdicts {index: (pos, clause)}, known [(index,pos,label)], states, transitions)."""
    verdicts, known = {}, []
    st = tr = 0
    # split so that no single JSON gets too big
    chunks, cur, n = [], [], 0
    for i, t in enumerate(traces):
        cur.append(i)
        n += len(t["ev"]) + 1
        if n > chunk_events or len(cur) >= 5000:  # larger state queues are spilled to disk, which TLC does not survive here
            chunks.append(cur)
            cur, n = [], 0
    if cur:
        chunks.append(cur)
    for ch in chunks:
        out, rc = judge(spec, traces, ch, timeout)
        if tlc_failed(out, rc):
            # The specification can be evaluated on every behaviour it allows.  One trace on which it cannot
            # (a number beyond all bounds, a name it has no entry for) is no such behaviour; find it.
            if not RE_EVAL.search(out):
                raise Machinery(f"TLC failed on {spec}Trace:\n" + out[-4000:])
            part = list(ch)
            while len(part) > 1:
                half = part[:len(part) // 2]
                o2, r2 = judge(spec, traces, half, timeout)
                part = half if tlc_failed(o2, r2) else part[len(part) // 2:]
            o2, r2 = judge(spec, traces, part, timeout)
            if not (tlc_failed(o2, r2) and RE_EVAL.search(o2)):
                raise Machinery(f"TLC failed on {spec}Trace:\n" + out[-4000:])
            verdicts[part[0]] = (max(1, states_of(o2)[1]), "an observation outside everything the specification describes: "
                                 + " ".join(RE_EVAL.search(o2).group(0).split())[:200])
            g, d = states_of(out)
            st += d
            continue
        g, d = states_of(out)
        st += d
        tr += d - len(ch)
        expect = 0
        bad = {}
        for m in RE_VERDICT.finditer(out):
            bad[int(m.group(1))] = (int(m.group(2)), m.group(3))
        for m in RE_KNOWN.finditer(out):
            known.append((ch[int(m.group(1)) - 1], int(m.group(2)), m.group(3)))
        for j, i in enumerate(ch, 1):
            expect += (bad[j][0] if j in bad else len(traces[i]["ev"])) + 1
        if expect != d:
            raise Machinery(f"TLC consumed {d} states of {spec} traces, expected {expect}\n" + out[-1500:])
        for j, v in bad.items():
            verdicts[ch[j - 1]] = v
    return verdicts, known, st, tr


RE_PROG = re.compile(r'^"PROGRAM (.*)"$', re.M)


def run_mc(entry, tier, timeout=800):
    """entry: dict(module, cfg, kind, tiers?, simulate?)"""
    extra = list(entry.get("extra", ()))
    out, rc = tlc(entry["module"], SPECDIR / entry["cfg"], timeout=timeout, extra=extra,
                  workers=entry.get("workers", 8), env=entry.get("env"))
    if tlc_failed(out, rc):
        raise Machinery(f"the specification itself fails in {entry['module']}/{entry['cfg']}:\n" + out[-4000:])
    g, d = states_of(out)
    progs = []
    if entry["kind"] == "gen":
        seen = set()
        for m in RE_PROG.finditer(out):
            s = m.group(1)
            if s not in seen:
                seen.add(s)
                progs.append(json.loads(json.loads('"' + s + '"')))
        if not progs:
            raise Machinery(f"no programs generated by {entry['module']}:\n" + out[-1500:])
        progs.sort(key=lambda p: json.dumps(p, sort_keys=True))
    return g, d, progs, out


# ----------------------------------------------------------------- known findings
def known_findings():
    f = ROOT / "known_findings.json"
    return json.loads(f.read_text()) if f.exists() else []


# ----------------------------------------------------------------- check driver
def run_check(modname, tier=None, replay=None):
    import importlib

    setup_path()
    quiet()
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(modname)
    prop = mod.PROP
    EVID.mkdir(exist_ok=True)

    if replay:
        data = json.loads(pathlib.Path(replay).read_text())
        res = execute_all(modname, [data["program"]], workers=1)
        tr, err = res[0]
        print("execution:", err or "completed")
        if tr:
            for n, e in enumerate(tr["ev"], 1):
                print(n, json.dumps(e))
            v, k, _, _ = validate(mod.SPEC, [tr])
            print("verdict:", v.get(0, "accepted"), "known:", k)
            return 1 if v else 0
        return 1

    rng = random.Random(f"{prop}-{seed}-{tier}")
    mc_info = []
    gen_programs = []
    mc_states = mc_trans = 0
    for entry in getattr(mod, "MC", []):
        if tier not in entry.get("tiers", ("quick", "thorough")):
            continue
        t1 = time.time()
        g, d, progs, _ = run_mc(entry, tier)
        mc_states += d
        mc_trans += g
        info = dict(module=entry["module"], cfg=entry["cfg"], kind=entry["kind"], states=d, generated=g,
                    programs=len(progs), wall_s=round(time.time() - t1, 1))
        mc_info.append(info)
        tag = entry.get("tag")
        for p in progs:
            gen_programs.append((tag, p))
    programs = mod.programs(rng, tier, gen_programs)
    if not programs:
        raise Machinery("no programs")
    t1 = time.time()
    results = execute_all(modname, programs, limit=getattr(mod, "LIMIT", 20.0))
    t_exec = time.time() - t1
    traces, idxs, viol = [], [], []
    for i, (tr, err) in enumerate(results):
        if err is not None:
            viol.append(dict(program=programs[i], pos=None, clause="execution failed: " + err, trace=None, index=i))
        else:
            traces.append(tr)
            idxs.append(i)
    t1 = time.time()
    specs = {}
    for n, tr in enumerate(traces):
        specs.setdefault(tr.get("spec", mod.SPEC), []).append(n)
    verdicts, known = {}, []
    st = trn = 0
    for sp, ns in specs.items():
        v, k, s1, t1_ = validate(sp, [traces[n] for n in ns])
        verdicts.update({ns[a]: b for a, b in v.items()})
        known += [(ns[a], b, c) for a, b, c in k]
        st += s1
        trn += t1_
    t_tlc = time.time() - t1
    for n, (pos, clause) in sorted(verdicts.items()):
        viol.append(dict(program=programs[idxs[n]], pos=pos, clause=clause, trace=traces[n], index=idxs[n]))

    # known findings: the specification labels exactly the deviating step; the label must be listed
    listed = {k["id"]: k for k in known_findings() if k["property"] == prop and k.get("status") == "known"}
    elsewhere = {k["id"] for k in known_findings() if k["property"] != prop and k.get("status") == "known"}
    seen_known = {}
    for n, pos, label in known:
        if label in elsewhere and label not in listed:
            continue        # reported by the check of the property it is listed under
        if label in listed:
            seen_known[label] = seen_known.get(label, 0) + 1
        else:
            viol.append(dict(program=programs[idxs[n]], pos=pos, clause="deviation not listed: " + label,
                             trace=traces[n], index=idxs[n]))
    for label, info in listed.items():
        print(f"KNOWN-FINDING: property={prop} {label}: {info['what']} (seen {seen_known.get(label, 0)} times in this run)")

    # evidence
    ops = {}
    lens = []
    for t in traces:
        lens.append(len(t["ev"]))
        for e in t["ev"]:
            key = e["op"] + (":" + e["exc"] if e.get("exc") not in (None, "") else "")
            ops[key] = ops.get(key, 0) + 1
    distinct = len({json.dumps(p, sort_keys=True) for p in programs})
    samples = []
    if traces:
        for n in sorted({0, len(traces) // 2, len(traces) - 1}):
            samples.append(dict(program=_short(programs[idxs[n]]), events=_short(traces[n]["ev"][:6])))
    cov = dict(states=mc_states + st, transitions=mc_trans + trn,
               traces_validated_against_impl=len(traces), samples=samples,
               mc_runs=mc_info, trace_states=st, programs_run=len(programs), distinct_programs=distinct,
               generated_by_tlc=len(gen_programs), events_by_kind=dict(sorted(ops.items())),
               max_trace_len=max(lens or [0]), exec_s=round(t_exec, 1), tlc_trace_s=round(t_tlc, 1))
    if hasattr(mod, "coverage"):
        cov.update(mod.coverage(traces))
    # vacuity guard: what the driver is meant to exercise must have been exercised
    missing = [k for k in getattr(mod, "MUST", []) if not any(o == k or o.startswith(k + ":") for o in ops)]
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    (EVID / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    if viol:
        shown = sorted(viol, key=lambda v: (v["trace"] is None, len(v["trace"]["ev"]) if v["trace"] else 0))
        clauses = {}
        for v in shown:
            clauses.setdefault(str(v["clause"]).strip().split("\n")[-1 if v["trace"] is None else 0][:160], []).append(v)
        for n, (c, vs) in enumerate(list(clauses.items())[:8]):
            v = vs[0]
            path = EVID / f"replay_{prop}_{n}.json"
            path.write_text(json.dumps(dict(property=prop, clause=v["clause"], pos=v["pos"],
                                            program=v["program"], trace=v["trace"]), indent=1, default=str))
            print(f"clause: {c}  ({len(vs)} traces; step {v['pos']})")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if missing:
        raise Machinery(f"vacuous run: never exercised {missing}")
    print(f"OK {prop} {tier}: model states {mc_states}, programs {len(programs)}, trace states {st}, "
          f"{time.time() - t0:.1f} s (exec {t_exec:.1f}, tlc {t_tlc:.1f})")
    return 0


def _short(x, n=900):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + "..."
