"""tools/plant.py FILE...: try planted bugs described in python files and keep those that qualify under seeded/.

Each FILE defines ID, PROP, NEEDS, WHAT, EDITS = [(path under src/upstage_des, old, new)], DEMO (python source).
Works in a scratch copy under /tmp; runs the tests and the demo with and without the change, then the property's check.
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile
ROOT = pathlib.Path(__file__).resolve().parents[1]
BASE = subprocess.run("git -C /repo log --format=%h --grep='^fix:' --reverse | head -1", shell=True, capture_output=True, text=True).stdout.strip() + "~1"
PY = "/opt/venv/bin/python"


def run(cmd, cwd, env=None, t=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr


def plant(f, check=True):
    ns = {}
    exec(pathlib.Path(f).read_text(), ns)
    tmp = tempfile.mkdtemp(prefix="plant_")
    repo = tmp + "/repo"
    try:
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        for path, old, new in ns["EDITS"]:
            p = pathlib.Path(repo, "src/upstage_des", path)
            s = p.read_text()
            if s.count(old) != 1: return print(ns["ID"], "EDIT matches", s.count(old), "times:", old[:60])
            p.write_text(s.replace(old, new))
        mine = 0
        for path in {e[0] for e in ns["EDITS"]}:
            f = "src/upstage_des/" + path
            gone = [l[1:] for l in subprocess.run(["git", "-C", repo, "diff", "-U0", f], capture_output=True, text=True).stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
            first = subprocess.run(["git", "-C", repo, "show", BASE + ":" + f], capture_output=True, text=True).stdout.splitlines()
            mine += sum(l not in first for l in gone)
        if mine: return print(ns["ID"], "changes", mine, "lines that the original repository does not have")
        diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
        d = pathlib.Path(tmp, "seed"); d.mkdir()
        (d / "demo.py").write_text(ns["DEMO"])
        (d / "demo.sh").write_text('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(d / "demo.sh", 0o755)
        (d / "patch.diff").write_text(diff)
        (d / "meta.json").write_text(json.dumps(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["WHAT"]), indent=1) + "\n")
        pp = {"PYTHONPATH": repo + "/src"}
        rc0, o0 = run(["bash", str(d / "demo.sh")], "/repo")
        if rc0: return print(ns["ID"], "demo FAILS on unchanged tree", o0[-1500:])
        rc1, o1 = run(["bash", str(d / "demo.sh")], repo, pp)
        if rc1 == 0: return print(ns["ID"], "demo passes with the change")
        rc, o = run([PY, "-m", "pytest", "src/upstage_des", "-q", "-o", "addopts=", "-p", "no:cacheprovider", "-x", "--timeout=300"], repo, pp)
        bad = [l for l in o.splitlines() if l.startswith(("FAILED", "ERROR"))]
        if rc: return print(ns["ID"], "tests fail", bad[:3], o[-300:])
        out = ROOT / "seeded" / ns["ID"]
        if out.exists(): shutil.rmtree(out)
        shutil.copytree(d, out)
        print(ns["ID"], ns["PROP"], "kept; demo says:", o1.strip().splitlines()[-1][:150] if o1.strip() else "")
        if check:
            rc, o = run(["./check.py", ns["PROP"], "quick"], str(ROOT), {"VERIF_REPO": repo, "VERIF_SEED": "1"})
            cl = [l for l in o.splitlines() if l.startswith("clause")]
            print("   check", ns["PROP"], "exit", rc, "CAUGHT" if rc == 1 else "MISSED", cl[:2] or o[-300:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


for f in sys.argv[1:]:
    plant(f)
