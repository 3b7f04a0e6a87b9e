"""Writes MANIFEST.json from the property modules that exist (props/cNN.py)."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parents[1]
props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines() if x.strip()]
NA = {}
BASE = ("TLC explores the TLA+ specification {spec} exhaustively within the bounds in its MC configuration; recorded runs of the real code "
        "(operation histories written by TLC and seeded random programs) are replayed through the same specification by TLC, one event per step. "
        "Bounded: only the histories run are judged; trusts TLC, simpy and the Python driver that records.")
checks, na = [], []
import re
for p in props:
    i = p["id"]
    f = ROOT / "props" / f"{i.lower()}.py"
    if i in NA or not f.exists():
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
        continue
    spec = re.search(r'SPEC\s*=.*?"(\w+)"\s*$', f.read_text(), re.M)
    src = f.read_text()
    m = re.search(r'PROP, SPEC = "\w+", "(\w+)"', src) or re.search(r'SPEC = "(\w+)"', src)
    note = re.search(r'NOTE = "([^"]*)"', src)
    checks.append(dict(property=i, quick_cmd=f"./check.py {i} quick", thorough_cmd=f"./check.py {i} thorough",
                       evidence_file=f"evidence/{i}.json",
                       technique="explicit TLA+ specification, TLC model checking, replay of generated histories and TLC trace validation of the real code",
                       level="model_checking",
                       level_note=BASE.format(spec=m.group(1)) + (" " + note.group(1) if note else "")))
man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
           notes="No hooks are needed: the drivers use the public API and record from outside. fix: commits in /repo repair defects found (known_findings.json).")
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not applicable")
