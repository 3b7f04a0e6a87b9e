"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
ROOT = pathlib.Path(__file__).resolve().parents[1]
MISSED = {"c24-empty-steps-add-up", "c28-day-text-truncates"} | set((ROOT / "tools/missed_first.txt").read_text().split())
rows = ["| bug | check | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    r = m["property"] + (" (first missed)" if d.name in MISSED else "")
    rows.append("| %s | %s | %s | %s |" % (d.name, r, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
p = ROOT / "DESIGN.md"
s = p.read_text()
p.write_text(re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda k: k.group(1) + "\n".join(rows) + "\n" + k.group(2), s, flags=re.S))
