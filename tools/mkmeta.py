#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (kept in step)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS, NOT_APPLICABLE, NOTES

with open(f"{ROOT}/properties.jsonl", "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        assert len(p["title"]) <= 80, p["id"]
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(d) + "\n")
checks = []
for p in PROPS:
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bin/check {p['id']} quick",
        "thorough_cmd": f"bin/check {p['id']} thorough",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["level_note"],
    })
m = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "hooks": {"guard": "DAW_SIM_HOOKS", "enable": "no hook was needed: every seam is taken at compiler instrumentation, libc and operator new, so /repo is compiled as shipped", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
    "notes": NOTES,
}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
print(len(PROPS), "claimed,", len(NOT_APPLICABLE), "not applicable")

# tables of DESIGN.md
import glob, re
d = open(f"{ROOT}/DESIGN.md").read()
rows = "| bug | needs | breaks | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
    j = json.load(open(f))
    rows += f"| {os.path.basename(os.path.dirname(f))} | {j['needs']} | {j['what_it_breaks']} | {j.get('caught_by', j['property'])} |\n"
fx = "| property | commit | what failed |\n|---|---|---|\n"
for l in open(f"{ROOT}/known_findings.txt"):
    g = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if g:
        fx += f"| {g[1]} | {g[2]} | {g[3]} |\n"
def put(d, tag, body):
    return re.sub(rf"<!-- {tag} -->.*?<!-- /{tag} -->", lambda m: f"<!-- {tag} -->\n{body}<!-- /{tag} -->", d, flags=re.S)
d = put(put(d, "seeds", rows), "fixes", fx)
open(f"{ROOT}/DESIGN.md", "w").write(d)
