"""mkseed.py: helper to write a planted bug.  Usage from a script:
   seed(id, prop, needs, breaks, [(file, old, new), ...], demo_cpp, flags)"""
import json, os, subprocess, difflib
V = "/verif/seeded"
REPO = os.environ.get("SEED_REPO", "/repo")
DEMO = """#!/bin/bash
# exit 0: the property holds; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
clang++ -std=c++23 -Iinclude %s -o "$tmp/demo" "$here/demo.cpp" -lpthread || exit 98
cd "$tmp" && timeout 120 ./demo
"""
def seed(id, prop, needs, breaks, edits, demo, flags="-O1 -g"):
    d = f"{V}/{id}"; os.makedirs(d, exist_ok=True)
    out = ""
    byfile = {}
    for f, old, new, *nth in edits: # nth: which occurrence, if there are several
        p = f"include/daw/{f}"
        src = byfile.setdefault(p, open(f"{REPO}/{p}").read())
        if nth:
            parts = src.split(old)
            k = nth[0] + 1
            byfile[p] = old.join(parts[:k]) + new + old.join(parts[k:])
            continue
        assert src.count(old) == 1, (id, f, src.count(old), old)
        byfile[p] = src.replace(old, new)
    for p, new in byfile.items():
        old = open(f"{REPO}/{p}").read()
        out += "diff --git a/%s b/%s\n" % (p, p) + "".join(
            l if l.endswith("\n") else l + "\n\\ No newline at end of file\n" for l in
            difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + p, "b/" + p))
    open(f"{d}/patch.diff", "w").write(out)
    open(f"{d}/demo.cpp", "w").write(demo)
    open(f"{d}/demo.sh", "w").write(DEMO % flags)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    r = subprocess.run(["git", "-C", REPO, "apply", "--check", f"{d}/patch.diff"], capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
