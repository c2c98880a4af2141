#!/usr/bin/env python3
"""mutate.py PROP [--max N] [--runs-div D] [--jobs J] [--only-files a,b] [--lines LO-HI] [--out FILE]

Mutation survey: makes small syntactic changes to the files a property is
anchored in (scratch copies of include/ under /tmp/mut), builds the harness
against each and reports the changes no run of the check notices.  A tool for
finding gaps in a harness; not part of any check."""
import os, re, sys, json, glob, random, shutil, subprocess, argparse, hashlib
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
from props import PROPS
ap = argparse.ArgumentParser()
ap.add_argument("prop"); ap.add_argument("--max", type=int, default=150); ap.add_argument("--div", type=int, default=8)
ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--files"); ap.add_argument("--lines"); ap.add_argument("--out")
ap.add_argument("--repo", default="/repo"); ap.add_argument("--list", action="store_true")
A = ap.parse_args()
P = A.prop
files = A.files.split(",") if A.files else [f[len("include/"):] for p in PROPS if p["id"] == P for f in p["anchors"]["files"]]
src = glob.glob(f"{ROOT}/harness/{P}_*.cpp")[0]
text = open(src).read()
def opt(n):
    m = re.search(rf"^// {n}: (.*)$", text, re.M); return m.group(1).split() if m else []
W = f"/tmp/mut/{P}"; shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
base = ["/usr/bin/clang++", "-g1", "-fno-pie", "-Wno-everything", f"-I{ROOT}/sim"]
def run(cmd, t=300, cwd=None):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace", cwd=cwd)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -999, ""
for s, o, f in [("rt_conc.cpp", "rt.o", "-O2"), ("core.cpp", "core.o", "-O2")] + [(e, e + ".o", "-O1") for e in opt("extra")]:
    c, out = run(base + ["-std=c++20", f, "-c", f"{ROOT}/sim/{s}", "-o", f"{W}/{o}"]); assert c == 0, out
common = [f"{W}/{o}" for o in ["rt.o", "core.o"] + [e + ".o" for e in opt("extra")]]
m = re.search(r"(\d{3,}),\s*(\d{3,}),\s*(?:true|false)\s*\}", text); quick = int(m.group(1))
def build_run(inc, d, runs, workers="1"):
    os.makedirs(d, exist_ok=True)
    objs = []
    for s in [src] + [f"{ROOT}/harness/{u}" for u in opt("unit")]:
        o = f"{d}/{os.path.basename(s)}.o"
        c, out = run(base + ["-std=c++23", f"-I{inc}", f"-I{A.repo}/include", f"-I{ROOT}/harness", "-fsanitize=thread", "-include", f"{ROOT}/sim/cas.h", "-O1"] + opt("flags") + ["-c", s, "-o", o])
        if c: return "nocompile", out[-300:]
        objs.append(o)
    c, out = run(["/usr/bin/clang++", "-g1", "-no-pie"] + objs + common + ["-o", f"{d}/sim", "-lpthread"] + opt("link"))
    if c: return "nolink", out[-300:]
    c, out = run([f"{d}/sim", "check", "--seed", "1", "--tier", "quick", "--runs", str(runs), "--workers", workers, "--evidence", f"{d}/e.json", "--replays", d, "--known", f"{ROOT}/known_findings.txt"], 150, d)
    if c == 0: return "SURVIVED", ""
    v = re.findall(r"^(?:violation|VIOLATION).*$", out, re.M)
    return "killed", (v[0] if v else f"rc={c}")
# ---- mutations
def strip(s):
    return re.sub(r"//.*", "", s)
def muts(lines):
    incom = False; depth_pp = False
    for n, l in enumerate(lines):
        c = strip(l).rstrip("\n")
        if "/*" in c: incom = True
        if incom:
            if "*/" in c: incom = False
            continue
        if depth_pp or c.lstrip().startswith("#"):
            depth_pp = c.rstrip().endswith("\\"); continue
        st = c.strip()
        if not st or re.match(r"(static_assert|using|namespace|template|typename|requires|struct|class|friend|public|private|protected|enum|inline constexpr .*_v\b)", st): continue
        def sub(rx, rep, tag):
            for m in re.finditer(rx, c):
                yield n, c[:m.start()] + m.expand(rep) + c[m.end():] + "\n", tag
        R = [(r" == ", " != ", "eq"), (r" != ", " == ", "ne"), (r" < (?!<)", " <= ", "lt"), (r" > (?!>)", " >= ", "gt"), (r" <= ", " < ", "le"), (r" >= ", " > ", "ge"),
             (r"\+\+", "--", "inc"), (r"(?<!-)--(?!-)", "++", "dec"), (r" \+ ", " - ", "add"), (r" - ", " + ", "sub"), (r" \* ", " / ", "mul"),
             (r"\btrue\b", "false", "true"), (r"\bfalse\b", "true", "false"), (r" and ", " or ", "and"), (r" or ", " and ", "or"), (r"\bnot ", "", "not"),
             (r"\bif\( ", "if( true or ", "iftrue"), (r"\bif\( ", "if( false and ", "iffalse"), (r"\bwhile\( ", "while( false and ", "whfalse"),
             (r"memory_order_acquire\b|memory_order::acquire\b", "memory_order_relaxed", "mo"), (r"memory_order_release\b", "memory_order_relaxed", "mo"), (r"memory_order_acq_rel\b", "memory_order_relaxed", "mo"),
             (r"(?:std::move|DAW_MOVE|DAW_FWD)\( ", "( ", "nomove"), (r"\b0(?![\w.x])", "1", "0to1"), (r"\b1(?![\w.])", "2", "1to2"), (r"(?<!\*)\bnullptr\b(?=,? \))", "{}", "np"),
             (r" \+= ", " -= ", "pluseq"), (r" -= ", " += ", "mineq"), (r"std::exchange\( ([\w.>-]+), [^)]*\)", r"\1", "exch"), (r"\?(?!\?)", "? false and true ? throw 1 :", "x") ]
        for rx, rep, tag in R[:-1]:
            if tag == "iftrue" and "if constexpr" in c: continue
            yield from sub(rx, rep, tag)
        if st.endswith(";") and not re.match(r"(return|break;|continue;|\}|auto |throw|goto|case|default|[\w:<>&\* ]+ = default|[\w:<>]+ [\w]+;)", st) and st.count("(") == st.count(")") and (re.match(r"[\w:\.\->\*\(\)+\[\] &<]+(\(|=|\+\+|--|\+=|-=)", st)) and not re.match(r"(constexpr|static|inline|explicit|const |std::size_t \w+ =)", st):
            # whole statement on this line?
            prev = next((strip(x).strip() for x in reversed(lines[:n]) if strip(x).strip()), "")
            if prev.endswith((";", "{", "}", ")", ":", "else")):
                yield n, ("\t\t;\n" if prev.endswith((")", "else")) else "\n"), "del"
        if re.match(r"(break|return);", st): yield n, "\n", "delret"
allm = []
for f in files:
    lines = open(f"{A.repo}/include/{f}").read().splitlines(True)
    for n, new, tag in muts(lines):
        if A.lines:
            lo, hi = map(int, A.lines.split("-"))
            if not lo <= n + 1 <= hi: continue
        if new != lines[n]: allm.append((f, n, new, tag))
random.Random(7).shuffle(allm)
total = len(allm); allm = allm[:A.max]
print(f"{P}: {total} mutations, trying {len(allm)}", flush=True)
if A.list:
    for f, n, new, tag in sorted(allm): print(f, n + 1, tag, new.strip())
    sys.exit()
def one(k):
    f, n, new, tag = allm[k]
    d = f"{W}/m{k}"; lines = open(f"{A.repo}/include/{f}").read().splitlines(True); old = lines[n]
    lines[n] = new
    shutil.copytree(f"{A.repo}/include", f"{d}/include")
    open(f"{d}/include/{f}", "w").write("".join(lines))
    r = build_run(f"{d}/include", f"{d}/o", max(200, quick // A.div))
    shutil.rmtree(d, ignore_errors=True)
    return f, n + 1, tag, old.strip(), new.strip(), r
cnt = {}; surv = []
with ThreadPoolExecutor(A.jobs) as ex:
    for x in ex.map(one, range(len(allm))):
        cnt[x[5][0]] = cnt.get(x[5][0], 0) + 1
        if x[5][0] == "SURVIVED": surv.append(x)
out = f"{P}: {cnt}\n" + "".join(f"{f}:{n} [{t}] {o}\n      => {nw}\n" for f, n, t, o, nw, r in sorted(surv))
print(out)
if A.out: open(A.out, "a").write(out)
shutil.rmtree(W, ignore_errors=True)
