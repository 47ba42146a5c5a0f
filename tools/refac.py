#!/usr/bin/env python3
"""refac.py <spec.py> <group...>: behaviour-preserving edits, all of a group at once, in a scratch copy; every check must stay quiet.
spec: R = {group: [(file, old text, new text), ...]}; -only=i,j uses only these edits; -c=C01,C02 only these checks; -nobuild skips the tests"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = os.environ.get("SC", "/tmp/sc4")
ns = {}
exec(open(sys.argv[1]).read(), ns)
opts = dict(a[1:].split("=", 1) if "=" in a else (a[1:], "") for a in sys.argv[2:] if a.startswith("-"))
groups = [a for a in sys.argv[2:] if not a.startswith("-")] or list(ns["R"])
if not os.path.isdir(SC): subprocess.run(["git", "clone", "-q", "/repo", SC])
allc = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
for g in groups:
    subprocess.run("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", shell=True, cwd=SC)
    bad = False
    for i, (f, o, n) in enumerate(ns["R"][g]):
        if opts.get("only") and str(i) not in opts["only"].split(","): continue
        s = open(f"{SC}/{f}").read()
        if s.count(o) < 1: print(g, i, "TEXT NOT FOUND", o[:70]); bad = True; continue
        open(f"{SC}/{f}", "w").write(s.replace(o, n, 1))
    if bad: continue
    if "nobuild" not in opts:
        r = subprocess.run(["cargo", "nextest", "run", "--offline", "-E", "test(bitset) + test(test_parse_roundtrip) + test(test_expression_options)"], cwd=SC, capture_output=True, text=True, env=dict(os.environ, CARGO_TARGET_DIR="/tmp/sc4t"))
        if r.returncode: print(g, "BUILD/TESTS", (r.stdout + r.stderr)[-1800:]); continue
        r = subprocess.run(["cargo", "check", "--offline", "--all"], cwd=SC, capture_output=True, text=True, env=dict(os.environ, CARGO_TARGET_DIR="/tmp/sc4t"))
        if r.returncode: print(g, "BUILD", r.stderr[-1800:]); continue
    t0 = time.time()
    for c in opts["c"].split(",") if opts.get("c") else allc:
        t = time.time()
        r = subprocess.run([sys.executable, f"{V}/check.py", c], env=dict(os.environ, NOODLE_REPO=SC), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: print(f"XXXX {g} {c} rc{r.returncode} {time.time()-t:.0f}s\n    " + "\n    ".join(x[:260] for x in r.stdout.strip().splitlines() if "VIOLATION" not in x or True)[:900], flush=True)
    print(f"{g} done {time.time()-t0:.0f}s", flush=True)
