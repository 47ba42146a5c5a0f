#!/usr/bin/env python3
"""trymut.py <spec.py> [name...]: edits a scratch copy and runs checks on it.
spec: M = [(name, file, old text, new text, "C01 C02", "hit" or "quiet")]"""
import os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/sc3"
ns = {}
exec(open(sys.argv[1]).read(), ns)
if not os.path.isdir(SC): subprocess.run(["git", "clone", "-q", "/repo", SC])
for name, f, old, new, checks, exp in ns["M"]:
    if sys.argv[2:] and name not in sys.argv[2:]: continue
    subprocess.run("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", shell=True, cwd=SC)
    pairs = list(zip(old, new)) if isinstance(old, list) else [(old, new)]
    fs = f if isinstance(f, list) else [f] * len(pairs)
    bad = False
    for fn, (o, n) in zip(fs, pairs):
        s = open(f"{SC}/{fn}").read()
        if s.count(o) < 1: print(name, "TEXT NOT FOUND", o[:60]); bad = True; break
        open(f"{SC}/{fn}", "w").write(s.replace(o, n, 1))
    if bad: continue
    def go(c):
        t = time.time()
        r = subprocess.run([sys.executable, f"{V}/check.py", c], env=dict(os.environ, NOODLE_REPO=SC), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hit = f"VIOLATION property={c}" in r.stdout
        got = "hit" if hit and r.returncode == 1 else "quiet" if r.returncode == 0 else f"rc{r.returncode}"
        return f"{'ok  ' if got == exp else 'XXXX'} {name} {c} {got} {time.time()-t:.0f}s {'' if got == 'quiet' else (r.stdout.strip().splitlines() or [''])[0 if got == 'hit' else -1][:int(os.environ.get('W', 170))]}"
    for c in checks.split(): print(go(c), flush=True)
