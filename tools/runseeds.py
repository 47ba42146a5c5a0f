#!/usr/bin/env python3
"""runseeds.py [id...]: runs the property's check against each seeded bug (applied to a scratch copy)."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/sc2"
ids = sys.argv[1:] or sorted(os.listdir(f"{V}/seeded"))
if not os.path.isdir(SC): subprocess.run(["cp", "-a", "/repo", SC])
for i in ids:
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    subprocess.run("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", shell=True, cwd=SC)
    if subprocess.run(["git", "apply", f"{V}/seeded/{i}/patch.diff"], cwd=SC).returncode: print(i, "patch does not apply"); continue
    t = time.time()
    r = subprocess.run([sys.executable, f"{V}/check.py", m["property"]], env=dict(os.environ, NOODLE_REPO=SC), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    hit = f"VIOLATION property={m['property']}" in r.stdout
    print(i, m["property"], "CAUGHT" if hit and r.returncode == 1 else f"missed (rc {r.returncode})", f"{time.time()-t:.0f}s", r.stdout.strip().split("\n")[0][:160])
