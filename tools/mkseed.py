#!/usr/bin/env python3
"""mkseed.py <spec.py>: makes and confirms seeded bugs. A spec defines SEEDS, a list of dicts:
id, prop, edits [(file, old, new)], main (body of the demonstration) or demo (own demo.sh) and files, needs, breaks."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(V, "tools", "seedlib")
SC = "/tmp/sc"


def sh(cmd, cwd=SC, t=600):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = set(sys.argv[2:])
    if not os.path.isdir(SC): shutil.copytree("/repo", SC, symlinks=True)
    for s in spec["SEEDS"]:
        if only and s["id"] not in only: continue
        sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd -e target")
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        bad = None
        for f, old, new in s["edits"]:
            t = open(f"{SC}/{f}").read()
            if t.count(old) != 1: bad = f"{f}: {t.count(old)} occurrences of {old[:60]!r}"; break
            open(f"{SC}/{f}", "w").write(t.replace(old, new))
        if bad: print(s["id"], "SPEC", bad); continue
        rc, diff = sh("git diff")
        open(f"{d}/patch.diff", "w").write(diff)
        if "main" in s:
            open(f"{d}/main.rs", "w").write(open(f"{LIB}/prelude.rs").read() + "\n" + s["main"].strip() + "\n")
            shutil.copy(f"{LIB}/demo.sh", f"{d}/demo.sh")
        for n, c in s.get("files", {}).items(): open(f"{d}/{n}", "w").write(c)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        rc, out = sh(". /opt/vp/env.sh; cargo build --workspace --offline --locked -q 2>&1 | grep -E '^error' -A5 | head -20; cargo nextest run -p noodle --offline --locked -E 'test(bitset) + test(test_parse_roundtrip) + test(test_expression_options)' 2>&1 | tail -4")
        ok = "5 tests run: 5 passed" in out
        r1, o1 = sh(f"bash {d}/demo.sh")
        r0, o0 = sh(f"bash {d}/demo.sh", cwd="/repo")
        print(s["id"], "tests", "ok" if ok else "FAIL " + out[-300:], "| demo with patch:", r1, "| without:", r0)
        if r1 == 0 or r1 == 3 or r0 != 0: print("   ", o1[-300:], "||", o0[-300:])


main()
