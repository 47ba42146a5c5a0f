"""Build the MIR dump driver and dump the crates of /repo (from its current working tree)."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NOODLE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DRIVER = os.path.join(VERIF, "driver", "target", "debug", "mirdump")

UNITS = {
    "lib": (["-p", "noodle", "--lib"], ["noodle.json"]),
    "cli": (["-p", "noodle-cli", "--bins"], ["noodle-bin.json"]),
    "web": (["-p", "noodle-webapp", "--bins"], ["noodle_webapp-bin.json"]),
    "libser": (["-p", "noodle", "--lib", "--features", "serialize"], ["noodle.json"]),
}
for _u in ("lib", "cli", "web"): UNITS[_u + "-rel"] = UNITS[_u]   # as a release build has it: no debug assertions, no overflow checks


class DumpError(Exception):
    pass


def run(cmd, cwd, env=None, timeout=800):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout


def sources(repo=None):
    repo = repo or REPO
    out = []
    for d, ds, fs in os.walk(repo):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "wordlists", "node_modules"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock", ".pest", ".html", ".js", ".css", ".md")):
                out.append(os.path.join(d, f))
    return out


def source_hash(repo=None):
    h = hashlib.sha256()
    for p in sources(repo):
        h.update(p.encode())
        with open(p, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for p in sorted(glob.glob(os.path.join(VERIF, "driver", "src", "*.rs"))):
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def build_driver():
    src = glob.glob(os.path.join(VERIF, "driver", "src", "*.rs"))
    if os.path.exists(DRIVER) and all(os.path.getmtime(DRIVER) >= os.path.getmtime(s) for s in src):
        return
    rc, out = run(["cargo", "+nightly", "build", "--offline"], os.path.join(VERIF, "driver"))
    if rc != 0 or not os.path.exists(DRIVER):
        raise DumpError("cannot build the dump driver:\n" + out[-3000:])


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        rc, out = run(["rustc", "+nightly", "--print", "sysroot"], VERIF)
        _sysroot = out.strip().splitlines()[-1]
    return _sysroot


def dump(unit, repo=None):
    """Return {file name: path of the JSON dump} for one unit of /repo's current tree."""
    repo = repo or REPO
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        args, want = UNITS[unit]
        out = os.path.join(BUILD, "dump", source_hash(repo), unit)
        res = {w: os.path.join(out, w) for w in want}
        if os.path.exists(os.path.join(out, ".done")) and all(os.path.exists(p) for p in res.values()):
            return res
        old = sorted(glob.glob(os.path.join(BUILD, "dump", "*")), key=os.path.getmtime)
        for d in old[:-6]:
            if os.path.basename(d) != source_hash(repo):
                shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(BUILD, "target")
        # (both layouts of cargo's build directory)
        for d in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "noodle*")) + glob.glob(os.path.join(tgt, "debug", "build", "noodle*")):
            shutil.rmtree(d, ignore_errors=True)
        env = {"LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"), "CARGO_TARGET_DIR": tgt,
               "MIRDUMP_OUT": out, "RUSTC_WORKSPACE_WRAPPER": DRIVER, "CARGO_TERM_COLOR": "never",
               "RUSTFLAGS": "", "CARGO_INCREMENTAL": "0"}
        if unit.endswith("-rel"):
            env.update(CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false")
        rc, o = run(["cargo", "+nightly", "check"] + args + ["--offline", "--locked"], repo, env)
        if rc != 0:
            raise DumpError("cargo check failed:\n" + o[-4000:])
        for w, p in res.items():
            if not os.path.exists(p):
                raise DumpError("no dump %s was written:\n%s" % (w, o[-2000:]))
        open(os.path.join(out, ".done"), "w").close()
        return res


if __name__ == "__main__":
    for u in sys.argv[1:] or [u for u in UNITS if u not in ("cli-rel", "web-rel")]:
        print(u, dump(u))
