"""Obligations, evidence files and exit status."""
import json, os, re, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.txt")


_job = []


def _work(i):
    import base, absint
    f, prop, tier, items, rules = _job
    r = Report(prop, tier)
    r.rules = dict(rules)
    try: f(r, items[i])
    except base.Missing as e: return "missing", str(e)
    except absint.Budget as e: return "budget", str(e)
    except Exception: return "error", traceback.format_exc()
    return "ok", r.part()


class Report:
    def __init__(self, prop, tier, level="other"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.rules = {}
        self.obs = {}
        self.counts = {}
        self.notes = []
        self.assume_ = []

    def rule(self, rid, text):
        self.rules[rid] = text

    def assume(self, text):
        if text not in self.assume_:
            self.assume_.append(text)

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ob(self, rule, construct, ok, where="", detail="", path=None):
        """One obligation: `rule` at `construct`. A construct that fails once has failed."""
        assert rule in self.rules, rule
        k = (rule, construct)
        o = self.obs.get(k)
        if o is None:
            o = self.obs[k] = dict(rule=rule, construct=construct, ok=True, where=where, detail="", path=[], n=0)
        o["n"] += 1
        if not ok and o["ok"]:
            o["ok"] = False
            o["where"] = where or o["where"]
            o["detail"] = detail
            o["path"] = [str(x) for x in (path or [])][-80:]
        return ok

    def merge(self, o):
        """obligations of a part of the work that was done elsewhere"""
        self.rules.update(o["rules"])
        for k, v in o["counts"].items(): self.count(k, v)
        for x in o["notes"]: self.note(x)
        for x in o["assume"]: self.assume(x)
        for k, x in o["obs"].items():
            y = self.obs.get(k)
            if y is None: self.obs[k] = x
            else:
                n = y["n"] + x["n"]
                if not x["ok"] and y["ok"]: y = self.obs[k] = x
                y["n"] = n

    def part(self):
        return dict(rules=self.rules, counts=self.counts, notes=self.notes, assume=self.assume_, obs=self.obs)

    def each(self, items, f, jobs=None):
        """f(report, item) for every item, in parallel; the obligations are merged in order"""
        import multiprocessing as mp
        items = list(items)
        n = jobs or min(8, os.cpu_count() or 1, len(items))
        if n <= 1 or os.environ.get("NOODLE_SERIAL"):
            for x in items: f(self, x)
            return
        _job[:] = [f, self.prop, self.tier, items, dict(self.rules)]
        with mp.get_context("fork").Pool(n) as pool:
            for kind, o in pool.imap(_work, range(len(items)), chunksize=max(1, min(8, len(items) // (4 * n)))):
                if kind == "missing":
                    import base
                    raise base.Missing(o)
                if kind == "budget":
                    import absint
                    raise absint.Budget(o)
                if kind == "error": raise Exception(o)
                self.merge(o)

    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", l.strip())
                if m and m.group(1) == self.prop:
                    out[m.group(2)] = m.group(3)
        return out

    def finish(self):
        known = self.known()
        bad, listed = [], []
        for (r, c), o in sorted(self.obs.items()):
            if not o["ok"]:
                key = f"{r}|{c}"
                (listed if key in known else bad).append((key, o))
        if not self.obs:
            bad.append(("none|nothing was analysed", dict(rule="none", construct="nothing was analysed", ok=False,
                                                          where="", detail="", path=[], n=0)))
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        n = len(self.obs)
        nbad = len([o for o in self.obs.values() if not o["ok"]])
        expl = "; ".join(f"[{k}] {v}" for k, v in self.rules.items())
        cov = {
            "explanation": "Static analysis of the MIR/source of /repo's current tree. Rules: " + expl,
            "obligations": n,
            "discharged": n - nbad,
            "obligation_instances": sum(o["n"] for o in self.obs.values()),
            "by_rule": {r: len([1 for k in self.obs if k[0] == r]) for r in self.rules},
            "analysed": self.counts,
            "samples": [f"{o['rule']}: {o['construct']} ({o['where']}) {'ok' if o['ok'] else 'FAILED'}"
                        for _, o in sorted(self.obs.items())][:60],
        }
        if self.notes:
            cov["notes"] = self.notes
        if self.level == "proof":
            cov["checker_cmd"] = f"python3 check.py {self.prop}"
            cov["trusted_base"] = self.assume_ or ["the abstract interpreter in lib/"]
        d = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
                 level=self.level, coverage=cov, wall_s=round(time.time() - self.t0, 2))
        if self.assume_:
            d["assumptions"] = self.assume_
        rp = os.path.join(ev, self.prop + "-report.txt")
        with open(rp, "w") as fh:
            fh.write(f"property {self.prop}: {n} obligations, {nbad} failed\n")
            for k, o in bad + listed:
                fh.write(f"\nFAILED {k}\n  at {o['where']}\n  {o['detail']}\n")
                for x in o["path"]:
                    fh.write(f"    {x}\n")
            fh.write("\nall obligations:\n")
            for _, o in sorted(self.obs.items()):
                fh.write(f"  {'ok  ' if o['ok'] else 'FAIL'} {o['rule']}: {o['construct']} ({o['where']}) x{o['n']}\n")
        d["violations"] = len(bad)
        if bad:
            cov["violated"] = [f"{k} at {o['where']}: {o['detail']}" for k, o in bad]
        with open(os.path.join(ev, self.prop + ".json"), "w") as fh:
            json.dump(d, fh, indent=1)
        for k, o in listed:
            print(f"KNOWN-FINDING: property={self.prop} {known[k]}")
        for k, o in bad:
            print(f"{k} at {o['where']}: {o['detail']}")
        if bad:
            print(f"VIOLATION property={self.prop} replay={os.path.relpath(rp, VERIF)}")
            return 1
        print(f"{self.prop}: {n} obligations hold ({d['wall_s']} s)")
        return 0
