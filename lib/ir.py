"""Loader and pretty printer for the MIR dumps written by driver/ (mirdump)."""
import json, re, sys


class Fn:
    __slots__ = ("id", "d", "crate", "path", "blocks", "locals", "argc", "names")

    def __init__(self, i, d):
        self.id = i
        self.d = d
        self.path = d["path"]
        self.blocks = d["blocks"]
        self.locals = d["locals"]
        self.argc = d["argc"]
        self.names = {k: l[1] for k, l in enumerate(d["locals"]) if len(l) > 1}

    @property
    def span(self):
        return self.d["span"]

    def __repr__(self):
        return f"<fn {self.id} {self.path}>"


class Program:
    def __init__(self, fn):
        j = json.load(open(fn))
        self.crate = j["crate"]
        self.adts = j["adts"]
        self.tys = j["tys"]
        self.impls = j["impls"]
        self.roots = j["roots"]
        self.unsafe = j.get("unsafe", [])
        self.statics = j.get("statics", {})
        self.fns = [Fn(i, d) if d else None for i, d in enumerate(j["fns"])]
        self.iters = {}
        for t, r in j["iters"]:
            self.iters.setdefault(t, {})[r["m"]] = r

        for f in self.fns:
            if f and f.d.get("coroutine") and f.d.get("saved") and f.d.get("prom") == -1: self.uncoroutine(f)

    def uncoroutine(self, f):
        """undoes the compiler's state machine for an async body: the fields that hold the variables across an
        await become local variables again and a suspension becomes a "yield" to the resuming block, or to the
        blocks that drop what is alive when the future is dropped there"""
        tys, var = f.d["saved"]
        drop = self.fns[f.d["codrop"]] if f.d.get("codrop") is not None else None
        b0 = f.blocks[0]
        dis = {s[1][0]: s[2][1][0] for s in b0["s"] if s[0] == "=" and s[2][0] == "discr"}
        if b0["t"][0] != "switch" or b0["t"][1][0] not in "cm" or b0["t"][1][1][0] not in dis: return
        self_l = dis[b0["t"][1][1][0]]        # the pointer to the state
        n = len(f.locals)
        f.locals.extend([t] for t in tys)
        base2 = len(f.locals)

        def fix(x, off, me):
            if isinstance(x, list):
                if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and all(isinstance(e, list) for e in x[1]):
                    l, pr = x
                    if l == me and len(pr) >= 3 and pr[0][0] == "d" and pr[1][0] == "dc" and pr[2][0] == "f":
                        return [n + var[pr[1][1]][pr[2][1]], [fixe(e, off) for e in pr[3:]]]
                    return [self_l if off and l == me else l + off, [fixe(e, off) for e in pr]]
                return [fix(y, off, me) for y in x]
            if isinstance(x, dict): return x
            return x

        def fixe(e, off): return [e[0], e[1] + off] + e[2:] if e[0] == "i" and off else e

        def fixs(s, off, me):
            if s[0] in ("live", "dead"): return [s[0], s[1] + off] + s[2:]
            return fix(s, off, me)

        def fixt(t, off, me, b):
            k = t[0]
            if k == "goto": return ["goto", t[1] + b]
            if k == "switch": return ["switch", fix(t[1], off, me), [[v, x + b] for v, x in t[2]], t[3] + b] + t[4:]
            if k == "drop": return ["drop", fix(t[1], off, me), t[2] + b] + t[3:]
            if k == "call": return ["call", fix(t[1], off, me), fix(t[2], off, me), fix(t[3], off, me), None if t[4] is None else t[4] + b] + t[5:]
            if k == "assert": return ["assert", fix(t[1], off, me), t[2], fix(t[3], off, me), t[4] + b] + t[5:]
            return list(t)

        cases = {int(v): x for v, x in b0["t"][2]}
        nb = len(f.blocks)
        dcases = {}
        dblocks = []
        if drop is not None and drop.blocks[0]["t"][0] == "switch":
            dcases = {int(v): x + nb for v, x in drop.blocks[0]["t"][2]}
            f.locals.extend([l[0]] for l in drop.locals)
            for b in drop.blocks:
                dblocks.append(dict(b, s=[fixs(s, base2, 1) for s in b["s"] if s[0] != "sd"], t=fixt(b["t"], base2, 1, nb)))
        blocks = []
        for i, b in enumerate(f.blocks):
            sd = [s[2] for s in b["s"] if s[0] == "sd" and s[1][0] == self_l]
            t = fixt(b["t"], 0, self_l, 0)
            ss = [fixs(s, 0, self_l) for s in b["s"] if s[0] != "sd"]
            if sd and sd[-1] in cases and sd[-1] > 2 and t[0] == "return": t = ["yield", cases[sd[-1]], dcases.get(sd[-1]), f.span]
            if i == 0: t = ["goto", cases[0]]
            blocks.append(dict(b, s=ss, t=t))
        f.blocks = f.d["blocks"] = blocks + dblocks
        f.d["awaits"] = sum(b["t"][0] == "yield" for b in f.blocks)

    def ty(self, i):
        return self.tys[i]

    def tystr(self, i):
        return self.tys[i]["s"]

    def find(self, pred):
        return [f for f in self.fns if f and pred(f)]

    # ---- printing
    def pl(self, f, p):
        s = f.names.get(p[0])
        s = f"_{p[0]}" + (f":{s}" if s else "")
        for e in p[1]:
            if e[0] == "d": s = f"(*{s})"
            elif e[0] == "f": s = f"{s}.{e[2]}"
            elif e[0] == "i": s = f"{s}[_{e[1]}]"
            elif e[0] == "dc": s = f"({s} as {e[2]})"
            else: s = f"{s}.{e}"
        return s

    def k(self, c):
        if "fn" in c:
            return "fn " + self.callee(c["fn"])
        c = dict(c)
        t = c.pop("t", None)
        return json.dumps(c) + (":" + self.tystr(t) if t is not None else "")

    def callee(self, c):
        return c["p"] + ("<" + ",".join(self.tystr(a) for a in c["a"]) + ">" if c["a"] else "") + (f" #{c['key']}" if "key" in c else "")

    def op(self, f, o):
        if o[0] == "k": return self.k(o[1])
        if o[0] in "cm": return ("move " if o[0] == "m" else "") + self.pl(f, o[1])
        return str(o)

    def rv(self, f, r):
        k = r[0]
        if k == "use": return self.op(f, r[1])
        if k == "ref": return ("&mut " if r[1] else "&") + self.pl(f, r[2])
        if k == "bin": return f"{r[1]}({self.op(f, r[2])}, {self.op(f, r[3])})"
        if k == "un": return f"{r[1]}({self.op(f, r[2])})"
        if k == "discr": return f"discr({self.pl(f, r[1])})"
        if k == "agg": return f"{r[1]}({', '.join(self.op(f, o) for o in r[2])})"
        if k == "cast": return f"{self.op(f, r[2])} as {self.tystr(r[3])} ({r[1]})"
        return str(r)

    def show(self, f, unw=False):
        o = [f"fn#{f.id} {f.d['full']}  argc={f.argc} {f.span}"]
        for i, l in enumerate(f.locals):
            o.append(f"  _{i}{':'+l[1] if len(l)>1 else ''}: {self.tystr(l[0])}")
        for i, b in enumerate(f.blocks):
            if b["u"] and not unw: continue
            o.append(f" bb{i}:")
            for s in b["s"]:
                if s[0] == "=": o.append(f"    {self.pl(f, s[1])} = {self.rv(f, s[2])}")
                elif s[0] in ("live", "dead"): continue
                else: o.append(f"    {s}")
            t = b["t"]
            if t[0] == "call":
                o.append(f"    {self.pl(f, t[3])} = {self.op(f, t[1])}({', '.join(self.op(f, a) for a in t[2])}) -> bb{t[4]}   // {t[6]}")
            elif t[0] == "switch":
                o.append(f"    switch {self.op(f, t[1])} {t[2]} else {t[3]}")
            elif t[0] == "drop":
                o.append(f"    drop {self.pl(f, t[1])}: {self.tystr(t[3])} -> bb{t[2]}")
            elif t[0] == "assert":
                o.append(f"    assert {self.op(f, t[1])} == {t[2]} {t[3][0]} -> bb{t[4]}")
            else:
                o.append(f"    {t}")
        return "\n".join(o)


if __name__ == "__main__":
    p = Program(sys.argv[1])
    for f in p.find(lambda f: re.search(sys.argv[2], f.d["full"])):
        print(p.show(f))
        print()
