"""Memory safety of unchecked accesses (C01)."""
from base import *

CHECKED = re.compile(r"(^|::)(slice::<impl \[T\]>|str::<impl str>|Vec::<T, A>)::get_unchecked(_mut)?$")


def line_of(span):
    f, _, l = span.rpartition(":")
    return f, int(l) if l.isdigit() else 0


class Unchecked:
    """every unchecked access reached: is it in range on this path"""
    def __init__(self): self.sites = {}

    def on_unchecked(self, st, cond, c):
        ix = c.args[1]
        ok = st.decide(cond) is TRUE
        low = True
        if ok and ix.op not in ("adt",): low = st.decide(le(C(0), ix)) is TRUE
        s = self.sites.setdefault((c.f.path, c.span), [0, None])
        s[0] += 1
        if not (ok and low) and s[1] is None: s[1] = (st, cond)

    def on_unknown_fn(self, *a): pass


def places(x):
    """the places a statement or terminator mentions: [local, projection]"""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and all(isinstance(e, list) for e in x[1]): yield x
        for y in x: yield from places(y)
    elif isinstance(x, dict):
        for y in x.values(): yield from places(y)


def outer(p, f):
    """the named function a closure belongs to"""
    path = f.path
    while "::{" in path: path = path[:path.rfind("::{")]
    return path


def callers(p, ids):
    out = []
    for g in p.fns:
        if g and g.d["local"] and g.id not in ids and referenced(p, g) & ids: out.append(g)
    return out


def analyse(p, root, site_fns):
    m = Unchecked()
    e = Engine(p, [m], budget=300000)
    e.depth = 2
    assume = []
    args = []
    for i in range(root.argc):
        a = mk("sym", "arg", f"{root.names.get(i + 1, '')}#{i}")
        args.append(a)
        if p.tys[root.locals[i + 1][0]]["k"] == "int": assume.append((le(C(0), a), True))
    e.start(root, args, assume=assume)
    return m.sites


def c01(rep, tier):
    rep.rule("inventory", "every unsafe operation in the workspace is an unchecked element access (anything else cannot be established)")
    rep.rule("range", "an unchecked element access is in range on every path to it, without debug assertions")
    total = 0
    for unit in ("lib-rel", "cli", "web"):
        p = prog(unit)
        if unit != "lib-rel" and p.unsafe:
            unit += "-rel"
            p = prog(unit)
        rep.count("functions", sum(1 for f in p.fns if f and f.d["local"]))
        rep.count("unsafe constructs", len(p.unsafe))
        rep.ob("inventory", f"{unit}: unsafe code listed", True, "", f"{len(p.unsafe)} constructs")
        wanted = {}   # (fn path, span) -> site
        for kind, path, span, lo, hi in p.unsafe:
            if kind not in ("block", "fn"):
                rep.ob("inventory", f"{kind} {path}", False, span, f"a {kind}: accesses to it are not checked by the compiler")
                continue
            file, _ = line_of(span)
            ops = 0
            for f in p.fns:
                if not f or not f.d["local"] or not (norm(f.path) == norm(path) or f.path.startswith(path + "::{")): continue
                for b in f.blocks:
                    for s in b["s"] + [b["t"]]:
                        sp = next((x for x in reversed(s) if isinstance(x, str) and re.search(r":\d+$", x)), f.span)
                        fl, ln = line_of(sp)
                        if fl != file or not lo <= ln <= hi: continue
                        for l, pr in places(s):
                            ty = p.tys[f.locals[l][0]] if l < len(f.locals) else None
                            if ty and ty["k"] == "ptr" and pr and pr[0][0] == "d":
                                ops += 1
                                rep.ob("inventory", f"{f.path}: dereference of a raw pointer", False, sp, "nothing bounds this access")
                        if s[0] == "call" and s[-1] is True:
                            c = s[1][1].get("fn") if s[1][0] == "k" else None
                            n = (c or {}).get("rp") or (c or {}).get("p") or "?"
                            if re.search(r"fmt::Arguments|Pin::<.*>::new_unchecked", n): continue
                            ops += 1
                            n2 = (c or {}).get("p") or n
                            good = bool(CHECKED.search(n2) or CHECKED.search(n))
                            if any(u[0] == "fn" and norm(u[1]) in (norm(n2), norm(n)) for u in p.unsafe): continue   # its own body is looked at
                            rep.ob("inventory", f"{f.path}: unsafe call of {norm(n2)}", good, sp, "" if good else "an unsafe operation whose safety is not an element's range")
                            if good: wanted[f.path, sp] = f
            if not ops:
                rep.ob("inventory", f"{path}: unsafe {kind}", False, span, "no operation of it could be found in the compiled program")
        total += len(wanted)
        # decide the sites, from the function that holds them and, for private functions, from their callers
        pending = dict(wanted)
        roots = {}
        for (fp, sp), f in wanted.items():
            o = outer(p, f)
            for g in p.fns:
                if g and g.d["local"] and g.path == o and "{" not in g.path.rsplit("::", 1)[-1]: roots.setdefault(g.id, g)
        done = {}
        frontier = list(roots.values())
        seen = set(roots)
        for depth in range(4):
            nxt_ = []
            for g in frontier:
                try: sites = analyse(p, g, None)
                except Budget: sites = {k: [0, "budget"] for k in wanted}
                rep.count("entry points analysed")
                bad = [k for k, v in sites.items() if k in wanted and v[1] is not None]
                public = g.d.get("pub") and not any(u[0] == "fn" and norm(u[1]) == norm(g.path) for u in p.unsafe)
                up = [] if public or not bad else callers(p, {x.id for x in p.fns if x and x.d["local"] and (x.id == g.id or x.path.startswith(g.path + "::{"))})
                up = [next((h for h in p.fns if h and h.path == outer(p, x) and h.id not in seen), x) for x in up]
                for k, v in sites.items():
                    if k not in wanted: continue
                    if v[1] is None: done.setdefault(k, (True, "", None))
                    elif up and depth < 3: done.setdefault(k, (None, "", None))
                    else:
                        st, cond = v[1] if v[1] != "budget" else (None, None)
                        done[k] = (False, f"from {g.path}: not shown to be in range: {show(cond) if cond is not None else 'analysis gave up'}", st)
                nxt_ += [h for h in up if h.id not in seen]
                seen |= {h.id for h in up}
            frontier = nxt_
            if not frontier: break
        for k, f in wanted.items():
            r = done.get(k)
            if r is None: rep.ob("range", f"{k[0]}: unchecked access", False, k[1], "the access was not reached by the analysis")
            else: rep.ob("range", f"{k[0]}: unchecked access", r[0] is not False, k[1], r[1], path=r[2].path() if r[2] is not None else None)
    rep.count("unchecked accesses", total)
    rep.note("release configuration of the library (debug assertions and overflow checks off); every unsafe block of the three crates")
    rep.assume("std and the dependencies are memory safe behind their safe interfaces; lengths and indices stay below 2^63")
