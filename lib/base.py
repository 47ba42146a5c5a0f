"""Helpers shared by the rule modules."""
import os, re, sys

LIB = os.path.dirname(os.path.abspath(__file__))
if LIB not in sys.path:
    sys.path.insert(0, LIB)
sys.setrecursionlimit(30000)

from absint import *  # noqa
from ir import Program
import dumps

_progs = {}


def prog(unit):
    p = _progs.get(unit)
    if p is None:
        paths = dumps.dump(unit)
        p = _progs[unit] = Program(next(iter(paths.values())))
    return p


class Missing(Exception):
    """an anchor of a rule does not exist (any more)"""


def norm(path):
    """function path without generic arguments and lifetimes: `a::B::<'x, T>::f` -> a::B::f"""
    return re.sub(r"::<[^<>]*(<[^<>]*>[^<>]*)*>", "", path)


def fns(p, pattern, crate=None):
    r = re.compile(pattern)
    return [f for f in p.fns if f and (crate is None or f.d["crate"] == crate) and r.search(norm(f.path))]


def fn1(p, pattern, crate=None):
    l = [f for f in fns(p, pattern, crate)]
    if not l:
        raise Missing(f"no function matches {pattern}")
    return l[0]


def arg(i, fn):
    return mk("arg", i, fn.names.get(i + 1, ""))


def fld(v, name, i=-1):
    """opaque field access"""
    return mk("fld", v, name)


def self_of(fn):
    return mk("*", arg(0, fn))


def getf(v, name):
    """field of a value by name (overlay, aggregate or opaque)"""
    if v.op == "ov":
        for k, x in v.a[1]:
            if k[0] == "f" and k[2] == name:
                return x
        return getf(v.a[0], name)
    if v.op == "adt":
        return v.a[3 + field_index(v, name)]
    return mk("fld", v, name)


_P = [None]


def field_index(v, name):
    for p in _progs.values():
        a = p.adts.get(v.a[0])
        if a:
            vs = a["variants"][v.a[1]]["fields"]
            nm = name.split(".")[-1]
            for i, f in enumerate(vs):
                if (f if isinstance(f, str) else f[0] if isinstance(f, list) else f.get("name")) == nm:
                    return i
    raise Missing(f"no field {name} in {v.a[0]}")


def variant(v):
    """name of a known variant, or None"""
    if v.op == "adt":
        return v.a[2]
    if v.op == "ov":
        return variant(v.a[0])
    return None


def variant_in(st, prog, v, adt_path):
    """variant name of v in state st, using facts on its discriminant"""
    n = variant(v)
    if n is not None:
        return n
    while v.op == "ov":
        v = v.a[0]
    d = mk("discr", v)
    lo, hi = st.bnd(d)
    a = prog.adts.get(adt_path)
    if a:
        f = st.facts.get(d)
        ok = [x["name"] for x in a["variants"] if lo <= int(x["discr"]) <= hi and not (f and int(x["discr"]) in f[2])]
        if len(ok) == 1:
            return ok[0]
    return None


def calls_in(p, fn):
    """(callee dict, block index, terminator) of the direct calls of a function"""
    for bi, b in enumerate(fn.blocks):
        t = b["t"]
        if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
            yield t[1][1]["fn"], bi, t


def callees(p, fn):
    out = set()
    for cl, _, _ in calls_in(p, fn):
        if cl.get("key") is not None:
            out.add(cl["key"])
    return out


def consts_in(fn):
    """all constant operands of a function"""
    def walk(o):
        if isinstance(o, list):
            if len(o) == 2 and o[0] == "k" and isinstance(o[1], dict):
                yield o[1]
            else:
                for x in o:
                    yield from walk(x)
    for b in fn.blocks:
        for s in b["s"]:
            yield from walk(s)
        yield from walk(b["t"])


def referenced(p, fn):
    """ids of functions a function calls or mentions (function items, closures, promoteds)"""
    out = set()
    for c in consts_in(fn):
        for k in ("fn", "fnptr"):
            if k in c and c[k].get("key") is not None:
                out.add(c[k]["key"])
        if "promoted" in c:
            out.add(c["promoted"])
        if "zst" in c and "t" in c:
            t = p.tys[c["t"]]
            if t["k"] in ("closure", "coroutine") and t.get("fn") is not None:
                out.add(t["fn"])
            if t["k"] == "fndef" and t["c"].get("key") is not None:
                out.add(t["c"]["key"])
    for b in fn.blocks:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] in ("closure", "coroutine"):
                if isinstance(s[2][1][1], int):
                    out.add(s[2][1][1])
        t = b["t"]
        if t[0] == "drop":
            out |= drop_fns(p, t[3])
    return out


def drop_fns(p, ty, depth=0, seen=None):
    seen = seen if seen is not None else set()
    if ty in seen or depth > 6:
        return set()
    seen.add(ty)
    t = p.tys[ty]
    o = set()
    if t.get("drop") is not None:
        o.add(t["drop"])
    for f in t.get("ft") or []:
        if isinstance(f, int):
            o |= drop_fns(p, f, depth + 1, seen)
    for f in t.get("a") or []:
        if isinstance(f, int):
            o |= drop_fns(p, f, depth + 1, seen)
    return o


def reachable(p, starts):
    """functions reachable in the resolved call graph, with a parent map for paths"""
    par = {s: None for s in starts}
    work = list(starts)
    while work:
        k = work.pop()
        fn = p.fns[k]
        if fn is None:
            continue
        for x in referenced(p, fn):
            if x not in par and p.fns[x] is not None:
                par[x] = k
                work.append(x)
    return par


def chain(p, par, k):
    o = []
    while k is not None:
        o.append(p.fns[k].path)
        k = par[k]
    return o[::-1]
