"""Trace-partitioned dataflow engine over MIR (see DESIGN.md, "Engine").

Values are hash-consed terms: constants, known aggregates (enum variants, structs, closures,
known-length sequences), references to abstract locations, and opaque provenance terms.
States are merged at control-flow joins; the partition key keeps apart states that differ in
the rule's automaton state, in known enum variants / boolean flags, or in entry conditions.
There is no constraint solver: branch facts are a finite map term -> constant.
"""
import itertools, re, sys
from ir import Program

# ------------------------------------------------------------------ values
_tab = {}
REB = {}
_ids = itertools.count()
EMPTY = frozenset()


class V:
    __slots__ = ("op", "a", "syms", "id", "sh", "lv")

    def __repr__(self):
        return show(self)


def _flat(x):
    if isinstance(x, V):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _flat(y)


def mk(op, *a):
    key = (op, a)
    v = _tab.get(key)
    if v is None:
        v = V()
        v.op = op
        v.a = a
        v.id = next(_ids)
        v.sh = None
        v.lv = None
        s = None
        for c in _flat(a):
            if c.syms:
                s = c.syms if s is None else s | c.syms
        s = s or EMPTY
        if op == "sym":
            s = frozenset((v,))
        v.syms = s
        _tab[key] = v
    return v


def C(x):
    if isinstance(x, bool):
        return mk("b", x)
    return mk("c", x)


TRUE, FALSE, UNIT = mk("b", True), mk("b", False), mk("unit")
AGG = ("adt", "tup", "clo", "vec")


def show(v, d=0):
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return "(" + ",".join(show(x, d + 1) for x in v) + ")"
        return str(v)
    o, a = v.op, v.a
    if d > 7: return ".."
    if o in ("c", "b"): return str(a[0])
    if o == "s": return repr(a[0])
    if o == "unit": return "()"
    if o == "sym": return f"${a[0]}:" + ",".join(show(x, d + 1) for x in a[1:])
    if o == "adt":
        return f"{a[2]}" + ("{" + ",".join(show(x, d + 1) for x in a[3:]) + "}" if len(a) > 3 else "")
    if o == "ref": return "&" + ("mut " if a[2] else "") + show(a[0], d + 1) + showp(a[1])
    if o == "L": return f"L{a[0]}_{a[1]}"
    if o == "O": return f"*[{show(a[0], d + 1)}]"
    if o == "fld": return f"{show(a[0], d + 1)}.{a[1]}"
    if o == "idx": return f"{show(a[0], d + 1)}[{show(a[1], d + 1)}]"
    if o == "lin": return "(" + "+".join(([str(a[0])] if a[0] else []) + [(f"{k}*" if k != 1 else "") + show(t, d + 1) for t, k in a[1]]) + ")"
    if o == "vo": return f"vo({show(a[0], d+1)};" + ",".join(f"[{show(i,d+1)}]{showp(p)}={show(x,d+1)}" for (i, p), x in a[1]) + ")"
    if o == "ov": return f"ov({show(a[0], d+1)};" + ",".join(f"{showp((k,))}={show(x,d+1)}" for k, x in a[1]) + ")"
    return f"{o}(" + ", ".join(show(x, d + 1) for x in a) + ")"


def showp(p):
    o = ""
    for e in p:
        if e[0] == "f": o += "." + e[2]
        elif e[0] == "idx": o += f"[{show(e[1])}]"
        elif e[0] == "sub": o += f"[{show(e[1])}..{show(e[2])}]"
        else: o += e[0]
    return o


def adt(path, vi, vn, *fs):
    return mk("adt", path, vi, vn, *fs)


def some(x): return adt("std::option::Option", 1, "Some", x)
NONE = adt("std::option::Option", 0, "None")
def tup(*a): return mk("tup", *a)


def ref(root, path=(), mut=True): return mk("ref", root, path, mut)


# linear normal form ------------------------------------------------
def lin_parts(v):
    if v.op == "c" and isinstance(v.a[0], int): return v.a[0], {}
    if v.op == "lin": return v.a[0], dict(v.a[1])
    return 0, {v: 1}


def lin(c, ts):
    ts = {t: k for t, k in ts.items() if k}
    if not ts: return mk("c", c)
    if c == 0 and len(ts) == 1:
        t, k = next(iter(ts.items()))
        if k == 1: return t
    return mk("lin", c, tuple(sorted(ts.items(), key=lambda x: x[0].id)))


def add(a, b, sb=1):
    if a.op in AGG or b.op in AGG: return mk("bin", "Add", a, b)
    ca, ta = lin_parts(a)
    cb, tb = lin_parts(b)
    for t, k in tb.items():
        ta[t] = ta.get(t, 0) + sb * k
    return lin(ca + sb * cb, ta)


def sub(a, b): return add(a, b, -1)


def mul(a, b):
    if b.op == "c" and a.op != "c": a, b = b, a
    if a.op == "c":
        c, t = lin_parts(b)
        k = a.a[0]
        return lin(c * k, {x: y * k for x, y in t.items()})
    if a.id > b.id: a, b = b, a
    return mk("mul", a, b)


def canon(ts):
    """sign-normalised linear form: (X, flipped)"""
    items = sorted(((t, k) for t, k in ts.items() if k), key=lambda x: x[0].id)
    fl = items[0][1] < 0
    d = {t: (-k if fl else k) for t, k in items}
    return lin(0, d), fl


def le0(d):
    """d <= 0 for a linear value d"""
    c, ts = lin_parts(d)
    ts = {t: k for t, k in ts.items() if k}
    if not ts: return C(c <= 0)
    X, fl = canon(ts)
    if X.op == "sgn":
        # sgn is -1, 0 or 1 (255 never reaches here)
        x, y = X.a
        if not fl:
            return FALSE if -c < -1 else lt(x, y) if -c == -1 else le(x, y) if c == 0 else TRUE
        return FALSE if c > 1 else lt(y, x) if c == 1 else le(y, x) if c == 0 else TRUE
    # sX + c <= 0
    if not fl: return mk("le", X, -c)
    return nnot(mk("le", X, c - 1))  # -X + c <= 0  <=>  X >= c


def eq(a, b):
    if a is b: return TRUE
    if a.op in AGG and b.op in AGG and a.op == b.op:
        if a.op == "adt" and a.a[2] != b.a[2]: return FALSE
        if len(a.a) == len(b.a):
            h = 3 if a.op == "adt" else 0
            r = TRUE
            for x, y in zip(a.a[h:], b.a[h:]): r = conj(r, eq(x, y))
            return r
    if a.op in ("b", "le", "eqk", "not", "eq", "and", "or") or b.op in ("b", "le", "eqk", "not", "eq", "and", "or"):
        if a.op == "b": a, b = b, a
        if b.op == "b": return a if b.a[0] else nnot(a)
        if a.id > b.id: a, b = b, a
        return mk("eq", a, b)
    if a.op == "s" and b.op == "s": return C(a.a[0] == b.a[0])
    if a.op in AGG + ("s", "unit", "ref", "fn", "box", "it") or b.op in AGG + ("s", "unit", "ref", "fn", "box", "it"):
        if a.id > b.id: a, b = b, a
        return mk("eq", a, b)
    if a.op == "sgn" and b.op == "c": a, b = b, a
    if b.op == "sgn" and a.op == "c":
        x, y = b.a
        k = a.a[0]
        return lt(x, y) if k in (-1, 255) else eq(x, y) if k == 0 else lt(y, x)
    d = sub(a, b)
    c, ts = lin_parts(d)
    ts = {t: k for t, k in ts.items() if k}
    if not ts: return C(c == 0)
    X, fl = canon(ts)
    return mk("eqk", X, c if fl else -c)


def lt(a, b): return le0(add(sub(a, b), mk("c", 1)))
def le(a, b): return le0(sub(a, b))


def conj(a, b):
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE: return b
    if b is TRUE or a is b: return a
    return mk("and", a, b)


def disj(a, b): return nnot(conj(nnot(a), nnot(b)))


def nnot(a):
    if a.op == "b": return C(not a.a[0])
    if a.op == "not": return a.a[0]
    return mk("not", a)


def substv(v, m, cache=None):
    """replace sym -> V in v"""
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return tuple(substv(x, m, cache) for x in v)
        return v
    if not v.syms or v.syms.isdisjoint(m): return v
    if v in m: return m[v]
    if cache is None: cache = {}
    r = cache.get(v)
    if r is None:
        a = tuple(substv(x, m, cache) for x in v.a)
        r = rebuild(v.op, a)
        cache[v] = r
    return r


def rebuild(op, a):
    if op == "lin":
        c, ts = a
        r = mk("c", c)
        for t, k in ts: r = add(r, mul(mk("c", k), t))
        return r
    if op == "eq": return eq(*a)
    if op == "le": return le0(sub(a[0], mk("c", a[1])))
    if op == "eqk": return eq(a[0], mk("c", a[1]))
    if op == "and": return conj(*a)
    if op == "not": return nnot(*a)
    if op == "mul": return mul(*a)
    if op in REB: return REB[op](*a)
    return mk(op, *a)


# shape: what keeps partitions apart
def shape(v, cap=4):
    s = v.sh
    if s is not None: return s
    o = v.op
    if o == "b": s = v.a[0]
    elif o == "adt":
        s = (v.a[2],) + tuple(shape(x) for x in v.a[3:])
    elif o == "tup": s = ("T",) + tuple(shape(x) for x in v.a)
    elif o == "box": s = ("B", shape(v.a[0]))
    elif o == "clo": s = ("K", v.a[0]) + tuple(shape(x) for x in v.a[2:])
    elif o == "vec":
        s = "V"
    elif o == "ref": s = ("r", v.a[0].id if v.a[0].op in ("L", "P", "H") else 0, tuple(e[0] for e in v.a[1]))
    elif o == "it": s = ("I", v.a[0])
    elif o == "fn": s = ("F", v.a[0])
    elif o == "sgn": s = "sgn"
    elif o in ("bs", "ones", "view"): s = (o, v.id)
    elif o == "ov":
        t = tuple((k[1], shape(x)) for k, x in v.a[1] if shape(x) != "#")
        s = ("ov",) + t if t else "#"
    else: s = "#"
    v.sh = s
    return s


def leaves(v):
    """opaque sub-terms at value positions (for fact-based partitioning)"""
    l = v.lv
    if l is None:
        o = v.op
        if o == "adt": ch = v.a[3:]
        elif o in ("tup", "vec", "box"): ch = v.a
        elif o == "clo": ch = v.a[2:]
        elif o == "ov": ch = [x for _, x in v.a[1]] + [v.a[0]]
        elif o in ("c", "b", "s", "unit", "ref", "fn", "it"): ch = None
        else:
            v.lv = frozenset((v,))
            return v.lv
        l = EMPTY
        if ch:
            for x in ch: l = l | leaves(x)
        v.lv = l
    return l


_rr = {}


def refroots(v):
    r = _rr.get(v.id)
    if r is None:
        r = EMPTY
        if v.op == "ref": r = r | {v.a[0]}
        for c in _flat(v.a): r = r | refroots(c)
        _rr[v.id] = r
    return r


# projections ---------------------------------------------------------
NONNEG = {"len", "cnt", "discr", "b2i"}


def seqlen(v):
    o = v.op
    if o == "vec": return C(len(v.a))
    if o == "st": return seqlen(v.a[0])
    if o == "push": return add(seqlen(v.a[0]), C(1))
    if o == "rep": return v.a[1]
    if o == "subseq": return sub(v.a[2], v.a[1])
    if o == "ov": return seqlen(v.a[0])
    if o == "s": return C(len(v.a[0].encode()))
    if o in ("sorted", "bytes"): return seqlen(v.a[0])
    return mk("len", v)


REB["len"] = seqlen


def seqget(v, i):
    o = v.op
    if o == "vec":
        if i.op == "c" and 0 <= i.a[0] < len(v.a): return v.a[i.a[0]]
    elif o == "st":
        if v.a[1] is i: return v.a[2]
        d = sub(v.a[1], i)
        if d.op == "c" and d.a[0] != 0: return seqget(v.a[0], i)
    elif o == "push":
        d = sub(i, seqlen(v.a[0]))
        if d.op == "c":
            if d.a[0] == 0: return v.a[1]
            if d.a[0] < 0: return seqget(v.a[0], i)
        if i.op == "c" and v.a[0].op == "vec" and i.a[0] < len(v.a[0].a): return seqget(v.a[0], i)
    elif o == "rep": return v.a[0]
    elif o == "subseq": return seqget(v.a[0], add(v.a[1], i))
    return mk("idx", v, i)


REB["idx"] = seqget


def proj(v, e):
    o = v.op
    k = e[0]
    if k == "f":
        i = e[1]
        if o == "adt":
            if "." in e[2] and e[2].split(".")[0] != v.a[2]: return mk("bot")
            return v.a[3 + i] if 3 + i < len(v.a) else mk("bot")
        if o in ("tup",): return v.a[i] if i < len(v.a) else mk("bot")
        if o == "clo": return v.a[2 + i]
        if o == "ov":
            for kk, x in v.a[1]:
                if kk == e: return x
            return proj(v.a[0], e)
        return mk("fld", v, e[2])
    if k == "d":
        if o == "box": return v.a[0]
        if o == "ov":
            for kk, x in v.a[1]:
                if kk == e: return x
            return proj(v.a[0], e)
        return mk("*", v)
    if k == "idx":
        return seqget(v, e[1])
    if k == "sub":
        if v.op == "subseq": return mk("subseq", v.a[0], add(v.a[1], e[1]), add(v.a[1], e[2]))
        return mk("subseq", v, e[1], e[2])
    raise Exception(e)


def upd(v, path, val):
    if not path: return val
    e = path[0]
    k = e[0]
    o = v.op
    if k == "sub":
        if len(path) == 1: return mk("sym", "havoc", v, e[1], e[2])
        e2 = path[1]
        if e2[0] == "idx": return upd(v, (("idx", add(e[1], e2[1])),) + path[2:], val)
        raise Exception("sub write")
    new = upd(proj(v, e), path[1:], val) if len(path) > 1 else val
    if k == "f":
        i = e[1]
        if o == "adt" and 3 + i < len(v.a):
            a = list(v.a)
            a[3 + i] = new
            return mk("adt", *a)
        if o == "tup" and i < len(v.a):
            a = list(v.a)
            a[i] = new
            return mk("tup", *a)
        if o == "clo":
            a = list(v.a)
            a[2 + i] = new
            return mk("clo", *a)
    if k == "d" and o == "box": return mk("box", new)
    if k == "idx":
        i = e[1]
        if o == "vec" and i.op == "c" and 0 <= i.a[0] < len(v.a):
            a = list(v.a)
            a[i.a[0]] = new
            return mk("vec", *a)
        if o == "st":
            if v.a[1] is i: return mk("st", v.a[0], i, new)
            d = sub(v.a[1], i)
            if d.op == "c" and d.a[0] != 0 and v.a[1].op == "c" and i.op == "c" and i.a[0] < v.a[1].a[0]:
                return mk("st", upd(v.a[0], (e,), new), v.a[1], v.a[2])
        return mk("st", v, i, new)
    # overlay on an opaque aggregate
    if o == "ov":
        base, ents = v.a
        ents = tuple(sorted([x for x in ents if x[0] != e] + [(e, new)], key=lambda x: (x[0][0],) + tuple(map(str, x[0][1:]))))
        return mk("ov", base, ents)
    return mk("ov", v, ((e, new),))


def normpath(p):
    """merge ('sub',lo,hi) followed by idx/sub"""
    o = []
    for e in p:
        if o and o[-1][0] == "sub":
            s = o[-1]
            if e[0] == "idx":
                o[-1] = ("idx", add(s[1], e[1]))
                continue
            if e[0] == "sub":
                o[-1] = ("sub", add(s[1], e[1]), add(s[1], e[2]))
                continue
        o.append(e)
    return tuple(o)


def elemref(b, i):
    if b.op == "ref": return mk("ref", b.a[0], normpath(b.a[1] + (("idx", i),)), b.a[2])
    return mk("ref", mk("O", b), (("idx", i),), True)


def fieldref(b, i, name):
    if b.op == "ref": return mk("ref", b.a[0], b.a[1] + (("f", i, name),), b.a[2])
    return mk("ref", mk("O", b), (("f", i, name),), True)


class Budget(Exception): pass


INF = 1 << 130
NUMOP = ("c", "lin", "sym", "len")


class State:
    __slots__ = ("mem", "facts", "ghost", "trace")

    def __init__(self):
        self.mem, self.facts, self.ghost, self.trace = {}, {}, (), None

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.ghost = self.ghost
        s.trace = self.trace
        return s

    def note(self, x):
        self.trace = (x, self.trace)

    def path(self, n=60):
        o, t = [], self.trace
        while t and len(o) < n:
            o.append(t[0])
            t = t[1]
        return o[::-1]

    def g(self, k, d=None):
        for a, b in self.ghost:
            if a == k: return b
        return d

    def setg(self, k, v):
        self.ghost = tuple(sorted([(a, b) for a, b in self.ghost if a != k] + ([(k, v)] if v is not None else []), key=lambda x: x[0]))

    # ---- memory
    # symbolic ghosts: renamed and joined like memory
    def gv(self, k): return self.mem.get(mk("G", k))

    def setgv(self, k, v):
        if v is None: self.mem.pop(mk("G", k), None)
        else: self.mem[mk("G", k)] = v

    def root(self, r):
        v = self.mem.get(r)
        if v is not None: return v
        if r.op == "O": return mk("*", r.a[0])
        if r.op == "K": return r.a[0]
        if r.op == "S": return mk("static", r.a[0])
        return mk("uninit")

    def load(self, r, path):
        v = self.root(r)
        for e in path: v = proj(v, e)
        return v

    def deref(self, v):
        if v.op == "ref": return self.load(v.a[0], v.a[1])
        if v.op == "box": return v.a[0]
        return self.load(mk("O", v), ())

    def store(self, r, path, val):
        self.mem[r] = upd(self.root(r), path, val) if path else val

    def store_ref(self, v, val):
        if v.op == "ref": self.store(v.a[0], v.a[1], val)
        else: self.store(mk("O", v), (), val)

    # ---- facts: numeric forms -> (lo, hi, excluded); boolean terms -> bool
    def tb(self, t):
        f = self.facts.get(t)
        lo, hi = (0, INF) if t.op in NONNEG else (-INF, INF)
        if t.op == "sym" and t.a[0] == "u": lo = 0
        elif t.op == "bin" and t.a[0] in ("Div", "Rem", "Shr") and self.bnd(t.a[1])[0] >= 0 and (t.a[0] == "Shr" or self.bnd(t.a[2])[0] > 0): lo = 0
        if f is not None and not isinstance(f, bool): return max(lo, f[0]), min(hi, f[1])
        return lo, hi

    def bnd(self, X):
        """bounds of a linear value"""
        c, ts = lin_parts(X)
        return self._bnd(c, ts, 2)

    def _bnd(self, c, ts, depth):
        lo = hi = c
        for t, k in ts.items():
            if not k: continue
            a, b = self.tb(t)
            if k < 0: a, b = b, a
            lo = -INF if abs(a) >= INF else lo + k * a if lo > -INF else lo
            hi = INF if abs(b) >= INF else hi + k * b if hi < INF else hi
        if len(ts) > 1 or depth < 2:
            X, fl = canon(ts) if any(ts.values()) else (None, False)
            if X is not None:
                f = self.facts.get(X)
                if f is not None and not isinstance(f, bool):
                    a, b = f[0], f[1]
                    if fl: a, b = -b, -a
                    if a > -INF: lo = max(lo, a + c)
                    if b < INF: hi = min(hi, b + c)
        if depth and any(ts.values()):
            for F, f in self.facts.items():
                if isinstance(f, bool) or F.op != "lin": continue
                fts = F.a[1]
                if not any(t in ts for t, _ in fts): continue
                for s in (1, -1):
                    r = dict(ts)
                    ok = False
                    for t, k in fts:
                        if r.get(t, 0) * k * s > 0: ok = True
                        r[t] = r.get(t, 0) - s * k
                    if not ok: continue
                    r = {t: k for t, k in r.items() if k}
                    if len(r) > len([1 for k in ts.values() if k]): continue
                    l2, h2 = self._bnd(c, r, depth - 1)
                    a, b = f[0], f[1]
                    if s < 0: a, b = -b, -a
                    if a > -INF and l2 > -INF: lo = max(lo, a + l2)
                    if b < INF and h2 < INF: hi = min(hi, b + h2)
        return lo, hi

    def decide(self, t):
        """TRUE / FALSE / None"""
        o = t.op
        if o == "b": return t
        if o == "not":
            r = self.decide(t.a[0])
            return None if r is None else nnot(r)
        if o == "and":
            x, y = self.decide(t.a[0]), self.decide(t.a[1])
            if x is FALSE or y is FALSE: return FALSE
            if x is TRUE and y is TRUE: return TRUE
            return None
        if o == "le":
            lo, hi = self.bnd(t.a[0])
            if hi <= t.a[1]: return TRUE
            if lo > t.a[1]: return FALSE
            return None
        if o == "eqk":
            lo, hi = self.bnd(t.a[0])
            k = t.a[1]
            if lo == hi == k: return TRUE
            if not lo <= k <= hi: return FALSE
            f = self.facts.get(t.a[0])
            if f and k in f[2]: return FALSE
            return None
        f = self.facts.get(t)
        if f is None: return None
        return C(bool(f)) if isinstance(f, bool) else None

    def assume(self, t, val=True):
        """adds the branch fact; False when contradictory"""
        d = self.decide(t)
        if d is not None: return d.a[0] == val
        o = t.op
        if o == "not": return self.assume(t.a[0], not val)
        if o == "and":
            if val: return self.assume(t.a[0]) and self.assume(t.a[1])
            x, y = self.decide(t.a[0]), self.decide(t.a[1])
            if x is TRUE: return self.assume(t.a[1], False)
            if y is TRUE: return self.assume(t.a[0], False)
            self.facts[t] = False
            return True
        if o in ("le", "eqk"):
            X, k = t.a
            f = self.facts.get(X)
            lo, hi, ne = f if f is not None and not isinstance(f, bool) else (-INF, INF, EMPTY)
            if X.op in NONNEG: lo = max(lo, 0)
            if o == "le":
                if val: hi = min(hi, k)
                else: lo = max(lo, k + 1)
            elif val: lo = hi = k
            else: ne = ne | {k}
            while lo in ne: lo += 1
            while hi in ne: hi -= 1
            if lo > hi: return False
            ne = frozenset(x for x in ne if lo <= x <= hi)
            self.facts[X] = (lo, hi, ne)
            return True
        self.facts[t] = val
        return True


class Call:
    __slots__ = ("st", "p", "path", "key", "args", "f", "bb", "span", "ctx", "callee", "dty", "ops", "unwind", "vw", "keep")


# ------------------------------------------------------------------ control flow graphs
class Cfg:
    """blocks, weak topological order, liveness of one function"""
    def __init__(self, f):
        self.f = f
        n = len(f.blocks)
        self.succ = [self.succs(b["t"]) for b in f.blocks]
        self.live = self.liveness()
        self.wto = self.build()

    @staticmethod
    def succs(t):
        k = t[0]
        if k == "goto": return [t[1]]
        if k == "switch":
            o = [b for _, b in t[2]] + [t[3]]
            return list(dict.fromkeys(o))
        if k == "drop": return [t[2]]
        if k == "call": return [t[4]] if t[4] is not None else []
        if k == "assert": return [t[4]]
        if k == "yield": return [x for x in t[1:3] if x is not None]
        return []

    def build(self):
        # recursive strategy of Bourdoncle
        succ = self.succ
        sys.setrecursionlimit(20000)

        def sccs(nodes, entry):
            nodes = set(nodes)
            idx, low, st, on, out, cnt = {}, {}, [], set(), [], [0]

            def go(v):
                work = [(v, iter([w for w in succ[v] if w in nodes]))]
                idx[v] = low[v] = cnt[0]
                cnt[0] += 1
                st.append(v)
                on.add(v)
                while work:
                    u, it = work[-1]
                    adv = False
                    for w in it:
                        if w not in idx:
                            idx[w] = low[w] = cnt[0]
                            cnt[0] += 1
                            st.append(w)
                            on.add(w)
                            work.append((w, iter([x for x in succ[w] if x in nodes])))
                            adv = True
                            break
                        elif w in on: low[u] = min(low[u], idx[w])
                    if adv: continue
                    work.pop()
                    if work: low[work[-1][0]] = min(low[work[-1][0]], low[u])
                    if low[u] == idx[u]:
                        c = []
                        while True:
                            w = st.pop()
                            on.discard(w)
                            c.append(w)
                            if w == u: break
                        out.append((u, c))
            go(entry)
            return out[::-1]

        def order(nodes, entry):
            res = []
            for h, c in sccs(nodes, entry):
                if len(c) == 1 and h not in succ[h]: res.append(h)
                else:
                    sub_nodes = [x for x in c if x != h]
                    subs = []
                    seen = set()
                    # entries reachable from h within the component
                    rest = set(sub_nodes)
                    if rest:
                        # virtual entry: order over all successors of h in rest
                        subs = order_multi(rest, [w for w in succ[h] if w in rest])
                    res.append((h, subs, frozenset(c)))
            return res

        def order_multi(nodes, entries):
            # add a virtual root
            nonlocal succ
            r = len(succ)
            succ = succ + [list(entries)]
            x = order(set(nodes) | {r}, r)
            return [y for y in x if y != r]

        w = order(range(len(self.f.blocks)), 0)
        return w

    def uses(self, b):
        """(use, kill) in backward order as a list of (kind, local)"""
        ev = []

        def pl(p, store=False):
            l, pr = p
            if store and not pr: ev.append(("k", l))
            else: ev.append(("u", l))
            for e in pr:
                if e[0] == "i": ev.append(("u", e[1]))

        def op(o):
            if o[0] in "cm": pl(o[1])

        def rv(r):
            k = r[0]
            if k in ("use",): op(r[1])
            elif k == "repeat": op(r[1])
            elif k in ("ref", "reborrow"): pl(r[2])
            elif k == "raw": pl(r[1] if isinstance(r[1][0], int) else r[2])
            elif k == "cast": op(r[2])
            elif k == "bin": op(r[2]); op(r[3])
            elif k == "un": op(r[2])
            elif k == "discr": pl(r[1])
            elif k == "agg":
                for o in r[2]: op(o)
        t = b["t"]
        # order: statements then terminator; each event list forward with uses before kills
        for s in b["s"]:
            if s[0] == "=":
                rv(s[2])
                pl(s[1], True)
            elif s[0] == "dead": ev.append(("k", s[1]))
            elif s[0] == "sd": ev.append(("u", s[1][0]))
        if t[0] == "switch": op(t[1])
        elif t[0] == "call":
            op(t[1])
            for a in t[2]: op(a)
            pl(t[3], True)
        elif t[0] == "drop": pl(t[1])
        elif t[0] == "assert": op(t[1])
        elif t[0] == "return": ev.append(("u", 0))
        return ev

    def liveness(self):
        n = len(self.f.blocks)
        evs = [self.uses(b)[::-1] for b in self.f.blocks]
        live = [EMPTY] * n
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(self.succ):
            for s in ss: pred[s].append(i)
        work = list(range(n))
        inw = set(work)
        while work:
            b = work.pop()
            inw.discard(b)
            l = set()
            for s in self.succ[b]: l |= live[s]
            for k, x in evs[b]:
                if k == "k": l.discard(x)
                else: l.add(x)
            if l != live[b]:
                live[b] = frozenset(l)
                for p in pred[b]:
                    if p not in inw:
                        work.append(p)
                        inw.add(p)
        return live


# ------------------------------------------------------------------ engine
def replace_term(v, m, cache=None):
    """replace arbitrary sub-terms"""
    if not isinstance(v, V):
        return tuple(replace_term(x, m, cache) for x in v) if isinstance(v, tuple) else v
    if v in m: return m[v]
    if cache is None: cache = {}
    r = cache.get(v)
    if r is None:
        a = tuple(replace_term(x, m, cache) for x in v.a)
        r = v if a == v.a else rebuild(v.op, a)
        cache[v] = r
    return r


def subterms(v, out=None):
    if out is None: out = set()
    if isinstance(v, tuple):
        for x in v: subterms(x, out)
    elif isinstance(v, V) and v not in out:
        out.add(v)
        for x in v.a: subterms(x, out)
    return out


def uninit(): return mk("uninit")


class SynFn:
    """synthetic function (loop bodies of collect/retain/...)"""
    def __init__(self, i, path, argc, nloc, blocks):
        self.id, self.path, self.argc = i, path, argc
        self.locals = [[0]] * nloc
        self.blocks = blocks
        self.names = {}
        self.d = {"span": path, "kind": "syn", "path": path, "full": path}
        self.span = path


class Engine:
    def __init__(self, prog, monitors=(), opaque=None, budget=400000, maxparts=200, inline=None, split=None, exact=False):
        self.exact = exact
        self.keepctx = None
        self.depth = 0
        self.split = split
        self.p = prog
        self.mon = list(monitors)
        self.opaque = opaque or (lambda path: False)
        self.inline = inline
        self.ctxs = {}
        self.ctxinfo = [None]
        self.tagsyms = {}
        self.ctxsyms = {}
        self.frames = []
        self.steps = 0
        self.budget = budget
        self.maxparts = maxparts
        self.counters = False   # keep sums with counters across loops
        for m in monitors: m.engine = self
        self.cfgs = {}
        self.panics = []
        self.visited = set()
        self.unmodelled = {}
        self.keyids = {}
        self.syn = {}
        self.stack = []
        from models import lookup
        self.lookup = lookup
        for m in self.mon: m.eng = self

    # ---- contexts
    def ctx(self, parent, fid, site):
        k = (parent, fid, site)
        c = self.ctxs.get(k)
        if c is None:
            c = len(self.ctxinfo)
            self.ctxs[k] = c
            self.ctxinfo.append(k)
        return c

    def in_chain(self, ctx, fid):
        n = 0
        while ctx:
            p, f, _ = self.ctxinfo[ctx]
            if f == fid: n += 1
            ctx = p
        return n

    def sym(self, ctx, *tag):
        s = mk("sym", *tag) if ctx is None else mk("sym", tag[0], ctx, *tag[1:])
        if ctx is not None: self.ctxsyms.setdefault(ctx, set()).add(s)
        return s

    def fresh(self, st, c, tag="call", *extra):
        """value produced at a call site; older values of the same site are renamed"""
        s = self.sym(c.ctx, tag, c.bb, *extra)
        self.age(st, {s})
        return s

    def L(self, ctx, l): return mk("L", ctx, l)

    # ---- ageing of symbols whose site is executed again
    def age(self, st, S):
        hit = set()
        S = frozenset(S)
        for r, v in st.mem.items():
            if not r.syms.isdisjoint(S): hit |= r.syms & S
            if not v.syms.isdisjoint(S): hit |= v.syms & S
        for t in st.facts:
            if not t.syms.isdisjoint(S): hit |= t.syms & S
        if not hit: return
        olds = {mk("sym", "old", s): s for s in hit}
        both = frozenset(hit) | frozenset(olds)
        m = {s: o for o, s in olds.items()}
        for r in list(st.mem):
            v = st.mem[r]
            if v.syms.isdisjoint(both) and r.syms.isdisjoint(both): continue
            mm = m
            if not v.syms.isdisjoint(olds):
                mm = dict(m)
                for o, s in olds.items(): mm[o] = mk("sym", "unk", s, r)
            nv = substv(v, mm)
            if r.syms.isdisjoint(both): st.mem[r] = nv
            else:
                del st.mem[r]
                if r.syms.isdisjoint(olds): st.mem[substv(r, m)] = nv
        for t in list(st.facts):
            if t.syms.isdisjoint(both): continue
            f = st.facts.pop(t)
            if t.syms.isdisjoint(olds):
                self.setfact(st, substv(t, m), f)

    def setfact(self, st, t, f):
        """re-add a fact after renaming (the linear form may have changed sign/offset)"""
        if isinstance(f, bool):
            if t.op in ("b",): return
            if t.op in ("le", "eqk", "not", "and"):
                st.assume(t, f)
            else: st.facts[t] = f
            return
        c, ts = lin_parts(t)
        ts = {x: k for x, k in ts.items() if k}
        if not ts: return
        X, fl = canon(ts)
        lo, hi, ne = f
        lo, hi, ne = lo - c if lo > -INF else lo, hi - c if hi < INF else hi, frozenset(x - c for x in ne)
        if fl: lo, hi, ne = -hi, -lo, frozenset(-x for x in ne)
        g = st.facts.get(X)
        if g is not None and not isinstance(g, bool):
            lo, hi, ne = max(lo, g[0]), min(hi, g[1]), ne | g[2]
        if lo > hi: return
        st.facts[X] = (lo, hi, ne)

    # ---- garbage collection, partition key
    def gc(self, st, ctx, live):
        keep = set()
        if live is not None:
            for l in live: keep.add(self.L(ctx, l))
        for fr in self.frames: keep |= fr
        mem = st.mem
        seen = set()
        work = [r for r in keep if r in mem]
        work += [r for r in mem if r.op not in ("L",) and not r.syms and r.op != "H"]
        syms = set()
        new = {}
        late = [r for r in mem if r.op != "L" and (r.syms or r.op == "H")]
        while True:
            while work:
                r = work.pop()
                if r in seen or r not in mem: continue
                seen.add(r)
                v = mem[r]
                syms |= v.syms
                for x in refroots(v):
                    if x not in seen: work.append(x)
            more = [r for r in late if r not in seen and r.op != "H" and r.syms <= syms]
            if not more: break
            work = more
        if len(seen) != len(mem):
            st.mem = {r: v for r, v in mem.items() if r in seen}
        if st.facts:
            st.facts = {t: f for t, f in st.facts.items() if t.syms <= syms}

    def pkey(self, st, level=0):
        if level >= 2: return (st.ghost,)
        if self.exact and level == 0: return (st.ghost, tuple(sorted((r.id, v.id) for r, v in st.mem.items())))
        ks = []
        lv = set()
        for r, v in st.mem.items():
            if r.op == "O" and r.a[0].op == "elem": continue
            s = shape(v)
            if s != "#" and s != "r": ks.append((r.id, s))
            lv |= leaves(v)
        ks.sort(key=lambda x: x[0])
        if level == 1: return (st.ghost, tuple(ks))
        fs = []
        for t, f in st.facts.items():
            if isinstance(f, bool):
                if t in lv or self.split and self.split(t): fs.append((t.id, f))
            elif self.split and self.split(t): fs.append((t.id, f))
            elif t.op == "discr" and f[0] == f[1] and t.a[0] in lv: fs.append((t.id, f[0]))
        fs.sort()
        return (st.ghost, tuple(ks), tuple(fs))

    def keyid(self, ctx, bb, key):
        d = self.keyids.setdefault((ctx, bb), {})
        k = d.get(key)
        if k is None:
            k = len(d)
            d[key] = k
        return k

    # ---- join
    def join(self, tag, o, n, head, grow=True):
        ts = self.tagsyms.setdefault(tag, set())
        pairs = {}

        def strip(a, b):
            """common constant offset of two linear terms, so that x and x + 1 join to P and P + 1"""
            if a.op == "lin" and b.op == "lin":
                k = min(a.a[0], b.a[0])
                if k and a.a[0] == b.a[0] or 0 < k <= 4: return sub(a, C(k)), sub(b, C(k)), k
            elif a.op == "lin" and a.a[0] and b.op == "c" or a.op == "c" and b.op == "lin" and b.a[0]:
                k = (b if a.op == "c" else a).a[0]
                return sub(a, C(k)), sub(b, C(k)), k
            return a, b, 0

        def lift(a, b):
            """an opaque aggregate next to its own overlay: an overlay without entries"""
            if a.op == "ov" and b.op != "ov" and b is a.a[0]: return a, mk("ov", b, ())
            if b.op == "ov" and a.op != "ov" and a is b.a[0]: return mk("ov", a, ()), b
            return a, b

        def walk(a, b, root, path):
            if a is b:
                if a.syms.isdisjoint(ts): return
            a, b = lift(a, b)
            oa = a.op
            if oa == b.op:
                if oa == "adt" and a.a[2] == b.a[2] and len(a.a) == len(b.a) and a.a[0] == b.a[0]:
                    for i in range(3, len(a.a)): walk(a.a[i], b.a[i], root, path + (i,))
                    return
                if oa in ("tup", "vec", "box") and len(a.a) == len(b.a):
                    for i in range(len(a.a)): walk(a.a[i], b.a[i], root, path + (i,))
                    return
                if oa == "clo" and a.a[0] == b.a[0]:
                    for i in range(2, len(a.a)): walk(a.a[i], b.a[i], root, path + (i,))
                    return
                if oa == "it" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
                    for i in range(1, len(a.a)): walk(a.a[i], b.a[i], root, path + (i,))
                    return
                if oa == "ref" and a.a[0] is b.a[0] and len(a.a[1]) == len(b.a[1]) and all(x[0] == y[0] and (x[0] in ("idx", "sub") or x == y) for x, y in zip(a.a[1], b.a[1])):
                    for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
                        if x[0] in ("idx", "sub"):
                            for j in range(1, len(x)): walk(x[j], y[j], root, path + (i, j))
                    return
                if oa == "ov" and a.a[0] is b.a[0] and a.a[0].syms.isdisjoint(ts):
                    ks = {k for k, _ in a.a[1]} | {k for k, _ in b.a[1]}
                    for k in sorted(ks, key=str): walk(proj(a, k), proj(b, k), root, path + (k[1],))
                    return
            a, b, _ = strip(a, b)
            pairs.setdefault((a, b), []).append((root, path))

        omem, nmem = o.mem, n.mem
        common = [r for r in omem if r in nmem]
        # roots known on one side only: opaque roots have default contents
        for r in list(omem) + list(nmem):
            if r.op in ("O", "K", "S") and not (r in omem and r in nmem): common.append(r)
        common = list(dict.fromkeys(common))
        for r in common: walk(o.root(r), n.root(r), r, ())
        used = {a for a, _ in pairs if a in ts}
        ren = {}
        mo, mn = {}, {}
        order = sorted(pairs.items(), key=lambda kv: min((r.id, p) for r, p in kv[1]))
        taken = set()
        for (a, b), locs in order:
            if a in ts:
                rep = a.a[-1]
                if rep in [(r, p) for r, p in locs] and a not in taken:
                    ren[(a, b)] = a
                    taken.add(a)
        # values that moved by the same amount stay the same distance apart
        base, der = {}, {}
        for (a, b), locs in sorted(order, key=lambda x: x[0] not in ren):
            if a is b or not (a.op in NUMOP and b.op in NUMOP) or a.op == "c" and type(a.a[0]) is not int or b.op == "c" and type(b.a[0]) is not int: continue
            d = sub(b, a)
            b0 = base.setdefault(d, (a, b))
            if b0[0] is a or (a, b) in ren: continue
            if b0 not in ren and b0[0].op == "c" and a.op == "c": continue
            off = sub(a, b0[0])
            if off.syms.isdisjoint(ts): der[(a, b)] = (b0, off)
        for (a, b), locs in order:
            if (a, b) in ren or (a, b) in der: continue
            nonneg = "u" if self.nonneg(o, a) and self.nonneg(n, b) else "phi"
            for r, p in sorted(locs, key=lambda x: (x[0].id, x[1])):
                P = mk("sym", nonneg, tag, (r, p))
                if P not in taken and (P not in used): break
            else:
                k = 0
                while True:
                    P = mk("sym", nonneg, tag, k, (r, p))
                    if P not in taken and P not in used: break
                    k += 1
            ren[(a, b)] = P
            taken.add(P)
        for (a, b), P in ren.items():
            ts.add(P)
            self.ctxsyms.setdefault(tag[0], set()).add(P)
            mo[P] = a
            mn[P] = b

        for ab, (b0, off) in der.items(): ren[ab] = add(ren[b0], off)

        def build(a, b):
            if a is b and a.syms.isdisjoint(ts): return a
            x, y, k = strip(a, b)
            P = ren.get((x, y))
            if P is not None: return add(P, C(k)) if k else P
            a, b = lift(a, b)
            P = ren.get((a, b))
            if P is not None: return P
            oa = a.op
            if oa == "adt": return mk("adt", *a.a[:3], *[build(x, y) for x, y in zip(a.a[3:], b.a[3:])])
            if oa in ("tup", "vec", "box"): return mk(oa, *[build(x, y) for x, y in zip(a.a, b.a)])
            if oa == "clo": return mk("clo", *a.a[:2], *[build(x, y) for x, y in zip(a.a[2:], b.a[2:])])
            if oa == "it": return mk("it", a.a[0], *[build(x, y) for x, y in zip(a.a[1:], b.a[1:])])
            if oa == "ref":
                return mk("ref", a.a[0], tuple((x[0],) + tuple(build(p, q) for p, q in zip(x[1:], y[1:])) if x[0] in ("idx", "sub") else x for x, y in zip(a.a[1], b.a[1])), a.a[2])
            if oa == "ov":
                ks = sorted({k for k, _ in a.a[1]} | {k for k, _ in b.a[1]}, key=lambda x: (x[0],) + tuple(map(str, x[1:])))
                return mk("ov", a.a[0], tuple((k, build(proj(a, k), proj(b, k))) for k in ks))
            raise Exception("join: " + show(a)[:300] + "   //   " + show(b)[:300])

        r = State()
        for x in common: r.mem[x] = build(o.root(x), n.root(x))
        r.ghost = o.ghost
        r.trace = o.trace
        # ---- facts
        cand = {}
        for F in o.facts: cand[F] = 1
        inv = {}
        for P, a in mo.items():
            if a is not P and a.op not in ("c", "b", "unit", "s", "adt", "vec", "tup", "ref", "bot", "uninit"): inv[a] = P
        if inv:
            for F in o.facts:
                G = replace_term(F, inv)
                if G is not F: cand[self.normform(G)] = 1
            # lengths inside a minimum or maximum: the plain renaming above loses what they bound
            inner = {y for F in o.facts for t in (dict(F.a[1]) if F.op == "lin" else {F: 1}) if t.op in ("min", "max") for x in t.a for y in (dict(x.a[1]) if x.op == "lin" else {x: 1}) if y.op == "len"}
            for a, P in inv.items():
                L = mk("len", a)
                if L in inner: cand[self.normform(sub(mk("len", P), L))] = 1
        if grow:
            inv2 = {}
            for P, b in mn.items():
                if b is P: continue
                c, tt = lin_parts(b)
                if len(tt) == 1:
                    t, k = next(iter(tt.items()))
                    if k == 1 and t.op not in ("adt",) and t not in inv2: inv2[t] = sub(P, C(c))
            for F in n.facts:
                cand[F] = 1
                if inv2:
                    G = replace_term(F, inv2)
                    if G is not F: cand[self.normform(G)] = 1
        for P in mo: cand[P] = 1
        if head and grow and self.counters:
            # a counter that starts from a constant: what bounded a sum or difference before bounds it with the counter
            cnt = [P for P in mo if mo[P].op == "c" and mn[P].op == "c" and type(mo[P].a[0]) is int and type(mn[P].a[0]) is int]
            if 0 < len(cnt) <= 4:
                two = []
                for F in o.facts:
                    if F.op != "lin" or len(F.a[1]) != 2 or isinstance(o.facts[F], bool): continue
                    if inv: F = replace_term(F, inv)
                    if F.op != "lin" or not F.syms & ts <= set(mo) or n.bnd(substv(F, mn)) == (-INF, INF): continue
                    two.append(F)
                for P in cnt:
                    for F in two[:40]:
                        for G in (add(F, P), sub(F, P)): cand[self.normform(G)] = 1
        if grow:
            # a variable with one constant on either side, next to something whose bound moves along with it
            cnt = [P for P in mo if mo[P].op == "c" and mn[P].op == "c" and type(mo[P].a[0]) is int and type(mn[P].a[0]) is int]
            if 0 < len(cnt) <= 8:
                for F, f in o.facts.items():
                    if isinstance(f, bool) or F.op in ("c", "b") or F in mo: continue
                    g = n.facts.get(F)
                    if g is None or isinstance(g, bool) or g[:2] == f[:2]: continue
                    for P in cnt:
                        d = mn[P].a[0] - mo[P].a[0]
                        if f[0] > -INF and g[0] - f[0] == d or f[1] < INF and g[1] - f[1] == d: cand[self.normform(sub(F, P))] = 1
        curr = set(mo)
        for X in cand:
            if X is None or X.op in ("b", "c"): continue
            if not X.syms.isdisjoint(ts) and not (X.syms & ts) <= curr: continue
            xo = substv(X, mo) if not X.syms.isdisjoint(curr) else X
            xn = substv(X, mn) if not X.syms.isdisjoint(curr) else X
            f = o.facts.get(X)
            isb = X.op in ("le", "eqk", "eq", "and", "not", "app") or isinstance(f, bool) or isinstance(n.facts.get(X), bool)
            if X.op == "sym" and X in curr:
                a, b = mo[X], mn[X]
                isb = a.op in ("b", "le", "eqk", "eq", "and", "not") or b.op in ("b", "le", "eqk", "eq", "and", "not") or isinstance(o.facts.get(a), bool) or isinstance(n.facts.get(b), bool)
            if isb:
                do = o.decide(xo) if X not in o.facts or xo is not X else C(bool(o.facts[X])) if isinstance(o.facts[X], bool) else None
                if do is None: continue
                dn = n.decide(xn)
                if dn is do: r.facts[X] = do.a[0]
                continue
            if xo.op in AGG or xn.op in AGG or xo.op in ("ref", "fn", "bot", "unit", "uninit", "s", "it", "box") or xn.op in ("ref", "fn", "bot", "unit", "uninit", "s", "it", "box"): continue
            lo, hi = o.bnd(xo)
            if lo <= -INF and hi >= INF and not (f and not isinstance(f, bool) and f[2]): continue
            l2, h2 = n.bnd(xn)
            if head and f is not None and not isinstance(f, bool) and not grow:
                lo = lo if l2 >= lo else -INF
                hi = hi if h2 <= hi else INF
            else: lo, hi = min(lo, l2), max(hi, h2)
            if head and not grow and f is None and X not in curr: continue
            ne = EMPTY
            if f and not isinstance(f, bool) and f[2]:
                ne = frozenset(k for k in f[2] if lo <= k <= hi and n.decide(eq(xn, C(k))) is FALSE)
            if X.op in NONNEG or X.op == "sym" and X.a[0] == "u":
                if lo <= 0 and hi >= INF and not ne: continue
            if lo > -INF or hi < INF or ne: r.facts[X] = (lo, hi, ne)
        return r

    def normform(self, G):
        if G.op in ("lin",):
            c, ts = lin_parts(G)
            ts = {t: k for t, k in ts.items() if k}
            if not ts: return None
            return canon(ts)[0]
        if G.op == "not": return G.a[0]
        return G

    def nonneg(self, st, v):
        if v.op == "c": return isinstance(v.a[0], int) and v.a[0] >= 0
        if v.op in ("lin", "sym", "len", "cnt", "idx", "fld", "arg"):
            return st.bnd(v)[0] >= 0
        return v.op in NONNEG

    def same(self, a, b):
        return a.mem == b.mem and a.facts == b.facts

    # ---- one activation
    def cfg(self, fn):
        c = self.cfgs.get(fn.id)
        if c is None: c = self.cfgs[fn.id] = Cfg(fn)
        return c

    def run_fn(self, fn, args, st, ctx):
        """returns [(state, ret value)]"""
        cfg = self.cfg(fn)
        self.visited.add(fn.id)
        st = st.copy()
        for i, a in enumerate(args): st.mem[self.L(ctx, i + 1)] = a
        syms = self.ctxsyms.get(ctx)
        if syms:
            pres = set()
            allsyms = set()
            for v in st.mem.values(): allsyms |= v.syms
            for t in st.facts: allsyms |= t.syms
            pres = {s for s in syms if s in allsyms}
            if pres: self.age(st, pres)
        inc = [dict() for _ in fn.blocks]
        inc[0][-1] = [st]
        rets = {}
        self.stack.append((fn, ctx))

        def process(bb, states):
            out = {}
            for s in states:
                self.exec_block(fn, ctx, bb, s.copy(), out, cfg)
            for x in cfg.succ[bb]: inc[x][bb] = out.get(x, [])
            if "ret" in out: rets[bb] = out["ret"]
            else: rets.pop(bb, None)

        def merged(bb):
            sts = [s for ss in inc[bb].values() for s in ss]
            return self.merge(sts, ctx, bb, cfg.live[bb])

        def run(items):
            for it in items:
                if isinstance(it, int): process(it, merged(it))
                else:
                    h, sub, comp = it
                    for x in list(inc[h]):
                        if x in comp: del inc[h][x]
                    acc, rounds = {}, {}
                    if self.exact:
                        # concrete-like exploration: every state is followed once, exits are collected
                        outs, outr, todo = {}, {}, None
                        for _ in range(600):
                            sts = [s for ss in inc[h].values() for s in ss]
                            if _ and not sts: break
                            before = dict(acc)
                            ch = self.widen(acc, rounds, sts, ctx, h, cfg.live[h])
                            if not ch: break
                            for x in list(inc[h]): del inc[h][x]
                            for b in comp:
                                if b != h: inc[b].clear()
                            process(h, [s for k, s in acc.items() if before.get(k) is not s])
                            run(sub)
                            for b in comp:
                                for x in cfg.succ[b]:
                                    if x not in comp and b in inc[x]:
                                        outs.setdefault((x, b), []).extend(inc[x].pop(b))
                                if b in rets: outr.setdefault(b, []).extend(rets.pop(b))
                            for b in comp:
                                if b != h: inc[b].clear()
                        else: raise Budget(f"no fixpoint in {fn.path} bb{h}")
                        for (x, b), ss in outs.items(): inc[x][b] = ss
                        rets.update(outr)
                        continue
                    for _ in range(60):
                        sts = [s for ss in inc[h].values() for s in ss]
                        ch = self.widen(acc, rounds, sts, ctx, h, cfg.live[h])
                        if not ch: break
                        process(h, list(acc.values()))
                        run(sub)
                    else: raise Budget(f"no fixpoint in {fn.path} bb{h}")
        run(cfg.wto)
        self.stack.pop()
        sts = []
        for ss in rets.values(): sts += ss
        if len(sts) > 1 or True:
            for s in sts: self.gc(s, ctx, (0,))
            sts = self.merge(sts, ctx, "ret", (0,), gced=True)
        out = []
        r0 = self.L(ctx, 0)
        for s in sts:
            v = s.mem.pop(r0, UNIT)
            if ctx != self.keepctx:
                for r in [r for r in s.mem if r.op == "L" and r.a[0] == ctx]: del s.mem[r]
            out.append((s, v))
        return out

    def merge(self, sts, ctx, bb, live, gced=False):
        if not sts: return []
        if not gced:
            sts = [s.copy() for s in sts]
            for s in sts: self.gc(s, ctx, live)
        if len(sts) == 1: return sts
        for level in (0, 1, 2):
            groups = {}
            for s in sts: groups.setdefault(self.pkey(s, level), []).append(s)
            if len(groups) <= self.maxparts: break
        out = []
        for k, g in groups.items():
            if len(g) == 1:
                out.append(g[0])
                continue
            tag = (ctx, bb, self.keyid(ctx, bb, k))
            acc = None
            ts = self.tagsyms.setdefault(tag, set())
            # drop exact duplicates first
            uniq = []
            for s in g:
                if not any(self.same(s, u) for u in uniq): uniq.append(s)
            if len(uniq) == 1:
                out.append(uniq[0])
                continue
            for s in uniq:
                if ts: self.age(s, set(ts))
            acc = uniq[0]
            ts0 = set(ts)
            for s in uniq[1:]: acc = self.join(tag, acc, s, False)
            out.append(acc)
        return out

    def widen(self, acc, rounds, sts, ctx, bb, live):
        changed = False
        sts = [s.copy() for s in sts]
        for s in sts: self.gc(s, ctx, live)
        level = rounds.get("level", 0)
        while True:
            ks = set(acc) | {self.pkey(s, level) for s in sts}
            if len(ks) <= self.maxparts or level >= 2: break
            level += 1
            rounds["level"] = level
            old = list(acc.values())
            acc.clear()
            sts = old + sts
            changed = True
        for s in sts:
            k = self.pkey(s, level)
            a = acc.get(k)
            if a is None:
                acc[k] = s
                changed = True
                continue
            if self.same(a, s): continue
            tag = (ctx, bb, self.keyid(ctx, bb, k))
            n = rounds.get(k, 0)
            j = self.join(tag, a, s, True, grow=n < 2)
            if not self.same(a, j):
                rounds[k] = n + 1
                acc[k] = j
                changed = True
        return changed

    # ---- statements
    def place(self, st, ctx, p, fn=None):
        r, path = self.L(ctx, p[0]), ()
        dc = None
        for e in p[1]:
            k = e[0]
            if k == "d":
                v = st.load(r, path)
                if v.op == "ref": r, path = v.a[0], v.a[1]
                elif v.op == "box" or v.op == "ov" and v.a[0].op == "box": path = path + (("d",),)
                else: r, path = mk("O", v), ()
            elif k == "f":
                path = path + (("f", e[1], (dc + "." + e[2]) if dc else e[2]),)
                dc = None
            elif k == "i":
                path = normpath(path + (("idx", st.load(self.L(ctx, e[1]), ())),))
            elif k == "ci":
                i = C(e[1])
                if e[2]: i = sub(seqlen(st.load(r, path)) if not (path and path[-1][0] == "sub") else sub(path[-1][2], path[-1][1]), C(e[1]))
                path = normpath(path + (("idx", i),))
            elif k == "ss":
                n = seqlen(st.load(r, path))
                hi = sub(n, C(e[2])) if e[3] else C(e[2])
                path = normpath(path + (("sub", C(e[1]), hi),))
            elif k == "dc": dc = e[2]
        return r, path

    def const(self, st, ctx, c, bb=None):
        if "fn" in c: return mk("fn", c["fn"].get("key", -1), c["fn"].get("rp", c["fn"]["p"]))
        if "str" in c: return mk("ref", mk("K", mk("s", c["str"])), (), False)
        if "v" in c: return C(c["v"])
        if "unit" in c: return UNIT
        if "promoted" in c: return mk("ref_p", c["promoted"])
        if "agg" in c:
            t = self.p.tys[c["t"]]
            fs = [self.const(st, ctx, x) for x in c["agg"]]
            if t["k"] == "adt" and t["p"] == "std::time::Duration" and len(fs) == 2 and fs[0].op == "c":   # in nanoseconds
                n = fs[1].a[-1] if fs[1].op == "adt" else fs[1]
                if n.op == "c": return C(fs[0].a[0] * 10 ** 9 + n.a[0])
            if t["k"] == "adt":
                a = self.p.adts.get(t["p"])
                vi = max(c.get("var", 0), 0)
                vn = a["variants"][vi]["name"] if a and vi < len(a["variants"]) else "?"
                return mk("adt", t["p"], vi, vn, *fs)
            if t["k"] == "tuple": return mk("tup", *fs)
            return mk("vec", *fs)
        if "ref" in c: return mk("ref", mk("K", self.const(st, ctx, c["ref"])), (), False)
        if "static" in c:
            sv = self.p.statics.get(c["static"])
            if sv is not None and "x" not in sv and not ("agg" in sv and all("unit" in x for x in sv["agg"])):
                return mk("ref", mk("K", self.const(st, ctx, sv)), (), False)
            return mk("ref", mk("S", c["static"]), (), True)
        if "fnptr" in c: return mk("fn", c["fnptr"].get("key", -1), c["fnptr"].get("rp", c["fnptr"]["p"]))
        if "zst" in c:
            t = self.p.tys[c["t"]]
            if t["k"] == "closure": return mk("clo", t["fn"], False)
            if t["k"] == "fndef": return mk("fn", t["c"].get("key", -1), t["c"].get("rp", t["c"]["p"]))
            return mk("zst", t["s"])
        if "bytes" in c: return mk("ref", mk("K", mk("vec", *[C(x) for x in c["bytes"]])), (), False)
        t = c.get("t")
        return mk("konst", c.get("name", ""), str(c.get("fl", "")), self.p.tys[t]["s"] if t is not None else "")

    def operand(self, st, ctx, o):
        if o[0] in "cm":
            r, p = self.place(st, ctx, o[1])
            return st.load(r, p)
        if o[0] == "k":
            if "pyv" in o[1]: return o[1]["pyv"]
            v = self.const(st, ctx, o[1])
            if v.op == "ref_p": return self.promoted(st, v.a[0])
            return v
        return mk("rc")

    def promoted(self, st, k):
        r = mk("P", k)
        if r not in st.mem:
            fn = self.p.fns[k]
            c = self.ctx(0, k, "promoted")
            fr, self.frames = self.frames, []
            mon, self.mon = self.mon, []
            kc, self.keepctx = self.keepctx, c
            try: res = self.run_fn(fn, [], State(), c)
            finally: self.frames, self.mon, self.keepctx = fr, mon, kc
            s, v = res[0]
            # the promoted body returns a reference to its local or a value
            st.mem[r] = self.strip(s, v)
        v = st.mem[r]
        return v if v.op == "ref" else mk("ref", r, (), False)

    def strip(self, s, v):
        """flatten references to promoted-local memory into constants"""
        if v.op == "ref" and v.a[0].op == "L":
            return mk("ref", mk("K", self.strip(s, s.load(v.a[0], v.a[1]))), (), False)
        if v.op in ("adt",): return mk("adt", *v.a[:3], *[self.strip(s, x) for x in v.a[3:]])
        if v.op in ("tup", "vec", "box"): return mk(v.op, *[self.strip(s, x) for x in v.a])
        return v

    def rvalue(self, st, ctx, r, dst=None):
        k = r[0]
        if k == "use":
            if r[1][0] == "c" and (self.opty(ctx, r[1]) or dst or "").startswith("std::boxed::Box<"):
                # a box is copied only to be dereferenced: the temporary stands for the place it points to
                a, p = self.place(st, ctx, r[1][1])
                v = st.load(a, p)
                return v if v.op == "ref" else mk("ref", a, p + (("d",),), True)
            return self.operand(st, ctx, r[1])
        if k in ("ref", "reborrow"):
            a, p = self.place(st, ctx, r[2])
            if not p and a.op == "O": return a.a[0]
            return mk("ref", a, p, bool(r[1]))
        if k == "raw":
            a, p = self.place(st, ctx, r[1])
            if not p and a.op == "O": return a.a[0]
            return mk("ref", a, p, True)
        if k == "cast":
            if r[1] == "BoxDerefTransmute" and r[2][0] in "cm":
                pl = r[2][1]
                a, p = self.place(st, ctx, [pl[0], pl[1][:-1]])
                v = st.load(a, p)
                if v.op == "ref": return v
                return mk("ref", a, p + (("d",),), True)
            v = self.operand(st, ctx, r[2])
            t = self.p.tys[r[3]]
            if r[1] in ("IntToInt",):
                if v.op == "c" and isinstance(v.a[0], int):
                    w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}.get(t["s"])
                    return C(v.a[0] & ((1 << w) - 1)) if w else v
                if v.op == "b": return C(int(v.a[0]))
                if v.op in ("le", "eqk", "eq", "not", "and"): return mk("b2i", v)
                st2 = self.opty(ctx, r[2])
                small = {"u8": 8, "i8": 8, "bool": 1, "u16": 16, "u32": 32, "i32": 32, "char": 21, "u64": 64, "usize": 64, "i64": 64, "isize": 64}
                if st2 is not None and small.get(st2, 99) <= small.get(t["s"], 0): return v
                lo, hi = st.bnd(v)
                w = small.get(t["s"], 64)
                if lo >= 0 and hi < 1 << w: return v
                return mk("cast", t["s"], v)
            if r[1] in ("PointerCoercion", "PtrToPtr", "FnPtrToPtr", "Transmute") or t["k"] in ("ref", "ptr"): return v
            if t["k"] == "fnptr": return v
            return mk("cast", t["s"], v)
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, ctx, r[2]), self.operand(st, ctx, r[3]))
        if k == "un":
            v = self.operand(st, ctx, r[2])
            if r[1] == "Not":
                if v.op == "c" and isinstance(v.a[0], int) and not isinstance(v.a[0], bool):
                    w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}.get(self.opty(ctx, r[2]))
                    return C(~v.a[0] & ((1 << w) - 1)) if w else C(~v.a[0]) if self.opty(ctx, r[2]) in ("i8", "i16", "i32", "i64", "isize") else mk("un", "Not", v)
                if self.isbool(st, v, self.opty(ctx, r[2])): return nnot(v)
                return mk("un", "Not", v)
            if r[1] == "Neg": return sub(C(0), v)
            if r[1] == "PtrMetadata": return self.length(st, v)
            return mk("un", r[1], v)
        if k == "discr":
            a, p = self.place(st, ctx, r[1])
            return self.discr(st.load(a, p))
        if k == "agg":
            kd = r[1]
            vs = [self.operand(st, ctx, o) for o in r[2]]
            if kd[0] == "array": return mk("vec", *vs)
            if kd[0] == "tuple": return mk("tup", *vs) if vs else UNIT
            if kd[0] == "adt":
                v = mk("adt", kd[1], kd[2], kd[3], *vs)
                self.event("agg", st, v, ctx)
                return v
            if kd[0] == "closure": return mk("clo", kd[1], bool(kd[2]), *vs)
            return mk("agg", *vs)
        if k == "repeat":
            return mk("rep", self.operand(st, ctx, r[1]), C(r[2]) if r[2] is not None else mk("konst", "n", "", ""))
        return mk("rv", k, mk("sym", "rv", ctx, id(r)))

    def isbool(self, st, v, ty):
        return ty == "bool" or v.op in ("b", "le", "eqk", "eq", "not", "and")

    def opty(self, ctx, o):
        """type string of an operand (only for unprojected locals and constants)"""
        fn = self.stack[-1][0] if self.stack else None
        if o[0] in "cm":
            l, pr = o[1]
            if fn is None or isinstance(fn, SynFn): return None
            t = self.p.tys[fn.locals[l][0]]
            for e in pr:
                if e[0] == "d":
                    t = self.p.tys[t["t"]] if t["k"] in ("ref", "ptr") else None
                elif e[0] == "f" and t["k"] == "tuple": t = self.p.tys[t["a"][e[1]]]
                elif e[0] == "f" and t["k"] == "adt" and t.get("ft") and e[1] < len(t["ft"]): t = self.p.tys[t["ft"][e[1]]]
                else: t = None
                if t is None: return None
            return t["s"]
        if o[0] == "k" and "t" in o[1]: return self.p.tys[o[1]["t"]]["s"]
        return None

    def discr(self, v):
        if v.op == "adt":
            a = self.p.adts.get(v.a[0])
            if a and a["kind"] == "enum":
                try: return C(int(a["variants"][v.a[1]]["discr"]))
                except (ValueError, IndexError): pass
            return C(v.a[1])
        if v.op == "ov": return self.discr(v.a[0])
        if v.op == "sgn": return v
        return mk("discr", v)

    def length(self, st, v):
        if v.op == "ref":
            if v.a[1] and v.a[1][-1][0] == "sub":
                return sub(v.a[1][-1][2], v.a[1][-1][1])
            return seqlen(st.load(v.a[0], v.a[1]))
        return seqlen(st.deref(v))

    def binop(self, st, o, a, b):
        ints = a.op == "c" and b.op == "c" and isinstance(a.a[0], int) and isinstance(b.a[0], int)
        if o.startswith("Add"): r = add(a, b) if a.op not in ("ref",) else mk("bin", "Add", a, b)
        elif o.startswith("Sub"): r = sub(a, b)
        elif o.startswith("Mul"): r = mul(a, b)
        elif o == "Eq": return eq(a, b)
        elif o == "Ne": return nnot(eq(a, b))
        elif o == "Lt": return lt(a, b)
        elif o == "Le": return le(a, b)
        elif o == "Gt": return lt(b, a)
        elif o == "Ge": return le(b, a)
        elif o == "Cmp": return mk("sgn", a, b)
        elif o in ("BitAnd", "BitOr", "BitXor"):
            if o == "BitAnd":
                for x, y in ((a, b), (b, a)):
                    if y.op == "c" and isinstance(y.a[0], int) and y.a[0] > 0 and y.a[0] & (y.a[0] + 1) == 0: self.event("rem", st, x, y.a[0] + 1, None)
            B = ("b", "le", "eqk", "eq", "not", "and")
            if a.op in B or b.op in B:
                if o == "BitAnd": return conj(a, b)
                if o == "BitOr": return disj(a, b)
                return nnot(eq(a, b))
            if ints:
                x, y = a.a[0], b.a[0]
                return C(x & y if o == "BitAnd" else x | y if o == "BitOr" else x ^ y)
            return mk("bin", o, a, b)
        elif o == "Rem" and b.op == "c" and b.a[0] and not ints:
            self.event("rem", st, a, b.a[0], None)
            return mk("bin", o, a, b)
        elif o in ("Div", "Rem") and ints and b.a[0]:
            if o == "Rem": self.event("rem", st, a, b.a[0], None)
            return C(a.a[0] // b.a[0] if o == "Div" else a.a[0] % b.a[0])
        elif o.startswith("Sh") and ints:
            return C(a.a[0] << b.a[0] if o.startswith("Shl") else a.a[0] >> b.a[0])
        else: return mk("bin", o, a, b)
        if o.endswith("WithOverflow"): return mk("tup", r, mk("ovf", o[:3], a, b))
        return r

    # ---- one block
    def exec_block(self, fn, ctx, bb, st, out, cfg):
        b = fn.blocks[bb]
        self.steps += 1
        if self.steps > self.budget: raise Budget(f"step budget exhausted in {fn.path}")
        for s in b["s"]:
            if s[0] == "=":
                v = self.rvalue(st, ctx, s[2], None if isinstance(fn, SynFn) or s[1][1] else self.p.tys[fn.locals[s[1][0]][0]]["s"])
                r, p = self.place(st, ctx, s[1])
                self.store(st, r, p, v, fn, ctx, s[3] if len(s) > 3 else fn.span)
            elif s[0] == "dead": st.mem.pop(self.L(ctx, s[1]), None)
            elif s[0] == "sd":
                pass
        t = b["t"]
        k = t[0]
        if k == "goto": out.setdefault(t[1], []).append(st)
        elif k == "return": out.setdefault("ret", []).append(st)
        elif k == "switch": self.do_switch(fn, ctx, bb, st, t, out)
        elif k == "drop":
            for s in self.do_drop(fn, ctx, bb, st, t): out.setdefault(t[2], []).append(s)
        elif k == "assert":
            c = self.operand(st, ctx, t[1])
            exp = bool(t[2])
            kind = t[3][0] if isinstance(t[3], list) else t[3]
            if c.op == "ovf":
                self.event("overflow", st, c, fn, ctx, t[6] if len(t) > 6 else fn.span)
                if c.a[0] == "Sub": ok = st.assume(le(c.a[2], c.a[1]))
                else: ok = True
                if ok: out.setdefault(t[4], []).append(st)
                return
            if kind == "other":
                out.setdefault(t[4], []).append(st)
                return
            s2 = st.copy()
            if s2.assume(c, not exp): self.panic(s2, kind, fn, ctx, t[6] if len(t) > 6 else fn.span, c)
            if st.assume(c, exp): out.setdefault(t[4], []).append(st)
        elif k == "call":
            for s in self.do_call(fn, ctx, bb, st, t, cfg):
                if t[4] is not None: out.setdefault(t[4], []).append(s)
        elif k == "yield":
            # resumed, or dropped while it waits (always, when what it waits for was dropped)
            gone = st.g("cancelled")
            if t[2] is not None:
                s2 = st.copy() if not gone else st
                s2.setg("cancelled", True)
                s2.note((t[3], "dropped here"))
                out.setdefault(t[2], []).append(s2)
            if not gone: out.setdefault(t[1], []).append(st)
        # unreachable / resume: nothing

    def event(self, name, *a):
        for m in self.mon:
            h = getattr(m, "on_" + name, None)
            if h: h(*a)

    def panic(self, st, kind, fn, ctx, span, info=None):
        x = (kind, fn.path, span)
        if x not in self.panics and len(self.panics) < 100: self.panics.append(x)
        self.event("panic", st, kind, fn, ctx, span, info)

    def store(self, st, r, p, v, fn, ctx, span):
        for m in self.mon:
            h = getattr(m, "on_store", None)
            if h: h(st, r, p, v, fn, ctx, span)
        st.store(r, p, v)

    def branch(self, st, t, val, span):
        """assume with monitor notification"""
        if not st.assume(t, val): return False
        for m in self.mon:
            h = getattr(m, "on_branch", None)
            if h: h(st, t, val, span)
        return True

    def do_switch(self, fn, ctx, bb, st, t, out):
        v = self.operand(st, ctx, t[1])
        span = t[5] if len(t) > 5 else fn.span
        isb = self.p.tys[t[4]]["k"] == "bool" if isinstance(t[4], int) else t[4] == "bool"
        if isb:
            tgt = {int(x): b for x, b in t[2]}
            fb = tgt.get(0, t[3])
            tb = tgt.get(1, t[3])
            if v.op in ("c",): v = C(bool(v.a[0]))
            d = st.decide(v)
            if d is not None:
                out.setdefault(tb if d.a[0] else fb, []).append(st)
                return
            for val, b in ((True, tb), (False, fb)):
                s = st.copy()
                if self.branch(s, v, val, span):
                    s.note((span, val))
                    out.setdefault(b, []).append(s)
            return
        rest = st.copy()
        alive = True
        for x, b in t[2]:
            e = eq(v, C(int(x)))
            d = rest.decide(e)
            if d is FALSE: continue
            s = rest.copy()
            if self.branch(s, e, True, span):
                if d is None: s.note((span, int(x)))
                out.setdefault(b, []).append(s)
            if d is TRUE or not rest.assume(e, False):
                alive = False
                break
        if alive:
            if v.op == "discr" and self.exhausted(rest, v, t): return
            if fn.blocks[t[3]]["t"][0] == "unreachable": return
            rest.note((span, "else"))
            for m in self.mon:
                h = getattr(m, "on_branch", None)
                if h: h(rest, v, None, span)
                h = getattr(m, "on_else", None)
                if h: h(rest, v, [int(x) for x, _ in t[2]], span)
            out.setdefault(t[3], []).append(rest)

    def exhausted(self, st, v, t): return False

    def do_drop(self, fn, ctx, bb, st, t):
        ty = self.p.tys[t[3]]
        if ty.get("drop") is not None or ty.get("ft"):
            r, p = self.place(st, ctx, t[1])
            return self.drop_value(fn, ctx, bb, st, mk("ref", r, p, True), ty, t)
        return [st]

    def drop_value(self, fn, ctx, bb, st, ref, ty, t, depth=0):
        sts = [st]
        if ty.get("drop") is not None and self.p.fns[ty["drop"]] is not None:
            nx = []
            for s in sts:
                v = s.deref(ref)
                if v.op in ("uninit", "bot"):
                    nx.append(s)
                    continue
                c2 = self.ctx(ctx, ty["drop"], (bb, depth))
                live = {self.L(ctx, l) for l in self.cfg(fn).live[t[2]]}
                self.frames.append(live)
                try: res = self.run_fn(self.p.fns[ty["drop"]], [ref], s, c2)
                finally: self.frames.pop()
                nx += [x for x, _ in res]
            sts = nx
        if depth < 3:
            for i, f in enumerate(ty.get("ft") or []):
                fty = self.p.tys[f] if isinstance(f, int) else None
                if fty and (fty.get("drop") is not None or fty.get("ft")):
                    nx = []
                    for s in sts: nx += self.drop_value(fn, ctx, bb, s, fieldref(ref, i, str(i)), fty, t, depth + 1)
                    sts = nx
        return sts

    # ---- calls
    def do_call(self, fn, ctx, bb, st, t, cfg):
        fo = t[1]
        args = [self.operand(st, ctx, a) for a in t[2]]
        c = Call()
        c.st, c.args, c.f, c.bb, c.span, c.ctx, c.ops = st, args, fn, bb, t[6] if len(t) > 6 else fn.span, ctx, t[2]
        c.dty = None if isinstance(fn, SynFn) else fn.locals[t[3][0]][0] if not t[3][1] else None
        live = set()
        if t[4] is not None: live = {self.L(ctx, l) for l in cfg.live[t[4]]} | {self.L(ctx, t[3][0])} if t[3][1] else {self.L(ctx, l) for l in cfg.live[t[4]]}
        self.frames.append(live)
        try:
            if fo[0] == "k" and "py" in fo[1]:
                c.callee, c.p, c.path, c.key = {}, "py", "py", None
                res = fo[1]["py"](self, c)
            elif fo[0] == "k" and "fn" in fo[1]:
                cl = fo[1]["fn"]
                c.callee, c.p, c.path, c.key = cl, cl["p"], cl.get("rp", cl["p"]), cl.get("key")
                res = self.dispatch(c)
            else:
                fv = self.operand(st, ctx, fo)
                res = self.call_value(c, fv, args)
        finally: self.frames.pop()
        if t[4] is None:
            for s, v in res: self.panic(s, "diverge:" + c.path, fn, ctx, c.span, c)
            return []
        o = []
        for s, v in res:
            r, p = self.place(s, ctx, t[3])
            self.store(s, r, p, v, fn, ctx, c.span)
            o.append(s)
        return o

    def dispatch(self, c):
        for m in self.mon:
            h = getattr(m, "on_call", None)
            if h:
                r = h(c)
                if r is not None: return r
        res = self.dispatch2(c)
        for m in self.mon:
            h = getattr(m, "after_call", None)
            if h:
                o = []
                for s, v in res:
                    x = h(c, s, v)
                    if x is None: o.append((s, v))
                    else: o += x
                res = o
        return res

    FNCALL = re.compile(r"^(std|core)::ops::(function::)?(Fn|FnMut|FnOnce|AsyncFn)::(call|call_mut|call_once)$")

    def dispatch2(self, c):
        if self.FNCALL.match(c.p):
            a = c.args[1]
            spread = list(a.a) if a.op == "tup" else [] if a is UNIT else None
            if spread is None:
                # unknown tuple: project by the callee's arity later
                spread = a
            return self.call_value(c, c.args[0], spread)
        if self.opaque(c.path): return self.opaque_call(c)
        h = self.lookup(c.path, c.p)
        if h:
            r = h(self, c)
            if r is not None: return r
        if c.key is not None and self.p.fns[c.key] is not None:
            return self.inline_call(c, c.key, c.args)
        return self.opaque_call(c)

    def inline_call(self, c, key, args, extra=""):
        fn = self.p.fns[key]
        if self.in_chain(c.ctx, key) > (self.depth if self.depth else 0) or self.inline and not self.inline(fn):
            for m in self.mon:
                h = getattr(m, "on_recursion", None)
                if h:
                    r = h(c, fn, args)
                    if r is not None: return r
            return self.opaque_call(c, args)
        if len(args) != fn.argc and len(args) == 2 and args[1].op in ("tup", "unit"):
            args = [args[0]] + list(args[1].a)
        c2 = self.ctx(c.ctx, key, (c.bb, extra))
        return self.run_fn(fn, args, c.st, c2)

    def tmp(self, st, ctx, v, k="t"):
        r = mk("L", ctx, ("tmp", k))
        st.mem[r] = v
        self.frames[-1].add(r)
        return mk("ref", r, (), True)

    def call_value(self, c, fv, args, extra=""):
        """call a closure / function item / function pointer value"""
        v = fv
        n = 0
        while v.op == "ref" or v.op == "box":
            inner = c.st.deref(v)
            if n > 4: break
            if inner.op in ("clo", "fn", "ref", "box"):
                if inner.op in ("clo", "fn"): break
                v = inner
                n += 1
            else: break
        tgt = c.st.deref(v) if v.op in ("ref", "box") else v
        if tgt.op == "clo":
            fn = self.p.fns[tgt.a[0]]
            if fn is None: return self.opaque_call(c)
            if not isinstance(args, list):
                args = [proj(args, ("f", i, str(i))) for i in range(fn.argc - 1)]
            env_ref = self.p.tys[fn.locals[1][0]]["k"] == "ref"
            if env_ref: env = v if v.op == "ref" else self.tmp(c.st, c.ctx, tgt, ("env", c.bb, extra))
            else: env = tgt
            return self.inline_call(c, tgt.a[0], [env] + args, extra)
        if tgt.op == "fn":
            path = tgt.a[1]
            if not isinstance(args, list): args = [proj(args, ("f", 0, "0"))]
            ctor = self.ctor(path)
            if ctor: return [(c.st, mk("adt", ctor[0], ctor[1], ctor[2], *args))]
            d = Call()
            for x in Call.__slots__:
                if hasattr(c, x): setattr(d, x, getattr(c, x))
            d.args, d.path, d.p, d.key = args, path, path, tgt.a[0] if tgt.a[0] >= 0 else None
            d.callee = {"p": path, "a": []}
            return self.dispatch(d)
        self.event("unknown_fn", c, fv)
        return self.opaque_call(c)

    def ctor(self, path):
        b, _, l = path.rpartition("::")
        if "prelude::" in b: b = {"Some": "std::option::Option", "Ok": "std::result::Result", "Err": "std::result::Result"}.get(l, b)
        a = self.p.adts.get(path)
        if a and a["kind"] == "struct": return (path, 0, a["variants"][0]["name"])
        b = re.sub(r"::<[^:]*>$", "", b)
        a = self.p.adts.get(b)
        if a and a["kind"] == "enum":
            for i, v in enumerate(a["variants"]):
                if v["name"] == l: return (b, i, l)
        return None

    IMPURE = re.compile(r"Instant::now|elapsed|fetch_add|fetch_sub|Atomic.*::(load|store|swap)|poll|recv|random|RandomState|_print|SystemTime|next$|read|write_fmt")

    def opaque_call(self, c, args=None):
        st = c.st
        args = c.args if args is None else args
        muts = []
        for i, a in enumerate(args):
            self.mutrefs(st, a, muts, c.ops[i] if c.ops and i < len(c.ops) else None, c)
        self.unmodelled[c.path] = self.unmodelled.get(c.path, 0) + 1
        if not muts and not self.IMPURE.search(c.path):
            return [(st, mk("app", c.path, *[self.snap(st, a) for a in args]))]
        s = self.fresh(st, c)
        for i, (r, p) in enumerate(muts):
            st.store(r, p, self.fresh(st, c, "mut", i))
        return [(st, s)]

    def snap(self, st, v, d=0):
        """argument value with shared references replaced by what they point to"""
        if d > 4: return v
        if v.op == "ref": return mk("&", self.snap(st, st.load(v.a[0], v.a[1]), d + 1))
        if v.op in ("adt",): return mk("adt", *v.a[:3], *[self.snap(st, x, d + 1) for x in v.a[3:]])
        if v.op in ("tup", "vec", "box"): return mk(v.op, *[self.snap(st, x, d + 1) for x in v.a])
        if v.op == "clo": return mk("clo", *v.a[:2], *[self.snap(st, x, d + 1) for x in v.a[2:]])
        if v.op not in ("c", "b", "s", "unit", "fn"):
            r = mk("O", v)
            if r in st.mem: return mk("&", self.snap(st, st.mem[r], d + 1))
        return v

    def mutrefs(self, st, v, out, op=None, c=None, d=0):
        if d > 4: return
        if v.op == "ref":
            if v.a[2] and (v.a[0].op not in ("K", "S", "P")):
                if (v.a[0], v.a[1]) not in out: out.append((v.a[0], v.a[1]))
            if v.a[2]:
                self.mutrefs(st, st.load(v.a[0], v.a[1]), out, None, c, d + 1)
        elif v.op in ("adt", "tup", "vec", "box", "clo", "ov", "it"):
            for x in _flat(v.a): self.mutrefs(st, x, out, None, c, d + 1)
        elif op is not None and v.op not in ("c", "b", "s", "unit", "fn", "zst", "konst"):
            t = self.opty(c.ctx, op)
            if t and t.startswith("&mut "): out.append((mk("O", v), ()))

    # ---- synthetic loops
    def run_syn(self, c, name, argc, nloc, blocks, args, st=None):
        key = name
        f = self.syn.get(key)
        if f is None:
            f = SynFn("syn:" + name, name, argc, nloc, None)
            self.syn[key] = f
        if f.blocks is None: f.blocks = [{"u": False, "s": s, "t": t} for s, t in blocks]
        c2 = self.ctx(c.ctx, f.id, c.bb)
        return self.run_fn(f, args, st or c.st, c2)

    def start(self, fn, args=None, assume=(), mem=None):
        """analyse fn as an entry point with unknown arguments"""
        st = State()
        if mem: st.mem.update(mem)
        for t, v in assume:
            if not st.assume(t, v): return []
        if args is None: args = [mk("arg", i, fn.names.get(i + 1, "")) for i in range(fn.argc)]
        c = self.ctx(0, fn.id, "root")
        return self.run_fn(fn, args, st, c)
