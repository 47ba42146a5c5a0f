"""Canonical terms for bitset rows: every slice/borrow of a bitset becomes view(address, indices),
so that rules can compare rows by address instead of contents."""
from base import *


def bsname(path):
    n = norm(path)
    return n.split("::")[-1] if "bitset::" in n else None


class Views:
    """mixin: call self.views(c, st, v) from after_call; returns outcomes or None.
    self.bit(op, c, st, dst, srcs, v) is told every set operation with views as operands"""

    def view(self, st, t):
        """view term of an operand (a bitset, a view, or references to them)"""
        seen = 0
        while seen < 8:
            seen += 1
            if t.op == "view": return t
            if t.op == "&":
                t = t.a[0]
                continue
            if t.op == "ref":
                x = st.load(t.a[0], t.a[1])
                if x.op == "view": return x
                if x.op == "ref":
                    t = x
                    continue
                return mk("view", mk("ref", t.a[0], t.a[1], False))
            break
        return mk("view", t)

    def pre(self, c):
        """call from on_call: operands as they were before the call"""
        c.vw = None
        if bsname(c.path) is None: return
        st = c.st
        c.vw = [self.view(st, a) for a in c.args]
        c.keep = []
        for a in c.args:
            while a.op == "&": a = a.a[0]
            if a.op == "ref":
                x = st.load(a.a[0], a.a[1])
                if x.op in ("view", "ones"): c.keep.append((a, x))

    @staticmethod
    def ix(t): return t.a if t.op == "tup" else (t,)

    def views(self, c, st, v):
        n = bsname(c.path)
        if n is None: return None
        vw = c.vw
        for a, x in c.keep:
            if st.load(a.a[0], a.a[1]) is not x: self.engine.store(st, a.a[0], a.a[1], x, c.f, c.ctx, c.span)
        if n in ("slice", "slice_mut", "slice2d", "slice2d_mut"):
            b = vw[0]
            return [(st, mk("view", *b.a, *self.ix(c.args[1])))]
        if n in ("borrow", "borrow_mut", "reborrow"): return [(st, vw[0])]
        if n == "ones": return [(st, mk("ones", vw[0]))]
        if n == "next" and "Iterator" in c.path:
            x = next((x for _, x in c.keep if x.op == "ones"), None)
            if x is None: return None
            o = []
            for d in (0, 1):
                s = st.copy()
                if s.assume(eq(mk("discr", v), C(d)), True): o.append((s, NONE if d == 0 else some(mk("one", x.a[0], mk("fld", v, "Some.0")))))
            return o
        if n in ("union_with", "copy_from", "difference_with", "intersect_with", "is_subset"): return self.bit(n, c, st, vw[0], vw[1], v)
        if n in ("clear", "is_empty", "to_bitset"): return self.bit(n, c, st, vw[0], None, v)
        if n in ("insert", "remove", "contains"): return self.bit(n, c, st, vw[0], c.args[1], v)
        return None

    def bit(self, op, c, st, dst, src, v): return None


def split(st, v, tag):
    """outcomes of a boolean call with the ghost `tag` set to the value"""
    o = []
    for val in (True, False):
        s = st.copy()
        if s.assume(v, val):
            s.setg(tag, val)
            o.append((s, C(val)))
    return o


# ---------------------------------------------------------------- symbolic contents
EMPTYSET = frozenset()
_con, _conid = [], {}


def cid(content):
    k = _conid.get(content)
    if k is None:
        k = _conid[content] = len(_con)
        _con.append(content)
    return k


def atom(*a): return frozenset({(a, EMPTYSET)})


def showset(c):
    def at(a): return "(" + " ".join(x if isinstance(x, str) else showset(x) if isinstance(x, frozenset) else "[" + ",".join(show(y) for y in x) + "]" if isinstance(x, tuple) else show(x)[:80] if hasattr(x, "op") else str(x) for x in a) + ")"
    return "{" + " | ".join(sorted(at(a) + ("" if not m else "-" + "-".join(showset(x) for x in m)) for a, m in c)) + "}"


class SetSem(Views):
    """bitsets as symbolic set expressions: a row's content is a set of (atom, subtracted contents).
    Contents live in the abstract memory as bs(id) values, so they are exact as long as every index
    is a constant; anything else poisons the set (atom `unknown`)."""
    poisoned = 0

    # -- values
    def bsval(self, st, base):
        """(default, entries) of a base (address or value)"""
        x = base
        if base.op == "ref": x = st.load(base.a[0], base.a[1])
        if x.op == "bs": return _con[x.a[0]]
        if x.op == "s": x = State().load(mk("O", x), ())
        return (("init", x), EMPTYSET)

    def mkbs(self, default, entries): return mk("bs", cid((default, frozenset(entries))))

    def row(self, st, view):
        d, es = self.bsval(st, view.a[0])
        ix = tuple(i for i in view.a[1:] if i.op != "unit")
        for k, c in es:
            if k == ix: return self.norm(st, c)
        for k, c in es:
            if len(k) < len(ix) and ix[:len(k)] == k: return atom("part", c, ix[len(k):]) if c else EMPTYSET
        for k, c in es:
            if len(k) == len(ix) and not any(a.op == "c" and b.op == "c" and a is not b for a, b in zip(k, ix)):
                self.poisoned += 1
                return atom("unknown", self.poisoned)
        if d == ("empty",): return EMPTYSET
        return self.norm(st, atom("init", d[1], ix))

    def norm(self, st, c):
        em = st.g("emp") or EMPTYSET
        if not em: return c
        return frozenset(x for x in c if (x[0], True) not in em)

    def write(self, c, st, view, content):
        b = view.a[0]
        if b.op != "ref": return
        d, es = self.bsval(st, b)
        ix = tuple(i for i in view.a[1:] if i.op != "unit")
        es = {(k, x) for k, x in es if k[:len(ix)] != ix}
        es.add((ix, content))
        self.engine.store(st, b.a[0], b.a[1], self.mkbs(d, es), c.f, c.ctx, c.span)

    def whole(self, c, st, view, value):
        b = view.a[0]
        if b.op == "ref": self.engine.store(st, b.a[0], b.a[1], value, c.f, c.ctx, c.span)

    def const(self, content): return self.mkbs(("empty",), {((), content)} if content else ())

    # -- operations
    def sets(self, c, st, v):
        n = bsname(c.path)
        if n == "new" and re.search(r"bitset::BitSet::new$", norm(c.path)): return [(st, self.mkbs(("empty",), ()))]
        if n is None and norm(c.path).endswith("::clone") and c.args:
            x = c.args[0]
            x = x.a[0] if x.op == "&" else st.load(x.a[0], x.a[1]) if x.op == "ref" else x
            if x.op == "bs": return [(st, x)]
        return self.views(c, st, v)

    def empty(self, st, content, tag):
        """outcomes (state, bool) of an emptiness question"""
        content = self.norm(st, content)
        if not content: return [(st, True)]
        em = st.g("emp") or EMPTYSET
        if (content, False) in em or any((frozenset({x}), False) in em for x in content if not x[1]): return [(st, False)]
        a, b = st, st.copy()
        if not any(m for _, m in content): a.setg("emp", em | {(x[0], True) for x in content})
        else: a.setg("emp", em | {(content, True)})
        b.setg("emp", em | {(content, False)})
        return [(a, True), (b, False)]

    def known_empty(self, st, content):
        return not self.norm(st, content)

    def item(self, content): return mk("s", f"one{cid(content)}")

    def views(self, c, st, v):
        n = bsname(c.path)
        if n == "ones":
            for a, x in c.keep:
                if st.load(a.a[0], a.a[1]) is not x: self.engine.store(st, a.a[0], a.a[1], x, c.f, c.ctx, c.span)
            return [(st, mk("ones", c.vw[0], cid(self.row(st, c.vw[0]))))]
        if n == "next" and "Iterator" in c.path:
            k = next(((a, x) for a, x in c.keep if x.op == "ones"), None)
            if k is None: return None
            a, x = k
            if st.load(a.a[0], a.a[1]) is not x: self.engine.store(st, a.a[0], a.a[1], x, c.f, c.ctx, c.span)
            content = _con[x.a[1]]
            it = st.g("open") or EMPTYSET
            self.step_item(c, st, content)
            o = []
            if (content, "more") in it:
                s2 = st.copy()
                st.setg("open", it - {(content, "more")})
                s2.setg("open", it)
                return [(st, NONE), (s2, some(self.item(content)))]
            for s, e in self.empty(st, content, "ones"):
                if e: o.append((s, NONE))
                else:
                    s.setg("open", (s.g("open") or EMPTYSET) | {(content, "more")})
                    o.append((s, some(self.item(content))))
            return o
        return Views.views(self, c, st, v)

    def step_item(self, c, st, content): pass

    def bit(self, op, c, st, dst, src, v):
        if op in ("insert", "remove"):
            if op == "insert": self.write(c, st, dst, self.row(st, dst) | atom("elem", src))
            else: self.write(c, st, dst, self.minus(self.row(st, dst), atom("elem", src)))
            return [(st, UNIT)]
        if op == "clear":
            self.whole(c, st, dst, self.mkbs(("empty",), ())) if len(dst.a) == 1 else self.write(c, st, dst, EMPTYSET)
            return [(st, UNIT)]
        if op == "copy_from" and len(dst.a) == 1 and len(src.a) == 1:
            d, es = self.bsval(st, src.a[0])
            self.whole(c, st, dst, self.mkbs(d, es))
            return [(st, UNIT)]
        if op == "copy_from":
            self.write(c, st, dst, self.row(st, src))
            return [(st, UNIT)]
        if op == "union_with":
            self.write(c, st, dst, self.row(st, dst) | self.row(st, src))
            return [(st, UNIT)]
        if op == "difference_with":
            self.write(c, st, dst, self.minus(self.row(st, dst), self.row(st, src)))
            return [(st, UNIT)]
        if op == "intersect_with":
            self.write(c, st, dst, atom("and", self.row(st, dst), self.row(st, src)))
            return [(st, UNIT)]
        if op == "is_empty": return [(s, C(e)) for s, e in self.empty(st, self.row(st, dst), "is_empty")]
        if op == "to_bitset":
            if len(dst.a) > 1 and not all(i.op == "unit" for i in dst.a[1:]): return [(st, self.const(self.row(st, dst)))]
            d, es = self.bsval(st, dst.a[0])
            return [(st, self.mkbs(d, es))]
        if op == "contains":
            content = self.row(st, dst)
            con = st.g("con") or EMPTYSET
            if not content: return [(st, C(False))]
            for val in (True, False):
                if (content, src, val) in con: return [(st, C(val))]
            s2 = st.copy()
            st.setg("con", con | {(content, src, True)})
            s2.setg("con", con | {(content, src, False)})
            return [(st, C(True)), (s2, C(False))]
        return None

    @staticmethod
    def minus(x, y): return frozenset((a, m | {y}) for a, m in x) if y else x
