"""Bit sets (bitset.rs): C31.

The operations are analysed on sets whose storage blocks are symbols; what they leave behind is read back through
`contains` and compared bit by bit in a known-bits domain (each bit is 0, 1 or a small truth table over source bits).
So every content is covered at once; sizes and numbers of rows are the small ones listed in DIMS."""
from base import *
import itertools

T = "bitset::"
U, S, D2 = "()", "usize", "(usize, usize)"


# ---------------------------------------------------------------- known bits
class Unknown(Exception): pass


def norm_bit(vs, tt):
    """drop the variables a table does not depend on"""
    vs, tt = list(vs), tuple(tt)
    i = 0
    while i < len(vs):
        m = 1 << i
        if all(tt[x] == tt[x ^ m] for x in range(len(tt))):
            tt = tuple(tt[x] for x in range(len(tt)) if not x & m)
            del vs[i]
        else: i += 1
    return (tuple(vs), tt)


B0, B1 = ((), (0,)), ((), (1,))
def var(x): return ((x,), (0, 1))


def op2(f, a, b):
    if not a[0] and not b[0]: return B1 if f(a[1][0], b[1][0]) else B0
    vs = sorted(set(a[0]) | set(b[0]))
    if len(vs) > 7: raise Unknown("too many bits in one expression")
    pa, pb = [vs.index(x) for x in a[0]], [vs.index(x) for x in b[0]]
    tt = []
    for x in range(1 << len(vs)):
        ia = sum(((x >> q) & 1) << i for i, q in enumerate(pa))
        ib = sum(((x >> q) & 1) << i for i, q in enumerate(pb))
        tt.append(1 if f(a[1][ia], b[1][ib]) else 0)
    return norm_bit(vs, tt)


AND, OR, XOR = (lambda x, y: x & y), (lambda x, y: x | y), (lambda x, y: x ^ y)
def inv(a): return (a[0], tuple(1 - x for x in a[1]))


def all_of(bs):
    bs = list(bs)
    if B0 in bs: return B0
    r = B1
    for b in bs:
        if b == B1: continue
        try: r = op2(AND, r, b)
        except Unknown: return None
    return r


def any_of(bs):
    bs = list(bs)
    r = all_of([inv(b) if b is not None else None for b in bs]) if None not in bs else (B0 if B1 in bs else None)
    return None if r is None else inv(r)


class Bits:
    """values of terms as vectors of bits (least significant first)"""
    def __init__(self, env, width): self.env, self.w, self.memo = env, width, {}

    def const(self, k, w): return [B1 if (k >> i) & 1 else B0 for i in range(w)]

    def vec(self, v, w=None):
        w = w or self.w
        r = self.memo.get((v, w))
        if r is None: r = self.memo[(v, w)] = self._vec(v, w)
        return r

    def _vec(self, v, w):
        if v in self.env:
            x = self.env[v]
            return (list(x) + [B0] * w)[:w]
        o, a = v.op, v.a
        if o == "c": return self.const(a[0], w)
        if o == "b": return self.const(int(a[0]), w)
        if o == "un" and a[0] == "Not": return [inv(b) for b in self.vec(a[1], w)]
        if o == "not": return [inv(b) for b in self.vec(a[0], w)]
        if o == "cast": return (self.vec(a[1], w)[:{"u8": 8, "u16": 16, "u32": 32, "i32": 32}.get(a[0], 64)] + [B0] * w)[:w]
        if o == "b2i": return [self.bit(a[0])] + [B0] * (w - 1)
        if o == "bin":
            if a[0] in ("BitAnd", "BitOr", "BitXor"):
                f = {"BitAnd": AND, "BitOr": OR, "BitXor": XOR}[a[0]]
                return [op2(f, x, y) for x, y in zip(self.vec(a[1], w), self.vec(a[2], w))]
            if a[0][:3] in ("Shl", "Shr"):
                n = self.num(a[2], 64)
                x = self.vec(a[1], w)
                return ([B0] * n + x)[:w] if a[0][:3] == "Shl" else (x[n:] + [B0] * w)[:w]
        if o == "lin":
            r = self.const(a[0], w)
            for t, k in a[1]:
                x = self.vec(t, w)
                for _ in range(abs(k)) if abs(k) <= 4 else self.over():
                    r = self.addc(r, x, B0) if k > 0 else self.addc(r, [inv(b) for b in x], B1)
            return r
        if o == "bitfn":
            x = self.vec(a[1], a[2])
            if a[0] == "trailing_zeros":
                for i, b in enumerate(x):
                    if b == B1: return self.const(i, w)
                    if b != B0: break
                else: return self.const(a[2], w)
            if a[0] == "leading_zeros":
                for i, b in enumerate(reversed(x)):
                    if b == B1: return self.const(i, w)
                    if b != B0: break
                else: return self.const(a[2], w)
            if a[0] in ("count_ones", "count_zeros") and all(not b[0] for b in x):
                return self.const(sum(b[1][0] == (a[0] == "count_ones") for b in x), w)
        raise Unknown(show(v)[:100])

    def over(self): raise Unknown("large multiple")

    def addc(self, x, y, c):
        out = []
        for i, j in zip(x, y):
            k = op2(XOR, i, j)
            out.append(op2(XOR, k, c))
            c = op2(OR, op2(AND, i, j), op2(AND, k, c))
        return out

    def num(self, v, w=64):
        x = self.vec(v, w)
        if any(b[0] for b in x): raise Unknown("not a known number: " + show(v)[:80])
        return sum(b[1][0] << i for i, b in enumerate(x))

    def bit(self, v):
        """a condition; None: depends on too many bits"""
        o, a = v.op, v.a
        if v in self.env: return self.env[v][0]
        if o == "b": return B1 if a[0] else B0
        if o == "not":
            r = self.bit(a[0])
            return None if r is None else inv(r)
        if o in ("and", "or"):
            xs = [self.bit(x) for x in a]
            if o == "or": return any_of(xs)
            return B0 if B0 in xs else None if None in xs else all_of(xs)
        if o in ("eq", "eqk"):
            y = a[1] if isinstance(a[1], V) else C(a[1])
            if a[0].op in ("b", "not", "and", "or", "le"):
                p, q = self.bit(a[0]), self.bit(y)
                return None if p is None or q is None else inv(op2(XOR, p, q))
            w = 64
            if a[0].op == "lin" and y.op == "c":
                p = mk("lin", 0, tuple((t, k) for t, k in a[0].a[1] if k > 0))
                q = mk("lin", y.a[0] - a[0].a[0], tuple((t, -k) for t, k in a[0].a[1] if k < 0))
                return all_of([inv(op2(XOR, i, j)) for i, j in zip(self.vec(p, w), self.vec(q, w))])
            return all_of([inv(op2(XOR, i, j)) for i, j in zip(self.vec(a[0], w), self.vec(y, w))])
        if o == "le":
            y = a[1] if isinstance(a[1], V) else C(a[1])
            r = B1
            for i, j in zip(self.vec(a[0], 64), self.vec(y, 64)):
                lt_, same = op2(AND, inv(i), j), inv(op2(XOR, i, j))
                try: r = op2(OR, lt_, op2(AND, same, r))
                except Unknown: return None
            return r
        x = self.vec(v, 1)
        return x[0]


# ---------------------------------------------------------------- the operations
class Mon:
    def __init__(self): self.panics = 0

    def on_panic(self, st, kind, f, ctx, span, why=None): self.panics += 1

    def on_branch(self, st, t, val, span):
        if val is not None: st.setg("br", (st.g("br") or ()) + ((t, bool(val)),))

    def on_else(self, st, v, vals, span):
        st.setg("br", (st.g("br") or ()) + tuple((eq(v, C(x)), False) for x in vals))

    def on_call(self, c):
        n = norm(c.path)
        m = n.rsplit("::", 1)[1]
        if n == "std::vec::from_elem" and c.args[1].op == "c" and c.args[1].a[0] <= 64:
            return [(c.st, mk("vec", *[c.args[0]] * c.args[1].a[0]))]
        if m == "into_boxed_slice" and c.args[0].op == "vec": return [(c.st, mk("box", c.args[0]))]
        if m in ("trailing_zeros", "leading_zeros", "count_ones", "count_zeros") and "num" in n:
            w = re.search(r"impl (?:u|i)(\d+|size)", c.path)
            w = 64 if not w or w.group(1) == "size" else int(w.group(1))
            return [(c.st, mk("bitfn", m, c.args[0], w))]
        if c.key is None and re.match(r"(<.* as )?bitset::(Split)?Index(>)?::\w+$", c.path):
            v = c.args[0]
            if v.op == "ref": v = c.st.load(v.a[0], v.a[1])
            me = U if v.op == "unit" or v.op == "tup" and not v.a else D2 if v.op == "tup" else S
            tr = "SplitIndex" if m == "slice_outer" else "Index"
            for f in self.api.p.fns:
                if f and f.path == f"<{me} as bitset::{tr}>::{m}":
                    return [(s, r) for s, r in self.eng.run_fn(f, c.args, c.st, self.eng.ctx(c.ctx, f.id, m))]
        return None


class Api:
    def __init__(self, p):
        self.p = p
        self.tab = {}
        for f in p.fns:
            if not f or "bitset::" not in f.path or "{" in f.path: continue
            n = re.sub(r"^<(?:impl )?(.*) as .*>(::\w+)$", r"\1\2", f.path)
            mm = re.match(r"bitset::(\w+)(?:::)?(<.*>)?::(\w+)$", n)
            if not mm: continue
            me = None
            for i in range(1, f.argc + 1):
                ty = p.tys[f.locals[i][0]]["s"]
                g = re.search(r"bitset::BitSet(?:Ref|RefMut)?<(?:'\w+, )?(.*)>$", ty)
                if g: me = g.group(1); break
            if me is None and mm.group(3) == "new": me = p.tys[f.locals[1][0]]["s"]
            self.tab.setdefault((mm.group(1), mm.group(3)), {}).setdefault(me, f)

    def fn(self, ty, idx, m):
        d = self.tab.get((ty, m))
        if not d: return None
        if idx in d: return d[idx]
        for k, f in d.items():
            if k in ("Idx", "Self") or k is None: return f
        return None

    def call(self, ty, idx, m, args, mem):
        f = self.fn(ty, idx, m)
        if f is None: raise Missing(f"{ty}<{idx}>::{m}")
        mon = Mon()
        mon.api = self
        e = Engine(self.p, [mon], exact=True)
        e.depth = 2
        mem = dict(mem)
        a = list(args)
        for i in range(min(f.argc, len(a))):
            t = self.p.tys[f.locals[i + 1][0]]
            if t["k"] == "ref" and not (a[i].op == "ref" and not a[i].a[1] and a[i].a[0].op == "root"):
                r = mk("root", f"self{len(mem)}")
                mem[r] = a[i]
                a[i] = ref(r)
        ex = e.start(f, a, mem=mem)
        self.self_root = a[0].a[0] if a and a[0].op == "ref" else None
        return ex, mon.panics, f

    def call1(self, *a):
        ex, _, f = self.call(*a)
        if len(ex) != 1: raise Bad(f"{a[0]}::{a[2]} has {len(ex)} ways to return", f)
        return ex[0][0], ex[0][1], f


class Bad(Exception):
    def __init__(self, msg, f=None): Exception.__init__(self, msg); self.f = f


KEEP_MEM = lambda st: {r: v for r, v in st.mem.items() if r.op == "root"}
ROOT = lambda n: mk("root", n)


def sizes(idx, tier):
    one = [1, 31, 32, 33, 64, 65, 100] + ([63, 96, 97, 128] if tier == "thorough" else [])
    if idx == U: return [(UNIT, n) for n in one]
    if idx == S: return [(C(r), n) for r in ((1, 2, 3) if tier != "thorough" else (1, 2, 3, 4)) for n in (1, 32, 33, 65)]
    k = 3 if tier != "thorough" else 4
    return [(tup(C(r), C(q)), n) for r in range(1, k + 1) for q in range(1, k + 1) for n in ((1, 33, 65) if tier == "thorough" or r == q == 2 else (33,))]


def blocks_of(v):
    """the storage of a set: its one sequence"""
    xs = [(i, x) for i, x in enumerate(v.a) if isinstance(x, V) and (x.op == "vec" or x.op == "box")]
    if v.op != "adt" or len(xs) != 1: raise Bad("a new set has no single storage of known length: " + show(v)[:120])
    i, x = xs[0]
    inner = x.a[0] if x.op == "box" else x
    if inner.op != "vec": raise Bad("a new set has no storage of known length")
    return i, x.op == "box", inner.a


def symbolic(v, tag):
    i, boxed, bl = blocks_of(v)
    syms = [mk("sym", "block", f"{tag}{k}") for k in range(len(bl))]
    x = mk("vec", *syms)
    if boxed: x = mk("box", x)
    return mk("adt", *v.a[:i], x, *v.a[i + 1:]), syms


def env_for(syms, width=32): return {s: [var((s.a[1], b)) for b in range(width)] for s in syms}


def width_of(api):
    for f in api.p.fns:
        if f and "bitset::BitSet" in f.path:
            for a in api.p.adts.get("bitset::BitSetRef", {}).get("variants", [{}])[0].get("fields", []):
                m = re.search(r"\[(u\d+|usize|\w+::Block)\]", api.p.tys[a[1]]["s"] if isinstance(a, list) and isinstance(a[1], int) else str(a))
                if m and m.group(1)[0] == "u" and m.group(1) != "usize": return int(m.group(1)[1:])
            break
    return 32


# how a row of a set of each shape can be reached: [(type, shape, method, arguments of the row's index)]
def ways(api, idx, r):
    return [w for w in all_ways(idx, r) if all(api.fn(*x[:3]) for x in w)]


def all_ways(idx, r):
    if idx == U:
        return [[("BitSet", U, "slice", UNIT)], [("BitSet", U, "borrow", None)], [("BitSet", U, "slice_mut", UNIT)], [("BitSet", U, "borrow_mut", None)],
                [("BitSet", U, "borrow_mut", None), ("BitSetRefMut", U, "reborrow", None)]]
    if idx == S:
        i = C(r[0])
        return [[("BitSet", S, "slice", i)], [("BitSet", S, "slice_mut", i)], [("BitSet", S, "borrow", None), ("BitSetRef", S, "slice", i)],
                [("BitSet", S, "borrow_mut", None), ("BitSetRefMut", S, "slice", i)], [("BitSet", S, "borrow_mut", None), ("BitSetRefMut", S, "slice_mut", i)]]
    i, j = C(r[0]), C(r[1])
    return [[("BitSet", D2, "slice", tup(i, j))], [("BitSet", D2, "slice_mut", tup(i, j))],
            [("BitSet", D2, "slice2d", i), ("BitSetRef", S, "slice", j)], [("BitSet", D2, "slice2d_mut", i), ("BitSetRefMut", S, "slice_mut", j)],
            [("BitSet", D2, "borrow", None), ("BitSetRef", D2, "slice", i), ("BitSetRef", S, "slice", j)],
            [("BitSet", D2, "borrow_mut", None), ("BitSetRefMut", D2, "slice_mut", i), ("BitSetRefMut", S, "slice_mut", j)]]


def rows_of(idx, dims):
    if idx == U: return [()]
    if idx == S: return [(i,) for i in range(dims.a[0])]
    return [(i, j) for i in range(dims.a[0].a[0]) for j in range(dims.a[1].a[0])]


def reach(api, way, mem, root):
    """(row handle, its type and shape) or None when the way does not exist"""
    h, ty, idx = ref(root), None, None
    for t, i, m, x in way:
        if api.fn(t, i, m) is None: return None
        st, h, f = api.call1(t, i, m, [h] + ([x] if x is not None else []), mem)
        mem = KEEP_MEM(st)
        ty = "BitSetRefMut" if "RefMut" in h.a[0] else "BitSetRef"
    return h, ty, mem


def contains(api, h, ty, k, mem, bits, idx=U):
    """the bit `contains` reads, or None when it cannot return"""
    ex, pan, f = api.call(ty, idx, "contains", [h, C(k)], mem)
    if not ex: return None
    r = []
    for st, v in ex:
        g = all_of([x if b else inv(x) for x, b in ((bits.bit(t), b) for t, b in (st.g("br") or ()))])
        r.append(op2(AND, g, bits.bit(v)))
    return any_of(r)


def make(api, idx, dims, n, tag):
    ex, pan, f = api.call("BitSet", idx, "new", [dims, C(n)], {})
    if len(ex) != 1: raise Bad(f"BitSet::new has {len(ex)} ways to return (sizes {show(dims)}, {n})", f)
    v = ex[0][1]
    z = [show(x) for x in blocks_of(v)[2] if x.op != "c" or x.a[0] != 0]
    if z: raise Bad(f"a new set of sizes {show(dims)}, {n} starts with {z[0]} in its storage", f)
    return v, f


def place(api, idx, dims, n, tag):
    v, f = make(api, idx, dims, n, tag)
    w, syms = symbolic(v, tag)
    return w, syms, f


def expect(rep, rule, what, f, pred):
    """run one obligation; pred returns None or what is wrong"""
    try: bad = pred()
    except Bad as x:
        f = x.f or f
        bad = str(x)
    except Unknown as x: bad = f"not decided: {x}"
    rep.ob("bits", f"{rule}: {what}", bad is None, f.span if f is not None else "", bad or "")
    return bad is None


def shapes(idx, dims, n): return {U: "one-dimensional", S: f"{show(dims)} rows", D2: "x".join(show(x) for x in dims.a) if idx == D2 else ""}[idx] + f", size {n}"


def check_rows(rep, api, idx, dims, n, W):
    """reading map of every row: which stored bit each element is; the same by every way to reach the row"""
    what = shapes(idx, dims, n)
    f0 = api.fn("BitSet", idx, "new")
    def go():
        v, syms, f = place(api, idx, dims, n, "a")
        mem = {ROOT("B"): v}
        bits = Bits(env_for(syms, W), W)
        seen = {}
        for r in rows_of(idx, dims):
            first = None
            for way in ways(api, idx, r):
                got = reach(api, way, mem, ROOT("B"))
                if got is None: continue
                h, ty, m2 = got
                row = [contains(api, h, ty, k, m2, bits) for k in range(n)]
                rep.count("elements read", n)
                wn = ".".join(x[2] for x in way)
                for k, b in enumerate(row):
                    if b is None: raise Bad(f"row {r}: element {k} of {n} cannot be read through {wn}", api.fn(ty, U, "contains"))
                    if len(b[0]) != 1 or b[1] != (0, 1): raise Bad(f"row {r}: element {k} read through {wn} is not one stored bit", api.fn(ty, U, "contains"))
                if first is None: first = row
                elif first != row: raise Bad(f"row {r} is not the same row through {wn}", api.fn(*way[-1][:3]))
                # past the row: nothing, or nothing of another row
                for k in (n + W * 2, n + W * 3):
                    b = contains(api, h, ty, k, m2, bits)
                    if b is not None: raise Bad(f"row {r}: element {k} of a set of {n} can be read through {wn}", api.fn(*way[-1][:3]))
            if first is None: raise Missing(f"a way to reach row {r}")
            for k, b in enumerate(first):
                x = b[0][0]
                if x in seen: raise Bad(f"element {k} of row {r} shares its bit with element {seen[x][1]} of row {seen[x][0]}", api.fn("BitSet", idx, "slice"))
                seen[x] = (r, k)
        return None
    expect(rep, "every element of every row has a bit of its own, the same one by every way to the row", what, f0, go)


def others_same(api, syms_mem, before, after, bits, what, f):
    pass


def read_all(api, idx, dims, n, mem, root, bits):
    out = {}
    for r in rows_of(idx, dims):
        got = reach(api, ways(api, idx, r)[0], mem, root)
        h, ty, m2 = got
        for k in range(n): out[r, k] = held(api, h, ty, k, m2, bits)
    return out


def held(api, h, ty, k, mem, bits):
    b = contains(api, h, ty, k, mem, bits)
    if b is None: raise Bad(f"element {k} cannot be read", api.fn(ty, U, "contains"))
    return b


def stored(*a):
    b = held(*a)
    if len(b[0]) != 1: raise Bad("an element is not one stored bit", a[0].fn(a[2], U, "contains"))
    return b[0][0]


def check_point(rep, api, idx, dims, n, W):
    """insert and remove change one element of one row"""
    for m, val in (("insert", B1), ("remove", B0)):
        f0 = api.fn("BitSetRefMut", U, m)
        def go():
            v, syms, f = place(api, idx, dims, n, "a")
            mem = {ROOT("B"): v}
            bits = Bits(env_for(syms, W), W)
            before = read_all(api, idx, dims, n, mem, ROOT("B"), bits)
            rows = rows_of(idx, dims)
            for r in (rows if len(rows) <= 4 else [rows[0], rows[1], rows[len(rows) // 2], rows[-1]]):
                way = [w for w in ways(api, idx, r) if "mut" in w[-1][2]]
                for k in (range(n) if len(rows) == 1 else sorted({0, n // 2, n - 1, min(n - 1, 31), min(n - 1, 32)})):
                    w = way[k % len(way)]
                    h, ty, m2 = reach(api, w, mem, ROOT("B"))
                    ex, pan, f = api.call("BitSetRefMut", U, m, [h, C(k)], m2)
                    if not ex: raise Bad(f"{m}({k}) cannot return on a row of {n}", f)
                    for st, _ in ex:
                        b2 = Bits(env_for(syms, W), W)
                        after = read_all(api, idx, dims, n, KEEP_MEM(st), ROOT("B"), b2)
                        rep.count("point updates")
                        for q in before:
                            want = val if q == (r, k) else before[q]
                            if len(ex) > 1 and q == (r, k) and after[q] != want:  # e.g. only written when it has to change
                                g = all_of([bits.bit(t) if b else inv(bits.bit(t)) for t, b in (st.g("br") or ())])
                                want = after[q] if op2(AND, g, op2(XOR, after[q], val)) == B0 else want
                            if after[q] != want:
                                raise Bad(f"{m}({k}) on row {r}: element {q[1]} of row {q[0]} is " + ("not " if val == B1 and q == (r, k) else "") + ("inserted" if q == (r, k) and val == B1 else "not removed" if q == (r, k) else "changed"), f)
                ex, pan, f = api.call("BitSetRefMut", U, m, [reach(api, way[0], mem, ROOT("B"))[0], C(n + 2 * W)], mem)
                if ex: raise Bad(f"{m}({n + 2 * W}) is accepted on a set of {n}", f)
            return None
        expect(rep, f"{m} changes its own element and no other", shapes(idx, dims, n), f0, go)


BIN = {"union_with": OR, "difference_with": lambda x, y: x & (1 - y), "intersect_with": AND, "copy_from": lambda x, y: y}


def check_binary(rep, api, idx, dims, n, W):
    """whole-row operations, on rows of a set and on whole sets"""
    rows = rows_of(idx, dims)
    for m, fn in list(BIN.items()) + [("clear", None)]:
        for whole in ((False, True) if idx != U else (False,)):
            hidx = idx if whole else U
            f0 = api.fn("BitSetRefMut", hidx, m)
            if f0 is None: continue
            def go():
                v, sa, _ = place(api, idx, dims, n, "a")
                w, sb, _ = place(api, idx, dims, n, "b")
                for r in ([rows[0], rows[-1]] if len(rows) > 1 and not whole else [rows[-1]]):
                    mem = {ROOT("A"): v, ROOT("B"): w}
                    bits = Bits(env_for(sa + sb, W), W)
                    a0, b0 = (read_all(api, idx, dims, n, mem, ROOT(z), bits) for z in "AB")
                    rb = rows[0]
                    if whole:
                        st, h, f = api.call1("BitSet", idx, "borrow_mut", [ref(ROOT("A"))], mem)
                        st, h2, f = api.call1("BitSet", idx, "borrow", [ref(ROOT("B"))], mem)
                    else:
                        h = reach(api, [x for x in ways(api, idx, r) if "mut" in x[-1][2]][0], mem, ROOT("A"))[0]
                        h2 = reach(api, [x for x in ways(api, idx, rb) if "mut" not in x[-1][2]][0], mem, ROOT("B"))[0]
                    ex, pan, f = api.call("BitSetRefMut", hidx, m, [h] + ([h2] if fn else []), mem)
                    if len(ex) != 1: raise Bad(f"{m} has {len(ex)} ways to return on sets of the same size", f)
                    m3 = KEEP_MEM(ex[0][0])
                    a1, b1 = (read_all(api, idx, dims, n, m3, ROOT(z), bits) for z in "AB")
                    rep.count("element-wise results", len(a1))
                    for q in a0:
                        if b1[q] != b0[q]: raise Bad(f"{m} changes element {q[1]} of row {q[0]} of the other set", f)
                        if whole or q[0] == r:
                            want = B0 if fn is None else op2(fn, a0[q], b0[q if whole else (rb, q[1])])
                        else: want = a0[q]
                        if a1[q] != want: raise Bad(f"{m}: element {q[1]} of row {q[0]} is not what the operation on that element gives", f)
                return None
            expect(rep, f"{m} acts element by element" + (" (whole sets)" if whole else ""), shapes(idx, dims, n), f0, go)


def outcomes(api, ty, idx, m, args, mem, env, W):
    ex, pan, f = api.call(ty, idx, m, args, mem)
    bits = Bits(env, W)
    out = set()
    for st, v in ex:
        ok = True
        for t, b in st.g("br") or ():
            x = bits.bit(t)
            if x is not None and not x[0] and (x == B1) != b: ok = False; break
        if ok:
            x = bits.bit(v)
            out.add(x)
    return out, f


def check_tests(rep, api, n, W):
    """is_empty and is_subset"""
    for ty in ("BitSetRef", "BitSetRefMut"):
        f0 = api.fn(ty, U, "is_empty")
        mut = "_mut" if "Mut" in ty else ""
        if f0 is not None:
            def go():
                v, sa, _ = place(api, U, UNIT, n, "a")
                mem = {ROOT("A"): v}
                st, h, f = api.call1("BitSet", U, "borrow" + mut, [ref(ROOT("A"))], mem)
                env = env_for(sa, W)
                where = {k: stored(api, h, ty, k, mem, Bits(env, W)) for k in range(n)}
                o, f = outcomes(api, ty, U, "is_empty", [h], mem, {s: [B0] * W for s in sa}, W)
                if o != {B1}: raise Bad("the empty set is not empty", f)
                for k in range(n):
                    e2 = {s: [B1 if (s.a[1], b) == where[k] else env[s][b] for b in range(W)] for s in sa}
                    o, f = outcomes(api, ty, U, "is_empty", [h], mem, e2, W)
                    rep.count("membership patterns")
                    if o != {B0}: raise Bad(f"a set with element {k} can be taken for empty", f)
            expect(rep, f"{ty}::is_empty is true of the empty set only", f"size {n}", f0, go)
        f0 = api.fn(ty, U, "is_subset")
        if f0 is not None:
            def go():
                v, sa, _ = place(api, U, UNIT, n, "a")
                w, sb, _ = place(api, U, UNIT, n, "b")
                mem = {ROOT("A"): v, ROOT("B"): w}
                st, h, f = api.call1("BitSet", U, "borrow" + mut, [ref(ROOT("A"))], mem)
                st, h2, f = api.call1("BitSet", U, "borrow", [ref(ROOT("B"))], mem)
                env = env_for(sa + sb, W)
                wa = {k: stored(api, h, ty, k, mem, Bits(env, W)) for k in range(n)}
                wb = {k: stored(api, h2, "BitSetRef", k, mem, Bits(env, W)) for k in range(n)}
                inv_b = {x: k for k, x in wb.items()}
                e1 = dict(env)
                pair = {wa[k]: wb[k] for k in range(n)}
                for s in sa:
                    e1[s] = [op2(AND, env[s][b], var(pair[s.a[1], b])) if (s.a[1], b) in pair else B0 for b in range(W)]
                o, f = outcomes(api, ty, U, "is_subset", [h, h2], mem, e1, W)
                if o != {B1}: raise Bad("a subset is not recognised", f)
                for k in range(n):
                    e2 = {s: [B1 if (s.a[1], b) == wa[k] else B0 if (s.a[1], b) == wb[k] else env[s][b] for b in range(W)] for s in sa + sb}
                    o, f = outcomes(api, ty, U, "is_subset", [h, h2], mem, e2, W)
                    rep.count("membership patterns")
                    if o != {B0}: raise Bad(f"a set with element {k} can pass for a subset of one without it", f)
            expect(rep, f"{ty}::is_subset compares every element", f"size {n}", f0, go)


def check_copies(rep, api, idx, dims, n, W):
    for ty, m in (("BitSetRef", "to_bitset"), ("BitSet", "clone")):
        f0 = api.fn(ty, idx, m)
        if f0 is None: continue
        def go():
            v, sa, _ = place(api, idx, dims, n, "a")
            mem = {ROOT("A"): v}
            bits = Bits(env_for(sa, W), W)
            before = read_all(api, idx, dims, n, mem, ROOT("A"), bits)
            h = ref(ROOT("A"))
            if ty != "BitSet": st, h, f = api.call1("BitSet", idx, "borrow", [h], mem)
            st, c, f = api.call1(ty, idx, m, [h], mem)
            m2 = KEEP_MEM(st)
            m2[ROOT("C")] = c
            after = read_all(api, idx, dims, n, m2, ROOT("C"), bits)
            for q in before:
                if after[q] != before[q]: raise Bad(f"element {q[1]} of row {q[0]} is not copied", f)
            rep.count("element-wise results", len(before))
            # a copy of its own: writing to it leaves the original
            r = rows_of(idx, dims)[-1]
            way = [x for x in ways(api, idx, r) if "mut" in x[-1][2]][0]
            h, t, m3 = reach(api, way, m2, ROOT("C"))
            ex, _, f = api.call("BitSetRefMut", U, "insert", [h, C(n - 1)], m3)
            again = read_all(api, idx, dims, n, KEEP_MEM(ex[0][0]), ROOT("A"), bits)
            if again != before: raise Bad("the copy shares storage with the original", f)
        expect(rep, f"{m} copies every element", shapes(idx, dims, n), f0, go)


def check_resize(rep, api, W):
    f0 = api.fn("BitSetRef", U, "resize")
    if f0 is None: return
    for n, k in ((1, 1), (31, 65), (33, 32), (40, 100), (65, 33), (100, 31), (64, 64)):
        def go():
            m = min(n, k)
            for elems in [()] + [(x,) for x in sorted({0, m // 2, m - 1})] + [tuple(range(0, m, 3))]:
                v, _ = make(api, U, UNIT, n, "a")
                mem = {ROOT("A"): v}
                for x in elems:
                    st, h, f = api.call1("BitSet", U, "borrow_mut", [ref(ROOT("A"))], mem)
                    st, _, f = api.call1("BitSetRefMut", U, "insert", [h, C(x)], KEEP_MEM(st))
                    mem = KEEP_MEM(st)
                st, h, f = api.call1("BitSet", U, "borrow", [ref(ROOT("A"))], mem)
                st, c, f = api.call1("BitSetRef", U, "resize", [h, C(k)], KEEP_MEM(st))
                m2 = {ROOT("C"): c}
                st, h, f2 = api.call1("BitSet", U, "borrow", [ref(ROOT("C"))], m2)
                bits = Bits({}, W)
                for x in range(k):
                    b = contains(api, h, "BitSetRef", x, m2, bits)
                    rep.count("resized elements")
                    if b != (B1 if x in elems else B0): raise Bad(f"resizing {n} to {k}: element {x} of {elems} " + ("is lost" if x in elems else "appears" if b is not None else "has no room"), f)
        expect(rep, "resize keeps the elements and makes room for the new size", f"{n} to {k}", f0, go)


def check_ones(rep, api, nb, W):
    """ones() yields the elements in increasing order, each once: for every state between two elements, the next call gives the
    least remaining element and the state that follows it"""
    f0 = fn1(api.p, r"^<bitset::Ones(<.*>)? as std::iter::Iterator>::next$")
    n = nb * W
    def pattern(sa, where, least, floor):
        """all sets whose least element above `floor` is `least` (None: no more)"""
        e = {}
        for i, s in enumerate(sa):
            e[s] = [(var((s.a[1], b)) if least is not None and where[s.a[1], b] > least else B1 if where[s.a[1], b] == least else
                     B1 if where[s.a[1], b] == floor else B0) for b in range(W)]
        return e
    def step(itv, mem):
        mon = Mon()
        mon.api = api
        e = Engine(api.p, [mon], exact=True)
        e.depth = 2
        m = dict(mem)
        r = ROOT("it")
        m[r] = itv
        ex = e.start(f0, [ref(r)], mem=m)
        return [(st.g("br") or (), v, st.mem.get(r)) for st, v in ex]
    def canon(v, bits):
        """a state with its blocks as bits"""
        if not isinstance(v, V): return v
        if v.op == "c": return v.a[0]
        if v.syms and v.op in ("sym", "bin", "lin", "un", "bitfn"): return tuple(bits.vec(v, W))
        if v.op == "ref": return ("ref", v.a[0].id, repr(v.a[1]))
        return (v.op,) + tuple(canon(x, bits) for x in v.a)
    def pick(paths, env):
        bits = Bits(env, W)
        live = []
        for br, v, post in paths:
            if all(x is None or x[0] or (x == B1) == b for x, b in ((bits.bit(t), b) for t, b in br)): live.append((v, post))
        if len(live) != 1: raise Unknown(f"{len(live)} paths apply")
        v, post = live[0]
        if variant(v) == "None": return None, post, bits
        return bits.num(v.a[3]), post, bits
    def go():
        for ty in ("BitSetRef", "BitSetRefMut"):
            if api.fn(ty, U, "ones") is None: continue
            v, sa, _ = place(api, U, UNIT, n, "a")
            mem = {ROOT("A"): v}
            st, h, f = api.call1("BitSet", U, "borrow" + ("_mut" if "Mut" in ty else ""), [ref(ROOT("A"))], mem)
            bits = Bits(env_for(sa, W), W)
            where = {stored(api, h, ty, k, mem, bits): k for k in range(n)}
            st, itv, f = api.call1(ty, U, "ones", [h], mem)
            mem = KEEP_MEM(st)
            paths = step(itv, mem)
            post = {}
            for k in list(range(n)) + [None]:
                got, s2, b2 = pick(paths, pattern(sa, where, k, None))
                rep.count("iteration steps")
                if got != k: raise Bad(f"the first element of a set whose least element is {k} comes out as {got}", f0)
                post[k] = (s2, canon(s2, b2)) if k is not None else None
            for k in range(n):
                paths = step(post[k][0], mem)
                for q in list(range(k + 1, n)) + [None]:
                    env = pattern(sa, where, q, k)
                    got, s2, b2 = pick(paths, env)
                    rep.count("iteration steps")
                    if got != q: raise Bad(f"after {k} the next element of a set that goes on with {q} comes out as {got}", f0)
                    if q is None: continue
                    # the state is the one reached when q was the first element (bits up to q aside)
                    if canon(s2, b2) != post[q][1]: raise Bad(f"the state after {k}, {q} is not the state after {q}", f0)
    expect(rep, "ones yields every element once, in increasing order", f"{nb} block(s) of {W}", f0, go)


def check_outer(rep, api):
    """the outer slices of a three-dimensional set hold its rows in the same places as direct indexing"""
    def tr(me, t, m):
        for f in api.p.fns:
            if f and f.path == f"<{me} as bitset::{t}>::{m}": return f
    fo, fi, fd = tr(D2, "SplitIndex", "slice_outer"), tr(S, "Index", "slice"), tr(D2, "Index", "slice")
    if not (fo and fi and fd): return
    def run(f, *args):
        mon = Mon()
        mon.api = api
        e = Engine(api.p, [mon], exact=True)
        r = mk("root", "size")
        ex = e.start(f, [ref(r)] + list(args[1:]), mem={r: args[0]})
        if len(ex) != 1: raise Bad("the range of a row is not one range", f)
        return ex[0][1]
    def go():
        for q in (1, 2, 3):
            for bs in (1, 2, 3):
                sz = tup(C(q), C(bs))
                for x in range(3):
                    o = run(fo, sz, C(x))
                    rng, inner = o.a[0], o.a[1]
                    for j in range(q):
                        r1, r2 = run(fi, inner, C(j)), run(fd, sz, tup(C(x), C(j)))
                        lo = rng.a[3].a[0]
                        rep.count("ranges")
                        if (lo + r1.a[3].a[0], lo + r1.a[4].a[0]) != (r2.a[3].a[0], r2.a[4].a[0]): raise Bad(f"row ({x}, {j}) of a set with {q} rows of {bs} blocks is elsewhere through an outer slice", fo)
                        if lo + r1.a[4].a[0] > rng.a[4].a[0]: raise Bad(f"row ({x}, {j}) is not inside its outer slice", fo)
    expect(rep, "outer slices agree with direct indexing", "three-dimensional", fo, go)


def check_letters(rep, p):
    """the letter sets of character classes"""
    def f1(pat): return fn1(p, pat)
    W = 32
    fc, fu, fd, fi = (f1(r"^words::CharBitset::%s$" % m) for m in ("contains", "union_with", "difference_with", "is_intersecting"))
    def val(x): return adt("words::CharBitset", 0, "CharBitset", x)
    def chr_(k): return adt("words::Char", 0, "Char", C(k))
    A, B = mk("sym", "block", "a"), mk("sym", "block", "b")
    ra, rb = mk("root", "A"), mk("root", "B")
    def run(f, args, mem):
        mon = Mon()
        mon.api = None
        e = Engine(p, [mon], exact=True)
        a = []
        m = dict(mem)
        for i, x in enumerate(args):
            if p.tys[f.locals[i + 1][0]]["k"] == "ref" and x.op != "ref":
                r = mk("root", f"arg{i}")
                m[r] = x
                x = ref(r)
            a.append(x)
        return e.start(f, a, mem=m)
    def truth(ex, env):
        bits = Bits(env, W)
        out = []
        for st, v in ex:
            g = all_of([x if b else (inv(x) if x is not None else None) for x, b in ((bits.bit(t), b) for t, b in (st.g("br") or ()))])
            w = bits.bit(v)
            out.append(B0 if B0 in (g, w) else None if g is None or w is None else op2(AND, g, w))
        return any_of(out)
    env = env_for([A, B], W)
    def has(v, k): return truth(run(fc, [v, chr_(k)], {}), env)
    def go():
        la, lb = [has(val(A), k) for k in range(28)], [has(val(B), k) for k in range(28)]
        for k, b in enumerate(la):
            if b is None or len(b[0]) != 1 or b[1] != (0, 1) or la.count(b) != 1: raise Bad(f"symbol {k} has no bit of its own", fc)
        for f, g in ((fu, OR), (fd, lambda x, y: x & (1 - y))):
            ex = run(f, [ref(ra), val(B)], {ra: val(A)})
            if len(ex) != 1: raise Unknown(f"{f.path} branches")
            post = ex[0][0].mem[ra]
            for k in range(28):
                rep.count("letter-set results")
                if has(post, k) != op2(g, la[k], lb[k]): raise Bad(f"symbol {k} is not what the operation gives", f)
        # intersection test
        src = {k: (la[k][0][0], lb[k][0][0]) for k in range(28)}
        ex = run(fi, [val(A), val(B)], {})
        def e_with(fa, fb): return {A: [fa((("a"), b)) for b in range(W)], B: [fb(("b", b)) for b in range(W)]}
        t = {x[0]: k for k, x in src.items()}
        disjoint = {A: [op2(AND, var(("a", b)), var(("c", b))) for b in range(W)], B: [op2(AND, var(("b", b)), inv(var(("c", b)))) for b in range(W)]}
        if truth(ex, disjoint) != B0: raise Bad("disjoint letter sets are said to intersect", fi)
        for k in range(28):
            e2 = {A: [B1 if ("a", b) == src[k][0] else x for b, x in enumerate(env[A])], B: [B1 if ("b", b) == src[k][1] else x for b, x in enumerate(env[B])]}
            rep.count("letter-set results")
            if truth(ex, e2) != B1: raise Bad(f"sets that share symbol {k} are said not to intersect", fi)
        inv_ = fns(p, r"^words::CharBitset::invert$")
        for f in inv_[:1]:
            ex = run(f, [ref(ra)], {ra: val(A)})
            post = ex[0][0].mem[ra]
            for k in range(26):
                if len(ex) != 1 or has(post, k) != inv(la[k]): raise Bad(f"negation does not flip letter {k}", f)
        for f in fns(p, r"^<words::CharBitset as std::convert::From<&?(words::Char)>>::from$"):
            for k in range(28):
                ex = run(f, [chr_(k)], {})
                for q in range(28):
                    if len(ex) != 1 or has(ex[0][1], q) != (B1 if q == k else B0): raise Bad(f"the set of symbol {k} " + ("lacks it" if q == k else f"contains {q}"), f)
    expect(rep, "letter sets act letter by letter", "28 symbols", fc, go)


def c31(rep, tier):
    rep.rule("bits", "every element of every row has a bit of its own, the same one by every way to the row; insert/remove change one element; union, difference, intersection, copy, clear, copies and emptiness/subset tests act on each element; ones yields the elements in order")
    p = prog("lib")
    api = Api(p)
    for ty, m in (("BitSet", "new"), ("BitSet", "borrow"), ("BitSet", "borrow_mut"), ("BitSet", "slice"), ("BitSet", "slice_mut"), ("BitSetRefMut", "insert"), ("BitSetRefMut", "remove"),
                  ("BitSetRef", "contains"), ("BitSetRefMut", "union_with"), ("BitSetRefMut", "difference_with"), ("BitSetRefMut", "copy_from"), ("BitSetRefMut", "clear"), ("BitSetRef", "is_empty")):
        if not api.tab.get((ty, m)): raise Missing(f"{ty}::{m}")
    W = width_of(api)
    jobs = []
    for idx in (U, S, D2):
        for dims, n in sizes(idx, tier):
            jobs.append((check_rows, (api, idx, dims, n, W)))
            jobs.append((check_point, (api, idx, dims, n, W)))
            if n >= 32: jobs.append((check_binary, (api, idx, dims, n, W)))
            if n in (33, 65): jobs.append((check_copies, (api, idx, dims, n, W)))
    for n in (1, 32, 33, 65): jobs.append((check_tests, (api, n, W)))
    for nb in (3, 1, 2) + ((4,) if tier == "thorough" else ()): jobs.insert(0, (check_ones, (api, nb, W)))
    jobs.append((check_resize, (api, W)))
    jobs.append((check_outer, (api,)))
    jobs.append((check_letters, (p,)))
    rep.each(list(range(len(jobs))), lambda r, i: jobs[i][0](r, *jobs[i][1]))
    rep.note(f"blocks of {W} bits, contents unknown; up to {max(n for i in (U,) for _, n in sizes(i, tier))} elements and 4 blocks a row, up to 3 rows an axis (4 in the thorough tier)")
    rep.assume("the operands of a two-set operation have the same size; rows of a size up to a few blocks stand for longer ones")
