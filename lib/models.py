"""Abstract semantics of the standard-library leaf functions (no MIR body in the dump)."""
import re
from absint import *

_exact, _rx, _cache = {}, [], {}


def model(*pats):
    def d(f):
        for p in pats: _rx.append((re.compile(p), f))
        return f
    return d


def lookup(path, p):
    k = (path, p)
    if k in _cache: return _cache[k]
    r = None
    for rx, f in _rx:
        if rx.search(path) or (p != path and rx.search(p)):
            r = f
            break
    _cache[k] = r
    return r


def D(c, i=0): return c.st.deref(c.args[i])


def DD(st, v):
    n = 0
    while v.op in ("ref", "box") and n < 6:
        v = st.deref(v)
        n += 1
    if v.op not in ("c", "b", "s", "unit", "adt", "tup", "vec", "fn", "clo") and mk("O", v) in st.mem: v = st.deref(v)
    return v


def DV(st, v, n):
    """n dereferences"""
    for _ in range(n): v = st.deref(v)
    return v


def fork(eng, c, cond):
    """(state where cond, state where not cond); None if infeasible"""
    a, b = c.st.copy(), c.st.copy()
    d = c.st.decide(cond)
    if d is TRUE: return a, None
    if d is FALSE: return None, b
    return (a if eng.branch(a, cond, True, c.span) else None), (b if eng.branch(b, cond, False, c.span) else None)


# ---------------------------------------------------------------- sequences
@model(r"vec::Vec::<T>::new$", r"SmallVec::<A>::(new|with_capacity)$", r"vec::Vec::<T>::with_capacity$", r"vec::Vec::<T, A>::with_capacity")
def vec_new(e, c): return [(c.st, mk("vec"))]


@model(r"^std::vec::from_elem$")
def from_elem(e, c): return [(c.st, mk("rep", c.args[0], c.args[1]))]


@model(r"(Vec::<T, A>|SmallVec::<A>)::push$")
def vec_push(e, c):
    v = D(c)
    c.st.store_ref(c.args[0], mk("vec", *v.a, c.args[1]) if v.op == "vec" and len(v.a) < (400 if e.exact else 12) else mk("push", v, c.args[1]))
    return [(c.st, UNIT)]


@model(r"(Vec::<T, A>|SmallVec::<A>)::pop$")
def vec_pop(e, c):
    v = D(c)
    n = e.length(c.st, c.args[0])
    y, z = fork(e, c, lt(C(0), n))
    o = []
    if y:
        x = seqget(v, sub(n, C(1)))
        y.store_ref(c.args[0], mk("vec", *v.a[:-1]) if v.op == "vec" else v.a[0] if v.op == "push" else mk("subseq", v, C(0), sub(n, C(1))))
        o.append((y, some(x)))
    if z: o.append((z, NONE))
    return o


@model(r"(Vec::<T, A>|SmallVec::<A>)::clear$", r"String::clear$")
def vec_clear(e, c):
    c.st.store_ref(c.args[0], mk("vec"))
    return [(c.st, UNIT)]


@model(r"(Vec::<T, A>|SmallVec::<A>)::remove$")
def vec_remove(e, c):
    v, i = D(c), c.args[1]
    n = seqlen(v)
    ok, bad = fork(e, c, lt(i, n))
    if bad: e.panic(bad, "remove", c.f, c.ctx, c.span, c)
    if not ok: return []
    x = seqget(v, i)
    if v.op == "vec" and i.op == "c" and i.a[0] < len(v.a): w = mk("vec", *v.a[:i.a[0]], *v.a[i.a[0] + 1:])
    else: w = mk("subseq", v, C(1), n) if i is C(0) else mk("removed", v, i)
    ok.store_ref(c.args[0], w)
    return [(ok, x)]


@model(r"(Vec::<T, A>|SmallVec::<A>)::swap_remove$")
def vec_swap_remove(e, c):
    v, i = D(c), c.args[1]
    x = seqget(v, i)
    c.st.store_ref(c.args[0], mk("removed", v, i))
    return [(c.st, x)]


@model(r"(Vec::<T, A>|SmallVec::<A>)::truncate$")
def vec_trunc(e, c):
    v, k = D(c), c.args[1]
    n = seqlen(v)
    y, z = fork(e, c, lt(k, n))
    o = []
    if y:
        y.store_ref(c.args[0], mk("subseq", v, C(0), k))
        o.append((y, UNIT))
    if z: o.append((z, UNIT))
    return o


@model(r"(Vec::<T, A>|SmallVec::<A>)::(extend_from_slice|append|insert|resize|swap)$", r"slice::<impl \[T\]>::(swap|reverse|fill|rotate_left|rotate_right)$")
def vec_mut(e, c):
    m = c.path.rsplit("::", 1)[1]
    v = D(c)
    if e.exact and v.op == "vec":
        w = None
        if m in ("extend_from_slice", "append"):
            x = DD(c.st, c.args[1]) if c.args[1].op == "ref" else c.args[1]
            if x.op == "vec": w = v.a + x.a
        elif m == "insert" and c.args[1].op == "c" and c.args[1].a[0] <= len(v.a): w = v.a[:c.args[1].a[0]] + (c.args[2],) + v.a[c.args[1].a[0]:]
        elif m == "reverse": w = tuple(reversed(v.a))
        if w is not None and len(w) < 400:
            c.st.store_ref(c.args[0], mk("vec", *w))
            if m == "append": c.st.store_ref(c.args[1], mk("vec"))
            return [(c.st, UNIT)]
    c.st.store_ref(c.args[0], e.fresh(c.st, c, "mut", 0))
    if c.path.endswith("append"): c.st.store_ref(c.args[1], mk("vec"))
    return [(c.st, UNIT)]


@model(r"::(sort|sort_unstable)$")
def vsort(e, c):
    v = D(c)
    e.event("sort", c.st, v, None, None, c)
    if v.op == "vec" and all(x.op == "c" for x in v.a): nv = mk("vec", *sorted(v.a, key=lambda x: x.a[0]))
    else: nv = mk("sorted", v, "ord")
    c.st.store_ref(c.args[0], nv)
    return [(c.st, UNIT)]


@model(r"::(sort_by_key|sort_unstable_by_key|sort_by_cached_key)$")
def vsortk(e, c):
    v = D(c)
    el = mk("sym", "el", c.ctx, c.bb)
    e.ctxsyms.setdefault(c.ctx, set()).add(el)
    s0 = c.st.copy()
    sv, c.st = c.st, s0
    r = e.tmp(s0, c.ctx, el, ("sortel", c.bb))
    res = e.call_value(c, c.args[1], [r], "sort")
    c.st = sv
    keys = {v2 for _, v2 in res}
    k = keys.pop() if len(keys) == 1 else mk("app", "?")
    e.event("sort", sv, v, el, k, c)
    sv.store_ref(c.args[0], mk("sorted", v, "by", substv(k, {el: mk("EL")})))
    return [(sv, UNIT)]


@model(r"::(sort_by|sort_unstable_by)$")
def vsortb(e, c):
    v = D(c)
    a, b = mk("sym", "ela", c.ctx, c.bb), mk("sym", "elb", c.ctx, c.bb)
    e.ctxsyms.setdefault(c.ctx, set()).update((a, b))
    s0 = c.st.copy()
    sv, c.st = c.st, s0
    rs = [e.tmp(s0, c.ctx, a, ("sortel", c.bb)), e.tmp(s0, c.ctx, b, ("sortel2", c.bb))]
    res = {v2 for _, v2 in e.call_value(c, c.args[1], rs, "sort")}
    c.st = sv
    k = None
    if len(res) == 1:
        r = res.pop()
        if r.op == "sgn":
            ka, kb = substv(r.a[0], {a: mk("EL")}), substv(r.a[1], {b: mk("EL")})
            if ka is kb: k = ka
    if k is not None: e.event("sort", sv, v, a, substv(k, {mk("EL"): a}), c)
    else: e.event("sort", sv, v, None, None, c)
    sv.store_ref(c.args[0], mk("sorted", v, "by", k) if k is not None else mk("sorted", v, "cmp"))
    return [(sv, UNIT)]


@model(r"(Vec::<T, A>|SmallVec::<A>)::dedup$")
def dedup(e, c):
    v = D(c)
    if v.op == "vec" and all(x.op == "c" for x in v.a): nv = mk("vec", *[x for i, x in enumerate(v.a) if i == 0 or x is not v.a[i - 1]])
    else: nv = mk("app", "dedup", v)
    c.st.store_ref(c.args[0], nv)
    return [(c.st, UNIT)]


@model(r"Vec::<T, A>::(len)$", r"slice::<impl \[T\]>::len$", r"SmallVec::<A>::len$", r"str::<impl str>::len$", r"String::len$")
def vlen(e, c): return [(c.st, e.length(c.st, c.args[0]))]


@model(r"Vec::<T, A>::is_empty$", r"slice::<impl \[T\]>::is_empty$", r"SmallVec::<A>::is_empty$", r"str::<impl str>::is_empty$", r"String::is_empty$")
def vempty(e, c): return [(c.st, eq(e.length(c.st, c.args[0]), C(0)))]


@model(r"Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$", r"SmallVec<A> as std::ops::Deref(Mut)?>::deref(_mut)?$", r"String as std::ops::Deref(Mut)?>::deref",
       r"String as std::convert::AsRef<", r"Vec<T, A> as std::convert::AsRef<", r"Vec<T, A> as std::borrow::Borrow", r"String::as_str$", r"Vec::<T, A>::(as_slice|as_mut_slice)$",
       r"std::pin::Pin::<.*>::(new|new_unchecked|as_mut|get_mut|get_unchecked_mut|as_ref)$", r"str::<impl str>::as_bytes$", r"String::into_boxed_str$", r"Vec::<T, A>::into_boxed_slice$",
       r"std::hint::must_use$", r"PathBuf as std::convert::AsRef", r"std::hint::black_box$", r"as std::borrow::Borrow<T>>::borrow$", r"String as std::convert::From<std::string::String>",
       r"slice::<impl \[T\]>::into_vec$", r"array::<impl \[T; N\]>::as_slice$", r"std::convert::identity$", r"ManuallyDrop::<T>::new$",
       r"SmallVec::<A>::(from_vec|into_vec|as_slice|as_mut_slice|into_boxed_slice)$", r"SmallVec<A> as std::convert::From<(std::vec::Vec|\[)", r"smallvec::SmallVec<A> as std::convert::From<std::vec::Vec", r"SmallVec<A> as std::(convert::AsRef|borrow::Borrow)")
def ident(e, c):
    return [(c.st, c.args[0])]


@model(r"Box<T, A> as std::(ops::Deref(Mut)?>::deref(_mut)?|convert::As(Ref|Mut)<T>>::as_(ref|mut)|borrow::Borrow(Mut)?<T>>::borrow(_mut)?)$")
def box_deref(e, c):
    b = c.args[0]
    if b.op == "ref": return [(c.st, mk("ref", b.a[0], b.a[1] + (("d",),), b.a[2]))]
    return [(c.st, mk("ref", mk("O", b), (("d",),), True))]


@model(r"boxed::Box::<T>::new$", r"Box<T> as std::convert::From<T>>::from$", r"sync::Arc::<T>::new$", r"rc::Rc::<T>::new$")
def box_new(e, c): return [(c.st, mk("box", c.args[0]))]


@model(r"boxed::Box::<T>::new_uninit$")
def box_uninit(e, c): return [(c.st, mk("box", mk("uninit")))]


@model(r"box_assume_init_into_vec_unsafe$")
def into_vec(e, c):
    b = c.args[0]
    v = proj(proj(proj(b, ("d",)), ("f", 1, "value")), ("f", 0, "value"))
    return [(c.st, v)]


@model(r"as std::ops::Index(Mut)?<I>>::index(_mut)?$", r"slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$",
       r"array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$", r"str::traits::<impl std::ops::Index(Mut)?<I> for str>::index", r"slice::<impl \[T\]>::get_unchecked(_mut)?$")
def index(e, c):
    b, i = c.args
    st = c.st
    n = e.length(st, b)
    unchecked = "unchecked" in c.path
    if i.op == "adt" and "Range" in i.a[0]:
        lo, hi = C(0), n
        nm = i.a[0].split("::")[-1]
        if nm == "Range": lo, hi = i.a[3], i.a[4]
        elif nm == "RangeFrom": lo = i.a[3]
        elif nm == "RangeTo": hi = i.a[3]
        elif nm == "RangeInclusive": lo, hi = i.a[3], add(i.a[4], C(1))
        elif nm == "RangeToInclusive": hi = add(i.a[3], C(1))
        cond = conj(le(lo, hi), le(hi, n))
        if unchecked: e.event("unchecked", st, cond, c)
        else:
            ok, bad = fork(e, c, cond)
            if bad: e.panic(bad, "slice", c.f, c.ctx, c.span, c)
            if not ok: return []
            st = ok
        if b.op == "ref": r = mk("ref", b.a[0], normpath(b.a[1] + (("sub", lo, hi),)), b.a[2])
        else: r = mk("ref", mk("O", b), (("sub", lo, hi),), True)
        return [(st, r)]
    cond = lt(i, n)
    if unchecked: e.event("unchecked", st, cond, c)
    else:
        ok, bad = fork(e, c, cond)
        if bad: e.panic(bad, "bounds", c.f, c.ctx, c.span, c)
        if not ok: return []
        st = ok
    return [(st, elemref(b, i))]


@model(r"slice::<impl \[T\]>::get(_mut)?$", r"Vec::<T, A>::get$")
def get(e, c):
    b, i = c.args
    if i.op == "adt": return None
    y, z = fork(e, c, lt(i, e.length(c.st, b)))
    return ([(y, some(elemref(b, i)))] if y else []) + ([(z, NONE)] if z else [])


@model(r"slice::<impl \[T\]>::(first|last)(_mut)?$")
def first_last(e, c):
    b = c.args[0]
    n = e.length(c.st, b)
    i = C(0) if "first" in c.path.rsplit("::", 1)[1] else sub(n, C(1))
    y, z = fork(e, c, lt(C(0), n))
    return ([(y, some(elemref(b, i)))] if y else []) + ([(z, NONE)] if z else [])


def subref(b, lo, hi):
    if b.op == "ref": return mk("ref", b.a[0], normpath(b.a[1] + (("sub", lo, hi),)), b.a[2])
    return mk("ref", mk("O", b), (("sub", lo, hi),), True)


@model(r"slice::<impl \[T\]>::split_at(_mut)?$")
def split_at(e, c):
    b, k = c.args
    n = e.length(c.st, b)
    ok, bad = fork(e, c, le(k, n))
    if bad: e.panic(bad, "split_at", c.f, c.ctx, c.span, c)
    if not ok: return []
    return [(ok, tup(subref(b, C(0), k), subref(b, k, n)))]


@model(r"slice::<impl \[T\]>::split_first(_mut)?$")
def split_first(e, c):
    b = c.args[0]
    n = e.length(c.st, b)
    y, z = fork(e, c, lt(C(0), n))
    return ([(y, some(tup(elemref(b, C(0)), subref(b, C(1), n))))] if y else []) + ([(z, NONE)] if z else [])


@model(r"slice::<impl \[T\]>::to_vec$", r"ToOwned for str>::to_owned$", r"ToOwned>::to_owned$", r"Clone>::clone$", r"^std::clone::Clone::clone$", r"Vec<T> as std::convert::From<&\[T\]>>::from",
       r"From<&str> for std::string::String>::from$|String as std::convert::From<&str>>::from$", r"From<&\[T\]> for std::boxed::Box<\[T\]>>::from", r"From<&str> for std::boxed::Box<str>>::from", r"slice::<impl std::borrow::ToOwned for \[T\]>::to_owned")
def clone(e, c):
    if c.key is not None and not derived(e, c.key): return None
    v = D(c)
    if "boxed::Box<" in c.path and "From<&" in c.path: v = mk("box", v)
    return [(c.st, v)]


def derived(e, key):
    f = e.p.fns[key]
    return f is not None and bool(f.d.get("derived"))


@model(r"ToString>::to_string$|string::ToString::to_string$")
def to_string(e, c):
    v = D(c)
    if c.callee.get("a") and e.p.tys[c.callee["a"][0]]["s"] in ("str", "std::string::String"): return [(c.st, v)]
    return None


# ---------------------------------------------------------------- comparison
def prim(e, t):
    k = e.p.tys[t]["k"]
    return k in ("int", "uint", "char", "bool", "float") or True


@model(r"as std::cmp::PartialEq.*>::(eq|ne)$", r"^std::cmp::PartialEq::(eq|ne)$", r"impl std::cmp::PartialEq.*>::(eq|ne)$", r"partial_eq::<impl .*>::(eq|ne)$")
def peq(e, c):
    p = c.path
    if re.search(r"&(mut )?[AB]", p): return None if c.key is not None else [(c.st, eqv(c, 2, p))]
    if c.key is not None and not derived(e, c.key):
        if not re.search(r"impl std::cmp::PartialEq for (usize|u8|u16|u32|u64|i8|i16|i32|i64|isize|char|bool|\(\))>", p):
            return None
    return [(c.st, eqv(c, 1, p))]


def eqv(c, n, p):
    r = eq(c.st.deref(c.args[0]) if n == 1 else DV(c.st, c.args[0], n), c.st.deref(c.args[1]) if n == 1 else DV(c.st, c.args[1], n))
    return nnot(r) if p.endswith("::ne") else r


PRIM = r"(usize|u8|u16|u32|u64|i8|i16|i32|i64|isize|char|bool|f64)"


@model(r"cmp::impls::<impl std::cmp::(Partial)?Ord for " + PRIM + r">::(cmp|partial_cmp|lt|le|gt|ge|max|min)$", r"time::Instant as std::cmp::(Partial)?Ord>::(cmp|partial_cmp|lt|le|gt|ge)$",
       r"(time::Duration) as std::cmp::(Partial)?Ord>::(cmp|partial_cmp|lt|le|gt|ge)$")
def pcmp(e, c):
    m = c.path.rsplit("::", 1)[1]
    if m in ("max", "min"): return maxmin(c, m)
    a, b = D(c, 0), D(c, 1)
    r = {"cmp": lambda: mk("sgn", a, b), "partial_cmp": lambda: some(mk("sgn", a, b)), "lt": lambda: lt(a, b), "le": lambda: le(a, b), "gt": lambda: lt(b, a), "ge": lambda: le(b, a)}[m]()
    return [(c.st, r)]


@model(r"^std::cmp::(max|min)$", r"^std::cmp::Ord::(max|min)$", r"^std::cmp::Ord::clamp$")
def cmpmax(e, c):
    t = e.p.tys[c.callee["a"][0]]["s"] if c.callee.get("a") else ""
    if not re.fullmatch(PRIM, t): return None
    m = c.path.rsplit("::", 1)[1]
    if m == "clamp": return None
    return maxmin(c, m)


def maxmin(c, m):
    a, b = c.args
    d = c.st.decide(le(a, b))
    if d is not None: return [(c.st, b if (d is TRUE) == (m == "max") else a)]
    if a.id > b.id: a, b = b, a
    t = mk(m, a, b)
    for x in (a, b): c.st.assume(le(x, t) if m == "max" else le(t, x))
    return [(c.st, t)]


# ---------------------------------------------------------------- memory
@model(r"^(std|core)::mem::(replace|take|swap)$")
def mem_ops(e, c):
    m = c.path.rsplit("::", 1)[1]
    st = c.st
    if m == "swap":
        a, b = D(c, 0), D(c, 1)
        st.store_ref(c.args[0], b)
        st.store_ref(c.args[1], a)
        return [(st, UNIT)]
    v = D(c)
    if m == "replace":
        st.store_ref(c.args[0], c.args[1])
        e.event("store", st, *(c.args[0].a[:2] if c.args[0].op == "ref" else (mk("O", c.args[0]), ())), c.args[1], c.f, c.ctx, c.span)
        return [(st, v)]
    t = e.p.tys[c.callee["a"][0]]["s"] if c.callee.get("a") else ""
    nv = mk("vec") if "Vec<" in t else NONE if "Option<" in t else C(0) if re.fullmatch(PRIM, t) else mk("default", t)
    st.store_ref(c.args[0], nv)
    return [(st, v)]


@model(r"Option::<T>::(take|replace|insert)$")
def opt_take(e, c):
    if c.key is not None: return None
    v = D(c)
    m = c.path.rsplit("::", 1)[1]
    c.st.store_ref(c.args[0], NONE if m == "take" else some(c.args[1]))
    return [(c.st, v)]


@model(r"^(std|core)::mem::(drop|forget)$")
def mem_drop(e, c): return [(c.st, UNIT)]


@model(r"intrinsics::discriminant_value$", r"mem::discriminant$")
def discr_val(e, c): return [(c.st, e.discr(D(c)))]


@model(r"^<" + PRIM + r" as std::default::Default>::default$")
def dflt(e, c):
    t = re.match(r"<(\w+)", c.path).group(1)
    return [(c.st, FALSE if t == "bool" else C(0))]


@model(r"Vec<T> as std::default::Default>::default$")
def dfltv(e, c): return [(c.st, mk("vec"))]


@model(r"num::<impl " + PRIM + r">::saturating_sub$")
def satsub(e, c):
    a, b = c.args
    y, z = fork(e, c, le(b, a))
    return ([(y, sub(a, b))] if y else []) + ([(z, C(0))] if z else [])


@model(r"num::<impl " + PRIM + r">::(wrapping_sub|wrapping_add|unchecked_add|unchecked_sub)$")
def wrap(e, c):
    a, b = c.args
    return [(c.st, sub(a, b) if "sub" in c.path.rsplit("::")[-1] else add(a, b))]


@model(r"num::<impl " + PRIM + r">::is_multiple_of$")
def is_multiple_of(e, c):
    return [(c.st, eq(e.binop(c.st, "Rem", c.args[0], c.args[1]), C(0)))]


@model(r"ops::(Add|Sub)(<&?\w+>)?>::(add|sub)$")
def addsub(e, c):
    m = re.match(r"<(&?)(\w+) as std::ops::(Add|Sub)(?:<(&?)(\w+)>)?>", c.path)
    if not m or not re.fullmatch(PRIM, m.group(2)): return None
    a, b = c.args
    if m.group(1): a = c.st.deref(a)
    if m.group(4): b = c.st.deref(b)
    return [(c.st, add(a, b) if m.group(3) == "Add" else sub(a, b))]


@model(r"hint::unreachable_unchecked$", r"intrinsics::unreachable$")
def unreach(e, c): return []


@model(r"Instant::now$", r"Instant::elapsed$")
def now(e, c):
    return [(c.st, e.fresh(c.st, c, "clock"))]


# ---------------------------------------------------------------- iterators
def it(kind, *a): return mk("it", kind, *a)


@model(r"slice::<impl \[T\]>::iter(_mut)?$", r"IntoIterator for &'a (mut )?\[T\]>::into_iter$", r"&'a (mut )?std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$", r"Vec::<T, A>::iter(_mut)?$",
       r"&'a (mut )?smallvec::SmallVec<A> as std::iter::IntoIterator>::into_iter$", r"IntoIterator for &'a (mut )?\[T; N\]>::into_iter$")
def sl_iter(e, c): return [(c.st, it("sl", c.args[0], C(0), e.length(c.st, c.args[0])))]


@model(r"^<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$", r"SmallVec<A> as std::iter::IntoIterator>::into_iter$", r"IntoIterator for \[T; N\]>::into_iter$")
def vec_into(e, c):
    v = c.args[0]
    return [(c.st, it("vec", v, C(0), seqlen(v)))]


@model(r"slice::<impl \[T\]>::contains$")
def slice_contains(e, c):
    """decided when every element and the one looked for are known"""
    v, x = D(c), c.st.deref(c.args[1]) if c.args[1].op in ("ref", "&") else c.args[1]
    if v.op == "vec" and x.op == "c" and all(y.op == "c" for y in v.a): return [(c.st, C(any(x is y for y in v.a)))]
    return None


@model(r"Vec::<T, A>::drain$")
def drain(e, c):
    v = D(c)
    r = c.args[1]
    if r.op == "adt" and r.a[0].endswith("RangeFull") or r.op in ("zst", "unit"):
        c.st.store_ref(c.args[0], mk("vec"))
        return [(c.st, it("vec", v, C(0), seqlen(v)))]
    c.st.store_ref(c.args[0], e.fresh(c.st, c, "mut", 0))
    return [(c.st, it("gen", mk("app", "drain", v, r), C(0)))]


def nxt(e, c, back=False):
    st = c.st
    r = c.args[0]
    v = st.deref(r)
    if v.op != "it": v = it("gen", v, C(0))
    k = v.a[0]
    if k in ("sl", "vec"):
        b, lo, hi = v.a[1:]
        y, z = fork(e, c, lt(lo, hi))
        o = []
        if y:
            i = sub(hi, C(1)) if back else lo
            el = elemref(b, i) if k == "sl" else seqget(b, i)
            y.store_ref(r, it(k, b, lo, i) if back else it(k, b, add(lo, C(1)), hi))
            o.append((y, some(el)))
        if z: o.append((z, NONE))
        return o
    src, n = v.a[1:]
    y, z = fork(e, c, lt(n, mk("cnt", src)))
    o = []
    if y:
        y.store_ref(r, it("gen", src, add(n, C(1))))
        o.append((y, some(mk("elem", src, n))))
    if z: o.append((z, NONE))
    return o


def coerced(p, ty):
    """the types whose boxes are coerced to the boxed trait object ty anywhere in the program"""
    if not hasattr(p, "_coerced"):
        p._coerced = {}
        for f in p.fns:
            if f is None: continue
            for b in f.blocks:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "cast" and s[2][1] == "PointerCoercion" and s[2][2][0] in "cm" and not s[2][2][1][1]:
                        src = p.tys[f.locals[s[2][2][1][0]][0]]
                        if src["k"] == "adt" and src["s"].startswith("std::boxed::Box<"): [p._coerced.setdefault(k, set()).add(src["a"][0]) for k in (s[2][3], p.tys[s[2][3]]["a"][0])]
    if ty is None: return sorted({x for k, v in p._coerced.items() if "dyn std::iter::Iterator" in p.tys[k]["s"] for x in v})
    return sorted(p._coerced.get(ty, ()))


@model(r"boxed::iter::<impl std::iter::(DoubleEnded)?Iterator for std::boxed::Box<I, A>>::next(_back)?$")
def box_next(e, c):
    """a boxed iterator: the value tells which iterator it is, the item type which instance"""
    r = c.args[0]
    if r.op != "ref": return None
    v = c.st.deref(r)
    if v.op == "box": v, r = v.a[0], mk("ref", r.a[0], r.a[1] + (("d",),), True)
    if v.op == "it":
        sv, c.args = c.args, [r]
        o = nxt(e, c, c.path.endswith("back"))
        c.args = sv
        return o
    if v.op != "adt": return None
    ty = c.callee["a"][0] if c.callee.get("a") else None
    cand = [t for t in coerced(e.p, ty) if e.p.tys[t]["k"] == "adt" and e.p.tys[t]["s"].split("<")[0] == v.a[0] and "key" in e.p.iters.get(t, {}).get("next", {})]
    if not cand: return None
    return e.inline_call(c, e.p.iters[cand[0]]["next"]["key"], [r], extra=("dyn", v.a[0]))


@model(r"ops::Range<A> as .*Iterator>::next$", r"Iterator for std::ops::Range<A>>::next$")
def range_next(e, c):
    r = c.args[0]
    v = D(c)
    a, b = proj(v, ("f", 0, "start")), proj(v, ("f", 1, "end"))
    y, z = fork(e, c, lt(a, b))
    o = []
    if y:
        y.store_ref(r, upd(v, (("f", 0, "start"),), add(a, C(1))))
        o.append((y, some(a)))
    if z: o.append((z, NONE))
    return o


@model(r"Iterator for std::ops::Range<A>>::next_back$")
def range_next_back(e, c):
    r = c.args[0]
    v = D(c)
    a, b = proj(v, ("f", 0, "start")), proj(v, ("f", 1, "end"))
    y, z = fork(e, c, lt(a, b))
    o = []
    if y:
        y.store_ref(r, upd(v, (("f", 1, "end"),), sub(b, C(1))))
        o.append((y, some(sub(b, C(1)))))
    if z: o.append((z, NONE))
    return o


@model(r"Iterator for std::ops::RangeFrom<A>>::next$")
def rangefrom_next(e, c):
    v = D(c)
    a = proj(v, ("f", 0, "start"))
    c.st.store_ref(c.args[0], upd(v, (("f", 0, "start"),), add(a, C(1))))
    return [(c.st, some(a))]


@model(r"ops::RangeInclusive::<Idx>::new$")
def ri_new(e, c): return [(c.st, mk("adt", "std::ops::RangeInclusive", 0, "RangeInclusive", c.args[0], c.args[1], FALSE))]


@model(r"Iterator for std::ops::RangeInclusive<A>>::next(_back)?$")
def rangeinc_next(e, c):
    r = c.args[0]
    v = D(c)
    a, b, x = proj(v, ("f", 0, "start")), proj(v, ("f", 1, "end")), proj(v, ("f", 2, "exhausted"))
    back = c.path.endswith("back")
    y, z = fork(e, c, conj(nnot(x), le(a, b)))
    o = []
    if z: o.append((z, NONE))
    if y:
        c2 = c
        sv, c2.st = c2.st, y
        p, q = fork(e, c2, lt(a, b))
        c2.st = sv
        if p:
            p.store_ref(r, upd(v, (("f", 1, "end"),), sub(b, C(1))) if back else upd(v, (("f", 0, "start"),), add(a, C(1))))
            o.append((p, some(b if back else a)))
        if q:
            q.store_ref(r, upd(v, (("f", 2, "exhausted"),), TRUE))
            o.append((q, some(b if back else a)))
    return o


@model(r"ops::RangeInclusive::<Idx>::(start|end)$")
def ri_get(e, c):
    i = 0 if c.path.endswith("start") else 1
    return [(c.st, fieldref(c.args[0], i, ("start", "end")[i]))]


def next_callee(e, ty):
    r = e.p.iters.get(ty, {}).get("next")
    if r is None:
        t = e.p.tys[ty]
        if t["k"] == "ref" and t.get("m"): return next_callee(e, t["t"]), True
        return None
    d = {"p": "std::iter::Iterator::next", "rp": r["rp"], "a": [ty], "cr": ""}
    if "key" in r: d["key"] = r["key"]
    return d


def iter_loop(e, c, name, ty, body, init, itval, extra=()):
    """synthetic `for x in it { acc = body(acc, x) }`; body(e, c, acc_ref, x, extra_refs) -> outcomes"""
    cal = next_callee(e, ty)
    if isinstance(cal, tuple): cal = cal[0]
    if cal is None:
        cal = {"p": "std::iter::Iterator::next", "rp": "opaque::next", "a": [ty]}
    ne = len(extra)
    # _1 iter, _2.. extra args, then acc, &iter, item, discr, scratch
    acc, ri, item, ds, ut = 2 + ne, 3 + ne, 4 + ne, 5 + ne, 6 + ne

    def step(e2, c2):
        return body(e2, c2, mk("ref", e2.L(c2.ctx, acc), (), True), c2.args[0])
    use = ["c", [acc, []]]
    blocks = [
        ([["=", [acc, []], ["use", ["k", {"pyv": init}]]]], ["goto", 1]),
        ([["=", [ri, []], ["ref", True, [1, []]]]], ["call", ["k", {"fn": cal}], [["c", [ri, []]]], [item, []], 2, None, c.span]),
        ([["=", [ds, []], ["discr", [item, []], 0]]], ["switch", ["c", [ds, []]], [["0", 4], ["1", 3]], 4, "int", c.span]),
        # (the accumulator and extra arguments are passed so that liveness keeps them)
        ([], ["call", ["k", {"py": step}], [["c", [item, [["dc", 1, "Some"], ["f", 0, "0"]]]], use] + [["c", [2 + i, []]] for i in range(ne)], [ut, []], 1, None, c.span]),
        ([["=", [0, []], ["use", ["c", [acc, []]]]]], ["return"]),
    ]
    return e.run_syn(c, f"{name}<{e.p.tys[ty]['s']}>@{c.span}", 1 + ne, 7 + ne, blocks, [itval] + list(extra))


def push_to(st, r, x, ex=False):
    v = st.deref(r)
    st.store_ref(r, mk("vec", *v.a, x) if v.op == "vec" and len(v.a) < (400 if ex else 12) else mk("push", v, x))


@model(r"Vec<T> as std::iter::FromIterator<T>>::from_iter$", r"SmallVec<A> as std::iter::FromIterator<.*>>::from_iter$", r"String as std::iter::FromIterator<.*>>::from_iter$",
       r"Box<\[I\]> as std::iter::FromIterator<I>>::from_iter$", r"(IndexMap|HashMap|HashSet|BTreeMap).* as std::iter::FromIterator<.*>>::from_iter$")
def from_iter(e, c):
    ty = c.callee["a"][-1]

    def body(e2, c2, acc, x):
        push_to(c2.st, acc, x, e.exact)
        return [(c2.st, UNIT)]
    r = iter_loop(e, c, "collect", ty, body, mk("vec"), c.args[0])
    if "Box<[I]>" in c.path: r = [(s, mk("box", v)) for s, v in r]
    if "Map" in c.path or "HashSet" in c.path: r = [(s, mk("map", v)) for s, v in r]
    return r


@model(r"as std::iter::Extend<.*>>::extend$")
def extend(e, c):
    ty = c.callee["a"][-1]
    tgt = c.args[0]
    init = D(c)

    def body(e2, c2, acc, x):
        push_to(c2.st, acc, x, e.exact)
        return [(c2.st, UNIT)]
    o = []
    itv = c.args[1]
    tt = e.p.tys[ty]
    # iterate by reference over a collection
    if next_callee(e, ty) is None:
        if tt["k"] == "ref": itv = it("sl", itv, C(0), e.length(c.st, itv))
        else: itv = it("vec", itv, C(0), seqlen(itv))
    for s, v in iter_loop(e, c, "extend", ty, body, init, itv):
        s.store_ref(tgt, v)
        o.append((s, UNIT))
    return o


@model(r"Vec::<T, A>::retain(_mut)?$")
def retain(e, c):
    tgt, f = c.args
    v = D(c)

    def body(e2, c2, acc, x):
        c3 = Call()
        for n in Call.__slots__:
            if hasattr(c2, n): setattr(c3, n, getattr(c2, n))
        el = e2.tmp(c2.st, c2.ctx, x, "retel")
        c3.ops = None
        o = []
        for s, k in e2.call_value(c3, c2.args[2], [el], "retain"):
            c4 = Call()
            c4.st, c4.span, c4.ctx, c4.bb = s, c.span, c2.ctx, c2.bb
            y, z = fork(e2, c4, k)
            if y:
                e2.event("retain", y, True, y.deref(el), c)
                push_to(y, acc, y.deref(el), e.exact)
                o.append((y, UNIT))
            if z:
                e2.event("retain", z, False, z.deref(el), c)
                o.append((z, UNIT))
        return o
    o = []
    ty = None
    # element iteration over the moved-out contents
    for s, nv in iter_loop_raw(e, c, "retain", body, mk("vec"), it("vec", v, C(0), seqlen(v)), [f]):
        # what remains keeps its order
        if v.op == "sorted" and not c.path.endswith("_mut"): nv = mk("sorted", nv, *v.a[1:])
        s.store_ref(tgt, nv)
        o.append((s, UNIT))
    return o


def iter_loop_raw(e, c, name, body, init, itval, extra=()):
    cal = {"p": "std::iter::Iterator::next", "rp": "<std::vec::IntoIter<T, A> as std::iter::Iterator>::next", "a": []}
    ne = len(extra)
    acc, ri, item, ds, ut = 2 + ne, 3 + ne, 4 + ne, 5 + ne, 6 + ne

    def step(e2, c2):
        return body(e2, c2, mk("ref", e2.L(c2.ctx, acc), (), True), c2.args[0])
    use = ["c", [acc, []]]
    blocks = [
        ([["=", [acc, []], ["use", ["k", {"pyv": init}]]]], ["goto", 1]),
        ([["=", [ri, []], ["ref", True, [1, []]]]], ["call", ["k", {"fn": cal}], [["c", [ri, []]]], [item, []], 2, None, c.span]),
        ([["=", [ds, []], ["discr", [item, []], 0]]], ["switch", ["c", [ds, []]], [["0", 4], ["1", 3]], 4, "int", c.span]),
        ([], ["call", ["k", {"py": step}], [["c", [item, [["dc", 1, "Some"], ["f", 0, "0"]]]], use] + [["c", [2 + i, []]] for i in range(ne)], [ut, []], 1, None, c.span]),
        ([["=", [0, []], ["use", ["c", [acc, []]]]]], ["return"]),
    ]
    return e.run_syn(c, f"{name}@{c.span}", 1 + ne, 7 + ne, blocks, [itval] + list(extra))


@model(r"^<(\w+) as std::iter::Sum(<.*>)?>::sum$")
def isum(e, c):
    ty = c.callee["a"][-1]
    byref = "Sum<&" in c.path

    def body(e2, c2, acc, x):
        if byref: x = c2.st.deref(x)
        c2.st.store_ref(acc, add(c2.st.deref(acc), x))
        return [(c2.st, UNIT)]
    return iter_loop(e, c, "sum", ty, body, C(0), c.args[0])


@model(r"ZipImpl<A, B>>::new$", r"iter::Zip::<A, B>::new$")
def zip_new(e, c): return [(c.st, mk("adt", "std::iter::Zip", 0, "Zip", c.args[0], c.args[1], C(0), C(0)))]


@model(r"^std::iter::Iterator::zip$")
def zip_m(e, c):
    # the second argument may be a collection
    ts = c.callee.get("a", [])
    b = c.args[1]
    if len(ts) >= 2:
        t = e.p.tys[ts[1]]
        m = e.p.iters.get(ts[1], {}).get("into_iter")
        if t["k"] == "ref": b = it("sl", b, C(0), e.length(c.st, b))
        elif "vec::Vec<" in t["s"] and t["s"].startswith("std::vec::Vec<"): b = it("vec", b, C(0), seqlen(b))
    return [(c.st, mk("adt", "std::iter::Zip", 0, "Zip", c.args[0], b, C(0), C(0)))]


@model(r"^<std::iter::Zip<A, B> as std::iter::Iterator>::next$")
def zip_next(e, c):
    r = c.args[0]
    ty = c.callee["a"][0] if c.callee.get("a") else None
    ts = e.p.tys[ty] if ty is not None else None
    ta = tb = None
    if ts is not None and ts["k"] == "adt" and len(ts["a"]) >= 2: ta, tb = ts["a"][0], ts["a"][1]
    ca = next_callee(e, ta) if ta is not None else None
    cb = next_callee(e, tb) if tb is not None else None
    dfl = {"p": "std::iter::Iterator::next", "rp": "<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "a": []}
    blocks = [
        ([["=", [2, []], ["ref", True, [1, [["d"], ["f", 0, "a"]]]]]], ["call", ["k", {"fn": ca or dfl}], [["c", [2, []]]], [3, []], 1, None, c.span]),
        ([["=", [4, []], ["discr", [3, []], 0]]], ["switch", ["c", [4, []]], [["0", 5], ["1", 2]], 5, "int", c.span]),
        ([["=", [5, []], ["ref", True, [1, [["d"], ["f", 1, "b"]]]]]], ["call", ["k", {"fn": cb or dfl}], [["c", [5, []]]], [6, []], 3, None, c.span]),
        ([["=", [7, []], ["discr", [6, []], 0]]], ["switch", ["c", [7, []]], [["0", 5], ["1", 4]], 5, "int", c.span]),
        ([["=", [8, []], ["agg", ["tuple"], [["c", [3, [["dc", 1, "Some"], ["f", 0, "0"]]]], ["c", [6, [["dc", 1, "Some"], ["f", 0, "0"]]]]]]],
          ["=", [0, []], ["agg", ["adt", "std::option::Option", 1, "Some", ["0"], 0], [["c", [8, []]]]]]], ["return"]),
        ([["=", [0, []], ["use", ["k", {"pyv": NONE}]]]], ["return"]),
    ]
    return e.run_syn(c, f"zipnext<{ts['s'] if ts else ''}>", 1, 9, blocks, [r])


@model(r"^std::iter::Iterator::(take|skip)$")
def take_m(e, c):
    """the first (or all but the first) n elements of a slice or vector: a part of it"""
    v, n = c.args
    if v.op != "it" or v.a[0] not in ("sl", "vec"): return None
    k, b, lo, hi = v.a
    m = add(lo, n)
    y, z = fork(e, c, le(m, hi))
    back = c.path.endswith("take")
    o = []
    if y: o.append((y, it(k, b, lo, m) if back else it(k, b, m, hi)))
    if z: o.append((z, v if back else it(k, b, hi, hi)))
    return o


@model(r"^<std::iter::(Take|Skip)<I> as std::iter::Iterator>::next$")
def take_next(e, c):
    if c.args[0].op != "ref" or c.st.deref(c.args[0]).op != "it": return None
    return nxt(e, c)


@model(r"Iterator>::next$", r"^std::iter::Iterator::next$", r"^opaque::next$", r"DoubleEndedIterator>::next_back$")
def leaf_next(e, c):
    if c.key is not None: return None
    return nxt(e, c, c.path.endswith("back"))


@model(r"(IndexMap::<K, V, S>|HashMap::<K, V, S.*>|HashMap::<K, V>)::(iter|iter_mut|values|values_mut|keys|into_iter|drain)$", r"str::<impl str>::(chars|bytes|char_indices|split|lines|split_whitespace)$", r"io::BufRead::lines$")
def gen_iter(e, c):
    m = c.path.rsplit("::", 1)[1]
    muts = m.endswith("_mut")
    src = mk("app", m, e.snap(c.st, c.args[0]), *c.args[1:])
    if muts and c.args[0].op == "ref":
        c.st.store_ref(c.args[0], e.fresh(c.st, c, "mut", 0))
    return [(c.st, it("gen", src, C(0)))]


# ---------------------------------------------------------------- futures
@model(r"future::IntoFuture>::into_future$", r"future::IntoFuture::into_future$", r"^std::future::get_context$")
def into_future(e, c): return [(c.st, c.args[0])]
