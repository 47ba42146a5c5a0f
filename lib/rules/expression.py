"""From a term to its automaton (expression.rs): C20, C23."""
from base import *
from rules import parser as P, anagrams as A, tables, setup
from rules.views import Views, bsname
import itertools


# ---------------------------------------------------------------- C23
class Build(Views):
    """bit sets as sets of concrete indexes"""
    def ints(self, st, view):
        b = view.a[0]
        x = st.load(b.a[0], b.a[1]) if b.op == "ref" else b
        if x.op != "iset": raise Missing(f"a set of states with known contents ({show(x)[:80]})")
        return x.a[0]

    def on_call(self, c):
        st, n = c.st, norm(c.path)
        self.pre(c)
        b = bsname(c.path)
        if b == "new" and re.search(r"bitset::BitSet::new$", n): return [(st, mk("iset", frozenset()))]
        if b is None and n.endswith("::clone") and c.args:
            x = c.args[0]
            x = x.a[0] if x.op == "&" else st.load(x.a[0], x.a[1]) if x.op == "ref" else x
            if x.op == "iset": return [(st, x)]
        if b in ("eq", "ne") and len(c.vw) == 2:
            return [(st, C((self.ints(st, c.vw[0]) == self.ints(st, c.vw[1])) == (b == "eq")))]
        if "CharBitset" in c.path and n.rsplit("::", 1)[1] in ("eq", "ne"):
            xs = []
            for a in c.args:
                while a.op in ("ref", "&"): a = a.a[0] if a.op == "&" else st.load(a.a[0], a.a[1])
                xs.append(A.mask(a))
            return [(st, C((xs[0] == xs[1]) == (n.rsplit("::", 1)[1] == "eq")))]
        return self.views(c, st, None)

    def bit(self, op, c, st, dst, src, v):
        def put(s):
            b = dst.a[0]
            if b.op == "ref": self.engine.store(st, b.a[0], b.a[1], mk("iset", frozenset(s)), c.f, c.ctx, c.span)
            return [(st, UNIT)]
        if op == "clear": return put(())
        x = self.ints(st, dst)
        if op in ("insert", "remove", "contains"):
            if src.op != "c": raise Missing(f"a state index with a known value ({show(src)[:80]})")
            k = src.a[0]
            if op == "contains": return [(st, C(k in x))]
            return put(x | {k} if op == "insert" else x - {k})
        if op == "is_empty": return [(st, C(not x))]
        if op == "to_bitset": return [(st, mk("iset", x))]
        y = self.ints(st, src)
        if op == "is_subset": return [(st, C(x <= y))]
        return put({"union_with": x | y, "difference_with": x - y, "intersect_with": x & y, "copy_from": y}[op])


def build_fn(p):
    return tables.by_types(p, r"^\(\)$", [r"^&parser::Ast$", r"^&mut std::vec::Vec<expression::State>$"], "the function that compiles a term into states")


def automaton(ast, prefix=0):
    """states compiled from a concrete term, after `prefix` unrelated states"""
    p = prog("lib")
    fn = build_fn(p)
    m = Build()
    e = Engine(p, [m], opaque=lambda x: bool(re.search(r"fmt::|_print$", x)), budget=400000, exact=True, maxparts=500)
    e.depth = 8
    pre = [mk("opaque_state", i) for i in range(prefix)]
    K, L = mk("O", mk("s", "ast")), mk("O", mk("s", "states"))
    ex = e.start(fn, [mk("ref", K, (), False), mk("ref", L, (), True)], mem={K: ast, L: mk("vec", *pre)})
    return p, fn, m, e, [(st, st.load(L, ())) for st, _ in ex]


def fields_of(p, v):
    f = {}
    a = p.adts[v.a[0]]["variants"][v.a[1]]["fields"]
    for x, y in zip(a, v.a[3:]):
        nm, ty = x[0], x[1]
        f["eps" if "BitSet" in ty else "set" if "CharBitset" in ty else "next"] = y
    return f


def nfa(p, states, prefix):
    """(moves, eps) of compiled states, indexes made relative"""
    out = []
    for v in P.seqof(states)[prefix:]:
        if v.op != "adt": raise Missing(f"a state with known edges ({show(v)[:80]})")
        f = fields_of(p, v)
        if f["eps"].op != "iset" or f["next"].op != "c": raise Missing(f"a state with known edges ({show(v)[:80]})")
        out.append((frozenset(k - prefix for k in f["eps"].a[0]), A.mask(f["set"]), f["next"].a[0] - prefix))
    return out


def closure(M, S):
    S, todo = set(S), list(S)
    while todo:
        i = todo.pop()
        if 0 <= i < len(M):
            for j in M[i][0]:
                if j not in S:
                    S.add(j)
                    todo.append(j)
    return frozenset(S)


def meaning(p, v, loose):
    """regular expression of a term; with `loose`, a substring group may also match nothing at all"""
    while v.op == "box": v = v.a[0]
    f = P.flds(p, v)
    x = list(f.values())
    k = v.a[2]
    if k == "CharClass": return ("set", A.mask(x[0]))
    if k == "Repetition": return A.rep(meaning(p, f["term"], loose), f["min"].a[0], None if f["max"] is NONE else f["max"].a[3].a[0])
    ts = [meaning(p, y, loose) for y in P.seqof(x[0])]
    if k == "Sequence":
        r = A.EPS
        for t in ts[::-1]: r = A.cat(t, r)
        return r
    if k == "Alternatives": return A.alt(ts)
    if k == "Substring":
        o = [A.EPS] if loose else []
        for i in range(len(ts)):
            for j in range(i, len(ts)):
                r = A.EPS
                for t in ts[i:j + 1][::-1]: r = A.cat(t, r)
                o.append(r)
        return A.alt(o)
    raise Missing(f"meaning of {k}")


def symbols(r, out):
    if isinstance(r, tuple):
        if r and r[0] == "set": out.add(r[1])
        else:
            for x in r: symbols(x, out)
    elif isinstance(r, frozenset):
        for x in r: symbols(x, out)
    return out


def disagree(M, lo, hi):
    """a word accepted against the meaning (or not accepted although it should be)"""
    masks = symbols(lo, set()) | symbols(hi, set()) | {m for _, m, _ in M if m}
    bits = []
    for b in range(28):
        sig = tuple(bool(m >> b & 1) for m in sorted(masks))
        if sig not in [s for s, _ in bits]: bits.append((sig, b))
    n = len(M)
    s0 = (closure(M, {0}), lo, hi)
    seen, todo = {s0}, [(s0, "")]
    while todo:
        (S, a, b), w = todo.pop(0)
        acc = n in S
        if acc and not A.nullable(b): return f"`{w}` is accepted"
        if A.nullable(a) and not acc: return f"`{w}` is not accepted"
        if any(j > n or j < 0 for j in S): return "an edge leads outside the group"
        for _, bit in bits:
            T = closure(M, {M[i][2] for i in S if i < n and M[i][1] >> bit & 1})
            s = (T, A.deriv(a, bit), A.deriv(b, bit))
            if s not in seen:
                if len(seen) > 20000: raise Missing("a decidable automaton (too many states)")
                seen.add(s)
                todo.append((s, w + (chr(97 + bit) if bit < 26 else "'_"[bit - 26])))
    return None


def constructs(p):
    """(name, number of operands, builder)"""
    S = lambda name: lambda *xs: A.ast_adt(p, name, _=mk("vec", *xs))
    R = lambda lo, hi: lambda t: A.ast_adt(p, "Repetition", term=mk("box", t), min=C(lo), max=NONE if hi is None else some(C(hi)))
    out = []
    for nm in ("Alternatives", "Sequence", "Substring"):
        out += [(f"{nm} of {k}", k, S(nm)) for k in (1, 2, 3)]
    out += [(f"{{{lo},{'' if hi is None else hi}}}", 1, R(lo, hi)) for lo, hi in
            ((0, 1), (0, None), (1, None), (1, 1), (0, 0), (2, 2), (2, None), (0, 2), (1, 3), (2, 3), (3, 3), (3, None), (0, 3), (1, 2))]
    return out


def jobs23(p, tier):
    """terms: every construct over every construct (and over that a third), letters distinct"""
    cons = constructs(p)
    leafs = itertools.cycle([1 << i for i in range(20)])
    fresh = lambda: A.ast_adt(p, "CharClass", _=P.cs(next(leafs)))
    def full(c): return c[2](*[fresh() for _ in range(c[1])])
    out = [("a letter", fresh())]
    out += [(c[0], full(c)) for c in cons]
    def over(c, i, inner): return c[2](*[inner if k == i else fresh() for k in range(c[1])])
    for c in cons:
        for i in range(c[1]):
            for d in cons: out.append((f"{d[0]} as part {i + 1} of {c[0]}", over(c, i, full(d))))
        if c[1] == 2:
            for d, d2 in itertools.product(cons, repeat=2): out.append((f"{c[0]}: {d[0]} and {d2[0]}", c[2](full(d), full(d2))))
    small = [c for c in cons if c[0] in ("Alternatives of 2", "Sequence of 2", "Substring of 2", "{0,1}", "{0,}", "{1,}", "{0,0}", "{2,2}", "{0,2}")]
    for c, d, f in itertools.product(cons if tier == "thorough" else small, small, small):
        for i in range(c[1]) if tier == "thorough" else [c[1] - 1]:
            for j in range(d[1]): out.append((f"{f[0]} as part {j + 1} of {d[0]} as part {i + 1} of {c[0]}", over(c, i, over(d, j, full(f)))))
    return out


def compiled(rep, job):
    name, ast = job
    p, fn, m, e, ex = automaton(ast, 2)
    rep.count("terms compiled")
    rep.ob("compiles", name, len(ex) == 1 and not e.panics, fn.path, f"{len(ex)} results, panics: {str(e.panics[:1])[:200]}")
    for st, v in ex:
        M = nfa(p, v, 2)
        ks = [j for eps, m_, nx in M for j in eps | ({nx} if m_ else set())]
        rep.ob("own-states", name, bool(M), fn.path, "the group has no state of its own")
        rep.ob("inside", name, all(0 <= j <= len(M) for j in ks), fn.path, f"an edge leaves the group other than through its exit: {[j for j in ks if not 0 <= j <= len(M)][:3]}")
        d = disagree(M, meaning(p, ast, False), meaning(p, ast, True))
        rep.ob("meaning", name, d is None, fn.path, f"compiled on its own, {d}, against its meaning {P.shown(P.denote(p, ast))[:200]}", st.path(20))


def c23(rep, tier):
    p = prog("lib")
    rep.rule("compiles", "compiling a term ends without a panic and in one way")
    rep.rule("own-states", "every group has a state of its own, even if it is empty")
    rep.rule("inside", "every edge of a group stays inside it or leads to the position just behind it (its single exit)")
    rep.rule("meaning", "the states of a group lead from its entry to its exit by exactly the words the group means (a substring group may also match nothing)")
    rep.rule("terms", "every kind of term is among the analysed ones")
    for v in p.adts["parser::Ast"]["variants"]:
        rep.ob("terms", f"Ast::{v['name']}", v["name"] in ("CharClass", "Alternatives", "Sequence", "Substring", "Repetition", "Anagram"), "parser.rs", "this kind of term is not known to the check")
    rep.assume("what a group over operands means depends on the operands only through their entry and exit states: operands are other groups, two (thorough: three) levels deep, over distinct letters")
    rep.each(jobs23(p, tier), compiled)


# ---------------------------------------------------------------- C20
SPACE, PUNCT = 1 << 27, 1 << 26
ASKED = [("no letter set", None), ("a letter", 1 << 3), ("a space", SPACE), ("a punctuation mark", PUNCT), ("both", SPACE | PUNCT), ("a class with a space", SPACE | 7), ("everything", (1 << 28) - 1), ("any letter", (1 << 26) - 1)]
OPTS = [("", False, False, None), (" !_", True, False, None), (" !'", False, True, None), (" !2", False, False, 2), (" !_ !'", True, True, None), (" !' !_", True, True, None), (" !2 !'", False, True, 2), (" !_ !2", True, False, 2)]


class Terms(P.Tree):
    """one expression whose term is given"""
    def __init__(self, p, parse, root):
        self.root = root
        super().__init__(p, parse, asts=False)

    def mkast(self, a0): return self.root

    def on_call(self, c):
        n = norm(c.path)
        if "CharBitset" in c.path and n.rsplit("::", 1)[1] in ("contains", "is_intersecting"):
            st = c.st
            x, y = self.val(st, c.args[0]), self.val(st, c.args[1])
            b = 1 << y.a[3].a[0] if y.op == "adt" and y.a[0] == "words::Char" and y.a[3].op == "c" else A.mask(y)
            return [(st, C(bool(A.mask(x) & b)))]
        if n.endswith("::contains") and "slice" in n and len(c.args) == 2:
            st = c.st
            y = self.val(st, c.args[1])
            if y.op == "adt" and y.a[0] == "words::Char":
                v = c.args[0]
                while v.op in ("ref", "&"): v = v.a[0] if v.op == "&" else st.load(v.a[0], v.a[1])
                xs = P.seqof(v)
                if all(x.op == "adt" for x in xs): return [(st, C(any(x is y for x in xs)))]
        return super().on_call(c)


def options_for(root, opt):
    p = prog("lib")
    t = P.expression_tree("a" + opt)
    if not t: raise Missing(f"the grammar accepts `a{opt}`")
    on = {id(t.kids[0]): 0}
    tr = P.pair(t, "t", on, None)
    m = Terms(p, P.parse_ok(tr), root)
    fn = fn1(p, r"^parser::ExpressionAst::new_from_str$")
    m.nums = {P.number_sym(x): C(2) for x in nodes(tr) if x.a[0] == "number"}
    e = Engine(p, [m], opaque=lambda x: bool(re.search(r"fmt::|_print$|pest::error|check_line|check_expression|custom_error", x)), budget=300000, exact=True, maxparts=3000)
    e.depth = 12
    return p, fn, e, e.start(fn, [mk("line")])


def nodes(t):
    yield t
    for k in t.a[3:]: yield from nodes(k)


def asked(v):
    """what a term mentions: a set over all its letters"""
    if v.op == "adt" and v.a[0] == "parser::Ast" and v.a[2] == "CharClass": return A.mask(v.a[3])
    if v.op == "adt" and v.a[0] == "words::Char": return 1 << v.a[3].a[0]
    m = 0
    for x in v.a:
        if isinstance(x, V) and x.op in ("adt", "vec", "box"): m |= asked(x)
    return m


def option_run(rep, job):
    name, root, (opt, w, q, fz) = job
    p, fn, e, ex = options_for(root, opt)
    m = asked(root)
    what = f"{name}{' with' + opt if opt else ''}"
    rep.count("expressions analysed")
    rep.ob("panic", what, not e.panics, fn.path, f"panic reachable: {str(e.panics[:1])[:200]}")
    n = 0
    for st, v in ex:
        if v.op != "adt" or v.a[2] != "Ok": continue
        n += 1
        f = P.flds(p, v.a[3])
        rep.ob("term", what, f["root"] is root, fn.path, "the expression is not the one written", st.path())
        o = P.flds(p, f["options"])
        for k, want in (("explicit_word_boundaries", w or bool(m & SPACE)), ("explicit_punctuation", q or bool(m & PUNCT))):
            got = o[k] is some(TRUE)
            known = o[k] in (some(TRUE), some(FALSE), NONE)
            rep.ob("asked", f"{what}: {k}", known and got == want, fn.path, f"{k} is {show(o[k])[:80]} although the expression {'asks' if want else 'does not ask'} for it", st.path())
        rep.ob("asked", f"{what}: fuzz", o["fuzz"] is (NONE if fz is None else some(C(fz))), fn.path, f"fuzz is {show(o['fuzz'])[:80]}", st.path())
    rep.ob("accepted", what, n > 0, fn.path, "no path accepts the expression")


def compiled_flags(rep, job):
    w, q = job
    p = prog("lib")
    fns = [f for f in p.fns if f and f.d["crate"] == p.crate and f.d["kind"] != "closure" and f.argc == 1 and p.tys[f.locals[1][0]]["s"] == "&parser::ExpressionAst" and p.tys[f.locals[0][0]]["s"].endswith("expression::Expression")]
    if len(fns) != 1: raise Missing("the function that compiles an ExpressionAst")
    fn = fns[0]
    e = Engine(p, [], opaque=lambda x: bool(re.search(r"fmt::|_print$|bitset::|format", x)) or x in skip(p), budget=100000, exact=True)
    o = A.struct(p, "parser::ExpressionOptions", explicit_word_boundaries=w, explicit_punctuation=q, fuzz=mk("sym", "fuzz", "f"))
    a = A.struct(p, "parser::ExpressionAst", root=mk("root"), options=o)
    K = mk("O", mk("s", "ast"))
    ex = e.start(fn, [mk("ref", K, (), False)], mem={K: a})
    what = f"options {show(w)} and {show(q)}"
    rep.ob("accepted", what, bool(ex), fn.path, "no path compiles the expression")
    for st, v in ex:
        if v.op != "adt": raise Missing("the compiled expression as a struct value")
        f = P.flds(p, v)
        for k, x in (("ignore_word_boundaries", w), ("ignore_punctuation", q)):
            rep.ob("skipped", f"{k} with {what}", f[k] is C(x is not some(TRUE)), fn.path, f"{k} is {show(f[k])[:60]}", st.path())
    rep.count("compilations analysed")


def skip(p):
    """functions that deal with states or terms only"""
    if "skip" not in _m:
        _m["skip"] = {f.path for f in p.fns if f and f.d["crate"] == p.crate and f.d["kind"] != "closure" and f.argc
                      and any("Vec<expression::State>" in p.tys[f.locals[i + 1][0]]["s"] for i in range(f.argc))}
    return _m["skip"]


_m = {}


def c20(rep, tier):
    p = prog("lib")
    rep.rule("asked", "an expression's options ask for spaces (punctuation) exactly if it has !_ (!') or mentions a space (a punctuation mark) anywhere in its term")
    rep.rule("skipped", "a compiled expression skips spaces (punctuation) exactly if its options do not ask for them")
    rep.rule("term", "the options do not change the term")
    rep.rule("accepted", "the expression is accepted on some path")
    rep.rule("panic", "no panic is reachable")
    rep.rule("terms", "every kind of term is among the analysed ones")
    rep.rule("writers", "what an expression skips is set only where it is compiled")
    for v in p.adts["parser::Ast"]["variants"]:
        rep.ob("terms", f"Ast::{v['name']}", v["name"] in ("CharClass", "Alternatives", "Sequence", "Substring", "Repetition", "Anagram"), "parser.rs", "this kind of term is not known to the check")
    jobs = []
    leafs = [(n, A.ast_adt(p, "CharClass", _=P.cs(m))) for n, m in ASKED if m is not None]
    leafs += [("an anagram", A.ast_adt(p, "Anagram", kind=A.kind_adt(p, "Standard"), bank=mk("vec", A.CH(1), A.CH(2)))),
              ("an anagram with a space", A.ast_adt(p, "Anagram", kind=A.kind_adt(p, "Sub"), bank=mk("vec", A.CH(1), A.CH(27)))),
              ("an anagram with punctuation", A.ast_adt(p, "Anagram", kind=A.kind_adt(p, "TransAdd", 1), bank=mk("vec", A.CH(26), A.CH(2))))]
    one, two = A.contexts(p, tier)
    for (n, l), o in itertools.product(leafs, OPTS): jobs.append((n, l, o))
    for nm, t in one[1:]:
        for n, l in leafs: jobs.append((f"{n} in {nm}", A.plug(t, [l]), OPTS[0]))
    for nm, t in two:
        for (n, l), (n2, l2) in itertools.permutations(leafs, 2): jobs.append((f"{n} and {n2} in {nm}", A.plug(t, [l, l2, leafs[0][1]]), OPTS[0]))
    rep.each(jobs, option_run)
    for w, q in itertools.product((NONE, some(TRUE), some(FALSE)), repeat=2): compiled_flags(rep, (w, q))
    fn = [f for f in p.fns if f and f.d["crate"] == p.crate and f.d["kind"] != "closure" and f.argc == 1 and p.tys[f.locals[1][0]]["s"] == "&parser::ExpressionAst" and p.tys[f.locals[0][0]]["s"].endswith("expression::Expression")][0]
    ok = set(reachable(p, [fn.id]))
    for f, n, sp in setup.writers(p, [("expression::Expression", k) for k in ("ignore_word_boundaries", "ignore_punctuation")]):
        rep.ob("writers", f"{f.path} writes {n}", f.id in ok, sp, "the property is changed after compilation")
    rep.ob("writers", "assignments found", True, fn.path, "")
    tables.fill(rep, "C20", tier)


# ---------------------------------------------------------------- C19: the options reach the search
def c19_use(rep, tier):
    rep.rule("use", "a search runs with the word limit and the wordlist of its query, and with 10 words and the wordlist of the caller where the query has none")
    p = prog("lib")
    fn = fn1(p, r"^query::QueryEvaluator::from_ast$")
    ast, given = mk("sym", "adt", "ast"), mk("sym", "ref", "given")
    opt = lambda f: mk("fld", mk("fld", ast, "options"), f)
    watched = [opt("max_words"), opt("wordlist")]
    ex = []
    for hs in itertools.product((0, 1), repeat=2):
        e = Engine(p, [], opaque=lambda x: bool(re.search(r"fmt::|_print$|Expression::from_ast|WordMatcher", x)), budget=200000)
        ex += [(s, v, hs) for s, v in e.start(fn, [mk("ref", mk("K", ast), (), False), given], assume=[(eq(mk("discr", o), C(k)), True) for o, k in zip(watched, hs)])]
    seen = set()

    def depth_ok(v, some, o):
        return v is mk("fld", o, "Some.0") if some else v is C(10)
    for st, v, h in ex:
        seen.add(tuple(h))
        d = getf(v, "search_depth_limit")
        ph = getf(v, "phase")
        rep.ob("use", f"word limit {'given' if h[0] else 'missing'}", depth_ok(d, h[0], watched[0]), fn.span, f"search_depth_limit is {show(d)}", st.path())
        w = proj(ph, ("f", 1, "wordlist")) if ph.op == "adt" and ph.a[2] == "Word" else ph
        s = show(w)
        own = "options.wordlist.Some.0" in s
        full = w.op != "subseq" or w.op == "subseq" and (w.a[1] is C(0))
        rep.ob("use", f"wordlist {'given in the query' if h[1] else 'of the caller'}", own if h[1] else w is given, fn.span, f"the words searched are {s[:160]}", st.path())
    rep.ob("use", "every combination of word limit and wordlist is analysed", len(seen) == 4, fn.span, f"{sorted(seen)}")
