"""C04: anagram terms are replaced everywhere by constraints that together mean the anagram.

QueryAst::new_from_str is analysed on expression lines whose term is given: one or two anagram terms (concrete bank and
kind) inside every kind of term, up to two levels of nesting, the rest opaque letter classes. The generated terms are read
back from the result as values and judged as languages (derivatives over the symbols that matter)."""
from base import *
from rules import parser as P
import itertools

VEC = lambda *xs: mk("vec", *xs)


def ast_adt(p, name, **f):
    a = p.adts.get("parser::Ast")
    if not a: raise Missing("parser::Ast")
    for i, v in enumerate(a["variants"]):
        if v["name"] == name:
            fs = [(x if isinstance(x, str) else x[0] if isinstance(x, list) else x.get("name")) for x in v["fields"]]
            return mk("adt", "parser::Ast", i, name, *[f[x] if x in f else f["_"] for x in fs])
    raise Missing(f"Ast::{name}")


def kind_adt(p, name, n=None):
    a = p.adts.get("parser::AnagramKind")
    if not a: raise Missing("parser::AnagramKind")
    for i, v in enumerate(a["variants"]):
        if v["name"] == name: return mk("adt", "parser::AnagramKind", i, name, *([C(n)] if n is not None else []))
    raise Missing(f"AnagramKind::{name}")


class Whole(P.Lines):
    """lines whose terms are given as values"""
    def __init__(self, p, trees, roots):
        self.roots = roots
        super().__init__(p, trees)

    def mkast(self, a0): return self.roots[int(a0.a[1][4:])]

    def on_call(self, c):
        st, n = c.st, norm(c.path)
        f = self.p.fns[c.key] if c.key is not None else None
        a0 = self.val(st, c.args[0]) if c.args else None
        if f is not None and f.d["crate"] == self.p.crate:
            if f.argc == 1 and self.p.tys[f.locals[1][0]]["s"] == "&mut parser::QueryAst": return None
            if a0 is not None and a0.op == "pair" and self.p.tys[f.locals[0][0]]["s"] == "parser::ExpressionAst":
                i = int(re.match(r"L(\d+)", a0.a[1]).group(1))
                st.setg("given", (st.g("given") or 0) + 1)
                return [(st, struct(self.p, "parser::ExpressionAst", root=self.roots[i], options=mk("options", i)))]
        return super().on_call(c)


def struct(p, path, **f):
    a = p.adts.get(path)
    if not a: raise Missing(path)
    names = [(x if isinstance(x, str) else x[0] if isinstance(x, list) else x.get("name")) for x in a["variants"][0]["fields"]]
    if set(names) != set(f): raise Missing(f"{path} with fields {sorted(f)}")
    return mk("adt", path, 0, path.rsplit("::", 1)[1], *[f[x] for x in names])


def run(roots, explicit=None):
    """values of the expressions that a query with these terms (one line each) gets"""
    p = prog("lib")
    fn = fn1(p, r"^parser::QueryAst::new_from_str$")
    trees = []
    for i in range(len(roots)):
        r = P.gram().parse("query", "a")
        on = {}
        for x in r[0].all():
            if x.rule == "expression" and x.kids: on[id(x.kids[0])] = i
        trees.append(P.pair(r[0], f"L{i}", on, None))
    m = Whole(p, trees, roots)
    e = Engine(p, [m], opaque=lambda x: bool(re.search(r"fmt::|_print$|pest::error|check_line|custom_error", x)), budget=600000, exact=True, maxparts=3000)
    e.depth = 12
    return p, fn, m, e, e.start(fn, [mk("input")])


# ---------------------------------------------------------------- contexts
CH = lambda i: mk("adt", "words::Char", 0, "Char", C(i))
HOLE = lambda j: mk("hole", j)


def leaf(p, i): return ast_adt(p, "CharClass", _=P.cs(1 << i))


def contexts(p, tier):
    """(name, term with holes)"""
    q = lambda: leaf(p, 16)
    A = lambda name, *xs: ast_adt(p, name, _=VEC(*xs))
    R = lambda t, lo, hi: ast_adt(p, "Repetition", term=mk("box", t), min=C(lo), max=NONE if hi is None else some(C(hi)))
    one = [("an alternative", lambda h: A("Alternatives", q(), h)), ("the first alternative", lambda h: A("Alternatives", h, q())),
           ("a sequence", lambda h: A("Sequence", q(), h, q())), ("a substring", lambda h: A("Substring", q(), h)),
           ("a repetition", lambda h: R(h, 0, None)), ("an optional part", lambda h: R(h, 0, 1)), ("a counted repetition", lambda h: R(h, 2, 3)),
           ("a sequence of one", lambda h: A("Sequence", h))]
    out = [("the whole expression", HOLE(0))]
    out += [(n, f(HOLE(0))) for n, f in one]
    out += [(f"{n1} in {n2}", f2(f1(HOLE(0)))) for (n1, f1), (n2, f2) in itertools.product(one, one)]
    if tier == "thorough":
        out += [(f"{n1} in {n2} in {n3}", f3(f2(f1(HOLE(0))))) for (n1, f1), (n2, f2), (n3, f3) in itertools.product(one[1:5], one, one)]
    two = [("a sequence of two", A("Sequence", HOLE(0), q(), HOLE(1))), ("two alternatives", A("Alternatives", HOLE(0), HOLE(1))),
           ("two substrings", A("Substring", HOLE(0), HOLE(1))), ("nested and flat", A("Sequence", R(HOLE(0), 0, None), HOLE(1))),
           ("two groups", A("Alternatives", A("Sequence", q(), HOLE(0)), A("Substring", R(HOLE(1), 1, None)))),
           ("three in a row", A("Sequence", HOLE(0), HOLE(1), HOLE(2)))]
    return out, two


def plug(v, xs):
    if v.op == "hole": return xs[v.a[0]]
    if v.op == "adt": return mk("adt", *v.a[:3], *[plug(x, xs) for x in v.a[3:]])
    if v.op in ("vec", "box"): return mk(v.op, *[plug(x, xs) for x in v.a])
    return v


def match(t, v, caps):
    """v has the shape of t; what is in the holes goes to caps"""
    while v.op == "box": v = v.a[0]
    while t.op == "box": t = t.a[0]
    if t.op == "hole":
        caps[t.a[0]] = v
        return True
    if t is v: return True
    if t.op == "vec":
        if v.op not in ("vec", "push", "subseq"): return False
        xs = P.seqof(v)
        return len(xs) == len(t.a) and all(match(a, b, caps) for a, b in zip(t.a, xs))
    if t.op != "adt" or v.op != "adt" or t.a[:3] != v.a[:3]: return False
    if t.a[0] == "words::CharBitset" or t.a[2] == "CharClass": return mask(t.a[3]) == mask(v.a[3])
    return len(t.a) == len(v.a) and all(match(a, b, caps) for a, b in zip(t.a[3:], v.a[3:]))


# ---------------------------------------------------------------- languages
def mask(v): return sum(1 << b for b in range(28) if P.set_eval(v, b, {}))


EPS, NUL = ("eps",), ("nul",)


def cat(a, b):
    if a == NUL or b == NUL: return NUL
    if a == EPS: return b
    if b == EPS: return a
    if a[0] == "cat": return ("cat", a[1], cat(a[2], b))
    return ("cat", a, b)


def alt(xs):
    o = set()
    for x in xs:
        if x[0] == "alt": o |= set(x[1])
        elif x != NUL: o.add(x)
    if not o: return NUL
    return next(iter(o)) if len(o) == 1 else ("alt", frozenset(o))


def rep(r, lo, hi):
    if hi == 0: return EPS
    if r == EPS: return EPS
    if r == NUL: return EPS if lo == 0 else NUL
    return r if (lo, hi) == (1, 1) else ("rep", r, lo, hi)


def regex(p, d):
    k = d[0]
    if k == "set": return ("set", mask(d[1]))
    if k == "seq":
        r = EPS
        for x in d[1][::-1]: r = cat(regex(p, x), r)
        return r
    if k == "alt": return alt([regex(p, x) for x in d[1]])
    if k == "rep":
        lo, hi = d[2], None if d[3] is NONE else d[3].a[3]
        if lo.op != "c" or hi is not None and hi.op != "c": raise Missing(f"concrete bounds of {P.shown(d)}")
        return rep(regex(p, d[1]), lo.a[0], None if hi is None else hi.a[0])
    raise Missing(f"a constraint made of letters, sequences, alternatives and repetitions, not {P.shown(d)[:120]}")


def nullable(r):
    k = r[0]
    if k == "eps": return True
    if k == "cat": return nullable(r[1]) and nullable(r[2])
    if k == "alt": return any(nullable(x) for x in r[1])
    if k == "rep": return r[2] == 0 or nullable(r[1])
    return False


def deriv(r, b):
    k = r[0]
    if k == "set": return EPS if r[1] >> b & 1 else NUL
    if k == "cat":
        x = cat(deriv(r[1], b), r[2])
        return alt([x, deriv(r[2], b)]) if nullable(r[1]) else x
    if k == "alt": return alt([deriv(x, b) for x in r[1]])
    if k == "rep": return cat(deriv(r[1], b), rep(r[1], max(r[2] - 1, 0), None if r[3] is None else r[3] - 1))
    return NUL


def wanted(kind, n, bank):
    """acceptance of a word, given how often each symbol of the bank and other letters occur in it"""
    L = len(bank)
    def ok(cnt, other, alien):
        tot = sum(cnt.values()) + other
        least, most = all(cnt.get(c, 0) >= bank.count(c) for c in bank), all(cnt.get(c, 0) <= bank.count(c) for c in bank) and not other
        if alien: return False
        return {"Standard": tot == L and most, "Super": least, "Sub": most, "TransAdd": least and tot == L + (n or 0),
                "TransDelete": most and tot == max(L - (n or 0), 0)}[kind]
    return ok


def differs(rs, kind, n, bank):
    """a word on which the conjunction of the constraints and the meaning of the anagram term differ; None if there is none"""
    ok = wanted(kind, n, bank)
    top = len(bank) + (n or 0) + 2
    syms = sorted(set(bank))
    other = next(i for i in range(26) if i not in syms)
    letters = syms + [other, 26, 27]
    s0 = (tuple(rs), tuple([0] * len(syms)), 0, 0)
    seen, todo = {s0}, [(s0, "")]
    while todo:
        (xs, cnt, o, al), w = todo.pop(0)
        if all(nullable(x) for x in xs) != ok(dict(zip(syms, cnt)), o, al): return w or "the empty word"
        for b in letters:
            c2 = tuple(min(k + 1, top) if s == b else k for s, k in zip(syms, cnt))
            s = (tuple(deriv(x, b) for x in xs), c2, min(o + 1, top) if b == other else o, min(al + (b > 25), 1))
            if s[3] and any(x == NUL for x in s[0]): continue
            if s not in seen:
                if len(seen) > 60000: raise Missing("a decidable constraint (too many states)")
                seen.add(s)
                todo.append((s, w + (chr(97 + b) if b < 26 else "'_"[b - 26])))
    return None


def has_anagram(p, v):
    if v.op == "adt" and v.a[0] == "parser::Ast" and v.a[2] == "Anagram": return True
    return any(isinstance(x, V) and has_anagram(p, x) for x in v.a) if v.op in ("adt", "vec", "box", "push") else False


def name_of(kind, n, bank):
    b = "".join(chr(97 + i) for i in bank)
    return {"Standard": f"<{b}>", "Super": f"<{b}+>", "Sub": f"<{b}->", "TransAdd": f"<{b}+{n}>", "TransDelete": f"<{b}-{n}>"}[kind]


def judge(rep, where, ctxs, ans):
    """ctxs: the term of each line, with holes; ans: the anagram terms (kind, n, bank) in its holes"""
    p = prog("lib")
    roots = [plug(t, [ast_adt(p, "Anagram", kind=kind_adt(p, k, n), bank=VEC(*[CH(i) for i in b])) for k, n, b in an]) for t, an in zip(ctxs, ans)]
    p, fn, m, e, ex = run(roots)
    rep.count("term shapes analysed")
    rep.count("letter banks", len([1 for an in ans for _ in an]))
    w, found = fn.path, 0
    what = " and ".join(name_of(*a) for an in ans for a in an) + " as " + where
    rep.ob("panic", what, not e.panics, w, f"panic reachable: {str([x for x in e.panics][:1])[:200]}")
    for st, v in ex:
        if v.op != "adt" or v.a[2] != "Ok": continue
        found += 1
        es = P.flds(p, v.a[3])["expressions"]
        per = [[] for _ in ctxs]
        for x in P.seqof(es):
            if x.op != "adt":
                rep.ob("shape", what, False, w, f"a generated constraint is not known: {show(x)[:200]}", st.path())
                continue
            f = P.flds(p, x)
            if not rep.ob("none-left", what, not has_anagram(p, f["root"]), w, "a generated constraint still contains an anagram term", st.path()): continue
            hit = None
            for i, t in enumerate(ctxs):
                caps = {}
                if match(t, f["root"], caps):
                    hit = i
                    per[i].append(caps)
                    break
            rep.ob("shape", what, hit is not None, w, f"a generated constraint differs from the expression outside its anagram terms: {P.shown(P.denote(p, f['root']))[:300]}", st.path())
            if hit is not None and st.g("given"):
                rep.ob("options", what, f["options"] is mk("options", hit), w, f"a generated constraint has other options than its line: {show(f['options'])[:120]}", st.path())
        for i, an in enumerate(ans):
            rep.ob("each-line", what, bool(per[i]), w, "no constraint is generated for a line", st.path())
            if not an: rep.ob("each-line", what + " (plain line)", len(per[i]) == 1, w, f"a line without anagram terms gives {len(per[i])} expressions", st.path())
            for j, (k, n, b) in enumerate(an):
                rs, seen = [], set()
                for caps in per[i]:
                    r = regex(p, P.denote(p, caps[j]))
                    if r not in seen: rs.append(r)
                    seen.add(r)
                d = differs(rs, k, n, b)
                rep.ob("meaning", what + (f" ({name_of(k, n, b)})" if sum(map(len, ans)) > 1 else ""), d is None, w, f"the constraints generated for {name_of(k, n, b)} and its meaning differ on `{d}`", st.path())
    rep.ob("accepted", what, found > 0, w, "no path accepts the query")


KINDS = [("Standard", None), ("Super", None), ("Sub", None), ("TransAdd", 1), ("TransAdd", 2), ("TransDelete", 1), ("TransDelete", 3)]


def c04(rep, tier):
    p = prog("lib")
    rep.rule("none-left", "no generated constraint contains an anagram term")
    rep.rule("shape", "apart from the anagram terms, a generated constraint is the expression it comes from")
    rep.rule("each-line", "every line gives at least one constraint; a line without anagram terms gives exactly itself")
    rep.rule("meaning", "what the constraints have in place of an anagram term, taken together, admits exactly the words the term stands for")
    rep.rule("options", "a generated constraint has the options of its line")
    rep.rule("accepted", "the query is accepted on some path")
    rep.rule("panic", "no panic is reachable")
    rep.rule("variants", "every kind of anagram term and every term with sub-terms is among the analysed ones")
    for v in p.adts["parser::AnagramKind"]["variants"]:
        rep.ob("variants", f"AnagramKind::{v['name']}", v["name"] in {k for k, _ in KINDS}, "parser.rs", "this kind is not known to the check")
    for v in p.adts["parser::Ast"]["variants"]:
        rep.ob("variants", f"Ast::{v['name']}", v["name"] in ("CharClass", "Alternatives", "Sequence", "Substring", "Repetition", "Anagram"), "parser.rs", "this term is not known to the check")
    banks = [[0], [0, 1], [1, 0], [0, 0, 1], [25, 0, 25], [2, 2, 2]]
    if tier == "thorough": banks += [[0, 1, 2], [0, 0, 1, 1], [3, 1, 3, 2], [25, 24, 23, 25]]
    one, two = contexts(p, tier)
    jobs = []
    for (k, n), b in itertools.product(KINDS, banks): jobs.append(("the whole expression", [HOLE(0)], [[(k, n, b)]]))
    for i, (nm, t) in enumerate(one[1:]):
        for k, n in (KINDS if tier == "thorough" else [KINDS[0], KINDS[1 + i % 6]]): jobs.append((nm, [t], [[(k, n, [0, 0, 1])]]))
    three = [("Standard", None, [0, 1]), ("Super", None, [2, 2, 3]), ("TransAdd", 1, [4])]
    for nm, t in two:
        for x in itertools.permutations(three) if tier == "thorough" else (three, three[::-1], [three[1], three[0], three[2]]): jobs.append((nm, [t], [list(x[:3 if "three" in nm else 2])]))
    A = lambda i: ast_adt(p, "Sequence", _=VEC(leaf(p, i), HOLE(0)))
    jobs.append(("two lines", [A(10), A(11)], [[three[0]], [three[1]]]))
    jobs.append(("a line between plain lines", [leaf(p, 10), A(11), leaf(p, 12)], [[], [three[2]], []]))
    jobs.append(("a plain line and a line", [leaf(p, 10), A(11)], [[], [three[1]]]))
    jobs.append(("plain lines", [leaf(p, 10), leaf(p, 11)], [[], []]))
    rep.each(jobs, lambda r, j: judge(r, *j))
