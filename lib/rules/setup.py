"""Construction of the evaluator from a parsed query, and the wordlist optimisation."""
from base import *
from rules.views import Views
from rules.evalmon import fpath, QP

OPAQUE = re.compile(r"Expression::from_ast|bitset::|fmt::|_print$|epsilon_states")


def app_of(v, pat):
    while v.op in ("ref",) and v.a[0].op in ("K", "O"): v = v.a[0].a[0]
    return v if v.op == "app" and re.search(pat, norm(str(v.a[0]))) else None


class Unroll:
    """keeps the iterations over the expressions apart (small fixed number)"""
    def after_call(self, c, st, v):
        for k, r in (("x", r"Expression::from_ast$"), ("m", r"WordMatcher.*::new$")):
            if re.search(r, norm(c.path)): st.setg(k, (st.g(k) or 0) + 1)


_runs = {}


def runs(tier):
    if tier not in _runs:
        p = prog("lib")
        fn = fn1(p, r"QueryEvaluator.*::from_ast$")
        out = []
        for K in ((1, 2, 3) if tier == "thorough" else (1, 2)):
            e = Engine(p, [Unroll()], opaque=lambda x: bool(OPAQUE.search(x)), budget=500000)
            ex = mk("fld", self_of(fn), "expressions")
            res = e.start(fn, assume=[(eq(seqlen(ex), C(K)), True)])
            out.append((K, p, fn, e, ex, res))
        _runs[tier] = out
    return _runs[tier]


def deep(st, v):
    """an opaque result held in memory or a constant"""
    while v.op == "ref": v = st.load(v.a[0], v.a[1])
    return v


def all_expressions(rep, prop, tier):
    """the evaluator is built with one matcher per expression of the query (C05), whose edit limit is the
    expression's own (C24)"""
    if prop == "C05": rep.rule("built", "the evaluator starts with one matcher per expression of the query, built from that expression")
    if prop == "C24": rep.rule("limit", "a matcher allows exactly the edits the expression asks for")
    for K, p, fn, e, ex, res in runs(tier):
        rep.count("abstract_steps", e.steps)
        R = "built" if prop == "C05" else "limit"
        rep.ob(R, "the evaluator is built", bool(res), fn.span, f"{K} expressions")
        for s, v in res:
            ph = getf(v, "phase")
            if prop == "C05": rep.ob(R, "a fresh evaluator is in the word phase", variant_in(s, p, ph, QP) == "Word", fn.span, show(ph)[:100], s.path())
            ms = proj(ph, fpath(p, QP, "Word", "matchers"))
            n = concrete_len(s, ms)
            if prop == "C05": rep.ob(R, "there are as many matchers as expressions", n == K, fn.span, f"{n} matchers for {K} expressions", s.path())
            for i in range(min(n or 0, K)):
                pm = proj(proj(ms, ("idx", C(i))), fpath(p, "matcher::WordMatcher", None, "phrase_matcher"))
                x = proj(pm, fpath(p, "matcher::PhraseMatcher", None, "expression"))
                F = lambda f: proj(pm, fpath(p, "matcher::PhraseMatcher", None, f))
                a = app_of(x, r"Expression::from_ast$")
                src = a.a[1] if a is not None else None
                want = proj(State().load(mk("O", arg(0, fn)), (fpath(p, "parser::QueryAst", None, "expressions"),)), ("idx", C(i)))
                if prop == "C05":
                    ok = src is not None and (src.a[0] if src.op == "&" else s.deref(src)) is want
                    rep.ob(R, "the matcher is built from the expression at its place", ok, fn.span, f"matcher {i}: {show(x)[:160]}", s.path())
                    rep.ob(R, "the matcher has as many states as the expression", s.decide(eq(F("states_len"), seqlen(proj(x, fpath(p, "expression::Expression", None, "states"))))) is TRUE, fn.span, show(F("states_len"))[:160], s.path())
                    st0 = F("start_states")
                    rep.ob(R, "the search starts in the first state and what it reaches without a letter", start_ok(s, st0, x), fn.span, show(st0)[:200], s.path())
                else:
                    fz = proj(x, fpath(p, "expression::Expression", None, "fuzz"))
                    rep.ob(R, "the matcher's number of edit rows is the expression's edit distance plus one", s.decide(eq(F("fuzz_limit"), add(fz, C(1)))) is TRUE, fn.span, show(F("fuzz_limit"))[:160], s.path())


def concrete_len(s, v):
    lo, hi = s.bnd(seqlen(v))
    return lo if lo == hi else None


def start_ok(s, v, x):
    """v is a copy of epsilon_states(0) of expression x"""
    a = app_of(v, r"to_bitset$")
    if a is None: return False
    b = None
    todo = list(a.a[1:])
    while todo and b is None:
        t = todo.pop()
        if not hasattr(t, "op"): continue
        b = app_of(t, r"epsilon_states$")
        if b is None: todo += [y for y in t.a if hasattr(y, "op")]
    return b is not None and b.a[2] is C(0)


# ---------------------------------------------------------------- optimisation keeps words and classes aligned
class Opt(Views):
    def __init__(self): self.obs = []
    def on_call(self, c): self.pre(c)

    def after_call(self, c, st, v): return self.views(c, st, v)


def aligned(rep, tier):
    rep.rule("aligned", "after the words a matcher keeps were filtered, it has one class per kept word, in the same order")
    p = prog("lib")
    fn = fn1(p, r"WordMatcher.*::optimize_for_wordlist$")
    pm, wcf = fpath(p, "matcher::WordMatcher", None, "phrase_matcher"), fpath(p, "matcher::PhraseMatcher", None, "word_classes")
    alf = fpath(p, "matcher::WordMatcher", None, "alive_wordlist")
    root = mk("O", arg(0, fn))
    al0, wc0 = State().load(root, (alf,)), State().load(root, (pm, wcf))

    class Pair(Views):
        """pushes onto lists of words and onto lists of class numbers alternate and concern one place"""
        def on_call(self, c): self.pre(c)

        def after_call(self, c, st, v):
            if re.search(r"Vec.*::push$", norm(c.path)):
                t = tyof(p, c, 1)
                if re.search(r"words::Word$", t):
                    old = st.gv("w")
                    st.setgv("w", c.args[1])
                    self.pair(c, st)
                elif t == "usize":
                    st.setgv("k", c.args[1])
                    self.pair(c, st)
            return self.views(c, st, v)

        def pair(self, c, st):
            w, k = st.gv("w"), st.gv("k")
            if w is None or k is None: return
            st.setgv("w", None)
            st.setgv("k", None)
            iw = list(index_terms(w))
            ok = any(i in (k.syms if hasattr(k, "syms") else ()) or contains(k, i) for i in iw) if iw else False
            rep.ob("aligned", "a kept word and the class recorded for it come from the same place", ok, c.span, f"word {show(w)[:120]}, class {show(k)[:160]}", st.path())
            found.append(1)
    found = []
    e = Engine(p, [Pair()], opaque=lambda x: bool(re.search(r"bitset::|fmt::|_print$|epsilon_states|PhraseMatcher::step|add_word", x)), budget=1500000)
    res = e.start(fn, assume=[(eq(seqlen(al0), seqlen(wc0)), True)])
    rep.count("abstract_steps", e.steps)
    rep.count("exit_states", len(res))
    rep.ob("aligned", "the filter terminates normally", bool(res), fn.span, "")
    for s, v in res:
        al, wc = s.load(root, (alf,)), s.load(root, (pm, wcf))
        ok = s.decide(eq(seqlen(al), seqlen(wc))) is TRUE or s.decide(eq(seqlen(al), C(0))) is TRUE
        rep.ob("aligned", "as many classes are kept as words (or no words)", ok, fn.span, f"{show(seqlen(al))[:80]} words, {show(seqlen(wc))[:80]} classes", s.path())
    recorded(rep, p)
    # who writes the two lists
    rep.rule("writers", "the words a matcher keeps and their classes are written only where they are checked")
    roots = [f.id for f in fns(p, r"^matcher::WordMatcher.*::(next_single_word|optimize_for_wordlist|new)$")]
    par = reachable(p, roots)
    for f, name, span in writers(p, [("matcher::WordMatcher", "alive_wordlist"), ("matcher::PhraseMatcher", "word_classes"), ("matcher::PhraseMatcher", "classes")]):
        rep.ob("writers", f"{norm(f.path)}: writes {name}", f.id in par, span, "this function is not part of the word search, the word list optimisation or the construction")
    return e


def tyof(p, c, i):
    f = c.f
    o = c.ops[i] if hasattr(c, "ops") else None
    if o is not None and o[0] in "cm" and not o[1][1]: return p.tys[f.locals[o[1][0]][0]]["s"]
    a = c.callee.get("a") or []
    return p.tys[a[0]]["s"] if a else ""


def index_terms(v):
    todo, seen = [v], set()
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == "idx": yield t[1]
            todo += list(t)
        elif hasattr(t, "op") and t.id not in seen:
            seen.add(t.id)
            if t.op in ("idx", "at", "get", "elt") and len(t.a) > 1: yield t.a[1]
            todo += list(t.a)


def contains(v, x):
    todo, seen = [v], set()
    while todo:
        t = todo.pop()
        if t is x: return True
        if isinstance(t, tuple): todo += list(t)
        elif hasattr(t, "op") and t.id not in seen:
            seen.add(t.id)
            todo += list(t.a)
    return False


def writers(p, fields):
    """(function, field, span) for assignments to and mutable borrows of a field (unique names)"""
    out = {}
    names = set()
    for adt, name in fields:
        fpath(p, adt, None, name)
        names.add(name)
    for f in p.fns:
        if not f or f.d["crate"] != p.crate: continue
        for b in f.blocks:
            for st in b["s"]:
                if st[0] != "=": continue
                pl = [st[1]]
                if st[2][0] == "ref" and st[2][1]: pl.append(st[2][2])
                if st[2][0] == "raw": pl.append(st[2][1])
                for x in pl:
                    for q in x[1]:
                        if q[0] == "f" and q[2] in names: out.setdefault((f.id, q[2]), st[-1])
            t = b["t"]
            if t[0] == "call":
                for q in t[3][1]:
                    if q[0] == "f" and q[2] in names: out.setdefault((f.id, q[2]), f.span)
    return [(p.fns[i], n, sp) for (i, n), sp in sorted(out.items())]


MAPKEY = r"IndexMap.*::(entry|insert_full|get_index_of|get_full|get_full_mut|insert)$"


def recorded(rep, p):
    """insert_word_table records for a word the index of its table in the map of classes"""
    rep.rule("recorded", "the class recorded for a word is the index of the entry for the word's own table, entered if new")
    fn = fn1(p, r"PhraseMatcher.*::insert_word_table$")
    ti = next((i for i in range(fn.argc) if "BitSet<" in p.tys[fn.locals[i + 1][0]]["s"]), None)
    if ti is None: raise Missing("table parameter of insert_word_table")
    table = arg(ti, fn)

    class M(Views):
        def on_call(self, c):
            self.pre(c)
            n = norm(c.path)
            if re.search(MAPKEY, n): st0 = c.st; st0.setg("key", self.is_table(c.args[1]))

        def is_table(self, v):
            if v is table or v is mk("*", table): return True
            a = app_of(v, r"::(clone|to_owned)$")
            return bool(a is not None and (a.a[1] is table or contains(a.a[1], table)))

        def after_call(self, c, st, v):
            n = norm(c.path)
            if re.search(MAPKEY, n):
                rep.ob("recorded", "the map of classes is asked for the word's own table", bool(st.g("key")), c.span, f"key {show(c.args[1])[:120]}", st.path())
                st.setgv("ent", v)
                if re.search(r"insert(_full)?$", n): st.setg("ins", True)
            if re.search(r"(VacantEntry.*::insert|Entry.*::or_(default|insert|insert_with))", n): st.setg("ins", True)
            return self.views(c, st, v)
    e = Engine(p, [M()], opaque=lambda x: bool(re.search(r"bitset::|fmt::|_print$|epsilon_states", x)), budget=200000)
    res = e.start(fn)
    rep.count("abstract_steps", e.steps)
    root, wc = mk("O", arg(0, fn)), fpath(p, "matcher::PhraseMatcher", None, "word_classes")
    old = State().load(root, (wc,))
    rep.ob("recorded", "the table of a word is recorded", bool(res), fn.span, "")
    for s, v in res:
        new = s.load(root, (wc,))
        n = s.decide(eq(seqlen(new), add(seqlen(old), C(1)))) is TRUE
        rep.ob("recorded", "one class is recorded per word", n, fn.span, show(new)[:120], s.path())
        last = seqget(new, seqlen(old)) if n else None
        ent = s.gv("ent")
        ok = last is not None and ent is not None and contains(last, ent) or last is not None and app_of(last, r"Entry.*::index$") is not None
        rep.ob("recorded", "the class recorded is the index in the map", ok, fn.span, f"{show(last)[:160] if last is not None else None}", s.path())
        d = s.decide(eq(mk("discr", ent), C(vacant_discr(p)))) if ent is not None else None
        if d is TRUE: rep.ob("recorded", "a new table is entered into the map", bool(s.g("ins")), fn.span, "", s.path())
    # the first class is the empty table
    rep.rule("dead", "class 0 is the table of words that lead nowhere")
    fn = fn1(p, r"PhraseMatcher.*::new$")

    class N(Views):
        def on_call(self, c):
            self.pre(c)
            if re.search(r"IndexMap.*::(insert|insert_full|entry)$", norm(c.path)):
                k = c.st.g("ni") or 0
                c.st.setg("ni", k + 1)
                a = app_of(c.args[1], r"BitSet.*::new$")
                if k == 0: rep.ob("dead", "the first table entered is empty", a is not None, c.span, show(c.args[1])[:120], c.st.path())

        def after_call(self, c, st, v): return self.views(c, st, v)
    e = Engine(p, [N()], opaque=lambda x: bool(re.search(r"bitset::|fmt::|_print$|epsilon_states", x)), budget=200000)
    res = e.start(fn)
    for s, v in res: rep.ob("dead", "a new matcher starts with exactly one class", s.g("ni") == 1, fn.span, f"{s.g('ni')} entries", s.path())


def vacant_discr(p):
    a = p.adts.get("indexmap::map::Entry") or p.adts.get("indexmap::map::core::Entry") or next((a for k, a in p.adts.items() if k.endswith("::Entry") and "indexmap" in k), None)
    if not a: return 1
    return next(int(v["discr"]) for v in a["variants"] if v["name"] == "Vacant")
