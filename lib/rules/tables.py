"""Transition tables (expression.rs, matcher.rs): rows as symbolic set expressions, small scope in the
number of states, letters and edits, all contents symbolic."""
from base import *
from rules.views import *
from rules.views import _con
from models import it

TAB_OPAQUE = re.compile(r"bitset::|fmt::|_print$|CharBitset::is_intersecting|is_intersecting$")


class Sets(SetSem):
    def __init__(self, extra=None): self.extra = extra
    def on_call(self, c):
        self.pre(c)
        st, n = c.st, norm(c.path)
        if self.extra:
            r = self.extra(self, c, st, n)
            if r is not None: return r
        if n.endswith("is_intersecting"):
            # outcome remembered per pair
            a, b = [x.a[0] if x.op == "&" else st.load(x.a[0], x.a[1]) if x.op == "ref" else x for x in c.args]
            key = (a, b)
            cur = st.g("int") or EMPTYSET
            for val in (True, False):
                if (key, val) in cur or ((b, a), val) in cur: return [(st, C(val))]
            s2 = st.copy()
            st.setg("int", cur | {(key, True)})
            s2.setg("int", cur | {(key, False)})
            return [(st, C(True)), (s2, C(False))]
        return self.sets(c, st, None)

    def step_item(self, c, st, content):
        # every element must have been used before the next one is fetched
        pass


def viewarg(name): return mk("view", mk("ref", mk("O", mk("s", name)), (), True))
def target(name): return mk("view", mk("ref", mk("O", mk("s", name)), (), False))


def param_types(p, fn): return [p.tys[fn.locals[i + 1][0]]["s"] for i in range(fn.argc)]


def pos(fn, ts, pat, nth=0):
    ks = [i for i, s in enumerate(ts) if re.search(pat, s)]
    if len(ks) <= nth: raise Missing(f"{fn.path}: parameter of type {pat}")
    return ks[nth]


def run_sets(fn, p, assume, args=None, extra=None, opaque=TAB_OPAQUE, mem=None, stub=None, **kw):
    m = Sets(extra)
    name = p.fns[stub].path if stub is not None else None
    e = Engine(p, [m], opaque=lambda x: x == name or bool(opaque.search(x)), budget=1500000, exact=True, maxparts=6000, **kw)
    return m, e, e.start(fn, args, assume=assume, mem=mem)


def by_types(p, ret, args, what):
    """the function of the crate with these parameter and return types"""
    out = []
    for f in p.fns:
        if not f or f.d["crate"] != p.crate or f.d["kind"] == "closure": continue
        ts = [p.tys[f.locals[i][0]]["s"] for i in range(f.argc + 1)]
        if len(ts) == len(args) + 1 and re.search(ret, ts[0]) and all(re.search(a, t) for a, t in zip(args, ts[1:])): out.append(f)
    if len(out) != 1: raise Missing(f"{what} ({len(out)} candidates)")
    return out[0]


# ---------------------------------------------------------------- one step of the phrase search
def step(rep, tier):
    rep.rule("step", "one more word takes every state reached with f edits to every state its table reaches with d further edits, f+d within the limit, and to no other")
    p = prog("lib")
    fn = step_fn(p)
    ts = param_types(p, fn)
    table, prev, nxt = pos(fn, ts, r"^&bitset::BitSet<"), pos(fn, ts, "BitSetRef<"), pos(fn, ts, "BitSetRefMut")
    args = [arg(i, fn) for i in range(fn.argc)]
    args[prev], args[nxt], args[table] = viewarg("prev"), viewarg("next"), mk("ref", base0("table"), (), True)
    lim = mk("fld", self_of(fn), "fuzz_limit")
    for K in ((1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)):
        m, e, res = run_sets(fn, p, [(eq(lim, C(K)), True)], args)
        rep.count("abstract_steps", e.steps)
        rep.count("exit_states", len(res))
        rep.ob("step", "the step terminates normally", bool(res), fn.span, "")
        for s, v in res:
            tb = target("table")
            prevs = [m.row(s, mk("view", *target("prev").a, C(f))) for f in range(K)]
            rep.ob("step", "every state of the previous set is visited", not s.g("open"), fn.span, f"with limit {K}: the states are not all visited", s.path())
            for t in range(K):
                got = m.row(s, mk("view", *target("next").a, C(t)))
                own = initial(m, s, "next", (C(t),))
                exp = set(own)
                for f in range(t + 1):
                    if not m.known_empty(s, prevs[f]):
                        exp |= m.row(s, mk("view", *tb.a, m.item(atom("init", init0("prev"), (C(f),))), C(t - f)))
                miss, extra = exp - got, got - exp
                rep.ob("step", "no reachable state is missed", not miss, fn.span, f"with limit {K}, edits {t}: missing {showset(miss)[:300]}", s.path())
                rep.ob("step", "no other state is added", not extra, fn.span, f"with limit {K}, edits {t}: additional {showset(extra)[:300]}", s.path())


def base0(name):
    return mk("O", mk("s", name))


def init0(name): return State().load(base0(name), ())


def initial(m, s, name, ix): return m.norm(s, atom("init", init0(name), ix))


def step_fn(p):
    return by_types(p, r"^\(\)$", [r"^&matcher::PhraseMatcher", r"^&bitset::BitSet<", "BitSetRef<", "BitSetRefMut<"], "the step of PhraseMatcher")


# ---------------------------------------------------------------- success state
def success(rep, tier="quick"):
    rep.rule("success", "a matcher reports success exactly if its last state is reached with some number of edits within the limit")
    p = prog("lib")
    fn = fn1(p, r"PhraseMatcher.*::has_success_state$")
    ts = param_types(p, fn)
    args = [arg(i, fn) for i in range(fn.argc)]
    args[pos(fn, ts, "BitSetRef")] = viewarg("set")
    lim = mk("fld", self_of(fn), "fuzz_limit")
    last = sub(mk("fld", self_of(fn), "states_len"), C(1))
    for K in (1, 2, 3):
        m, e, res = run_sets(fn, p, [(eq(lim, C(K)), True)], args)
        rep.count("abstract_steps", e.steps)
        rep.ob("success", "both answers are possible", len({v for _, v in res}) == 2, fn.span, "")
        for s, v in res:
            con = s.g("con") or EMPTYSET
            want = [(initial(m, s, "set", (C(f),)), last) for f in range(K)]
            yes = any((c, i, True) in con for c, i in want)
            no = all((c, i, False) in con for c, i in want)
            if v is C(True): rep.ob("success", "success is reported only if the last state is in a row within the limit", yes, fn.span, f"limit {K}", s.path())
            elif v is C(False): rep.ob("success", "failure is reported only if the last state is in no row within the limit", no, fn.span, f"limit {K}", s.path())
            else: rep.ob("success", "the answer is determined", False, fn.span, show(v)[:100])


# ---------------------------------------------------------------- transitions on one letter
def trans_fn(p):
    return by_types(p, r"^bitset::BitSet<", [r"^&expression::Expression", r"^words::CharBitset$", r"^bitset::BitSetRef<"], "the letter transition of Expression")


def transitions(rep, tier):
    rep.rule("letter", "reading a letter leads from a set of states exactly to the epsilon closure of the targets of those states that have an edge for it")
    p = prog("lib")
    fn = trans_fn(p)
    ts = param_types(p, fn)
    start = pos(fn, ts, "BitSetRef<")
    args = [arg(i, fn) for i in range(fn.argc)]
    args[start] = viewarg("start")
    cb = args[pos(fn, ts, "CharBitset")]
    from rules.evalmon import fpath
    S = fpath(p, "expression::Expression", None, "states")
    eps, nxt, bits = [fpath(p, "expression::State", None, n) for n in ("epsilon_states", "next_state", "char_bitset")]
    root = mk("O", arg(0, fn))
    for K in ((1, 2, 3) if tier == "thorough" else (1, 2)):
        m, e, res = run_sets(fn, p, [(eq(seqlen(mk("fld", self_of(fn), "states")), C(K)), True)], args)
        rep.count("abstract_steps", e.steps)
        rep.count("exit_states", len(res))
        rep.ob("letter", "the transition terminates normally", bool(res), fn.span, "")
        for s, v in res:
            got = m.row(s, mk("view", v))
            con, inter = s.g("con") or EMPTYSET, s.g("int") or EMPTYSET
            st0 = initial(m, s, "start", ())
            tgt = lambda i: (lambda n: atom("init", s.load(root, (S, ("idx", n), eps)), ()))(s.load(root, (S, ("idx", i), nxt)))
            edge = lambda i: next((val for (k, val) in inter if set(k) == {cb, s.load(root, (S, ("idx", i), bits))}), None)
            one = m.item(st0)
            exp = set()
            known = True
            if m.known_empty(s, st0): pass
            elif edge(one) is not None:
                known = not s.g("open")
                if edge(one): exp |= tgt(one)
            else:
                for i in range(K):
                    inn = next((val for c, x, val in con if c == st0 and x is C(i)), None)
                    if inn is False: continue
                    ed = edge(C(i))
                    if inn and ed: exp |= tgt(C(i))
                    elif inn and ed is False or ed is False: pass
                    else: known = False
            rep.ob("letter", "every state and edge is consulted", known, fn.span, f"with {K} states", s.path())
            rep.ob("letter", "the result is exactly the states reached", not known or got == frozenset(exp), fn.span, f"with {K} states: {showset(got)[:300]} instead of {showset(frozenset(exp))[:300]}", s.path())


# ---------------------------------------------------------------- search phases with no possible success
PHASES = [[(2, 1), (2, 3), (3, 1)], [(3, 2), (2, 0)], [(2, 4)]]
CLASSES = [[0, 1, 3], [0, 0, 2], [0, 4, 3]]


def phases(rep, tier):
    rep.rule("filter", "a search phase is dropped only if no phrase of its number of words, all within its rarity level, can succeed")
    p = prog("lib")
    fn = fn1(p, r"PhraseMatcher.*::filter_search_phases$")
    sf = step_fn(p)
    sts = param_types(p, sf)
    ti, pi, ni = pos(sf, sts, r"^&bitset::BitSet<"), pos(sf, sts, "BitSetRef<"), pos(sf, sts, "BitSetRefMut")
    ts = param_types(p, fn)
    qi = pos(fn, ts, "SearchPhase")
    root = base0("queue")
    me = self_of(fn)
    from rules.evalmon import fpath
    SP = lambda n: fpath(p, "matcher::SearchPhase", None, n)
    a = p.adts["matcher::SearchPhase"]["variants"][0]
    names = [f if isinstance(f, str) else f[0] if isinstance(f, list) else f.get("name") for f in a["fields"]]
    wcn = [f if isinstance(f, str) else f[0] if isinstance(f, list) else f.get("name") for f in p.adts["matcher::WordClass"]["variants"][0]["fields"]]
    mkphase = lambda d, t: mk("adt", "matcher::SearchPhase", 0, a["name"], *[C({"depth": d, "tranche": t}.get(n, 0)) for n in names])
    mkclass = lambda t, n: mk("adt", "matcher::WordClass", 0, "WordClass", *[C({"min_tranche": t, "words_count": n}.get(x, 0)) for x in wcn])
    E0 = initial(Sets(), State(), "start", ())
    for PH, CL in list(zip(PHASES, CLASSES)) if tier == "thorough" else list(zip(PHASES, CLASSES))[:2]:
        def extra(self, c, st, n):
            if c.key == sf.id:
                t, prev, nx = c.args[ti], self.view(st, c.args[pi]), self.view(st, c.args[ni])
                k = key_of(t)
                self.write(c, st, mk("view", *nx.a, C(0)), self.row(st, mk("view", *nx.a, C(0))) | S(k, self.row(st, mk("view", *prev.a, C(0)))))
                return [(st, UNIT)]
            if n.endswith("has_success_state"):
                v = self.view(st, c.args[1])
                content = self.row(st, mk("view", *v.a, C(0)))
                return success_of(st, content)
            if re.search(r"IndexMap.*::(iter|values|keys)$", n):
                m = n.rsplit("::", 1)[1]
                ks = [mk("ref", base0(f"key{i}"), (), False) for i in range(len(CL))]
                vs = [mk("ref", mk("K", mkclass(t, 0 if i == 0 else 1)), (), False) for i, t in enumerate(CL)]
                vec = mk("vec", *[{"iter": mk("tup", k, v), "values": v, "keys": k}[m] for k, v in zip(ks, vs)])
                return [(st, it("vec", vec, C(0), C(len(CL))))]
        m, e, res = run_sets(fn, p, [(eq(mk("fld", me, "fuzz_limit"), C(1)), True)], [mk("ref", root, (), True) if i == qi else arg(i, fn) for i in range(fn.argc)],
                             extra, opaque=re.compile(r"bitset::|fmt::|_print$|has_success_state"), stub=sf.id, mem={root: mk("vec", *[mkphase(d, t) for d, t in PH])})
        rep.count("abstract_steps", e.steps)
        rep.count("exit_states", len(res))
        rep.ob("filter", "the filter terminates normally", bool(res), fn.span, "")
        start = None
        for s, v in res:
            q = s.load(root, ())
            got = [(proj(x, SP("depth")), proj(x, SP("tranche"))) for x in q.a] if q.op == "vec" else None
            rep.ob("filter", "the remaining phases are determined", got is not None, fn.span, show(q)[:200], s.path())
            if got is None: continue
            got = [(d.a[0], t.a[0]) for d, t in got]
            rep.ob("filter", "no phase is made up, changed or repeated", [x for x in PH if x in got] == got, fn.span, f"{PH} became {got}", s.path())
            suc = s.g("suc") or EMPTYSET
            for d, t in PH:
                cont = atom("init", State().load(mk("O", arg(0, fn)), (fpath(p, "matcher::PhraseMatcher", None, "start_states"),)), ())
                for _ in range(d):
                    nx = EMPTYSET
                    for k, mt in enumerate(CL):
                        if mt <= t: nx |= S(k, cont)
                    cont = nx
                val = (m.norm(s, cont), True) in suc or (cont, True) in suc
                no = (m.norm(s, cont), False) in suc or (cont, False) in suc or not m.norm(s, cont)
                if (d, t) not in got: rep.ob("filter", "a phase is dropped only if exactly its words cannot succeed", no, fn.span, f"{d} words, level {t} of {PH}; levels of the classes {CL}; success known of {[showset(x)[:100] for x, y in suc]}", s.path())


def S(k, content): return EMPTYSET if k == 0 or not content else atom("step", k, content)


def key_of(t):
    m = re.search(r"key(\d)", show(t))
    return int(m.group(1)) if m else str(t.id)


def success_of(st, content):
    if not content: return [(st, C(False))]
    suc = st.g("suc") or EMPTYSET
    for val in (True, False):
        if (content, val) in suc: return [(st, C(val))]
    s2 = st.copy()
    st.setg("suc", suc | {(content, True)})
    s2.setg("suc", suc | {(content, False)})
    return [(st, C(True)), (s2, C(False))]


# ---------------------------------------------------------------- the table of a word
def fill_fn(p):
    return by_types(p, r"^usize$", [r"^&expression::Expression", r"^&\[words::Char\]", r"^&mut \[bitset::BitSet<", r"^bool$"], "the table fill of Expression")


LETTER, PUNCT, SPACE = 3, 26, 27
CHARVAL = {"letter": LETTER, "punctuation": PUNCT, "word end": SPACE}


def char_adt(p, k):
    a = p.adts.get("words::Char")
    if not a or len(a["variants"][0]["fields"]) != 1: raise Missing("words::Char with one field")
    return mk("adt", "words::Char", 0, a["variants"][0]["name"], C(k))


_fill = {}


def fill_runs(tier):
    """runs of fill_transition_table for small sizes: every kind of letter and option, all rows symbolic"""
    if tier in _fill: return _fill[tier]
    p = prog("lib")
    fn = fill_fn(p)
    tf = trans_fn(p)
    ts = param_types(p, fn)
    ci, ti, bi = pos(fn, ts, "Char"), pos(fn, ts, "BitSet<"), pos(fn, ts, "^bool$")
    args = [arg(i, fn) for i in range(fn.argc)]
    args[ti] = mk("ref", base0("table"), (), True)

    def extra(self, c, st, n):
        if c.key == tf.id:
            k = [i for i, t in enumerate(param_types(p, tf)) if "CharBitset" in t][0]
            w = [i for i, t in enumerate(param_types(p, tf)) if "BitSetRef<" in t][0]
            cb = c.args[k]
            if cb.op == "ref": cb = st.load(cb.a[0], cb.a[1])
            x = self.row(st, self.view(st, c.args[w]))
            return [(st, self.const(T(getf(cb, "0"), x)))]
    sizes = [(1, 0, 1), (1, 0, 2), (1, 1, 1), (1, 2, 1), (2, 0, 1), (2, 1, 1)] + ([(1, 1, 2), (1, 3, 1), (3, 1, 1)] if tier == "thorough" else [])
    out = []
    for N, F, S in sizes:
        kinds = [[k] for k in CHARVAL] if N == 1 else [["letter"] * N, ["punctuation"] + ["letter"] * (N - 1), ["letter"] * (N - 1) + ["word end"]]
        for cs in kinds:
            for iw in (False, True):
                for ip in (False, True):
                    for single in ((False, True) if S > 1 else (False,)):
                        if F > 1 and (iw != ip): continue
                        args[ci] = mk("ref", mk("K", mk("vec", *[char_adt(p, CHARVAL[k]) for k in cs])), (), False)
                        args[bi] = C(single)
                        me = self_of(fn)
                        a = [(eq(mk("fld", me, "fuzz"), C(F)), True), (eq(seqlen(mk("fld", me, "states")), C(S)), True),
                             (mk("fld", me, "ignore_word_boundaries"), iw), (mk("fld", me, "ignore_punctuation"), ip),
                             (eq(seqlen(init0("table")), C(N + 2)), True)]
                        m, e, res = run_sets(fn, p, a, list(args), extra)
                        out.append((cs, F, S, iw, ip, single, m, e, fn, res))
    _fill[tier] = out
    return out


def T(cb, x): return atom("T", cb, x) if x else EMPTYSET


FILL = {
    "rows": ("C12", "every row behind a letter depends on nothing but the row before it and the letter"),
    "cut": ("C12", "the table is cut short only at a letter before which no state is left"),
    "exact": ("C05", "without edits, the states behind a letter are exactly those reached from the states before it by that letter"),
    "skip": ("C20", "a space or punctuation character is passed over if and only if the query does not ask for it"),
    "edits": ("C24", "one more edit adds exactly the states reached by dropping, replacing or inserting one letter"),
}


def fill(rep, prop, tier):
    mine = {r: t for r, (pr, t) in FILL.items() if pr == prop}
    for r, t in mine.items(): rep.rule(r, t)
    n = 0

    def ob(rule, construct, ok, where="", detail="", path=None):
        if rule in mine: rep.ob(rule, construct, ok, where, detail, path)
    for cs, F, S, iw, ip, single, m, e, fn, res in fill_runs(tier):
        rep.count("abstract_steps", e.steps)
        rep.count("exit_states", len(res))
        what = f"{', '.join(cs)}; {F} edits, {S} states" + ("; spaces ignored" if iw else "") + ("; punctuation ignored" if ip else "") + ("; single words only" if single else "")
        for r in mine: ob(r, "the fill terminates normally", bool(res), fn.span, what)
        for s, v in res:
            n += 1
            row = lambda k, q, f: m.row(s, mk("view", mk("ref", base0("table"), (("idx", C(k)),), False), C(q), C(f)))
            k = 0
            states = range(1 if single else S)
            ret = v.a[0] if v.op == "c" else None
            ob("cut", "the number of letters filled is determined", ret is not None, fn.span, what, s.path())
            if ret is None: continue
            ob("cut", "no more letters than given are filled", ret <= len(cs), fn.span, what, s.path())
            for k in range(min(ret, len(cs))):
                ign = cs[k] == "word end" and iw or cs[k] == "punctuation" and ip
                for q in states:
                    P = [row(k, q, f) for f in range(F + 1)]
                    G = [row(k + 1, q, f) for f in range(F + 1)]
                    stale = [a for g in G for a in flat(g) if a[0] == "init" and a[1] is not State().load(base0("table"), (("idx", C(0)),)) or a[0] == "unknown"]
                    ob("rows", "a row is written before it is used", not stale, fn.span, f"{what}: letter {k}: {showset(frozenset((a, EMPTYSET) for a in stale))[:300]}", s.path())
                    for f in range(F + 1):
                        if ign:
                            ob("skip", "an ignored character leaves every row as it is", G[f] == P[f], fn.span, f"{what}: edits {f}: {showset(G[f])[:200]} instead of {showset(P[f])[:200]}", s.path())
                            continue
                        cb = C(1 << CHARVAL[cs[k]])
                        ex = m.norm(s, T(cb, P[f]))
                        if f == 0:
                            ob("exact", "the row without edits is the transition on the letter", G[0] == ex, fn.span, f"{what}: {showset(G[0])[:250]} instead of {showset(ex)[:250]}", s.path())
                            if cs[k] != "letter": ob("skip", "a character the query asks for is read", G[0] == ex, fn.span, f"{what}: {showset(G[0])[:200]}", s.path())
                            continue
                        ch = m.norm(s, T(C((1 << 26) - 1), P[f - 1]))
                        parts = {"exact continuation": ex, "a letter too many in the word is dropped": P[f - 1], "a wrong letter is replaced": ch, "a missing letter is inserted": m.norm(s, T(cb, ch))}
                        low = {}
                        for g in range(f): low.update(dict.fromkeys(a for a, _ in G[g]))
                        for name, want in parts.items():
                            bad = [x for x in want if not any(covers(x, y, low) for y in G[f])]
                            ob("edits", name, not bad, fn.span, f"{what}: edits {f}: missing {showset(frozenset(bad))[:250]}", s.path())
                        allp = frozenset().union(*parts.values())
                        extra = [y for y in G[f] if not any(x[0] == y[0] and x[1] <= y[1] for x in allp)]
                        ob("edits", "nothing else is added", not extra, fn.span, f"{what}: edits {f}: {showset(frozenset(extra))[:250]}", s.path())
            if ret < len(cs):
                left = [(q, f) for q in states for f in range(F + 1) if not m.known_empty(s, row(ret, q, f))]
                ign = cs[ret] == "word end" and iw or cs[ret] == "punctuation" and ip
                ob("cut", "the table is cut short only if no state is left", not left, fn.span, f"{what}: cut after {ret} letters with states left in rows {left}", s.path())
    for r in mine: rep.ob(r, "exit states of the table fill", n > 0, "", "none")


def flat(c):
    for a, m in c:
        yield a
        for x in a:
            if isinstance(x, frozenset): yield from flat(x)


def covers(x, y, low):
    """pair y provides pair x, up to states already present with fewer edits"""
    return x[0] == y[0] and x[1] <= y[1] and all(all(a in low for a, _ in d) for d in y[1] - x[1])
