"""C05-C10: the evaluator's state machine (query.rs), by abstract interpretation of
`QueryEvaluator::next_within_deadline` with everything it calls inlined except the leaf
operations listed in OPAQUE, whose results are provenance terms."""
from base import *

QE = "query::QueryEvaluator"
OPAQUE = re.compile(r"bitset::|optimize_for_wordlist|filter_search_phases|fmt::|PhraseMatcher::(step|has_)|search_estimate|next_single_word|into_phrase_matcher|_print$")


def next_fn(p):
    return fn1(p, r"^query::QueryEvaluator::next_within_deadline$")


def run_next(monitors=(), split=None, opaque=None, p=None, assume=()):
    p = p or prog("lib")
    fn = next_fn(p)
    op = opaque or OPAQUE
    e = Engine(p, list(monitors), opaque=lambda x: bool(op.search(x)), split=split, budget=1500000)
    return e, fn, e.start(fn, assume=assume)


class Exit:
    """one exit state of next_within_deadline"""
    def __init__(self, e, fn, s, v):
        self.s, self.v = s, v
        self.pre = self_of(fn)
        self.post = s.load(mk("O", arg(0, fn)), ())
        self.ret = variant_in(s, e.p, v, "query::QueryResponse")
        self.phase0 = variant_in(s, e.p, mk("fld", self.pre, "phase"), "query::QueryPhase")
        self.phase1 = variant_in(s, e.p, getf(self.post, "phase"), "query::QueryPhase")

    def f0(self, n): return mk("fld", self.pre, n)
    def f1(self, n): return getf(self.post, n)

    def name(self):
        return f"{self.phase0}->{self.phase1} returning {self.ret}"


def exits(monitors=(), split=None, rep=None, assume=()):
    e, fn, res = run_next(monitors, split, assume=assume)
    if rep:
        rep.count("exit_states", len(res))
        rep.count("abstract_steps", e.steps)
        rep.counts["functions_analysed"] = max(rep.counts.get("functions_analysed", 0), len(e.visited))
    return e, fn, [Exit(e, fn, s, v) for s, v in res]


RULES = {
    "consult": "every matcher is asked about exactly the candidate under examination, with its own table",
    "feed": "the first matcher searches the evaluator's wordlist, every further one the list its predecessor produced",
    "word": "a word is counted as a result only if every matcher's last word is that word",
    "phrase": "a phrase is counted as a result only if all matchers reached success, at the phase's own number of words and rarity",
    "words": "the words of a reported phrase are the words at the positions of the search, first to current",
    "words": "the words of a reported phrase are the words at the positions of the search, first to current",
    "position": "the search position advances exactly once between two examined phrases and is the position of the reported words",
    "descend": "positions are extended below the phase's number of words only, and then always when every matcher can continue",
    "tranche": "the rarity level kept with a position is the maximum over its words",
    "owed": "a candidate that satisfies everything is reported before the search goes on",
    "drain": "after the first matcher is exhausted every further matcher examines the remaining words, in order",
    "full": "words are examined in single-word mode only if no phrase search follows",
    "deadline": "the caller's deadline goes to the first matcher and to no other",
    "first": "a call compares its deadline with the clock before the first search step",
    "interval": "between two search steps the clock is tested or skipped by a running counter of bounded period",
    "queue": "search phases leave the queue from the front, when exhausted",
    "partial": "the partial-match flag is set by every full-length partial match and cleared only between phases",
    "prune": "phases are dropped early only after a phase without partial match, if at least as long and no rarer",
}


def monitored(rep, prop, phase, tier, extra=(), only=None, assume=()):
    """run the evaluator in one phase with a fixed number of expressions; copies the obligations of
    `prop` into the report; yields (K, monitor, exits)"""
    from rules import evalmon
    p = prog("lib")
    fn = next_fn(p)
    ph = mk("fld", self_of(fn), "phase")
    ms = mk("fld", ph, phase + ".matchers")
    dv = {v["name"]: int(v["discr"]) for v in p.adts[evalmon.QP]["variants"]}[phase]
    for K in ((1, 2, 3) if tier == "thorough" else (1, 2)):
        mon = (evalmon.PhraseMon if phase == "Phrase" else evalmon.WordMon)(p, fn, K)
        e, fn, ex = exits([mon] + list(extra), None, rep, [(eq(mk("discr", ph), C(dv)), True), (eq(seqlen(ms), C(K)), True), *assume])
        for pr, rule, construct, ok, span, detail, path in mon.obs:
            if pr != prop or only and rule not in only: continue
            if rule not in rep.rules: rep.rule(rule, RULES[rule])
            rep.ob(rule, f"{phase}: {construct}", ok, span or fn.span, (f"with {K} expressions: " if detail else "") + detail, path)
        yield K, mon, e, fn, ex


# ---------------------------------------------------------------- C05, C06, C08, C09, C10, C13
def wm():
    from rules import evalmon
    return evalmon


def c05(rep, tier):
    import rules.matcher as M
    for ph in ("Phrase", "Word"):
        for K, mon, e, fn, ex in monitored(rep, "C05", ph, tier):
            n = [x for x in ex if x.ret == "Match"]
            rep.ob(ph.lower(), f"{ph}: a match can be reported", bool(n), fn.span, f"no path returns a match with {K} expressions")
            for x in n:
                if ph == "Word":
                    rep.ob("word", "Word: the reported word is the one every matcher accepted", x.v.a[3] is mk("vec", wm().WORD), fn.span, f"reports {show(x.v.a[3])}", x.s.path())
                    rep.ob("word", "Word: a match is reported only if it was counted", bool(x.s.g("cnt")), fn.span, "", x.s.path())
                else:
                    rep.ob("phrase", "Phrase: a match is reported only if it was counted at the position examined last", bool(x.s.g("cnt")), fn.span, "", x.s.path())
    M.single(rep, "C05")
    from rules import tables, setup
    tables.success(rep, tier)
    tables.transitions(rep, tier)
    tables.fill(rep, "C05", tier)
    setup.all_expressions(rep, "C05", tier)


def phase_field(p, x, name): return proj(x.f1("phase"), wm().fpath(p, wm().QP, "Phrase", name))


def c06(rep, tier):
    p = prog("lib")
    rep.rule("depth", "phrase searches are set up for 2 words up to the depth limit, and only if that limit is at least 2")
    fn = next_fn(p)
    lim = mk("fld", self_of(fn), "search_depth_limit")
    for K, mon, e, fn, ex in monitored(rep, "C06", "Phrase", tier):
        for x in ex:
            if x.ret == "Match":
                rep.ob("position", "Phrase: a reported phrase is left behind before the next call", x.s.g("pos") in (1, 4), fn.span, f"position state {x.s.g('pos')}", x.s.path())
    n = [0]

    class Depth:
        def on_agg(self, st, v, ctx):
            if v.op == "adt" and v.a[0] == "matcher::SearchPhase":
                n[0] += 1
                d = getf(v, "depth")
                rep.ob("depth", "a search phase has at least two words", st.decide(le(C(2), d)) is TRUE, fn.span, f"depth {show(d)}", st.path())
                rep.ob("depth", "a search phase has at most as many words as the limit", st.decide(le(d, lim)) is TRUE, fn.span, f"depth {show(d)}", st.path())
    for K, mon, e, fn, ex in monitored(rep, "C06", "Word", "quick", [Depth()]):
        for x in ex:
            if x.phase1 == "Phrase":
                rep.ob("depth", "the phrase search is entered only if the limit allows two words", x.s.decide(le(lim, C(1))) is FALSE, fn.span, "", x.s.path())
                rep.ob("position", "Word: the phrase search starts at the first position", phase_field(p, x, "layer_index") is C(0), fn.span, show(phase_field(p, x, "layer_index")))
            if x.ret == "Match":
                rep.ob("depth", "the word search reports single words", x.v.a[3].op == "vec" and len(x.v.a[3].a) == 1, fn.span, show(x.v.a[3]), x.s.path())
    rep.ob("depth", "search phases are created by the word search", n[0] > 0, fn.span, "none found")


def c08(rep, tier):
    p = prog("lib")
    rep.rule("final", "Complete is returned exactly on the paths whose final phase is Done, and Done is never left")
    rep.rule("iter", "as an iterator the evaluator ends exactly when its phase is Done, and otherwise yields what a call without deadline returns")
    rep.rule("start", "a new evaluator starts in the word phase")
    rep.rule("writers", "the phase is changed only by next_within_deadline")
    fn = next_fn(p)
    w = fn.span
    kinds = set()
    ex = []
    d = mk("discr", mk("fld", self_of(fn), "phase"))
    for v in p.adts["query::QueryPhase"]["variants"]:
        ex += exits([], lambda t: t is d, rep, [(eq(d, C(int(v["discr"]))), True)])[2]
    for x in ex:
        kinds.add((x.phase0, x.phase1, x.ret))
        nm = x.name()
        if x.phase0 is None or x.phase1 is None or x.ret is None:
            rep.ob("final", nm, False, w, "the final phase or response is not determined", x.s.path())
        elif x.phase0 == "Done":
            rep.ob("final", nm, x.phase1 == "Done" and x.ret == "Complete", w, "a finished evaluator goes on", x.s.path())
        else:
            rep.ob("final", nm, (x.phase1 == "Done") == (x.ret == "Complete"), w, "completion and the final state do not coincide", x.s.path())
    for k in (("Word", "Word", "Match"), ("Word", "Done", "Complete"), ("Phrase", "Phrase", "Match"), ("Phrase", "Done", "Complete"), ("Done", "Done", "Complete")):
        rep.ob("final", f"analysed: {k[0]}->{k[1]} {k[2]}", k in kinds, w, "no such path found")
    rep.ob("final", "analysed: Word->Phrase", any(k[:2] == ("Word", "Phrase") for k in kinds), w, "no such path found")
    it = fn1(p, r"^<query::QueryEvaluator<.*> as std::iter::Iterator>::next$")
    phv = mk("discr", mk("fld", self_of(it), "phase"))
    dn = {v["name"]: int(v["discr"]) for v in p.adts["query::QueryPhase"]["variants"]}["Done"]

    class It:
        def __init__(self): self.calls = []
        def after_call(self, c, st, v):
            if norm(c.path).endswith("QueryEvaluator::next_within_deadline"):
                self.calls.append((c.args, c.span))
                st.setgv("resp", v)
    for done in (True, False):
        m = It()
        e2 = Engine(p, [m], opaque=lambda q: bool(re.search(r"next_within_deadline$", q)))
        rs = e2.start(it, assume=[(eq(phv, C(dn)), done)])
        rep.ob("iter", f"next, {'finished' if done else 'running'}: analysed", bool(rs), it.span, "no path")
        for s, v in rs:
            if done: rep.ob("iter", "a finished evaluator yields None", v is NONE, it.span, show(v), s.path())
            else: rep.ob("iter", "a running evaluator yields the response of next_within_deadline", s.gv("resp") is not None and v is some(s.gv("resp")), it.span, show(v), s.path())
        for a, sp in m.calls:
            rep.ob("iter", "iteration has no deadline", a[wm().opt_instant_param(fn, p)] is NONE, sp, show(a[wm().opt_instant_param(fn, p)]))
    new = fn1(p, r"^query::QueryEvaluator::new$")
    e3 = Engine(p, [], opaque=lambda x: bool(re.search(r"WordMatcher.*::new|bitset|Expression::from_ast", x)))
    for s, v in e3.start(new):
        rep.ob("start", "new", variant_in(s, p, getf(v, "phase"), "query::QueryPhase") == "Word", new.span, show(getf(v, "phase"))[:80])
    allowed = reachable(p, [fn.id])
    for f, kind, sp in writers(p, QE, "phase"):
        rep.ob("writers", f"{norm(f.path)} {kind}", f.id in allowed or f.id == fn.id, sp, "changes the phase outside next_within_deadline")


def c09(rep, tier):
    import rules.matcher as M
    rep.rule("timeout", "a timeout is answered only on paths on which a deadline is given and the clock was compared with it and found past it")
    rep.rule("match", "a match is answered only on paths on which a search step followed the first deadline test of this call")
    for ph in ("Phrase", "Word"):
        for K, mon, e, fn, ex in monitored(rep, "C09", ph, tier):
            some_dl = eq(mk("discr", mon.dl), C(1))
            n = 0
            for x in ex:
                if x.ret == "Timeout":
                    n += 1
                    rep.ob("timeout", f"{ph}: a timeout needs an expired deadline", x.s.decide(some_dl) is TRUE and x.s.g("clk") == "past", fn.span, f"clock test: {x.s.g('clk')}", x.s.path())
                elif x.ret == "Match" and ph == "Phrase":
                    rep.ob("match", "Phrase: a search step precedes the match in the same call", bool(x.s.g("nstep")), fn.span, "", x.s.path())
                elif x.ret == "Match":
                    rep.ob("match", "Word: a matcher step precedes the match in the same call", x.s.g("nw") == "S", fn.span, "", x.s.path())
            rep.ob("timeout", f"{ph}: a timeout is possible", n > 0, fn.span, "no path answers with a timeout")
    M.single(rep, "C09")


def c10(rep, tier):
    import rules.matcher as M
    rep.rule("pause", "a timeout leaves the search between two candidates: nothing half examined, nothing found but unreported")
    rep.rule("drained", "the word phase ends only after the first matcher ran out of words before the deadline, and the phrase search starts only after every matcher examined every word")
    for ph in ("Phrase", "Word"):
        for K, mon, e, fn, ex in monitored(rep, "C10", ph, tier):
            for x in ex:
                g = x.s.g
                if x.ret == "Timeout" and ph == "Phrase":
                    rep.ob("pause", "Phrase: a timeout leaves a position that was not examined yet", g("pos") in (None, 1, 4) and not g("owed") and not g("cnt"), fn.span, f"position state {g('pos')}, owed {g('owed')}, found {g('cnt')}", x.s.path())
                    rep.ob("pause", "Phrase: a timeout keeps the phase", x.phase1 == "Phrase", fn.span, x.name(), x.s.path())
                if x.ret == "Timeout" and ph == "Word":
                    rep.ob("pause", "Word: a timeout leaves no word half examined", g("nw") == "N" and x.phase1 == "Word" and not g("drain"), fn.span, f"first matcher {g('nw')}, {x.name()}", x.s.path())
                if ph == "Word" and x.phase1 in ("Done", "Phrase") and g("nw") is not None:
                    rep.ob("drained", "Word: the phase ends only after the first matcher has no word left, not at a deadline", g("nw") == "N" and (g("clk") == "notpast" or wm().no_deadline(x.s, mon.dl)), fn.span, f"first matcher {g('nw')}, clock {g('clk')}", x.s.path())
                if ph == "Word" and x.phase1 == "Phrase":
                    rep.ob("drained", "Word: every matcher has examined the remaining words before the phrase search", set(g("drain") or ()) >= set(range(1, K)), fn.span, f"with {K} expressions: {g('drain')}", x.s.path())
                    rep.ob("drained", "Word: the first matcher was exhausted before the phrase search", g("nw") == "N", fn.span, "", x.s.path())
                if ph == "Phrase" and x.phase1 == "Done" and x.ret == "Complete" and g("nstep"):
                    rep.ob("pause", "Phrase: the search ends with nothing left to report", not g("owed") and not g("cnt"), fn.span, "", x.s.path())
    M.single(rep, "C10")


def c13(rep, tier):
    import rules.matcher as M
    for K, mon, e, fn, ex in monitored(rep, "C13", "Phrase", tier): pass
    M.single(rep, "C13")
    from rules import setup
    setup.aligned(rep, tier)


def c12(rep, tier):
    import rules.matcher as M
    from rules import tables
    M.single(rep, "C12")
    tables.fill(rep, "C12", tier)


def c24(rep, tier):
    import rules.matcher as M
    from rules import tables, setup
    M.single(rep, "C24")
    tables.step(rep, tier)
    tables.fill(rep, "C24", tier)
    tables.transitions(rep, tier)
    setup.all_expressions(rep, "C24", tier)


class Setup:
    """what the word phase makes of the search phases: depths created, sizes given, order"""
    def __init__(self, p):
        self.p = p
        self.depths, self.sizes, self.created = [], [], 0
        self.sortkeys = []

    def on_agg(self, st, v, ctx):
        if v.op == "adt" and v.a[0] == "matcher::SearchPhase":
            self.created += 1
            self.depths.append((st.bnd(getf(v, "depth")), st.path))

    def on_store(self, st, r, path, v, fn, ctx, span):
        if path and path[-1][0] == "f" and path[-1][2] == "total_size":
            el = st.load(r, path[:-1])
            if st.load(r, path) is not v: self.sizes.append((st.copy(), el, v, span))

    def on_sort(self, st, v, el, k, c):
        t = self.p.tys[c.f.locals[c.ops[0][1][0]][0]]["s"] if c.ops and c.ops[0][0] in "cm" else ""
        self.sortkeys.append((show(k), t, c.span))


def c16(rep, tier):
    import rules.matcher as M
    p = prog("lib")
    rep.rule("order", "words of a lower level sort before words of a higher level, whatever else they differ in")
    for pat, wrap in ((r"^<words::Word as std::cmp::Ord>::cmp$", lambda x: x), (r"^<words::Word as std::cmp::PartialOrd>::partial_cmp$", some)):
        fn = fn1(p, pat)
        a, b = [mk("fld", mk("*", arg(i, fn)), "tranche") for i in (0, 1)]
        for asm, want, txt in ((lt(a, b), -1, "before"), (lt(b, a), 1, "after")):
            e = Engine(p, [], budget=100000)
            res = e.start(fn, assume=[(asm, True)])
            rep.ob("order", f"{fn.path.rsplit('::', 1)[1]}: compared", bool(res), fn.span, "no path")
            for s, v in res:
                if wrap is some: v = mk("fld", v, "Some.0") if v.op != "adt" else v.a[3] if len(v.a) > 3 else v
                d = ordering(s, v)
                rep.ob("order", f"{fn.path.rsplit('::', 1)[1]}: a word of {'lower' if want < 0 else 'higher'} level comes {txt} the other", d == want, fn.span, show(v)[:120], s.path())
    rep.rule("sorted", "phrase searches are queued in order of their size, and taken from the front")
    for K in (1,):
        m = Setup(p)
        for K2, mon, e, fn, ex in monitored(rep, "C16", "Word", "quick", [m]):
            if K2 != 1: break
            n = 0
            for x in ex:
                if x.phase1 != "Phrase": continue
                n += 1
                q = phase_field(p, x, "search_queue")
                ok = q.op == "sorted" and q.a[1] == "by" and proj(mk("EL"), wm().fpath(p, "matcher::SearchPhase", None, "total_size")) is q.a[2]
                rep.ob("sorted", "the queue of phrase searches is sorted by increasing size", ok, fn.span, show(q)[:160], x.s.path())
            rep.ob("sorted", "the phrase search can be entered", n > 0, fn.span, "")
    rep.rule("size", "the size of a phrase search is the number of words up to its level to the power of its number of words")
    for st, el, v, span in m.sizes:
        if v is C(0): continue
        d = proj(el, wm().fpath(p, "matcher::SearchPhase", None, "depth"))
        t = proj(el, wm().fpath(p, "matcher::SearchPhase", None, "tranche"))
        ok = v.op == "app" and norm(v.a[0]).endswith("saturating_pow") and strip_cast(v.a[2]) is d and t in index_args(v.a[1])
        rep.ob("size", "size is words up to the level, to the power of the number of words, saturating", ok, span, show(v)[:200], st.path())
    rep.ob("size", "sizes are computed", bool(m.sizes), fn.span, "")
    from rules import evalmon
    for K, mon, e, fn, ex in monitored(rep, "C32", "Phrase", "quick", only=("queue",)): pass
    M.single(rep, "C10")


def strip_cast(v):
    while v.op == "cast": v = v.a[1]
    return v


def index_args(v):
    o = set()
    while v.op in ("idx", "cast"):
        if v.op == "idx": o.add(strip_cast(v.a[1]))
        v = v.a[0] if v.op == "idx" else v.a[1]
    return o


def ordering(s, v):
    """-1/0/1 if an Ordering value is determined"""
    if v.op == "adt": return {"Less": -1, "Equal": 0, "Greater": 1}.get(v.a[2])
    if v.op == "sgn":
        if s.decide(lt(v.a[0], v.a[1])) is TRUE: return -1
        if s.decide(lt(v.a[1], v.a[0])) is TRUE: return 1
    if v.op == "c": return v.a[0] if v.a[0] in (-1, 0, 1) else None
    lo, hi = s.bnd(mk("discr", v))
    return lo if lo == hi else None


def c32(rep, tier):
    from rules import tables
    p = prog("lib")
    for K, mon, e, fn, ex in monitored(rep, "C32", "Phrase", tier): pass
    tables.phases(rep, tier)
    rep.rule("all", "search phases are created for every number of words from two up to the limit and every level of a usable word")
    lim = mk("fld", self_of(next_fn(p)), "search_depth_limit")
    for L in (2, 3):
        m = Setup(p)
        for K, mon, e, fn, ex in monitored(rep, "C32", "Word", "quick", [m], assume=[(eq(lim, C(L)), True)]):
            if K != 1: break
            los, his = [b[0] for b, _ in m.depths], [b[1] for b, _ in m.depths]
            rep.ob("all", "phases of two words are created", bool(los) and min(los) == 2, fn.span, f"limit {L}: numbers of words {sorted(set(los))}")
            rep.ob("all", "phases of as many words as the limit allows are created", bool(his) and max(his) >= L, fn.span, f"limit {L}: at most {max(his) if his else None} words")
    rep.rule("empty", "a phase is given size 0, and so dropped, only if its level has no word of its own")
    for st, el, v, span in m.sizes:
        if v is not C(0): continue
        t = proj(el, wm().fpath(p, "matcher::SearchPhase", None, "tranche"))
        ok = any(f.op == "idx" and t in index_args(f) and st.decide(eq(f, C(0))) is TRUE for f in list(st.facts))
        rep.ob("empty", "a phase of size 0 has no word of its level", ok, span, "", st.path())


def writers(p, adt, field):
    """(fn, block span) assigning a field of `adt` directly, or taking &mut to it"""
    out = []
    for f in p.fns:
        if not f or f.d["crate"] != p.crate: continue
        for b in f.blocks:
            for s in b["s"]:
                if s[0] != "=": continue
                for kind, pl in (("store", s[1]), ("borrow", s[2][2] if s[2][0] == "ref" and s[2][1] else None)):
                    if pl is None or not pl[1]: continue
                    e = pl[1][-1]
                    if e[0] == "f" and e[2] == field and place_adt(p, f, pl, len(pl[1]) - 1) == adt:
                        out.append((f, kind, s[3] if len(s) > 3 else f.span))
    return out


def place_adt(p, f, pl, n):
    """ADT path of the value reached after n projections"""
    t = p.tys[f.locals[pl[0]][0]]
    for e in pl[1][:n]:
        if e[0] == "d":
            t = p.tys[t["t"]] if t["k"] in ("ref", "ptr") else None
        elif e[0] == "dc": continue
        elif e[0] == "f" and t["k"] == "tuple": t = p.tys[t["a"][e[1]]]
        else: t = None
        if t is None: return None
    return t.get("p") if t["k"] == "adt" else None


# ---------------------------------------------------------------- C07
def limit_cases(fn):
    """entry conditions: no limit, limit not reached, limit reached"""
    pre = self_of(fn)
    lim = mk("fld", pre, "results_limit")
    d, val, n = mk("discr", lim), mk("fld", lim, "Some.0"), mk("fld", pre, "results_count")
    return {"no limit": [(eq(d, C(0)), True)],
            "below limit": [(eq(d, C(1)), True), (lt(n, val), True)],
            "limit reached": [(eq(d, C(1)), True), (le(val, n), True)]}


def c07(rep, tier):
    p = prog("lib")
    rep.rule("count", "on every path through next_within_deadline, results_count grows by exactly 1 if a match is returned and is unchanged otherwise")
    rep.rule("limit", "a match is returned only on paths where there is no limit or results_count was below it on entry")
    rep.rule("early", "completion is reported only if the limit was reached, or the search was already done, or has nothing left to examine")
    rep.rule("writers", "results_limit and results_count are only changed by the evaluator's constructor, next_within_deadline and set_results_limit")
    rep.rule("default", "from_ast stores the limit of the query if it has one and 300 otherwise; new stores its argument and a count of 0; set_results_limit stores its argument")
    fn = next_fn(p)
    w = fn.span
    seen = set()
    for case, assume in limit_cases(fn).items():
        e, fn, ex = exits([Exhausted()], None, rep, assume)
        for x in ex:
            n0, n1 = x.f0("results_count"), x.f1("results_count")
            nm = f"{case}: {x.name()}"
            if x.ret == "Match":
                seen.add((case, x.phase0))
                rep.ob("count", nm, x.s.decide(eq(n1, add(n0, C(1)))) is TRUE, w, f"results_count becomes {show(n1)}", x.s.path())
                rep.ob("limit", nm, case != "limit reached", w, "a match can be returned although the limit is already reached", x.s.path())
            else:
                rep.ob("count", nm, n1 is n0, w, f"results_count becomes {show(n1)}", x.s.path())
            if x.ret == "Complete" and case != "limit reached":
                rep.ob("early", nm, exhausted(x), w, "the search can be completed although it is not exhausted and the limit is not reached", x.s.path())
            l0, l1 = x.f0("results_limit"), x.f1("results_limit")
            rep.ob("writers", "next_within_deadline keeps results_limit", l0 is l1, w, f"results_limit becomes {show(l1)}")
    for case in ("no limit", "below limit"):
        rep.ob("count", f"{case}: both phases can return a match", {(case, "Word"), (case, "Phrase")} <= seen, w, "no path returns a match")
    ctor_checks(rep, p)
    # who writes
    allowed = reachable(p, [fn.id])
    for f, kind, sp in writers(p, QE, "results_count") + writers(p, QE, "results_limit"):
        ok = f.id in allowed or norm(f.path).endswith("QueryEvaluator::set_results_limit")
        rep.ob("writers", f"{norm(f.path)} {kind}", ok, sp, "changes the limit or the count outside the functions that may")
    import rules.web as web
    web.c07_web(rep)


def ctor_checks(rep, p):
    new = fn1(p, r"^query::QueryEvaluator::new$")
    OP = lambda x: bool(re.search(r"WordMatcher.*::new|bitset|Expression::from_ast", x))
    e = Engine(p, [], opaque=OP)
    ai = param(new, p, "std::option::Option<usize>")
    for s, v in e.start(new):
        rep.ob("default", "new: results_limit is its argument", getf(v, "results_limit") is arg(ai, new), new.span, show(getf(v, "results_limit")))
        rep.ob("default", "new: results_count starts at 0", getf(v, "results_count") is C(0), new.span, show(getf(v, "results_count")))
    fa = fn1(p, r"^query::QueryEvaluator::from_ast$")
    lim = mk("fld", mk("fld", mk("*", arg(0, fa)), "options"), "results_limit")
    e = Engine(p, [], opaque=OP, split=lambda t: t.op == "discr" and t.a[0] is lim)
    n = 0
    for s, v in e.start(fa):
        l = getf(v, "results_limit")
        d = mk("discr", lim)
        if s.decide(eq(d, C(0))) is TRUE:
            n |= 1
            rep.ob("default", "from_ast: 300 without a limit", l is some(C(300)), fa.span, show(l))
        elif s.decide(eq(d, C(1))) is TRUE:
            n |= 2
            rep.ob("default", "from_ast: explicit limit", l is lim or l is some(mk("fld", lim, "Some.0")), fa.span, show(l))
        else:
            rep.ob("default", "from_ast: limit decided", False, fa.span, show(l))
    rep.ob("default", "from_ast: both cases found", n == 3, fa.span, "")
    sl = fn1(p, r"^query::QueryEvaluator::set_results_limit$")
    e = Engine(p, [])
    for s, v in e.start(sl):
        post = s.load(mk("O", arg(0, sl)), ())
        rep.ob("default", "set_results_limit stores its argument", getf(post, "results_limit") is arg(1, sl), sl.span, show(getf(post, "results_limit")))
        rep.ob("default", "set_results_limit keeps the count", getf(post, "results_count") is mk("fld", self_of(sl), "results_count"), sl.span, "")


def param(fn, p, ty):
    for i in range(fn.argc):
        if p.tys[fn.locals[i + 1][0]]["s"] == ty: return i
    raise Missing(f"{fn.path} has no parameter of type {ty}")


class Exhausted:
    """ghosts: 'nw' outcome of the last next_single_word on the first matcher; 'qe' the phrase
    queue was empty when the phase became Done"""
    def after_call(self, c, s, v):
        if re.search(r"WordMatcher::next_single_word$", norm(c.path)) and first_matcher(c):
            o = []
            for x, tag in ((1, "S"), (0, "N")):
                s2 = s.copy()
                if s2.assume(eq(mk("discr", v), C(x))):
                    s2.setg("nw", tag)
                    o.append((s2, v))
            return o

    def on_store(self, st, r, p, v, fn, ctx, span):
        if v.op == "adt" and v.a[0] == "query::QueryPhase" and v.a[2] == "Done" and p and p[-1][2:] == ("phase",):
            q = mk("fld", st.load(r, p), "Phrase.search_queue") if False else proj(st.load(r, p), ("f", 2, "Phrase.search_queue"))
            st.setg("qe", 1 if st.decide(eq(seqlen(q), C(0))) is TRUE else None)


def exhausted(x):
    if x.phase0 == "Done": return True
    if x.phase0 == "Word": return x.s.g("nw") == "N"
    if x.phase0 == "Phrase": return x.s.g("qe") == 1
    return False


def first_matcher(c):
    """is the receiver of this next_single_word call the first matcher?"""
    a = c.args[0]
    return a.op == "ref" and bool(a.a[1]) and a.a[1][-1] == ("idx", C(0))
