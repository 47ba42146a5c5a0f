"""Monitors for the evaluator state machine: they follow every abstract path of next_within_deadline
(with a fixed small number K of expressions) and record obligations per property."""
from base import *

QP = "query::QueryPhase"
SL = "query::SearchLayer"


def fpath(p, adt_path, vname, field):
    """projection element of a field"""
    a = p.adts.get(adt_path)
    if not a: raise Missing(f"type {adt_path}")
    for v in a["variants"]:
        if vname is None or v["name"] == vname:
            for i, f in enumerate(v["fields"]):
                nm = f if isinstance(f, str) else f[0] if isinstance(f, list) else f.get("name")
                if nm == field: return ("f", i, field if vname is None else f"{vname}.{field}")
    raise Missing(f"field {field} of {adt_path}{'::' + vname if vname else ''}")


def opt_instant_param(fn, p):
    for i in range(fn.argc):
        s = p.tys[fn.locals[i + 1][0]]["s"]
        if "Option<" in s and "Instant" in s: return i
    raise Missing(f"{fn.path} takes no deadline")


def concrete(st, v):
    lo, hi = st.bnd(v)
    return lo if lo == hi else None


class Base:
    def __init__(self): self.obs = []

    def ob(self, prop, rule, construct, ok, st=None, span="", detail=""):
        self.obs.append((prop, rule, construct, bool(ok), span, detail if not ok else "", st.path() if st is not None and not ok else []))


class Clock:
    """follows clock tests against one deadline; ghosts: now (latest reading, not older than the
    last step), clk ('past' / 'notpast' / None since the last reset)"""
    def __init__(self, dl):
        self.dl, self.val = dl, mk("fld", dl, "Some.0")

    def after_call(self, c, st, v):
        if c.path.endswith("Instant::now"): st.setgv("now", v)

    def on_branch(self, st, t, val, span):
        n = st.gv("now")
        if n is None or n not in t.syms: return
        if st.decide(le(n, self.val)) is TRUE: st.setg("clk", "notpast")
        elif st.decide(le(self.val, n)) is TRUE: st.setg("clk", "past")


def no_deadline(st, dl): return st.decide(eq(mk("discr", dl), C(1))) is FALSE or st.decide(eq(mk("discr", dl), C(0))) is TRUE


class ClockMon(Base):
    """deadline tests between steps; subclasses call counter() from on_store, interval() at a step"""
    steps = "step"

    def on_rem(self, st, x, k, span):
        st.setg("rem", 1 <= k <= 65536 or None)
        st.setgv("tx", x)
        if st.gv("lastinc") is x: st.setg("inc", True)

    def counter(self, st, r, p, v):
        if r.op == "L" or r.op == "O":
            tx = st.gv("tx")
            if tx is not None and v is add(tx, C(1)): st.setg("inc", True)
            elif r.op == "L" and not p and v.op in ("lin", "c") and r in st.mem and v is add(st.mem[r], C(1)): st.setgv("lastinc", v)

    def interval(self, st, span):
        tested = st.g("clk") is not None or no_deadline(st, self.dl)
        skipped = st.g("rem") is not None and st.g("inc")
        first = st.g("nstep") is None
        self.ob("C09", "first", "the clock is tested before the first step of a call", not first or tested, st, span, "a step is made before the deadline was compared with the clock")
        if not first:
            self.ob("C09", "interval", "between two steps the clock is tested, or skipped by a running counter with bounded period", tested or skipped, st, span,
                    f"clock test {st.g('clk')}, counter {st.g('rem') is not None}, incremented {st.g('inc')}")
        st.setg("nstep", 1)
        for k in ("clk", "rem", "inc"): st.setg(k, None)
        for k in ("tx", "lastinc", "now"): st.setgv(k, None)


class PhraseMon(ClockMon):
    def __init__(self, eng_prog, fn, K):
        super().__init__()
        p = self.p = eng_prog
        self.fn, self.K = fn, K
        self.root = mk("O", arg(0, fn))
        ph = fpath(p, "query::QueryEvaluator", None, "phase")
        self.F = {n: (ph, fpath(p, QP, "Phrase", n)) for n in ("matchers", "wordlist", "search_queue", "search_layers", "layer_index", "phase_had_partial_match")}
        self.wi, self.mt, self.tab = fpath(p, SL, None, "word_index"), fpath(p, SL, None, "max_tranche"), fpath(p, SL, None, "table_matcher_fuzz_dst")
        self.dl = arg(opt_instant_param(fn, p), fn)
        self.clock = Clock(self.dl)
        self.seen = set()

    # -- current values
    def cur(self, st, n): return st.load(self.root, self.F[n])
    def li(self, st): return self.cur(st, "layer_index")
    def layer(self, st, i, f): return proj(proj(self.cur(st, "search_layers"), ("idx", i)), f)
    def q0(self, st, f): return proj(proj(self.cur(st, "search_queue"), ("idx", C(0))), fpath(self.p, "matcher::SearchPhase", None, f))

    def tr(self, st, wi):
        w = proj(self.cur(st, "wordlist"), ("idx", wi))
        return mk("fld", mk("*", w), "tranche")

    # -- one step of one matcher
    def midx(self, c, st):
        r = c.args[0]
        if r.op == "ref" and r.a[1] and r.a[1][-1][0] == "idx" and r.a[1][:2] == self.F["matchers"]:
            return concrete(st, r.a[1][-1][1])

    def clone(self, c, st):
        """words of a reported phrase, in order: the k-th is the word at the k-th layer's position"""
        k = st.gv("cl")
        if k is None: return
        want = proj(self.cur(st, "wordlist"), ("idx", self.layer(st, k, self.wi)))
        a = c.args[0]
        ok = a is want or a.op == "ref" and st.load(a.a[0], a.a[1]) is want
        ok = ok or st.decide(eq(a, want)) is TRUE
        self.ob("C13", "words", "the k-th word of a phrase is the word at the k-th position of the search", ok, st, c.span, f"word {show(a)} where {show(want)} is due")
        self.ob("C13", "words", "no word beyond the current position is reported", st.decide(le(k, self.li(st))) is TRUE, st, c.span, "")
        st.setgv("cl", add(k, C(1)))

    def on_agg(self, st, v, ctx):
        if v.op == "adt" and v.a[0] == "query::QueryResponse" and v.a[2] == "Match":
            self.seen.add("match")
            ok = st.g("clok") if st.g("pos") != 0 else self.allwords(st)
            self.ob("C13", "words", "a reported phrase has one word for every position up to the current one", ok, st, "", "the words taken do not end with the current position")

    def allwords(self, st):
        k = st.gv("cl")
        return k is not None and st.decide(le(add(self.li(st), C(1)), k)) is TRUE

    def tidx(self, st, t):
        """table row group (matcher number) of a slice2d term"""
        while t.op == "&": t = t.a[0]
        if t.op == "ref": t = st.load(t.a[0], t.a[1])
        if t.op == "app" and "slice2d" in str(t.a[0]): return concrete(st, t.a[2]), t.a[1]
        return None, None

    def on_call(self, c):
        self.clock_pre(c)

    def clock_pre(self, c): pass

    def after_call(self, c, st, v):
        self.clock.after_call(c, st, v)
        n = norm(c.path)
        if n.endswith("PhraseMatcher::step_by_word_index"): self.step(c, st)
        elif n.endswith("PhraseMatcher::has_success_state"):
            m, (t, src) = self.midx(c, st), self.tidx(st, c.args[1])
            return self.outcome(c, st, v, "suc", m if m == t else None, n, src)
        elif "words::Word as " in n and n.endswith("::clone"):
            self.clone(c, st)
        elif n.endswith("::slice2d"):
            r = c.args[0]
            if r.op == "ref" and r.a[0] is self.root and len(r.a[1]) == 4 and r.a[1][:2] == self.F["search_layers"] and r.a[1][2][0] == "idx" and r.a[1][3] == self.tab \
                    and r.a[1][2][1] is not None:
                i, li = r.a[1][2][1], self.li(st)
                w = "CUR" if st.decide(eq(i, li)) is TRUE else "NEXT" if st.decide(eq(i, add(li, C(1)))) is TRUE else None
                if w: return [(st, mk("app", "slice2d", mk("sym", w), c.args[1]))]
        elif n.endswith("BitSetRef::is_empty"):
            return self.outcome(c, st, v, "emp", self.tidx(st, c.st.deref(c.args[0]))[0], n, self.tidx(st, c.st.deref(c.args[0]))[1])
        elif re.search(r"Vec::(remove|swap_remove|drain|pop|truncate|clear)$", n) and c.args[0].op == "ref" and c.args[0].a[1][:2] == self.F["search_queue"]:
            ok = n.endswith("Vec::remove") and c.args[1] is C(0)
            self.ob("C32", "queue", "a finished search phase is removed from the front of the queue", ok, st, c.span, f"{n}({', '.join(show(a) for a in c.args[1:])})")
            g = st.g("pos")
            self.flag(st, c.span)
            self.ob("C32", "queue", "a search phase is removed only when its first layer is exhausted", g == 1 and st.decide(eq(self.li(st), C(0))) is TRUE, st, c.span, f"position state {g}")
            st.setg("pos", 3)
            st.setgv("done", v)

    def outcome(self, c, st, v, kind, m, n, src):
        if m is None or st.g("pos") != 0 or m not in st.g("stp", ()):
            self.ob("C05", "consult", f"{n.split('::')[-1]} looks at the row group of a matcher stepped just now", False, st, c.span, f"row group {m}, stepped {st.g('stp', ())}")
            return
        self.ob("C05", "consult", f"{n.split('::')[-1]} looks at the row group of a matcher stepped just now", True)
        self.ob("C05", "consult", f"{n.split('::')[-1]} looks at the table that the step produced", src is mk("sym", "NEXT"), st, c.span, f"looks at {show(src) if src else None}")
        d = st.decide(v)
        o = []
        for val in (True, False):
            s = st.copy()
            if d is not None and d is not C(val): continue
            if d is None and not s.assume(v, val): continue
            g = dict(s.g(kind, ()))
            g[m] = val
            s.setg(kind, tuple(sorted(g.items())))
            o.append((s, C(val)))
        return o

    def step(self, c, st):
        m = self.midx(c, st)
        pos = st.g("pos")
        if pos != 0:
            # first matcher of a new position
            self.settle(st, c.span)
            self.ob("C06", "position", "every examined position differs from the previous one (one advance between steps)", pos in (None, 1, 4), st, c.span, f"position state {pos}")
            if pos == 1:
                li = self.li(st)
                wi = self.layer(st, li, self.wi)
                self.ob("C06", "tranche", "a layer's rarity level covers the word it moved to",
                        bool(st.g("cov")) or st.decide(le(self.tr(st, wi), self.layer(st, li, self.mt))) is TRUE, st, c.span, f"max_tranche is {show(self.layer(st, li, self.mt))}")
            self.interval(st, c.span)
            st.setg("pos", 0)
            st.setg("stp", ())
            st.setg("suc", None)
            st.setg("emp", None)
            st.setg("ok", None)
            st.setg("clok", None)
            st.setgv("widx", None)
            st.setgv("cl", C(0))
        li = self.li(st)
        same = c.args[1]
        want = self.layer(st, li, self.wi)
        first = st.gv("widx")
        good = st.decide(eq(same, want)) is TRUE or first is not None and same is first
        if good and first is None: st.setgv("widx", same)
        self.ob("C13", "position", "a matcher is stepped with the word at the current position", good, st, c.span, f"stepped with {show(same)} instead of {show(want)}")
        t, src = self.tidx(st, c.args[2])
        self.ob("C05", "consult", "a matcher steps its own row group", m is not None and m == t, st, c.span, f"matcher {m} steps row group {t}")
        self.ob("C05", "consult", "a step starts from the table of the current layer", src is mk("sym", "CUR"), st, c.span, f"starts from {show(src) if src else None}")
        st.setg("stp", tuple(sorted(set(st.g("stp", ())) | {m})) if m is not None else st.g("stp", ()))

    # -- events
    def cond(self, st):
        K = range(self.K)
        suc, emp = dict(st.g("suc") or ()), dict(st.g("emp") or ())
        allsuc = all(suc.get(m) is True for m in K)
        allne = all(emp.get(m) is False or suc.get(m) is True for m in K)
        D, T = st.g("D"), st.g("T")
        if D is None: D = st.decide(eq(add(self.li(st), C(1)), self.q0(st, "depth")))
        else: D = C(D)
        if T is None: T = st.decide(eq(self.layer(st, self.li(st), self.mt), self.q0(st, "tranche")))
        else: T = C(T)
        return allsuc, allne, D, T

    def leave(self, st, span, how):
        """the position is about to change for the first time since a step"""
        allsuc, allne, D, T = self.cond(st)
        if st.g("cnt"): st.setg("clok", self.allwords(st))
        st.setgv("cl", None)
        for k in ("stp", "suc", "emp", "D", "T", "cov"): st.setg(k, None)
        st.setg("ok", allsuc and D is TRUE and T is TRUE)
        if allsuc and D is not FALSE and T is not FALSE and not st.g("cnt"): st.setg("owed", True)
        if allne and D is not FALSE and st.decide(self.cur(st, "phase_had_partial_match")) is not TRUE:
            st.setg("flag", True)
        if how == "up" or how == "next":
            deep = st.decide(lt(add(self.li(st), C(1)), self.q0(st, "depth")))
            self.ob("C32", "descend", "a position that every matcher can continue from is extended while it is shorter than the phase's phrases",
                    not allne or deep is FALSE, st, span, "the search passes over extensions of a partial match")
        if how == "down":
            deep = st.decide(lt(add(self.li(st), C(1)), self.q0(st, "depth")))
            self.ob("C06", "descend", "a position is extended only below the phase's number of words", deep is TRUE, st, span, "")

    def settle(self, st, span):
        """obligations that a finished step leaves behind"""
        self.ob("C10", "owed", "a phrase that every expression accepts, of the phase's length and rarity, is reported", not st.g("owed"), st, span, "the search goes on without reporting it")
        self.flag(st, span)
        st.setg("owed", None)
        st.setg("cnt", None)

    def flag(self, st, span):
        if st.g("flag") is not None:
            fl = self.cur(st, "phase_had_partial_match")
            self.ob("C32", "partial", "a partial match of full length is remembered for the phase", st.decide(fl) is TRUE, st, span, f"phase_had_partial_match is {show(fl)}")
        st.setg("flag", None)

    def on_store(self, st, r, p, v, fn, ctx, span):
        self.counter(st, r, p, v)
        if r is not self.root: return
        pos = st.g("pos")
        if p == self.F["layer_index"]:
            d = st.decide(eq(v, add(self.li(st), C(1))))
            u = st.decide(eq(v, sub(self.li(st), C(1))))
            if d is TRUE:
                if pos == 0: self.leave(st, span, "down")
                st.setg("pos", {0: 5, 6: 4}.get(pos, "bad"))
            elif u is TRUE: st.setg("pos", {1: 2}.get(pos, "bad"))
            elif v is self.li(st): return
            elif pos == 3 and v is C(0): return
            else: st.setg("pos", "bad")
        elif p and p[:2] == self.F["search_layers"] and p[-1][2:] == ("word_index",):
            i = p[2][1]
            old = st.load(r, p)
            li = self.li(st)
            here, below = st.decide(eq(i, li)) is TRUE, st.decide(eq(i, add(li, C(1)))) is TRUE
            if here and st.decide(eq(v, add(old, C(1)))) is TRUE:
                if pos == 0: self.leave(st, span, "next")
                st.setg("pos", {0: 1, 2: 1}.get(pos, "bad"))
                st.setg("cov", None)
            elif v is C(0) and here and pos in (3, 5): st.setg("pos", 4)
            elif v is C(0) and below and pos == 0:
                self.leave(st, span, "down")
                st.setg("pos", 6)
            elif st.decide(eq(v, old)) is TRUE: return
            else: st.setg("pos", "bad")
        elif p and p[:2] == self.F["search_layers"] and p[-1][2:] == ("max_tranche",):
            i = p[2][1]
            old = st.load(r, p)
            tw = self.tr(st, self.layer(st, i, self.wi))
            ok = False
            cands = [old, self.layer(st, sub(i, C(1)), self.mt)]
            if st.decide(eq(self.layer(st, i, self.wi), C(0))) is TRUE and st.decide(eq(i, C(0))) is TRUE or st.g("pos") in (3, 4): cands.append(self.tr(st, C(0)))
            for x in cands:
                if st.decide(eq(v, x)) is TRUE: ok = True
                for y in (tw, self.tr(st, C(0))):
                    if v.op == "max" and set(v.a) == {x, y}: ok = True
            if st.decide(eq(v, tw)) is TRUE and st.decide(le(old, tw)) is TRUE: ok = True
            if st.g("pos") == 1 and st.decide(eq(i, self.li(st))) is TRUE:
                st.setg("cov", None)
                self.covered(st, v)
            self.ob("C06", "tranche", "a layer's rarity level is the maximum over its words", ok, st, span, f"max_tranche becomes {show(v)}")
        elif p == self.F["phase_had_partial_match"]:
            if v is TRUE:
                st.setg("flag", None)
            elif v is FALSE:
                self.ob("C32", "partial", "the partial-match flag is only cleared when a search phase ends", pos in (3, 4), st, span, f"position state {pos}")
        elif p and p[-1][2:] == ("results_count",):
            if st.load(r, p) is v: return
            if pos == 0:
                allsuc, _, D, T = self.cond(st)
            else:
                allsuc = D = T = None
            ok = bool(st.g("ok")) if pos != 0 else None
            self.ob("C05", "phrase", "a phrase is counted only after every matcher stepped to its success state", ok if pos != 0 else allsuc, st, span,
                    f"stepped {st.g('stp')}, success {st.g('suc')}")
            self.ob("C06", "phrase", "a phrase is counted only in the phase of its own number of words", ok if pos != 0 else D is TRUE, st, span, "")
            self.ob("C06", "phrase", "a phrase is counted only in the phase of its own rarest word", ok if pos != 0 else T is TRUE, st, span, "")
            self.seen.add("count")
            st.setg("cnt", True)
            st.setg("owed", None)

    def on_retain(self, st, kept, el, c):
        if c.args[0].op != "ref" or c.args[0].a[1][:2] != self.F["search_queue"] or c.args[0].a[0] is not self.root: return
        if kept: return
        sp = "matcher::SearchPhase"
        d, f = st.gv("done"), lambda v, n: proj(v, fpath(self.p, sp, None, n))
        fl = self.cur(st, "phase_had_partial_match")
        self.ob("C32", "prune", "phases are pruned only after a phase without partial match", d is not None and st.decide(fl) is FALSE, st, c.span, f"phase_had_partial_match is {show(fl)}")
        if d is not None:
            self.ob("C32", "prune", "a pruned phase needs at least as many words", st.decide(le(f(d, "depth"), f(el, "depth"))) is TRUE, st, c.span, "")
            self.ob("C32", "prune", "a pruned phase admits no rarer words", st.decide(le(f(el, "tranche"), f(d, "tranche"))) is TRUE, st, c.span, "")

    # -- clock and counter
    def on_branch(self, st, t, val, span):
        self.clock.on_branch(st, t, val, span)
        pos = st.g("pos")
        if pos == 0 and (st.g("D") is None or st.g("T") is None):
            # remember which of the two conditions is known, so that joins keep them apart
            _, _, D, T = self.cond(st)
            if D is not None: st.setg("D", D is TRUE)
            if T is not None: st.setg("T", T is TRUE)
        elif pos == 1 and not st.g("cov"): self.covered(st)

    def covered(self, st, v=None):
        li = self.li(st)
        if st.decide(le(self.tr(st, self.layer(st, li, self.wi)), self.layer(st, li, self.mt) if v is None else v)) is TRUE: st.setg("cov", True)



WORD = mk("s", "the current word")
CURW, OTHW = mk("ref", mk("K", WORD), (), False), mk("ref", mk("K", mk("s", "another word")), (), False)


class WordMon(Base):
    """the word phase, with K expressions"""
    def __init__(self, prog, fn, K):
        super().__init__()
        p = self.p = prog
        self.fn, self.K = fn, K
        self.root = mk("O", arg(0, fn))
        ph = fpath(p, "query::QueryEvaluator", None, "phase")
        self.M = (ph, fpath(p, QP, "Word", "matchers"))
        self.WL = (ph, fpath(p, QP, "Word", "wordlist"))
        self.alive = fpath(p, "matcher::WordMatcher", None, "alive_wordlist")
        self.dl = arg(opt_instant_param(fn, p), fn)
        self.clock = Clock(self.dl)
        self.wl0 = None

    def midx(self, st, r):
        if r.op == "ref" and r.a[0] is self.root and r.a[1][:2] == self.M and len(r.a[1]) == 3 and r.a[1][2][0] == "idx":
            return concrete(st, r.a[1][2][1])

    def single(self, st, v):
        """is the single_word_only argument justified? it may be true only if no phrase search can follow"""
        lim = mk("fld", self_of(self.fn), "search_depth_limit")
        t = le(lim, C(1))
        if v is FALSE: return True
        if v is t: return True
        if st.decide(v) is FALSE: return True
        return st.decide(t) is TRUE

    def after_call(self, c, st, v):
        self.clock.after_call(c, st, v)
        n = norm(c.path)
        if re.search(r"WordMatcher::next_single_word$", n): return self.nsw(c, st, v)

    def nsw(self, c, st, v):
        m = self.midx(st, c.args[0])
        ty = self.p.fns[c.key] if c.key is not None else None
        # argument roles
        wl, single, dl = c.args[1], c.args[2], c.args[3]
        self.ob("C10", "full", "words are examined in single-word mode only if no phrase search follows", self.single(st, single), st, c.span, f"single_word_only = {show(single)}")
        if m is None:
            self.ob("C05", "consult", "next_single_word is called on one of the evaluator's matchers", False, st, c.span, show(c.args[0]))
            return
        if m == 0:
            self.finish_word(st, c.span)
            self.ob("C09", "deadline", "the word search gets the caller's deadline", dl is self.dl or no_deadline(st, self.dl) and dl is NONE, st, c.span, f"deadline argument is {show(dl)}")
            w0 = st.load(self.root, self.WL)
            self.ob("C05", "feed", "the first matcher searches the evaluator's wordlist", wl is w0 or self.deref_is(st, wl, w0), st, c.span, show(wl))
            o = []
            for x, tag in ((1, "S"), (0, "N")):
                s = st.copy()
                if s.assume(eq(mk("discr", v), C(x))):
                    s.setg("nw", tag)
                    s.setg("clk", None)
                    s.setgv("now", None)
                    s.setg("ver", None)
                    s.setg("last", None)
                    s.setg("drain", ())
                    s.setg("cnt", None)
                    if tag == "S":
                        for r in list(s.mem): s.mem[r] = replace_term(s.mem[r], {WORD: mk("s", "an earlier word")})
                        s.setgv("cur", CURW)
                        o.append((s, some(CURW)))
                    else: o.append((s, NONE))
            return o
        want = self.M + (("idx", C(m - 1)), self.alive)
        got = wl.a[1] if wl.op == "ref" and wl.a[0] is self.root else None
        self.ob("C05", "feed", "each further matcher searches the list its predecessor produced",
                got is not None and got[:2] == self.M and len(got) >= 4 and concrete(st, got[2][1]) == m - 1 and got[3] == self.alive, st, c.span, f"matcher {m} searches {show(wl)}")
        self.ob("C10", "deadline", "matchers that follow the first one are never interrupted", dl is NONE, st, c.span, f"deadline argument is {show(dl)}")
        o = []
        cur = st.gv("cur")
        s = st.copy()
        if s.assume(eq(mk("discr", v), C(0))):
            ver = dict(s.g("ver") or ())
            l = s.g("last")
            ver[m] = bool(l and l == (m, "eq"))
            s.setg("ver", tuple(sorted(ver.items())))
            s.setg("last", None)
            if s.g("nw") == "N":
                d = s.g("drain", ())
                self.ob("C10", "drain", "the remaining words are handed down in the order of the matchers", m == 1 or m - 1 in d, s, c.span, f"matcher {m} after {d}")
                s.setg("drain", tuple(sorted(set(d) | {m})))
            o.append((s, NONE))
        if s.g("nw") == "S":
            s = st.copy()
            if s.assume(eq(mk("discr", v), C(1))):
                s.setg("last", (m, "eq"))
                o.append((s, some(cur)))
        s = st.copy()
        if s.assume(eq(mk("discr", v), C(1))):
            s.setg("last", (m, "ne"))
            o.append((s, some(OTHW)))
        return o

    def deref_is(self, st, v, w): return v.op == "ref" and st.load(v.a[0], v.a[1]) is w

    def accepted(self, st):
        ver = dict(st.g("ver") or ())
        return st.g("nw") == "S" and all(ver.get(m) for m in range(1, self.K))

    def finish_word(self, st, span):
        if st.g("nw") == "S":
            ver = dict(st.g("ver") or ())
            self.ob("C10", "owed", "a word that every expression accepts is reported before the search goes on",
                    not (self.accepted(st) and not st.g("cnt")), st, span, "the word is passed over")

    def on_branch(self, st, t, val, span): self.clock.on_branch(st, t, val, span)

    def on_store(self, st, r, p, v, fn, ctx, span):
        if r is self.root and p and p[-1][2:] == ("results_count",) and st.load(r, p) is not v:
            self.ob("C05", "word", "a word is counted only if every matcher's last word is that word", self.accepted(st), st, span, f"first matcher {st.g('nw')}, others {st.g('ver')}")
            st.setg("cnt", True)
