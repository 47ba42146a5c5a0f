"""Rules about matcher.rs and the table functions of expression.rs."""
from base import *
from rules.evalmon import ClockMon, Clock, fpath, opt_instant_param, no_deadline
from rules.views import Views, split

WM = "matcher::WordMatcher"
SINGLE_OPAQUE = re.compile(r"bitset::|fill_transition_table|insert_word_table|fmt::|_print$|epsilon_states")

RULES = {
    "examine": "the words of the list are examined one by one, in order, each exactly once, also across calls",
    "prefix": "table rows are reused only for a prefix on which the word and the previous word were compared and found equal",
    "init": "the row before the first letter holds the epsilon states of every state before a word without reusable prefix is examined",
    "paired": "a word joins the list of usable words exactly when its transition class is recorded, exactly once, and only if the table was filled to its end",
    "verdict": "a word is accepted only after the success state was found in the row of its last letter",
    "giveup": "no word is returned only if the list is exhausted or the deadline has passed",
    "first": "a call compares its deadline with the clock before the first search step",
    "interval": "between two search steps the clock is tested or skipped by a running counter of bounded period",
    "single-dl": "the search gives up early only at an expired deadline",
}


def ptype(fn, p, pred):
    for i in range(fn.argc):
        if pred(p.tys[fn.locals[i + 1][0]]["s"]): return i
    raise Missing(f"{fn.path}: expected parameter")


class SingleMon(ClockMon, Views):
    def __init__(self, p, fn):
        super().__init__()
        self.p, self.fn = p, fn
        self.root = mk("O", arg(0, fn))
        f = lambda n: fpath(p, WM, None, n)
        self.wi, self.tc, self.tab, self.alive = f("word_index"), f("table_chars"), f("table_char_src_fuzz_dst"), f("alive_wordlist")
        self.pm = f("phrase_matcher")
        self.dl = arg(opt_instant_param(fn, p), fn)
        self.clock = Clock(self.dl)
        self.wl = arg(ptype(fn, p, lambda s: s.startswith("&[")), fn)
        self.byref = "[&" in p.tys[fn.locals[self.wl.a[0] + 1][0]]["s"] if isinstance(self.wl.a[0], int) else False
        ft = fn1(p, r"Expression::fill_transition_table$")
        self.ic = ptype(ft, p, lambda s: s.startswith("&[") and "Char" in s)
        self.it = ptype(ft, p, lambda s: s.startswith("&mut ["))
        self.states_len = mk("fld", mk("fld", self_of(fn), "phrase_matcher"), "states_len")
        self.fills = 0

    def wordref(self, st, k):
        """(root, path) of the k-th word of the list"""
        wl = mk("O", self.wl)
        e = st.load(wl, (("idx", k),))
        if self.byref:
            return mk("O", e), ()
        return wl, (("idx", k),)

    def current(self, st, k):
        """the k-th word is the current one"""
        st.setgv("word", st.load(mk("O", self.wl), (("idx", k),)) if self.byref else mk("ref", mk("O", self.wl), (("idx", k),), False))
        r, pa = self.wordref(st, k)
        st.setgv("len", seqlen(st.load(r, pa + (self.chars(),))))

    def end(self, st):
        lo, ret = st.gv("lo"), st.gv("ret")
        return None if lo is None or ret is None else add(lo, ret)

    def chars(self): return fpath(self.p, "words::Word", None, "chars")

    # -- events
    def on_store(self, st, r, p, v, fn, ctx, span):
        self.counter(st, r, p, v)
        if r is not self.root: return
        if p == (self.wi,):
            old = st.load(r, p)
            if v is old: return
            one = st.decide(eq(v, add(old, C(1)))) is TRUE
            e = st.g("e")
            self.ob("C10", "examine", "the position moves on by one word at a time", one, st, span, f"word_index becomes {show(v)}")
            self.ob("C10", "examine", "every word is examined before the position moves on", e in (None, "F"), st, span, "a word is passed over")
            if e != "F": self.settle(st, span)
            st.setg("e", "I" if e is None else None if e == "F" else "bad")
            if e is None: self.current(st, old)
        elif p == (self.tc,):
            self.remember(st, v, span)

    def remember(self, st, v, span):
        w, end = st.gv("word"), self.end(st)
        if w is not None:
            r, pa = (w.a[0], w.a[1]) if w.op == "ref" else (mk("O", w), ())
            w = mk("ref", r, pa + (self.chars(),), False)
        ok = False
        if w is not None and v.op == "ref":
            base, path = v.a[0], v.a[1]
            lo, hi = C(0), None
            if path and path[-1][0] == "sub": path, lo, hi = path[:-1], path[-1][1], path[-1][2]
            same = mk("ref", base, path, False) is w
            if hi is None: hi = seqlen(st.load(base, path))
            ok = same and st.decide(eq(lo, C(0))) is TRUE and st.decide(le(hi, end)) is TRUE
        elif v.op == "ref": ok = False
        if v.op == "ref" and v.a[0].op == "K" and st.decide(eq(seqlen(st.load(v.a[0], v.a[1])), C(0))) is TRUE:
            ok = True
        self.ob("C12", "prefix", "the letters remembered are letters of the word just examined, up to where its rows were filled", ok, st, span, f"remembers {show(v)[:200]}")
        st.setg("tcs", True)
        st.setgv("pl", C(0))

    def on_branch(self, st, t, val, span):
        self.clock.on_branch(st, t, val, span)
        # a comparison of a letter of some word with the remembered letter at the next position
        self.letters(st)
        self.full(st)

    def full(self, st):
        if st.g("fl") and st.g("full") is None and self.end(st) is not None and st.gv("len") is not None:
            d = st.decide(eq(self.end(st), st.gv("len")))
            if d is not None: st.setg("full", d is TRUE)

    def letters(self, st):
        k = st.gv("pl")
        if k is None:
            k = C(0)
            st.setgv("pl", k)
        if st.g("e") == "I" and st.gv("word") is not None:
            w = st.gv("word")
            ws = [(w.a[0], w.a[1]) if w.op == "ref" else (mk("O", w), ())]
        else: ws = [self.wordref(st, st.load(self.root, (self.wi,)))]
        for r, pa in ws:
            a = st.load(r, pa + (self.chars(), ("idx", k)))
            tc = st.load(self.root, (self.tc,))
            if tc.op == "ref":
                path = tc.a[1]
                b = st.load(tc.a[0], path + (("idx", k),)) if not (path and path[-1][0] == "sub") else st.load(tc.a[0], path[:-1] + (("idx", add(path[-1][1], k)),))
            else: b = st.load(mk("O", tc), (("idx", k),))
            n = self.tclen(st, tc)
            if st.decide(eq(a, b)) is TRUE and st.decide(lt(k, n)) is TRUE:
                st.setgv("pl", add(k, C(1)))

    def tclen(self, st, tc):
        if tc.op == "ref":
            path = tc.a[1]
            if path and path[-1][0] == "sub": return sub(path[-1][2], path[-1][1])
            return seqlen(st.load(tc.a[0], path))
        return seqlen(st.load(mk("O", tc), ()))

    def on_call(self, c): self.pre(c)

    def after_call(self, c, st, v):
        self.clock.after_call(c, st, v)
        n = norm(c.path)
        if n.endswith("Expression::fill_transition_table"): return self.fill(c, st, v)
        if n.endswith("PhraseMatcher::insert_word_table"):
            w = st.gv("word")
            self.ob("C13", "paired", "the class recorded is that of the word just examined", w is not None and self.sameword(st, c.args[1], w), st, c.span, f"records {show(c.args[1])[:120]}")
            t = c.args[2]
            ok = t.op == "ref" and t.a[0] is self.root and t.a[1][:1] == (self.tab,) and len(t.a[1]) == 2 and t.a[1][1][0] == "idx" and st.gv("len") is not None and st.decide(eq(t.a[1][1][1], st.gv("len"))) is TRUE
            self.ob("C13", "paired", "the class recorded is the row behind the word's last letter", ok, st, c.span, f"records row {show(t)[:160]}")
            st.setg("ins", (st.g("ins") or 0) + 1)
            return None
        if re.search(r"Vec::push$", n) and c.args[0].op == "ref" and c.args[0].a[0] is self.root and c.args[0].a[1] == (self.alive,):
            w = st.gv("word")
            self.ob("C13", "paired", "the word that becomes usable is the word just examined", w is not None and self.sameword(st, c.args[1], w), st, c.span, f"adds {show(c.args[1])[:120]}")
            st.setg("psh", (st.g("psh") or 0) + 1)
            return None
        if re.search(r"Vec::(clear|truncate|pop|remove|retain|insert|drain|swap_remove|append)$", n) and c.args[0].op == "ref" and c.args[0].a[0] is self.root and c.args[0].a[1] == (self.alive,):
            self.ob("C13", "paired", "words are only added to the usable words while searching", False, st, c.span, n)
        return self.views(c, st, v)

    def sameword(self, st, a, w):
        if a is w: return True
        if a.op == "ref" and st.load(a.a[0], a.a[1]) is w: return True
        return st.decide(eq(a, w)) is TRUE

    def bit(self, op, c, st, dst, src, v):
        b = dst.a[0]
        if op == "contains":
            ok = b.op == "ref" and b.a[0] is self.root and b.a[1][:1] == (self.tab,) and len(b.a[1]) == 2 and b.a[1][1][0] == "idx" \
                and st.gv("len") is not None and st.decide(eq(b.a[1][1][1], st.gv("len"))) is TRUE and len(dst.a) == 3 and dst.a[1] is C(0)
            ok2 = st.decide(eq(src, sub(self.states_len, C(1)))) is TRUE
            fz = mk("fld", mk("fld", self_of(self.fn), "phrase_matcher"), "fuzz_limit")
            ok3 = len(dst.a) == 3 and st.decide(lt(dst.a[2], fz)) is TRUE
            self.ob("C05", "verdict", "the rows consulted are those of the start state behind the last letter", ok, st, c.span, f"looks at {show(dst)[:200]}")
            self.ob("C05", "verdict", "the state looked for is the success state", ok2, st, c.span, f"looks for state {show(src)}")
            self.ob("C24", "budget", "a word is accepted only within the allowed number of edits", ok3, st, c.span, f"looks at edit row {show(dst.a[-1])}")
            o = []
            for val in (True, False):
                s = st.copy()
                if s.assume(v, val):
                    s.setg("con", val and ok and ok2)
                    if not val and ok and ok2:
                        k = s.gv("fz")
                        if k is not None and s.decide(eq(dst.a[2], k)) is TRUE: s.setgv("fz", add(k, C(1)))
                    o.append((s, C(val)))
            return o
        if b.op == "ref" and b.a[0] is self.root and b.a[1][:1] == (self.tab,) and len(b.a[1]) == 2:
            at0 = b.a[1][1][0] == "idx" and st.decide(eq(b.a[1][1][1], C(0))) is TRUE
            if op == "clear" and len(dst.a) == 1 and at0:
                st.setg("init", True)
                st.setgv("es", C(0))
            elif op == "union_with" and at0 and st.gv("es") is not None and len(dst.a) == 3:
                k = st.gv("es")
                s = src.a[0]
                eps = s.op == "app" and "epsilon_states" in str(s.a[0]) and st.decide(eq(s.a[2], k)) is TRUE
                if st.decide(eq(dst.a[1], k)) is TRUE and dst.a[2] is C(0) and eps: st.setgv("es", add(k, C(1)))
                else: st.setg("init", "bad")
        return None

    def fill(self, c, st, v):
        self.fills += 1
        self.interval(st, c.span)
        e = st.g("e")
        if e != "I": self.settle(st, c.span)
        if e != "I": self.current(st, st.load(self.root, (self.wi,)))
        word = st.gv("word")
        r, pa = (word.a[0], word.a[1]) if word.op == "ref" else (mk("O", word), ())
        a, t = c.args[self.ic], c.args[self.it]
        lo = hi = None
        if a.op == "ref":
            base, path = a.a[0], a.a[1]
            lo = C(0)
            if path and path[-1][0] == "sub": path, lo, hi = path[:-1], path[-1][1], path[-1][2]
            here = base is r and path == pa + (self.chars(),)
        else: here = False
        n = st.gv("len")
        self.ob("C10", "examine", "the word examined is the one at the current position", here, st, c.span, f"examines {show(a)[:200]}")
        whole = lo is not None and (hi is None or st.decide(eq(hi, n)) is TRUE or st.decide(eq(hi, seqlen(st.load(r, pa + (self.chars(),))))) is TRUE)
        self.ob("C12", "prefix", "every letter behind the reused prefix is examined", whole, st, c.span, f"examines {show(a)[:200]}")
        row = t.op == "ref" and t.a[0] is self.root and t.a[1][:1] == (self.tab,)
        tlo = C(0)
        if row and len(t.a[1]) > 1: tlo = t.a[1][1][1] if t.a[1][1][0] == "sub" else None
        self.ob("C12", "prefix", "rows are filled from where the reused prefix ends", row and lo is not None and tlo is not None and st.decide(eq(lo, tlo)) is TRUE, st, c.span, f"letters from {show(lo) if lo else '?'}, rows {show(t)[:160]}")
        pl = st.gv("pl")
        if pl is None: pl = C(0)
        if lo is not None:
            self.ob("C12", "prefix", "the reused prefix is no longer than the letters found equal to the remembered ones", st.decide(le(lo, pl)) is TRUE or lo is C(0), st, c.span, f"reuses {show(lo)} letters, compared {show(pl)}")
            zero = st.decide(eq(lo, C(0))) is not FALSE
            es = st.gv("es")
            done = st.g("init") is True and es is not None and st.decide(le(self.states_len, es)) is TRUE
            self.ob("C12", "init", "the initial row is set up before a word without reusable prefix", not zero or done, st, c.span, f"initialised {st.g('init')}, states {show(es) if es else None}")
        self.ob("C10", "examine", "no word is examined twice", e in (None, "I"), st, c.span, "")
        st.setg("e", None if e == "I" else "F")
        st.setgv("lo", lo)
        st.setgv("ret", v)
        st.setgv("pl", C(0))
        st.setgv("es", None)
        for g in ("psh", "ins", "con", "tcs", "init", "full"): st.setg(g, None)
        st.setg("fl", True)
        st.setgv("fz", C(0))
        return None

    def settle(self, st, span):
        """after the previous word: begin a new one"""
        if st.g("fl"):
            self.full(st)
            full = st.g("full")
            psh, ins = st.g("psh") or 0, st.g("ins") or 0
            self.ob("C13", "paired", "usable words and recorded classes stay in step", psh == ins and psh <= 1, st, span, f"{psh} words added, {ins} classes recorded")
            self.ob("C13", "paired", "a word is usable if and only if its table was filled to the end", full is True and psh == 1 or full is False and psh == 0, st, span, f"filled to the end: {full}, words added: {psh}")
            self.ob("C12", "prefix", "after every word the letters remembered are updated", bool(st.g("tcs")), st, span, "the remembered letters are those of an earlier word")
            self.ob("C10", "examine", "an accepted word is returned", not st.g("con"), st, span, "the search goes on")
            if full is True:
                fz = st.gv("fz")
                lim = mk("fld", mk("fld", self_of(self.fn), "phrase_matcher"), "fuzz_limit")
                self.ob("C24", "budget", "a word is rejected only after every allowed number of edits was looked at", fz is not None and st.decide(le(lim, fz)) is TRUE, st, span, f"looked at {show(fz) if fz else None} edit rows")
        for g in ("psh", "ins", "con", "tcs", "fl", "full"): st.setg(g, None)
        for g in ("word", "len", "lo", "ret", "fz"): st.setgv(g, None)

    def finish(self, s, v):
        sp = self.fn.span
        e = s.g("e")
        self.ob("C10", "examine", "a call ends between two words", e is None, s, sp, "a word is left half examined, or is examined twice")
        which = 0 if v is NONE else 1 if v.op == "adt" and v.a[2] == "Some" else next((d for d in (0, 1) if s.decide(eq(mk("discr", v), C(d))) is TRUE), None)
        if which == 0:
            wi = s.load(self.root, (self.wi,))
            n = seqlen(s.load(mk("O", self.wl), ()))
            ex = s.decide(le(n, wi)) is TRUE
            past = s.g("clk") == "past" and s.decide(eq(mk("discr", self.dl), C(1))) is TRUE
            self.ob("C10", "giveup", "no word is returned only at the end of the list or at an expired deadline", ex or past, s, sp, f"clock {s.g('clk')}")
            self.settle(s, sp)
        elif which == 1:
            w = s.gv("word")
            x = mk("fld", v, "Some.0") if v.op != "adt" else v.a[3]
            self.ob("C05", "verdict", "the word returned is the word just examined", w is not None and self.sameword(s, x, w), s, sp, f"returns {show(x)[:120]}")
            self.ob("C05", "verdict", "a word is returned only after its success state was found", bool(s.g("con")), s, sp, "")
            s.setg("con", None)
            self.ob("C13", "paired", "an accepted word is usable", (s.g("psh") or 0) == 1 and (s.g("ins") or 0) == 1, s, sp, f"{s.g('psh')} words added, {s.g('ins')} classes recorded")
            self.ob("C12", "prefix", "after every word the letters remembered are updated", bool(s.g("tcs")), s, sp, "the remembered letters are those of an earlier word")
        else: self.ob("C10", "giveup", "the result is determined", False, s, sp, show(v)[:100])


_single = {}


def run_single():
    if "r" not in _single:
        p = prog("lib")
        out = []
        for fn in fns(p, r"^matcher::WordMatcher.*::next_single_word$"):
            mon = SingleMon(p, fn)
            e = Engine(p, [mon], opaque=lambda x: bool(SINGLE_OPAQUE.search(x)), budget=1500000)
            st0 = {}
            res = e.start(fn)
            for s, v in res: mon.finish(s, v)
            mon.ob("C10", "examine", "words are examined", mon.fills > 0, None, fn.span, "no call of fill_transition_table found")
            mon.ob("C10", "giveup", "both outcomes are possible", len(res) >= 2, None, fn.span, "")
            out.append((fn, e, mon, res))
        if not out: raise Missing("WordMatcher::next_single_word")
        _single["r"] = out
    return _single["r"]


def single(rep, prop):
    for fn, e, mon, res in run_single():
        rep.count("exit_states", len(res))
        rep.count("abstract_steps", e.steps)
        kind = "&[&Word]" if mon.byref else "&[Word]"
        for pr, rule, construct, ok, span, detail, path in mon.obs:
            if pr != prop: continue
            if rule not in rep.rules: rep.rule(rule, RULES.get(rule, rule))
            rep.ob(rule, f"next_single_word: {construct}", ok, span or fn.span, (f"on {kind}: " if detail else "") + detail, path)
