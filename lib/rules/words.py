"""Words and wordlists (words.rs): C14, C15.

Word::new is analysed on a text of symbolic characters; the Unicode steps (normalisation, case, combining marks) are
uninterpreted functions. What comes out is a summary per path: conditions on the character at each step and the symbols
produced. The summary is then compared with the documented spelling for every Unicode character."""
from base import *
from models import it, nxt
from rules import parser as P
import unicodedata, itertools

KEEP = EMPTY


def is_mark(c): return unicodedata.category(chr(c))[0] == "M"


CHARFN = {
    "is_alphabetic": lambda c: c.isalpha(), "is_numeric": lambda c: c.isnumeric(), "is_alphanumeric": lambda c: c.isalnum(),
    "is_whitespace": lambda c: c.isspace(), "is_uppercase": lambda c: c.isupper(), "is_lowercase": lambda c: c.islower(),
    "is_ascii_digit": lambda c: "0" <= c <= "9", "is_ascii_lowercase": lambda c: "a" <= c <= "z", "is_ascii_uppercase": lambda c: "A" <= c <= "Z",
    "is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(), "is_ascii_alphanumeric": lambda c: c.isascii() and c.isalnum(), "is_ascii": lambda c: c.isascii(),
    "is_ascii_punctuation": lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != " ", "is_ascii_whitespace": lambda c: c in " \t\n\r\f", "is_control": lambda c: unicodedata.category(c) == "Cc",
    "is_digit": lambda c: "0" <= c <= "9",
    "is_combining_mark": lambda c: is_mark(ord(c)),
}


class Unknown(Exception): pass


def ev(v, env):
    """value of a term under a valuation of its symbols"""
    if v in env: return env[v]
    o, a = v.op, v.a
    if o in ("c", "b"): return a[0]
    if o == "lin": return a[0] + sum(k * ev(t, env) for t, k in a[1])
    if o == "le": return ev(a[0], env) <= (a[1] if isinstance(a[1], int) else ev(a[1], env))
    if o in ("eqk", "eq"):
        y = a[1]
        return ev(a[0], env) == (ev(y, env) if isinstance(y, V) else y)
    if o == "not": return not ev(a[0], env)
    if o == "and": return all(ev(x, env) for x in a)
    if o == "or": return any(ev(x, env) for x in a)
    if o == "b2i": return int(ev(a[0], env))
    if o == "cast": return ev(a[1], env) & {"u8": 0xff, "u16": 0xffff, "u32": 0xffffffff}.get(a[0], (1 << 64) - 1)
    if o == "charfn": return CHARFN[a[0]](chr(ev(a[1], env)))
    if o == "bin":
        x, y = ev(a[1], env), ev(a[2], env)
        f = {"BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: x << y, "Shr": lambda: x >> y, "Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Rem": lambda: x % y, "Div": lambda: x // y}.get(a[0])
        if f: return f()
    raise Unknown(show(v)[:100])


class Chars:
    """symbolic characters and the Unicode steps on them; path conditions are kept in full"""
    def __init__(self, p, text=None): self.p, self.text = p, text

    def on_branch(self, st, t, val, span):
        if val is not None: st.setg("br", (st.g("br") or ()) + ((t, bool(val)),))

    def on_else(self, st, v, vals, span):
        st.setg("br", (st.g("br") or ()) + tuple((eq(v, C(x)), False) for x in vals))

    def val(self, st, v):
        n = 0
        while v.op in ("ref", "&") and n < 6:
            v = v.a[0] if v.op == "&" else st.load(v.a[0], v.a[1])
            n += 1
        return v

    def seq(self, xs): return it("vec", mk("vec", *xs), C(0), C(len(xs)))

    def on_call(self, c):
        st, n, e = c.st, norm(c.path), self.eng
        m = n.rsplit("::", 1)[1]
        a0 = self.val(st, c.args[0]) if c.args else None
        if self.text is not None and a0 is not None and (a0 is self.text or a0.op == "*" and a0.a[0] is self.text):
            if m == "chars": return [(st, self.seq([mk("sym", "char", f"x{i}") for i in range(self.k)]))]
            if m in ("into", "to_owned", "to_string", "from", "clone", "as_ref", "borrow", "deref"): return [(st, a0)]
        if m in ("nfkd", "nfkc", "nfd", "nfc") and a0 is not None:
            if self.text is not None and (a0 is self.text or a0.op == "*" and a0.a[0] is self.text): a0 = self.seq([mk("sym", "char", f"x{i}") for i in range(self.k)])
            if a0.op != "it" or a0.a[0] != "vec" or a0.a[1].op != "vec": raise Missing(f"normalisation of the text's own characters ({show(a0)[:80]})")
            xs = P.seqof(a0.a[1])
            return [(st, self.seq([mk("norm", m, x) for x in xs]))]
        if m in ("to_uppercase", "to_lowercase") and a0 is not None and "char" in n:
            if a0.op == "c":
                s = chr(a0.a[0])
                return [(st, self.seq([C(ord(y)) for y in (s.upper() if m == "to_uppercase" else s.lower())]))]
            return [(st, self.seq([mk("upper" if m == "to_uppercase" else "lower", a0)]))]
        if m in ("to_ascii_uppercase", "to_ascii_lowercase") and a0 is not None and "char" in n:
            lo, hi, d = (97, 122, -32) if m == "to_ascii_uppercase" else (65, 90, 32)
            if a0.op == "c": return [(st, C(a0.a[0] + d) if lo <= a0.a[0] <= hi else a0)]
            return [(st, mk("asciicase", m, a0))]
        if a0 is not None and (m in CHARFN) and ("char" in n or m == "is_combining_mark"):
            if a0.op == "c": return [(st, C(CHARFN[m](chr(a0.a[0]))))]
            t = mk("charfn", m, a0)
            out = []
            for b in (True, False):
                s = st.copy()
                if s.assume(t, b):
                    s.setg("br", (s.g("br") or ()) + ((t, b),))
                    out.append((s, C(b)))
            return out
        if a0 is not None and a0.op == "it" and m in ("next", "next_back") and re.search(r"unicode_normalization|ToUppercase|ToLowercase|CaseMappingIter|Chars|dyn |Decompositions|Recompositions", c.path):
            return nxt(e, c, m == "next_back")
        return None


# ---------------------------------------------------------------- summaries
def steps(v, out):
    """the Unicode steps a term goes through, innermost first"""
    if v.op in ("norm", "upper", "lower", "asciicase"):
        steps(v.a[-1], out)
        if v not in out: out.append(v)
        return out
    for x in v.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            if isinstance(y, V): steps(y, out)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, V): steps(z, out)
    return out


def images(t, c):
    """the characters one step makes of a character"""
    s = chr(c)
    if t.op == "norm": return [ord(x) for x in unicodedata.normalize(t.a[0].upper(), s)]
    if t.op == "upper": return [ord(x) for x in s.upper()]
    if t.op == "lower": return [ord(x) for x in s.lower()]
    return [ord(s.upper() if "upper" in t.a[0] else s.lower()) if c < 128 else c]


def spelled(c):
    """the documented spelling of one character"""
    out = []
    for n in unicodedata.normalize("NFKD", chr(c)):
        if is_mark(ord(n)): continue
        for x in {"æ": "ae", "Æ": "ae", "œ": "oe", "Œ": "oe"}.get(n, n):
            for y in x.upper():
                for z in y.lower():
                    out.append(symbol(ord(z)))
    return out


def symbol(c):
    if 97 <= c <= 122: return c - 97
    if 65 <= c <= 90: return c - 65
    return 27 if c in (32, 95) else 26


class Summary:
    """paths of Word::new on one symbolic character: (conditions, symbols before the end)"""
    def __init__(self, paths, x):
        self.x = x
        self.paths = []
        for conds, outs in paths:
            ts = []
            for t, b in conds: steps(t, ts)
            for t in outs: steps(t, ts)
            ts.sort(key=depth)
            self.paths.append((conds, outs, ts))

    def spell(self, c):
        return self.go({self.x: c}, self.paths, {self.x})

    def go(self, env, paths, done):
        """all paths still possible under env agree on the steps evaluated so far"""
        live = [p for p in paths if not any(known(t, env) and ev(t, env) != b for t, b in p[0])]
        if not live: raise Unknown("no path applies")
        nxts = []
        for p in live:
            for t in p[2]:
                if t not in env and (t.a[-1] in env):
                    if t not in nxts: nxts.append(t)
        if not nxts:
            if len(live) != 1:
                o = {tuple(ev(x, env) for x in p[1]) for p in live}
                if len(o) != 1: raise Unknown("paths are not told apart")
            return [ev(x, env) for x in live[0][1]]
        # the next step: the element is what all further work is done on
        t = nxts[0]
        out = []
        for y in images(t, env[t.a[-1]]):
            out += self.go({**env, t: y}, live, done)
        return out


def known(t, env):
    try: ev(t, env)
    except Unknown: return False
    return True


def depth(t): return 1 + depth(t.a[-1]) if t.op in ("norm", "upper", "lower", "asciicase") else 0


def word_new(k):
    """exits of Word::new on a text of k characters: (conditions, chars sequence, word)"""
    p = prog("lib")
    fn = fn1(p, r"^words::Word::new$")
    text = mk("text0")
    m = Chars(p, text)
    m.k = k
    e = Engine(p, [m], opaque=lambda x: bool(re.search(r"fmt::|_print$", x)), budget=300000, exact=True, maxparts=4000)
    e.depth = 4
    args = []
    for i in range(fn.argc):
        s = p.tys[fn.locals[i + 1][0]]["s"]
        args.append(text if "str" in s else mk("sym", "arg", i))
    return p, fn, e, [(st, v) for st, v in e.start(fn, args)]


def seqval(v):
    """elements of a collected sequence"""
    if v.op in ("vec", "push", "subseq"): return P.seqof(v)
    if v.op == "adt" and len(v.a) == 4: return seqval(v.a[3])
    raise Missing(f"the letters of a word as a known sequence ({show(v)[:120]})")


def char_of(v):
    """the number inside a Char"""
    if v.op == "adt" and v.a[0].endswith("words::Char"): return v.a[3]
    raise Missing(f"a symbol of the alphabet ({show(v)[:80]})")


def trivial(c):
    s = chr(c)
    if 0xac00 <= c < 0xd7a4 or 0xf900 <= c < 0xfb00 or 0x2f800 <= c < 0x2fa20: return True
    return c > 0x600 and unicodedata.normalize("NFKD", s) == s and s.upper() == s and s.lower() == s and not is_mark(c)


# ---------------------------------------------------------------- C14
SINGLES = [ord(x) for x in "aAzZmM' _-.9\t@[`{/:éÉçñÅК文\u0301\u00a0\u3000ⅴＡａ"]


def c14(rep, tier):
    rep.rule("spelling", "a character is spelled with the symbols of its letters without case, diacritics, compatibility form or ligature; space and underscore are word ends, anything else is punctuation")
    rep.rule("end", "the letters of a word are the spellings of its characters in order, followed by one word end")
    rep.rule("text", "a word keeps the text it was made from")
    rep.rule("alphabet", "a symbol is made only from a number below 28")
    rep.rule("char", "a letter is its position in the alphabet in either case, space and underscore are word ends, anything else is punctuation")
    rep.assume("characters go through Unicode normalisation, case mapping and the combining-mark test as the Unicode tables say; canonical reordering moves only combining marks")
    p, f0, _, ex0 = word_new(0)
    wf = wpath(p)
    for st, v in ex0: end(rep, p, f0, wf, st, v, [], [])
    _, fn, e, ex = word_new(1)
    rep.count("paths", len(ex))
    if e.unmodelled: raise Missing("a model of " + ", ".join(sorted(e.unmodelled))[:200] + f" (called by {fn.path})")
    for w in e.panics: rep.ob("end", "Word::new does not panic", False, fn.span, str(w)[:200])
    x = mk("sym", "char", "x0")
    paths = []
    for st, v in ex:
        cs = [char_of(y) for y in seqval(proj(v, wf["chars"]))]
        ok = rep.ob("end", "the last symbol of a word is the word end", bool(cs) and cs[-1] is C(27), fn.span, f"a word is spelled {show(mk('vec', *cs))[:200]}", st.path())
        rep.ob("text", "text of a word", proj(v, wf["text"]).op in ("text0",) or "text0" in show(proj(v, wf["text"])), fn.span, f"text is {show(proj(v, wf['text']))[:100]}")
        if ok: paths.append((st.g("br") or (), tuple(cs[:-1])))
    S = Summary(paths, x)
    step = 0x2000

    def chunk(r, lo):
        for c in range(lo, min(lo + step, 0x110000)):
            if 0xd800 <= c < 0xe000: continue
            if c > 0x600 and c % (97 if tier == 'quick' else 7) and trivial(c): continue
            one(r, c)
        r.count("characters", min(lo + step, 0x110000) - lo)

    def one(r, c):
        want = spelled(c)
        try: got = S.spell(c)
        except Unknown as u: raise Missing(f"the spelling of U+{c:04X} from the analysed paths ({u})")
        r.ob("spelling", klass(c), got == want, fn.span, f"U+{c:04X} {chr(c)!r} is spelled {got}, not {want} (a=0, punctuation=26, end=27)")
    rep.each(list(range(0, 0x110000, step)), chunk)
    # two characters: one after the other
    _, fn, e, ex = word_new(2)
    rep.count("paths", len(ex))
    rows = [(st.g("br") or (), [char_of(y) for y in seqval(proj(v, wf["chars"]))]) for st, v in ex]
    xs = [mk("sym", "char", "x0"), mk("sym", "char", "x1")]
    for a, b in itertools.product(SINGLES, SINGLES):
        got = evaluate(rows, xs, (a, b))
        if got is None: continue
        rep.count("pairs")
        rep.ob("end", "two characters are spelled one after the other", got == spelled(a) + spelled(b) + [27], fn.span, f"{chr(a) + chr(b)!r} is spelled {got}, not {spelled(a) + spelled(b) + [27]}")
    char_from(rep, p)
    alphabet(rep, p)


def end(rep, p, fn, wf, st, v, cs, want):
    got = [char_of(y) for y in seqval(proj(v, wf["chars"]))]
    rep.ob("end", "an empty text is spelled as a word end alone", [show(x) for x in got] == ["27"], fn.span, f"it is spelled {[show(x) for x in got]}")


def klass(c):
    s = chr(c)
    if c < 128: return f"spelling of {s!r}"
    if is_mark(c): return "spelling of combining marks"
    n = unicodedata.normalize("NFKD", s)
    if s in "æÆœŒ": return "spelling of ligatures"
    if n != s: return "spelling of characters with a decomposition"
    if s.upper() != s or s.lower() != s: return "spelling of other cased letters"
    return "spelling of other characters"


def wpath(p):
    a = [x for n, x in p.adts.items() if n.endswith("words::Word")] if hasattr(p, "adts") else []
    from rules import evalmon
    return {f: evalmon.fpath(p, "words::Word", None, f) for f in ("chars", "text", "score", "tranche")}


def evaluate(rows, xs, cs):
    """symbols of the text cs by the rows' conditions, None if a step makes several characters of one"""
    env = dict(zip(xs, cs))
    outs = set()
    for conds, out in rows:
        ok = True
        e2 = dict(env)
        for t in sorted({t for x in [c[0] for c in conds] + list(out) for t in steps(x, [])}, key=depth):
            if t in e2: continue
            im = images(t, e2[t.a[-1]])
            if len(im) != 1: return None
            e2[t] = im[0]
        for t, b in conds:
            if ev(t, e2) != b: ok = False; break
        if ok: outs.add(tuple(ev(x, e2) for x in out))
    if len(outs) != 1: raise Missing(f"one spelling of {[hex(c) for c in cs]} from the analysed paths ({len(outs)} found)")
    return list(outs.pop())


def char_from(rep, p):
    """the conversion of a character to a symbol"""
    fs = [f for f in p.fns if f and norm(f.path) == "<words::Char as std::convert::From<char>>::from"]
    if not fs: raise Missing("the conversion of a char to a Char")
    fn = fs[0]
    x = mk("sym", "char", "x0")
    e = Engine(p, [Chars(p)], opaque=lambda n: "fmt::" in n, budget=100000, exact=True)
    rows = [(st.g("br") or (), [char_of(v)]) for st, v in e.start(fn, [x])]
    for w in e.panics: rep.ob("char", "the conversion does not panic", False, fn.span, str(w)[:200])
    ks = {0, 0x10ffff}
    def consts(v):
        for y in v.a:
            if isinstance(y, int): ks.update({y - 1, y, y + 1, -y - 1, -y, 1 - y})
            elif isinstance(y, V): consts(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, tuple):
                        for w in z:
                            if isinstance(w, V): consts(w)
    for conds, _ in rows:
        for t, _b in conds: consts(t)
    for c in sorted((ks | set(range(0x3000))) & set(range(0x110000))):
        if 0xd800 <= c < 0xe000: continue
        got = evaluate(rows, [x], (c,))
        rep.count("conversions")
        rep.ob("char", klass(c).replace("spelling", "symbol"), got == [symbol(c)], fn.span, f"U+{c:04X} {chr(c)!r} is symbol {got}, not {symbol(c)}")


def alphabet(rep, p):
    """every place that makes a Char: the number in it is below 28 on every path"""
    roots = {}
    for f in p.fns:
        if f is None: continue
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and norm(s[2][1][1]) == "words::Char": roots[f.path] = f
    if not roots: raise Missing("a place where a Char is made")
    for f in list(roots.values()):
        if "{closure" in f.path:
            del roots[f.path]
            r = f.path.split("::{closure")[0]
            for g in fns(p, "^" + re.escape(norm(r)) + "$"): roots[g.path] = g

    class Made:
        def on_agg(self, st, v, ctx):
            if v.op == "adt" and norm(v.a[0]) == "words::Char":
                x = v.a[3]
                lo, hi = st.bnd(x)
                ok = hi <= 27 or st.decide(le(x, C(27))) is TRUE
                rep.count("symbols_made")
                rep.ob("alphabet", f"symbol made in {self.fn.path}", ok, self.fn.span, f"a Char is made of {show(x)[:100]}, which can be above 27", st.path())
    for f in sorted(roots.values(), key=lambda f: f.path):
        m = Made()
        m.fn = f
        e = Engine(p, [m], opaque=lambda n: bool(re.search(r"fmt::|_print$", n)), budget=100000)
        args = [mk("sym", "arg", i) for i in range(f.argc)]
        e.start(f, args, assume=[(le(C(0), a), True) for i, a in enumerate(args) if p.tys[f.locals[i + 1][0]]["s"] in ("u8", "u16", "u32", "u64", "usize", "char")])
        rep.count("makers")


# ---------------------------------------------------------------- C15
class File(Chars):
    """a wordlist file of symbolic lines; a line is a text, possibly with a first column that may be a number"""
    def __init__(self, p, k): super().__init__(p), setattr(self, "k", k)

    def strip(self, st, v):
        for _ in range(12):
            if v.op in ("&", "box"): v = v.a[0]
            elif v.op == "*": v = v.a[0]
            elif v.op == "ref": v = st.load(v.a[0], v.a[1])
            else: break
        return v

    def both(self, st, t):
        out = []
        if t.op == "not" and t.a[0].op == "has" and "!has" in self.fix: return [(st, C(self.fix["!has"]))]
        if t.op in self.fix: return [(st, C(self.fix[t.op]))]
        for b in (True, False):
            s = st.copy()
            if s.assume(t, b):
                s.setg("br", (s.g("br") or ()) + ((t, b),))
                out.append((s, C(b)))
        return out

    def on_call(self, c):
        st, n, e = c.st, norm(c.path), self.eng
        m = n.rsplit("::", 1)[1]
        a0 = self.strip(st, c.args[0]) if c.args else None
        if m == "lines" and "BufRead" in c.path + c.p:
            return [(st, it("vec", mk("vec", *[adt("std::result::Result", 0, "Ok", mk("line", i)) for i in range(self.k)]), C(0), C(self.k)))]
        if a0 is not None and a0.op == "it" and m == "next" and "Lines" in n: return nxt(e, c)
        if a0 is not None and a0.op in ("line", "col", "rest", "trim"):
            if m == "len": return [(st, mk("sym", "u", "bytes", a0))]
            if m in ("trim", "trim_end", "trim_start"): return [(st, mk("trim", m, a0))]
            if m in ("split_once", "find", "splitn", "split", "rsplit_once"):
                sep = self.strip(st, c.args[-1])
                if m == "split_once" and sep is C(9) and a0.op == "line":
                    out = []
                    for s, b in self.both(st, mk("hastab", a0)): out.append((s, some(tup(mk("col", a0), mk("rest", a0))) if b is TRUE else NONE))
                    return out
                raise Missing(f"the columns of a line split at the first tab ({m} at {show(sep)[:40]})")
            if m == "parse":
                ty = e.p.tys[c.callee["a"][-1]]["s"] if c.callee.get("a") else "?"
                if ty != "u32": raise Missing(f"a first column read as a u32 ({ty})")
                out = []
                for s, b in self.both(st, mk("numeric", a0)):
                    out.append((s, adt("std::result::Result", 0, "Ok", mk("sym", "u", "number", a0)) if b is TRUE else adt("std::result::Result", 1, "Err", mk("parseerr"))))
                return out
            if m in ("as_ref", "as_str", "deref", "borrow", "to_owned", "to_string", "into", "from", "clone", "as_bytes") and "Word" not in n: return [(st, c.args[0] if a0 is self.val(st, c.args[0]) and c.args[0].op == "ref" else a0)]
            if m == "chars" or m == "bytes": return [(st, mk("charsof", a0))]
            if m == "contains": return self.both(st, mk("has", a0, self.pred(c, c.args[1])))
            if m in ("eq", "ne") and len(c.args) == 2:
                y = self.strip(st, c.args[1])
                t = mk("is", a0, self.lit(y))
                return [(s, b if m == "eq" else C(b is FALSE)) for s, b in self.both(st, t)]
            if m == "is_empty": return self.both(st, mk("is", a0, ""))
        if a0 is not None and a0.op == "charsof":
            if m in ("all", "any"):
                s = self.pred(c, c.args[1])
                if m == "any": return self.both(st, mk("has", a0.a[0], s))
                return self.both(st, mk("not", mk("has", a0.a[0], "!" + s)))
            if m == "count": return [(st, mk("sym", "u", "chars", a0.a[0]))]
        if m in ("eq", "ne") and len(c.args) == 2:
            y = self.strip(st, c.args[1])
            if y.op in ("line", "col", "rest", "trim"):
                return [(s, b if m == "eq" else C(b is FALSE)) for s, b in self.both(st, mk("is", y, self.lit(a0)))]
        if m in ("cmp",) and len(c.args) == 2 and re.search(r"Word as (std|core)::cmp::Ord", n): return [(st, mk("sgn", self.strip(st, c.args[0]), self.strip(st, c.args[1])))]
        if m in CHARFN and a0 is not None and a0.op == "c": return [(st, C(CHARFN[m](chr(a0.a[0]))))]
        if n.endswith("Word::new"):
            f = self.p.fns[c.key]
            d = dict(zip(self.order(f), c.args))
            t = self.strip(st, d["str"])
            return [(st, self.word(t, d["u8"], d["u32"]))]
        return super().on_call(c)

    def order(self, f): return ["str" if "str" in self.p.tys[f.locals[i + 1][0]]["s"] else self.p.tys[f.locals[i + 1][0]]["s"] for i in range(f.argc)]

    def word(self, t, tr, sc):
        vals = {"tranche": tr, "chars": mk("letters", t), "text": t, "score": sc}
        fs = P_fields(self.p)
        return mk("adt", "words::Word", 0, "Word", *[vals[f] for f in fs])

    def lit(self, y):
        return y.a[0] if y.op == "s" else "?" + show(y)[:60]

    def pred(self, c, v):
        """the set of ASCII characters a pattern takes, as text"""
        st = c.st
        x = self.strip(st, v)
        if x.op == "c": return "=" + chr(x.a[0])
        if x.op == "s": return "~" + x.a[0]
        if x.op not in ("clo", "fn"): return "?" + show(x)[:60]
        out = ""
        for ch in list(range(128)) + [0xe9, 0x661, 0x4e00]:
            sv, c.st = c.st, st.copy()
            rs = {r for _, r in self.eng.call_value(c, x, [C(ch)], "pred")}
            c.st = sv
            if rs == {TRUE}: out += chr(ch)
            elif rs != {FALSE}: return "?" + show(x)[:60]
        return "=" + out


def P_fields(p):
    for n, a in p.adts.items():
        if re.search(r"(^|::)Word$", norm(n)): return [f[0] for f in a["variants"][0]["fields"]]
    raise Missing("the struct Word")


def load(k, fix=None):
    p = prog("cli")
    cand = fns(p, r"(^|::)load_wordlist$")
    if not cand: raise Missing("load_wordlist, as the command line tool calls it")
    fn = cand[0]
    m = File(p, k)
    m.fix = fix or {}
    e = Engine(p, [m], opaque=lambda x: bool(re.search(r"fmt::|_print$", x)), budget=1500000, exact=True, maxparts=4000)
    e.depth = 4
    return p, fn, e, e.start(fn, [mk("sym", "adt", "filename")])


DIGITS = "0123456789"
FILE_LINES = ["", "a", "I", "b", "i", "A", "'", "-", " ", "4", "ab", "Ib", "I'm", "a1", "1a", "4th", "x9y", "foo", "Foo", "foo bar", "caf\u00e9", "\u00e6", "\u00e9", "ice-cream", "hello world", "90210",
              "1\tfoo", "0\tfoo", "12\ta", "12\tI", "12\tb", "12\ta1", "7\t12", "7\t", "7\t\u00e6", "99999999999\tfoo", "x\tfoo", "\tfoo", "1\tfoo\tbar", "-1\tfoo", "1.5\tfoo", "4294967295\tfoo", "3 \tfoo", "foo\t3", "2\tfoo\t4", "5\thello world"]


def atom(t, texts):
    """truth of an atom on concrete lines; None if it is about something else than the lines"""
    def txt(v):
        if v.op == "line": return texts[v.a[0]]
        x = txt(v.a[-1])
        if x is None: return None
        if v.op == "col": return x.split("\t", 1)[0]
        if v.op == "rest": return x.split("\t", 1)[1] if "\t" in x else None
        if v.op == "trim": return x.strip() if v.a[0] == "trim" else x.lstrip() if v.a[0] == "trim_start" else x.rstrip()
    def num(v):
        if v.op == "c": return v.a[0]
        if v.op == "len" and v.a[0].op == "letters":
            x = txt(v.a[0].a[0])
            return None if x is None else sum(len(spelled(ord(ch))) for ch in x) + 1
        if v.op == "sym" and v.a[1] == "bytes": return len(txt(v.a[2]).encode())
        if v.op == "sym" and v.a[1] == "chars": return len(txt(v.a[2]))
        if v.op == "lin":
            xs = [num(y) for y, k in v.a[1]]
            return None if None in xs else v.a[0] + sum(k * x for x, (y, k) in zip(xs, v.a[1]))
    if t.op == "not":
        r = atom(t.a[0], texts)
        return None if r is None else not r
    if t.op in ("and", "or"):
        rs = [atom(x, texts) for x in t.a]
        if t.op == "and": return False if False in rs else None if None in rs else True
        return True if True in rs else None if None in rs else False
    if t.op == "hastab": return "\t" in txt(t.a[0])
    if t.op == "numeric":
        x = txt(t.a[0])
        return bool(re.fullmatch(r"\+?[0-9]+", x)) and int(x) < 1 << 32
    if t.op == "is": return txt(t.a[0]) == t.a[1]
    if t.op == "has":
        s, x = t.a[1], txt(t.a[0])
        neg = s.startswith("!")
        s = s.lstrip("!")
        if s.startswith("~"): return s[1:] in x
        if not s.startswith("="): return None
        return any((ch in s[1:]) != neg for ch in x)
    if t.op in ("le", "eqk", "eq"):
        x, y = num(t.a[0]), t.a[1] if isinstance(t.a[1], int) else num(t.a[1])
        if x is None or y is None: return None
        return x <= y if t.op == "le" else x == y
    return None


def wanted(line):
    """(kept?, word, numeric column or None); kept is None where the property does not say"""
    word, n = line, None
    if "\t" in line:
        c, r = line.split("\t", 1)
        if re.fullmatch(r"\+?[0-9]+", c) and int(c) < 1 << 32: word, n = r, c
    letters = sum(len(spelled(ord(ch))) for ch in word)
    if any(ch in DIGITS for ch in word): return False, word, n
    if letters == 0: return None, word, n
    return letters > 1 or word in ("I", "a"), word, n


def c15(rep, tier):
    rep.rule("kept", "a line is kept unless its word contains a digit or is a single letter other than I and a")
    rep.rule("column", "a leading numeric column is the score and the rest of the line the word; without one the whole line is the word")
    rep.rule("sorted", "a wordlist is sorted, in the order of words, after its last word was added")
    rep.rule("handed", "only the code that loads a wordlist changes a list of words")
    rep.assume("a line's letters are the spelling of its characters (C14); lines come without their line end")
    p, fn, e, ex = load(1)
    rep.count("paths", len(ex))
    wf = {f: i + 3 for i, f in enumerate(P_fields(p))}
    rows = []
    for st, v in ex:
        if not (v.op == "adt" and v.a[2] == "Ok"):
            continue
        rows.append((st, [(t, b) for t, b in st.g("br") or () if t.op != "b"], v.a[3]))
    for line in FILE_LINES:
        kept, word, n = wanted(line)
        live = [(st, r) for st, cs, r in rows if all(atom(t, [line]) in (None, b) for t, b in cs)]
        rep.count("line_paths", len(live))
        if not live: rep.ob("kept", f"line {line!r}", False, fn.span, "no path loads a file with this line")
        for st, r in live:
            ws = list(seqof_sorted(r))
            if kept is None: continue
            if not rep.ob("kept", f"line {line!r}", len(ws) == int(kept), fn.span, f"the line is {'kept' if ws else 'dropped'}", st.path(40)) or not ws: continue
            w = ws[0]
            t, s = w.a[wf["text"]], w.a[wf["score"]]
            L = mk("line", 0)
            rep.ob("column", f"word of {line!r}", t is (mk("rest", L) if n else L), fn.span, f"the word is {show(t)[:100]}, not {word!r}", st.path(40))
            if n: rep.ob("column", f"score of {line!r}", s is mk("sym", "u", "number", mk("col", L)), fn.span, f"the score is {show(s)[:100]}, not {n}", st.path(40))
    digit_sets(rep, fn, rows)
    p, fn, e, ex = load(2, {"hastab": False, "!has": True})
    rep.count("paths", len(ex))
    got = set()
    for st, v in ex:
        if not (v.op == "adt" and v.a[2] == "Ok"): continue
        r = v.a[3]
        ws = [w.a[wf["text"]].a[0] for w in seqof_sorted(r)]
        got.add(tuple(ws))
        rep.ob("kept", "lines are kept independently of each other", len(set(ws)) == len(ws), fn.span, f"lines {ws} of two")
        if ws: rep.ob("sorted", "a loaded file is sorted by the order of words", by_word(r), fn.span, f"it is {show(r)[:160]}", st.path(40))
    rep.ob("kept", "any of two lines can be kept", {tuple(sorted(x)) for x in got} == {(), (0,), (1,), (0, 1)}, fn.span, f"{sorted(got)}")
    for kinds in (["E", "wordlist", "entry"], ["E", "wordlist", "entry", "entry"], ["quiet", "E", "wordlist", "entry", "entry", "entry"]):
        p, fn, m, e, res = P.query_run(kinds)
        rep.count("abstract_steps", e.steps)
        n = 0
        for s, v in res:
            if P.result(v) != "Ok": continue
            x = P.options_of(p, v)[1]["wordlist"]
            y = x.a[3] if x.op == "adt" and x.a[2] == "Some" else x
            if y.op == "vec" and len(y.a) == 0: continue
            n += 1
            rep.ob("sorted", f"the wordlist of a query {','.join(kinds)} is sorted by the order of words", by_word(y), fn.span, f"it is {show(y)[:160]}", s.path(40))
        rep.ob("sorted", f"a query {','.join(kinds)} has a wordlist", n > 0, fn.span, "no exit with a wordlist")
    for u in ("lib", "cli", "web"):
        p = prog(u)
        roots = [f.id for f in fns(p, r"(^|::)load_wordlist$") + fns(p, r"(^|::)QueryAst::new_from_str$")]
        ok = reachable(p, roots)
        for f in p.fns:
            if f is None or f.d["crate"] not in ("noodle", p.crate): continue
            if f.id in ok or f.d.get("root") in ok or any(f.path.startswith(p.fns[i].path + "::{closure") for i in ok if p.fns[i]): continue
            for l, bad in changed_lists(p, f):
                rep.count("list_changers")
                rep.ob("handed", f"{u}: {f.path} changes a list of words", False, f.span, bad)
            rep.count("functions")


LIST = r"(Vec<(\w+::)*Word>|\[(\w+::)*Word\])"


def changed_lists(p, f):
    """mutable references to a list of words, or to what may hold one, that this function takes and that is not
    a list which the function makes itself (a result, for example); what a parameter refers to is judged where
    the reference is taken"""
    ty = lambda l: p.tys[f.locals[l][0]]["s"]
    defs = {}
    for b in f.blocks:
        for s in b["s"]:
            if s[0] == "=": defs.setdefault(s[1][0], []).append((s[1][1], s[2]))
        t = b["t"]
        if t[0] == "call": defs.setdefault(t[3][0], []).append((t[3][1], ("call", t)))

    def own(l, seen):
        """None if the list in l is made here, or where it comes from"""
        if l in seen: return None
        seen = seen | {l}
        if 1 <= l <= f.argc: return None if not re.search(r"QueryAst|QueryOptions", ty(l)) else f"it is part of {ty(l)}"
        for pr, r in defs.get(l, []):
            if r[0] == "call":
                t = r[1]
                name = norm(t[1][1]["fn"].get("rp") or t[1][1]["fn"]["p"]) if t[1][0] == "k" and "fn" in t[1][1] else "?"
                if "load_wordlist" in name: return "it was loaded"
                ops = t[2]
            elif r[0] == "ref": ops = [("c", r[2])]
            else: ops = [x for x in r[1:] if isinstance(x, list)]
            for o in flat(ops):
                y = ty(o)
                if re.search(r"QueryAst|QueryOptions|Map<", y) and re.search(LIST, ty(l)): return f"it is part of {y}"
                if re.search(LIST, y) and not y.startswith("&[") and not re.match(r"&(?!('\S+ )?mut)", y):
                    w = own(o, seen)
                    if w: return w
        return None

    def flat(x):
        """the locals of operands and places"""
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list) and all(isinstance(e, list) for e in x[1]): return [x[0]]
            return [y for e in x for y in flat(e)]
        return []

    for b in f.blocks:
        for s in b["s"]:
            if s[0] != "=": continue
            (l, pr), r = s[1], s[2]
            t = ty(l) if not pr else ""
            if r[0] == "ref" and re.search(r"^&(\S+ )?mut (\w+::|Option<)*" + LIST + ">*$", t):
                w = own(r[2][0], frozenset())
                if w: yield l, f"it takes a {t}, and {w}"
            if any(e[0] == "f" and len(e) > 2 and e[2] == "wordlist" for e in pr) and re.search(r"QueryAst|QueryOptions", ty(l)): yield l, f"it assigns to a {ty(l)}"


def by_word(r): return r.op == "sorted" and (r.a[1] == "ord" or r.a[1] == "by" and r.a[2] is mk("EL"))


def seqof_sorted(r):
    while r.op == "sorted": r = r.a[0]
    if r.op != "vec" or not all(w.op == "adt" and len(w.a) == 7 for w in r.a): raise Missing(f"the loaded words as a known list ({show(r)[:100]})")
    return r.a


def digit_sets(rep, fn, rows):
    """the characters whose presence drops a word are the ten digits"""
    sets = {t.a[1] for _, cs, r in rows for t, b in cs if t.op == "has"}
    dropping = {x.lstrip("!")[1:] for x in sets if x.startswith("=")}
    rep.ob("kept", "the characters a word may not contain are the digits", DIGITS in dropping, fn.span, f"sets tested: {sorted(sets)[:6]}")
