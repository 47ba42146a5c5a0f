"""The pest grammar of the query language: parser for .pest files and a parsing-expression interpreter with pest's
semantics (implicit whitespace and comments, atomic and silent rules). Used to see which parse tree a query line gets,
never to run any of the repository's code."""
import os, re, sys
from base import Missing

sys.setrecursionlimit(30000)

BUILTIN = {
    "ANY": lambda c: True,
    "ASCII_DIGIT": lambda c: "0" <= c <= "9",
    "ASCII_NONZERO_DIGIT": lambda c: "1" <= c <= "9",
    "ASCII_ALPHA": lambda c: "a" <= c <= "z" or "A" <= c <= "Z",
    "ASCII_ALPHA_LOWER": lambda c: "a" <= c <= "z",
    "ASCII_ALPHA_UPPER": lambda c: "A" <= c <= "Z",
    "ASCII_ALPHANUMERIC": lambda c: c.isascii() and c.isalnum(),
    "ASCII": lambda c: ord(c) < 128,
}
TOK = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|(?P<str>\^?"(?:\\.|[^"\\])*")|(?P<chr>'(?:\\.[^']*|[^'\\])')|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<rep>\{\s*\d*\s*,?\s*\d*\s*\})|(?P<op>\.\.|[=~|()!&?*+{}@$_])""", re.S)


def unesc(s):
    return re.sub(r"\\(u\{([0-9a-fA-F]+)\}|x([0-9a-fA-F]{2})|.)", lambda m: chr(int(m.group(2) or m.group(3), 16)) if m.group(2) or m.group(3) else {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(m.group(1), m.group(1)), s)


class Grammar:
    def __init__(self, text, name=""):
        self.name = name
        self.rules = {}
        toks, i = [], 0
        while i < len(text):
            m = TOK.match(text, i)
            if not m: raise Missing(f"unreadable grammar {name} at {text[i:i + 30]!r}")
            if m.lastgroup: toks.append((m.lastgroup, m.group(m.lastgroup)))
            i = m.end()
        self.t, self.i = toks, 0
        while self.i < len(toks):
            n = self.take("id")
            self.op("=")
            mod = ""
            k, v = self.t[self.i]
            if v in ("_", "@", "$", "!") and k in ("op", "id"):
                mod = v
                self.i += 1
            self.op("{")
            e = self.expr()
            self.op("}")
            self.rules[n] = (mod, e)
        if not self.rules: raise Missing(f"no rules in {name}")

    def peek(self): return self.t[self.i] if self.i < len(self.t) else (None, None)

    def take(self, k):
        a, v = self.peek()
        if a != k: raise Missing(f"{self.name}: {k} expected, {v} found")
        self.i += 1
        return v

    def op(self, o):
        a, v = self.peek()
        if v != o: raise Missing(f"{self.name}: {o} expected, {v} found")
        self.i += 1

    def expr(self):
        if self.peek()[1] == "|": self.i += 1
        alts = [self.seq()]
        while self.peek()[1] == "|":
            self.i += 1
            alts.append(self.seq())
        return alts[0] if len(alts) == 1 else ("alt", alts)

    def seq(self):
        xs = [self.post()]
        while self.peek()[1] == "~":
            self.i += 1
            xs.append(self.post())
        return xs[0] if len(xs) == 1 else ("seq", xs)

    def post(self):
        k, v = self.peek()
        if v in ("!", "&"):
            self.i += 1
            return ("not" if v == "!" else "and", self.post())
        if v == "(":
            self.i += 1
            e = self.expr()
            self.op(")")
        elif k == "str":
            self.i += 1
            e = ("istr", unesc(v[2:-1])) if v[0] == "^" else ("str", unesc(v[1:-1]))
        elif k == "chr":
            self.i += 1
            lo = unesc(v[1:-1])
            self.op("..")
            e = ("range", lo, unesc(self.take("chr")[1:-1]))
        elif k == "id":
            self.i += 1
            e = ("ref", v)
        else: raise Missing(f"{self.name}: unexpected {v}")
        while True:
            k, v = self.peek()
            if v == "?": e = ("rep", e, 0, 1)
            elif v == "*": e = ("rep", e, 0, None)
            elif v == "+": e = ("rep", e, 1, None)
            elif k == "rep":
                b = re.sub(r"[{}\s]", "", v)
                lo, _, hi = b.partition(",")
                e = ("rep", e, int(lo or 0), (int(hi) if hi else None) if "," in b else int(lo))
            else: return e
            self.i += 1

    # ---- parsing expressions
    def parse(self, rule, text):
        """(tree, reached) or None; tree = Node of `rule`; reached: set of (rule, path) alternatives used in it"""
        return Run(self, text).top(rule)

    def walk(self, e, path=()):
        """all sub-expressions with their positions"""
        yield path, e
        if e[0] in ("alt", "seq"):
            for i, x in enumerate(e[1]): yield from self.walk(x, path + (i,))
        elif e[0] in ("rep", "not", "and"): yield from self.walk(e[1], path + (0,))

    def refs(self, e): return [x[1] for _, x in self.walk(e) if x[0] == "ref"]


class Node:
    __slots__ = ("rule", "lo", "hi", "kids", "text")
    def __init__(self, rule, lo, hi, kids, text): self.rule, self.lo, self.hi, self.kids, self.text = rule, lo, hi, kids, text
    def __repr__(self): return f"{self.rule}({', '.join(map(repr, self.kids))})" if self.kids else f"{self.rule}:{self.text!r}"
    def all(self):
        yield self
        for k in self.kids: yield from k.all()


class Run:
    def __init__(self, g, text):
        self.g, self.s = g, text
        self.memo = {}
        self.far = 0

    def top(self, rule):
        r = self.rule(rule, 0, False)
        return r and (r[1][0] if r[1] else None, r[2])

    def skip(self, i):
        """implicit whitespace and comments between the parts of a non-atomic rule: (position, used)"""
        g, used = self.g.rules, frozenset()
        while True:
            n = i
            for w in ("WHITESPACE", "COMMENT"):
                while w in g:
                    r = self.rule(w, n, True)
                    if not r or r[0] == n: break
                    n, used = r[0], used | r[2]
            if n == i: return n, used
            i = n

    def rule(self, name, i, atomic):
        if name == "SOI": return (i, [], frozenset()) if i == 0 else None
        if name == "EOI": return (i, [Node("EOI", i, i, [], "")], frozenset()) if i == len(self.s) else None
        if name in BUILTIN:
            return (i + 1, [], frozenset()) if i < len(self.s) and BUILTIN[name](self.s[i]) else None
        if name not in self.g.rules: raise Missing(f"grammar rule {name}")
        k = (name, i, atomic)
        if k in self.memo: return self.memo[k]
        self.memo[k] = None
        mod, e = self.g.rules[name]
        at = True if mod in ("@", "$") else False if mod == "!" else atomic
        r = self.ev(e, i, at, name, ())
        if r:
            j, kids, used = r
            if mod == "_": out = kids
            elif mod == "@": out = [Node(name, i, j, [], self.s[i:j])]
            else: out = [Node(name, i, j, kids, self.s[i:j])]
            if atomic and mod == "" and name not in ("WHITESPACE", "COMMENT"): pass
            r = (j, out, used | {(name, ())})
        self.memo[k] = r
        return r

    def ev(self, e, i, at, rn, path):
        self.far = max(self.far, i)
        k = e[0]
        s = self.s
        here = frozenset([(rn, path)])
        if k == "str": return (i + len(e[1]), [], here) if s.startswith(e[1], i) else None
        if k == "istr": return (i + len(e[1]), [], here) if s[i:i + len(e[1])].lower() == e[1].lower() else None
        if k == "range": return (i + 1, [], here) if i < len(s) and e[1] <= s[i] <= e[2] else None
        if k == "ref":
            r = self.rule(e[1], i, at)
            return r and (r[0], r[1], r[2] | here)
        if k == "seq":
            kids, used = [], here
            for n, x in enumerate(e[1]):
                j, u = (i, used) if n == 0 or at else self.skip(i)
                r = self.ev(x, j, at, rn, path + (n,))
                if not r: return None
                i, kids, used = r[0], kids + r[1], used | r[2] | u
            return i, kids, used
        if k == "alt":
            for n, x in enumerate(e[1]):
                r = self.ev(x, i, at, rn, path + (n,))
                if r: return r[0], r[1], r[2] | here
            return None
        if k == "rep":
            kids, used, n = [], here, 0
            while e[3] is None or n < e[3]:
                j, u = (i, used) if n == 0 or at else self.skip(i)
                r = self.ev(e[1], j, at, rn, path + (0,))
                if not r: break
                n += 1
                i, kids, used = r[0], kids + r[1], used | r[2] | u
                if r[0] == j and e[3] is None: break
            return (i, kids, used | frozenset([(rn, path + (f"x{min(n, 2)}",))])) if n >= e[2] else None
        if k in ("not", "and"):
            r = self.ev(e[1], i, at, rn, path + (0,))
            return (i, [], here) if bool(r) == (k == "and") else None
        raise Missing(f"grammar construct {k}")


def load(repo):
    """the grammar named by the #[grammar = "..."] attribute of the library"""
    src = os.path.join(repo, "noodle", "src")
    for d, _, fs in os.walk(src):
        for f in sorted(fs):
            if f.endswith(".rs"):
                t = open(os.path.join(d, f), encoding="utf-8").read()
                m = re.search(r'#\[grammar\s*=\s*"([^"]+)"\]', t)
                if m:
                    p = os.path.join(src, m.group(1))
                    if not os.path.exists(p): raise Missing(f"grammar file {m.group(1)}")
                    return Grammar(open(p, encoding="utf-8").read(), os.path.relpath(p, repo))
                m = re.search(r'#\[grammar_inline\s*=\s*(?:r#*)?"(.*?)"#*\]', t, re.S)
                if m: return Grammar(m.group(1), os.path.relpath(os.path.join(d, f), repo))
    raise Missing("the #[grammar] attribute of the query parser")
