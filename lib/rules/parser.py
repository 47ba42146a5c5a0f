"""From the text of a query to its terms (noodle_grammar.pest, parser.rs): C04, C17-C22.

The grammar is read from the .pest file and interpreted (lib/grammar.py) to see which parse trees query lines get. The
parser's own code is then analysed on such trees: operands are opaque (any term whatever), numbers and letters symbolic,
so what is established about an operator holds for all operands; recursion on operands is the induction hypothesis."""
from base import *
from models import it, fork
import grammar, itertools
import dumps as _d

_g = {}


def gram():
    if "g" not in _g: _g["g"] = grammar.load(_d.REPO)
    return _g["g"]


# ---------------------------------------------------------------- parse trees as values
def pair(n, label, opnds, num):
    """term for a tree node; the nodes in `opnds` (id -> index) become opaque"""
    if id(n) in opnds: return mk("pair", n.rule, f"opnd{opnds[id(n)]}", n.text)
    if n.rule in ("EOI",): return mk("pair", "EOI", label, "")
    return mk("pair", n.rule, label, n.text, *[pair(k, f"{label}.{i}", opnds, num) for i, k in enumerate(n.kids)])


def is_opnd(v): return v.op == "pair" and v.a[1].startswith("opnd")


def text_sym(p): return mk("text", p)


def number_sym(p): return mk("sym", "u", "number", p.a[1])


class Tree:
    """pest pairs, their text, and sets of symbols"""
    def __init__(self, p, parse=None, asts=True, nums=None):
        self.p, self.parse, self.asts, self.nums = p, parse, asts, nums or {}
        self.rule = p.adts.get("parser::Rule")
        if not self.rule: raise Missing("parser::Rule")
        self.idx = {v["name"]: i for i, v in enumerate(self.rule["variants"])}

    def mkast(self, a0): return mk("ast", a0.a[1], a0.a[0])

    def rulev(self, name):
        if name not in self.idx: raise Missing(f"Rule::{name}")
        return mk("adt", "parser::Rule", self.idx[name], name)

    def val(self, st, v):
        n = 0
        while v.op in ("ref", "&") and n < 5:
            v = v.a[0] if v.op == "&" else st.load(v.a[0], v.a[1])
            n += 1
        return v

    def on_call(self, c):
        st, n, e = c.st, norm(c.path), self.eng
        f = self.p.fns[c.key] if c.key is not None else None
        if re.search(r"pest::Parser.*::parse$|pest::parser::Parser.*::parse$", n) and self.parse:
            return self.parse(self, c, st)
        a0 = self.val(st, c.args[0]) if c.args else None
        if a0 is not None and a0.op == "pair":
            m = n.rsplit("::", 1)[1]
            if f is not None and is_opnd(a0) and f.d["crate"] == self.p.crate:
                t = self.p.tys[f.locals[0][0]]["s"]
                if "parser::Ast" in t:
                    x = self.mkast(a0)
                    if self.asts == "class": x = mk("adt", "parser::Ast", 0, "CharClass", mk("sym", "set", a0.a[1]))
                    st.setg("used", (st.g("used") or EMPTY) | {a0.a[1]})
                    if t.startswith("std::option::Option<"): return [(st, some(x))]
                    if t.startswith("std::result::Result<"): return [(st, adt("std::result::Result", 0, "Ok", x))]
                    return [(st, x)]
            if "pest::iterators" in n or "iterators::Pair" in n:
                if m == "as_rule": return [(st, self.rulev(a0.a[0]))]
                if m == "as_str": return [(st, text_sym(a0))]
                if m == "into_inner":
                    if is_opnd(a0): return [(st, e.fresh(st, c, "kids"))]
                    return [(st, it("vec", mk("vec", *a0.a[3:]), C(0), C(len(a0.a) - 3)))]
                if m in ("clone", "eq"): return [(st, a0)] if m == "clone" else None
            if m == "clone": return [(st, a0)]
        if a0 is not None and a0.op == "it" and "pest::iterators::Pairs" in n or n.endswith("Pairs::peek"):
            m = n.rsplit("::", 1)[1]
            if m in ("next", "next_back"):
                import models
                return models.nxt(e, c, m == "next_back")
            if m == "peek":
                k, b, lo, hi = a0.a
                y, z = fork(e, c, lt(lo, hi))
                return ([(y, some(seqget(b, lo)))] if y else []) + ([(z, NONE)] if z else [])
            if m == "clone": return [(st, a0)]
            if m == "into_iter": return [(st, a0)]
            if m in ("len", "count"): return [(st, sub(a0.a[3], a0.a[2]))]
            if m == "size_hint": return [(st, tup(sub(a0.a[3], a0.a[2]), some(sub(a0.a[3], a0.a[2]))))]
        if a0 is not None and a0.op == "text":
            m = n.rsplit("::", 1)[1]
            q = a0.a[0]
            if m == "parse":
                N = number_sym(q)
                return [(st, adt("std::result::Result", 0, "Ok", self.nums.get(N, N)))] if q.a[0] == "number" else None
            if m == "chars":
                k = len(q.a[2])
                return [(st, it("vec", mk("vec", *[mk("chr", q.a[1], i) for i in range(k)]), C(0), C(k)))]
            if m in ("to_owned", "to_string", "into", "from", "as_str", "deref", "as_ref", "borrow", "clone"): return [(st, a0)]
        if re.search(r"Option::(cloned|copied)$", n) and a0 is not None and a0.op == "adt": pass
        # sets of symbols
        if n.endswith("words::Char as std::convert::From>::from") or re.search(r"words::Char as std::convert::From<char>>::from", c.path):
            return [(st, mk("char", self.val(st, c.args[0])))]
        if "words::CharBitset" in c.path:
            m = n.rsplit("::", 1)[1]
            if m == "from": return [(st, mk("cset", "one", self.val(st, c.args[0])))]
            if m == "from_range": return [(st, mk("cset", "range", *[self.val(st, x) for x in c.args[:2]]))]
            if m in ("union_with", "difference_with"):
                st.store_ref(c.args[0], mk("cset", "or" if m[0] == "u" else "diff", st.deref(c.args[0]), self.val(st, c.args[1])))
                return [(st, UNIT)]
            if m == "invert":
                st.store_ref(c.args[0], mk("cset", "inv", st.deref(c.args[0])))
                return [(st, UNIT)]
            if m == "clone": return [(st, self.val(st, c.args[0]))]
        if "From<words::Char> for words::CharBitset" in c.path: return [(st, mk("cset", "one", self.val(st, c.args[0])))]
        # analyses of finished terms are not followed
        if f is not None and f.d["crate"] == self.p.crate and f.argc and self.asts is True:
            t = self.p.tys[f.locals[1][0]]["s"]
            if t in ("&parser::Ast", "&parser::ExpressionAst") and not n.endswith("::clone"): return e.opaque_call(c)
        return None


# ---------------------------------------------------------------- terms as meanings
LET, PUN, SPC = (1 << 26) - 1, 1 << 26, 1 << 27


def set_eval(v, bit, asg):
    """membership of a symbol in a set expression; bit: 'l' any letter, or a concrete bit number"""
    if v.op == "adt":
        x = v.a[3]
        if x.op != "c": raise Missing(f"set {show(v)[:80]}")
        m = x.a[0]
        if bit == "l":
            if m & LET not in (0, LET): raise Missing(f"a constant set with some letters only: {m:x}")
            return bool(m & LET)
        return bool(m >> bit & 1)
    if v.op == "cset":
        k = v.a[0]
        if k == "or": return set_eval(v.a[1], bit, asg) or set_eval(v.a[2], bit, asg)
        if k == "diff": return set_eval(v.a[1], bit, asg) and not set_eval(v.a[2], bit, asg)
        if k == "inv": return set_eval(v.a[1], bit, asg) != (bit == "l" or bit < 26)
        if k == "one":
            w = v.a[1]
            if w.op == "char": w = w.a[0]
            if w.op == "adt" and w.a[3].op == "c": return bit != "l" and w.a[3].a[0] == bit
            return asg.get(("one", w), False)
        return asg.get((k,) + tuple(v.a[1:]), False)
    return asg.get(("sym", v), False)


def atoms(v, out):
    if v.op == "cset":
        if v.a[0] in ("or", "diff", "inv"):
            for x in v.a[1:]: atoms(x, out)
        elif v.a[0] == "one":
            w = v.a[1].a[0] if v.a[1].op == "char" else v.a[1]
            if not (w.op == "adt" and w.a[3].op == "c"): out.add(("one", w))
        else: out.add((v.a[0],) + tuple(v.a[1:]))
    elif v.op != "adt": out.add(("sym", v))
    return out


def same_set(a, b):
    at = sorted(atoms(a, set()) | atoms(b, set()), key=str)
    if len(at) > 6: return a is b
    for bits in itertools.product((False, True), repeat=len(at)):
        asg = dict(zip(at, bits))
        for bit in ("l", 26, 27):
            if set_eval(a, bit, asg) != set_eval(b, bit, asg): return False
    return True


def cs(mask): return mk("adt", "words::CharBitset", 0, "CharBitset", C(mask))


def flds(p, v):
    a = p.adts[v.a[0]]["variants"][v.a[1]]
    return {(f if isinstance(f, str) else f[0] if isinstance(f, list) else f.get("name")): x for f, x in zip(a["fields"], v.a[3:])}


def seqof(v):
    if v.op == "vec": return list(v.a)
    if v.op == "push": return seqof(v.a[0]) + [v.a[1]]
    if v.op == "subseq" and v.a[1].op == "c" and v.a[2].op == "c": return seqof(v.a[0])[v.a[1].a[0]:v.a[2].a[0]]
    raise Missing(f"sequence of unknown length {show(v)[:120]}")


def denote(p, v):
    while v.op == "box": v = v.a[0]
    if v.op == "ast": return ("opnd", v.a[0])
    if v.op != "adt" or v.a[0] != "parser::Ast": return ("?", show(v)[:160])
    n, f = v.a[2], flds(p, v)
    x = list(f.values())
    if n == "CharClass": return ("set", x[0])
    if n in ("Sequence", "Alternatives", "Substring"):
        xs = [denote(p, y) for y in seqof(x[0])]
        if n == "Sequence":
            o = []
            for y in xs: o += y[1] if y[0] == "seq" else [y]
            return o[0] if len(o) == 1 else ("seq", o)
        return ("alt" if n[0] == "A" else "substring", xs)
    if n == "Repetition":
        t = denote(p, f["term"])
        lo, hi = f["min"], f["max"]
        if lo is C(1) and hi is some(C(1)): return t
        return ("rep", t, lo, hi)
    if n == "Anagram":
        k = f["kind"]
        return ("anagram", k.a[2] if k.op == "adt" else show(k), tuple(seqof(f["bank"])) if f["bank"].op == "vec" else show(f["bank"])[:100], tuple(k.a[3:]) if k.op == "adt" else ())
    return ("?", n)


def same(a, b):
    if a[0] != b[0]: return False
    if a[0] == "set": return same_set(a[1], b[1])
    if a[0] in ("seq", "alt", "substring"): return len(a[1]) == len(b[1]) and all(map(same, a[1], b[1]))
    if a[0] == "rep": return same(a[1], b[1]) and a[2] is b[2] and a[3] is b[3]
    return a == b


def shown(a):
    k = a[0]
    if k == "set": return show(a[1])[:60]
    if k in ("seq", "alt", "substring"): return f"{k}({', '.join(shown(x) for x in a[1])})"
    if k == "rep": return f"{shown(a[1])}{{{show(a[2])},{show(a[3])}}}"
    if k == "opnd": return a[1]
    return " ".join(str(show(x) if isinstance(x, V) else x) for x in a)[:160]


# ---------------------------------------------------------------- operators
OPERANDS = ["b", "B", ".", "'", "_", "[bc]", "[^b-d]", "(bc)", "(b|c)", "(b?)", "<bc>", "<bc+>", "<bc->", "<bc+1>", "<bc-1>", "(bc:^)", "(bc:-)", "(bc:+)", "3"]
ALLW = lambda: ("rep", ("set", cs((1 << 28) - 1)), C(0), NONE)
X = lambda i: ("opnd", f"opnd{i}")


def seqd(*xs): return ("seq", list(xs)) if len(xs) != 1 else xs[0]


# (name, template with operands {0}.. and numbers N M, meaning from (numbers))
OPERATORS = [
    ("juxtaposition", "{0}{1}", lambda n: seqd(X(0), X(1))),
    ("single term", "{0}", lambda n: X(0)),
    ("?", "{0}?", lambda n: ("rep", X(0), C(0), some(C(1)))),
    ("*", "{0}*", lambda n: ("rep", X(0), C(0), NONE)),
    ("+", "{0}+", lambda n: ("rep", X(0), C(1), NONE)),
    ("{n}", "{0}{{N}}", lambda n: ("rep", X(0), n[0], some(n[0]))),
    ("{n,}", "{0}{{N,}}", lambda n: ("rep", X(0), n[0], NONE)),
    ("{,m}", "{0}{{,N}}", lambda n: ("rep", X(0), C(0), some(n[0]))),
    ("{n,m}", "{0}{{N,M}}", lambda n: ("rep", X(0), n[0], some(n[1]))),
    ("alternatives of two", "{0}|{1}", lambda n: ("alt", [X(0), X(1)])),
    ("alternatives of three", "{0}|{1}|{2}", lambda n: ("alt", [X(0), X(1), X(2)])),
    ("alternative of sequences", "{0}{1}|{2}", lambda n: ("alt", [seqd(X(0), X(1)), X(2)])),
    ("group of alternatives", "({0}|{1}){2}", lambda n: seqd(("alt", [X(0), X(1)]), X(2))),
    ("group", "({0}{1})", lambda n: seqd(X(0), X(1))),
    ("repeated group", "({0}{1})*", lambda n: ("rep", seqd(X(0), X(1)), C(0), NONE)),
    ("subset", "({0}{1}:-)", lambda n: seqd(*[("rep", X(i), C(0), some(C(1))) for i in (0, 1)])),
    ("subset of one", "({0}:-)", lambda n: ("rep", X(0), C(0), some(C(1)))),
    ("superset", "({0}{1}:+)", lambda n: seqd(ALLW(), X(0), ALLW(), X(1), ALLW())),
    ("superset of one", "({0}:+)", lambda n: seqd(ALLW(), X(0), ALLW())),
    ("substring", "({0}{1}:^)", lambda n: ("substring", [X(0), X(1)])),
    ("substring of one", "({0}:^)", lambda n: ("substring", [X(0)])),
]
BANKS = ["a", "ab", "aab"]
ANAGRAMS = [("anagram", "<{b}>", "Standard", 0), ("superanagram", "<{b}+>", "Super", 0), ("subanagram", "<{b}->", "Sub", 0), ("transadd", "<{b}+{n}>", "TransAdd", 1), ("transdelete", "<{b}-{n}>", "TransDelete", 1)]


def fill(tpl, ops, nums=("4", "7")):
    """text of a template and the spans of its operands"""
    out, spans, i = "", {}, 0
    for m in re.finditer(r"\{(\d)\}|\{\{|\}\}|N|M|.", tpl):
        t = m.group(0)
        if m.group(1) is not None:
            o = ops[int(m.group(1))]
            spans[int(m.group(1))] = (len(out), len(out) + len(o))
            out += o
        else: out += {"{{": "{", "}}": "}", "N": nums[0], "M": nums[1]}.get(t, t)
    return out, spans


def opnd_nodes(tree, spans):
    """operand index of the outermost node inside each span; None if there is not exactly one"""
    out = {}
    for i, (lo, hi) in spans.items():
        found = []

        def go(n):
            if n.lo >= lo and n.hi <= hi and n.rule not in ("EOI",) and n.hi > n.lo:
                found.append(n)
                return
            for k in n.kids: go(k)
        for k in tree.kids: go(k)
        if len(found) != 1: return None
        out[id(found[0])] = i
    return out


def skeleton(n, opnds):
    if id(n) in opnds: return f"[{opnds[id(n)]}:{n.rule}]"
    return f"{n.rule}({','.join(skeleton(k, opnds) for k in n.kids)})" + ("" if n.kids else f"'{n.text}'")


def expression_tree(line):
    r = gram().parse("expression", line)
    return r and r[0]


def parse_ok(t):
    def f(m, c, st):
        st.setg("parsed", True)
        return [(st, adt("std::result::Result", 0, "Ok", it("vec", mk("vec", t), C(0), C(1))))]
    return f


def run_expression(tree, opnds, asts=True, nums=None):
    """exits of ExpressionAst::new_from_str on a line with that parse tree: (state, Ok/Err, value)"""
    p = prog("lib")
    fn = fn1(p, r"^parser::ExpressionAst::new_from_str$")
    t = pair(tree, "t", opnds, None)
    m = Tree(p, parse_ok(t), asts, nums)
    e = Engine(p, [m], opaque=lambda x: bool(re.search(r"fmt::|_print$|pest::error|check_line", x)), budget=300000, exact=True, maxparts=3000)
    e.depth = 12
    return p, fn, e, e.start(fn, [mk("line")])


def result(v):
    return v.a[2] if v.op == "adt" else None


def root_of(p, v):
    x = v.a[3]
    return flds(p, x)["root"] if x.op == "adt" else None


def c17(rep, tier):
    rep.rule("grammar", "a line made of an operator and operands of any kind is parsed as that operator applied to those operands")
    rep.rule("operator", "the term built for an operator has the documented meaning, whatever its operands and numbers")
    p = prog("lib")
    done, jobs = {}, []
    for name, tpl, mean in OPERATORS:
        k = len(set(re.findall(r"\{(\d)\}", tpl)))
        for o in OPERANDS:
            others = [x for x in (["c", "d"] if tier == "quick" else ["c", "(x|y)", "[xy]"])]
            combos = [[o] + others, [others[0], o] + others[1:], [others[0], others[1], o]][:k]
            for ops in combos:
                if name in ("juxtaposition", "group", "subset", "superset", "substring", "alternative of sequences", "repeated group") and ops[0] == "3" == ops[1]: continue
                line, spans = fill(tpl, ops)
                tree = expression_tree(line)
                on = tree and opnd_nodes(tree, spans)
                if name == "single term" and tree is not None and on is not None and len(on) == 1 and tree.kids and id(tree.kids[0]) in on:
                    # the operand is the whole expression: look one level further down, if there is one
                    inner = tree.kids[0]
                    if len(inner.kids) == 1: on = {id(inner.kids[0]): 0}
                ok = tree is not None and on is not None
                rep.ob("grammar", f"{name} with operand {o}", ok, gram().name, f"`{line}` is {'not accepted' if tree is None else 'parsed as ' + repr(tree)[:200]}")
                rep.count("lines_parsed")
                if not ok or (tree.kids and id(tree.kids[0]) in on): continue
                sk = skeleton(tree, on)
                if sk in done: continue
                done[sk] = 1
                jobs.append(lambda r, a=(name, line, tree, on, mean): judge(r, p, *a))
    for name, tpl, kind, nn in ANAGRAMS:
        for b in BANKS:
            for num in (["1"] if nn else [""]):
                line = tpl.format(b=b, n=num)
                tree = expression_tree(line)
                rep.ob("grammar", f"{name} of {len(b)} letters", tree is not None, gram().name, f"`{line}` is not accepted")
                if tree is not None: jobs.append(lambda r, a=(name, kind, nn, line, b, tree): anagram(r, p, *a))
    single(rep, p, tier, jobs)
    rep.each(jobs, lambda r, j: j(r))


def numbers(tree, label="t"):
    """number symbols of a tree in order of their text"""
    out = []
    if tree.rule == "number": out.append((tree.lo, mk("sym", "u", "number", label)))
    for i, k in enumerate(tree.kids): out += numbers(k, f"{label}.{i}")
    return [x for x in sorted(out, key=lambda x: x[0])]


def judge(rep, p, name, line, tree, on, mean, rule="operator"):
    spans = [n for n in tree.all() if id(n) in on]
    nums = [s for lo, s in numbers(tree) if not any(n.lo <= lo < n.hi for n in spans)]
    p, fn, e, res = run_expression(tree, on)
    rep.count("abstract_steps", e.steps)
    rep.count("terms_analysed")
    oks = [(s, v) for s, v in res if result(v) == "Ok"]
    unk = [(s, v) for s, v in res if result(v) is None]
    rep.ob(rule, f"{name}: the line is accepted", bool(oks) and not unk, fn.span, f"`{line}`: no expression is returned")
    for s, v in oks:
        try: got = denote(p, root_of(p, v))
        except (Missing, AttributeError) as x: got = ("?", str(x))
        want = mean(nums)
        rep.ob(rule, f"{name}: the term has the documented meaning", same(got, want), fn.span, f"`{line}` becomes {shown(got)[:300]} instead of {shown(want)[:300]}", s.path(30))


def anagram(rep, p, name, kind, nn, line, b, tree):
    nums = [x for _, x in numbers(tree)]
    for k in ((0, 1, len(b), len(b) + 2) if nn else (None,)):
        p, fn, e, res = run_expression(tree, {}, nums=None if k is None else {nums[0]: C(k)})
        rep.count("abstract_steps", e.steps)
        oks = [(s, v) for s, v in res if result(v) == "Ok"]
        rep.ob("operator", f"{name}: the line is accepted", bool(oks), fn.span, f"`{line}`")
        for s, v in oks:
            try: got = denote(p, root_of(p, v))
            except (Missing, AttributeError) as x: got = ("?", str(x))
            ok = got[0] == "anagram" and got[1] == kind and len(got[2]) == len(b) and all(x.op == "char" and x.a[0].op == "chr" and x.a[0].a[1] == i for i, x in enumerate(got[2]))
            if ok and nn: ok = len(got[3]) == 1 and got[3][0] in (nums[0], C(k), C(min(k, len(b)) if kind == "TransDelete" else k))
            rep.ob("operator", f"{name}: its kind, letters and number are kept", ok, fn.span, f"`{line}` with number {k} becomes {shown(got)[:300]}", s.path(30))


def single(rep, p, tier, jobs):
    """terms without operands"""
    one = lambda lab, i=0: mk("cset", "one", mk("chr", lab, i))
    E = cs(0)
    for line, what in [("a", "letter"), ("_", "underscore"), ("'", "apostrophe"), (".", "dot"), ("5", "number"), ("[a]", "class"), ("[ab]", "class"), ("[a-c]", "class"), ("[a-cx]", "class"), ("[xa-c]", "class"), ("[^a]", "class"),
                       ("[^a-cx]", "class"), ("[^ab]", "class"), ("[a_]", "class"), ("[']", "class"), ("[^_]", "class"), ("[a-cx-z]", "class"), ("5 7", "number")]:
        tree = expression_tree(line)
        rep.ob("grammar", f"{what} `{line}`", tree is not None, gram().name, f"`{line}` is not accepted")
        if tree is None: continue
        want = []

        def find(n, lab):
            if n.rule == "number":
                N = mk("sym", "u", "number", lab)
                want.extend([("rep", ("set", cs(LET)), N, some(N)), ("set", cs(SPC))])
            elif n.rule == "class":
                s = None
                inv = "^" in n.text
                for i, k in enumerate(n.kids):
                    if k.rule == "invert" or k.text == "^": continue
                    l = f"{lab}.{i}"
                    x = mk("cset", "range", mk("chr", l, 0), mk("chr", l, 2)) if len(k.text) == 3 else mk("cset", "one", mk("chr", l, 0))
                    s = x if s is None else mk("cset", "or", s, x)
                want.append(("set", mk("cset", "inv", s) if inv else s))
            elif not n.kids and n.text and len(n.text) == 1: want.append(("set", cs(LET) if n.text == "." else mk("cset", "one", mk("chr", lab, 0))))
            else:
                for i, k in enumerate(n.kids): find(k, f"{lab}.{i}")
        find(tree, "t")
        jobs.append(lambda r, a=(f"{what} `{line}`", line, tree, {}, lambda n, want=want: seqd(*sum([w[1] if w[0] == "seq" else [w] for w in want], []))): judge(r, p, *a))


# ---------------------------------------------------------------- liveness of the grammar
class Gen:
    """short texts derivable from grammar expressions, ignoring predicates and order (candidates only)"""
    def __init__(self, g):
        self.g, self.m = g, {}
        for _ in range(12):
            old = {k: len(v) for k, v in self.m.items()}
            for n, (_, e) in g.rules.items(): self.m[n] = self.best(self.strs(e) + self.m.get(n, []))
            if old == {k: len(v) for k, v in self.m.items()}: break

    def best(self, xs): return sorted(dict.fromkeys(xs), key=lambda x: (len(x), x))[:6]

    BASE = {"ANY": ["x", "1"], "ASCII_DIGIT": ["1", "2"], "ASCII_ALPHA": ["a", "b"], "SOI": [""], "EOI": [""], "ASCII_ALPHANUMERIC": ["a", "1"], "ASCII_ALPHA_LOWER": ["a"], "ASCII_ALPHA_UPPER": ["A"], "ASCII": ["a"], "ASCII_NONZERO_DIGIT": ["1"]}

    def strs(self, e):
        k = e[0]
        if k in ("str", "istr"): return [e[1]]
        if k == "range": return [c for c in ("a", "1", e[1]) if e[1] <= c <= e[2]][:2]
        if k == "ref": return self.BASE[e[1]] if e[1] in self.BASE else self.m.get(e[1], [])
        if k == "alt": return self.best([x for a in e[1] for x in self.strs(a)[:3]])
        if k == "seq":
            o = [""]
            for x in e[1]:
                ys = self.strs(x)
                o = self.best([a + b for a in o for b in ys])
            return o
        if k == "rep":
            xs = self.strs(e[1])
            o = [""] if e[2] == 0 else []
            if e[3] is None or e[3] >= 1: o += [x * max(1, e[2]) for x in xs]
            return self.best(o)
        return [""]

    def using(self, e, rule, path, at, tgt, depth, seen):
        """texts of expression e (at position `at` of `rule`) whose derivation goes through tgt = (rule, path)"""
        k = e[0]
        if (rule, at) == tgt[:2]: return self.here(e, tgt[2])
        o = []
        if k == "ref":
            n = e[1]
            if n in self.g.rules and depth and seen.count(n) < 2 and tgt[0] in self.reach(n): o = self.using(self.g.rules[n][1], n, (), (), tgt, depth - 1, seen + (n,))
        elif k == "alt":
            for i, x in enumerate(e[1]): o += self.using(x, rule, path, at + (i,), tgt, depth, seen)
        elif k == "seq":
            for i, x in enumerate(e[1]):
                u = self.using(x, rule, path, at + (i,), tgt, depth, seen)
                if not u: continue
                cur = [""]
                for j, y in enumerate(e[1]): cur = [a + b for a in cur for b in (u if j == i else self.strs(y))][:60]
                o += cur
        elif k == "rep":
            u = self.using(e[1], rule, path, at + (0,), tgt, depth, seen)
            o += [x * max(1, e[2]) for x in u] + ([a + b for a in u for b in self.strs(e[1])[:2]] + [b + a for a in u for b in self.strs(e[1])[:2]] if e[3] is None or e[3] > 1 else [])
        return list(dict.fromkeys(o))[:80]

    def here(self, e, n):
        """n: wanted number of iterations of a repetition, or None"""
        if n is None: return self.strs(e)
        xs = self.strs(e[1])
        return [""] if n == 0 else xs if n == 1 else [a + b for a in xs for b in xs]

    def reach(self, n):
        k = ("r", n)
        if k not in self.m:
            seen, work = {n}, [n]
            while work:
                for x in self.g.refs(self.g.rules[work.pop()][1]):
                    if x in self.g.rules and x not in seen:
                        seen.add(x)
                        work.append(x)
            self.m[k] = seen
        return self.m[k]


def targets(g, start):
    """(rule, path, iterations or None, description) of every choice the grammar offers"""
    gen = Gen(g)
    live = gen.reach(start) | {n for n in ("WHITESPACE", "COMMENT") if n in g.rules}
    for n in sorted(live):
        e = g.rules[n][1]
        for path, x in g.walk(e):
            if any(q in ("not", "and") for q in kinds_above(e, path)): continue
            if x[0] == "alt":
                for i, y in enumerate(x[1]): yield n, path + (i,), None, f"{n}: alternative {i + 1}: {short(y)}"
            elif x[0] == "rep":
                for k in ([0] if x[2] == 0 else []) + ([1] if x[2] <= 1 else []) + ([2] if x[3] is None or x[3] > 1 else []):
                    yield n, path, k, f"{n}: {short(x)} {('absent', 'once', 'repeatedly')[k]}"
        yield n, (), None, f"{n}"


def kinds_above(e, path):
    o = []
    for i in path:
        o.append(e[0])
        e = e[1][i] if e[0] in ("alt", "seq") else e[1]
    return o


def short(e):
    k = e[0]
    if k in ("str", "istr"): return repr(e[1])
    if k == "range": return f"{e[1]!r}..{e[2]!r}"
    if k == "ref": return e[1]
    if k == "seq": return " ".join(short(x) for x in e[1])
    if k == "alt": return "(" + " | ".join(short(x) for x in e[1]) + ")"
    if k == "rep": return f"({short(e[1])}){'?' if e[2:] == (0, 1) else '*' if e[2:] == (0, None) else '+' if e[2:] == (1, None) else e[2:]}"
    return k + " " + short(e[1])


def witnesses(start="query"):
    g = gram()
    gen = Gen(g)
    out = []
    for n, path, k, what in targets(g, start):
        if n in ("WHITESPACE", "COMMENT"):
            e = gen.using(g.rules[n][1], n, (), (), (n, path, k), 3, ())
            cands = ["a" + w + "b" for w in e] + ["a" + w for w in e]
        else: cands = gen.using(g.rules[start][1], start, (), (), (n, path, k), 14, (start,))
        mark = (n, path) if k is None else (n, path + (f"x{k}",))
        # other spellings of the same derivation
        more = [c + t for c in cands[:20] for t in ("b", "!_", "1")] + [c.replace("a", x) for c in cands[:30] for x in ("ab", "_", ".")]
        hit = None
        for c in cands + more:
            if any(ord(x) > 126 for x in c): continue
            r = g.parse(start, c)
            if r and mark in r[1]:
                hit = (c, r[0])
                break
        out.append((what, hit, len(cands)))
    return out


def c18(rep, tier):
    rep.rule("live", "every alternative, option and repetition the query grammar offers is used in the parse of some query line")
    rep.rule("kept", "every letter, number, set and bank of an accepted expression is part of the parsed expression")
    p = prog("lib")
    g = gram()
    done, jobs = set(), []
    for what, hit, n in witnesses():
        rep.ob("live", what, hit is not None, g.name, f"none of {n} candidate lines makes the parser use it: it can never match")
        rep.count("grammar_choices")
        if hit is None: continue
        lines = [hit[0]]
        for c in lines:
            tree = expression_tree(c)
            if tree is None: continue
            sk = re.sub(r"'[^']*'", "", skeleton(tree, {}))
            if sk in done: continue
            done.add(sk)
            jobs.append((c, tree))
    for name, tpl, _ in OPERATORS:
        for o in OPERANDS[6:] if tier == "thorough" else OPERANDS[6::3]:
            c, _ = fill(tpl, [o, "x", "(y|z)"])
            tree = expression_tree(c)
            if tree is not None: jobs.append((c, tree))
    rep.each(jobs, lambda r, j: kept(r, p, *j))


def leaves_of(n, label="t"):
    if n.rule.startswith("option"): return
    if not n.kids:
        if n.text.strip("^"): yield n, label
    for i, k in enumerate(n.kids): yield from leaves_of(k, f"{label}.{i}")


def labels(v, out, seen):
    if not isinstance(v, V):
        if isinstance(v, tuple):
            for x in v: labels(x, out, seen)
        return
    if v.id in seen: return
    seen.add(v.id)
    if v.op in ("chr",): out.add(v.a[0])
    if v.op == "sym" and len(v.a) > 2 and v.a[1] == "number": out.add(v.a[2])
    for x in v.a: labels(x, out, seen)


def kept(rep, p, line, tree):
    p, fn, e, res = run_expression(tree, {})
    rep.count("abstract_steps", e.steps)
    rep.count("lines_followed")
    oks = [(s, v) for s, v in res if result(v) == "Ok"]
    kind = re.sub(r"'[^']*'|[()]", " ", skeleton(tree.kids[0], {})).split()
    rep.ob("kept", "accepted lines have an expression", bool(oks), fn.span, f"`{line}`: no exit of the parser returns an expression")
    for s, v in oks:
        got = set()
        try: labels(root_of(p, v), got, set())
        except Exception: pass
        for n, lab in leaves_of(tree):
            if n.rule == "dot" or n.text == ".": continue
            up = lab.rsplit(".", 1)[0]
            clamped = n.rule == "number" and "<" in line
            rep.ob("kept", f"{n.rule} in {parent(tree, n)}", lab in got or up in got or clamped, fn.span, f"`{line}`: {n.rule} {n.text!r} is not part of the parsed expression", s.path(30))


def parent(t, n):
    for k in t.kids:
        if k is n: return t.rule
        r = parent(k, n)
        if r: return r


# ---------------------------------------------------------------- whole queries
class Lines(Tree):
    """the lines of a query: symbolic texts, a chosen parse tree (or error) for each"""
    def __init__(self, p, trees, **kw):
        self.trees = trees
        super().__init__(p, self.parse_line, **kw)

    def line_of(self, v):
        """(index, macro replacements) of a line text"""
        reps = []
        while True:
            v0 = v
            while v.op in ("&", "*", "box"): v = v.a[0]
            if v.op == "repl":
                reps.append((v.a[1], v.a[2]))
                v = v.a[0]
            elif v.op == "trim": v = v.a[0]
            if v.op == "ln": return v.a[0], tuple(reps[::-1])
            if v is v0: return None, ()

    def parse_line(self, m, c, st):
        r = self.val(st, c.args[0])
        i, reps = self.line_of(self.val(st, c.args[1]))
        if i is None: return None
        st.setg("texts", (st.g("texts") or ()) + ((i, reps, r.a[2] if r.op == "adt" else "?"),))
        t = self.trees[i]
        if t == "error": return [(st, adt("std::result::Result", 1, "Err", mk("err", mk("ln", i))))]
        if t is None: t = self.trees[i]
        return [(st, adt("std::result::Result", 0, "Ok", it("vec", mk("vec", t), C(0), C(1))))]

    def on_call(self, c):
        st, n, e = c.st, norm(c.path), self.eng
        m = n.rsplit("::", 1)[1]
        a0 = self.val(st, c.args[0]) if c.args else None
        if a0 is not None:
            if a0.op == "*" and a0.a[0].op in ("ln", "input", "trim", "repl", "text"): a0 = a0.a[0]
            if a0.op == "input" and m in ("split", "split_terminator", "split_inclusive"):
                st.setg("seps", m + ":" + self.separators(c, c.args[1]))
                return [(st, it("vec", mk("vec", *[mk("ln", i) for i in range(len(self.trees))]), C(0), C(len(self.trees))))]
            if a0.op == "input" and m == "lines":
                st.setg("seps", "lines:")
                return [(st, it("vec", mk("vec", *[mk("ln", i) for i in range(len(self.trees))]), C(0), C(len(self.trees))))]
            if m in ("eq", "ne") and len(c.args) == 2:
                # `line == ""` (also as a match arm) asks what is_empty asks
                x, y = a0, self.strip(self.val(st, c.args[1]))
                if y.op in ("ln", "repl", "trim", "input", "text"): x, y = y, self.strip(x)
                if x.op in ("ln", "repl", "trim", "input", "text") and y is mk("s", ""):
                    i, s2 = self.line_of(x)[0], st.copy()
                    st.setg("blank", (st.g("blank") or EMPTY) | {i})
                    s2.setg("blank", (st.g("blank") or EMPTY) - {i})
                    yes, no = (TRUE, FALSE) if m == "eq" else (FALSE, TRUE)
                    return [(st, yes), (s2, no)] if i is not None else None
            if a0.op in ("ln", "repl", "trim", "input", "text"):
                if m == "trim": return [(st, mk("trim", a0))]
                if m == "is_empty":
                    i, s2 = self.line_of(a0)[0], st.copy()
                    st.setg("blank", (st.g("blank") or EMPTY) | {i})
                    s2.setg("blank", (st.g("blank") or EMPTY) - {i})
                    return [(st, TRUE), (s2, FALSE)] if i is not None else None
                if m == "replace": return [(st, mk("repl", a0, *[self.strip(self.val(st, x)) for x in c.args[1:3]]))]
                if m == "contains" and len(c.args) == 2: return [(st, mk("contains", a0, self.strip(self.val(st, c.args[1]))))]
                if m in ("to_owned", "to_string", "into", "from", "as_str", "deref", "as_ref", "borrow", "clone") and "Word" not in n: return [(st, a0)]
            if "indexmap" in n:
                if m == "new": return [(st, mk("imap"))]
        if "IndexMap" in n and m in ("new", "with_capacity", "default"): return [(st, mk("imap"))]
        if a0 is not None and a0.op == "imap":
            if m == "insert":
                k, v = [self.strip(x) for x in c.args[1:3]]
                ents = [x for x in a0.a]
                hit = [i for i, x in enumerate(ents) if x.a[0] is k]
                if hit: ents[hit[0]] = tup(k, v)
                else: ents.append(tup(k, v))
                st.store_ref(c.args[0], mk("imap", *ents))
                return [(st, e.fresh(st, c, "old"))]
            if m in ("iter", "into_iter", "values", "keys"):
                R = lambda x: mk("ref", mk("K", x), (), False)
                xs = [tup(R(x.a[0]), R(x.a[1])) if m.endswith("iter") else R(x.a[m == "values"]) for x in a0.a]
                return [(st, it("vec", mk("vec", *xs), C(0), C(len(xs))))]
            if m == "len": return [(st, C(len(a0.a)))]
            if m == "is_empty": return [(st, C(not a0.a))]
        if a0 is not None and a0.op == "it" and "indexmap" in n and m in ("next", "next_back"):
            import models
            return models.nxt(e, c, m == "next_back")
        if n.endswith("Word::new"):
            i, _ = self.line_of(self.strip(self.val(st, c.args[0])))
            st.setg("words", (st.g("words") or ()) + (i,))
            return [(st, mk("word", *[self.strip(self.val(st, x)) for x in c.args]))]
        f = self.p.fns[c.key] if c.key is not None else None
        if f is not None and f.d["crate"] == self.p.crate and f.argc == 1 and self.p.tys[f.locals[1][0]]["s"] == "&mut parser::QueryAst":
            st.setg("expanded", (st.g("expanded") or 0) + 1)
            return [(st, UNIT)]
        return super().on_call(c)

    def strip(self, v):
        while v.op in ("&", "*", "box"): v = v.a[0]
        return v

    def separators(self, c, v):
        st = c.st
        x = self.val(st, v)
        while x.op == "*": x = x.a[0]
        if x.op == "vec": return "".join(sorted(chr(y.a[0]) if y.op == "c" else "?" for y in x.a))
        if x.op == "subseq" and x.a[0].op == "vec": return "".join(sorted(chr(y.a[0]) if y.op == "c" else "?" for y in x.a[0].a))
        if x.op == "c": return chr(x.a[0])
        if x.op in ("clo", "fn"):
            out = ""
            for ch in "\n;, a\t":
                s2 = st.copy()
                sv, c.st = c.st, s2
                rs = {r for _, r in self.eng.call_value(c, v, [C(ord(ch))], "sep")}
                c.st = sv
                if rs == {TRUE}: out += ch
                elif rs != {FALSE}: return "?"
            return out
        return "?" + show(x)[:80]


LINES = {"E": "a", "words": "#words 4", "limit": "#limit 7", "dict": "#dict a-b1", "dictionary": "#dictionary x", "quiet": "#quiet", "wordlist": "#wordlist", "M": "foo=ab", "empty": "", "comment": "a // b"}


def query_run(kinds, asts=True):
    """exits of QueryAst::new_from_str on a query with lines of these kinds ('error': the line does not parse)"""
    p = prog("lib")
    fn = fn1(p, r"^parser::QueryAst::new_from_str$")
    trees = []
    for i, k in enumerate(kinds):
        if k in ("error", "entry"):
            trees.append("error" if k == "error" else mk("pair", "query", f"L{i}", ""))
            continue
        r = gram().parse("query", LINES[k])
        if not r: raise Missing(f"the grammar accepts `{LINES[k]}`")
        on = {}
        for x in r[0].all():
            if x.rule == "expression" and x.kids: on[id(x.kids[0])] = i
        trees.append(pair(r[0], f"L{i}", on, None))
    m = Lines(p, trees, asts=asts)
    e = Engine(p, [m], opaque=lambda x: bool(re.search(r"fmt::|_print$|pest::error|check_line|custom_error", x)), budget=400000, exact=True, maxparts=3000)
    e.depth = 6
    return p, fn, m, e, e.start(fn, [mk("input")])


def options_of(p, v):
    a = flds(p, v.a[3])
    o = a["options"]
    if o.op != "adt": raise Missing("QueryAst.options as a struct value")
    return a, flds(p, o)


def leaf(p, tree_kind, i, rule):
    """term of the first `rule` node of line i"""
    r = gram().parse("query", LINES[tree_kind])

    def go(n, lab):
        if n.rule == rule: return pair(n, lab, {}, None)
        for j, k in enumerate(n.kids):
            x = go(k, f"{lab}.{j}")
            if x: return x
    return go(r[0], f"L{i}")


DIRECTIVES = {"words": "max_words", "limit": "results_limit", "dict": "dictionary", "dictionary": "dictionary", "quiet": "quiet", "wordlist": "wordlist"}


def c19(rep, tier):
    rep.rule("grammar", "each directive is recognised as that directive, with its value as written, and never as an expression or macro")
    rep.rule("own", "a directive sets its own option to its own value")
    rep.rule("others", "no line sets an option it does not name")
    p = prog("lib")
    g = gram()
    for line, kind, val in [("#words 12", "words", "12"), ("#limit 345678", "limit", "345678"), ("#dict a-b_c.9's", "dict", "a-b_c.9's"), ("#dictionary 2of12", "dict", "2of12"), ("#dict -x", "dict", "-x"), ("#quiet", "quiet", None), ("#wordlist", "wordlist", None),
                            ("#WORDS 3", "words", "3"), ("#Limit 0", "limit", "0"), ("#dict abc // x", "dict", "abc"), ("#limit /* x */ 3", "limit", "3"), ("  #quiet", "quiet", None), ("#dictionary dictionary", "dict", "dictionary"), ("#dict ionary", "dict", "ionary")]:
        r = g.parse("query", line)
        nodes = [n for n in r[0].all()] if r else []
        top = nodes[1].rule if len(nodes) > 1 else None
        rep.ob("grammar", f"`{line}` is a directive", top == "pragma_" + kind, g.name, f"`{line}` is {'not accepted' if not r else 'parsed as ' + repr(r[0])[:200]}")
        if val is not None and r:
            got = [n.text for n in nodes if n.rule in ("number", "dict_name")]
            rep.ob("grammar", f"`{line}` has its value", got == [val], g.name, f"`{line}` is parsed as {r[0]!r}")
    singles = [k for k in DIRECTIVES]
    configs = [["E"], ["M", "E"], ["empty", "E"], ["E", "M"]] + [x for k in singles for x in (["E", k], [k, "E"]) if not (k == "wordlist" and x[0] == k)]
    pairs_ = [(a, b) for a in singles for b in singles if a != b and a != "wordlist" and DIRECTIVES[a] != DIRECTIVES[b]]
    if tier != "thorough": pairs_ = pairs_[::2]
    configs += [["E", a, b] for a, b in pairs_] + [["E", "wordlist", "entry", "entry"], ["words", "E", "wordlist", "entry"]]
    rep.each(configs, options)
    from rules import expression
    expression.c19_use(rep, tier)


def options(rep, kinds):
    p, fn, m, e, res = query_run(kinds)
    rep.count("abstract_steps", e.steps)
    rep.count("line_sequences")
    name = ",".join(kinds)
    oks = [(s, v) for s, v in res if result(v) == "Ok"]
    rep.ob("own", f"a query {name} is accepted", bool(oks), fn.span, f"no exit returns a query for the lines {name}")
    for s, v in oks:
        a, o = options_of(p, v)
        want = {}
        for i, k in enumerate(kinds):
            f = DIRECTIVES.get(k)
            if k == "wordlist":
                ent = [mk("ln", j) for j in range(i + 1, len(kinds))]
                want[f] = ent
                break
            if f: want[f] = TRUE if k == "quiet" else number_sym(leaf(p, k, i, "number")) if k in ("words", "limit") else text_sym(leaf(p, k, i, "dict_name"))
        for f, x in o.items():
            if f not in want:
                rep.ob("others", f"{name} leaves {f} alone", x is NONE, fn.span, f"{f} becomes {show(x)[:160]}", s.path(30))
                continue
            w = want[f]
            if isinstance(w, list):
                y = x.a[3] if x.op == "adt" and x.a[2] == "Some" else None
                srt = y is not None and y.op == "sorted"
                got = list(seqof(y.a[0] if srt else y)) if y is not None else None
                ls = [m.line_of(q.a[0]) for q in got] if got is not None and all(q.op == "word" for q in got) else None
                # lines that are blank are left out
                sub_ = ls is not None and all(r == () for _, r in ls) and [i for i, _ in ls] == sorted(i for i, _ in ls) and {i for i, _ in ls} <= {q.a[0] for q in w}
                blank = ls is not None and all(q.a[0] in (s.g("blank") or EMPTY) or q.a[0] in [i for i, _ in ls] for q in w)
                rep.ob("own", f"{name} sets {f}", sub_ and blank, fn.span, f"{f} becomes {show(x)[:200]}", s.path(30))
                continue
            y = x.a[3] if x.op == "adt" and x.a[2] == "Some" else x
            if y.op == "vec" and len(y.a) == 1: y = y.a[0]
            while y.op in ("&", "*"): y = y.a[0]
            rep.ob("own", f"{name} sets {f}", x.op == "adt" and x.a[2] == "Some" and y is w, fn.span, f"{f} becomes {show(x)[:160]} instead of {show(w)[:80]}", s.path(30))
        ex = seqof(a["expressions"])
        n = len([k for k in kinds[:kinds.index("wordlist")] if k == "E"]) if "wordlist" in kinds else kinds.count("E")
        rep.ob("others", f"{name} has {n} expression(s)", len(ex) == n, fn.span, f"{len(ex)} expressions", s.path(30))


# ---------------------------------------------------------------- errors
def errbase(v, out):
    if v.op == "ln": out.add(v.a[0])
    for x in v.a:
        if isinstance(x, V): errbase(x, out)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, V): errbase(z, out)


def c21(rep, tier):
    rep.rule("line", "every error names the 1-based number of the line it was found in")
    rep.rule("first", "lines are looked at in order, and the first error is the one reported")
    rep.rule("separators", "lines are separated by newlines and semicolons, and every line counts")
    cfgs = [["error", "E", "E"], ["E", "error", "E"], ["E", "E", "error"], ["error", "error", "E"], ["E", "error", "error"], ["M", "error", "E"], ["words", "error", "E"], ["E", "words", "E"], ["empty", "error", "E"], ["comment", "E", "error"], ["M", "E", "words"], ["E", "E", "wordlist"],
            ["limit", "dict", "error"]] + ([["quiet", "M", "E", "error"], ["E", "E", "E", "error"], ["M", "M", "M", "error"]] if tier == "thorough" else [])
    rep.each(cfgs, errors)


def errors(rep, kinds):
    p, fn, m, e, res = query_run(kinds)
    rep.count("abstract_steps", e.steps)
    rep.count("line_sequences")
    name = ",".join(kinds)
    a = p.adts.get("pest::error::Error")
    first = kinds.index("error") if "error" in kinds else None
    rep.ob("line", f"{name}: the analysis reaches an exit", bool(res), fn.span, "")
    for s, v in res:
        seps = s.g("seps")
        rep.ob("separators", "the query is split at newlines and semicolons only", seps == "split:\n;", fn.span, f"{seps!r}", s.path(20))
        texts = [i for i, _, _ in s.g("texts") or ()]
        rep.ob("first", "lines are parsed in order, each once", texts == list(range(len(texts))), fn.span, f"lines {texts} of {name}", s.path(20))
        rep.ob("first", "every line is parsed as a whole query line", all(r == "query" for _, _, r in s.g("texts") or ()), fn.span, f"{s.g('texts')}")
        if result(v) == "Ok":
            rep.ob("first", f"{name}: a query with an erroneous line is rejected", first is None, fn.span, f"the lines {name} are accepted", s.path(30))
            continue
        if result(v) != "Err":
            rep.ob("line", f"{name}: the result is known", False, fn.span, show(v)[:120])
            continue
        er = v.a[3]
        base = er
        while base.op == "ov": base = base.a[0]
        ls = set()
        errbase(base, ls)
        if not ls: continue     # not about a line (the query as a whole)
        i = max(ls)
        if first is not None: rep.ob("first", f"{name}: errors after line {first + 1} are not reported instead", i <= first, fn.span, f"line {i + 1} is reported", s.path(30))
        lc = getf(er, "line_col")
        got = line_value(lc)
        rep.ob("line", f"{name}: an error in line {i + 1} names line {i + 1}", got is C(i + 1), fn.span, f"the error of line {i + 1} names line {show(got)[:120] if got is not None else '?'}", s.path(30))


def line_value(v):
    """line number in a LineColLocation value: Pos((l, c)) or Span((l, c), ..)"""
    if v.op == "adt": return proj(v.a[3], ("f", 0, "0"))
    if v.op == "ov":
        for k, x in v.a[1]:
            if k[0] == "f" and k[2] in ("Pos.0", "Span.0"): return proj(x, ("f", 0, "0"))
            if k[0] == "f" and k[1] == 0 and not k[2].startswith("Span.1"): return proj(x, ("f", 0, "0"))
    return None


# ---------------------------------------------------------------- macros
def c22(rep, tier):
    rep.rule("grammar", "NAME=value on a line of its own is a macro definition, with the name and the value as written")
    rep.rule("replaced", "a line is parsed after replacing every macro defined on earlier lines, in their order, and no other")
    rep.rule("entries", "the entries of an inline word list are not replaced in, and a definition adds no expression")
    g = gram()
    for line, n, v in [("FOO=bar", "FOO", "bar"), ("x=(a|b)", "x", "(a|b)"), ("V1 = [aeiou]", "V1", "[aeiou]"), ("a_b2=c*", "a_b2", "c*"), ("X=", "X", ""), ("X= <ab>", "X", "<ab>"), ("Y=a b", "Y", "a b"), ("Z=#x", "Z", "#x"), ("q=a=b", "q", "a=b")]:
        r = g.parse("query", line)
        nodes = list(r[0].all()) if r else []
        rep.ob("grammar", f"`{line}` is a definition", bool(r) and nodes[1].rule == "macro_define" and [x.text for x in nodes if x.rule == "macro_name"] == [n], g.name, f"`{line}` is {'not accepted' if not r else 'parsed as ' + repr(r[0])[:200]}")
        if r: rep.ob("grammar", f"the value of `{line}`", [x.text.strip() for x in nodes if x.rule == "macro_value"] == [v], g.name, repr(r[0])[:200])
    cfgs = [["M", "E"], ["E", "M"], ["M", "M", "E"], ["M", "E", "M", "E"], ["E", "M", "words", "E"], ["M", "E", "wordlist", "entry"], ["M", "M", "M", "E"], ["M", "empty", "E"]] + ([["M", "M", "E", "M", "E"], ["M", "dict", "E", "wordlist", "entry", "entry"]] if tier == "thorough" else [])
    rep.each(cfgs, replaced)


def replaced(rep, kinds):
    p, fn, m, e, res = query_run(kinds)
    rep.count("abstract_steps", e.steps)
    rep.count("line_sequences")
    name = ",".join(kinds)
    macros = {i: (text_sym(leaf(p, "M", i, "macro_name")), text_sym(leaf(p, "M", i, "macro_value"))) for i, k in enumerate(kinds) if k == "M"}
    wl = kinds.index("wordlist") if "wordlist" in kinds else len(kinds)
    seen = 0
    for s, v in res:
        for i, reps, _ in s.g("texts") or ():
            reps = [tuple(m.strip(x) for x in r) for r in reps]
            seen += 1
            want = [macros[j] for j in macros if j < i and j < wl]
            ok = reps == want or drop_known(s, want, reps, i)
            rep.ob("replaced", f"line {i + 1} of {name}", ok and i <= wl, fn.span, f"replaced {[show(a)[:60] for a, b in reps]} instead of {[show(a)[:60] for a, b in want]}", s.path(30))
        if result(v) == "Ok":
            a, o = options_of(p, v)
            rep.ob("entries", f"{name}: definitions add no expression", len(seqof(a["expressions"])) == len([k for k in kinds[:wl] if k == "E"]), fn.span, "", s.path(30))
            if wl < len(kinds):
                x = o["wordlist"]
                y = x.a[3] if x.op == "adt" and x.a[2] == "Some" else None
                ok = y is not None and all(q.op == "word" and m.line_of(q.a[0])[1] == () and m.line_of(q.a[0])[0] is not None for q in seqof(y.a[0] if y.op == "sorted" else y))
                rep.ob("entries", f"{name}: entries are taken as written", ok, fn.span, show(x)[:200], s.path(30))
    rep.ob("replaced", f"lines of {name} are parsed", seen > 0 and any(result(v) == "Ok" for _, v in res), fn.span, "no line reaches the parser")


def drop_known(s, want, reps, i):
    """replacements left out because the text is known not to contain the name"""
    cur, k = mk("ln", i), 0
    for n, v in want:
        if k < len(reps) and reps[k] == (n, v):
            cur = mk("repl", cur, n, v)
            k += 1
        elif s.decide(mk("contains", cur, n)) is not FALSE: return False
    return k == len(reps)
