"""The automaton an expression ends up with (expression.rs): C33, C34."""
from base import *
from models import it, nxt
from rules import parser as P, anagrams as A, tables
from rules.views import bsname
from rules.expression import Build, build_fn, fields_of, closure, meaning, symbols, jobs23
import itertools


class Final(Build):
    """bit sets of known states through the optimisation as well; letter sets are symbols, those in `none` empty"""
    def __init__(self, none=()): self.none = none

    def on_call(self, c):
        if "CharBitset" in c.path and norm(c.path).rsplit("::", 1)[1] in ("eq", "ne", "is_empty"):
            xs = []
            for a in c.args:
                while a.op in ("ref", "&"): a = a.a[0] if a.op == "&" else c.st.load(a.a[0], a.a[1])
                xs.append(label(a, self.none))
            m = norm(c.path).rsplit("::", 1)[1]
            if m == "is_empty": return [(c.st, C(not xs[0]))]
            if 0 not in xs and xs[0] != xs[1]: raise Missing("a letter set compared with none but the empty one")
            return [(c.st, C((xs[0] == xs[1]) == (m == "eq")))]
        return super().on_call(c)

    def views(self, c, st, v):
        n = bsname(c.path)
        if n == "ones":
            xs = sorted(self.ints(st, c.vw[0]))
            return [(st, it("vec", mk("vec", *[C(k) for k in xs]), C(0), C(len(xs))))]
        if n == "next" and c.args and c.args[0].op == "ref" and st.load(c.args[0].a[0], c.args[0].a[1]).op == "it": return nxt(self.engine, c)
        if n == "resize": return [(st, mk("iset", self.ints(st, c.vw[0])))]
        if n in ("size", "len") and c.vw: return None
        return super().views(c, st, v)


def letters(k): return mk("sym", "letters", k)


def label(v, none):
    """symbolic letter set k as bit k (language equality over the symbols carries over to whatever sets they stand for)"""
    if v.op == "sym": return 0 if v.a[1] in none else 1 << v.a[1]
    return A.mask(v)


def states_of(p, states, none):
    """(empty moves, letters, next) of compiled states"""
    out = []
    for v in P.seqof(states):
        if v.op != "adt": raise Missing(f"a state with known edges ({show(v)[:80]})")
        f = fields_of(p, v)
        if f["eps"].op != "iset" or f["next"].op != "c": raise Missing(f"a state with known edges ({show(v)[:80]})")
        out.append((f["eps"].a[0], label(f["set"], none), f["next"].a[0]))
    return out


def masked(t, none):
    """the term with its symbols as the bits that stand for them"""
    if t.op == "sym": return P.cs(label(t, none))
    if t.op in ("adt", "vec", "tup", "box"): return mk(t.op, *[masked(x, none) if hasattr(x, "op") else x for x in t.a])
    return t


def from_ast_fn(p):
    """the function that makes an Expression of an ExpressionAst"""
    return tables.by_types(p, r"^expression::Expression$", [r"^&parser::ExpressionAst$"], "the function that compiles an expression")


def compile_whole(ast, none=()):
    """the Expression value(s) compiled from a term"""
    p = prog("lib")
    fn = from_ast_fn(p)
    m = Final(none)
    e = Engine(p, [m], opaque=lambda x: bool(re.search(r"fmt::|_print$|alloc::fmt", x)), budget=3000000, exact=True, maxparts=500)
    e.depth = 8
    K = mk("O", mk("s", "ast"))
    opts = A.struct(p, "parser::ExpressionOptions", **{x[0]: NONE for x in p.adts["parser::ExpressionOptions"]["variants"][0]["fields"]})
    v = A.struct(p, "parser::ExpressionAst", root=ast, options=opts)
    ex = e.start(fn, [mk("ref", K, (), False)], mem={K: v})
    return p, fn, e, ex


END = 1 << 27


def final_states(p, v, none):
    a = p.adts["expression::Expression"]["variants"][0]["fields"]
    xs = [y for x, y in zip(a, v.a[3:]) if "Vec<expression::State>" in x[1]]
    if len(xs) != 1: raise Missing("the states of an expression")
    return states_of(p, xs[0], none)


def relabel(t, n=None):
    """(the term over letter symbols, their number)"""
    top = n is None
    n = n or [0]
    if t.op == "adt" and t.a[0] == "words::CharBitset":
        n[0] += 1
        r = letters(n[0] - 1)
    elif t.op == "adt": r = mk("adt", t.a[0], t.a[1], t.a[2], *[relabel(x, n) for x in t.a[3:]])
    elif t.op in ("vec", "tup", "box"): r = mk(t.op, *[relabel(x, n) if hasattr(x, "op") else x for x in t.a])
    else: r = t
    return (r, n[0]) if top else r


def jobs33(p, tier):
    js = jobs23(p, tier)
    big = {"Alternatives of 3", "Sequence of 3", "Substring of 3", "Alternatives of 1", "Substring of 1"}
    out = []
    q = 5 if tier == "thorough" else 1
    for k, (name, ast) in enumerate(js):
        parts = name.count(" as part ") + (": " in name)
        if parts == 1 and any(b in name for b in big) and k % 7 >= q: continue
        if parts == 2 and k % 23 >= q: continue
        if ": " in name and k % 11 >= q: continue
        t, n = relabel(ast)
        out.append((name, t, ()))
        if n and parts < 2 and (not parts or k % 9 < q): out.append((name + ", no letter in the first set", t, (0,)))
        if n > 1 and parts < 2 and (not parts or k % 9 == 4): out.append((name + ", no letter in the last set", t, (n - 1,)))
    return out


def words_of(masks):
    bits, seen = [], set()
    for b in range(28):
        sig = tuple(bool(m >> b & 1) for m in sorted(masks))
        if sig not in seen or b == 27:
            seen.add(sig)
            bits.append(b)
    return bits


def spell(w): return "".join(chr(97 + b) if b < 26 else "'_"[b - 26] for b in w)


def step(M, S, b): return closure(M, {M[i][2] for i in S if M[i][1] >> b & 1})


def same_language(A_, B_):
    """a word only one of two automata accepts (each accepts in its last state)"""
    bits = words_of({m for M in (A_, B_) for _, m, _ in M})
    s0 = (closure(A_, {0}), closure(B_, {0}))
    seen, todo = {s0}, [(s0, ())]
    while todo:
        (X, Y), w = todo.pop(0)
        if (len(A_) - 1 in X) != (len(B_) - 1 in Y): return f"`{spell(w)}` is " + ("no longer accepted" if len(A_) - 1 in X else "accepted only afterwards")
        for b in bits:
            s = (step(A_, X, b), step(B_, Y, b))
            if s not in seen:
                if len(seen) > 30000: raise Missing("a decidable pair of automata (too many states)")
                seen.add(s)
                todo.append((s, w + (b,)))
    return None


def against_meaning(M, lo, hi):
    """a word the automaton accepts although it is not meant, or the other way round; blanks behind a word that is meant are free"""
    bits = words_of(symbols(lo, set()) | symbols(hi, set()) | {m for _, m, _ in M})
    tail = ("set", END)
    hi = A.cat(hi, A.rep(tail, 0, None))
    s0 = (closure(M, {0}), lo, hi)
    seen, todo = {s0}, [(s0, ())]
    while todo:
        (S, a, b), w = todo.pop(0)
        acc = len(M) - 1 in S
        if acc and not A.nullable(b): return f"`{spell(w)}` is accepted"
        if A.nullable(a) and not acc: return f"`{spell(w)}` is not accepted"
        for bit in bits:
            s = (step(M, S, bit), A.deriv(a, bit), A.deriv(b, bit))
            if s not in seen:
                if len(seen) > 30000: raise Missing("a decidable automaton (too many states)")
                seen.add(s)
                todo.append((s, w + (bit,)))
    return None


def as_built(p, ast, none):
    """states before simplification"""
    fn = build_fn(p)
    e = Engine(p, [Final(none)], opaque=lambda x: bool(re.search(r"fmt::|_print$", x)), budget=400000, exact=True, maxparts=500)
    e.depth = 8
    K, L = mk("O", mk("s", "ast")), mk("O", mk("s", "states"))
    return fn, [(st, st.load(L, ())) for st, _ in e.start(fn, [mk("ref", K, (), False), mk("ref", L, (), True)], mem={K: ast, L: mk("vec")})]


def inside(M): return all(0 <= j < len(M) for eps, m, nx in M for j in set(eps) | {nx})


def one(rep, job, prop):
    name, ast, none = job
    p, fn, e, ex = compile_whole(ast, none)
    plain = masked(ast, none)
    rep.count("expressions compiled")
    rep.ob("compiles", name, len(ex) == 1 and not e.panics, fn.path, f"{len(ex)} results, panics: {str(e.panics[:1])[:200]}")
    for st, v in ex:
        M = final_states(p, v, none)
        rep.count("states of the automata", len(M))
        ok = bool(M) and inside(M)
        rep.ob("compiles", name + ": every edge leads to a state", ok, fn.path, f"an edge of {len(M)} states leads nowhere")
        if not ok: continue
        closed = all(i in eps and all(set(M[j][0]) <= set(eps) for j in eps) for i, (eps, _, _) in enumerate(M))
        rep.ob("closed", name, closed, fn.path, "a state's empty moves do not contain itself and what can be reached by them")
        if prop == "C33":
            d = against_meaning(M, meaning(p, plain, False), meaning(p, plain, True))
            rep.ob("language", name, d is None, fn.path, f"{d}, against its meaning {P.shown(P.denote(p, plain))[:200]}", st.path(20))
        else:
            bfn, bx = as_built(p, ast, none)
            for bst, bv in bx:
                B = states_of(p, bv, none)
                B = B + [(frozenset(), END, len(B))]
                if not inside(B):
                    rep.ob("compiles", name + ": as built", False, bfn.path, "an edge leads nowhere before the optimisation")
                    continue
                d = same_language(B, M)
                rep.ob("optimised", name, d is None, fn.path, f"simplified from {len(B)} to {len(M)} states, {d}", st.path(20))


def one33(rep, job): one(rep, job, "C33")
def one34(rep, job): one(rep, job, "C34")


def c33(rep, tier):
    import rules.matcher as M
    p = prog("lib")
    rep.rule("compiles", "compiling an expression ends in one way, without a panic, and every edge of the automaton leads to one of its states")
    rep.rule("closed", "the empty moves kept with every state are already transitively closed (the table steps rely on it)")
    rep.rule("language", "the automaton an expression ends up with accepts exactly the words the expression means (blanks behind them are free)")
    rep.assume("terms are compiled alike wherever they stand: constructs two levels deep (three for a part of them) stand for all; letter sets are symbols (one of them possibly empty)")
    rep.each(jobs33(p, tier), one33)
    M.single(rep, "C05")
    tables.success(rep, tier)
    tables.transitions(rep, tier)
    tables.fill(rep, "C05", tier)


def c34(rep, tier):
    p = prog("lib")
    rep.rule("compiles", "compiling an expression ends in one way, without a panic, and every edge of the automaton leads to one of its states")
    rep.rule("closed", "the empty moves kept with every state are already transitively closed (the table steps rely on it)")
    rep.rule("optimised", "the automaton after simplification accepts exactly the words it accepted as built")
    rep.assume("constructs two levels deep (three for a part of them) stand for all expressions; letter sets are symbols (one of them possibly empty)")
    rep.each(jobs33(p, tier), one34)
