"""C11: results depend only on the query, the wordlist and the limits: what parsing and searching can reach, and where
clock readings flow."""
from base import *

DENY = [
    (r"^(std|core|alloc)::env::", "the environment"),
    (r"^std::(fs|net|process|os)::|^<std::(fs|net|process)::", "files, the network or processes"),
    (r"^std::io::(?!(stdio::)?_e?print$|Write|stdout|stderr|error|Error|impls)|^<std::io::(Stdin|Lines|BufReader)", "input"),
    (r"^std::(thread|sync::(mpsc|Mutex|RwLock|Condvar|Barrier|poison))|^<std::(thread|sync::(mpsc|Mutex|RwLock|Condvar|Barrier|poison))", "threads or locks"),
    (r"path::Path(Buf)?::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|canonicalize|read_dir|read_link)$", "files"),
    (r"LocalKey::<|thread_local", "thread-local state"),
    (r"^std::time::SystemTime|^chrono::|^time::", "the calendar"),
    (r"(^|<)(rand|getrandom|fastrand|oorandom|nanorand)(_core|_chacha)?::", "randomness"),
    (r"hash::(random::)?RandomState::new|RandomState as std::hash::BuildHasher|DefaultHasher::new|BuildHasher::(build_hasher|hash_one)", None),
    (r"std::collections::hash(_map|_set|::map|::set)?|(^|<|&)std::collections::Hash(Map|Set)|hashbrown", None),
    (r"std::ptr::addr|::addr$|expose_provenance|as std::fmt::Pointer", None),
    (r"std::alloc::System|std::backtrace|std::panic::(catch_unwind|set_hook|take_hook)", "process-wide hooks"),
    (r"^core::arch::|^std::arch::|__rdtsc|cpuid", "the processor"),
    (r"^(tokio|rayon|crossbeam|parking_lot|futures|warp|libc)::|^<(tokio|rayon|crossbeam|parking_lot|libc)::", "threads or the system"),
]
DENY = [(re.compile(a), b) for a, b in DENY]
HASHIT = re.compile(r"Hash(Map|Set)(::)?<.*>::(iter|iter_mut|keys|values|values_mut|drain|into_keys|into_values|retain|extract_if|union|intersection|difference|symmetric_difference)$"
                    r"|(&?('\w+ )?(mut )?std::collections::Hash(Map|Set)<.*>) as std::iter::IntoIterator>::into_iter$|hash_(map|set)::\w+<.*> as std::iter::Iterator>::|hash::(map|set)::\w+<.*> as std::iter::Iterator>::"
                    r"|Hash(Map|Set)<.*> as std::fmt::Debug>|Hash(Map|Set)<.*> as std::iter::IntoIterator>")
HASHFN = re.compile(r"BuildHasher::(build_hasher|hash_one)$|BuildHasher>::(build_hasher|hash_one)$|DefaultHasher::new|RandomState::new$")
STATEFUL = re.compile(r"Atomic\w*(::<\w+>)?::(load|fetch_\w+|swap|compare_\w+|try_update|update)$")
API = r"(^|::)(QueryAst|ExpressionAst)::new_from_str$|(^|::)QueryEvaluator.*::(from_ast|new|next_within_deadline|set_\w+|progress|expressions)$|QueryEvaluator.* as std::iter::Iterator>::next$|(^|::)Expression::(from_ast|new)$"


def roots(p):
    out = [f for f in p.fns if f and f.d.get("local") and f.d.get("prom", -1) in (-1, 0) and re.search(API, norm(f.path))]
    names = " ".join(norm(f.path) for f in out)
    for a in ("QueryAst::new_from_str", "from_ast", "next_within_deadline"):
        if a not in names: raise Missing(a)
    # comparisons, conversions, hashing and clones of the library's types, called by std
    out += [f for f in p.fns if f and f.d.get("local") and re.match(r"^<", f.path) and "{" not in f.path and f not in out]
    return out


# ---------------------------------------------------------------- where clock readings go
N, D, R, P = "now", "elapsed", "until the deadline", "whether"   # P: the presence of a value depends on the clock


class Flow:
    """flow-insensitive taint of locals and fields, through calls, to a fixpoint"""
    def __init__(self, p, par):
        self.p, self.par = p, par
        self.t = {}        # (fn id, local) or ("field", name) -> {class: (where, what)}
        self.ret_users = {}
        self.work = []
        self.inwork = set()
        self.rev = {}      # key -> functions that read it
        self.found = {}    # decision points
        self.sources = []
        self.deadline_tests = set()
        self.logs = 0
        for k in par: self.push(k)
        self.callers = {}
        while self.work:
            k = self.work.pop()
            self.inwork.discard(k)
            self.scan(self.p.fns[k])
        for k in par: self.decide(self.p.fns[k])

    def push(self, k):
        if k not in self.inwork and self.p.fns[k] is not None:
            self.inwork.add(k)
            self.work.append(k)

    def get(self, key, reader):
        self.rev.setdefault(key, set()).add(reader)
        return self.t.get(key, {})

    def add(self, key, cls):
        cur = self.t.setdefault(key, {})
        ch = False
        for c, w in cls.items():
            if c not in cur:
                cur[c] = w
                ch = True
        if ch:
            for k in self.rev.get(key, ()): self.push(k)
        return ch

    # places
    def field(self, f, pl):
        """the innermost named field of a type of the application in a place"""
        ty = self.p.tys[f.locals[pl[0]][0]] if not isinstance(f.locals[pl[0]][0], dict) else None
        key = None
        for e in pl[1]:
            if ty is None: 
                if e[0] == "f" and not str(e[2]).isdigit(): key = ("field", e[2])
                continue
            if e[0] == "d": ty = self.p.tys[ty["t"]] if ty["k"] in ("ref", "ptr") else None
            elif e[0] == "f":
                if ty["k"] == "adt":
                    a = self.p.adts.get(ty["p"])
                    if self.own(ty["p"]) and a and a.get("kind") != "enum": key = ("field", e[2])
                    ty = self.p.tys[ty["ft"][e[1]]] if ty.get("ft") and e[1] < len(ty["ft"]) and isinstance(ty["ft"][e[1]], int) else None
                elif ty["k"] == "tuple": ty = self.p.tys[ty["a"][e[1]]]
                else: ty = None
            elif e[0] in ("dc",): pass
            else: ty = None
        return key

    def own(self, path):
        return not re.match(r"^(std|core|alloc|pest|indexmap|smallvec|hashbrown|structopt|unicode\w*)::", path)

    def place(self, f, pl):
        c = dict(self.get((f.id, pl[0]), f.id))
        k = self.field(f, pl)
        if k: c.update(self.get(k, f.id))
        for e in pl[1]:
            if e[0] == "i": 
                for x, w in self.get((f.id, e[1]), f.id).items(): c.setdefault(x if x != N else D, w)
        return c

    def operand(self, f, o):
        if o[0] in "cm": return self.place(f, o[1])
        return {}

    def store(self, f, pl, cls):
        if not cls: return
        k = self.field(f, pl)
        if k: self.add(k, cls)
        else: self.taint(f, pl[0], cls)

    def taint(self, f, l, cls):
        if not self.add((f.id, l), cls): return
        self.push(f.id)

    def scan(self, f):
        alias = []
        for bi, b in enumerate(f.blocks):
            if b["u"]: continue
            for s in b["s"]:
                if s[0] != "=": continue
                r = s[2]
                k = r[0]
                cls = {}
                if k in ("use", "un", "cast", "bin", "repeat", "shallow"):
                    for o in r[1:]:
                        if isinstance(o, list) and o and o[0] in ("c", "m", "k"): cls.update(self.operand(f, o))
                    if k == "bin" and cls: cls = self.rank(cls)
                elif k in ("ref", "reborrow", "raw"):
                    pl = r[2] if k in ("ref", "reborrow") else r[1]
                    if isinstance(pl, list):
                        cls = self.place(f, pl)
                        alias.append((s[1], pl))
                elif k == "discr":
                    cls = {P: w for c, w in self.place(f, r[1]).items() if c == P}
                elif k == "agg":
                    names = None
                    d = r[1]
                    if d[0] == "adt" and self.own(d[1]) and (self.p.adts.get(d[1]) or {}).get("kind") != "enum": names = d[4] if len(d) > 4 else None
                    for i, o in enumerate(r[2]):
                        c = self.operand(f, o)
                        if not c: continue
                        if names and i < len(names): self.add(("field", names[i]), c)
                        else: cls.update(c)
                    if d[0] in ("closure", "coroutine") and isinstance(d[1], int) and self.p.fns[d[1]] is not None:
                        if cls: self.taint(self.p.fns[d[1]], 1, cls)
                self.store(f, s[1], cls)
            t = b["t"]
            if t[0] == "call": self.call(f, bi, t)
        # what a reference points to is what it was taken of
        for dst, src in alias:
            if dst[1]: continue
            c = self.get((f.id, dst[0]), f.id)
            if c: self.store(f, src, c)

    def rank(self, cls):
        if D in cls or P in cls: return cls
        return {D: w for w in cls.values()} if N in cls else cls

    def call(self, f, bi, t):
        span = t[-2]
        dest = t[3]
        if not (t[1][0] == "k" and "fn" in t[1][1]):
            cls = {}
            for o in t[2] + [t[1]]: cls.update(self.operand(f, o))
            self.store(f, dest, cls)
            return
        cl = t[1][1]["fn"]
        path, pp = cl.get("rp", cl["p"]), cl["p"]
        args = [self.operand(f, o) for o in t[2]]
        any_ = {}
        for a in args: any_.update(a)
        if re.search(r"std::time::Instant::now$", path):
            self.sources.append((span, f.path))
            return self.store(f, dest, {N: (span, "the clock is read")})
        if STATEFUL.search(path):
            return self.store(f, dest, {D: (span, "shared state is read")})
        if not any_:
            key = cl.get("key")
            if key is not None and self.p.fns[key] is not None: self.returns(f, dest, key)
            return
        if re.search(r"fmt::rt::Argument::<.*>::new_\w+$", path):
            self.logs += 1
            return
        if re.search(r"^std::cmp::(PartialOrd|PartialEq|Ord)::", pp) or re.search(r"as std::cmp::(PartialOrd|PartialEq|Ord)(<.*>)?>::", path):
            v = self.compare(f, t, args, span, re.sub(r".*::", "", path))
            return self.store(f, dest, v)
        if "std::time::" in path or re.search(r"^std::ops::", pp):
            last = re.sub(r".*::", "", path)
            ks = set(any_)
            if last == "elapsed" or last in ("sub", "duration_since", "saturating_duration_since", "checked_duration_since") and "Instant" in path + self.tys(cl):
                clean = [a for a in args if not a]
                v = {R: (span, "time until the deadline")} if last != "elapsed" and len(args) == 2 and len(clean) == 1 and ks <= {N} and not self.const(t[2]) else {D: (span, "elapsed time")}
                if last.startswith("checked") and D in v: v[P] = (span, "elapsed time")
                return self.store(f, dest, v)
            if last == "is_zero" and ks <= {R}:
                self.deadline_tests.add(span)
                return
            if last in ("add", "sub", "add_assign", "sub_assign") and ks <= {N}:
                self.store(f, dest, any_)
                if last.endswith("assign"): self.through(f, t[2][0], any_)
                return
        key = cl.get("key")
        if key is not None and self.p.fns[key] is not None:
            g = self.p.fns[key]
            for i, a in enumerate(args):
                if a and i + 1 < len(g.locals): self.taint(g, i + 1, a)
            self.returns(f, dest, key)
            # what the callee wrote through its arguments
            for i, o in enumerate(t[2]):
                if o[0] in "cm" and self.mutref(f, o):
                    c = self.get((g.id, i + 1), f.id)
                    if c: self.through(f, o, c)
            return
        # a function of another crate: its result and what it may write depend on what it is given
        v = self.rank(any_) if set(any_) - {N, R} else dict(any_)
        if not re.search(r"Option|Result|clone|Clone|Deref|deref|identity|must_use|Some|map|into|from|Box|unwrap|copied|cloned|as_ref|take|replace|swap", path) and N in v: v = self.rank(v)
        self.store(f, dest, v)
        for o in t[2]:
            if o[0] in "cm" and self.mutref(f, o): self.through(f, o, v)

    def tys(self, cl): return " ".join(self.p.tys[a]["s"] for a in cl.get("a") or [] if isinstance(a, int))

    def const(self, ops): return any(o[0] == "k" for o in ops)

    def mutref(self, f, o):
        l, pr = o[1]
        t = self.p.tys[f.locals[l][0]]
        return t["k"] == "ref" and t.get("m") == 1 and not pr

    def through(self, f, o, cls): self.taint(f, o[1][0], cls)

    def returns(self, f, dest, key):
        c = self.get((key, 0), f.id)
        if c: self.store(f, dest, c)

    def compare(self, f, t, args, span, what):
        ks = set()
        for a in args: ks |= set(a)
        clean = [a for a in args if not a]
        any_ = {}
        for a in args: any_.update(a)
        w = {D: (span, "a comparison of " + ", ".join(sorted(ks)))}
        if what in ("max", "min", "clamp"): return any_
        if D in ks or P in ks: return w
        if ks == {N} and clean:
            self.deadline_tests.add(span)
            return {}
        if R in ks and N not in ks and clean:
            self.deadline_tests.add(span)
            return {}
        return w

    # decision points
    def decide(self, f):
        if f.d["crate"] != self.p.crate and not f.d.get("local"): return self.decide_in(f, False)
        self.decide_in(f, True)

    def decide_in(self, f, mine):
        for bi, b in enumerate(f.blocks):
            if b["u"]: continue
            t = b["t"]
            if t[0] in ("switch", "assert"):
                c = {k: v for k, v in self.operand(f, t[1]).items() if k in (D, P) or k == N and False}
                if c and self.informs(f, bi): c = {}
                if c: self.found.setdefault((f.path, "a branch"), []).append((next(iter(c.values())), f))
            for s in b["s"]:
                if s[0] != "=": continue
                for pl in self.places(s):
                    for e in pl[1]:
                        if e[0] == "i":
                            c = {k: v for k, v in self.get((f.id, e[1]), f.id).items()}
                            if c: self.found.setdefault((f.path, "an index"), []).append((next(iter(c.values())), f))
            if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
                cl = t[1][1]["fn"]
                if re.search(r"ops::Index(Mut)?<.*>>::index|Index(Mut)?::index|::(get|get_mut|truncate|nth|take|skip|split_at|swap|remove|insert|get_unchecked\w*)$", cl.get("rp", cl["p"])):
                    for o in t[2][1:]:
                        c = self.operand(f, o)
                        if c and self.p.tys[f.locals[o[1][0]][0]]["s"] == "usize": self.found.setdefault((f.path, "an index"), []).append((next(iter(c.values())), f))

    INFORM = re.compile(r"fmt::|_e?print$|string::String|ToString|must_use|vec::Vec::<.*>::push$|str::<impl str>|Instant::(now|elapsed)|Duration|LocalKey|Box::<T>::new|Vec::<.*>::new$")

    def informs(self, f, bi):
        """whether all that a branch decides is what people are told: both ways meet again with nothing else changed"""
        cfg = Cfg(f)
        succ = [x for x in cfg.succ[bi] if f.blocks[x]["t"][0] != "unreachable"]

        def reach(start, stop):
            seen, todo = set(), [x for x in start if x != stop]
            while todo:
                b = todo.pop()
                if b in seen: continue
                seen.add(b)
                todo += [x for x in cfg.succ[b] if x != stop]
                if len(seen) > 120: break
            return seen
        order, seen, todo = [], set(), list(succ)
        while todo and len(order) < 150:
            b = todo.pop(0)
            if b in seen: continue
            seen.add(b)
            order.append(b)
            todo += cfg.succ[b]
        for j in order:
            reg = reach(succ, j)
            if bi in reg or len(reg) > 100 or any(f.blocks[b]["t"][0] in ("return", "unreachable", "yield", "resume") or not cfg.succ[b] for b in reg): continue
            for b in reg:
                bl = f.blocks[b]
                for st in bl["s"]:
                    if st[0] != "=": continue
                    l, pr = st[1]
                    if l in cfg.live[j] or any(e[0] == "d" for e in pr): return False
                t = bl["t"]
                if t[0] == "call":
                    if not (t[1][0] == "k" and "fn" in t[1][1]): return False
                    cl = t[1][1]["fn"]
                    if not self.INFORM.search(cl.get("rp", cl["p"])): return False
                    if re.search(r"::push$", cl["p"]) and "String" not in self.tys(cl): return False
                    if t[3][0] in cfg.live[j]: return False
            return True
        return False

    def places(self, s):
        out = []
        def walk(x):
            if isinstance(x, list):
                if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and all(isinstance(e, list) for e in x[1]): out.append(x)
                else:
                    for y in x: walk(y)
        walk(s[1:3])
        return out


def c11(rep, tier):
    rep.rule("reach", "nothing that parsing and searching can call is random, reads the environment, files, the network, the calendar, other threads or process-wide state")
    rep.rule("order", "nothing in parsing and searching iterates in hash order or looks at hash values or addresses")
    rep.rule("state", "no mutable global is used by parsing and searching")
    rep.rule("clock", "a clock reading decides nothing but whether the deadline has passed; all else made of it is text for people")
    rep.assume("a function of another crate called with deterministic arguments is deterministic unless its module is about the outside world; IndexMap iterates in insertion order; pest's process-wide call limit is not set by anyone")
    rep.assume("what a passed deadline may change is the subject of C10 (an interrupted search resumes where it stopped)")
    p = prog("lib")
    rs = roots(p)
    par = reachable(p, [f.id for f in rs])
    rep.count("entry points", len(rs))
    rep.count("functions reachable", len(par))
    # function items handed to std as type arguments are referenced where they are created
    leaves_ = {}
    for k in par:
        f = p.fns[k]
        mine = f.d.get("local")
        spans = {}
        for cl, bb, t in calls_in(p, f):
            path = cl.get("rp", cl["p"])
            if cl.get("key") is None or p.fns[cl["key"]] is None: leaves_.setdefault(path, []).append((f, t[-2]))
            ty = " ".join(p.tys[a]["s"] for a in cl.get("a") or [] if isinstance(a, int))
            where_ = t[-2]
            why = next((b for a, b in DENY if b and (a.search(path) or a.search(cl["p"]))), None)
            if why: rep.ob("reach", f"{norm(f.path)} calls {norm(path)}", False, where_, f"reaches {why}", chain(p, par, k))
            elif mine or f.d["crate"] == p.crate:
                x = path + " " + cl["p"]
                custom = re.search(r"BuildHasherDefault|fxhash|ahash::|FxHasher", ty)
                h = HASHIT.search(path) or HASHIT.search(cl["p"] + " " + ty) if not custom else None
                if not h and re.search(r"IntoIterator::into_iter|Extend|FromIterator|Iterator::", cl["p"]) and re.search(r"std::collections::(hash_map|hash_set|hash::map|hash::set)::|^(&|mut |'\w+ )*std::collections::Hash(Map|Set)<", ty) and not custom: h = True
                if h: rep.ob("order", f"{norm(f.path)} iterates in hash order", False, where_, f"{path} on {ty}"[:200], chain(p, par, k))
                if HASHFN.search(path) and mine and not custom: rep.ob("order", f"{norm(f.path)} uses a hash value", False, where_, path, chain(p, par, k))
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "cast" and mine and re.search(r"ExposeProvenance|PointerExpose|ExposeAddr", str(s[2][1])):
                    rep.ob("order", f"{norm(f.path)} looks at an address", False, s[3] if len(s) > 3 else f.span, "", chain(p, par, k))
        for c in consts_in(f):
            n = c.get("static")
            if n and mine:
                ty = p.tys[c["t"]]["s"] if "t" in c else ""
                safe = not re.search(r"Cell<|Mutex<|RwLock<|\*mut |static mut", ty) and not (ty.startswith("*mut") or "&mut" in ty)
                once = re.search(r"OnceCell|OnceLock|LazyLock|Lazy<|LazyCell", ty)
                atomic = re.search(r"Atomic", ty)
                rep.ob("state", f"{norm(f.path)} uses {n}", bool(safe or once or atomic), f.span, f"of type {ty}", chain(p, par, k))
    rep.ob("reach", "every other call out of the analysed code", True)
    rep.ob("order", "every other iteration and hash", True)
    rep.count("functions of other crates called", len(leaves_))
    rep.count("call sites into other crates", sum(len(v) for v in leaves_.values()))
    for n in sorted({norm(x) for x in leaves_}): rep.note("calls " + n[:120])
    fl = Flow(p, par)
    src = sorted(set(fl.sources))
    rep.count("clock readings", len(src))
    rep.count("deadline tests", len(fl.deadline_tests))
    rep.count("values told to people", fl.logs)
    for (path, what), l in fl.found.items():
        (sp, why), f = l[0]
        rep.ob("clock", f"{what} in {norm(path)} depends on {why}", False, sp, f"{what} in {path} ({f.span}) depends on a clock reading or shared state: {why} at {sp}", chain(p, par, f.id))
    for sp, path in src: rep.ob("clock", f"clock reading in {norm(path)}", True, sp)
    # what the entry points return
    for f in rs:
        c = {k: v for k, v in fl.t.get((f.id, 0), {}).items() if k in (D, P)}
        if c:
            sp, why = next(iter(c.values()))
            rep.ob("clock", f"{norm(f.path)} returns a value made of the clock", False, sp, why)
