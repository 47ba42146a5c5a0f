"""Rules on noodle-webapp: the request handlers, from the routes that start them."""
from base import *
from models import fork
from absint import INF

SEC = 10 ** 9
MAIN = "main"


def web_prog(): return prog("web")


def local(p): return [f for f in p.fns if f and f.d.get("local") and f.d.get("prom", -1) in (-1, 0)]


def calls(p, f):
    """ids of the functions a function calls or drops (not the futures it only creates)"""
    out = set()
    for b in f.blocks:
        t = b["t"]
        if t[0] == "call":
            fo = t[1]
            if fo[0] == "k" and "fn" in fo[1] and fo[1]["fn"].get("key") is not None: out.add(fo[1]["fn"]["key"])
        elif t[0] == "drop":
            todo = [t[3]]
            seen = set()
            while todo:
                ty = todo.pop()
                if not isinstance(ty, int) or ty in seen: continue
                seen.add(ty)
                if p.tys[ty].get("drop") is not None: out.add(p.tys[ty]["drop"])
                todo += p.tys[ty].get("ft") or []
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure" and not s[2][1][2]: out.add(s[2][1][1])
    return out


def in_main(f): return f.path == MAIN or re.fullmatch(MAIN + r"::\{closure#0\}(::\{drop\})?", f.path)


LIB = re.compile(r"^<?&?(mut )?noodle::")
SEARCH = re.compile(r"QueryEvaluator::<'word>::next_within_deadline$|QueryEvaluator::<.*>::next_within_deadline$|<noodle::QueryEvaluator.* as std::iter::Iterator>::")
PARSE = re.compile(r"QueryAst::new_from_str$")
FROMAST = re.compile(r"QueryEvaluator::<.*>::(from_ast|new)$")


def roots(p):
    """the functions the server enters per request: the ones that run queries and are called from nowhere but the routes"""
    loc = local(p)
    ids = {f.id for f in loc}
    cg = {f.id: calls(p, f) & ids for f in loc}
    hot = set()
    for f in loc:
        if in_main(f): continue
        for cl, _, _ in calls_in(p, f):
            g = cl.get("rp") or cl["p"]
            if PARSE.search(g) or SEARCH.search(g) or FROMAST.search(g): hot.add(f.id)
    while True:
        more = {f.id for f in loc if f.id not in hot and cg[f.id] & hot and not in_main(f)}
        if not more: break
        hot |= more
    called = set()
    for f in loc:
        if not in_main(f): called |= cg[f.id]
    return [p.fns[i] for i in sorted(hot) if i not in called], hot


# ---------------------------------------------------------------- meaning of what the handlers call
def poll(name, *v): return adt("std::task::Poll", 0 if name == "Ready" else 1, name, *v)


def opt(v=None): return some(v) if v is not None else adt("std::option::Option", 0, "None")


READY, PENDING = "Ready", "Pending"
TIME = re.compile(r"std::time::(Instant|Duration)|chrono|tokio::time::Instant")
UNIT_NS = {"from_secs": SEC, "from_millis": 10 ** 6, "from_micros": 1000, "from_nanos": 1, "from_mins": 60 * SEC, "from_hours": 3600 * SEC}
RX = re.compile(r"(stream::)?Next<|StreamExt::next$|TryStreamExt::try_next$|TryNext<")


def content(st, v):
    """what a string-like value says: references, views and owned copies of the same text are the same"""
    for _ in range(20):
        if v.op in ("ref", "box"): v = st.deref(v)
        elif v.op == "&": v = v.a[0]
        elif v.op == "app" and len(v.a) >= 2 and SAME.search(v.a[0]): v = v.a[1]
        elif v.op == "*": v = v.a[0]
        else: break
    return v


SAME = re.compile(r"(String as std::(ops::Deref|convert::AsRef<str>|borrow::Borrow<str>)>::\w+|Cow<.*> as std::ops::Deref>::deref|ops::Index<.*RangeFull>.*::index|String::as_str|String::as_mut_str|ToString>::to_string|str as std::borrow::ToOwned>::to_owned|Clone>::clone|From<&.*str>.*::from|Into<.*>::into|str>::(as_ref|to_string|to_owned)|String::into_boxed_str|AsRef<str> for .*::as_ref|Borrow<.*>::borrow|String as std::ops::Index<I>>::index|str as std::convert::AsRef<.*>>::as_ref|String::from|Cow<.*>::into_owned|Cow<.*> as std::convert::AsRef.*)$")


class Web:
    """the std, futures and warp calls of the handlers; subclasses watch the events"""
    def __init__(self, p): self.p, self.eng = p, None

    # events
    def search(self, c, deadline): pass
    def answered(self, c, st, kind): pass
    def atomic(self, c, name, op, by): pass
    def parsed(self, c): pass
    def built(self, c): pass
    def received(self, c, st, what): pass
    def clock(self, c, st, v): pass
    def looked_up(self, c, st, name, found): pass

    def fresh(self, c, tag="r", *x): return self.eng.fresh(c.st, c, tag, *x)

    def on_call(self, c):
        st, path, p, a = c.st, c.path, c.p, c.args
        if SEARCH.search(path) or SEARCH.search(p):
            d = a[1] if len(a) > 1 else opt()
            self.search(c, d)
            out = []
            for i, v in enumerate(self.p.adts["noodle::QueryResponse"]["variants"]):
                s = st.copy()
                c.st = s
                s.note((c.span, "answer " + v["name"]))
                val = adt("noodle::QueryResponse", i, v["name"], *[self.fresh(c, "answer", i, j) for j in range(len(v["fields"]))])
                self.answered(c, s, v["name"])
                if path.endswith("Iterator>::next"): val = opt(val)
                out.append((s, val))
            c.st = st
            return out
        if PARSE.search(path):
            self.parsed(c)
            return [(st, mk("app", "parse", content(st, a[0])))]
        if FROMAST.search(path):
            self.built(c)
            return [(st, self.fresh(c, "evaluator"))]
        if c.key is None or not self.mine(c.key):
            r = self.time(c)
            if r is not None: return r
            r = self.futures(c)
            if r is not None: return r
        if re.search(r" as std::ops::Deref>::deref$", path) and a and a[0].op == "ref" and a[0].a[0].op == "S" and path.startswith("<" + a[0].a[0].a[0]): return [(st, a[0])]
        m = re.search(r"atomic::Atomic(Usize|U64|U32|Isize|I64|I32|::<\w+>)::(\w+)$", path)
        if m:
            root = a[0]
            name = root.a[0].a[0] if root.op == "ref" and root.a[0].op == "S" else show(root)
            op = m.group(2)
            by = a[1] if len(a) > 1 else None
            self.atomic(c, name, op, by)
            return [(st, self.fresh(c, "atomic"))]
        m = re.search(r"HashMap::<K, V, S(, A)?>::(get|contains_key|get_mut|get_key_value)$|BTreeMap::<K, V.*>::(get|contains_key)$|HashMap<K, V, S.*> as std::ops::Index<.*>>::index$", path)
        if m and a[0].op == "ref" and a[0].a[0].op == "S":
            n = content(st, a[1])
            out = []
            lit = text_of(st, n)
            # a name which comes from going through the same map is there
            own = any(x.op == "app" and x.a[0] in ("keys", "iter") and any(y.op == "static" and y.a[0] == a[0].a[0].a[0] for y in walk_terms(x)) for x in walk_terms(n))
            for found in (True, False) if not own and not (lit.op == "s" and lit.a[0] in ("default", '"default"')) else (True,):
                s = st.copy()
                h = "found " + ("own" if own else str(n.id))
                if s.g(h) is not None and s.g(h) != found: continue
                s.setg(h, found)
                s.note((c.span, "list found" if found else "no such list"))
                self.looked_up(c, s, n, found)
                v = mk("app", "list", n)
                if path.endswith("contains_key"): out.append((s, C(found)))
                elif path.endswith("index"):
                    if found: out.append((s, mk("ref", mk("O", v), (), False)))
                    else: self.eng.panic(s, "index", c.f, c.ctx, c.span, c)
                else: out.append((s, opt(mk("ref", mk("O", v), (), False)) if found else opt()))
            return out
        if re.search(r"fmt::Write(>::| as .*>::|::)write_(fmt|str|char)$", path) and ("String" in path or any("string::String" in self.p.tys[t]["s"] for t in (c.callee.get("a") or [])[:1] if isinstance(t, int))): return [(st, self.ok(UNIT))]
        if re.search(r"serde_json::(ser::)?to_(string|vec|string_pretty)$", path):
            ty = self.p.tys[c.callee["a"][0]]["s"] if c.callee.get("a") else ""
            if re.fullmatch(r"&?(Response|noodle::Word|.*String|.*str|\(.*\))", ty) or True: return [(st, self.ok(self.fresh(c, "json")))]
        if re.search(r"::reunite$", path): return [(st, self.ok(self.fresh(c, "joined")))]
        if re.search(r"(^|::)hint::(must_use|black_box)$|^std::convert::identity$", path): return [(st, a[0])]
        return None

    def ok(self, v): return adt("std::result::Result", 0, "Ok", v)

    def mine(self, k):
        f = self.p.fns[k]
        return f is not None and f.d.get("local")

    def time(self, c):
        st, path, p, a = c.st, c.path, c.p, c.args
        if not TIME.search(path + p) and not re.search(r"^std::(cmp|ops)::", p): return None
        tys = " ".join(self.p.tys[t]["s"] for t in c.callee.get("a") or [] if isinstance(t, int))
        if not TIME.search(path + " " + tys): return None
        name = path.rsplit("::", 1)[1]
        vs = [st.deref(x) if x.op == "ref" else x for x in a]
        if name == "now":
            v = self.fresh(c, "clock")
            self.clock(c, st, v)
            return [(st, v)]
        if name in UNIT_NS and vs[0].op != "adt": return [(st, mul(vs[0], C(UNIT_NS[name])))]
        if name in ("add", "sub", "saturating_add"):
            return [(st, add(*vs) if name != "sub" else sub(*vs))]
        if name in ("add_assign", "sub_assign"):
            st.store_ref(a[0], add(*vs) if name == "add_assign" else sub(*vs))
            return [(st, UNIT)]
        if name == "mul" and any(x.op == "c" for x in vs) and "f64" not in path and "f32" not in path: return [(st, mul(*vs))]
        if name in ("checked_add", "checked_sub"): return [(st, opt(add(*vs) if name == "checked_add" else sub(*vs)))]
        if name in ("elapsed", "duration_since", "saturating_duration_since", "saturating_sub"):
            if name == "elapsed":
                n = self.fresh(c, "clock")
                self.clock(c, st, n)
                vs = vs + [n]
                vs = vs[::-1]
            d = sub(*vs[:2])
            out = []
            s2 = st.copy()
            if st.assume(le(C(0), d), True): out.append((st, d))
            if s2.assume(le(C(0), d), False): out.append((s2, C(0)))
            return out
        if name in ("lt", "le", "gt", "ge", "eq", "ne"):
            x, y = vs
            r = {"lt": lambda: lt(x, y), "le": lambda: le(x, y), "gt": lambda: lt(y, x), "ge": lambda: le(y, x), "eq": lambda: eq(x, y), "ne": lambda: nnot(eq(x, y))}[name]()
            return [(st, r)]
        if name in ("min", "max", "clamp", "cmp", "partial_cmp"):
            if name in ("cmp", "partial_cmp"):
                r = mk("sgn", *vs)
                return [(st, r if name == "cmp" else some(r))]
            return None
        if name == "clone": return [(st, vs[0])]
        return None

    def futures(self, c):
        st, path, p, a = c.st, c.path, c.p, c.args
        if p.endswith("IntoFuture::into_future"): return [(st, a[0])]
        if re.search(r"pin::Pin::<.*>::(new|new_unchecked)$", path): return [(st, adt("std::pin::Pin", 0, "Pin", a[0]))]
        if re.search(r"pin::Pin::<.*>::as_mut$", path):
            x = st.deref(a[0])
            return [(st, x)]
        if re.search(r"pin::Pin::<.*>::(get_mut|get_unchecked_mut|into_inner)$", path): return [(st, proj(a[0], ("fld", 0, "pointer")) if a[0].op != "adt" else a[0].a[3])]
        if path.endswith("futures::poll") or p.endswith("futures::poll"): return [(st, mk("futpoll", a[0]))]
        if re.search(r"FutureExt::now_or_never$", path + " " + p) and len(a) == 1:
            rx = self.is_rx(st, a[0], c)
            s = st.copy()
            if rx: self.received(c, s, "nothing yet")
            out = [(s, opt())]
            for s, v in self.outcome(c, st, rx): out.append((s, opt(v)))
            return out
        if re.search(r"Future(<.*>)?(>)?::poll$", p):
            x = a[0]
            for _ in range(4):
                if x.op == "adt" and x.a[0].endswith("Pin"): x = x.a[3]
                elif x.op == "ref": x = st.deref(x)
                elif x.op == "box": x = x.a[0]
            if x.op == "clo": return None
            if x.op == "futpoll":
                out = []
                rx = self.is_rx(st, x.a[0], c)
                s = st.copy()
                self.received(c, s, "nothing yet") if rx else None
                out.append((s, poll(READY, poll(PENDING))))
                for s, v in self.outcome(c, st, rx): out.append((s, poll(READY, poll(READY, v))))
                return out
            rx = RX.search(path) is not None
            s = st.copy()
            out = [(s, poll(PENDING))]
            for s, v in self.outcome(c, st, rx): out.append((s, poll(READY, v)))
            return out
        return None

    def is_rx(self, st, x, c):
        tys = " ".join(self.p.tys[t]["s"] for t in c.callee.get("a") or [] if isinstance(t, int))
        return RX.search(tys) is not None

    def outcome(self, c, st, rx):
        """what a future resolves to"""
        if not rx:
            c.st = st
            v = self.fresh(c, "resolved")
            return [(st, v)]
        out = []
        for what in ("gone", "data"):
            s = st.copy()
            c.st = s
            s.note((c.span, "the client is gone" if what == "gone" else "the client sent something"))
            self.received(c, s, what)
            out.append((s, opt() if what == "gone" else opt(mk("client", self.fresh(c, "resolved")))))
        c.st = st
        return out


def option_asked(t):
    """whether one of the query's options is set: such facts keep states apart"""
    if t.op == "discr": t = t.a[0]
    else: return False
    return t.op == "fld" and t.a[1] in ("dictionary", "results_limit", "wordlist")


def is_some(st, v):
    """TRUE, FALSE or None"""
    d = mk("discr", v)
    r = st.decide(eq(d, C(1)))
    if r is not None: return r
    r = st.decide(eq(d, C(0)))
    return None if r is None else FALSE if r is TRUE else TRUE


def run_root(p, f, monitor, args=None, budget=400000):
    e = Engine(p, [monitor], opaque=lambda path: bool(LIB.search(path)), budget=budget, split=option_asked)
    monitor.eng = e
    e.depth = 2
    e.counters = True
    if f.d.get("coroutine"):
        # the future is somewhere in memory, its captured variables unknown
        clo = mk("clo", f.id, True, *[mk("sym", "arg", f"captured{i}") for i in range(len(f.d.get("upvars") or []))])
        R = mk("root", "future")
        args = [adt("std::pin::Pin", 0, "Pin", mk("ref", R, (), True)), mk("sym", "arg", "context")]
        return e, e.start(f, args, mem={R: clo})
    if args is None: args = [mk("sym", "arg", f"{f.names.get(i + 1, '')}#{i}") for i in range(f.argc)]
    return e, e.start(f, args)


def where(p, e, fn, ctx, span):
    """the innermost place in the application on the way to a construct, and its function"""
    if fn is not None and fn.d.get("local"): return span, fn
    k = ctx
    while k:
        par, fid, site = e.ctxinfo[k]
        if not par: break
        g = p.fns[e.ctxinfo[par][1]]
        if g is not None and g.d.get("local"):
            t = g.blocks[site[0]]["t"]
            return (t[-2] if t[0] == "call" else g.span), g
        k = par
    return span, fn


class Out:
    """collects what a monitor finds wrong, once per construct"""
    def __init__(self): self.bad = {}

    def fail(self, key, where, detail, st): self.bad.setdefault(key, (where, detail, st))


def report(rep, rule, what, out, n, span):
    for key, (w, d, st) in out.bad.items(): rep.ob(rule, f"{what}: {key}", False, w, d, path=st.path() if st is not None else None)
    if not out.bad: rep.ob(rule, what, True, span, f"{n} checks")


_routes = {}


class Routes(Web):
    """what the routes in main are made of"""
    def __init__(self, p):
        super().__init__(p)
        self.found = {}

    def on_call(self, c):
        p = c.p
        if re.search(r"Filter::(map|and_then|then|untuple_one|map_err|recover)$", p) and len(c.args) == 2:
            fv = c.args[1]
            if fv.op == "clo" or fv.op == "fn": self.found[fv.a[0]] = show_all(c.args[0])
        if "warp::" in c.path or "warp::" in p:
            return [(c.st, mk("app", c.path, *c.args))]
        return super().on_call(c)


def show_all(v, d=0):
    """every function and text a term is made of"""
    out = []
    seen = set()
    def w(x):
        if not hasattr(x, "op") or x in seen: return
        seen.add(x)
        if x.op == "app" and isinstance(x.a[0], str): out.append(x.a[0])
        if x.op == "s": out.append(repr(x.a[0]))
        for y in x.a:
            if hasattr(y, "op"): w(y)
            elif isinstance(y, tuple):
                for z in y: w(z)
    w(v)
    return out


def routes(p):
    """closure or function of a route -> the functions and texts its filter is made of"""
    r = _routes.get(id(p))
    if r is None:
        m = Routes(p)
        mains = [f for f in p.fns if f and f.d.get("local") and in_main(f)]
        co = [f for f in mains if f.d.get("coroutine")] or [f for f in mains if f.path == MAIN]
        if not co: raise Missing("the server's main function")
        run_root(p, co[0], m)
        r = _routes[id(p)] = m.found
    return r


def kind(p, f):
    """get, post or websocket: how a request handler is reached"""
    names = routes(p).get(f.id)
    if names is None: return "websocket" if f.d.get("coroutine") else None
    s = " ".join(names)
    if re.search(r"method::get\b|warp::get\b", s): return "get"
    if re.search(r"method::post\b|warp::post\b", s): return "post"
    return "other"


def handlers(rep, p):
    rs, hot = roots(p)
    if not rs: raise Missing("the request handlers that run queries")
    out = []
    for f in rs:
        k = kind(p, f)
        if k is None: raise Missing(f"the route of {f.path}")
        out.append((f, k))
        rep.count("request handlers")
    rep.count("functions analysed", len(hot))
    if not any(k == "websocket" for _, k in out): raise Missing("the websocket handler")
    if not any(k == "get" for _, k in out): raise Missing("the GET handler")
    return out


NAMES = {"get": "plain GET", "post": "plain POST", "websocket": "websocket", "other": "other request"}


# ---------------------------------------------------------------- C25
def gauges(p):
    """the statics behind the active and total query metrics"""
    ops = {}
    for f in local(p):
        stat = [c["static"] for c in consts_in(f) if "static" in c]
        for cl, _, _ in calls_in(p, f):
            n = cl.get("rp") or cl["p"]
            m = re.search(r"atomic::Atomic(\w*|::<\w+>)::(fetch_add|fetch_sub|load|store|swap)$", n)
            if m:
                for s in stat: ops.setdefault(s, set()).add(m.group(2))
    names = sorted(ops)
    act = [n for n in names if re.search(r"active", n, re.I)]
    tot = [n for n in names if re.search(r"total", n, re.I)]
    if not act: act = [n for n in names if "fetch_sub" in ops[n]]
    if not tot: tot = [n for n in names if "fetch_sub" not in ops[n] and n not in act]
    if len(act) != 1 or len(tot) != 1: raise Missing("the counters of active and total queries")
    return act[0], tot[0]


class Gauge(Web, Out):
    def __init__(self, p, act, tot):
        Web.__init__(self, p)
        Out.__init__(self)
        self.act, self.tot, self.n = act, tot, 0

    def atomic(self, c, name, op, by):
        st = c.st
        if name not in (self.act, self.tot):
            return
        self.n += 1
        k = "act" if name == self.act else "tot"
        if op in ("load",): return
        d = by.a[0] if by is not None and by.op == "c" else None
        if op not in ("fetch_add", "fetch_sub") or d != 1: return self.fail(f"the {'active' if k == 'act' else 'total'} counter", c.span, f"changed by {op}({show(by) if by is not None else ''}), not by one query", st)
        v = (st.g(k) or 0) + (1 if op == "fetch_add" else -1)
        st.setg(k, v)
        if op == "fetch_add":
            st.setg("ups " + k, min(3, (st.g("ups " + k) or 0) + 1))
        if not -1 <= v <= 2: self.fail("counter runs away", c.span, f"{op} again", st); st.setg(k, 0)
        if k == "act" and v < 0: self.fail("counter below zero", c.span, "a query that was not counted as active stops being counted", st)

    def parsed(self, c):
        st = c.st
        st.setg("query", True)

    def search(self, c, d):
        self.n += 1
        if (c.st.g("act") or 0) != 1: self.fail("searching", c.span, f"a query is searched while it is counted as active {c.st.g('act') or 0} times", c.st)
        if (c.st.g("tot") or 0) != 1: self.fail("searching uncounted", c.span, f"a query is searched that was counted {c.st.g('tot') or 0} times in the total", c.st)

    def end(self, st, span):
        how = "dropped while waiting" if st.g("cancelled") else "finished"
        self.n += 1
        a = st.g("act") or 0
        if a: self.fail(f"{how}, still active", span, f"the request ends and the number of active queries is {a:+d}", st)
        if st.g("query"):
            if st.g("ups act") != 1: self.fail(f"{how}, counted as active", span, f"a query was counted as active {st.g('ups act') or 0} times", st)
            if st.g("tot") != 1: self.fail(f"{how}, counted in the total", span, f"a query was counted {st.g('tot') or 0} times in the total", st)


def c25(rep, tier):
    rep.rule("balance", "on every way a request ends, and wherever its future is dropped, what it added to the active-query counter has been taken off again")
    rep.rule("once", "a request that reaches the parser is counted once as active and once in the total, and is counted as active while it searches")
    p = web_prog()
    act, tot = gauges(p)
    for f, k in handlers(rep, p):
        m = Gauge(p, act, tot)
        e, ex = run_root(p, f, m)
        if not ex: rep.ob("balance", NAMES[k] + " request", False, f.span, "the request never ends"); continue
        for st, _ in ex: m.end(st, f.span)
        rep.count("ways a request ends", len(ex))
        rep.count("awaits", sum((p.fns[i].d.get("awaits") or 0) for i in e.visited if isinstance(i, int) and p.fns[i] is not None))
        if k == "websocket" and not any(st.g("cancelled") for st, _ in ex): rep.ob("balance", "dropped websockets", False, f.span, "no await of the websocket handler was analysed")
        report(rep, "balance", NAMES[k] + " request", m, m.n, f.span)
    rep.note("all paths of the handlers, including the drop of the websocket's future at each of its awaits; library calls opaque")
    rep.assume("tokio drops a future it abandons; a handler that panics is C03's subject")


# ---------------------------------------------------------------- C26, C28
class Clocked(Web, Out):
    slots = True

    def __init__(self, p, k):
        Web.__init__(self, p)
        Out.__init__(self)
        self.k, self.n = k, 0

    def clock(self, c, st, v):
        old = st.gv("lastnow")
        if old is not None:
            st.assume(le(old, v), True)
            # what bounded the reading before on the side time moves away from
            for F, b in list(st.facts.items()):
                if F.op != "lin" or isinstance(b, bool) or old not in F.syms: continue
                k = dict(F.a[1]).get(old)
                if k is None: continue
                G = add(F, sub(mul(C(k), v), mul(C(k), old)))
                if k < 0 and b[1] < INF: self.eng.setfact(st, G, (-INF, b[1], frozenset()))
                if k > 0 and b[0] > -INF: self.eng.setfact(st, G, (b[0], INF, frozenset()))
        st.setgv("lastnow", v)
        st.setg("fresh", True)
        if self.slots and not st.g("searched"):
            s = f"{c.f.path}#{c.bb}"
            st.setg("slots", tuple(sorted(set(st.g("slots") or ()) | {s})))
            st.setgv("slot " + s, v)

    def deadline(self, c, d):
        """the deadline's term, or None"""
        if d.op == "adt" and d.a[2] == "Some": return d.a[3]
        if is_some(c.st, d) is TRUE: return getf(d, "Some.0")
        return None


class Boxed(Clocked):
    """C26"""
    def search(self, c, d):
        st = c.st
        self.n += 1
        last = st.g("last")
        if last == "Complete": self.fail("after completion", c.span, "the search is asked again after it completed", st)
        if last == "Timeout" and self.k != "websocket": self.fail("after the timeout", c.span, "the search is asked again after its timeout", st)
        x = self.deadline(c, d)
        if x is None: return self.fail("deadline", c.span, "the search has no deadline", st)
        total = 10 * SEC if self.k == "get" else 150 * SEC
        good = []
        for s in (st.g("slots") or ()):
            v = st.gv("slot " + s)
            if v is None: continue
            off = sub(x, v)
            if self.k == "websocket":
                if st.decide(le(off, C(total + SEC))) is TRUE and st.decide(le(off, C(total - SEC))) is not TRUE: good.append(s)
            elif off.op == "c" and off.a[0] == total: good.append(s)
            elif st.bnd(off) == (total, total): good.append(s)
        prev = st.g("anchor")
        if prev is not None: good = [s for s in good if s in prev]
        st.setg("anchor", tuple(good))
        st.setg("searched", True)
        if not good:
            lim = f"{total // SEC} s"
            self.fail("time box", c.span, f"the deadline {show(x)[:80]} is not shown to be " + (f"about {lim} (one slice more at most) after the start of the request" if self.k == "websocket" else f"{lim} after the start of the request, the same in every round"), st)
        elif self.k == "websocket":
            now = st.gv("lastnow")
            if not st.g("fresh") or now is None or not any(st.decide(le(sub(now, st.gv("slot " + s)), C(total + SEC))) is TRUE for s in good):
                self.fail("budget used up", c.span, "another slice is started without checking that the 150 s are not used up", st)
        st.setg("fresh", None)

    def answered(self, c, st, kind): st.setg("last", kind if kind in ("Complete", "Timeout") else None)


def c26(rep, tier):
    rep.rule("deadline", "every search the server runs has a deadline: 10 s after the start for a plain GET, 150 s for a plain POST, and for a websocket never more than 150 s after one instant of the same request")
    rep.rule("stops", "no search is asked again after it completed, nor after its timeout (plain HTTP), nor when 150 s have passed (websocket)")
    p = web_prog()
    for f, k in handlers(rep, p):
        m = Boxed(p, k)
        e, ex = run_root(p, f, m)
        rep.count("search calls on paths", m.n)
        if not m.n: rep.ob("deadline", NAMES[k] + " request", False, f.span, "no search is reached"); continue
        if not ex: rep.ob("stops", NAMES[k] + " request", False, f.span, "the request never ends")
        report(rep, "deadline", NAMES[k] + " request", m, m.n, f.span)
    rep.note("all paths of the handlers; times as integer nanoseconds, clock readings as symbols that do not decrease")
    rep.assume("next_within_deadline returns at its deadline (C09)")


class Watched(Clocked):
    """C28"""
    slots = False

    def received(self, c, st, what):
        st.setg("polled", True)
        if what == "gone": st.setg("gone", True)

    def built(self, c):
        self.n += 1
        if c.st.g("built"): self.fail("one query", c.span, "a second query is started on the same connection", c.st)
        c.st.setg("built", True)

    def search(self, c, d):
        st = c.st
        self.n += 1
        if st.g("gone"): self.fail("client gone", c.span, "the search goes on after the client has gone", st)
        if not st.g("polled"): self.fail("client not checked", c.span, "a slice is searched without looking whether the client has gone since the slice before", st)
        st.setg("polled", None)
        x = self.deadline(c, d)
        now = st.gv("lastnow")
        if x is None: return self.fail("slice", c.span, "a slice without a deadline", st)
        if now is None or not st.g("fresh") or st.decide(le(sub(x, now), C(SEC))) is not TRUE:
            self.fail("slice length", c.span, f"the slice until {show(x)[:80]} is not shown to be at most 1 s from the present", st)
        st.setg("fresh", None)
        st.setg("searched", True)


def c28(rep, tier):
    rep.rule("watch", "between two slices of a websocket search the receive stream is polled, and after it ended no slice follows")
    rep.rule("slice", "a slice ends at most 1 s after a clock reading taken since the slice before")
    rep.rule("own", "one evaluator per connection, and none in a static")
    p = web_prog()
    for f, k in handlers(rep, p):
        if k != "websocket": continue
        m = Watched(p, k)
        e, ex = run_root(p, f, m)
        rep.count("slices on paths", m.n)
        if not m.n: rep.ob("watch", NAMES[k] + " request", False, f.span, "no search is reached"); continue
        report(rep, "watch", NAMES[k] + " request", m, m.n, f.span)
    for f in p.fns:
        if not f or not f.d.get("local"): continue
        for c in consts_in(f):
            if "static" in c and "QueryEvaluator" in p.tys[c["t"]]["s"]: rep.ob("own", f"static {c['static']}", False, f.span, "a search is kept in a static, where connections share it")
    rep.ob("own", "statics", True, "", "no static holds a search")
    rep.note("all paths of the websocket handler; lengths in nanoseconds")
    rep.assume("the receive stream ends when the client disconnects (warp); next_within_deadline returns at its deadline (C09)")


# ---------------------------------------------------------------- C07, the plain-text default
class Limited(Web, Out):
    def __init__(self, p, k):
        Web.__init__(self, p)
        Out.__init__(self)
        self.k, self.n = k, 0

    def built(self, c):
        st = c.st
        self.n += 1
        ast = content(st, c.args[0])
        parsed = [t for t in walk_terms(ast) if t.op == "app" and t.a[0] == "parse"]
        if len(set(parsed)) != 1: return self.fail("query", c.span, f"the searched query is not the parsed one but {show(ast)[:80]}", st)
        was = getf(getf(getf(parsed[0], "Ok.0"), "options"), "results_limit")
        now = getf(getf(ast, "options"), "results_limit")
        had = is_some(st, was)
        same = now is was or now.op == "adt" and now.a[2] == "Some" and had is TRUE and now.a[3] is getf(was, "Some.0") or had is FALSE and now.op == "adt" and now.a[2] == "None"
        if self.k == "get":
            if had is TRUE: ok, want = same, "its own limit"
            elif had is FALSE: ok, want = now.op == "adt" and now.a[2] == "Some" and now.a[3].op == "c" and now.a[3].a[0] == 15, "15"
            else: ok, want = False, "15 without a limit of its own, or its own"
        else: ok, want = same, "what the query says"
        if not ok: self.fail("results limit", c.span, f"the limit is {show(now)[-160:]}, not {want}", st)


def walk_terms(v):
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        yield x
        for y in x.a:
            if hasattr(y, "op"): todo.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if hasattr(z, "op"): todo.append(z)
                    elif isinstance(z, tuple): todo += [w for w in z if hasattr(w, "op")]


def c07_web(rep):
    rep.rule("web", "the server searches a plain GET without a limit of its own with limit 15, and leaves every other query's limit alone")
    p = web_prog()
    for f, k in handlers(rep, p):
        m = Limited(p, k)
        run_root(p, f, m)
        rep.count("queries the server builds", m.n)
        if not m.n: rep.ob("web", NAMES[k] + " request", False, f.span, "no query is built"); continue
        report(rep, "web", NAMES[k] + " request", m, m.n, f.span)


# ---------------------------------------------------------------- C30
def whole(x):
    """strip views of all of a sequence"""
    while True:
        if x.op == "subseq" and x.a[1] is C(0) and x.a[2] is seqlen(x.a[0]): x = x.a[0]
        elif x.op == "O": x = x.a[0]
        else: return x


def text_of(st, v):
    for _ in range(10):
        w = whole(content(st, v))
        if w is v: break
        v = w
    return v


class Chosen(Web, Out):
    def __init__(self, p, k):
        Web.__init__(self, p)
        Out.__init__(self)
        self.k, self.n = k, 0

    def looked_up(self, c, st, name, found): st.setg("found " + str(text_of(st, name).id), found)

    def built(self, c):
        st = c.st
        self.n += 1
        ast = content(st, c.args[0])
        parsed = {t for t in walk_terms(ast) if t.op == "app" and t.a[0] == "parse"}
        if len(parsed) != 1: return self.fail("query", c.span, f"the searched query is not the parsed one but {show(ast)[:80]}", st)
        d = getf(getf(getf(parsed.pop(), "Ok.0"), "options"), "dictionary")
        for o in ("dictionary", "wordlist"):
            if getf(getf(ast, "options"), o) is not getf(getf(getf([t for t in walk_terms(ast) if t.op == "app" and t.a[0] == "parse"][0], "Ok.0"), "options"), o): return self.fail(o, c.span, f"the handler changes the query's {o}", st)
        w = text_of(st, c.args[1])
        got = text_of(st, w.a[1]) if w.op == "app" and w.a[0] == "list" else None
        if got is None: return self.fail("words", c.span, f"the words searched are not a loaded list but {show(w)[:80]}", st)
        had = is_some(st, d)
        isdef = got.op == "s" and got.a[0] in ("default", '"default"')
        if had is FALSE: ok, want = isdef, "the default list"
        elif had is TRUE:
            name = text_of(st, getf(d, "Some.0"))
            f = st.g("found " + str(name.id))
            if f is True: ok, want = got is name, "the list the query names"
            elif f is False: ok, want = isdef, "the default list, as there is none of that name"
            else: ok, want = False, "the list the query names, if there is one"
        else: ok, want = False, "the list the query names"
        if not ok: self.fail("words", c.span, f"the list {show(got)[:60]} is searched, not {want}", st)


ENTRY = re.compile(r"^std::fs::|^std::ffi::|^std::path::|OsString|OsStr|Path(Buf)?\b|FileType|ReadDir")


class Loading(Web, Out):
    """the server's wordlists, as they are loaded"""
    def __init__(self, p):
        Web.__init__(self, p)
        Out.__init__(self)
        self.n = 0

    def finish(self, c, st):
        if st.g("loaded") == "pending": self.fail("lost list", c.span if c is not None else "", "a list was loaded and then not kept", st)
        st.setg("loaded", None)

    def on_call(self, c):
        st, path, p, a = c.st, c.path, c.p, c.args
        if re.search(r"<std::fs::ReadDir as std::iter::Iterator>::next$", path):
            self.finish(c, st)
            v = self.fresh(c, "entry")
            s2 = st.copy()
            st.setgv("entry", v)
            st.setg("has", None)
            st.setg("cut", None)
            st.setgv("asked", None)
            return [(st, opt(self.ok(v))), (s2, opt())]
        if re.search(r"noodle::.*load_wordlist$|^load::load_wordlist", path):
            self.n += 1
            self.finish(c, st)
            e = st.gv("entry")
            if e is None or e not in text_of(st, a[0]).syms: self.fail("file", c.span, f"the list is not loaded from the file looked at but from {show(a[0])[:60]}", st)
            v = self.fresh(c, "list")
            st.setg("loaded", "pending")
            st.setgv("list", v)
            return [(st, self.ok(v))]
        m = re.search(r"(?:HashMap|BTreeMap)::<K, V.*>::entry$", path)
        if m:
            # the entry of a name: one that is taken, or a free slot which remembers the name
            n, out = text_of(st, a[1]), []
            entries = "std::collections::%s::Entry" % ("btree_map" if "BTreeMap" in path else "hash_map")
            for i, v in enumerate(self.p.adts.get(entries, {}).get("variants") or [{"name": "Vacant"}, {"name": "Occupied"}]):
                f = v["name"] == "Occupied"
                s = st.copy()
                if s.g("has") is not None and s.gv("asked") is n and s.g("has") != f: continue
                s.setg("has", f)
                s.setgv("asked", n)
                out.append((s, adt(entries, i, v["name"], mk("taken", n) if f else mk("slot", n))))
            return out
        m = re.search(r"(HashMap|BTreeMap)::<K, V.*>::(insert|contains_key|get|remove|clear|retain|drain)$|(?:hash|btree)_map::(VacantEntry)::<.*>::(insert)$", path)
        if m:
            op = m.group(2) or m.group(4)
            if op == "contains_key" or op == "get":
                n = text_of(st, a[1])
                out = []
                for f in (True, False):
                    s = st.copy()
                    h = st.g("has")
                    if h is not None and st.gv("asked") is n and h != f: continue
                    s.setg("has", f)
                    s.setgv("asked", n)
                    out.append((s, C(f) if op == "contains_key" else opt(self.fresh(c, "kept")) if f else opt()))
                return out
            if op == "insert":
                self.n += 1
                n, l, e = text_of(st, a[1]) if m.group(2) else a[0].a[0] if a[0].op == "slot" else mk("app", "?"), st.gv("list"), st.gv("entry")
                if e is None or e not in n.syms: self.fail("name", c.span, f"a list is filed under {show(n)[:60]}, not under its file's name", st)
                if l is None or content(st, a[-1]) is not l and l not in a[-1].syms: self.fail("list", c.span, "another list than the one just loaded is filed", st)
                if st.g("has") is not False or st.gv("asked") is not n: self.fail("overwritten", c.span, "a list is filed under a name without looking whether one of that name is loaded already", st)
                st.setg("loaded", None)
                return [(st, opt(self.fresh(c, "previous")))]
            self.fail("removal", c.span, f"lists are taken out again by {op}", st)
        if re.search(r"core::str::<impl str>::\w+$|<(std|core)::str::\w*Split\w*<.*Iterator>::next$|iter::Iterator::collect$", path):
            op = path.rsplit("::", 1)[1]
            vs = [text_of(st, x) for x in a]
            t = mk("app", path, *vs)
            s2 = st.copy()
            if op in ("split_once", "rsplit_once", "find", "rfind", "strip_suffix", "strip_prefix", "next"):
                st.setg("cut", ((st.g("cut") or ()) + (True,))[:6])
                s2.setg("cut", ((s2.g("cut") or ()) + (False,))[:6])
            if op in ("split_once", "rsplit_once"): return [(st, opt(mk("tup", mk("app", path + "#0", *vs), mk("app", path + "#1", *vs)))), (s2, opt())]
            if op in ("find", "rfind", "strip_suffix", "strip_prefix", "next"): return [(st, opt(t)), (s2, opt())]
            return [(st, t)]
        if ENTRY.search(path) and (c.key is None or not self.mine(c.key)):
            t = mk("app", path, *[content(st, x) for x in a])
            if re.search(r"Result::|into_string$|file_type$|metadata$", path): t = self.ok(t)
            return [(st, t)]
        return super().on_call(c)


class Served(Chosen):
    """the wordlist route"""
    def __init__(self, p, param):
        super().__init__(p, "other")
        self.param = param

    def on_call(self, c):
        st = c.st
        if re.search(r"stream::iter$|iter_ok$", c.path):
            self.n += 1
            w = [t for t in walk_terms(mk("tup", *c.args)) if t.op == "app" and t.a[0] == "list"]
            names = {text_of(st, t.a[1]) for t in w}
            name = text_of(st, self.param)
            f = st.g("found " + str(name.id))
            if f is None: self.fail("served", c.span, "a list is served without looking for the one that was asked for", st)
            elif f and names != {name}: self.fail("served", c.span, "another list than the one asked for is served", st)
        return super().on_call(c)


def c30(rep, tier):
    rep.rule("dictionary", "the server searches the list the query names if that list is loaded, and the default list otherwise, in every kind of request")
    rep.rule("inline", "an evaluator built from a query searches the query's own wordlist if it has one, and the list it is given otherwise")
    rep.rule("loaded", "every list that is loaded is filed under its own file's name, and none is overwritten, lost or removed")
    p = web_prog()
    for f, k in handlers(rep, p):
        m = Chosen(p, k)
        run_root(p, f, m)
        rep.count("queries the server builds", m.n)
        if not m.n: rep.ob("dictionary", NAMES[k] + " request", False, f.span, "no query is built"); continue
        report(rep, "dictionary", NAMES[k] + " request", m, m.n, f.span)
    # loading
    maps = [f for f in local(p) if any(re.search(r"load_wordlist$", cl.get("rp") or cl["p"]) for cl, _, _ in calls_in(p, f))]
    if not maps: raise Missing("the function that loads the server's wordlists")
    loc = {f.id for f in local(p)}
    while True:
        up = [f for f in local(p) if not in_main(f) and f not in maps and any(g.id in calls(p, f) for g in maps) and not any(re.search(r" as std::ops::Deref>::deref$|LazyStatic", f.path) for _ in (1,))]
        if not up: break
        maps = [f for f in maps if not any(f.id in calls(p, g) for g in up)] + up
    for f in maps:
        m = Loading(p)
        e, ex = run_root(p, f, m)
        for st, v in ex: m.finish(None, st)
        rep.count("list loads on paths", m.n)
        if m.n < 2: rep.ob("loaded", "server's wordlists", False, f.span, "no list is loaded and filed"); continue
        report(rep, "loaded", "server's wordlists", m, m.n, f.span)
    _, hot = roots(p)
    for i, names in routes(p).items():
        f = p.fns[i]
        if f is None or f.id in hot or not re.search(r"'\"?wordlist\"?'", " ".join(names)) or not f.d.get("local"): continue
        args = [mk("sym", "arg", f"{f.names.get(j + 1, '')}#{j}") for j in range(f.argc)]
        m = Served(p, args[-1])
        run_root(p, f, m, args)
        rep.count("lists served on paths", m.n)
        if m.n: report(rep, "dictionary", "wordlist route", m, m.n, f.span)
    # the library's part
    q = prog("lib")
    f = fn1(q, r"^query::QueryEvaluator::from_ast$")
    ai = [i for i in range(f.argc) if re.search(r"&.*\[.*Word\]", q.tys[f.locals[i + 1][0]]["s"])]
    aq = [i for i in range(f.argc) if i not in ai]
    if len(ai) != 1 or len(aq) != 1: raise Missing("the arguments of from_ast")
    e = Engine(q, [], opaque=lambda x: bool(re.search(r"WordMatcher.*::new|bitset|Expression::from_ast", x)))
    n = 0
    for st, v in e.start(f):
        ph = getf(v, "phase")
        got = [x for x in ph.a[3:] if x.op in ("ref", "arg") and not walks_matchers(x)]
        own = mk("fld", mk("fld", mk("*", arg(aq[0], f)), "options"), "wordlist")
        had = is_some(st, own)
        n += 1
        t = [text_of(st, x) for x in got]
        given = text_of(st, arg(ai[0], f))
        want = mk("fld", own, "Some.0") if had is TRUE else given
        ok = had is not None and len(t) == 1 and t[0] is want
        rep.ob("inline", "from_ast", ok, f.span, f"searches {[show(x)[:60] for x in t]} where the query {'has' if had is TRUE else 'has no'} list of its own", path=st.path())
    rep.count("ways to build an evaluator", n)
    if not n: rep.ob("inline", "from_ast", False, f.span, "no evaluator is built")
    rep.note("all paths of the handlers, of the loading of the server's lists and of from_ast")
    rep.assume("a server without a list called default is misconfigured (its handlers then panic on the first query)")


def walks_matchers(x): return any(t.op in ("phi",) for t in walk_terms(x))


# ---------------------------------------------------------------- C03
PANICKY = re.compile(r"(Vec::<T, A>|String|VecDeque::<.*>)::(remove|swap_remove|insert|split_off|drain|replace_range|swap)$|str>::(split_at|split_at_mut)$|\[T\]>::(split_at|split_at_mut|copy_from_slice|clone_from_slice|copy_within|chunks|windows|swap|rotate_left|rotate_right|select_nth_unstable)$|Duration::(from_secs_f64|from_secs_f32|mul_f64|mul_f32|div_f64)$|RefCell<?.*>?::(borrow|borrow_mut)$|bytes::Bytes::(slice|split_to|split_off|slice_ref)$|Buf>?::(get_\w+|advance|copy_to_slice)$|std::process::(abort|exit)$|HashMap<.*Index<.*>>::index$|Message::(into_text)$|std::thread::(spawn|scope)$|block_on$")


class NoPanic(Web, Out):
    def __init__(self, p):
        Web.__init__(self, p)
        Out.__init__(self)
        self.n = 0

    def on_call(self, c):
        self.n += 1
        if c.f.d.get("local") and re.search(r"(<impl .*Index<.*> for str>|<std::string::String as .*Index<.*>>)::index(_mut)?$|str>::(split_at|split_at_mut)$", c.path):
            st = c.st
            ends = [x for x in (c.args[1].a[3:] if c.args[1].op == "adt" else c.args[1:])]
            whole_ = text_of(st, c.args[0])
            bad = [x for x in ends if not (x is C(0) or x is seqlen(whole_) or any(t.op == "app" and re.search(r"find|char_indices|len_utf8|match_indices|CharIndices", str(t.a[0])) for t in walk_terms(x)))]
            if bad: self.fail("slice of text", c.span, f"text is cut at {show(bad[0])[:60]}, which may be beyond its end or inside a character", st)
        r = super().on_call(c)
        if r is None and PANICKY.search(c.path) and (c.key is None or self.p.fns[c.key] is None) and c.f.d.get("local"):
            self.fail(c.path.split("::")[-1], c.span, f"{c.path} panics on some arguments", c.st)
        return r

    def on_panic(self, st, kind, fn, ctx, span, info=None):
        s, g = where(self.p, self.eng, fn, ctx, span)
        m = re.search(r"(\w+)$", kind)
        self.fail(f"{norm(g.path)}: {m.group(1) if m else kind}", s, "this can panic", st)


SHRINK = re.compile(r"Vec::<T, A>::(remove|swap_remove|pop|pop_if|clear|retain|retain_mut|truncate|split_off|dedup\w*|extract_if|resize|resize_with)$")


def elems(p, cl):
    """the element types of the vectors a call is about"""
    out = set()
    for t in cl.get("a") or []:
        if not isinstance(t, int): continue
        s = re.sub(r"<'\w+>", "", p.tys[t]["s"])
        while True:
            m = re.fullmatch(r"(?:&(?:mut )?)?(?:std::vec::Vec<(.*)>|\[(.*)\])", s)
            if not m: break
            s = m.group(1) or m.group(2)
        if "::" in s and not re.match(r"std::|\{", s): out.add(s)
    return out


class NoCrash:
    """progress(): what the vectors of the phase hold is left to their types: those no call ever takes elements out of have a first element"""
    def __init__(self, p, shrunk): self.p, self.shrunk, self.bad = p, shrunk, {}

    def on_panic(self, st, kind, fn, ctx, span, info=None):
        if kind == "bounds" and hasattr(info, "args") and info.args[1] is C(0):
            el = elems(self.p, info.callee)
            if el and not el & self.shrunk: return
        self.bad.setdefault(f"{norm(fn.path)}: {kind}", (span, st))


def c03(rep, tier):
    rep.rule("handlers", "no request handler can panic on what a client sends or on its leaving: no unwrap, index, division or arithmetic of its code can fail")
    rep.rule("progress", "progress reports cannot panic: no division by zero, no index out of bounds, no negative remainder")
    p = web_prog()
    todo = {f.id: f for f, k in handlers(rep, p)}
    for i in routes(p):
        f = p.fns[i]
        if f is not None and f.d.get("local"): todo.setdefault(i, f)
    for i, f in sorted(todo.items()):
        m = NoPanic(p)
        e, ex = run_root(p, f, m)
        rep.count("handlers", 1)
        rep.count("calls on paths", m.n)
        if not ex: rep.ob("handlers", norm(f.path), False, f.span, "the handler never answers")
        report(rep, "handlers", norm(f.path), m, m.n, f.span)
    q = prog("lib")
    f = fn1(q, r"^query::QueryEvaluator::progress$")
    shrunk = set()
    for g in q.fns:
        if g is None or not g.d.get("local"): continue
        for cl, _, _ in calls_in(q, g):
            if SHRINK.search(cl.get("rp") or cl["p"]): shrunk |= elems(q, cl)
    m = NoCrash(q, shrunk)
    e = Engine(q, [m], opaque=lambda x: False)
    n = e.start(f)
    if not n: rep.ob("progress", "progress", False, f.span, "it never returns")
    for k, (sp, st) in m.bad.items(): rep.ob("progress", k, False, sp, "this can panic", path=st.path())
    if not m.bad: rep.ob("progress", "progress", True, f.span, f"{len(e.visited)} functions")
    rep.count("functions analysed", len(e.visited))
    rep.note("all paths of every handler reachable from the server's routes, and of progress()")
    rep.assume("the library calls of the handlers (parsing, searching) are C01's, C02's and C09's subject; turning a response into JSON, writing to a String and reuniting the two halves of one websocket cannot fail; memory does not run out")
    rep.assume("the vectors of an evaluator's phase that nothing shrinks were not empty when it was built; counters stay below 2^64 / 100")
