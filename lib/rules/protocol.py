"""C27: the messages of the websocket handler against the page that reads them, and the directives the page writes
against the query grammar."""
import html.parser
import dumps, js
from base import *
from rules.web import *
from rules import cli, parser as qp

TEXT_TY = re.compile(r"^(std::string::String|str|std::boxed::Box<str>|std::borrow::Cow<.*str>|std::rc::Rc<str>|std::sync::Arc<str>|char|std::path::PathBuf|std::fmt::Arguments<.*>)$")
NUM_TY = re.compile(r"^(u|i)(8|16|32|64|128|size)$|^f(32|64)$")
SEQ_TY = re.compile(r"^(std::vec::Vec<(?P<a>.*)>|\[(?P<b>.*?)(; .*)?\]|smallvec::SmallVec<\[(?P<c>.*); .*\]>|std::collections::(?:VecDeque|BTreeSet|HashSet)<(?P<d>.*?)>|std::boxed::Box<\[(?P<e>.*)\]>)$")


# ---------------------------------------------------------------- what is sent
class Ser:
    """abstract run of a Serialize implementation: the JSON value it describes"""
    def __init__(self, p, q): self.p, self.q, self.eng = p, q, None

    def on_call(self, c):
        st, p, a = c.st, c.p, c.args
        m = re.search(r"serde::(?:ser::)?(Serializer|Serialize\w+)::(\w+)$", p)
        if not m: return None
        tr, op = m.groups()
        ts = [self.p.tys[t]["s"] for t in c.callee.get("a") or [] if isinstance(t, int)]
        s = lambda v: text_of(st, v).a[0] if text_of(st, v).op == "s" else "?"
        okv = lambda v: [(st, adt("std::result::Result", 0, "Ok", v))]
        val = lambda i: self.shape(ts[-1]) if ts else ("any",)
        if tr == "Serializer":
            if op == "serialize_newtype_variant": return okv(sh(("obj", {s(a[3]): val(4)})))
            if op == "serialize_unit_variant": return okv(sh(("const", s(a[3]))))
            if op == "serialize_newtype_struct": return okv(sh(val(2)))
            if op in ("serialize_struct", "serialize_map"): return self.open(c, ("struct", None))
            if op == "serialize_struct_variant": return self.open(c, ("struct", s(a[3])))
            if op == "serialize_tuple_variant": return self.open(c, ("tuple", s(a[3])))
            if op in ("serialize_tuple", "serialize_tuple_struct", "serialize_seq"): return self.open(c, ("tuple", None))
            if op == "serialize_str": return okv(sh(("str",)))
            if op in ("serialize_none", "serialize_unit", "serialize_unit_struct"): return okv(sh(("null",)))
            if op == "serialize_some": return okv(sh(val(1)))
            if op == "serialize_bool": return okv(sh(("bool",)))
            if re.match(r"serialize_[uif]\d+$", op): return okv(sh(("num",)))
            if op == "collect_str": return okv(sh(("str",)))
            return okv(sh(("any",)))
        if op in ("serialize_field", "serialize_entry", "serialize_element"):
            k = s(a[1]) if op != "serialize_element" and len(a) > 2 else None
            cur = st.g("ser")
            st.setg("ser", (cur[0], cur[1], cur[2] + ((k, freeze(val(0))),)))
            return okv(UNIT)
        if op == "skip_field": return okv(UNIT)
        if op == "end":
            kind, var, fs = st.g("ser")
            x = ("obj", {k: thaw(v) for k, v in fs}) if kind == "struct" else ("tuple", [thaw(v) for _, v in fs])
            return okv(sh(x if var is None else ("obj", {var: x})))
        raise Missing(f"serde's {tr}::{op}")

    def open(self, c, what):
        c.st.setg("ser", (what[0], what[1], ()))
        return [(c.st, adt("std::result::Result", 0, "Ok", mk("ser")))]

    def shape(self, t): return shape_of(self.p, self.q, t)


_sh = {}


def sh(x):
    """a JSON shape as a term"""
    k = repr(x)
    _sh[k] = x
    return mk("json", k)


def freeze(x): return sh(x).a[0]


def thaw(k): return _sh[k]


def args_of(s):
    """the generic arguments of a type's text, split at the top level"""
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<[(": d += 1
        if ch in ">])": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    return out + [cur.strip()] if cur.strip() else out


def shape_of(p, q, t, depth=0):
    """JSON shape of a type (its text), from how serde serializes it"""
    t = re.sub(r"^(&('\w+ )?(mut )?|std::boxed::Box<(?!str>)(?=.*>$))", "", t.strip()) if t.startswith("&") else t
    if depth > 8: raise Missing("the JSON form of " + t)
    if t.startswith("&"): return shape_of(p, q, t, depth + 1)
    if TEXT_TY.match(t): return ("str",)
    if NUM_TY.match(t): return ("num",)
    if t == "bool": return ("bool",)
    if t == "()": return ("null",)
    m = re.match(r"^std::(boxed::Box|rc::Rc|sync::Arc|borrow::Cow)<(.*)>$", t)
    if m and not m.group(2).startswith("["): return shape_of(p, q, args_of(m.group(2))[-1], depth + 1)
    m = SEQ_TY.match(t)
    if m: return ("arr", shape_of(p, q, next(x for x in m.groupdict().values() if x), depth + 1), 2)
    m = re.match(r"^std::option::Option<(.*)>$", t)
    if m: return ("opt", shape_of(p, q, m.group(1), depth + 1))
    if t.startswith("("): return ("tuple", [shape_of(p, q, x, depth + 1) for x in args_of(t[1:-1])])
    vs = adt_shapes(p, q, re.sub(r"<.*", "", t))
    return vs[0][1] if len(vs) == 1 else ("alt", [s for _, s in vs])


_shapes = {}


def adt_shapes(p, q, name):
    """[(variant, shape)] of a type with its own Serialize implementation"""
    if name in _shapes: return _shapes[name]
    last = name.rsplit("::", 1)[-1]
    out = []
    for prog_ in (p, q):
        fs = [f for f in prog_.fns if f and re.search(r"<impl (\w+::)*Serialize for (\w+::)*%s(<.*>)?>::serialize$|<(\w+::)*%s(<.*>)? as (\w+::)*Serialize>::serialize$" % (last, last), f.path)]
        if fs:
            f = fs[0]
            m = Ser(p, q)
            m.p = prog_
            e = Engine(prog_, [m], opaque=lambda x: False, budget=100000)
            m.eng = e
            seen = {}
            ty = prog_.tys[f.locals[1][0]]["s"].lstrip("&")
            a = prog_.adts.get(ty) or prog_.adts.get(re.sub(r"<.*", "", ty)) or next((v for k, v in prog_.adts.items() if k.rsplit("::", 1)[-1] == last), None)
            multi = a is not None and len(a["variants"]) > 1
            for i, v in enumerate(a["variants"] if multi else [None]):
                R = mk("root", "value")
                init = adt(ty, i, v["name"], *[mk("sym", "field", v["name"], j) for j in range(len(v["fields"]))]) if multi else mk("sym", "value", ty)
                for st, r in e.start(f, [mk("ref", R, (), False), mk("sym", "serializer")], mem={R: init}):
                    if r.op != "adt" or r.a[2] == "Err": continue
                    x = r.a[3]
                    if x.op != "json": raise Missing(f"the JSON form of {name}")
                    seen.setdefault((v["name"] if multi else last, x.a[0]), None)
            out = [(v, thaw(k)) for v, k in seen]
            break
    if not out: raise Missing("how " + name + " is serialized")
    _shapes[name] = out
    return out


def forms(s):
    """the shapes without alternatives in them"""
    if s[0] == "alt": return [y for x in s[1] for y in forms(x)]
    if s[0] == "opt": return [("null",)] + forms(s[1])
    if s[0] == "obj":
        out = [{}]
        for k, v in s[1].items(): out = [dict(o, **{k: y}) for o in out for y in forms(v)]
        return [("obj", o) for o in out]
    if s[0] == "arr": return [("arr", y, s[2]) for y in forms(s[1])]
    if s[0] == "tuple": return [("arr", s[1][0], len(s[1]))] if s[1] else [("arr", ("any",), 0)]
    return [s]


def leaves(s, path="data"):
    if s[0] == "obj": return [x for k, v in s[1].items() for x in leaves(v, f"{path}.{k}")]
    if s[0] == "arr": return leaves(s[1], path + "[]") if s[2] else []
    return [(path, s)]


class Frames(Web):
    """websocket frames: what each is made of"""
    def __init__(self, p):
        super().__init__(p)
        self.made, self.n = {}, 0

    def on_call(self, c):
        st, path, a = c.st, c.path, c.args
        m = re.search(r"serde_json::(?:ser::|value::)?(to_\w+)$", path)
        if m:
            t = self.p.tys[c.callee["a"][-1 if m.group(1) != "to_writer" else 1]]["s"] if c.callee.get("a") else "?"
            return [(st, adt("std::result::Result", 0, "Ok", mk("jsontext", t, m.group(1))))]
        m = re.search(r"warp::(?:filters::)?ws::Message::(\w+)$", path)
        if m and m.group(1) in ("text", "binary", "close_with", "ping", "close", "pong"):
            self.n += 1
            v = text_of(st, a[0]) if a else UNIT
            while v.op == "app" and len(v.a) > 1: v = text_of(st, v.a[1])
            self.made.setdefault((m.group(1), v), c.span)
            return [(st, mk("frame", v))]
        return super().on_call(c)


class Status(Web):
    """whether the texts of messages are never empty"""
    def __init__(self, p, adt_name):
        super().__init__(p)
        self.name, self.texts = adt_name, {}
        self.t = cli.Cli(p, None)

    def on_call(self, c):
        self.t.eng = self.eng
        if re.search(r"fmt::|String|str::|ToString|ToOwned|Into|From", c.path) and (c.key is None or not self.mine(c.key)):
            r = self.t.text(c)
            if r is not None: return r
        return super().on_call(c)

    def on_agg(self, st, v, ctx):
        if v.op == "adt" and v.a[0] == self.name:
            ne = []
            for x in v.a[3:]:
                ps = cli.pieces(st, x)
                ne.append(ps is not None and any(y.op == "s" and y.a[0] for y in ps))
            k = (v.a[2], tuple(ne))
            if k not in self.texts: self.texts[k] = (st.path(), [cli.told(cli.pieces(st, x) or (x,))[:60] for x in v.a[3:]])


def messages(rep, p, q):
    """[(name, shape)]: every message the websocket handler can send"""
    rs, hot = roots(p)
    ws = [f for f in rs if kind(p, f) == "websocket"]
    if not ws: raise Missing("the websocket handler")
    ids = set()
    todo = [f.id for f in ws]
    while todo:
        i = todo.pop()
        if i in ids or p.fns[i] is None: continue
        ids.add(i)
        f = p.fns[i]
        todo += [j for j in calls(p, f) if p.fns[j] is not None and p.fns[j].d.get("local")]
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] in ("closure", "coroutine"): todo.append(s[2][1][1])
        todo += [g["key"] for g in referenced(f) if isinstance(g, dict) and g.get("key") is not None] if False else []
    fs = [p.fns[i] for i in sorted(ids) if p.fns[i] is not None]
    makes = [f for f in fs if any(re.search(r"warp::(filters::)?ws::Message::(text|binary|close_with)$", cl.get("rp") or cl["p"]) for cl, _, _ in calls_in(p, f))]
    makes += [f for f in local(p) if f not in makes and f.id not in ids and any(re.search(r"warp::(filters::)?ws::Message::(text|binary)$", cl.get("rp") or cl["p"]) for cl, _, _ in calls_in(p, f))]
    if not makes: raise Missing("where the websocket's frames are made")
    # helpers are seen from their callers
    while True:
        up = []
        for f in makes:
            cs = [g for g in local(p) if f.id in calls(p, g) and not g.d.get("coroutine") and g.id != f.id]
            up += cs or [f]
        up = list({f.id: f for f in up}.values())
        if {f.id for f in up} == {f.id for f in makes}: break
        makes = up
    types = {}
    for f in makes:
        m = Frames(p)
        run_root(p, f, m)
        rep.count("places that make frames")
        if not m.made: rep.ob("frames", f.path, False, f.span, "no frame is seen to be made here")
        for (how, v), span in m.made.items():
            ok = how == "text" and v.op == "jsontext" and v.a[1] in ("to_string", "to_string_pretty")
            rep.ob("frames", f"{how} frame in {re.sub(r'::{closure#0}', '', f.path)}", ok, span, f"the frame holds {show(v)[:80]}, not the JSON text of a message")
            if ok: types.setdefault(v.a[0].lstrip("&"), span)
    if not types: raise Missing("what the websocket's messages are made of")
    out = []
    for t, span in sorted(types.items()):
        if t not in p.adts and re.fullmatch(r"\w+", t): raise Missing("the type of the messages, " + t)
        texts = {}
        m = Status(p, t)
        for f in ws: run_root(p, f, m)
        for (v, ne), _ in m.texts.items(): texts.setdefault(v, []).append(ne)
        for v, s in adt_shapes(p, q, t):
            if v not in texts: rep.note(f"{t}::{v} is never sent")
            # a text that every sender makes non-empty
            full = all(all(x for x in ne) for ne in texts.get(v, [[False]]))
            for g in forms(s):
                if full and g[0] == "obj" and len(g[1]) == 1 and list(g[1].values())[0] == ("str",): g = ("obj", {k: ("str", True) for k in g[1]})
                out.append((f"{t}::{v}", g, span))
    return out


# ---------------------------------------------------------------- the page
class Html(html.parser.HTMLParser):
    def __init__(self):
        super().__init__()
        self.ids, self.scripts, self.stack = {}, [], []
        self.select = self.option = self.script = None

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "select": self.select = a.get("id")
        if a.get("id") is not None and a["id"] not in self.ids: self.ids[a["id"]] = [tag, a, [] if tag == "select" else None, ""]
        if tag == "option" and self.select is not None:
            self.option = ["", a]
        if tag == "script" and (a.get("type") or "text/javascript") in ("text/javascript", "module", "application/javascript"): self.script = [a.get("src"), "", self.getpos()[0]]

    def handle_endtag(self, tag):
        if tag in ("option", "select"): self.close()
        if tag == "select": self.select = None
        if tag == "script" and self.script is not None:
            self.scripts.append(tuple(self.script))
            self.script = None

    def close(self):
        if self.option is not None and self.select in self.ids:
            t, a = self.option
            self.ids[self.select][2].append((a["value"] if a.get("value") is not None else t.strip(), "selected" in a))
        self.option = None

    def handle_data(self, d):
        if self.script is not None: self.script[1] += d
        elif self.option is not None: self.option[0] += d


class Listing(Web):
    """the script that tells the page the server's wordlists"""
    LISTS = [("default", 3), ("other-list_2.x", 700)]

    def __init__(self, p):
        super().__init__(p)
        self.t = cli.Cli(p, None)
        self.t.mute = False
        self.out = {}

    def on_call(self, c):
        st, path, a = c.st, c.path, c.args
        self.t.eng = self.eng
        ref = lambda x: mk("ref", mk("K", x), (), False)
        if re.search(r"(HashMap|BTreeMap)::<K, V.*>::(iter|keys|values)$|^<&(std::collections::)?(HashMap|BTreeMap)<.*> as std::iter::IntoIterator>::into_iter$", path):
            op = path.rsplit("::", 1)[1]
            xs = [(ref(mk("txt", mk("s", n))), ref(mk("list", n, k))) for n, k in self.LISTS]
            xs = [x if op == "keys" else y if op == "values" else tup(x, y) for x, y in xs]
            from models import it
            return [(st, it("vec", mk("vec", *xs), C(0), C(len(xs))))]
        m = re.search(r"(?:HashMap|BTreeMap)::<K, V.*>::(get|get_key_value|contains_key)$|(?:HashMap|BTreeMap)<K, V.*> as std::ops::Index<.*>>::(index)$", path)
        if m and len(a) > 1:
            ps = cli.pieces(st, a[1])
            if ps is not None and len(ps) == 1 and ps[0].op == "s":
                hit = [mk("list", n, k) for n, k in self.LISTS if n == ps[0].a[0]]
                op = m.group(1) or m.group(2)
                if op == "contains_key": return [(st, C(bool(hit)))]
                if op == "index" and hit: return [(st, ref(hit[0]))]
                if op == "get": return [(st, opt(ref(hit[0])) if hit else opt())]
                if op == "get_key_value": return [(st, opt(tup(a[1], ref(hit[0]))) if hit else opt())]
        if re.search(r"Vec::<T, A>::len$|slice::<impl \[T\]>::len$|Vec<T, A> as std::ops::Deref>::deref$|Vec::<T, A>::as_slice$", path) and a:
            v = a[0]
            for _ in range(6):
                if v.op == "ref": v = st.deref(v)
                elif v.op in ("box", "&"): v = v.a[0]
            if v.op == "list": return [(st, C(v.a[1]) if path.endswith("len") else ref(v))]
        if re.search(r"(Builder|Response::<T>|Response)::(body|new)$|reply::(html|with_header)$|Response::<.*>::new$", path) and a:
            ps = None
            for x in a:
                while x.op == "app" and len(x.a) > 1: x = x.a[1]
                ps = ps or cli.pieces(st, x)
            if ps is not None: self.out[cli.told(ps)] = all(x.op == "s" for x in ps)
            return [(st, self.fresh(c, "response"))]
        if re.search(r"fmt::rt::Argument::<.*>::new_(display|debug)$", path):
            v = a[0]
            for _ in range(4):
                if v.op == "ref": v = st.deref(v)
            ts = self.t.tys(c)
            if v.op == "c" and isinstance(v.a[0], int) and ts and NUM_TY.match(ts[-1].lstrip("&")): return [(st, mk("fmtarg", mk("txt", mk("s", str(v.a[0])))))]
            if path.endswith("new_debug"):
                ps = cli.pieces(st, v)
                if ps is not None and len(ps) == 1 and ps[0].op == "s": return [(st, mk("fmtarg", mk("txt", mk("s", '"' + ps[0].a[0] + '"'))))]
        if c.key is None or not self.mine(c.key):
            r = self.t.text(c)
            if r is not None: return r
            if re.search(r"(Into|From)<.*>(>)?::(into|from)$", path) and a:
                ps = cli.pieces(st, a[0])
                if ps is not None: return [(st, mk("txt", *ps))]
        return super().on_call(c)


def find_page(repo):
    out = []
    for d, ds, fs in os.walk(os.path.join(repo, "noodle-webapp")):
        ds[:] = [x for x in ds if x not in ("target", "node_modules", ".git")]
        for f in fs:
            if f.endswith(".html"):
                h = Html()
                s = open(os.path.join(d, f), encoding="utf-8").read()
                h.feed(s)
                if any("WebSocket" in x[1] for x in h.scripts): out.append((os.path.join(d, f), h))
                elif any(x[0] for x in h.scripts):
                    for src, _, _ in h.scripts:
                        g = os.path.join(d, (src or "").lstrip("/"))
                        if src and os.path.isfile(g) and "WebSocket" in open(g).read(): out.append((os.path.join(d, f), h))
    if len(out) != 1: raise Missing("the page that opens the websocket")
    return out[0]


def scripts(rep, p, page, h):
    """[(name, first line, text)] of the page's scripts, in order"""
    out = []
    rts = {n[1:-1].strip("\"'"): p.fns[i] for i, ns in routes(p).items() for n in ns if n.startswith("'")}
    for src, text, line in h.scripts:
        if not src:
            out.append((os.path.basename(page), line, text))
            continue
        g = os.path.join(os.path.dirname(page), src.lstrip("/"))
        if os.path.isfile(g): out.append((src, 1, open(g).read())); continue
        if re.match(r"https?:|//", src): continue
        f = rts.get(src.lstrip("/"))
        rep.ob("page", f"script {src} is served", f is not None, page, "no route of that name")
        if f is None: continue
        m = Listing(p)
        e = Engine(p, [m], opaque=lambda x: bool(LIB.search(x)), budget=100000, exact=True)
        m.eng = e
        e.depth = 3
        e.start(f, [mk("sym", "arg", f"{f.names.get(j + 1, '')}#{j}") for j in range(f.argc)])
        texts = [t for t, known in m.out.items() if known]
        rep.ob("page", f"script {src} can be read", len(texts) == 1 and len(m.out) == 1, f.span, f"{len(m.out)} texts: {str(list(m.out)[:1])[:200]}")
        if texts: out.append((src, 1, texts[0]))
    return out, rts


def c27(rep, tier):
    rep.rule("frames", "every frame the websocket handler sends is a text frame holding the JSON of one of its messages")
    rep.rule("handled", "the page does something with every message: what a message says reaches the page")
    rep.rule("fields", "every field the page reads of a message is one the server sends in it, and every field it looks for is one that some message has")
    rep.rule("page", "the page's scripts run: they parse, find their elements, and do not stop on a message")
    rep.rule("directives", "every directive the page puts in front of a query is accepted by the query parser as the directive it names, with the value chosen")
    p, q = web_prog(), prog("libser")
    page, h = find_page(dumps.REPO)
    rel = os.path.relpath(page, dumps.REPO)
    msgs = messages(rep, p, q)
    rep.count("message forms", len(msgs))
    fields = {}
    for name, s, _ in msgs:
        def go(s, path):
            if s[0] == "obj":
                for k, v in s[1].items():
                    fields.setdefault(path, set()).add(k)
                    go(v, f"{path}.{k}")
            if s[0] == "arr": go(s[1], path + "[]")
        go(s, "data")
    srcs, rts = scripts(rep, p, page, h)
    asts = []
    for nm, line, text in srcs:
        try: asts.append((nm, line, js.parse("\n" * (line - 1) + text)))
        except SyntaxError as e: rep.ob("page", f"{nm} parses", False, f"{rel}:{line}", str(e))
    seqs = [[]] + [[a] for a in msgs] + [[a, b] for a in msgs for b in msgs]
    sends = {}
    handled = {}
    found = {"sockets": 0}

    def load(choose):
        pg = js.Page(h.ids, choose)
        for nm, line, a in asts:
            pg.hoist(a["body"], pg.globals)
            for k, v in pg.globals.vars.items():
                if isinstance(v, js.Func): pg.window.props.setdefault(k, v)
            for s in a["body"]: pg.ex(s, pg.globals)
        return pg

    def guard(pg, what, f):
        try: f()
        except js.Fault as x: rep.ob("page", f"{what}: {x.what}", False, f"{rel}:{x.where.replace('line ', '')}", f"the page stops: {x.what}")
        except js.Thrown as x: rep.ob("page", f"{what}: exception", False, f"{rel}:{x.where.replace('line ', '')}", "the page throws an exception")

    def at(w): return f"{rel}:{w.replace('line ', '')}"

    def checks(pg, what):
        for x, w in pg.notes: rep.ob("page", x, False, at(w), x)
        pg.notes = []

    texts = {}

    def collect(pg, v, w):
        parts = v.parts if isinstance(v, js.Cat) else [v]
        # up to the first text that is the user's own
        alts = [""]
        free = False
        rest = []
        for x in parts:
            if free: rest.append(x); continue
            if isinstance(x, str): alts = [a + x for a in alts]
            elif isinstance(x, js.Sym) and isinstance(x.choices, js.Obj) and x.choices.opts is not None:
                os_ = [o if isinstance(o, str) else str(o) if isinstance(o, (int, float)) else None for o in x.choices.opts]
                if not os_ or None in os_: rep.ob("directives", f"the options of {x.name}", False, at(w), f"{x.name} has the options {x.choices.opts}"); return
                alts = [a + o for a in alts for o in os_]
            else: free = True
        if not free and not parts: rep.ob("directives", "a query is sent", False, at(w), "nothing is sent")
        for a in alts:
            ls = re.split("[\n;]", a)
            if free: own, ls = ls[-1], ls[:-1]
            for l in ls: texts.setdefault(l, w)
            if free and own.strip(): texts.setdefault(own + "a", w)
        cur = ""
        for x in rest:
            if isinstance(x, str):
                ls = re.split("[\n;]", x)
                for l in ls[1:-1]: texts.setdefault(l, w)

    counts = {}

    def one(choose):
        pg = None
        try: pg = load(choose)
        except js.Fault as x: rep.ob("page", f"loading: {x.what}", False, at(x.where), f"the page stops while it is loaded: {x.what}"); return
        except js.Thrown as x: rep.ob("page", "loading: exception", False, at(x.where), "the page throws an exception while it is loaded"); return
        counts["n"] = len(pg.listeners)

    rep.count("ways to load the page", js.explore(one, 200))
    rep.ob("page", "the page can be loaded", "n" in counts, rel, "")
    if "n" not in counts: return
    starts = set()
    for i in range(counts["n"]):
        def run(choose, i=i, seq=()):
            pg = load(choose)
            if i >= len(pg.listeners): return
            ev, f, el = pg.listeners[i]
            what = f"{ev} on {el.name}"
            pg.sockets, pg.sent = [], []
            try: pg.call(f, el, [js.Sym("any")])
            except (js.Fault, js.Thrown) as x:
                if not pg.sockets: return
                guard(pg, what, lambda x=x: (_ for _ in ()).throw(x))
            checks(pg, what)
            if not pg.sockets: return
            starts.add(i)
            for s in pg.sockets:
                u = s.url.parts[-1] if isinstance(s.url, js.Cat) else s.url
                path = re.sub(r"^wss?://[^/]*", "", u) if isinstance(u, str) else None
                rep.ob("page", "the websocket's address is one the server has", path is not None and path.strip("/") in rts, at(s.at), f"the address ends in {u!r}; the server has {sorted(rts)}")
            guard(pg, "connecting", lambda: [pg.call(g, s, [js.Sym("any")]) for s in pg.sockets for _, g in s.listeners.get("open", [])])
            for v, w in pg.sent: collect(pg, v, w)
            checks(pg, what)
            found["sockets"] += 1
            if not pg.sent: rep.ob("directives", f"{what} sends a query", False, rel, "nothing is sent when the connection opens")
            s = pg.sockets[-1]
            for name, shape, span in seq:
                pg.shown, pg.probes, pg.missing, pg.reads = frozenset(), set(), [], set()
                e = js.Obj("unknown", {"data": js.Json(shape), "type": "message"}, name="event")
                n = len(pg.notes)
                bad = []
                def fire():
                    for _, g in s.listeners.get("message", []): pg.call(g, s, [e])
                try: fire()
                except js.Fault as x: bad = [(x.what, x.where)]
                except js.Thrown as x: bad = [("an exception is thrown", x.where)]
                short = name
                for x, w in bad: rep.ob("page", f"{short}: {x}", False, at(w), f"the page stops on the message {short}: {x}")
                for path, k, w in pg.missing: rep.ob("fields", f"{path}.{k} of {short}", False, at(w), f"the page reads `{path}.{k}`, which the server does not send in {short}")
                for path, k, w in pg.probes: rep.ob("fields", f"{path}.{k} looked for", k in fields.get(path, ()), at(w), f"the page looks for `{path}.{k}`, which no message has")
                for x in pg.reads: rep.ob("fields", f"{x} of {short}", True, rel)
                ls = [x for x, t in leaves(shape) if t[0] == "str"] or [x for x, _ in leaves(shape)]
                got = all(x in pg.shown for x in ls)
                rep.ob("handled", f"message {short}", got, rel, f"of {short} the page does nothing with {[x for x in ls if x not in pg.shown]}", path=[f"{x[0]} received" for x in seq])
                handled[short] = handled.get(short, 0) + 1
        for seq in ([()] if i not in starts else []):
            n = js.explore(lambda ch: run(ch, i), 3000)
            rep.count("paths through the page's scripts", n)
        if i in starts:
            for seq in seqs:
                if seq: rep.count("paths through the page's scripts", js.explore(lambda ch, seq=seq: run(ch, i, seq), 3000))

    jobs = sorted((l, w) for l, w in texts.items() if l.strip())
    rep.ob("directives", "the page sends a query", found["sockets"] > 0, rel, "no handler of the page opens a connection and sends a query")
    rep.ob("page", "messages are received", bool(handled), rel, "no message reaches the page")
    rep.count("directive lines", len(jobs))
    rep.each([(l, at(w)) for l, w in jobs], directive)
    rep.note(f"every message form in sequences of up to two after connecting, every event handler that opens a connection, lists of two words; wordlists named {[n for n, _ in Listing.LISTS]}")
    rep.assume("the names of the server's wordlist files are made of characters the grammar allows in a dictionary name")
    rep.assume("the browser's own functions do not fail")


VALUE = {"words": "number", "limit": "number", "dict": "dict_name"}


class Short(qp.Lines):
    """query lines that are short and plain: checks of a line's size pass"""
    def on_call(self, c):
        f = self.p.fns[c.key] if c.key is not None else None
        if f is not None and f.d.get("local") and f.argc and self.p.tys[f.locals[0][0]]["s"].startswith("std::result::Result<(), ") and all(re.search(r"^&str$|usize|^u\d+$", self.p.tys[f.locals[i + 1][0]]["s"]) for i in range(f.argc)):
            return [(c.st, adt("std::result::Result", 0, "Ok", UNIT))]
        if f is not None and f.d.get("local") and f.argc and self.p.tys[f.locals[0][0]]["s"].startswith("std::result::Result<") and re.search(r"^&parser::(Ast|ExpressionAst)$", self.p.tys[f.locals[1][0]]["s"]):
            return [(c.st, adt("std::result::Result", 0, "Ok", self.eng.fresh(c.st, c, "size")))]
        return super().on_call(c)


def directive(rep, item):
    line, w = item
    g = qp.gram()
    r = g.parse("query", line)
    word = re.match(r"\s*#(\w+)\s*(.*?)\s*$", line)
    if not word:
        rep.ob("directives", f"line `{line}`", r is not None and r[0] is not None, w, f"the query parser does not accept `{line}`")
        return
    kind = {"dictionary": "dict"}.get(word.group(1).lower(), word.group(1).lower())
    nodes = [n for n in r[0].all()] if r and r[0] else []
    top = nodes[1].rule if len(nodes) > 1 else None
    val = [n.text for n in nodes if n.rule in ("number", "dict_name")]
    ok = top == "pragma_" + kind and (val == [word.group(2)] if word.group(2) else not val)
    rep.ob("directives", f"line `{line}`", ok, w, f"`{line}` is not accepted" if not r else f"`{line}` is read as {top or r[0].rule}{val}")
    if not ok or kind not in ("words", "limit", "dict"): return
    p = prog("lib")
    fn = fn1(p, r"^parser::QueryAst::new_from_str$")
    trees, nums = [], {}
    for i, l in enumerate([line, "a"]):
        t = g.parse("query", l)[0]
        on = {id(x.kids[0]): i for x in t.all() if x.rule == "expression" and x.kids}
        tp = qp.pair(t, f"L{i}", on, None)
        trees.append(tp)
        def go(n):
            if n.op == "pair":
                if n.a[0] == "number": nums[qp.number_sym(n)] = C(int(n.a[2]))
                for k in n.a[3:]: go(k)
        if i == 0: go(tp)
    m = Short(p, trees, asts=True)
    m.nums = nums
    e = Engine(p, [m], opaque=lambda x: bool(re.search(r"fmt::|_print$|pest::error|check_line|custom_error", x)), budget=400000, exact=True, maxparts=3000)
    e.depth = 6
    res = e.start(fn, [mk("input")])
    res = [(s, v) for s, v in res if not (s.g("blank") or EMPTY)]
    bad = [s for s, v in res if qp.result(v) != "Ok"]
    rep.ob("directives", f"line `{line}` is accepted", bool(res) and not bad, w, f"a query starting with `{line}` is turned down", path=bad[0].path(30) if bad else None)
    rep.count("abstract_steps", e.steps)
    for s, v in res:
        if qp.result(v) != "Ok": continue
        a, o = qp.options_of(p, v)
        f = qp.DIRECTIVES[kind]
        y = o[f].a[3] if o[f].op == "adt" and o[f].a[2] == "Some" else None
        if kind == "dict": ok = y is not None
        else: ok = y is C(int(word.group(2)))
        rep.ob("directives", f"line `{line}` is followed", ok, w, f"`{line}` sets {f} to {show(o[f])[:80]}", path=s.path(30))
