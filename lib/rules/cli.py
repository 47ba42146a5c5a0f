"""C29: the command-line tool, from its entry point: what its options declare, what reaches the search, what it prints."""
import struct
import absint
from base import *
from models import fork

RESP = "noodle::QueryResponse"
NEXT = re.compile(r"QueryEvaluator<.*> as std::iter::Iterator>::next$")
SIZES = (1, 2, 3, 11)


def opt(v=None): return some(v) if v is not None else adt("std::option::Option", 0, "None")


def ok(v): return adt("std::result::Result", 0, "Ok", v)


def err(v): return adt("std::result::Result", 1, "Err", v)


def pieces(st, v):
    """the text of a string-like value, or None: constants and atoms, adjacent constants merged"""
    for _ in range(30):
        if v.op in ("ref", "*"): v = st.deref(v) if v.op == "ref" else v.a[0]
        elif v.op in ("box", "&"): v = v.a[0]
        elif v.op == "O": v = v.a[0]
        elif v.op == "adt" and len(v.a) == 4 and not v.a[0].startswith("std::option") and not v.a[0].startswith("std::result"): v = v.a[3]
        else: break
    if v.op == "s": return normal([v])
    if v.op == "txt": return v.a
    if v.op == "vec":
        out = []
        for x in v.a:
            if x.op == "c": out.append(mk("s", chr(x.a[0])))
            else:
                y = pieces(st, x)
                if y is None: return None
                out += y
        return normal(out)
    if v.op == "push":
        x, y = pieces(st, v.a[0]), pieces(st, v.a[1])
        return None if x is None or y is None else normal(list(x) + list(y))
    if v.op == "c" and isinstance(v.a[0], str): return normal([mk("s", v.a[0])])
    if v.op == "c": return normal([mk("s", str(v.a[0]))])
    return None


def normal(ps):
    out = []
    for x in ps:
        if x.op == "s" and not x.a[0]: continue
        if x.op == "s" and out and out[-1].op == "s": out[-1] = mk("s", out[-1].a[0] + x.a[0])
        else: out.append(x)
    return tuple(out)


def txt(ps): return mk("txt", *ps)


def told(ps): return "".join(x.a[0] if x.op == "s" else "<" + show(x) + ">" for x in ps)


TEXTY = re.compile(r"^&*(mut )?(std::string::String|str|std::boxed::Box<str>|std::path::PathBuf|std::path::Path|std::ffi::OsStr|std::ffi::OsString|std::borrow::Cow<.*(str|OsStr|Path)>|char)$")


class Cli:
    def __init__(self, p, rep, limit=None):
        self.p, self.rep, self.limit, self.eng = p, rep, limit, None
        self.bad = {}
        self.seen = set()
        self.ended = 0
        self.printed = 0

    # ---- findings
    def wrong(self, what, c_or_st, detail="", where_=""):
        st = getattr(c_or_st, "st", c_or_st)
        self.bad.setdefault(what, (where_ or getattr(c_or_st, "span", ""), detail, st.path()))

    def tys(self, c): return [self.p.tys[t]["s"] for t in c.callee.get("a") or [] if isinstance(t, int)]

    def pure(self, c, *x): return mk("app", c.path, *[self.eng.snap(c.st, a) for a in c.args], *x)

    # ---- calls
    def on_call(self, c):
        path = c.path
        f = self.p.fns[c.key] if c.key is not None else None
        mine = f is not None and f.d.get("local")
        if not mine or "noodle::" in path[:30]:
            for h in (self.search, self.clap, self.text, self.output):
                r = h(c)
                if r is not None: return r
        return None

    def search(self, c):
        st, path, a = c.st, c.path, c.args
        if path.endswith("noodle::load_wordlist") or path.endswith("words::load_wordlist"):
            w = pieces(st, a[0])
            self.seen.add("load")
            v = mk("wordlist", txt(w) if w is not None else a[0])
            st.note((c.span, "the wordlist is loaded"))
            s = st.copy()
            return [(st, ok(v)), (s, err(UNIT))]
        if path.endswith("QueryAst::new_from_str"):
            w = pieces(st, a[0])
            s = st.copy()
            return [(st, ok(mk("parsed", txt(w) if w is not None else a[0]))), (s, err(mk("sym", "parse error")))]
        if re.search(r"QueryEvaluator::<.*>::from_ast$", path):
            x = [self.eng.snap(st, y) for y in a]
            while any(y.op in ("&", "*") for y in x): x = [y.a[0] if y.op in ("&", "*") else y for y in x]
            self.seen.add("evaluator")
            st.setg("limit", None)
            st.setg("depth", None)
            return [(st, mk("evaluator", *x))]
        m = re.search(r"QueryEvaluator::<.*>::set_(results_limit|search_depth_limit)$", path)
        if m:
            w = "limit" if m.group(1) == "results_limit" else "depth"
            st.setg(w, a[1])
            st.note((c.span, f"set_{m.group(1)}({show(a[1])[:80]})"))
            return [(st, UNIT)]
        if NEXT.search(path) or re.search(r"QueryEvaluator::<.*>::next_within_deadline$", path):
            return self.answer(c, bool(NEXT.search(path)))
        return None

    def answer(self, c, it):
        st = c.st
        ev = st.deref(c.args[0])
        if ev.op != "evaluator": self.wrong("the search that is run was built by from_ast", c, show(ev)[:200])
        elif not st.g("started"): self.begin(c, ev)
        self.line(c, st)
        wrap = opt if it else lambda x: x
        if st.g("over"):
            return [(st, opt())] if it else [(st, wrap(adt(RESP, *self.variant("Complete"))))]
        n = st.g("answers", 0)
        out = []
        for i, v in enumerate(self.p.adts[RESP]["variants"]):
            for k in SIZES if v["name"] == "Match" else (0,):
                if self.limit is not None and n >= self.limit and v["name"] != "Complete": continue
                if self.limit is not None and k > 3 and n: continue
                s = st.copy()
                s.setg("started", True)
                if self.limit is not None: s.setg("answers", n + 1)
                s.note((c.span, f"answer {v['name']}" + (f" of {k} words" if k else "")))
                if v["name"] == "Match":
                    ws = []
                    base = f"{n}." if self.limit is not None else ""
                    for j in range(k): ws.append(self.word(mk("word", f"{base}{j}")))
                    fs = [mk("vec", *ws)]
                    w = []
                    for j in range(k): w += ([mk("s", " ")] if j else []) + [mk("word", f"{base}{j}")]
                    exp = normal(w + [mk("s", "\n")])
                    s.setg("want", (s.g("want", ()) if self.limit is not None else ()) + exp)
                else: fs = [mk("sym", "answer", v["name"], j) for j in range(len(v["fields"]))]
                if v["name"] == "Complete": s.setg("over", True)
                out.append((s, wrap(adt(RESP, i, v["name"], *fs))))
        return out

    def variant(self, name):
        for i, v in enumerate(self.p.adts[RESP]["variants"]):
            if v["name"] == name: return i, name
        raise Missing("QueryResponse::" + name)

    def word(self, atom):
        a = self.p.adts.get("noodle::Word")
        if a is None: raise Missing("noodle::Word")
        fs = []
        for f in a["variants"][0]["fields"]:
            nm = f if isinstance(f, str) else f[0] if isinstance(f, list) else f.get("name")
            fs.append(mk("box", txt([atom])) if nm == "text" else mk("sym", "word's " + nm, atom))
        return mk("adt", "noodle::Word", 0, "Word", *fs)

    def line(self, c, st):
        """what was printed since the last answer"""
        if self.limit is not None: return
        self.compare(c, st)
        st.setg("out", ())
        st.setg("want", ())

    def compare(self, c, st, where_=""):
        if self.mute: return
        out, want = normal(st.g("out", ())), normal(st.g("want", ()))
        self.printed += bool(want)
        if want:
            if out != want: self.wrong("a match is printed as one line, its words in order with one space between", c, f"expected {told(want)!r}, printed {told(out)!r}", where_)
        elif out and not (out[-1].op == "s" and out[-1].a[0].endswith("\n")):
            self.wrong("what is printed beside the matches ends its line", c, f"printed {told(out)!r}", where_)

    def begin(self, c, ev):
        """the first answer is asked for: everything the options say has arrived"""
        st = c.st
        ast, words = (ev.a + (None, None))[:2]
        self.eng.lists.append((st, c.span, ast, words, st.g("limit"), st.g("depth")))

    # ---- options
    def clap(self, c):
        st, path, a = c.st, c.path, c.args
        if re.search(r"clap::Arg::<.*>::\w+$|clap::App::<.*>::\w+$|clap::(Arg|App)<.*>>::\w+$", path):
            name = path.rsplit("::", 1)[1]
            if name.startswith("get_matches"): return [(st, mk("matches", a[0]))]
            return [(st, mk("clap", name, *[self.plain(st, x) for x in a]))]
        if re.search(r"StructOpt(>)?::from_args$", path) or c.p.endswith("StructOpt::from_args"):
            ty = self.tys(c)[0]
            cl = fns(self.p, r"^<" + re.escape(ty) + r" as structopt::StructOpt>::clap$")
            fc = fns(self.p, r"^<" + re.escape(ty) + r" as structopt::StructOpt>::from_clap$")
            if not cl or not fc: raise Missing(f"the options of {ty}")
            out = []
            for s, app in self.eng.inline_call(c, cl[0].id, []):
                c2 = self.copy(c, s)
                r = mk("root", "matches")
                s.mem[r] = mk("matches", app)
                s.setgv("matches", mk("ref", r, (), False))
                out += self.eng.inline_call(c2, fc[0].id, [mk("ref", r, (), False)])
            return out
        m = re.search(r"clap::ArgMatches::<.*>::(\w+)$", path)
        if m:
            ms = st.deref(a[0])
            n = pieces(st, a[1]) if len(a) > 1 else None
            if ms.op != "matches" or n is None or len(n) != 1 or n[0].op != "s": return [(st, self.eng.fresh(st, c))]
            n = n[0].a[0]
            d = decls(ms.a[0]).get(n)
            if d is None:
                self.wrong("every option that is read is declared", c, n)
                return [(st, opt())]
            self.eng.decls[n] = d
            sure = "default_value" in d or d.get("required") is True
            out = []
            for given in (True, False):
                if given is False and sure: continue
                if st.g("given " + n) not in (None, given): continue
                s = st.copy()
                s.setg("given " + n, given)
                if m.group(1) in ("value_of", "value_of_os", "value_of_lossy"):
                    if given: s.note((c.span, f"'{n}' is given"))
                    out.append((s, opt(mk("ref", mk("K", txt([mk("option", n)])), (), False)) if given else opt()))
                elif m.group(1) == "is_present": out.append((s, C(given)))
                elif m.group(1) == "occurrences_of": return [(st, self.eng.fresh(st, c))]
                else: return [(st, self.eng.fresh(st, c))]
            return out
        return None

    def copy(self, c, st):
        c2 = type(c)()
        for k in ("st", "p", "path", "key", "args", "f", "bb", "span", "ctx", "callee", "ops", "dty"):
            if hasattr(c, k): setattr(c2, k, getattr(c, k))
        c2.st = st
        return c2

    def plain(self, st, v):
        w = pieces(st, v)
        return v if w is None or v.op == "c" else mk("s", w[0].a[0] if len(w) == 1 and w[0].op == "s" else told(w))

    # ---- text
    def text(self, c):
        st, path, p, a = c.st, c.path, c.p, c.args
        last = re.sub(r"^.*::", "", path)
        ts = self.tys(c)
        if p.endswith("FromStr::from_str") or re.search(r"str::<impl str>::parse$", path):
            ty = ts[-1] if path.endswith("parse") else ts[0]
            w = pieces(st, a[0])
            if w is None: return None
            if TEXTY.search(ty): return [(st, ok(txt(w)))]
            s = st.copy()
            return [(st, ok(mk("num", ty, txt(w)))), (s, err(mk("sym", "not a number")))]
        if re.search(r"String::(new|with_capacity)$|PathBuf::new$", path): return [(st, txt(()))]
        if re.search(r"^<(std::string::String|std::path::PathBuf|str|std::path::Path|std::ffi::OsStr\w*|std::boxed::Box<.*>|std::borrow::Cow<.*>) as std::(convert::(From|Into|AsRef)|ops::Deref|borrow::(Borrow|ToOwned)|clone::Clone|string::ToString)\b.*>::(from|into|as_ref|deref|borrow|to_owned|clone|to_string)$|String::(as_str|into_boxed_str|into_string|as_ref)$|Path(Buf)?::(new|as_path|to_path_buf|from)$|OsStr::(to_os_string|new)$|str::<impl str>::(to_owned|to_string|into_string)$|slice::<impl str>::|Cow::<.*>::into_owned$", path) \
                or re.search(r"^std::(convert::(From::from|Into::into|AsRef::as_ref)|string::ToString::to_string|clone::Clone::clone|borrow::ToOwned::to_owned)$", p) and (ts and any(TEXTY.search(x) for x in ts)):
            w = pieces(st, a[0])
            if w is None: return None
            v = txt(w)
            return [(st, mk("ref", mk("K", v), (), False) if re.search(r"::(deref|as_ref|borrow|as_str|as_path|new)$", path) else mk("box", v) if last == "into_boxed_str" else v)]
        if re.search(r"String::(push_str|push)$", path) or re.search(r"fmt::Write(>)?::write_(str|char)$", path + " " + p) and "String" in path + " ".join(ts[:1]):
            x, y = pieces(st, a[0]), self.one(st, a[1])
            if x is None or y is None: return None
            st.store_ref(a[0], txt(normal(x + y)))
            return [(st, ok(UNIT) if "write_" in last else UNIT)]
        if re.search(r"<std::string::String as std::ops::(Add|AddAssign)<.*>>::(add|add_assign)$", path):
            x, y = pieces(st, a[0]), self.one(st, a[1])
            if x is None or y is None: return None
            v = txt(normal(x + y))
            if last == "add": return [(st, v)]
            st.store_ref(a[0], v)
            return [(st, UNIT)]
        if re.search(r"String as std::iter::Extend<.*>>::extend$|String as std::iter::FromIterator<.*>>::from_iter$", path): return None
        if re.search(r"slice::<impl \[T\]>::(join|concat|connect)$|(Join|Concat)<.*>>::(join|concat)$", path):
            v = st.deref(a[0])
            for _ in range(4):
                if v.op in ("ref", "box"): v = st.deref(v) if v.op == "ref" else v.a[0]
            sep = self.one(st, a[1]) if len(a) > 1 else ()
            if v.op != "vec" or sep is None: return None
            o = []
            for i, x in enumerate(v.a):
                w = pieces(st, x)
                if w is None: return None
                o += (list(sep) if i else []) + list(w)
            return [(st, txt(normal(o)))]
        if re.search(r"fmt::rt::Argument::<.*>::new_display$", path):
            return [(st, mk("fmtarg", a[0]))]
        if re.search(r"fmt::rt::Argument::<.*>::new_\w+$", path): return [(st, mk("fmtother", a[0]))]
        if re.search(r"fmt::Arguments::<.*>::(new|from_str|new_const|from_str_nonconst)\w*$", path):
            return [(st, mk("fmt", *self.template(st, a)))]
        if re.search(r"(fmt::format|alloc::fmt::format)$", path):
            return [(st, txt(self.fmt(st, a[0])))]
        if re.search(r"fmt::Write>::write_fmt$|fmt::Write::write_fmt$", path + " " + p) and "String" in path + " ".join(ts[:1]):
            x = pieces(st, a[0])
            if x is None: return None
            st.store_ref(a[0], txt(normal(x + self.fmt(st, a[1]))))
            return [(st, ok(UNIT))]
        return None

    def one(self, st, v):
        if v.op == "c" and isinstance(v.a[0], int): return (mk("s", chr(v.a[0])),)
        if v.op == "ref":
            x = st.deref(v)
            if x.op == "c": return (mk("s", chr(x.a[0])),)
        return pieces(st, v)

    def fmt(self, st, v):
        v = st.deref(v) if v.op == "ref" else v
        return v.a if v.op == "fmt" else (mk("unknown text", v),)

    def template(self, st, a):
        """what a compiled format string says"""
        t = st.deref(a[0])
        if t.op == "s": return normal([t])
        if len(a) < 2 or t.op != "vec" or any(x.op != "c" for x in t.a): return (mk("unknown text", a[0]),)
        args = st.deref(a[1])
        if args.op != "vec": return (mk("unknown text", a[0]),)
        bs, out, i, k = bytes(x.a[0] for x in t.a), [], 0, 0
        while i < len(bs):
            n = bs[i]
            i += 1
            if n == 0: break
            if n <= 0x80:
                if n == 0x80: n, i = struct.unpack("<H", bs[i:i + 2])[0], i + 2
                out.append(mk("s", bs[i:i + n].decode("utf-8", "replace")))
                i += n
                continue
            plain = True
            if n & 1:
                plain &= bs[i:i + 4] == struct.pack("<I", 0xE0000020)
                i += 4
            if n & 2: i, plain = i + 2, False
            if n & 4: i, plain = i + 2, False
            if n & 8: k, i = struct.unpack("<H", bs[i:i + 2])[0], i + 2
            x = args.a[k] if k < len(args.a) else mk("no argument")
            k += 1
            w = self.one(st, x.a[0]) if plain and x.op == "fmtarg" else None
            if w is None and plain and x.op == "fmtarg":
                y = x.a[0]
                for _ in range(4):
                    if y.op == "ref": y = st.deref(y)
                if y.op == "fmt": w = y.a
            out += w if w is not None else (mk("unknown text", x),)
        return normal(out)

    # ---- output
    def output(self, c):
        st, path, p, a = c.st, c.path, c.p, c.args
        if re.search(r"io::(stdio::)?_eprint$", path): return [(st, UNIT)]
        if re.search(r"io::(stdio::)?_print$", path):
            self.say(c, self.fmt(st, a[0]))
            return [(st, UNIT)]
        m = re.search(r"io::Write(>)?::(write_fmt|write_all|flush|write)$", path + " ".join([""] + [p]))
        if m:
            w = " ".join(self.tys(c)[:1]) + " " + path
            if "Stderr" in w: return [(st, ok(UNIT))]
            if "Stdout" in w and m.group(2) != "write":
                if m.group(2) == "write_fmt": self.say(c, self.fmt(st, a[1]))
                elif m.group(2) == "write_all": self.say(c, pieces(st, a[1]) or (mk("unknown text", a[1]),))
                return [(st, ok(UNIT))]
        if re.search(r"process::exit$", path):
            self.finish(st, c.span, a[0])
            return []
        return None

    def say(self, c, ps):
        if self.mute: return
        c.st.note((c.span, "prints " + repr(told(normal(ps)))[:80]))
        c.st.setg("out", normal(c.st.g("out", ()) + tuple(ps)))

    def finish(self, st, where_, code=None):
        """the program ends"""
        if st.g("started") and not st.g("over"):
            self.wrong("the program ends when the search is over, not before", st, "the last answer was not Complete", where_)
        elif st.g("started") or not any(k.startswith("given ") for k, _ in st.ghost):
            self.ended += 1
        if st.g("started"):
            self.compare(st, st, where_)
        elif st.g("load ok"): self.wrong("the search is run", st, "", where_)

    def on_panic(self, st, kind, fn, ctx, span, info):
        if not st.g("started"): return     # a list that cannot be read, a query that cannot be parsed
        self.wrong("printing the answers does not stop the program", st, f"{kind} in {fn.path if fn is not None else ''}", span)


def decls(app):
    """the options an App value declares: {name: {builder call: argument}}"""
    out = {}
    while app.op == "clap":
        if app.a[0] in ("arg", "args") and len(app.a) > 2:
            d, x = {}, app.a[2]
            while x.op == "clap":
                if x.a[0] in ("with_name", "new"): d["name"] = x.a[1].a[0] if x.a[1].op == "s" else None
                else:
                    v = x.a[2] if len(x.a) > 2 else None
                    d.setdefault(x.a[0], (v.a[0] if v.op in ("s", "c", "b") else True) if v is not None else True)
                if x.op == "clap" and x.a[0] in ("with_name", "new"): break
                x = x.a[1]
            if d.get("name"): out[d["name"]] = d
        if app.a[0] == "new": break
        app = app.a[1] if len(app.a) > 1 else UNIT
    return out


def flag(d):
    s = d.get("short")
    return s.lstrip("-")[:1] if isinstance(s, str) else None


def run(p, rep, limit, exact=True, budget=100000, mute=False):
    main = [f for f in fns(p, r"^main$") if f.d.get("local")]
    if not main: raise Missing("main of the command-line tool")
    m = Cli(p, rep, limit)
    e = Engine(p, [m], opaque=lambda x: bool(re.search(r"^<?&?(mut )?noodle::", x)), budget=budget, exact=exact, maxparts=3000)
    m.eng, m.mute = e, mute
    e.lists, e.decls = [], {}
    for st, v in e.start(main[0], []): m.finish(st, main[0].span)
    return m, e


def c29(rep, tier):
    rep.rule("options", "-i, -n and -m and the query are declared as the program's users know them")
    rep.rule("reach", "the file, the query, the results limit and the phrase limit given are what the search is built with before its first answer")
    rep.rule("print", "every match is printed as one line in the order found, words separated by single spaces, until the search is over")
    rep.assume("clap and structopt parse the command line as they declare it; printing to stdout succeeds")
    rep.assume("the library functions called from main are opaque here: what they do is the subject of the other properties")
    p = prog("cli")
    soft = "a match is printed as one line, its words in order with one space between"
    early = "the program ends when the search is over, not before"
    try: m, e = run(p, rep, None)
    except absint.Budget: m = None
    if m is None or soft in m.bad or m.ended == 0:
        # something is kept from one answer to the next: compare everything that was printed, at the end of short runs,
        # and look for ways to end early in runs of any length
        m, e = run(p, rep, 3, budget=1500000)
        m2, e2 = run(p, rep, None, exact=False, budget=400000, mute=True)
        rep.note("main keeps something from one answer to the next: what is printed is compared in whole runs of up to 3 answers")
        for k in (early,):
            if k in m2.bad: m.bad.setdefault(k, m2.bad[k])
    bad = dict(m.bad)
    if not e.lists: raise Missing("a search in the command-line tool's main")
    dd = e.decls
    want = {"i": None, "n": None, "m": None, "query": None}
    for n, d in dd.items():
        if flag(d) in ("i", "n", "m"): want[flag(d)] = n
        elif not d.get("short") and not d.get("long"): want["query"] = n
    span = p.fns[fns(p, r"^main$")[0].id].span

    def decl(k, what, cond):
        n = want[k]
        d = dd.get(n, {})
        rep.ob("options", what, n is not None and cond(d), span, f"declared: {d}" if n else f"no option -{k} is declared and read")
    value = lambda d: d.get("takes_value") is True or "default_value" in d
    decl("i", "-i takes the wordlist file, /usr/share/dict/words when it is not given", lambda d: value(d) and d.get("default_value") == "/usr/share/dict/words" and d.get("required") is not True and d.get("multiple") is not True and "env" not in d)
    decl("n", "-n takes an optional number", lambda d: value(d) and "default_value" not in d and d.get("required") is not True and d.get("multiple") is not True)
    decl("m", "-m takes a number", lambda d: value(d) and d.get("required") is not True and d.get("multiple") is not True)
    decl("query", "the query is the positional argument", lambda d: d.get("required") is True and d.get("multiple") is not True and "default_value" not in d)
    opt_of = lambda k: txt([mk("option", want[k])])
    for st, sp, ast, words, limit, depth in e.lists:
        rep.count("ways a search is started")
        path = st.path()
        rep.ob("reach", "the list searched is the file given with -i", words is mk("wordlist", opt_of("i")), sp, show(words)[:200], path)
        rep.ob("reach", "the query searched for is the one given", ast is mk("parsed", opt_of("query")), sp, show(ast)[:200], path)
        given = st.g("given " + str(want["n"]))
        n = some(mk("num", "usize", opt_of("n")))
        if given: rep.ob("reach", "-n is the results limit", limit is n, sp, f"results limit: {show(limit) if limit is not None else 'not set'}"[:200], path)
        else: rep.ob("reach", "without -n the results are not limited by the tool", limit is None or limit is opt(), sp, f"results limit: {show(limit) if limit is not None else 'not set'}"[:200], path)
        rep.ob("reach", "-m is the phrase limit", depth is mk("num", "usize", opt_of("m")), sp, f"phrase limit: {show(depth) if depth is not None else 'not set'}"[:200], path)
    rep.ob("reach", "the search is reached with and without -n", {st.g("given " + str(want["n"])) for st, *_ in e.lists} >= {True}, span, "")
    for what in (soft, "what is printed beside the matches ends its line", early,
                 "the search that is run was built by from_ast", "every option that is read is declared", "printing the answers does not stop the program", "the search is run"):
        w, d, path = bad.get(what, (span, "", None))
        rep.ob("print", what, what not in bad, w, d, path)
    rep.ob("print", "the end of the program is reached", m.ended > 0, span, "main never returns after a complete search")
    rep.count("functions analysed", len(e.visited))
    rep.count("answers with matches compared with what was printed", m.printed)
