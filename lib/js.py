"""An abstract interpreter for the page's scripts (ESTree from acorn): values the scripts cannot know are symbols,
branches on them are decided by an oracle that enumerates the decisions. Nothing of the repository is executed."""
import json, re, subprocess
from base import Missing

NODE = "/opt/veriftools/node/node_modules"
_asts = {}


def parse(src):
    if src not in _asts:
        r = subprocess.run(["node", "-e", "const a=require(process.argv[1]+'/acorn');let s='';process.stdin.on('data',d=>s+=d).on('end',()=>console.log(JSON.stringify(a.parse(s,{ecmaVersion:'latest',locations:true}))))", NODE],
                           input=src, capture_output=True, text=True, timeout=60)
        if r.returncode: raise SyntaxError(r.stderr.strip().splitlines()[-1][:200] if r.stderr.strip() else "no parser")
        _asts[src] = json.loads(r.stdout)
    return _asts[src]


class Undef:
    def __repr__(self): return "undefined"


UNDEF = Undef()


class Sym:
    """a value of this kind (str, num, bool, any) that is not known; taint: what it was made from"""
    def __init__(self, kind, taint=frozenset(), name="", truthy=None, choices=None):
        self.kind, self.taint, self.name, self.truthy, self.choices = kind, frozenset(taint), name, truthy, choices
    def __repr__(self): return f"<{self.name or self.kind}>"


class Cat:
    """a text in pieces: strings and symbols"""
    def __init__(self, parts):
        out = []
        for x in parts:
            for y in x.parts if isinstance(x, Cat) else [x]:
                if isinstance(y, str) and out and isinstance(out[-1], str): out[-1] += y
                elif y != "": out.append(y)
        self.parts = out
    def __repr__(self): return "".join(x if isinstance(x, str) else repr(x) for x in self.parts)


class Obj:
    def __init__(self, kind="object", props=None, name=""):
        self.kind, self.props, self.name = kind, dict(props or {}), name
        self.server = None      # path inside a server message
        self.items = []         # array elements
        self.listeners = {}
        self.taint = frozenset()
        self.own = set()        # fields the page has put there
        self.tag = None
        self.opts = None        # a select's options: list of values
    def __repr__(self): return f"<{self.kind} {self.name}>"


class Func:
    def __init__(self, node, env, this=None): self.node, self.env, self.this = node, env, this


class Native:
    def __init__(self, f, name=""): self.f, self.name = f, name


class Json:
    def __init__(self, shape): self.shape = shape


class Thrown(Exception):
    def __init__(self, v, where): self.v, self.where = v, where


class Fault(Exception):
    """the page would stop with a TypeError here"""
    def __init__(self, what, where): self.what, self.where = what, where


class Return(Exception):
    def __init__(self, v): self.v = v


class Break(Exception):
    def __init__(self, label): self.label = label


class Continue(Exception):
    def __init__(self, label): self.label = label


class Env:
    def __init__(self, up, fn=False): self.up, self.vars, self.fn = up, {}, fn
    def find(self, n):
        e = self
        while e is not None:
            if n in e.vars: return e
            e = e.up
        return None


def taint(v, seen=None):
    if isinstance(v, Sym): return v.taint
    if isinstance(v, Cat): return frozenset().union(*[taint(x) for x in v.parts])
    if isinstance(v, Json): return frozenset(["message"])
    if isinstance(v, Obj):
        seen = seen or set()
        if id(v) in seen: return frozenset()
        seen.add(id(v))
        out = v.taint
        for x in list(v.props.values()) + v.items: out |= taint(x, seen)
        return out
    return frozenset()


STR = set("at charAt charCodeAt codePointAt concat endsWith includes indexOf lastIndexOf localeCompare match matchAll normalize padEnd padStart repeat replace replaceAll search slice split startsWith substr substring toLocaleLowerCase toLocaleUpperCase toLowerCase toString toUpperCase trim trimEnd trimStart valueOf".split())
NUM = set("toExponential toFixed toLocaleString toPrecision toString valueOf".split())


class Page:
    """one run of the page; `choose(n, why)` decides between n outcomes"""
    def __init__(self, elements, choose, budget=60000):
        self.choose, self.budget = choose, budget
        self.els = {}
        self.listeners = []        # (event, function, element)
        self.sockets = []
        self.sent = []             # (value, where)
        self.probes = set()        # (path, key, where): looked at in a condition, not sent with this message
        self.reads = set()
        self.shown = frozenset()
        self.notes = []            # things wrong: (what, where)
        self.missing = []
        self.guard = 0
        self.globals = Env(None, True)
        self.window = Obj("window", name="window")
        for i, (tag, attrs, opts, text) in elements.items():
            o = Obj("dom", name="#" + i)
            o.tag = tag
            o.attrs = attrs
            o.opts = None if opts is None else [v for v, _ in opts]
            self.els[i] = o
        self.node = None
        g = self.globals.vars
        doc = Obj("document", name="document")
        loc = Obj("location", name="location")
        for n in ("protocol", "host", "hash", "pathname", "href", "search", "hostname", "port", "origin"): loc.props[n] = Sym("str", name="location." + n)
        self.window.props.update({"location": loc, "document": doc, "window": self.window})
        g.update({"window": self.window, "document": doc, "location": loc, "globalThis": self.window, "self": self.window, "undefined": UNDEF, "NaN": float("nan"), "Infinity": float("inf")})

    # ---- helpers
    def where(self, n=None):
        n = n or self.node
        return f"line {n['loc']['start']['line']}" if n and "loc" in n else ""

    def note(self, what, n=None): self.notes.append((what, self.where(n)))

    def fault(self, what, n=None): raise Fault(what, self.where(n))

    def truth(self, v, why=""):
        if isinstance(v, (bool, int, float, str)): return bool(v) and v == v
        if v is None or v is UNDEF: return False
        if isinstance(v, Sym):
            if v.truthy is not None: return v.truthy
            return self.choose(2, why) == 0
        if isinstance(v, Cat): return True if any(isinstance(x, str) for x in v.parts) else self.choose(2, why) == 0
        return True

    def any(self, *vs, kind="any", name=""): return Sym(kind, frozenset().union(*[taint(v) for v in vs]) if vs else (), name)

    def show(self, v):
        """v reaches the page"""
        self.shown |= taint(v)

    # ---- properties
    def get(self, o, k, n=None):
        if isinstance(k, (int, float)) and not isinstance(k, bool): k = str(int(k)) if k == int(k) else str(k)
        if o is None or o is UNDEF: self.fault(f"`{k}` is read of {'null' if o is None else 'undefined'}", n)
        if isinstance(o, Sym) or isinstance(o, Cat):
            kind = o.kind if isinstance(o, Sym) else "str"
            if not isinstance(k, str): return self.any(o)
            if kind == "any": return Native(lambda th, a, nd, k=k: self.unknown(o, k, a, nd), k) if n is not None and n.get("_call") else self.any(o)
            if kind == "str" and k == "length": return self.any(o, kind="num")
            if kind == "str" and k.isdigit(): return self.any(o, kind="str")
            if k in (STR if kind == "str" else NUM if kind == "num" else ()): return Native(lambda th, a, nd, k=k: self.strcall(o, k, a, nd), k)
            if self.origin(o): return self.absent(next(iter(o.taint)), k, n)
            return UNDEF
        if isinstance(o, str):
            if k == "length": return len(o)
            if k in STR: return Native(lambda th, a, nd, k=k: self.strcall(o, k, a, nd), k)
            if k.isdigit(): return o[int(k)] if int(k) < len(o) else UNDEF
            return UNDEF
        if isinstance(o, (int, float)): return Native(lambda th, a, nd: self.any(kind="str"), k) if k in NUM else UNDEF
        if isinstance(o, Json): return Sym("any", ["message"])
        if isinstance(o, (Func, Native)):
            if k in ("call", "apply", "bind"): return Native(lambda th, a, nd, k=k: self.fncall(o, k, a, nd), k)
            if isinstance(o, Native) and k in getattr(o, "props", {}): return o.props[k]
            return self.any()
        if o.kind == "array":
            if isinstance(k, Sym):
                if not o.items: return UNDEF
                i = self.choose(len(o.items) + 1, "index")
                return o.items[i] if i < len(o.items) else UNDEF
            if k == "length": return len(o.items)
            if k.lstrip("-").isdigit(): return o.items[int(k)] if 0 <= int(k) < len(o.items) else UNDEF
            if k in o.props: return o.props[k]
            if k in ARRAY: return Native(lambda th, a, nd, k=k: ARRAY[k](self, o, a, nd), k)
            if o.server: return self.absent(o.server, k, n)
            return UNDEF
        if isinstance(k, Sym):
            return self.any(o)
        if k in o.props:
            if o.server and k not in o.own: self.reads.add(o.server + "." + k)
            return o.props[k]
        if o.server is not None:
            if k in ("hasOwnProperty", "toString"): return Native(lambda th, a, nd: (a and isinstance(a[0], str) and a[0] in o.props), k)
            return self.absent(o.server, k, n)
        if o.kind == "window":
            e = self.globals.find(k)
            if e: return e.vars[k]
            return self.special(k, n) if k in SPECIAL else (self.any(name=k) if n is not None and n.get("_known") else UNDEF)
        return self.host(o, k, n)

    def origin(self, o): return isinstance(o, Sym) and o.name.startswith("data")

    def absent(self, path, k, n):
        """a field is read that the server does not send here"""
        (self.probes.add((path, k, self.where(n))) if self.guard else self.missing.append((path, k, self.where(n))))
        return UNDEF

    def put(self, o, k, v, n=None):
        if o is None or o is UNDEF: self.fault(f"`{k}` is set on {'null' if o is None else 'undefined'}", n)
        if isinstance(k, (int, float)) and not isinstance(k, bool): k = str(int(k))
        if isinstance(o, Obj):
            if o.kind == "array":
                if isinstance(k, str) and k.isdigit():
                    while len(o.items) <= int(k) and len(o.items) < 64: o.items.append(UNDEF)
                    if int(k) < len(o.items): o.items[int(k)] = v
                elif k == "length": del o.items[int(v) if isinstance(v, int) else 0:]
                else: o.props[k if isinstance(k, str) else "?"] = v
                return
            if isinstance(k, Sym):
                o.taint |= taint(v)
                if o.kind in ("dom", "style"): self.show(v)
                return
            if o.kind == "window":
                self.globals.vars[k] = v
                if k == "location": return
                o.props[k] = v
                return
            if k.startswith("on") and isinstance(v, (Func, Native)) and o.kind in ("dom", "ws", "document", "window", "unknown"):
                o.listeners[k[2:]] = [x for x in o.listeners.get(k[2:], []) if x[0] != "on"] + [("on", v)]
                if o.kind != "ws": self.listeners.append((k[2:], v, o))
                return
            if k.startswith("on") and o.kind == "ws":
                o.listeners[k[2:]] = [x for x in o.listeners.get(k[2:], []) if x[0] != "on"]
                return
            if o.kind in ("dom", "style", "classList", "dataset"):
                self.show(v)
                if o.tag == "select":
                    if k in ("innerHTML", "innerText", "textContent"):
                        if v == "": o.opts = []
                        elif isinstance(v, str): o.opts = [m.group(1) or m.group(2) for m in re.finditer(r"<option(?:[^>]*value=\"([^\"]*)\")?[^>]*>([^<]*)", v)]
                        else: raise Missing(f"options of {o.name} set to {v!r}")
                    if k == "value":
                        vs = [v] if isinstance(v, (str, int)) else None
                        if vs and o.opts is not None and str(v) not in o.opts: self.note(f"{o.name} is set to {v!r}, which is none of its options {o.opts}", n)
                        if isinstance(v, int) and not isinstance(v, bool): v = str(v)
            o.props[k] = v
            if o.server: o.own.add(k)
            return
        if isinstance(o, Sym): self.show(v)

    def host(self, o, k, n):
        """properties of browser objects"""
        if o.kind == "document":
            if k in ("querySelector", "getElementById", "querySelectorAll", "createElement", "createTextNode", "getElementsByClassName", "getElementsByTagName", "createDocumentFragment"): return Native(lambda th, a, nd: self.query(k, a, nd), k)
            if k == "addEventListener": return Native(lambda th, a, nd: self.listen(o, a, nd), k)
            if k in ("body", "head", "documentElement"):
                o.props[k] = Obj("dom", name=k)
                return o.props[k]
            return self.any(name="document." + k)
        if o.kind in ("dom", "style", "classList", "dataset"):
            if k in ("value", "checked", "innerText", "textContent", "innerHTML", "selectedIndex", "id", "className", "title", "href"):
                if k == "value":
                    if o.tag == "select": return Sym("str", name=o.name, choices=o)
                    return Sym("str", name="text of " + o.name)
                if k == "checked": return Sym("bool", name=o.name)
                return Sym("str", name=f"{o.name}.{k}")
            if k in ("style", "classList", "dataset"):
                s = o.props[k] = Obj(k, name=o.name)
                return s
            if k in ("parentElement", "parentNode", "firstChild", "lastChild", "nextSibling", "firstElementChild", "lastElementChild"):
                s = o.props[k] = Obj("dom", name=f"{o.name}.{k}")
                return s
            if k in ("options", "selectedOptions", "children", "childNodes"): return Sym("any", name=f"{o.name}.{k}")
            return Native(lambda th, a, nd: self.domcall(o, k, a, nd), k)
        if o.kind == "ws":
            if k == "send": return Native(lambda th, a, nd: self.sent.append((a[0] if a else UNDEF, self.where(nd))) or UNDEF, k)
            if k == "addEventListener": return Native(lambda th, a, nd: self.listen(o, a, nd), k)
            if k == "close": return Native(lambda th, a, nd: UNDEF, k)
            if k == "readyState": return self.any(kind="num")
            return UNDEF
        if o.kind == "console": return Native(lambda th, a, nd: UNDEF, k)
        if o.kind in ("location", "unknown"):
            return Native(lambda th, a, nd: self.unknown(o, k, a, nd), k) if n is not None and n.get("_call") else self.any(o, name=f"{o.name}.{k}")
        if o.kind == "map":
            return Native(lambda th, a, nd: self.unknown(o, k, a, nd), k)
        return UNDEF

    def listen(self, o, a, nd):
        if len(a) > 1 and isinstance(a[1], (Func, Native)):
            if o.kind == "ws": o.listeners.setdefault(a[0] if isinstance(a[0], str) else "?", []).append(("add", a[1]))
            else: self.listeners.append((a[0], a[1], o))
        return UNDEF

    def query(self, k, a, nd):
        s = a[0] if a else UNDEF
        if k == "createElement":
            o = Obj("dom", name=f"<{s}>")
            o.tag = s
            return o
        if k == "createTextNode":
            o = Obj("dom", {"textContent": s}, name="text")
            self.show(s)
            return o
        if k == "createDocumentFragment": return Obj("dom", name="fragment")
        if isinstance(s, str) and k in ("querySelector", "getElementById"):
            i = s if k == "getElementById" else s[1:] if re.fullmatch(r"#[\w-]+", s) else None
            if i is not None: return self.els.get(i)
            return Obj("dom", name=s)
        if k in ("querySelectorAll", "getElementsByClassName", "getElementsByTagName"):
            x = Obj("array")
            x.items = [Obj("dom", name=f"{s}")]
            return x
        return Obj("dom", name=str(s))

    def domcall(self, o, k, a, nd):
        if k == "addEventListener": return self.listen(o, a, nd)
        if k in ("appendChild", "append", "prepend", "insertBefore", "replaceChildren", "add", "insertAdjacentElement", "insertAdjacentHTML", "setAttribute", "replaceWith", "after", "before", "setProperty", "insertAdjacentText"):
            for x in a: self.show(x)
            if o.tag == "select" and k in ("appendChild", "append", "add", "prepend", "insertBefore", "replaceChildren"):
                if k == "replaceChildren": o.opts = []
                for x in a:
                    if isinstance(x, Obj) and x.tag == "option":
                        v = x.props.get("value", x.props.get("innerText", x.props.get("textContent", x.props.get("text"))))
                        o.opts = (o.opts or []) + [v]
            if k == "setAttribute" and len(a) == 2 and isinstance(a[0], str): self.put(o, {"class": "className"}.get(a[0], a[0]), a[1], nd)
            return a[0] if a else UNDEF
        if k in ("click", "submit", "dispatchEvent"):
            for ev, f, el in list(self.listeners):
                if el is o and ev == "click": self.call(f, o, [Sym("any")], nd)
            return UNDEF
        for x in a:
            if isinstance(x, (Func, Native)): self.call(x, UNDEF, [self.any()], nd)
        return self.any(*a)

    def unknown(self, o, k, a, nd):
        """a call of something outside the page: it may call back"""
        for x in a:
            if isinstance(x, (Func, Native)): self.call(x, UNDEF, [self.any(o), self.any(), self.any()], nd)
        return self.any(o, *a)

    def fncall(self, f, k, a, nd):
        if k == "call": return self.call(f, a[0] if a else UNDEF, a[1:], nd)
        if k == "apply": return self.call(f, a[0] if a else UNDEF, a[1].items if len(a) > 1 and isinstance(a[1], Obj) else [], nd)
        b = list(a)
        return Native(lambda th, x, n2: self.call(f, b[0] if b else UNDEF, b[1:] + x, n2))

    def strcall(self, o, k, a, nd):
        if isinstance(o, str) and all(isinstance(x, (str, int, float)) for x in a):
            try:
                if k == "toLowerCase": return o.lower()
                if k == "toUpperCase": return o.upper()
                if k in ("trim", "toString", "valueOf"): return o.strip() if k == "trim" else o
                if k == "concat": return o + "".join(map(str, a))
                if k == "startsWith": return o.startswith(a[0])
                if k == "endsWith": return o.endswith(a[0])
                if k == "includes": return a[0] in o
                if k == "split" and a and a[0]:
                    x = Obj("array")
                    x.items = o.split(a[0])
                    return x
                if k in ("substring", "slice") and all(isinstance(x, int) and x >= 0 for x in a): return o[a[0]:(a[1] if len(a) > 1 else None)]
                if k == "replace" and all(isinstance(x, str) for x in a): return o.replace(a[0], a[1], 1)
                if k == "replaceAll" and all(isinstance(x, str) for x in a): return o.replace(a[0], a[1])
                if k == "padStart" and isinstance(a[0], int): return o.rjust(a[0], (a[1] if len(a) > 1 else " ")[0])
                if k == "repeat": return o * int(a[0])
            except (TypeError, IndexError): pass
        if k in ("toString", "valueOf"): return o
        if k == "concat": return self.add(o, Cat([self.text(x) for x in a]))
        if k in ("trim", "toString", "valueOf", "trimEnd", "trimStart") and isinstance(o, Cat): return self.trimmed(o, k)
        if k == "trim" and isinstance(o, Sym) and o.choices is not None: return o
        for x in a:
            if isinstance(x, (Func, Native)): self.call(x, UNDEF, [self.any(o, kind="str")], nd)
        if k == "split":
            x = Obj("array")
            x.items = [self.any(o, kind="str"), self.any(o, kind="str")]
            return x
        if k in ("startsWith", "endsWith", "includes"): return self.any(o, kind="bool")
        if k in ("indexOf", "lastIndexOf", "charCodeAt", "localeCompare", "search"): return self.any(o, kind="num")
        if k in ("match", "matchAll"): return self.any(o)
        return self.any(o, *a, kind="str")

    def trimmed(self, o, k):
        ps = list(o.parts)
        if k != "trimEnd" and isinstance(ps[0], str): ps[0] = ps[0].lstrip()
        if k != "trimStart" and isinstance(ps[-1], str): ps[-1] = ps[-1].rstrip()
        return Cat(ps)

    def text(self, v):
        if isinstance(v, (str, Cat)): return v
        if isinstance(v, bool): return "true" if v else "false"
        if isinstance(v, int): return str(v)
        if isinstance(v, float): return str(int(v)) if v == int(v) else repr(v)
        if v is None: return "null"
        if v is UNDEF: return "undefined"
        if isinstance(v, Sym): return v
        if isinstance(v, Obj) and v.kind == "array":
            out = []
            for i, x in enumerate(v.items): out += ([","] if i else []) + [self.text(x)]
            return Cat(out)
        return Sym("str", taint(v), name=repr(v))

    def add(self, a, b):
        num = lambda x: isinstance(x, (int, float, bool)) or isinstance(x, Sym) and x.kind in ("num", "bool") or x is None or x is UNDEF
        if isinstance(a, (int, float)) and isinstance(b, (int, float)): return a + b
        if isinstance(a, str) and isinstance(b, str): return a + b
        if num(a) and num(b): return self.any(a, b, kind="num")
        if isinstance(a, Sym) and a.kind == "any" and (num(b) or isinstance(b, Sym) and b.kind == "any") or isinstance(b, Sym) and b.kind == "any" and num(a): return self.any(a, b)
        c = Cat([self.text(a), self.text(b)])
        return c.parts[0] if len(c.parts) == 1 else c if c.parts else ""

    # ---- what scripts can name
    def special(self, n, nd=None):
        if n == "JSON":
            o = Obj("unknown", name="JSON")
            o.props["parse"] = Native(lambda th, a, x: self.unjson(a, x))
            o.props["stringify"] = Native(lambda th, a, x: self.any(*a, kind="str"))
            return o
        if n == "console": return Obj("console", name="console")
        if n == "WebSocket": return Native(lambda th, a, x: self.socket(a, x), n)
        if n in ("String", "encodeURI", "decodeURI", "encodeURIComponent", "decodeURIComponent"): return Native(lambda th, a, x: self.text(a[0]) if n == "String" and a else a[0] if a and isinstance(a[0], str) and n == "encodeURI" and a[0].isalnum() else self.any(*a, kind="str"), n)
        if n in ("Number", "parseInt", "parseFloat"):
            def num(th, a, x):
                if a and isinstance(a[0], str) and re.fullmatch(r"\d+", a[0]): return int(a[0])
                if a and isinstance(a[0], Sym) and a[0].choices is not None: return a[0]
                return a[0] if a and isinstance(a[0], (int, float)) else self.any(*a, kind="num")
            f = Native(num, n)
            return f
        if n == "Boolean": return Native(lambda th, a, x: self.truth(a[0]) if a else False, n)
        if n == "Array":
            f = Native(lambda th, a, x: self.array(a), n)
            f.props = {"from": Native(lambda th, a, x: self.arrayfrom(a, x)), "isArray": Native(lambda th, a, x: isinstance(a[0], Obj) and a[0].kind == "array"), "of": Native(lambda th, a, x: self.array(a))}
            return f
        if n == "Object":
            f = Native(lambda th, a, x: Obj(), n)
            def keys(th, a, x, k):
                o, y = a[0], Obj("array")
                if isinstance(o, Obj):
                    for q, v in o.props.items():
                        e = Obj("array")
                        e.items = [q, v]
                        y.items.append(q if k == "keys" else v if k == "values" else e)
                return y
            def assign(th, a, x):
                for s in a[1:]:
                    if isinstance(s, Obj): a[0].props.update(s.props)
                return a[0]
            f.props = {k: Native(lambda th, a, x, k=k: keys(th, a, x, k)) for k in ("keys", "values", "entries")}
            f.props["assign"] = Native(assign)
            f.props["freeze"] = Native(lambda th, a, x: a[0])
            return f
        return Obj("unknown", name=n)

    def array(self, a):
        x = Obj("array")
        x.items = list(a)
        return x

    def arrayfrom(self, a, nd):
        x = Obj("array")
        x.items = list(self.elements(a[0], nd))
        if len(a) > 1: x.items = [self.call(a[1], UNDEF, [v, i], nd) for i, v in enumerate(x.items)]
        return x

    def socket(self, a, nd):
        o = Obj("ws", name="socket")
        o.url = a[0] if a else UNDEF
        o.at = self.where(nd)
        self.sockets.append(o)
        return o

    def unjson(self, a, nd):
        if a and isinstance(a[0], Json): return self.build(a[0].shape, "data")
        return self.any(*a)

    def build(self, s, path):
        if s[0] == "obj":
            o = Obj("object", {k: self.build(v, f"{path}.{k}") for k, v in s[1].items()}, name=path)
            o.server = path
            return o
        if s[0] == "arr":
            o = Obj("array", name=path)
            o.server = path
            o.items = [self.build(s[1], path + "[]") for _ in range(s[2])]
            return o
        if s[0] == "null": return None
        if s[0] == "const": return s[1]
        return Sym(s[0], [path], name=path, truthy=s[1] if len(s) > 1 else None)

    def elements(self, v, nd):
        if isinstance(v, Obj) and v.kind == "array": return list(v.items)
        if isinstance(v, str): return list(v)
        if v is None or v is UNDEF: self.fault(f"{v!r} is walked through", nd)
        if isinstance(v, Sym) and v.kind in ("num", "bool"): self.fault("a number is walked through", nd)
        if isinstance(v, Obj) and v.server: self.fault(f"`{v.server}` is no list", nd)
        return [self.any(v)] * 1

    # ---- calls
    def call(self, f, this, args, nd=None):
        self.tick()
        if isinstance(f, Native): return f.f(this, args, nd or self.node)
        if isinstance(f, Func):
            n = f.node
            if self.depth > 60: raise Missing("deep recursion in the page's script")
            env = Env(f.env, True)
            env.vars["arguments"] = self.array(args)
            if n["type"] != "ArrowFunctionExpression": env.vars["this"] = this
            if n.get("id") and n["type"] == "FunctionExpression": env.vars[n["id"]["name"]] = f
            for i, p in enumerate(n["params"]):
                if p["type"] == "RestElement": self.bind(p["argument"], self.array(args[i:]), env)
                else: self.bind(p, args[i] if i < len(args) else UNDEF, env)
            g, self.guard = self.guard, 0
            self.depth += 1
            try:
                if n["body"]["type"] != "BlockStatement":
                    self.guard = g
                    return self.ev(n["body"], env)
                self.hoist(n["body"]["body"], env)
                for s in n["body"]["body"]: self.ex(s, env)
                return UNDEF
            except Return as r: return r.v
            finally:
                self.guard = g
                self.depth -= 1
        if isinstance(f, Sym) or isinstance(f, Obj) and f.kind == "unknown": return self.unknown(f, "()", args, nd)
        self.fault(f"{f!r} is called", nd)

    depth = 0

    def tick(self):
        self.budget -= 1
        if self.budget < 0: raise Missing("a run of the page's scripts that ends")

    # ---- statements
    def hoist(self, body, env):
        def vars(n):
            if isinstance(n, list):
                for x in n: vars(x)
            elif isinstance(n, dict):
                t = n.get("type")
                if t in ("FunctionExpression", "ArrowFunctionExpression"): return
                if t == "FunctionDeclaration":
                    return
                if t == "VariableDeclaration" and n["kind"] == "var":
                    for d in n["declarations"]:
                        for nm in self.names(d["id"]):
                            if nm not in env.vars: env.vars[nm] = UNDEF
                for k, x in n.items():
                    if k not in ("loc", "type"): vars(x)
        vars(body)
        for s in body:
            if s["type"] == "FunctionDeclaration": env.vars[s["id"]["name"]] = Func(s, env)

    def names(self, p):
        t = p["type"]
        if t == "Identifier": return [p["name"]]
        if t == "AssignmentPattern": return self.names(p["left"])
        if t == "RestElement": return self.names(p["argument"])
        if t == "ArrayPattern": return [x for e in p["elements"] if e for x in self.names(e)]
        if t == "ObjectPattern": return [x for e in p["properties"] for x in self.names(e["argument"] if e["type"] == "RestElement" else e["value"])]
        return []

    def bind(self, p, v, env, declare=True):
        t = p["type"]
        if t == "Identifier":
            if declare: env.vars[p["name"]] = v
            else: self.assign_name(p["name"], v, env)
        elif t == "AssignmentPattern":
            if v is UNDEF: v = self.ev(p["right"], env)
            self.bind(p["left"], v, env, declare)
        elif t == "ObjectPattern":
            if v is None or v is UNDEF: self.fault(f"{v!r} is taken apart", p)
            used = []
            for e in p["properties"]:
                if e["type"] == "RestElement":
                    o = Obj()
                    if isinstance(v, Obj): o.props = {k: x for k, x in v.props.items() if k not in used}
                    self.bind(e["argument"], o, env, declare)
                    continue
                k = self.key(e, env)
                used.append(k)
                d = e["value"]["type"] == "AssignmentPattern"
                # (a binding may find nothing: what is done with it decides)
                self.guard += 1
                try: x = self.get(v, k, e)
                finally: self.guard -= 1
                self.bind(e["value"], x, env, declare)
        elif t == "ArrayPattern":
            xs = self.elements(v, p)
            for i, e in enumerate(p["elements"]):
                if e is None: continue
                if e["type"] == "RestElement": self.bind(e["argument"], self.array(xs[i:]), env, declare)
                else: self.bind(e, xs[i] if i < len(xs) else UNDEF, env, declare)
        elif t == "MemberExpression":
            o = self.ev(p["object"], env)
            self.put(o, self.ev(p["property"], env) if p["computed"] else p["property"]["name"], v, p)
        else: raise Missing("JavaScript pattern " + t)

    def key(self, e, env):
        if e.get("computed"): return self.ev(e["key"], env)
        return e["key"].get("name", str(e["key"].get("value")))

    def assign_name(self, n, v, env):
        e = env.find(n)
        if e is None or e is self.globals: self.window.props[n] = v
        (e or self.globals).vars[n] = v

    def block(self, body, env):
        e = Env(env)
        for s in body:
            if s["type"] == "FunctionDeclaration": e.vars[s["id"]["name"]] = Func(s, e)
        for s in body: self.ex(s, e)

    def cond(self, n, env):
        return self.truth(self.guarded(n, env), self.where(n))

    def guarded(self, n, env):
        """the value of a condition: looking whether a field is there is not reading it"""
        self.guard += 1
        try: return self.ev(n, env)
        finally: self.guard -= 1

    def ex(self, n, env):
        self.tick()
        self.node = n
        t = n["type"]
        if t == "ExpressionStatement":
            x = n["expression"]
            self.ev(x, env)
        elif t == "VariableDeclaration":
            for d in n["declarations"]:
                if d["init"] is None:
                    if n["kind"] != "var": self.bind(d["id"], UNDEF, env)
                    continue
                self.guard += 1 if d["init"]["type"] in ("MemberExpression", "LogicalExpression", "ChainExpression") else 0
                try: v = self.ev(d["init"], env)
                finally: self.guard -= 1 if d["init"]["type"] in ("MemberExpression", "LogicalExpression", "ChainExpression") else 0
                tgt = env
                if n["kind"] == "var":
                    while not tgt.fn: tgt = tgt.up
                self.bind(d["id"], v, tgt)
                if tgt is self.globals:
                    for nm in self.names(d["id"]): self.window.props[nm] = tgt.vars[nm]
        elif t == "FunctionDeclaration": env.vars.setdefault(n["id"]["name"], Func(n, env))
        elif t == "BlockStatement": self.block(n["body"], env)
        elif t == "IfStatement":
            if self.cond(n["test"], env): self.ex(n["consequent"], env)
            elif n["alternate"]: self.ex(n["alternate"], env)
        elif t == "ReturnStatement": raise Return(self.ev(n["argument"], env) if n["argument"] else UNDEF)
        elif t in ("ForStatement", "WhileStatement", "DoWhileStatement"): self.loop(n, env)
        elif t in ("ForOfStatement", "ForInStatement"):
            v = self.ev(n["right"], env)
            if t == "ForInStatement":
                xs = list(v.props) if isinstance(v, Obj) and v.kind != "array" else [str(i) for i in range(len(v.items))] if isinstance(v, Obj) else []
            else: xs = self.elements(v, n)
            for x in xs:
                e = Env(env)
                if n["left"]["type"] == "VariableDeclaration":
                    tgt = e
                    if n["left"]["kind"] == "var":
                        while not tgt.fn: tgt = tgt.up
                    self.bind(n["left"]["declarations"][0]["id"], x, tgt)
                else: self.bind(n["left"], x, e, False)
                try: self.ex(n["body"], e)
                except Break as b:
                    if b.label: raise
                    break
                except Continue as b:
                    if b.label: raise
        elif t == "BreakStatement": raise Break(n["label"] and n["label"]["name"])
        elif t == "ContinueStatement": raise Continue(n["label"] and n["label"]["name"])
        elif t == "LabeledStatement":
            try: self.ex(n["body"], env)
            except Break as b:
                if b.label != n["label"]["name"]: raise
        elif t == "SwitchStatement": self.switch(n, env)
        elif t == "ThrowStatement": raise Thrown(self.ev(n["argument"], env), self.where(n))
        elif t == "TryStatement":
            try:
                try: self.ex(n["block"], env)
                except (Thrown, Fault) as x:
                    if not n["handler"]: raise
                    e = Env(env)
                    if n["handler"]["param"]: self.bind(n["handler"]["param"], self.any(), e)
                    self.ex(n["handler"]["body"], e)
            finally:
                if n["finalizer"]: self.ex(n["finalizer"], env)
        elif t in ("EmptyStatement", "DebuggerStatement"): pass
        else: raise Missing("JavaScript statement " + t)

    def switch(self, n, env):
        d = self.guarded(n["discriminant"], env)
        e = Env(env)
        start = None
        for i, c in enumerate(n["cases"]):
            if c["test"] is None: continue
            if self.truth(self.same(d, self.guarded(c["test"], e), True), "case"):
                start = i
                break
        if start is None:
            ds = [i for i, c in enumerate(n["cases"]) if c["test"] is None]
            if not ds: return
            start = ds[0]
        try:
            for c in n["cases"][start:]:
                for s in c["consequent"]: self.ex(s, e)
        except Break as b:
            if b.label: raise

    def loop(self, n, env):
        e = Env(env)
        t = n["type"]
        if t == "ForStatement" and n["init"]:
            if n["init"]["type"] == "VariableDeclaration": self.ex(n["init"], e)
            else: self.ev(n["init"], e)
        first, guesses = t == "DoWhileStatement", 0
        while True:
            self.tick()
            if not first and n.get("test"):
                v = self.guarded(n["test"], e)
                if isinstance(v, Sym) and v.truthy is None:
                    guesses += 1
                    if guesses > 2: break
                if not self.truth(v, self.where(n)): break
            first = False
            it = Env(e)
            if t == "ForStatement" and n["init"] and n["init"]["type"] == "VariableDeclaration" and n["init"]["kind"] == "let": it.vars = dict(e.vars)
            try: self.ex(n["body"], it)
            except Break as b:
                if b.label: raise
                break
            except Continue as b:
                if b.label: raise
            if t == "ForStatement" and n["init"] and n["init"]["type"] == "VariableDeclaration" and n["init"]["kind"] == "let":
                for k in list(e.vars): e.vars[k] = it.vars[k]
            if n.get("update"): self.ev(n["update"], e)

    # ---- expressions
    def ev(self, n, env):
        self.tick()
        t = n["type"]
        f = getattr(self, "x" + t, None)
        if f is None: raise Missing("JavaScript expression " + t)
        return f(n, env)

    def xLiteral(self, n, env):
        if n.get("regex"): return Obj("unknown", name="regex")
        return n.get("value")

    def xTemplateLiteral(self, n, env):
        out = [n["quasis"][0]["value"]["cooked"]]
        for q, x in zip(n["quasis"][1:], n["expressions"]): out += [self.text(self.ev(x, env)), q["value"]["cooked"]]
        c = Cat(out)
        return "" if not c.parts else c.parts[0] if len(c.parts) == 1 and isinstance(c.parts[0], str) else c

    def xIdentifier(self, n, env):
        e = env.find(n["name"])
        if e: return e.vars[n["name"]]
        if n["name"] in self.window.props: return self.window.props[n["name"]]
        if n["name"] in SPECIAL: return self.special(n["name"], n)
        if n["name"] in self.els: return self.els[n["name"]]
        self.fault(f"`{n['name']}` is not defined", n)

    def xThisExpression(self, n, env):
        e = env.find("this")
        return e.vars["this"] if e else self.window

    def xFunctionExpression(self, n, env): return Func(n, env)
    xArrowFunctionExpression = xFunctionExpression

    def xArrayExpression(self, n, env):
        o = Obj("array")
        for x in n["elements"]:
            if x is None: o.items.append(UNDEF)
            elif x["type"] == "SpreadElement": o.items += self.elements(self.ev(x["argument"], env), x)
            else: o.items.append(self.ev(x, env))
        return o

    def xObjectExpression(self, n, env):
        o = Obj()
        for p in n["properties"]:
            if p["type"] == "SpreadElement":
                v = self.ev(p["argument"], env)
                if isinstance(v, Obj): o.props.update(v.props)
            else:
                k = self.key(p, env)
                o.props[k if isinstance(k, str) else "?"] = self.ev(p["value"], env)
        return o

    def xConditionalExpression(self, n, env): return self.ev(n["consequent"] if self.cond(n["test"], env) else n["alternate"], env)

    def xSequenceExpression(self, n, env):
        for x in n["expressions"]: v = self.ev(x, env)
        return v

    def xLogicalExpression(self, n, env):
        a = self.guarded(n["left"], env)
        o = n["operator"]
        if o == "??": return self.ev(n["right"], env) if a is None or a is UNDEF else a
        c = self.truth(a, self.where(n))
        if c == (o == "||"): return a
        return self.ev(n["right"], env)

    def same(self, a, b, strict):
        if isinstance(a, (Sym, Cat)) or isinstance(b, (Sym, Cat)):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Cat) and (y is None or y is UNDEF): return False
                if isinstance(x, Sym) and x.kind in ("str", "num", "bool") and (y is None or y is UNDEF): return False
                if isinstance(x, Sym) and x.kind == "str" and y == "" and x.truthy: return False
                if isinstance(x, Sym) and strict and (x.kind == "str" and isinstance(y, (int, float, bool)) or x.kind == "num" and isinstance(y, str)): return False
            return self.any(a, b, kind="bool")
        if isinstance(a, (Obj, Func, Native)) or isinstance(b, (Obj, Func, Native)): return a is b
        if not strict and (a is None or a is UNDEF) and (b is None or b is UNDEF): return True
        if not strict and type(a) is not type(b):
            if a is None or a is UNDEF or b is None or b is UNDEF: return False
            try: return float(a) == float(b)
            except ValueError: return False
        if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool)): return False
        return a == b

    def xBinaryExpression(self, n, env):
        o = n["operator"]
        cmp = o in ("==", "===", "!=", "!==", "in", "instanceof")
        if cmp:
            a, b = self.guarded(n["left"], env), self.guarded(n["right"], env)
            if o in ("==", "===", "!=", "!=="):
                s = self.same(a, b, len(o) == 3)
                if isinstance(s, Sym): return s
                return s if o[0] == "=" else not s
            if o == "in":
                if isinstance(b, Obj) and isinstance(a, str):
                    if a not in b.props and b.server is not None: self.absent(b.server, a, n)
                    return a in b.props
                return self.any(kind="bool")
            return self.any(kind="bool")
        a, b = self.ev(n["left"], env), self.ev(n["right"], env)
        return self.binop(o, a, b, n)

    def binop(self, o, a, b, n):
        if o == "+": return self.add(a, b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try: return {"-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "%": lambda: a % b, "**": lambda: a ** b, "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b,
                        "&": lambda: int(a) & int(b), "|": lambda: int(a) | int(b), "^": lambda: int(a) ^ int(b), "<<": lambda: int(a) << int(b), ">>": lambda: int(a) >> int(b), ">>>": lambda: int(a) >> int(b)}[o]()
            except (ZeroDivisionError, OverflowError): return float("nan")
        if o in ("<", ">", "<=", ">="):
            if isinstance(a, str) and isinstance(b, str): return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[o]
            if a is UNDEF or b is UNDEF: return False
            return self.any(a, b, kind="bool")
        return self.any(a, b, kind="num")

    def xUnaryExpression(self, n, env):
        o = n["operator"]
        if o == "typeof":
            if n["argument"]["type"] == "Identifier" and not env.find(n["argument"]["name"]) and n["argument"]["name"] not in SPECIAL: return "undefined"
            v = self.guarded(n["argument"], env)
            if isinstance(v, Sym): return {"str": "string", "num": "number", "bool": "boolean"}.get(v.kind) or self.any(kind="str")
            return "string" if isinstance(v, (str, Cat)) else "boolean" if isinstance(v, bool) else "number" if isinstance(v, (int, float)) else "undefined" if v is UNDEF else "function" if isinstance(v, (Func, Native)) else "object"
        if o == "!":
            v = self.guarded(n["argument"], env)
            if isinstance(v, Sym) and v.truthy is None: return Sym("bool", v.taint, truthy=None)
            return not self.truth(v)
        if o == "delete":
            x = n["argument"]
            if x["type"] == "MemberExpression":
                ob = self.ev(x["object"], env)
                k = self.ev(x["property"], env) if x["computed"] else x["property"]["name"]
                if isinstance(ob, Obj): ob.props.pop(k, None)
            return True
        v = self.ev(n["argument"], env)
        if o == "void": return UNDEF
        if isinstance(v, (int, float)): return -v if o == "-" else v if o == "+" else ~int(v)
        if o == "+" and isinstance(v, str) and re.fullmatch(r"\d+", v): return int(v)
        if o == "+" and isinstance(v, Sym) and v.choices is not None: return v
        return self.any(v, kind="num")

    def xUpdateExpression(self, n, env):
        v = self.ev(n["argument"], env)
        w = v + (1 if n["operator"] == "++" else -1) if isinstance(v, (int, float)) else self.any(v, kind="num")
        self.bind(n["argument"], w, env, False)
        return w if n["prefix"] else v

    def xAssignmentExpression(self, n, env):
        o = n["operator"]
        if o == "=":
            v = self.ev(n["right"], env)
        else:
            a = self.ev(n["left"], env)
            if o in ("||=", "&&=", "??="):
                c = (a is not None and a is not UNDEF) if o == "??=" else self.truth(a) if o == "||=" else not self.truth(a)
                if c: return a
                v = self.ev(n["right"], env)
            else: v = self.binop(o[:-1], a, self.ev(n["right"], env), n)
        self.node = n
        self.bind(n["left"], v, env, False)
        return v

    def xMemberExpression(self, n, env, opt=False):
        o = self.ev_obj(n["object"], env)
        if n.get("optional") and (o is None or o is UNDEF): raise Short()
        k = self.ev(n["property"], env) if n["computed"] else n["property"]["name"]
        if n.get("optional"):
            self.guard += 1
            try: return self.get(o, k, n)
            finally: self.guard -= 1
        return self.get(o, k, n)

    def ev_obj(self, n, env):
        """what a member is taken of: it has to be there, even in a condition"""
        g = self.guard
        v = self.ev(n, env)
        return v

    def xChainExpression(self, n, env):
        try: return self.guarded(n["expression"], env)
        except Short: return UNDEF

    def xCallExpression(self, n, env):
        c = n["callee"]
        if c["type"] == "MemberExpression":
            this = self.ev(c["object"], env)
            if c.get("optional") and (this is None or this is UNDEF): raise Short()
            k = self.ev(c["property"], env) if c["computed"] else c["property"]["name"]
            cc = dict(c)
            cc["_call"] = True
            f = self.get(this, k, cc)
        else: this, f = UNDEF, self.ev(c, env)
        if n.get("optional") and (f is None or f is UNDEF): raise Short()
        g, self.guard = self.guard, 0
        try:
            a = []
            for x in n["arguments"]:
                if x["type"] == "SpreadElement": a += self.elements(self.ev(x["argument"], env), x)
                else: a.append(self.ev(x, env))
        finally: self.guard = g
        return self.call(f, this, a, n)

    def xNewExpression(self, n, env):
        f = self.ev(n["callee"], env)
        a = [self.ev(x, env) for x in n["arguments"]]
        if isinstance(f, Func):
            o = Obj()
            r = self.call(f, o, a, n)
            return r if isinstance(r, Obj) else o
        return self.call(f, UNDEF, a, n) if isinstance(f, Native) else Obj("unknown", name=getattr(f, "name", "new"))

    def xAwaitExpression(self, n, env): return self.ev(n["argument"], env)


class Short(Exception): pass


def _each(k):
    def f(pg, o, a, nd):
        xs = list(o.items)
        if k == "forEach":
            for i, x in enumerate(xs): pg.call(a[0], UNDEF, [x, i, o], nd)
            return UNDEF
        if k in ("map", "flatMap"):
            r = Obj("array")
            for i, x in enumerate(xs):
                v = pg.call(a[0], UNDEF, [x, i, o], nd)
                if k == "flatMap" and isinstance(v, Obj) and v.kind == "array": r.items += v.items
                else: r.items.append(v)
            return r
        if k in ("filter", "find", "findIndex", "some", "every"):
            r = Obj("array")
            for i, x in enumerate(xs):
                t = pg.truth(pg.call(a[0], UNDEF, [x, i, o], nd), k)
                if k == "find" and t: return x
                if k == "findIndex" and t: return i
                if k == "some" and t: return True
                if k == "every" and not t: return False
                if t: r.items.append(x)
            return {"find": UNDEF, "findIndex": -1, "some": False, "every": True}.get(k, r)
        if k in ("reduce", "reduceRight"):
            if k == "reduceRight": xs = xs[::-1]
            if len(a) > 1: acc = a[1]
            else:
                if not xs: pg.fault("reduce of an empty list", nd)
                acc, xs = xs[0], xs[1:]
            for i, x in enumerate(xs): acc = pg.call(a[0], UNDEF, [acc, x, i, o], nd)
            return acc
    return f


def _sort(pg, o, a, nd):
    if a and len(o.items) > 1: pg.call(a[0], UNDEF, [o.items[0], o.items[1]], nd)
    return o


def _push(pg, o, a, nd):
    o.items += a
    del o.items[50:]
    return len(o.items)


def _join(pg, o, a, nd):
    sep = a[0] if a else ","
    out = []
    for i, x in enumerate(o.items): out += ([pg.text(sep)] if i else []) + ["" if x is None or x is UNDEF else pg.text(x)]
    c = Cat(out)
    return "" if not c.parts else c.parts[0] if len(c.parts) == 1 else c


def _arr(f):
    def g(pg, o, a, nd):
        x = Obj("array")
        x.items = f(o, a)
        return x
    return g


ARRAY = {k: _each(k) for k in ("forEach", "map", "flatMap", "filter", "find", "findIndex", "some", "every", "reduce", "reduceRight")}
ARRAY.update({"sort": _sort, "push": _push, "join": _join,
              "pop": lambda pg, o, a, nd: o.items.pop() if o.items else UNDEF, "shift": lambda pg, o, a, nd: o.items.pop(0) if o.items else UNDEF,
              "unshift": lambda pg, o, a, nd: o.items.__setitem__(slice(0, 0), a) or len(o.items), "reverse": lambda pg, o, a, nd: o.items.reverse() or o,
              "slice": _arr(lambda o, a: o.items[(a[0] if a and isinstance(a[0], int) else 0):]), "concat": _arr(lambda o, a: o.items + [y for x in a for y in (x.items if isinstance(x, Obj) and x.kind == "array" else [x])]),
              "includes": lambda pg, o, a, nd: pg.any(kind="bool"), "indexOf": lambda pg, o, a, nd: pg.any(kind="num"), "splice": _arr(lambda o, a: []), "flat": _arr(lambda o, a: [y for x in o.items for y in (x.items if isinstance(x, Obj) and x.kind == "array" else [x])]),
              "entries": _arr(lambda o, a: [Page.array(None, [i, x]) for i, x in enumerate(o.items)]), "keys": _arr(lambda o, a: list(range(len(o.items)))), "values": _arr(lambda o, a: list(o.items)), "at": lambda pg, o, a, nd: o.items[a[0]] if a and isinstance(a[0], int) and -len(o.items) <= a[0] < len(o.items) else UNDEF,
              "toString": lambda pg, o, a, nd: pg.text(o), "fill": lambda pg, o, a, nd: o, "item": lambda pg, o, a, nd: o.items[a[0]] if a and isinstance(a[0], int) and a[0] < len(o.items) else None})
SPECIAL = set("JSON console WebSocket String Number Boolean Array Object Math Date RegExp Map Set Promise Error XMLHttpRequest fetch setTimeout setInterval clearTimeout clearInterval requestAnimationFrame navigator encodeURI decodeURI encodeURIComponent decodeURIComponent parseInt parseFloat alert confirm performance localStorage sessionStorage history URL URLSearchParams isNaN isFinite addEventListener queueMicrotask structuredClone Symbol Event CustomEvent Intl screen FormData Blob TextEncoder TextDecoder AbortController".split())


def explore(run, limit=4000):
    """call run(choose) for every sequence of decisions"""
    todo, n = [[]], 0
    while todo:
        pre = todo.pop()
        taken = []

        def choose(k, why=""):
            i = len(taken)
            v = pre[i] if i < len(pre) else 0
            taken.append(v)
            if i >= len(pre):
                for o in range(1, k): todo.append(taken[:-1] + [o])
            return v
        run(choose)
        n += 1
        if n > limit: raise Missing("a bounded number of paths through the page's scripts")
    return n
