"""The zserio subset of /verif/corpus: an independent parser and resolver (nothing of it comes from /repo)."""
import os, re

TOK = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|(?P<str>"(?:[^"\\]|\\.)*")|(?P<num>0[xX][0-9a-fA-F]+|[01]+[bB]|[0-9]+\.[0-9]+|[0-9]+)|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<op>@index|<=|>=|==|!=|&&|\|\||<<|[-+*/%!~&|^<>?:;,.(){}\[\]=@])""", re.S)


class Src:
    def __init__(self, txt, name):
        self.t, self.i, self.name = [], 0, name
        p = 0
        while p < len(txt):
            m = TOK.match(txt, p)
            if not m:
                raise SyntaxError("%s: %r" % (name, txt[p:p + 40]))
            if m.lastgroup:
                self.t.append((m.lastgroup, m.group(m.lastgroup)))
            p = m.end()
        self.t.append(("eof", ""))

    @property
    def cur(self): return self.t[self.i][1]
    @property
    def kind(self): return self.t[self.i][0]
    def peek(self, k=1): return self.t[min(self.i + k, len(self.t) - 1)][1]

    def next(self):
        v = self.cur
        self.i += 1
        return v

    def eat(self, s):
        if self.kind in ("op", "id") and self.cur == s:
            self.i += 1
            return True
        return False

    def want(self, s):
        if not self.eat(s):
            raise SyntaxError("%s: expected %s, found %s near %s" % (self.name, s, self.cur, " ".join(x[1] for x in self.t[self.i - 8:self.i + 4])))


BIN = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", "<=", ">", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]


def expr(s, notgt=False):
    c = binary(s, 0, notgt)
    if s.eat("?"):
        a = expr(s, notgt)
        s.want(":")
        return ("tern", c, a, expr(s, notgt))
    return c


def binary(s, l, notgt):
    if l == len(BIN):
        return unary(s)
    a = binary(s, l + 1, notgt)
    while True:
        op = s.cur if s.kind == "op" else ""
        if op == ">" and s.peek() == ">" and not notgt:
            op = ">>"
        if op not in BIN[l] or (notgt and op in (">", ">=", ">>")):
            return a
        s.next()
        if op == ">>":
            s.next()
        a = ("bin", op, a, binary(s, l + 1, notgt))


def unary(s):
    if s.kind == "op" and s.cur in "+-!~" and s.cur:
        op = s.next()
        return ("un", op, unary(s))
    return postfix(s)


def postfix(s):
    a = primary(s)
    while True:
        if s.eat("."):
            a = ("dot", a, s.next())
        elif s.eat("["):
            i = expr(s)
            s.want("]")
            a = ("idx", a, i)
        elif s.cur == "(" and s.peek() == ")":
            s.next(); s.next()
            a = ("call", a)
        else:
            return a


def primary(s):
    if s.eat("("):
        e = expr(s)
        s.want(")")
        return e
    k, v = s.kind, s.next()
    if v == "@index":
        return ("index",)
    if k == "str":
        return ("str", v[1:-1])
    if k == "num":
        if "." in v:
            return ("float", float(v))
        if v[:2].lower() == "0x":
            return ("int", int(v, 16))
        if v[-1] in "bB":
            return ("int", int(v[:-1], 2))
        return ("int", int(v, 8) if len(v) > 1 and v[0] == "0" else int(v))
    if v in ("true", "false"):
        return ("bool", v == "true")
    if v in ("lengthof", "valueof", "numbits", "isset") and s.cur == "(":
        s.want("(")
        a = [expr(s)]
        while s.eat(","):
            a.append(expr(s))
        s.want(")")
        return (v,) + tuple(a)
    assert k == "id", (s.name, k, v)
    return ("id", v)


def typeref(s):
    """dict(name, bits, width, args, targs)"""
    n = s.next()
    t = dict(name=n, bits=0, width=None, args=[], targs=[])
    if n in ("bit", "int") and s.eat(":"):
        t["bits"] = int(s.next())
    elif n in ("bit", "int") and s.eat("<"):
        t["width"] = expr(s, True)
        s.want(">")
    else:
        while s.cur == "." and s.kind == "op":
            s.next()
            t["name"] = s.next()
        if s.eat("<"):
            while True:
                t["targs"].append(typeref(s))
                if not s.eat(","):
                    break
            s.want(">")
        if s.eat("("):
            while not s.eat(")"):
                t["args"].append(expr(s))
                s.eat(",")
    return t


def params(s):
    r = []
    if s.eat("("):
        while not s.eat(")"):
            t = typeref(s)
            r.append((s.next(), t))
            s.eat(",")
    return r


def tparams(s):
    r = []
    if s.eat("<"):
        while not s.eat(">"):
            r.append(s.next())
            s.eat(",")
    return r


def field(s, case=False):
    f = dict(align=0, offset=None, optional=False, cond=None, packed=False, array=None)
    while True:
        if s.cur == "align" and s.peek() == "(":
            s.next(); s.want("(")
            f["align"] = int(s.next())
            s.want(")"); s.want(":")
        elif s.kind == "id" and s.peek() in (":", "[", ".") and not (s.cur in ("bit", "int") and s.peek() == ":"):
            f["offset"] = postfix(s)
            s.want(":")
        else:
            break
    f["optional"] = s.eat("optional")
    f["packed"] = s.eat("packed")
    f["type"] = typeref(s)
    f["name"] = s.next()
    if s.eat("["):
        f["array"] = ("auto",) if s.cur == "]" else ("len", expr(s))
        s.want("]")
    if s.eat("if"):
        f["cond"] = expr(s)
    s.want(";")
    return f


def func(s):
    s.want("function")
    t = typeref(s)
    n = s.next()
    s.want("("); s.want(")"); s.want("{"); s.want("return")
    e = expr(s)
    s.want(";"); s.want("}")
    return dict(name=n, type=t, expr=e)


def parse(path):
    s = Src(open(path).read(), os.path.basename(path))
    pkg, decls = None, []
    while s.kind != "eof":
        k = s.next()
        if k == "package":
            pkg = s.next()
            while s.eat("."):
                pkg += "." + s.next()
            s.want(";")
        elif k == "import":
            while not s.eat(";"):
                s.next()
        elif k == "const":
            t = typeref(s); n = s.next()
            s.want("=")
            decls.append(dict(kind="const", name=n, type=t, expr=expr(s)))
            s.want(";")
        elif k == "subtype":
            t = typeref(s)
            decls.append(dict(kind="subtype", name=s.next(), type=t))
            s.want(";")
        elif k == "instantiate":
            t = typeref(s)
            decls.append(dict(kind="instantiate", name=s.next(), type=t))
            s.want(";")
        elif k in ("enum", "bitmask"):
            t = typeref(s); n = s.next()
            s.want("{")
            items = []
            while not s.eat("}"):
                i = s.next()
                items.append((i, expr(s) if s.eat("=") else None))
                s.eat(",")
            s.want(";")
            decls.append(dict(kind=k, name=n, type=t, items=items))
        elif k in ("struct", "choice", "union"):
            n = s.next()
            d = dict(kind=k, name=n, tparams=tparams(s), params=params(s), fields=[], funcs=[], cases=[], default=None)
            if k == "choice":
                s.want("on")
                d["sel"] = expr(s)
            s.want("{")
            while not s.eat("}"):
                if s.cur == "function":
                    d["funcs"].append(func(s))
                elif k == "choice":
                    if s.eat("default"):
                        s.want(":")
                        d["default"] = dict(field=None if s.eat(";") else field(s))
                    else:
                        s.want("case")
                        c = [expr(s)]
                        s.want(":")
                        while s.eat("case"):
                            c.append(expr(s))
                            s.want(":")
                        d["cases"].append(dict(conds=c, field=None if s.eat(";") else field(s)))
                else:
                    d["fields"].append(field(s))
            s.want(";")
            decls.append(d)
        else:
            raise SyntaxError("%s: %s" % (path, k))
    for d in decls:
        d["package"] = pkg
    return decls


BUILTIN = {"bool", "string", "bytes", "extern", "float16", "float32", "float64", "bit", "int", "varsize", "varint", "varuint"} | \
    {p + n for p in ("int", "uint") for n in ("8", "16", "32", "64")} | {p + n for p in ("varint", "varuint") for n in ("16", "32", "64")}


class Model:
    """every type with its templates instantiated, in declaration order"""

    def __init__(self, root):
        self.decls, self.raw = {}, []
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith(".zs"):
                    self.raw += parse(os.path.join(d, f))
        for d in self.raw:
            assert d["name"] not in self.decls, d["name"]
            self.decls[d["name"]] = d
        self.types, self.inst = {}, {}
        self.instnames = {}
        for d in self.raw:
            if d["kind"] == "instantiate":
                self.instnames[self.tkey(d["type"])] = d["name"]
        for d in self.raw:
            if d["kind"] in ("enum", "bitmask"):
                self.types[d["name"]] = dict(d, type=self.rtype(d["type"], {}))
            elif d["kind"] in ("struct", "choice", "union") and not d["tparams"]:
                self.types[d["name"]] = None
        for d in self.raw:
            if d["kind"] in ("struct", "choice", "union") and not d["tparams"]:
                self.types[d["name"]] = self.concrete(d, {})
        for d in self.raw:
            if d["kind"] == "instantiate":
                self.rtype(d["type"], {})
        self.consts = {d["name"]: dict(d, type=self.rtype(d["type"], {})) for d in self.raw if d["kind"] == "const"}
        for d in self.types.values():
            if d["kind"] in ("enum", "bitmask"):
                self.values(d)

    def tkey(self, t):
        return t["name"] + (":%d" % t["bits"] if t["bits"] else "") + ("<%s>" % ",".join(self.tkey(a) for a in t["targs"]) if t["targs"] else "")

    def rtype(self, t, sub):
        """resolve subtypes, template parameters and instantiations"""
        n = t["name"]
        if n in sub:
            return dict(sub[n], args=t["args"]) if t["args"] else sub[n]
        if n in BUILTIN:
            return t
        d = self.decls[n]
        if d["kind"] == "subtype":
            r = self.rtype(d["type"], {})
            return dict(r, args=t["args"]) if t["args"] else r
        if d["kind"] == "instantiate":
            return dict(self.rtype(d["type"], {}), args=t["args"])
        if t["targs"]:
            targs = [self.rtype(a, sub) for a in t["targs"]]
            key = self.tkey(dict(t, targs=targs))
            name = self.instnames.get(self.tkey(t)) or self.instnames.get(key) or "".join([n] + [self.tname(a) for a in targs])
            if name not in self.types:
                self.types[name] = None
                c = self.concrete(d, dict(zip(d["tparams"], targs)))
                self.types[name] = dict(c, name=name, template=n)
            return dict(name=name, bits=0, width=None, args=t["args"], targs=[])
        return dict(t)

    def tname(self, a):
        return a["name"]

    def concrete(self, d, sub):
        f = lambda x: None if x is None else dict(x, type=self.rtype(x["type"], sub))
        return dict(d, params=[(n, self.rtype(t, sub)) for n, t in d["params"]], fields=[f(x) for x in d["fields"]],
                    cases=[dict(c, field=f(c["field"])) for c in d["cases"]],
                    default=d["default"] and dict(d["default"], field=f(d["default"]["field"])),
                    funcs=[dict(g, type=self.rtype(g["type"], sub)) for g in d["funcs"]])

    # ---------------- compile-time values (mathematical integers, division truncates)
    def ev(self, e):
        k = e[0]
        if k in ("int", "bool", "str", "float"):
            return e[1]
        if k == "id":
            return self.ev(self.consts[e[1]]["expr"])
        if k == "un":
            v = self.ev(e[2])
            return {"+": lambda: v, "-": lambda: -v, "!": lambda: not v, "~": lambda: ~v}[e[1]]()
        if k == "numbits":
            v = self.ev(e[1])
            return 0 if v == 0 else 1 if v == 1 else (v - 1).bit_length()
        if k == "tern":
            return self.ev(e[2]) if self.ev(e[1]) else self.ev(e[3])
        if k == "bin":
            a, b = self.ev(e[2]), self.ev(e[3])
            q = lambda: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": q, "%": lambda: a - b * q(), "<<": lambda: a << b, ">>": lambda: a >> b,
                    "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "&&": lambda: a and b, "||": lambda: a or b,
                    "==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[e[1]]()
        raise ValueError(e)

    def values(self, d):
        r, last, used = [], -1, 0
        for n, e in d["items"]:
            if e is not None:
                v = self.ev(e)
            elif d["kind"] == "enum":
                v = last + 1
            else:
                v = 1 << used.bit_length()
            last, used = v, used | (v if d["kind"] == "bitmask" else 0)
            r.append((n, v))
        d["values"] = r


def snake(n):
    """camelCase and digits to snake_case words"""
    return re.sub(r"_+", "_", "_".join(re.findall(r"[A-Z]+(?![a-z])|[A-Z][a-z]*|[a-z]+|[0-9]+", n))).lower()


def pascal(n):
    return "".join(w[0].upper() + w[1:].lower() for w in re.findall(r"[A-Z]+(?![a-z])|[A-Z][a-z]*|[a-z]+|[0-9]+", n))


RUST = {"bool": "bool", "string": "String", "bytes": "zserio::ztype::BytesType", "extern": "zserio::ztype::ExternType", "float16": "f32", "float32": "f32", "float64": "f64",
        "bit": "u64", "int": "i64", "varsize": "u32", "varint": "i64", "varuint": "u64", "varint16": "i16", "varint32": "i32", "varint64": "i64",
        "varuint16": "u16", "varuint32": "u32", "varuint64": "u64", **{"int%d" % n: "i%d" % n for n in (8, 16, 32, 64)}, **{"uint%d" % n: "u%d" % n for n in (8, 16, 32, 64)}}
