"""Contracts of the generated code, written from the schemas (never from the generated code, of which only the
names of files and types are looked up): overlay text for /verif/extract, one module per package."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import zs
from genglue import Glue, fname

SKIP = {"Recursive", "PackedInners", "Overflowing", "Dividing", "Conditional", "Aligned", "EnumArrays", "EnumHolder", "MaskChoice", "AlignedAny", "AlignedAnyOptional", "AlignedParts", "AlignedElements"}
ONLY_FUNCS = {"MixSum", "MixOps", "MixBits", "MixCompare", "MixUnary", "OverSubtypes", "Long"}
VAR = {"varint16": "I16", "varint32": "I32", "varint64": "I64", "varint": "I", "varuint16": "U16", "varuint32": "U32", "varuint64": "U64", "varuint": "U", "varsize": "Size"}
TRAIT = {"varint16": "VarInt16", "varint32": "VarInt32", "varint64": "VarInt64", "varint": "VarInt", "varuint16": "VarUint16", "varuint32": "VarUint32", "varuint64": "VarUint64",
         "varuint": "VarUint", "varsize": "VarSize", "bool": "Boolean", "float16": "Float16", "float32": "Float32", "float64": "Float64", "string": "String", "bytes": "ByteBuffer", "extern": "BitBuffer"}
RUST = dict(zs.RUST, bytes="BytesType", extern="ExternType")
INT32, LEN, I64 = (True, 32, 32, True), (False, 31, 32, True), (True, 64, 64, True)


def promote(t):
    return None if t is None else t if t[3] else INT32


def mix(a, b):
    """the usual arithmetic conversions of C++, over the width of the values"""
    if a == b:
        return a
    x, y = promote(a), promote(b)
    if x and y:
        if (x[1] > 32) != (y[1] > 32):
            return x if x[1] > 32 else y
        if x[0] != y[0]:
            return y if x[0] else x
        return x if x[1] > y[1] else y
    return x or y


def rng(t):
    t = t or INT32
    return (-(1 << t[2] - 1), (1 << t[2] - 1) - 1) if t[0] else (0, (1 << t[2]) - 1)


class X:
    """an expression of the schema as a specification: text, kind (i integer, b bool, s string, o object/array), type, conditions for it to have a value"""

    def __init__(self, s, k, nt=None, d=(), t=None, raw=None):
        self.s, self.k, self.nt, self.d, self.t, self.raw = s, k, nt, list(d), t, raw


class VG(Glue):
    def nt(self, t):
        n = t["name"]
        m = re.match(r"(uint|int)(\d+)$", n)
        if m:
            b = int(m.group(2))
            return (m.group(1) == "int", b, b, b >= 32)
        if n in ("bit", "int"):
            r = 64 if t["width"] is not None else t["bits"]
            return (n == "int", r, 64, r >= 32)
        if n == "varsize":
            return LEN
        if n in VAR:
            b = int(re.sub(r"\D", "", n) or 72)
            r, b = {16: (15, 16), 32: (29, 32), 64: (57, 64), 72: (64, 64)}[b]
            s = n.startswith("varint")
            return (s, r, b, b >= 32 and not (s and b == 32))
        return None

    # ------------------------------------------------------------ names
    def own(self, t, pkg):
        """the package in which the type used in package pkg is generated"""
        d = self.m.types[t]
        return d["package"] if "template" not in d or t in self.m.instnames.values() else pkg

    def vname(self, t, pkg):
        p = self.path(t, pkg).split("::")
        return "g_%s::%s" % (p[2], p[-1])

    def rust(self, t, pkg):
        n = t["name"]
        return self.vname(n, self.own(n, pkg)) if n in self.m.types else RUST[n]

    def kind(self, t):
        return self.m.types[t["name"]]["kind"] if t["name"] in self.m.types else None

    # ------------------------------------------------------------ expressions
    def conv(self, s, t, d=()):
        """the value of an expression of a declared type"""
        k = self.kind(t)
        if k == "enum":
            return X("%s_val(%s)" % (self.vname(t["name"], self.own(t["name"], self.pkg)), s), "i", None, d, t, s)
        if k == "bitmask":
            return X("(%s.bits as int)" % s, "i", None, d, t, s)
        if k or t["name"] in ("bytes", "extern", "float16", "float32", "float64"):
            return X(s, "o", None, d, t, s)
        if t["name"] == "bool":
            return X(s, "b", None, d, t, s)
        if t["name"] == "string":
            return X(s, "s", None, d, t, s)
        return X("(%s as int)" % s, "i", self.nt(t), d, t, s)

    def fieldref(self, f, s):
        if f["array"] is not None:
            return X(s, "a", self.nt(f["type"]), [], f["type"], s)
        if f["optional"]:
            return self.conv(s + "->Some_0", f["type"], ["%s is Some" % s])
        return self.conv(s, f["type"])

    def ev(self, e, d, v="v", case=None, index=None):
        k = e[0]
        r = lambda x: self.ev(x, d, v, case, index)
        if k == "int": return X("%dint" % e[1] if e[1] >= 0 else "(%dint)" % e[1], "i", None if e[1] < 1 << 31 else I64 if e[1] < 1 << 63 else (False, 64, 64, True))
        if k == "bool": return X(str(e[1]).lower(), "b")
        if k == "index": return X(index, "i", None)
        if k == "id":
            n = e[1]
            if case in self.m.types:
                w = dict(self.m.types[case].get("values", []))
                if n in w:
                    return X("%d" % w[n], "i")
            for p, t in d["params"]:
                if p == n:
                    return self.conv("%s.%s" % (v, fname(n)), t)
            for f in self.fields(d):
                if f["name"] == n:
                    return self.fieldref(f, "%s.%s" % (v, fname(n)))
            c = self.m.consts[n]
            w = self.m.ev(c["expr"])
            if isinstance(w, bool): return X(str(w).lower(), "b")
            return X("(%d)" % w, "i", self.nt(c["type"]))
        if k == "dot":
            if e[1][0] == "id" and e[1][1] in self.m.types and self.m.types[e[1][1]]["kind"] in ("enum", "bitmask"):
                return X("%d" % dict(self.m.types[e[1][1]]["values"])[e[2]], "i")
            a = r(e[1])
            dd = self.m.types[a.t["name"]]
            f = [f for f in self.fields(dd) if f["name"] == e[2]][0]
            x = self.fieldref(f, "%s.%s" % (a.raw, fname(e[2])))
            x.d = a.d + x.d
            return x
        if k == "idx":
            a, i = r(e[1]), r(e[2])
            x = self.conv("%s@[%s]" % (a.raw, i.s), a.t)
            x.d = a.d + i.d + ["0 <= %s < %s@.len()" % (i.s, a.raw)] + x.d
            return x
        if k == "call":
            f = [f for f in d["funcs"] if f["name"] == e[1][1]][0]
            n = "%s_%s" % (self.cur, fname(f["name"]))
            t = f["type"]
            return X("%s_v(%s)" % (n, v), "b" if t["name"] == "bool" else "i", self.nt(t), ["%s_d(%s)" % (n, v)])
        if k == "lengthof":
            a = r(e[1])
            return X("(%s@.len() as int)" % a.raw, "i", LEN, a.d + ["%s@.len() <= 0x7fff_ffff" % a.raw])
        if k == "numbits":
            a = r(e[1])
            return X("nbits(%s)" % a.s, "i", LEN, a.d)
        if k == "valueof":
            a = r(e[1])
            return X(a.s, "i", self.nt(self.m.types[a.t["name"]]["type"]), a.d)
        if k == "isset":
            a, b = r(e[1]), r(e[2])
            return X("(band(%s, %s) == %s)" % (a.s, b.s, b.s), "b", None, a.d + b.d)
        if k == "un":
            a = r(e[2])
            if e[1] == "!": return X("!(%s)" % a.s, "b", None, a.d)
            t = promote(a.nt)
            if e[1] == "+": return X(a.s, "i", t, a.d)
            if e[1] == "-":
                t = I64 if t and not t[0] else t
                s = "(-%s)" % a.s
                return X(s, "i", t, a.d + self.fit(a.s, t) + self.fit(s, t))
            s = "(-1 - %s)" % a.s if t is None or t[0] else "(%d - %s)" % (rng(t)[1], a.s)
            return X(s, "i", t, a.d + self.fit(s, t))
        if k == "tern":
            c, a, b = r(e[1]), r(e[2]), r(e[3])
            w = lambda x, y: "(if %s { %s } else { %s })" % (c.s, x, y)
            ds = c.d + ([w(conj(a.d), conj(b.d))] if a.d or b.d else [])
            t = mix(a.nt, b.nt) if a.k == "i" else None
            return X(w(a.s, b.s), a.k, t, ds + (self.fit(w(a.s, b.s), t) if t else []))
        op, a, b = e[1], r(e[2]), r(e[3])
        if op in ("&&", "||"):
            g = a.s if op == "&&" else "!(%s)" % a.s
            return X("(%s %s %s)" % (a.s, op, b.s), "b", None, a.d + (["(%s ==> %s)" % (g, conj(b.d))] if b.d else []))
        ds = a.d + b.d
        if op in ("==", "!=", "<", "<=", ">", ">="):
            x, y = (a.s, b.s) if a.k != "s" else (a.s + "@", b.s + "@")
            return X("((%s) %s (%s))" % (x, op, y), "b", None, ds)
        t = promote(a.nt if op in ("<<", ">>") else mix(a.nt, b.nt))
        ds = ds + self.fit(a.s, t)
        if op in ("<<", ">>"):
            ds.append("0 <= %s < %d" % (b.s, (t or INT32)[2]))
        else:
            ds += self.fit(b.s, t)
        if op in "/%":
            q = "tdiv(%s, %s)" % (a.s, b.s)
            s = q if op == "/" else "tmod(%s, %s)" % (a.s, b.s)
            ds.append("%s != 0" % b.s)
            ds += self.fit(q, t)
        else:
            s = {"+": "(%s + %s)", "-": "(%s - %s)", "*": "(%s * %s)", "&": "band(%s, %s)", "|": "bor(%s, %s)", "^": "bxor(%s, %s)",
                 "<<": "(%s * pow2(%s))", ">>": "(%s / pow2(%s))"}[op] % (a.s, b.s)
        x = X(s, "i", t, ds + ([] if op in "&|^/%>>" else self.fit(s, t)))
        x.nn = op in "+*/%&" and self.nonneg(a) and self.nonneg(b)
        return x

    def nonneg(self, x):
        return re.fullmatch(r"\(?\d+(int)?\)?", x.s) is not None or (x.nt is not None and not x.nt[0]) or getattr(x, "nn", False) or (x.t is not None and self.nt(x.t) is not None and not self.nt(x.t)[0])

    def fit(self, s, t):
        l, h = rng(t)
        return ["(%d) <= %s <= %d" % (l, s, h)]

    # ------------------------------------------------------------ one value of a type
    def width(self, t, d, v="v", index=None):
        if t["width"] is None:
            return X("%d" % t["bits"], "i")
        w = self.ev(t["width"], d, v, None, index)
        return X(w.s, "i", None, w.d + ["1 <= %s <= 64" % w.s])

    def leaf(self, t, x, d, v="v", index=None):
        """bits(q), ranges, shape, canonical form of the value x of type t, d the type it is a field of"""
        n = t["name"]
        if self.kind(t):
            p = self.rust(t, self.pkg)
            sh = ["(%s::o_shape())(%s)" % (p, x)] + self.args(t, x, d, v, index)
            fl = self.kind(t) == "struct" and self.flat(t)
            return dict(bits=lambda q: "(%s::o_enc())(%s, %s)" % (p, q, x), valid=["(%s::o_valid())(%s)" % (p, x)], shape=sh, canon=x if fl else "(%s::o_canon())(%s)" % (p, x), obj=True, lemma="%s_flat(%s);" % (p, x) if fl else "")
        o = dict(valid=[], shape=[], canon=x, obj=False)
        m = re.match(r"(uint|int)(\d+)$", n)
        if m:
            b = "%sbits(%s as %s64, %s)" % (("u", x, "u", m.group(2)) if m.group(1) == "uint" else ("s", x, "i", m.group(2)))
        elif n in ("bit", "int"):
            w = self.width(t, d, v, index)
            k, f, i = ("ubits", "ufits", "u64") if n == "bit" else ("sbits", "sfits", "i64")
            b = "%s(%s as %s, %s)" % (k, x, i, w.s)
            o["valid"], o["shape"] = ["%s(%s as %s, %s)" % (f, x, i, w.s)], w.d
        elif n in VAR:
            b = "vbits(Var::%s, %s as int)" % (VAR[n], x)
            o["valid"] = ["vrange(Var::%s, %s as int)" % (VAR[n], x)]
        elif n == "bool":
            b = "seq![%s]" % x
            o["bool"] = x
        elif n == "float16":
            b, o["canon"] = "byte_bits(bytes16(half_of(%s)))" % x, "half_value(half_of(%s))" % x
        elif n in ("float32", "float64"):
            b = "byte_bits(bytes%s(%s))" % (n[5:], x)
        elif n == "string":
            b, o["valid"] = "enc_string(%s@)" % x, ["utf8(%s@).len() <= 0x7fff_ffff" % x]
        elif n == "bytes":
            b, o["valid"], o["shape"] = "enc_bytes(%s.data_blob@)" % x, ["%s.byte_size <= 0x7fff_ffff" % x], ["%s.byte_size == %s.data_blob@.len()" % (x, x)]
        elif n == "extern":
            b, o["valid"], o["shape"] = "enc_extern(%s.bit_size as int, %s.data_blob@)" % (x, x), ["%s.bit_size <= 0x7fff_ffff" % x], ["extern_shape(%s.bit_size as int, %s.data_blob@)" % (x, x)]
            o["canon"] = "extern_zeroed(%s)" % x
        o["bits"] = lambda q: b
        return o

    def args(self, t, x, d, v, index):
        """the parameters of the object x are the arguments in the schema"""
        r = []
        if t["args"]:
            dd = self.m.types[t["name"]]
            for (p, pt), a in zip(dd["params"], t["args"]):
                e = self.ev(a, d, v, None, index)
                f = self.conv("%s.%s" % (x, fname(p)), pt)
                if e.k == "o":
                    r += e.d + ["%s == %s" % (f.s, e.raw)]
                else:
                    r += e.d + ["%s == %s" % (f.s, e.s)]
        return r

    def trait(self, t, d, v="v"):
        n = t["name"]
        if self.kind(t):
            return "ObjectArrayTrait {}"
        m = re.match(r"(uint|int)(\d+)$", n)
        if m:
            return "%sBitFieldArrayTrait { num_bits: %s }" % ("Unsigned" if m.group(1) == "uint" else "", m.group(2))
        if n in ("bit", "int"):
            return "%sBitFieldArrayTrait { num_bits: (%s) as u8 }" % ("Unsigned" if n == "bit" else "", self.width(t, d, v).s)
        return "%sArrayTrait {}" % TRAIT[n]

    # ------------------------------------------------------------ pieces of a type
    def pieces(self, n, d):
        """[dict(cond, bits(q), ...)] in the order of the stream, and the fields"""
        ps, fs = [], []
        def field(f, cond, cd):
            x = "v." + fname(f["name"])
            present = cond
            c = [] if cond is None else [cond]
            if f["optional"]:
                present = conj(c + ["%s is Some" % x])
            if f["align"]:
                ps.append(dict(cond=cond, bits=lambda q: "zeros(pad(%s, %d))" % (q, f["align"]), kind="pad", align=f["align"]))
            if f["optional"]:
                ps.append(dict(cond=cond, bits=lambda q: "seq![%s is Some]" % x, kind="bool", x="%s is Some" % x))
            y = x + "->Some_0" if f["optional"] else x
            if f["array"] is not None:
                tr, packed = self.trait(f["type"], d), self.packed(f, d)
                fixed, sh = "None::<usize>", []
                if f["array"][0] == "len":
                    l = self.ev(f["array"][1], d)
                    fixed = "Some((%s) as usize)" % l.s
                    sh = l.d + ["%s@.len() == %s" % (y, l.s)]
                if f["type"]["name"] in ("bit", "int") and f["type"]["width"] is not None:
                    sh += self.width(f["type"], d).d
                sh.append("arr_shape(%s, %s, %s@)" % (tr, packed, y))
                if f["type"]["args"]:
                    a = self.args(f["type"], "%s@[i]" % y, d, "v", "i")
                    sh.append("(forall|i: int| 0 <= i < %s@.len() ==> (%s) && #[trigger] %s@[i] == %s@[i])" % (y, conj(a), y, y))
                if packed == "true":
                    psm = "psmall_whole((%s).psmall(), %s@);" % (tr, y)
                    sh.append("((%s).psmall())(%s@)" % (tr, y))
                p = dict(cond=present, bits=lambda q: "arr_enc(%s, %s, %s, %s@, %s)" % (tr, packed, fixed, y, q), kind="array", tr=tr, packed=packed, fixed=fixed, y=y)
                info = dict(valid=["arr_valid(%s, %s, %s@)" % (tr, "true" if f["array"][0] == "len" else "false", y)], shape=sh, canon="mkvec(%s@.map_values((%s).canon()))" % (y, tr))
            else:
                info = self.leaf(f["type"], y, d)
                p = dict(cond=present, bits=info["bits"], kind="bool" if "bool" in info else "bits", x=info.get("bool"))
            ps.append(p)
            if f["optional"]:
                info = dict(info, canon="(if %s is Some { Some(%s) } else { None })" % (x, info["canon"]))
            fs.append(dict(f=f, x=x, end=len(ps), present=present, cond=cond, cd=cd, lemma=info.get("lemma", ""), **{k: info[k] for k in ("valid", "shape", "canon")}))
        if d["kind"] == "struct":
            for f in d["fields"]:
                c = self.ev(f["cond"], d) if f["cond"] else None
                field(f, c and c.s, c.d if c else [])
        elif d["kind"] == "union":
            ps.append(dict(cond=None, bits=lambda q: "vbits(Var::Size, %s_tag(v.union_selector))" % n, kind="bits", x=None))
            for f in d["fields"]:
                field(f, "(v.union_selector == %sSelector::%s)" % (n, zs.pascal(f["name"])), [])
        else:
            st = self.selector_type(d)
            sel = self.ev(d["sel"], d)
            seen = []
            for c in d["cases"]:
                k = "(%s)" % " || ".join(self.match(sel, self.ev(e, d, "v", st)) for e in c["conds"])
                seen.append(k)
                if c["field"]:
                    field(c["field"], k, sel.d)
            self.some = None
            if d["default"]:
                if d["default"]["field"]:
                    field(d["default"]["field"], "!(%s)" % " || ".join(seen), sel.d)
            else:
                self.some = "(%s)" % " || ".join(seen)
        return ps, fs

    def match(self, sel, c):
        if sel.k == "b":
            return sel.s if c.s == "true" else "!(%s)" % sel.s
        return "%s == %s" % (sel.s, c.s)

    def packed(self, f, d):
        return "true" if f["packed"] and (f["type"]["name"] not in TRAIT or f["type"]["name"] in VAR) else "false"

    # ------------------------------------------------------------ output
    def text(self, pkg):
        """the overlay of a package"""
        self.out = []
        o = self.out.append
        short = pkg.split(".")[-1]
        self.short = short
        o("//@ text\npub mod g_%s {\nuse super::*;\nbroadcast use zs_lemmas;" % short)
        files = {}
        done = []
        for n, p in self.uses:
            if p != pkg or n in SKIP:
                continue
            self.pkg = pkg
            path = self.path(n, p)
            self.cur = path.split("::")[-1]
            f = "/".join(path.split("::")[1:-1]) + ".rs"
            o("//@ text\npub mod t_%s {\nuse super::*;\nbroadcast use zs_lemmas;" % self.cur.lower())
            o("//@ source %s pkg=%s" % (os.path.join(self.root, f), short))
            o("//@ text")
            d = self.m.types[n]
            getattr(self, "emit_" + ("enum" if d["kind"] in ("enum", "bitmask") else "type"))(self.cur, d)
            o("//@ text\n}\npub use t_%s::*;" % self.cur.lower())
            done.append(self.cur)
        self.emit_consts(pkg)
        o("//@ text\n}")
        return "\n".join(self.out) + "\n"

    def emit_consts(self, pkg):
        """the subtypes and the integer constants of a package; the values of the constants are those of the schema"""
        d = os.path.join(self.root, *pkg.split("."))
        for f in sorted(os.listdir(d)):
            if not f.endswith(".rs") or f == "mod.rs":
                continue
            t = open(os.path.join(d, f)).read()
            m = re.search(r"^pub const (\w+): [ui](?:8|16|32|64) = ((?!.*--)[-\w+*():\s]+);", t, re.M)
            if re.search(r"^pub type ", t, re.M) or m:
                self.out.append("//@ source %s pkg=%s\n//@ text" % (os.path.join(d, f), self.short))
            if m and m[1] in self.m.consts:
                self.out.append("pub proof fn c25_const_%s()\n    ensures g_%s::%s == %d,\n{ }" % (m[1], self.short, m[1], self.m.ev(self.m.consts[m[1]]["expr"])))

    def impl(self, n, packs=True):
        o = self.out.append
        S = "g_%s::%s" % (self.short, n)
        key = "%s.%s" % (self.short, n)
        o("//@ impl ZserioPackableObject:%s" % key)
        o("    open spec fn o_enc() -> spec_fn(int, Self) -> Bits { |p: int, v: Self| %s_enc(p, v) }" % n)
        for k in ("valid", "shape"):
            o("    open spec fn o_%s() -> spec_fn(Self) -> bool { |v: Self| %s_%s(v) }" % (k, n, k))
        o("    open spec fn o_canon() -> spec_fn(Self) -> Self { |v: Self| %s_canon(v) }" % n)
        o("    open spec fn o_blank() -> spec_fn(Self, Self) -> bool { |b: Self, v: Self| %s_blank(b, v) }" % n)
        o("    open spec fn o_psmall() -> spec_fn(Seq<Self>) -> bool { |s: Seq<Self>| %s_psmall(s) }" % n)
        o("    open spec fn o_preadable() -> spec_fn(PackingContextNode) -> bool { |c: PackingContextNode| %s_preadable(c) }" % n)
        for k in ("psz", "pwr", "prd"):
            o("    open spec fn o_%s() -> spec_fn(PackingContextNode, Seq<Self>, int) -> bool { |c: PackingContextNode, s: Seq<Self>, k: int| %s_%s(c, s, k) }" % (k, n, k))
        o("    open spec fn o_penc() -> spec_fn(Seq<Self>, int, int) -> Bits { |s: Seq<Self>, k: int, p: int| %s_penc(s, k, p) }" % n)
        for f in ("zserio_read_packed", "zserio_write_packed", "zserio_bitsize_packed", "zserio_create_packing_context", "zserio_init_packing_context"):
            o("//@ external %s::%s" % (key, f))
        return key

    def packed_specs(self, n):
        o = self.out.append
        o("pub uninterp spec fn %s_psmall(s: Seq<%s>) -> bool;\npub uninterp spec fn %s_preadable(c: PackingContextNode) -> bool;" % (n, n, n))
        for k in ("psz", "pwr", "prd"):
            o("pub uninterp spec fn %s_%s(c: PackingContextNode, s: Seq<%s>, k: int) -> bool;" % (n, k, n))
        o("pub uninterp spec fn %s_penc(s: Seq<%s>, k: int, p: int) -> Bits;" % (n, n))

    def emit_enum(self, n, d):
        o = self.out.append
        t = d["type"]
        r = RUST[t["name"]]
        o("pub uninterp spec fn %s_dflt() -> %s;" % (n, n))
        if d["kind"] == "enum":
            o("pub open spec fn %s_val(v: %s) -> int { match v { %s } }" % (n, n, ", ".join("%s::%s => (%d) as int" % (n, zs.pascal(i), w) for i, w in d["values"])))
            lf = self.leaf(t, "(%s_val(v) as %s)" % (n, r), dict(params=[], fields=[], kind="struct"))
        else:
            lf = self.leaf(t, "v.bits", dict(params=[], fields=[], kind="struct"))
        o("pub open spec fn %s_enc(p: int, v: %s) -> Bits { %s }" % (n, n, lf["bits"]("p")))
        o("pub open spec fn %s_valid(v: %s) -> bool { %s }" % (n, n, conj(lf["valid"])))
        o("pub open spec fn %s_shape(v: %s) -> bool { true }\npub open spec fn %s_canon(v: %s) -> %s { v }\npub open spec fn %s_blank(b: %s, v: %s) -> bool { true }" % ((n,) * 8))
        if d["kind"] == "enum":
            o("pub proof fn c26_values_%s()\n    ensures %s\n{ pow2_vals(); }" % (n, "".join("\n        %s::%s.val() == %d," % (n, zs.pascal(i), w) for i, w in d["values"])))
            o("pub proof fn c20_valid_%s(v: %s)\n    ensures %s_valid(v),\n{ pow2_vals(); reveal_with_fuel(pow2, 66); }" % (n, n, n))
        else:
            o("pub proof fn c26_values_%s()\n    ensures %s\n{ }" % (n, "".join("\n        %s::%s.bits == %d," % (n, zs.pascal(i), w) for i, w in d["values"])))
        self.packed_specs(n)
        key = self.impl(n)
        if d["kind"] == "enum":
            o("//@ fn %s::try_from\n    ensures\n        forall|e: %s| #![trigger %s_val(e)] v == %s_val(e) ==> res == Result::<%s, ZserioError>::Ok(e),\n        res matches Ok(e) ==> %s_val(e) == v," % (key, n, n, n, n, n))
        else:
            o("//@ external %s::default\n    ensures res == %s_dflt()," % (key, n))

    def emit_type(self, n, d):
        o = self.out.append
        ps, fs = self.pieces(n, d)
        if all(f["array"] is None and not f["optional"] and self.flat(f["type"]) for f in self.fields(d)):
            o("//@ eq %s.%s\n//@ text" % (self.short, n))
        o("pub uninterp spec fn %s_dflt() -> %s;" % (n, n))
        if d["kind"] == "union":
            o("pub uninterp spec fn %sSelector_dflt() -> %sSelector;" % (n, n))
            o("pub open spec fn %s_tag(s: %sSelector) -> int { match s { %s } }" % (n, n, ", ".join("%sSelector::%s => %d" % (n, zs.pascal(f["name"]), i) for i, f in enumerate(d["fields"]))))
        opts = [f for f in fs if f["f"]["optional"]]
        # --- encoding
        o("#[verifier::opaque] pub open spec fn %s_e0(p: int, v: %s) -> Bits { Seq::empty() }" % (n, n))
        for k, q in enumerate(ps):
            b = q["bits"]("(p + e.len())")
            o("#[verifier::opaque] pub open spec fn %s_e%d(p: int, v: %s) -> Bits { let e = %s_e%d(p, v); e + %s }" % (n, k + 1, n, n, k, b if q["cond"] is None else "(if %s { %s } else { Seq::empty() })" % (q["cond"], b)))
        N = len(ps)
        o("#[verifier::opaque] pub open spec fn %s_enc(p: int, v: %s) -> Bits { %s_e%d(p, v) }" % (n, n, n, N))
        va, sh = [], []
        for f in fs:
            g = lambda c: c if f["present"] is None else "(%s ==> %s)" % (f["present"], c)
            va += [g(conj(f["valid"]))] if f["valid"] else []
            if f["present"] is not None:
                va.append("(!(%s) ==> %s == %s_dflt().%s)" % (f["present"], f["x"], n, f["x"][2:]))
            if f["f"]["optional"]:
                va.append("(%s is None ==> %s == None::<_>)" % (f["x"], f["x"]))
            sh += f["cd"] + ([g(conj(f["shape"]))] if f["shape"] else [])
        if d["kind"] == "choice" and self.some:
            va.append(self.some)
        o("#[verifier::opaque] pub open spec fn %s_valid(v: %s) -> bool { %s }" % (n, n, conj(va, "\n    ")))
        o("#[verifier::opaque] pub open spec fn %s_shape(v: %s) -> bool { %s }" % (n, n, conj(sh, "\n    ")))
        ca = ["%s: v.%s" % (fname(p), fname(p)) for p, _ in d["params"]] + (["union_selector: v.union_selector"] if d["kind"] == "union" else [])
        for f in fs:
            c = f["canon"]
            if f["present"] is not None and not f["f"]["optional"] and c != f["x"]:
                c = "if %s { %s } else { %s }" % (f["present"], c, f["x"])
            if f["cond"] is not None and f["f"]["optional"]:
                c = "if %s { %s } else { %s }" % (f["cond"], c, f["x"])
            f["cn"] = c
            ca.append("%s: %s" % (f["x"][2:], c))
        o("#[verifier::opaque] pub open spec fn %s_canon(v: %s) -> %s { %s { %s } }" % (n, n, n, n, ", ".join(ca)))
        if d["kind"] == "struct" and all(f["array"] is None and not f["optional"] and self.flat(f["type"]) for f in d["fields"]):
            o("pub proof fn %s_flat(v: %s)\n    ensures %s_canon(v) == v,\n{ reveal(%s_canon); }" % (n, n, n, n))
        bl = ["b.%s == v.%s" % (fname(p), fname(p)) for p, _ in d["params"]] + ["b.%s == %s_dflt().%s" % (f["x"][2:], n, f["x"][2:]) for f in fs]
        o("pub open spec fn %s_blank(b: %s, v: %s) -> bool { %s }" % (n, n, n, conj(bl)))
        self.packed_specs(n)
        # --- lemmas, one per piece
        w = lambda k: "%s_e%d(w0.len() as int, v)" % (n, k)
        c = lambda k: "%s_e%d(p, v)" % (n, k)
        for k, q in enumerate(ps):
            rv = "reveal(%s_e%d);" % (n, k + 1)
            bits = q["bits"]("(p + %s.len())" % c(k))
            if q["cond"] is None:
                l = ["%s.len() == %s.len() + %s.len()" % (c(k + 1), c(k), bits)]
            else:
                l = ["(%s) ==> %s.len() == %s.len() + %s.len()" % (q["cond"], c(k + 1), c(k), bits), "!(%s) ==> %s == %s" % (q["cond"], c(k + 1), c(k))]
            o("pub proof fn %s_len%d(p: int, v: %s)\n    ensures %s.len() <= %s.len(), %s,\n{ %s%s }" % (n, k, n, c(k), c(k + 1), ", ".join(l), rv,
              "" if q["cond"] is None else " if !(%s) { assert(%s =~= %s); }" % (q["cond"], c(k + 1), c(k))))
            eq = "(w0 + %s) + %s == w0 + %s" % (w(k), q["bits"]("((w0 + %s).len() as int)" % w(k)), w(k + 1))
            l = [eq] if q["cond"] is None else ["(%s ==> %s)" % (q["cond"], eq), "(!(%s) ==> w0 + %s == w0 + %s)" % (q["cond"], w(k), w(k + 1))]
            pf = "assert((w0 + %s).len() == w0.len() + %s.len()); assert(%s);" % (w(k), w(k), eq.replace("==", "=~="))
            if q["cond"] is not None:
                pf = "if %s { %s } else { assert(w0 + %s =~= w0 + %s); }" % (q["cond"], pf, w(k), w(k + 1))
            o("pub proof fn %s_step%d(w0: Bits, v: %s)\n    ensures %s,\n{ %s %s }" % (n, k, n, ", ".join(l), rv, pf))
        rev = "reveal(%s_enc); reveal(%s_e0);" % (n, n)
        call = lambda f, a: " ".join("%s_%s%d(%s);" % (n, f, k, a) for k in range(N))
        o("pub proof fn %s_lens(p: int, v: %s)\n    ensures %s.len() == 0, %s_enc(p, v) == %s,\n        %s,\n{ %s %s }" % (
            n, n, c(0), n, c(N), ", ".join(["%s.len() <= %s.len()" % (c(k), c(k + 1)) for k in range(N)] + ["true"]), rev, call("len", "p, v")))
        o("pub proof fn %s_steps(w0: Bits, v: %s)\n    ensures\n        w0 + %s == w0,\n        %s_enc(w0.len() as int, v) == %s,\n{ %s assert(w0 + %s =~= w0); }" % (
            n, n, w(0), n, w(N), rev, w(0)))
        sees, flat, flatp = [], [], []
        firsts, j = [], 0
        for f in fs:
            firsts += [j] * (f["end"] - j)
            j = f["end"]
        for k, q in enumerate(ps):
            a, b = "%s_e%d(r0.pos(), v)" % (n, k), "%s_e%d(r0.pos(), v)" % (n, k + 1)
            pos = "(r0.pos() + %s.len())" % a
            bits = q["bits"](pos)
            r = "(forall|r: &BitReader| #![trigger r.wf()] r.wf() && r.all() == r0.all() && r.pos() == %s ==> r.sees(%s))" % (pos, q["bits"]("r.pos()"))
            pr = "assert forall|r: &BitReader| #![trigger r.wf()] r.wf() && r.all() == r0.all() && r.pos() == %s implies r.sees(%s) by { assert(r.at(r0, %s.len() as int)); assert(r.sees(%s)); }" % (pos, q["bits"]("r.pos()"), a, bits)
            if q["kind"] == "bool":
                r = "r0.all()[%s] == (%s)" % (pos, q["x"])
                pr = "sees_bit(r0, %s, %s);" % (a, q["x"])
            elif q["kind"] == "pad":
                r, pr = "true", ""
            elif q["kind"] == "array":
                h = "array_header(%s, %s@.len() as int)" % (q["fixed"], q["y"])
                bd = lambda at: "arr_body(%s, %s, %s@, %s)" % (q["tr"], q["packed"], q["y"], at)
                hp = "(%s + %s.len())" % (pos, h)
                r = "(forall|r: &BitReader| #![trigger r.wf()] r.wf() && r.all() == r0.all() && r.pos() == %s ==> r.sees(%s)) && (forall|r: &BitReader| #![trigger r.wf()] r.wf() && r.all() == r0.all() && r.pos() == %s ==> r.sees(%s)) && %s.len() == %s.len() + %s.len()" % (
                    pos, h, hp, bd("r.pos()"), bits, h, bd(hp))
                pr = """arr_split(%s, %s, %s, %s@, %s);
        assert forall|r: &BitReader| #![trigger r.wf()] r.wf() && r.all() == r0.all() && r.pos() == %s implies r.sees(%s) by { assert(r.at(r0, %s.len() as int)); assert(r.sees(%s)); sees_split(r, %s, %s); }
        assert forall|r: &BitReader| #![trigger r.wf()] r.wf() && r.all() == r0.all() && r.pos() == %s implies r.sees(%s) by { sees_tail(r0, r, %s, %s, %s); }""" % (
                    q["tr"], q["packed"], q["fixed"], q["y"], pos, pos, h, a, bits, h, bd(hp), hp, bd("r.pos()"), a, h, bd(hp))
            pr = "sees_split(r0, %s, %s); %s" % (a, bits, pr)
            sees.append(r if q["cond"] is None else "(%s ==> %s)" % (q["cond"], r))
            # the same, from the reader at the statement of the field
            first = firsts[k]
            offs = []
            for j in range(first, k):
                x = ps[j]
                offs.append("pad(%s, %d)" % (" + ".join(["reader.pos()"] + offs), x["align"]) if x["kind"] == "pad" else "1int")
            K = "%s_e%d(r0.pos(), v).len() as int" % (n, first)
            at = " + ".join(["reader.pos()"] + offs)
            def later(offs, bits, dep):
                if not offs:
                    return "reader.sees(%s)" % bits("reader.pos()"), ""
                nm = "n%s%d" % ("f" if dep else "x", len(offs))
                x = "|q: int| %s" % bits("q") if dep else bits("0int")
                return "%s(reader, %s, %s)" % (nm, ", ".join(offs), x), "%s_by(&r0, %s, reader, %s, %s);" % (nm, K, ", ".join(offs), x)
            if q["kind"] == "pad":
                fl, pf = "true", ""
            elif q["kind"] == "bool":
                fl, pf = ("reader.all()[reader.pos()] == (%s)" % q["x"], "") if not offs else ("nb1(reader, %s, %s)" % (offs[0], q["x"]), "nb1_by(&r0, %s, reader, %s, %s);" % (K, offs[0], q["x"]))
                if len(offs) > 1:
                    fl, pf = r, ""
            elif q["kind"] == "array":
                f1, p1 = later(offs, lambda at: h, False)
                hl = "0int" if q["fixed"] != "None::<usize>" else "%s.len() as int" % h.replace("array_header(None::<usize>, ", "vbits(Var::Size, ")
                f2, p2 = later(offs + [hl], bd, True)
                fl, pf = "%s && %s" % (f1, f2), p1 + " " + p2
            else:
                fl, pf = later(offs, q["bits"], q["bits"]("@") != q["bits"]("#"))
            if pf and q["cond"] is not None:
                pf = "if %s { %s }" % (q["cond"], pf)
            flat.append(fl if q["cond"] is None else "(%s ==> %s)" % (q["cond"], fl))
            flatp.append(pf)
            o("pub proof fn %s_seen%d(r0: &BitReader, v: %s)\n    requires r0.wf(), r0.sees(%s),\n    ensures r0.sees(%s),\n        r0.pos() + %s.len() <= r0.all().len(),\n        %s,\n{ reveal(%s_e%d);\n    if %s {\n        %s\n    } else { assert(%s =~= %s); } }" % (
                n, k, n, b, a, b, sees[-1], n, k + 1, q["cond"] or "true", pr, b, a))
        P = "%s_ok(&r0, s0, v)" % n
        o("#[verifier::opaque] pub open spec fn %s_ok(r0: &BitReader, s0: %s, v: %s) -> bool { r0.wf() && %s_valid(v) && %s_shape(v) && %s_blank(s0, v) && r0.sees(%s_enc(r0.pos(), v)) }" % ((n,) * 7))
        o("pub proof fn %s_seen(r0: &BitReader, v: %s)\n    requires r0.wf(), r0.sees(%s_enc(r0.pos(), v)),\n    ensures %s,\n{ %s %s }" % (
            n, n, n, ", ".join(["r0.sees(%s_e%d(r0.pos(), v))" % (n, k) for k in range(N + 1)] + ["true"]), rev, " ".join("%s_seen%d(r0, v);" % (n, k) for k in reversed(range(N)))))
        # what the next statements of the code rely on
        groups, j = [], 0
        for f in fs:
            groups.append((f, range(j, f["end"])))
            j = f["end"]
        if d["kind"] == "struct":
            blocks = [[g] for g in groups]
        else:
            blocks = [groups]
        tagged = d["kind"] == "union"
        if tagged:
            groups[0] = (groups[0][0], range(1, groups[0][1].stop))
            blocks = [groups]
        def facts(block):
            """the conclusion, and what proves it"""
            if not block:
                return [], []
            cs, pf = [], []
            if block == "tag":
                return [flat[0], "LEN0", "r0.pos() + %s_e1(r0.pos(), v).len() <= r0.all().len()" % n], ["%s_seen0(&r0, v); %s_len0(r0.pos(), v); %s" % (n, n, flatp[0])]
            if d["kind"] == "choice" and self.some:
                cs.append(self.some)
            for f, ks in block:
                for k in ks:
                    cs.append(flat[k] if d["kind"] == "struct" else sees[k])
                    pf.append("%s_seen%d(&r0, v); %s_len%d(r0.pos(), v); %s" % (n, k, n, k, flatp[k] if d["kind"] == "struct" else ""))
                    cs.append("LEN%d" % k)
                    cs.append("r0.pos() + %s_e%d(r0.pos(), v).len() <= r0.all().len()" % (n, k + 1))
                pf.append(f["lemma"])
                g = lambda x: x if f["present"] is None else "(%s ==> %s)" % (f["present"], x)
                cs += f["cd"] + [g(x) for x in f["valid"] + f["shape"]]
                if f["present"] is not None:
                    cs.append("(!(%s) ==> %s == %s_dflt().%s)" % (f["present"], f["x"], n, f["x"][2:]))
                cs.append("self.%s == %s_dflt().%s" % (f["x"][2:], n, f["x"][2:]))
            return cs, pf
        lens = {}
        for k, q in enumerate(ps):
            bits = q["bits"]("(r0.pos() + %s_e%d(r0.pos(), v).len())" % (n, k))
            l = "%s_e%d(r0.pos(), v).len() == %s_e%d(r0.pos(), v).len() + %s.len()" % (n, k + 1, n, k, bits)
            lens["LEN%d" % k] = l if q["cond"] is None else "((%s ==> %s) && (!(%s) ==> %s_e%d(r0.pos(), v).len() == %s_e%d(r0.pos(), v).len()))" % (q["cond"], l, q["cond"], n, k + 1, n, k)
        def check(done, block, end):
            """assertion at a point of zserio_read: the fields of `done` are read, those of `block` come next"""
            cs = ["reader.at(&r0, %s_e%d(r0.pos(), v).len() as int)" % (n, end), "reader.wf()"]
            cs += ["self.%s == %s" % (f["x"][2:], f["cn"]) for f, _ in done]
            if tagged and block != "tag":
                cs += ["self.union_selector == v.union_selector"]
            c2, pf = facts(block)
            cs += [lens.get(x, x) for x in c2]
            pf += [f["lemma"] for f, _ in done]
            if not block:
                cs += ["%s_e%d(r0.pos(), v) == %s_enc(r0.pos(), v)" % (n, N, n)]
                if done or not fs:
                    cs += ["*self == %s_canon(v)" % n]
            return """assert forall|v: %s| #![trigger %s] %s implies %s by { reveal(%s_ok); reveal(%s_valid); reveal(%s_shape); reveal(%s_canon); %s_lens(r0.pos(), v); %s_seen(&r0, v); %s }""" % (
                n, P, P, "\n        && ".join(cs), n, n, n, n, n, n, " ".join(pf))
        key = self.impl(n)
        if n in ONLY_FUNCS:
            for f in ("zserio_read", "zserio_write", "zserio_bitsize"):
                o("//@ external %s::%s" % (key, f))
            for g in d["funcs"]:
                self.emit_func(n, d, g, key)
            return
        mulb = " broadcast use mul_bound;" if any(" * " in re.sub(r"\* pow2", "", x) for x in sh + va + [f["cond"] or "" for f in fs]) else ""
        last = blocks[-1:] if d["kind"] == "struct" else []
        o("""//@ at %s::zserio_read start
    hide(BitReader::sees);%s let ghost r0 = *reader; let ghost s0 = *self;
    proof { pow2_vals();
        assert forall|v: %s| #![trigger (%s::o_enc())(r0.pos(), v)] %s_valid(v) && %s_shape(v) && %s_blank(s0, v) && r0.sees(%s_enc(r0.pos(), v)) implies %s by { reveal(%s_ok); }
        %s }""" % (key, mulb, n, n, n, n, n, n, P, n, check([], "tag" if tagged else blocks[0] if fs else [], 0)))
        st2 = lambda b: " ".join("%s_step%d(w0, *self);" % (n, k) for f, ks in b for k in ks)
        le2 = lambda b: " ".join("%s_len%d(bit_position as int, *self);" % (n, k) for f, ks in b for k in ks)
        le3 = lambda b: " ".join("%s_len%d(w0.len() as int, *self);" % (n, k) for f, ks in b for k in ks)
        o("""//@ at %s::zserio_write start
   %s let ghost w0 = writer@;
    proof { pow2_vals(); reveal(%s_valid); reveal(%s_shape); %s_steps(w0, *self); %s_lens(w0.len() as int, *self); %s %s }
//@ at %s::zserio_bitsize start
   %s proof { pow2_vals(); reveal(%s_valid); reveal(%s_shape); %s_lens(bit_position as int, *self); %s }""" % (
            key, mulb, n, n, n, n, "%s_step0(w0, *self);" % n * tagged + st2(blocks[0] if fs else []), "%s_len0(w0.len() as int, *self);" % n * tagged + le3(blocks[0] if fs else []), key, mulb, n, n, n, "%s_len0(bit_position as int, *self);" % n * tagged + " ".join(map(le2, blocks))))
        for i, bl in enumerate(blocks if d["kind"] == "struct" else []):
            f, ks = bl[0]
            x, k = f["x"][2:], f["end"]
            nx = blocks[i + 1] if i + 1 < len(blocks) else []
            o("""//@ at %s::zserio_read field %s
    proof { %s }
//@ at %s::zserio_write field %s
    proof { assert(writer@ == w0 + %s_e%d(w0.len() as int, *self)); %s %s }""" % (
                key, x, check(bl if nx else groups, nx, k), key, x, n, k, st2(nx), le3(nx)))
        if d["kind"] == "choice" and fs:
            o("//@ at %s::zserio_read field %s\n    proof { %s }" % (key, fs[-1]["x"][2:], check(groups, [], N)))
        if d["kind"] == "union":
            o("//@ at %s::zserio_read field union_selector\n    proof { %s }\n//@ at %s::zserio_read field %s\n    proof { %s }" % (
                key, check([], groups, 1), key, fs[-1]["x"][2:], check(groups, [], N)))
        if d["kind"] == "union":
            o("//@ fn %s.%sSelector::from_u32\n    ensures\n        forall|s: %sSelector| #![trigger %s_tag(s)] value == %s_tag(s) ==> res == Result::<%sSelector, ZserioError>::Ok(s),\n        res matches Ok(s) ==> %s_tag(s) == value," % (self.short, n, n, n, n, n, n))
        for g in d["funcs"]:
            self.emit_func(n, d, g, key)

    def flat(self, t):
        """integers only, all the way down"""
        if self.kind(t):
            d = self.m.types[t["name"]]
            return d["kind"] in ("enum", "bitmask") or d["kind"] == "struct" and all(f["array"] is None and not f["optional"] and self.flat(f["type"]) for f in d["fields"])
        return t["name"] not in ("string", "bytes", "extern", "float16", "float32", "float64")

    def emit_func(self, n, d, g, key):
        o = self.out.append
        f, t = "%s_%s" % (n, fname(g["name"])), g["type"]
        o("//@ text")
        x = self.ev(g["expr"], d)
        r = RUST.get(t["name"])
        if x.k not in "ib" or r is None or t["name"] in ("string", "bytes", "extern", "float16", "float32", "float64") or (x.k == "b") != (t["name"] == "bool"):
            o("pub uninterp spec fn %s_d(v: %s) -> bool;\npub uninterp spec fn %s_v(v: %s) -> %s;\n//@ external %s::%s" % (f, n, f, n, "bool" if t["name"] == "bool" else "int", key, fname(g["name"])))
            return
        ds = list(x.d)
        if x.k == "i":
            ds.append("%s::MIN <= %s <= %s::MAX" % (r, x.s, r))
        o("pub open spec fn %s_v(v: %s) -> %s { %s }" % (f, n, "bool" if x.k == "b" else "int", x.s))
        o("pub open spec fn %s_d(v: %s) -> bool { %s }" % (f, n, conj(ds)))
        o("//@ fn %s::%s\n    requires %s_d(*self),\n    ensures res == %s_v(*self),\n//@ at %s::%s start\n    broadcast use mul_bound; proof { pow2_vals();%s }" % (key, fname(g["name"]), f, f, key, fname(g["name"]), " reveal_with_fuel(pow2, 33);" if "pow2" in x.s else ""))


def conj(l, sep=" "):
    l = [x for x in l if x and x != "true"]
    return "true" if not l else ("%s&& " % sep).join(l)


if __name__ == "__main__":
    out = sys.argv[1]
    g = VG(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../corpus"), out)
    g.root = out
    for p in sys.argv[2:]:
        print(g.text(p))
