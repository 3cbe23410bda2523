"""Emits ast.rs and glue.rs of the generator harness from the schemas (never from the generated code,
of which only the names of files and types are looked up)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import zs

KEYWORDS = {"type", "struct", "self", "match", "fn", "ref", "mod", "use", "move", "loop", "where", "impl", "trait", "enum", "const"}


def fname(n):
    n = zs.snake(n)
    return "z_" + n if n in KEYWORDS else n


class Missing(Exception):
    pass


class Glue:
    def __init__(self, corpus, out):
        self.m = zs.Model(corpus)
        self.ids = {n: i for i, n in enumerate(self.m.types)}
        self.names = {}          # (package, lower name) -> (path, rust name)
        for d, _, fs in os.walk(out):
            for f in fs:
                if not f.endswith(".rs") or f in ("mod.rs", "lib.rs"):
                    continue
                pkg = os.path.relpath(d, out).replace("/", ".")
                for x in re.findall(r"^pub (?:struct|enum) (\w+)", open(os.path.join(d, f)).read(), re.M):
                    self.names[(pkg, x.lower())] = "crate::%s::%s::%s" % (pkg.replace(".", "::"), f[:-3], x)
        for d in self.m.raw:
            if d["kind"] == "instantiate":
                self.m.types[d["name"]]["package"] = d["package"]
        self.uses = []
        for n, d in self.m.types.items():
            if "template" not in d or n in self.m.instnames.values():
                self.walk(n, d["package"])

    def walk(self, n, pkg):
        if (n, pkg) in self.uses:
            return
        self.uses.append((n, pkg))
        for f in self.fields(self.m.types[n]):
            t = f["type"]["name"]
            if t in self.m.types:
                d = self.m.types[t]
                own = "template" not in d or t in self.m.instnames.values()
                self.walk(t, d["package"] if own else pkg)

    def fields(self, d):
        if d["kind"] == "choice":
            return [c["field"] for c in d["cases"] if c["field"]] + ([d["default"]["field"]] if d["default"] and d["default"]["field"] else [])
        return d.get("fields", [])

    def discriminated(self, n, seen):
        """an enum or a union somewhere in the type"""
        if n not in self.m.types or n in seen:
            return False
        seen.add(n)
        d = self.m.types[n]
        return d["kind"] in ("enum", "union") or any(self.discriminated(f["type"]["name"], seen) for f in self.fields(d))

    def path(self, n, pkg):
        k = (pkg, n.lower())
        if k not in self.names:
            raise Missing("no type %s in package %s" % (n, pkg))
        return self.names[k]

    # ------------------------------------------------------------ ast.rs
    def kind(self, t):
        n = t["name"]
        if n in self.m.types:
            k = {"enum": "Enum", "bitmask": "Mask"}.get(self.m.types[n]["kind"], "Comp")
            return "K::%s(%d)" % (k, self.ids[n])
        fix = {"bool": "Bool", "string": "Str", "bytes": "Bytes", "extern": "Ext", "float16": "F16", "float32": "F32", "float64": "F64", "bit": "BitU", "int": "BitS",
               "varsize": "Varsize", "varint": "VarS(9)", "varuint": "VarU(9)"}
        if n in fix:
            return "K::" + fix[n]
        m = re.match(r"(varuint|varint|uint|int)(\d+)$", n)
        b = int(m.group(2))
        return {"varuint": "K::VarU(%d)" % (b // 8), "varint": "K::VarS(%d)" % (b // 8), "uint": "K::U(%d)" % b, "int": "K::S(%d)" % b}[m.group(1)]

    def ty(self, t, d):
        w = "Some(%s)" % self.e(t["width"], d) if t["width"] is not None else "None"
        return "Ty { k: %s, bits: %d, width: %s, args: vec![%s] }" % (self.kind(t), t["bits"], w, ", ".join(self.e(a, d) for a in t["args"]))

    def e(self, e, d, case=None):
        k = e[0]
        r = lambda x: "Box::new(%s)" % self.e(x, d, case)
        if k == "int": return "E::I(%d)" % e[1]
        if k == "bool": return "E::B(%s)" % str(e[1]).lower()
        if k == "float": return "E::F(%r)" % float(e[1])
        if k == "str": return "E::Str(%s)" % json_str(e[1])
        if k == "index": return "E::Index"
        if k == "id":
            n = e[1]
            if case in self.m.types:
                v = dict(self.m.types[case].get("values", []))
                if n in v:
                    return "E::Item(%d)" % v[n]
            for i, (p, _) in enumerate(d["params"]):
                if p == n:
                    return "E::Param(%d)" % i
            for i, f in enumerate(self.fields(d)):
                if f["name"] == n:
                    return "E::Field(%d)" % i
            c = self.m.consts[n]
            v = self.m.ev(c["expr"])
            if isinstance(v, bool): return "E::ConstB(%s)" % str(v).lower()
            if isinstance(v, str): return "E::Str(%s)" % json_str(v)
            return "E::Const(%d, nt(&%s).unwrap())" % (v, self.ty(c["type"], d))
        if k == "dot":
            if e[1][0] == "id" and e[1][1] in self.m.types and self.m.types[e[1][1]]["kind"] in ("enum", "bitmask"):
                return "E::Item(%d)" % dict(self.m.types[e[1][1]]["values"])[e[2]]
            return "E::Dot(%s, %s)" % (r(e[1]), json_str(e[2]))
        if k == "call":
            return "E::Func(%d)" % [f["name"] for f in d["funcs"]].index(e[1][1])
        if k == "idx": return "E::Idx(%s, %s)" % (r(e[1]), r(e[2]))
        if k == "un": return "E::Un('%s', %s)" % (e[1], r(e[2]))
        if k == "bin": return "E::Bin(\"%s\", %s, %s)" % (e[1], r(e[2]), r(e[3]))
        if k == "tern": return "E::Tern(%s, %s, %s)" % (r(e[1]), r(e[2]), r(e[3]))
        if k == "isset": return "E::IsSet(%s, %s)" % (r(e[1]), r(e[2]))
        return {"lengthof": "E::Len(%s)", "valueof": "E::ValueOf(%s)", "numbits": "E::NumBits(%s)"}[k] % r(e[1])

    def selector_type(self, d):
        s = d["sel"]
        if s[0] == "id":
            for p, t in d["params"]:
                if p == s[1]:
                    return t["name"]
        return None

    def ast(self):
        o = ["use crate::engine::*;\npub fn decls() -> Vec<Decl> {\n    vec!["]
        for n, d in self.m.types.items():
            if d["kind"] in ("enum", "bitmask"):
                o.append("Decl { name: \"%s\", kind: DK::%s, params: vec![], fields: vec![], cases: vec![], default: None, sel: None, funcs: vec![], base: Some(%s), values: vec![%s] }," % (
                    n, "Enum" if d["kind"] == "enum" else "Mask", self.ty(d["type"], dict(params=[], fields=[], kind="struct")), ", ".join("(\"%s\", %d)" % x for x in d["values"])))
                continue
            fs = []
            for f in self.fields(d):
                a = "Arr::No" if f["array"] is None else "Arr::Auto" if f["array"][0] == "auto" else "Arr::Len(%s)" % self.e(f["array"][1], d)
                fs.append("Field { name: \"%s\", ty: %s, align: %d, offset: %s, indexed: %s, is_offset: %s, optional: %s, cond: %s, packed: %s, array: %s }" % (
                    f["name"], self.ty(f["type"], d), f["align"], *offset(f, d), str(f["optional"]).lower(), "Some(%s)" % self.e(f["cond"], d) if f["cond"] else "None", str(f["packed"]).lower(), a))
            cases, default, sel, k = [], "None", "None", 0
            if d["kind"] == "choice":
                st = self.selector_type(d)
                for c in d["cases"]:
                    cases.append("(vec![%s], %s)" % (", ".join(self.e(x, d, st) for x in c["conds"]), "Some(%d)" % k if c["field"] else "None"))
                    k += 1 if c["field"] else 0
                if d["default"]:
                    default = "Some(Some(%d))" % k if d["default"]["field"] else "Some(None)"
                sel = "Some(%s)" % self.e(d["sel"], d)
            o.append("Decl { name: \"%s\", kind: DK::%s, params: vec![%s], fields: vec![%s], cases: vec![%s], default: %s, sel: %s, funcs: vec![%s], base: None, values: vec![] }," % (
                n, d["kind"].capitalize(), ", ".join("(\"%s\", %s)" % (p, self.ty(t, d)) for p, t in d["params"]), ",\n".join(fs), ", ".join(cases), default, sel,
                ", ".join("Func { name: \"%s\", ty: %s, e: %s }" % (f["name"], self.ty(f["type"], d), self.e(f["expr"], d)) for f in d["funcs"])))
        o.append("]\n}\n")
        return "\n".join(o)

    # ------------------------------------------------------------ glue.rs
    def conv(self, t, v):
        n = t["name"]
        if n in self.m.types:
            return "Item::item(%s.i())" % v if self.m.types[n]["kind"] in ("enum", "bitmask") else "Gen::from_obj(%s.o())" % v
        return {"bool": "%s.b()", "string": "%s.s()", "bytes": "blob(%s)", "extern": "ext(%s)", "float16": "%s.f() as f32", "float32": "%s.f() as f32", "float64": "%s.f()"}.get(n, "%s.i() as _") % v

    def fieldval(self, f, v):
        r = "%s.a().iter().map(|x| %s).collect()" % ("v", self.conv(f["type"], "x")) if f["array"] is not None else self.conv(f["type"], "v")
        d = "None" if f["optional"] else "Default::default()"
        r = "Some(%s)" % r if f["optional"] else r
        return "match &%s { Val::None => %s, v => %s }" % (v, d, r)

    def glue(self, groups):
        o = [GLUE]
        al = []
        for n, pkg in self.uses:
            d, p = self.m.types[n], self.path(n, pkg)
            short = "%s_%s" % (pkg.split(".")[-1], n)
            if d["kind"] in ("enum", "bitmask"):
                if d["kind"] == "enum":
                    o.append("impl Item for %s { fn item(v: i128) -> Self { match v { %s _ => panic!(\"engine: item\") } } }" % (p, " ".join("%d => Self::%s," % (v, zs.pascal(i)) for i, v in d["values"])))
                    al.append(("c26_enum_" + n, "|| enumeration::<%s>(%d, &[%s], |v| %s::try_from(v).ok().map(|x| x as i64 as i128))" % (p, self.ids[n], ", ".join("%s::%s as i64 as i128" % (p, zs.pascal(i)) for i, _ in d["values"]), p)))
                else:
                    o.append("impl Item for %s { fn item(v: i128) -> Self { Self::from(v as %s) } }" % (p, zs.RUST[d["type"]["name"]]))
                    al.append(("c26_mask_" + n, "|| mask(%d, &[%s])" % (self.ids[n], ", ".join("%s::%s.bits() as i128" % (p, zs.pascal(i)) for i, _ in d["values"]))))
                continue
            o.append("impl Gen for %s {\n    const ID: usize = %d;" % (p, self.ids[n]))
            ps = "".join("%s: %s, " % (fname(q), self.conv(t, "p[%d]" % i)) for i, (q, t) in enumerate(d["params"]))
            o.append("    fn blank(p: &[Val]) -> Self { Self { %s..Default::default() } }" % ps)
            fs = "".join("%s: %s, " % (fname(f["name"]), self.fieldval(f, "o.fields[%d]" % i)) for i, f in enumerate(self.fields(d)))
            if d["kind"] == "union":
                fs += "union_selector: %sSelector::from_u32(o.sel as u32).unwrap(), " % p
            o.append("    fn from_obj(o: &Obj) -> Self { let p = &o.params; Self { %s%s } }" % (ps, fs))
            if d["funcs"]:
                o.append("    fn call(&self, i: usize) -> Val { match i { %s _ => panic!(\"engine: function\") } }" % " ".join("%d => self.%s().val()," % (i, fname(f["name"])) for i, f in enumerate(d["funcs"])))
            o.append("}")
            # the same type of several packages is generated several times
            for prop, fn in groups(self, n, pkg, d):
                al.append(("%s_%s" % (prop, short), "%s::<%s>" % (fn, p)))
        body = []
        for n, c in self.m.consts.items():
            v = self.m.ev(c["expr"])
            t = "&str" if c["type"]["name"] == "string" else zs.RUST[c["type"]["name"]]
            lit = str(v).lower() if isinstance(v, bool) else json_str(v) if isinstance(v, str) else "%r" % v
            body.append("    { let c: %s = crate::%s::%s::%s; assert!(c == %s, \"constant %s is {:?}\", c); }" % (t, c["package"].replace(".", "::"), zs.snake(n), n, lit, n))
        o.append("fn consts() { reachable(true);\n%s\n}" % "\n".join(body))
        al.append(("c26_consts", "consts"))
        o.append("pub const ALL: &[(&str, fn())] = &[\n%s\n];" % "\n".join('    ("%s", %s),' % x for x in al))
        return "\n".join(o) + "\n"


GLUE = """use crate::engine::*;
use crate::props::*;
use crate::shim::{any, reachable};
pub trait Item { fn item(v: i128) -> Self; }
pub trait ToVal { fn val(self) -> Val; }
macro_rules! tv { ($($t:ty),*) => { $(impl ToVal for $t { fn val(self) -> Val { Val::I(self as i128) } })* } }
tv!(u8, u16, u32, u64, i8, i16, i32, i64);
impl ToVal for bool { fn val(self) -> Val { Val::B(self) } }
impl ToVal for f32 { fn val(self) -> Val { Val::F(self as f64) } }
impl ToVal for f64 { fn val(self) -> Val { Val::F(self) } }
impl ToVal for String { fn val(self) -> Val { Val::S(self) } }
impl ToVal for &str { fn val(self) -> Val { Val::S(self.to_string()) } }
fn blob(v: &Val) -> zserio::ztype::BytesType {
    let Val::Blob(b) = v else { panic!("engine: bytes") };
    zserio::ztype::BytesType { byte_size: b.len() as _, data_blob: b.clone() }
}
fn ext(v: &Val) -> zserio::ztype::ExternType {
    let Val::Ext(n, b) = v else { panic!("engine: extern") };
    zserio::ztype::ExternType { bit_size: *n as _, data_blob: b.clone() }
}
"""


def base(e):
    return e[1] if e[0] == "id" else base(e[1])


def offset(f, d):
    """has an offset, one per element, holds offsets"""
    low = lambda b: str(b).lower()
    idx = lambda e: e is not None and e[0] == "idx"
    o = f["offset"]
    return low(o is not None and not idx(o)), low(idx(o)), low(any(g["offset"] is not None and base(g["offset"]) == f["name"] for g in d["fields"]))


def json_str(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


EXPR = {"Exprs", "ExprFields", "ExprUser"}
LAYOUT_EXPR = {"Exprs", "ExprFields", "ExprUser", "DynBits", "Conditional", "FixedArrays", "DynArrays", "Param", "ParamUser", "Block", "Blocks", "NumberChoice", "ColorChoice", "FlagChoice",
               "SignedChoice", "Funcs", "FuncChoice", "FuncUnion", "HeaderChoice", "SumChoice", "ValueChoice", "WideChoice", "ChoiceHolder", "MaskParam", "Deep", "Floats", "NestedLeaf", "ChoiceUser", "ColorUser", "ParamUnion", "UnionUser", "Holderuint32", "HolderInner", "Recursive", "TemplateUser"}


def groups(g, n, pkg, d):
    r = [("c20", "roundtrip"), ("c21", "bitsize"), ("c22_arb", "arbitrary"), ("c22_dmg", "damaged"), ("c23", "layout")]
    if g.discriminated(n, set()):
        r.append(("c22_undef", "undefined"))
    if n == "Recursive":
        r.append(("c22_deep", "deep"))
    if d["kind"] == "choice" and d["default"] is None and {c[1] for x in d["cases"] for c in x["conds"] if c[0] == "bool"} != {True, False}:
        r.append(("c22_unmatched", "unmatched"))
    if n in LAYOUT_EXPR:
        r.append(("c25_layout", "layout"))
    if d["funcs"]:
        r.append(("c25_fn", "functions"))
    if "Packed" in n or any(f["packed"] for f in d["fields"]):
        r.append(("c24", "packed"))
    return r
