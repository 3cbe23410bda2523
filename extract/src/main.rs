//! Mechanical extraction of Rust source into one Verus file.
//!
//!   extract OVERLAY OUT ROOT
//!
//! OVERLAY lists the source files and items, and holds the contracts, loop invariants and
//! proof hints (see /verif/verus/*.vspec).  The text of the functions comes from the source
//! files on every run; the rewrites applied to it are the ones in `rewrite` below, and each
//! use is counted and printed.
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
struct Overlay {
    /// text inserted verbatim: (after which source file, text); "" = before everything
    verbatim: Vec<(usize, String)>,
    sources: Vec<Source>,
    fns: BTreeMap<String, FnSpec>,
    impls: BTreeMap<String, String>,
    impl_heads: BTreeMap<String, String>,
    consts: Vec<(String, String)>,
    /// types whose derived `==` is used: it is taken to be equality
    eqs: BTreeSet<String>,
}
struct Source {
    file: String,
    only: Option<Vec<String>>,
    skip: Vec<String>,
    /// generated code: the package it belongs to
    pkg: Option<String>,
}
#[derive(Default, Clone)]
struct FnSpec {
    spec: String,
    loops: Vec<(usize, String, String)>,       // ordinal, kind, invariant text
    at: Vec<(String, String)>,                 // place, proof text
    external: bool,
    subst: Vec<(String, String)>,
    attrs: String,
}

fn parse_overlay(txt: &str) -> Overlay {
    let mut o = Overlay::default();
    enum Cur { None, Verb, Spec(String), Loop(String), At(String), Impl(String), Attr(String) }
    let mut cur = Cur::None;
    for line in txt.lines() {
        if let Some(d) = line.strip_prefix("//@ ") {
            let w: Vec<&str> = d.split_whitespace().collect();
            cur = match w[0] {
                "source" => {
                    let mut s = Source { file: w[1].into(), only: None, skip: vec![], pkg: None };
                    for x in &w[2..] {
                        if let Some(l) = x.strip_prefix("only=") {
                            s.only = Some(l.split(',').map(|x| x.to_string()).collect());
                        }
                        if let Some(l) = x.strip_prefix("skip=") {
                            s.skip = l.split(',').map(|x| x.to_string()).collect();
                        }
                        if let Some(l) = x.strip_prefix("pkg=") {
                            s.pkg = Some(l.into());
                        }
                    }
                    o.sources.push(s);
                    Cur::None
                }
                "text" => { o.verbatim.push((o.sources.len(), String::new())); Cur::Verb }
                "fn" => { o.fns.entry(w[1].into()).or_default(); Cur::Spec(w[1].into()) }
                "external" => { o.fns.entry(w[1].into()).or_default().external = true; Cur::Spec(w[1].into()) }
                "subst" => {
                    let (a, b) = line.splitn(4, ' ').nth(3).unwrap().split_once(" => ").unwrap();
                    o.fns.entry(w[1].into()).or_default().subst.push((a.into(), b.into()));
                    Cur::None
                }
                "attr" => { o.fns.entry(w[1].into()).or_default(); Cur::Attr(w[1].into()) }
                "loop" => {
                    o.fns.entry(w[1].into()).or_default().loops.push((w[2].parse().unwrap(), w[3].into(), String::new()));
                    Cur::Loop(w[1].into())
                }
                "at" => { o.fns.entry(w[1].into()).or_default().at.push((w[2..].join(" "), String::new())); Cur::At(w[1].into()) }
                "impl" => { let k = w[1..].join(" "); o.impls.entry(k.clone()).or_default(); Cur::Impl(k) }
                "implhead" => { o.impl_heads.insert(w[1].into(), w[2..].join(" ")); Cur::None }
                "eq" => { o.eqs.insert(w[1].into()); Cur::None }
                "const" => { o.consts.push((w[1].into(), w[2..].join(" "))); Cur::None }
                "end" => Cur::None,
                x => panic!("unknown directive {x}"),
            };
            continue;
        }
        let l = format!("{line}\n");
        match &cur {
            Cur::None => {}
            Cur::Verb => o.verbatim.last_mut().unwrap().1.push_str(&l),
            Cur::Spec(f) => o.fns.get_mut(f).unwrap().spec.push_str(&l),
            Cur::Attr(f) => o.fns.get_mut(f).unwrap().attrs.push_str(&l),
            Cur::Loop(f) => o.fns.get_mut(f).unwrap().loops.last_mut().unwrap().2.push_str(&l),
            Cur::At(f) => o.fns.get_mut(f).unwrap().at.last_mut().unwrap().1.push_str(&l),
            Cur::Impl(k) => o.impls.get_mut(k).unwrap().push_str(&l),
        }
    }
    o
}

impl Overlay {
    /// the contract of a function: its own, and what `*::name` says for all types
    fn of(&self, key: &str) -> Option<FnSpec> {
        let mut r = self.fns.get(key).cloned();
        if let Some((_, m)) = key.split_once("::") {
            if let Some(w) = self.fns.get(&format!("*::{m}")) {
                let r = r.get_or_insert_with(FnSpec::default);
                r.at.extend(w.at.iter().cloned());
                r.attrs.push_str(&w.attrs);
            }
        }
        if let Some(r) = r.as_mut().filter(|r| r.external) {
            r.at.clear();
            r.loops.clear();
        }
        r
    }
}

// ------------------------------------------------------------------ rewriting
#[derive(Default)]
struct Report {
    rewrites: BTreeMap<&'static str, usize>,
    problems: BTreeSet<String>,
    functions: Vec<String>,
    uncontracted: Vec<String>,
    /// function -> (kinds of its tokens, all of its tokens)
    shapes: Vec<(String, String, String)>,
}
/// One letter per token: the shape stays when a name, a number or an operator changes.
fn kinds(ts: TokenStream, out: &mut String) {
    const KW: [&str; 22] = ["if", "else", "match", "for", "while", "loop", "return", "break", "continue", "let", "mut", "ref", "fn", "as", "in", "self", "Self", "unsafe", "move", "where", "impl", "dyn"];
    let mut joint = false;
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                let s = i.to_string();
                if KW.contains(&s.as_str()) { out.push_str(&format!("<{s}>")) } else { out.push('i') }
                joint = false;
            }
            TokenTree::Literal(_) => { out.push('i'); joint = false; }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if !joint { out.push(if matches!(c, ';' | ',' | '?' | '.' | ':' | '#' | '&') { c } else { 'o' }); }
                joint = p.spacing() == proc_macro2::Spacing::Joint;
            }
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { proc_macro2::Delimiter::Parenthesis => ("(", ")"), proc_macro2::Delimiter::Brace => ("{", "}"), proc_macro2::Delimiter::Bracket => ("[", "]"), _ => ("", "") };
                out.push_str(a);
                kinds(g.stream(), out);
                out.push_str(b);
                joint = false;
            }
        }
    }
}
impl Report {
    fn shape(&mut self, key: &str, body: &Block) {
        let mut k = String::new();
        kinds(body.to_token_stream(), &mut k);
        self.shapes.push((key.into(), k, body.to_token_stream().to_string().split_whitespace().collect::<Vec<_>>().join(" ")));
    }
}
fn upper(s: &str) -> bool {
    s.chars().next().is_some_and(|c| c.is_uppercase())
}
struct Rw<'a> {
    rep: &'a mut Report,
    n: usize,
    subst: Vec<(String, String)>,
    gen: bool,
    /// constants keep their casts
    keep: bool,
}
fn norm(s: &str) -> String {
    s.parse::<TokenStream>().unwrap().to_string()
}
impl Rw<'_> {
    fn hit(&mut self, k: &'static str) {
        *self.rep.rewrites.entry(k).or_default() += 1;
    }
    fn path(&mut self, p: &mut Path) {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if self.gen && segs.len() > 4 && segs[0] == "crate" {
            // crate::zv::PACKAGE::FILE::Name: one module for each package
            let m = Ident::new(&format!("g_{}", segs[2]), Span::call_site());
            let mut tail: punctuated::Punctuated<PathSegment, Token![::]> = p.segments.iter().skip(4).cloned().collect();
            tail.insert(0, parse_quote!(#m));
            p.segments = tail;
            p.leading_colon = None;
            self.hit("paths of generated types: one module for each package");
            return;
        }
        if segs.len() > 1 && !upper(&segs[0]) && !matches!(segs[0].as_str(), "u8" | "u16" | "u32" | "u64" | "i64" | "f32" | "f64" | "f16" | "i8" | "i16" | "i32" | "usize" | "str") {
            // crate::ztype::f, super::f, array_trait::ArrayTrait: one flat name space
            let keep = segs.iter().position(|s| upper(s)).unwrap_or(segs.len() - 1);
            let tail: punctuated::Punctuated<PathSegment, Token![::]> = p.segments.iter().skip(keep).cloned().collect();
            p.segments = tail;
            p.leading_colon = None;
            self.hit("module paths flattened to one name space");
        }
    }
}
fn mac_expr(name: &str, args: TokenStream) -> Expr {
    let id = Ident::new(name, Span::call_site());
    parse2(quote!(#id(#args))).unwrap()
}
impl VisitMut for Rw<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        self.path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        self.n = 0;
        visit_mut::visit_impl_item_fn_mut(self, f);
    }
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        *v = parse_quote!(pub);
    }
    fn visit_trait_item_fn_mut(&mut self, f: &mut TraitItemFn) {
        f.attrs.clear();
        visit_mut::visit_trait_item_fn_mut(self, f);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // for (i, x) in E.iter().enumerate() { B }  =>  let mut k: usize = 0; for x in E.iter() { let i = k; k = k + 1; B }
        let mut out = Vec::new();
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Expr(Expr::ForLoop(mut f), semi) => {
                    let mut pre = None;
                    if let (Pat::Tuple(t), Expr::MethodCall(m)) = (&*f.pat, &*f.expr) {
                        if m.method == "enumerate" && t.elems.len() == 2 {
                            let k = Ident::new(&format!("counter_{}", self.n), Span::call_site());
                            self.n += 1;
                            let (i, x) = (t.elems[0].clone(), t.elems[1].clone());
                            let mut inner = (*m.receiver).clone();
                            if let Expr::MethodCall(mm) = &inner {
                                if mm.method == "iter" && mm.args.is_empty() {
                                    inner = (*mm.receiver).clone();
                                }
                            }
                            pre = Some(parse_quote!(let mut #k: usize = 0;));
                            f.pat = Box::new(x);
                            f.expr = Box::new(inner);
                            f.body.stmts.insert(0, parse_quote!(let #i = #k;));
                            f.body.stmts.insert(1, parse_quote!(#k = #k + 1;));
                            self.hit("`.iter().enumerate()` loop written with an explicit counter");
                        }
                    } else if let Expr::MethodCall(m) = &*f.expr {
                        if m.method == "iter" && m.args.is_empty() {
                            let e = (*m.receiver).clone();
                            f.expr = Box::new(e);
                            self.hit("`for x in v.iter()` written `for x in v`");
                        }
                    }
                    out.extend(pre);
                    out.push(Stmt::Expr(Expr::ForLoop(f), semi));
                }
                Stmt::Macro(m) if m.mac.path.is_ident("assert_eq") || m.mac.path.is_ident("debug_assert_eq") => {
                    let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).unwrap();
                    let (a, c) = (&args[0], &args[1]);
                    out.push(parse_quote!(must_hold(#a == #c);));
                    self.hit("assert_eq!(a, b) written must_hold(a == b), whose precondition is its argument");
                }
                Stmt::Macro(m) if m.mac.path.is_ident("assert") || m.mac.path.is_ident("debug_assert") => {
                    let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).unwrap();
                    let a = &args[0];
                    out.push(parse_quote!(must_hold(#a);));
                    self.hit("assert!(c) written must_hold(c), whose precondition is its argument");
                }
                Stmt::Macro(m) if ["panic", "unreachable", "todo", "unimplemented"].iter().any(|p| m.mac.path.is_ident(p)) => {
                    out.push(Stmt::Expr(parse_quote!(must_not_happen()), if m.semi_token.is_some() { Some(Default::default()) } else { None }));
                    self.hit("panic! written must_not_happen(), whose precondition is false");
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let txt = e.to_token_stream().to_string();
        if let Some((_, to)) = self.subst.iter().find(|x| norm(&x.0) == txt) {
            *e = parse_str(to).unwrap();
            self.hit("expression replaced as the overlay says (`//@ subst`)");
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        let mut new: Option<Expr> = None;
        match e {
            Expr::Call(c) if self.gen && c.func.to_token_stream().to_string() == "Option :: from" && c.args.len() == 1 => {
                let x = &c.args[0];
                new = Some(parse_quote!(Some(#x)));
                self.hit("Option::from(x) written Some(x)");
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.path.segments.len() == 2 && p.path.segments[0].ident == "ZserioError" {
                        let v = p.path.clone();
                        new = Some(parse_quote!(#v));
                        self.hit("payload of a ZserioError value dropped");
                    }
                }
            }
            Expr::Macro(m) if m.mac.path.is_ident("vec") => {
                let t = m.mac.tokens.clone();
                let has_semi = t.clone().into_iter().any(|x| matches!(&x, TokenTree::Punct(p) if p.as_char() == ';'));
                if has_semi {
                    let ts: Vec<TokenTree> = t.into_iter().collect();
                    let k = ts.iter().position(|x| matches!(x, TokenTree::Punct(p) if p.as_char() == ';')).unwrap();
                    let (a, b): (TokenStream, TokenStream) = (ts[..k].iter().cloned().collect(), ts[k + 1..].iter().cloned().collect());
                    new = Some(mac_expr("vec_of", quote!(#a, #b)));
                    self.hit("vec![x; n] written vec_of(x, n)");
                } else if t.is_empty() {
                    new = Some(parse_quote!(Vec::new()));
                    self.hit("vec![] written Vec::new()");
                }
            }
            Expr::Macro(m) if ["panic", "unreachable", "todo", "unimplemented"].iter().any(|p| m.mac.path.is_ident(p)) => {
                new = Some(parse_quote!(must_not_happen()));
                self.hit("panic! written must_not_happen(), whose precondition is false");
            }
            Expr::MethodCall(m) => {
                let recv = m.receiver.to_token_stream().to_string();
                if m.method == "load" && recv == "ARRAY_ALLOC_CHUNK" {
                    new = Some(parse_quote!(array_alloc_chunk()));
                    self.hit("ARRAY_ALLOC_CHUNK.load(..) written array_alloc_chunk()");
                } else if m.method == "nth" && m.args.len() == 1 {
                    if let Expr::MethodCall(c) = &*m.receiver {
                        if c.method == "chars" {
                            let (s, i) = (&c.receiver, &m.args[0]);
                            new = Some(parse_quote!(str_nth(#s, #i)));
                            self.hit("s.chars().nth(i) written str_nth(s, i)");
                        }
                    }
                } else if m.method == "try_into" && recv.starts_with("read_bytes (") {
                    let v = &m.receiver;
                    new = Some(parse_quote!(try_array(#v)));
                    self.hit("read_bytes(..)?.try_into() to an array written try_array(..)");
                } else if m.method == "map" && m.args.len() == 1 && matches!(&m.args[0], Expr::Closure(c) if c.inputs.len() == 1) {
                    let Expr::Closure(c) = &m.args[0] else { unreachable!() };
                    let (r, v, b) = (&m.receiver, &c.inputs[0], &c.body);
                    new = Some(parse_quote!(match #r { Ok(#v) => Ok(#b), Err(e) => Err(e) }));
                    self.hit("result.map(|v| e) written as a match");
                } else if m.method == "reserve" && m.args.len() == 1 {
                    let (v, n) = (&m.receiver, &m.args[0]);
                    new = Some(if self.gen { parse_quote!(vec_reserve(&mut #v, #n)) } else { parse_quote!(vec_reserve(#v, #n)) });
                    self.hit("v.reserve(n) written vec_reserve(v, n)");
                } else if self.gen && m.method == "to_string" && m.args.is_empty() {
                    let v = &m.receiver;
                    new = Some(parse_quote!(#v.clone()));
                    self.hit("s.to_string() written s.clone()");
                } else if self.gen && m.method == "min" && m.args.len() == 1 {
                    let (v, n) = (&m.receiver, &m.args[0]);
                    new = Some(parse_quote!(zs_min(#v, #n)));
                    self.hit("a.min(b) written zs_min(a, b)");
                } else if m.method == "to_vec" && m.args.is_empty() {
                    let v = &m.receiver;
                    new = Some(match &**v {
                        Expr::Index(_) => parse_quote!(to_vec(&#v)),
                        _ => parse_quote!(to_vec(&#v)),
                    });
                    self.hit("x.to_vec() written to_vec(&x)");
                }
            }
            Expr::Index(ix) => {
                if let Expr::Range(r) = &*ix.index {
                    let v = &ix.expr;
                    let lo: Expr = r.start.as_deref().cloned().unwrap_or(parse_quote!(0));
                    if let (Some(hi), RangeLimits::HalfOpen(_)) = (r.end.as_deref(), &r.limits) {
                        new = Some(parse_quote!(*slice_of(&#v, #lo, #hi)));
                        self.hit("v[a..b] written *slice_of(&v, a, b)");
                    }
                }
            }
            Expr::Cast(c) if !self.keep => {
                if let Type::Path(p) = &*c.ty {
                    if let Some(t) = p.path.get_ident() {
                        if ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64"].iter().any(|x| t == x) || (self.gen && t == "i128") {
                            let f = Ident::new(&format!("as_{t}"), Span::call_site());
                            let mut x = (*c.expr).clone();
                            while let Expr::Paren(p) = x {
                                x = *p.expr;
                            }
                            new = Some(parse_quote!(#f(#x)));
                            self.hit("`x as T` between integer types written as_T(x), reduction modulo 2^n");
                        }
                        if self.gen && (t == "bool" || t == "f32" || t == "f64") {
                            new = Some((*c.expr).clone());
                            self.hit("`x as bool`, `x as f32` and `x as f64` dropped");
                        }
                    }
                }
            }
            Expr::Struct(st) if self.gen && st.path.segments.last().unwrap().ident == "Array" => {
                let get = |n: &str| st.fields.iter().find(|f| matches!(&f.member, Member::Named(i) if i == n)).map(|f| f.expr.clone());
                if let (Some(tr), Some(fixed), Some(packed), 3, None) = (get("array_trait"), get("fixed_size"), get("is_packed"), st.fields.len(), &st.rest) {
                    if let Expr::Call(c) = &tr {
                        if c.func.to_token_stream().to_string() == "Box :: new" && c.args.len() == 1 {
                            let t = &c.args[0];
                            new = Some(match &st.path.segments.last().unwrap().arguments {
                                PathArguments::AngleBracketed(a) => {
                                    let a = a.args.iter();
                                    parse_quote!(mk_array::<#(#a,)* _>(#t, #fixed, #packed))
                                }
                                _ => parse_quote!(mk_array(#t, #fixed, #packed)),
                            });
                            self.hit("Array { array_trait: Box::new(t), fixed_size, is_packed } written mk_array(t, fixed_size, is_packed)");
                        }
                    }
                }
            }
            Expr::Binary(b) if self.gen => {
                let f = match b.op { BinOp::BitAnd(_) => "zs_and", BinOp::BitOr(_) => "zs_or", BinOp::BitXor(_) => "zs_xor", BinOp::Shl(_) => "zs_shl", BinOp::Shr(_) => "zs_shr", BinOp::Div(_) if !self.keep => "zs_div", BinOp::Rem(_) if !self.keep => "zs_rem", _ => "" };
                if !f.is_empty() {
                    let f = Ident::new(f, Span::call_site());
                    let (l, r) = (&b.left, &b.right);
                    new = Some(parse_quote!(#f(#l, #r)));
                    self.hit("bit operators, shifts, divisions and remainders written as calls of zs_and, zs_or, zs_xor, zs_shl, zs_shr, zs_div, zs_rem");
                }
            }
            Expr::Unary(u) if self.gen && matches!(u.op, UnOp::Not(_)) => {
                let x = &u.expr;
                new = Some(parse_quote!(zs_not(#x)));
                self.hit("`!x` written zs_not(x)");
            }
            _ => {}
        }
        if let Some(n) = new {
            *e = n;
        }
    }
}

// ------------------------------------------------------------------ marking
struct Loops<'a> {
    key: &'a str,
    n: usize,
    kinds: Vec<&'static str>,
}
fn mark(key: &str, what: &str) -> Stmt {
    let l = format!("{key}@{what}");
    parse_quote!(__vspec!(#l);)
}
impl VisitMut for Loops<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = Vec::new();
        for s in std::mem::take(&mut b.stmts) {
            let is_loop = matches!(&s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
            if is_loop {
                let k = self.n;
                self.n += 1;
                let mut s = s;
                out.push(mark(self.key, &format!("loop {k} before")));
                let (body, kind): (&mut Block, &'static str) = match &mut s {
                    Stmt::Expr(Expr::ForLoop(f), _) => {
                        let e = f.expr.clone();
                        let kind = if matches!(*e, Expr::Range(_)) { "range" } else { "for" };
                        let it = format!("it{k}");
                        if kind == "for" {
                            f.expr = parse_quote!(__it!(#it, #e));
                        }
                        (&mut f.body, kind)
                    }
                    Stmt::Expr(Expr::While(w), _) => (&mut w.body, "while"),
                    Stmt::Expr(Expr::Loop(w), _) => (&mut w.body, "loop"),
                    _ => unreachable!(),
                };
                self.kinds.push(kind);
                visit_mut::visit_block_mut(self, body);
                body.stmts.insert(0, mark(self.key, &format!("loop {k} inv")));
                body.stmts.insert(1, mark(self.key, &format!("loop {k} start")));
                // the end of the body: after the last statement (made a statement)
                if let Some(Stmt::Expr(_, semi)) = body.stmts.last_mut() {
                    if semi.is_none() {
                        *semi = Some(Default::default());
                    }
                }
                body.stmts.push(mark(self.key, &format!("loop {k} end")));
                out.push(s);
                out.push(mark(self.key, &format!("loop {k} after")));
            } else {
                out.push(s);
            }
        }
        b.stmts = out;
        // statements that are not loops still contain blocks
        for s in &mut b.stmts {
            if !matches!(s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _)) {
                visit_mut::visit_stmt_mut(self, s);
            }
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}

/// the text of a statement has self.f
fn mentions(text: &str, f: &str) -> bool {
    let pat = format!("self . {f}");
    text.match_indices(&pat).any(|(i, _)| !text[i + pat.len()..].starts_with(|c: char| c.is_alphanumeric() || c == '_'))
}

fn prepare(sig: &mut Signature, body: Option<&mut Block>, key: &str, ov: &Overlay, rep: &mut Report) {
    let ty: Type = match &sig.output {
        ReturnType::Default => parse_quote!(()),
        ReturnType::Type(_, t) => (**t).clone(),
    };
    for (k, a) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a {
            if matches!(*t.pat, Pat::Wild(_)) {
                let i = Ident::new(&format!("unnamed_{k}"), Span::call_site());
                t.pat = parse_quote!(#i);
                *rep.rewrites.entry("parameter `_` given a name").or_default() += 1;
            }
        }
    }
    sig.output = parse_quote!(-> __ret!(#key, #ty));
    rep.functions.push(key.into());
    let spec = ov.of(key);
    let spec = spec.as_ref();
    if let Some(b) = body {
        let mut l = Loops { key, n: 0, kinds: vec![] };
        l.visit_block_mut(b);
        let want: Vec<(usize, &str)> = spec.map(|s| s.loops.iter().map(|x| (x.0, x.1.as_str())).collect()).unwrap_or_default();
        for (i, k) in l.kinds.iter().enumerate() {
            if !want.iter().any(|w| w.0 == i && w.1 == *k) {
                rep.problems.insert(format!("{key}: loop {i} ({k}) has no invariant"));
            }
        }
        for w in &want {
            if l.kinds.get(w.0).map(|k| *k) != Some(w.1) {
                rep.problems.insert(format!("{key}: invariant for {} loop {} lost its loop", w.1, w.0));
            }
        }
        // "field f": after the last top-level statement that deals with self.f
        let names: Vec<String> = spec.map(|s| s.at.iter().filter_map(|a| a.0.strip_prefix("field ").map(String::from)).collect()).unwrap_or_default();
        if !names.is_empty() {
            let text: Vec<String> = b.stmts.iter().map(|s| format!("{} ", s.to_token_stream())).collect();
            let mut first = Vec::new();
            let mut from = 0;
            for f in &names {
                let k = (from..text.len()).find(|k| mentions(&text[*k], f)).unwrap_or(text.len());
                first.push(k);
                from = k.min(text.len());
            }
            first.push(text.len());
            let mut ins = Vec::new();
            for (i, f) in names.iter().enumerate() {
                if first[i] >= text.len() || first[i] == first[i + 1] {
                    continue;
                }
                let k = (first[i]..first[i + 1]).rev().find(|k| mentions(&text[*k], f)).unwrap();
                ins.push((k + 1, f.clone()));
            }
            for (k, f) in ins.iter().rev() {
                b.stmts.insert(*k, mark(key, &format!("field {f}")));
            }
        }
        // "end": before the final expression of the body
        let endpos = match b.stmts.last() {
            Some(Stmt::Expr(_, None)) => b.stmts.len() - 1,
            _ => b.stmts.len(),
        };
        b.stmts.insert(endpos, mark(key, "end"));
        b.stmts.insert(0, mark(key, "body"));
        b.stmts.insert(1, mark(key, "start"));
    }
}

struct Subst {
    from: String,
    to: TokenStream,
}
fn subst(ts: TokenStream, s: &[Subst]) -> TokenStream {
    ts.into_iter()
        .flat_map(|t| -> Vec<TokenTree> {
            match t {
                TokenTree::Ident(i) => match s.iter().find(|x| i == x.from.as_str()) {
                    Some(x) => x.to.clone().into_iter().collect(),
                    None => vec![TokenTree::Ident(i)],
                },
                TokenTree::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), s));
                    n.set_span(g.span());
                    vec![TokenTree::Group(n)]
                }
                t => vec![t],
            }
        })
        .collect()
}
/// #[duplicate_item(name; [i64]; [i32])] item  =>  one item per alternative
fn duplicates(i: &ItemImpl) -> Vec<ItemImpl> {
    for (k, a) in i.attrs.iter().enumerate() {
        if a.path().segments.last().unwrap().ident == "duplicate_item" {
            let mut base = i.clone();
            base.attrs.remove(k);
            let Meta::List(l) = &a.meta else { panic!() };
            let mut name = None;
            let mut r = Vec::new();
            for t in l.tokens.clone() {
                match t {
                    TokenTree::Ident(i) => name = Some(i.to_string()),
                    TokenTree::Group(g) => {
                        let s = [Subst { from: name.clone().unwrap(), to: g.stream() }];
                        r.push(parse2(subst(base.to_token_stream(), &s)).unwrap());
                    }
                    _ => {}
                }
            }
            return r;
        }
    }
    vec![i.clone()]
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        t => t.to_token_stream().to_string(),
    }
}

fn print_item(i: Item) -> String {
    prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![i] })
}

/// put the contracts where the marks are
fn finish(mut s: String, ov: &Overlay) -> String {
    // return types
    while let Some(a) = s.find("__ret!(") {
        let st = a + "__ret!(".len();
        let mut depth = 1;
        let mut e = st;
        for (i, c) in s[st..].char_indices() {
            match c {
                '(' => depth += 1,
                ')' => {
                    depth -= 1;
                    if depth == 0 {
                        e = st + i;
                        break;
                    }
                }
                _ => {}
            }
        }
        let inner = s[st..e].to_string();
        let (k, ty) = inner.split_once(',').unwrap();
        let key = k.trim().trim_matches('"').to_string();
        let after = s[e + 1..].to_string();
        let mut head = format!("{}(res: {})", &s[..a], ty.trim());
        // a declaration without a body takes its contract here
        if after.trim_start().starts_with(';') {
            if let Some(f) = ov.of(&key) {
                head.push('\n');
                head.push_str(&f.spec);
            }
        }
        s = head + &after;
    }
    // iterators
    while let Some(a) = s.find("__it!(") {
        let st = a + "__it!(".len();
        let mut depth = 1;
        let mut e = st;
        for (i, c) in s[st..].char_indices() {
            match c {
                '(' => depth += 1,
                ')' => {
                    depth -= 1;
                    if depth == 0 {
                        e = st + i;
                        break;
                    }
                }
                _ => {}
            }
        }
        let inner = s[st..e].to_string();
        let (k, ex) = inner.split_once(',').unwrap();
        s = format!("{}{}: {}{}", &s[..a], k.trim().trim_matches('"'), ex.trim(), &s[e + 1..]);
    }
    // marks
    while let Some(a) = s.find("__vspec!(") {
        let e = a + s[a..].find(");").unwrap() + 2;
        let txt = s[a + "__vspec!(\"".len()..e - 3].to_string();
        let (key, what) = txt.split_once('@').unwrap();
        let f = ov.of(key);
        let f = f.as_ref();
        let before = s[..a].to_string();
        let after = s[e..].to_string();
        if what == "body" || what.ends_with(" inv") {
            let brace = before.rfind('{').unwrap();
            assert!(before[brace + 1..].trim().is_empty());
            let t = match (what, f) {
                ("body", Some(f)) => f.spec.clone(),
                (_, Some(f)) => {
                    let k: usize = what.split_whitespace().nth(1).unwrap().parse().unwrap();
                    f.loops.iter().find(|l| l.0 == k).map(|l| l.2.clone()).unwrap_or_default()
                }
                _ => String::new(),
            };
            s = format!("{}\n{}{{{}", before[..brace].trim_end(), t, after);
        } else {
            let t: String = f.map(|f| f.at.iter().filter(|x| x.0 == what).map(|x| x.1.clone()).collect()).unwrap_or_default();
            s = format!("{}{}{}", before, t, after);
        }
    }
    s
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut r = Vec::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Meta::List(l) = &a.meta {
                r.extend(l.tokens.clone().into_iter().filter_map(|t| match t { TokenTree::Ident(i) => Some(i.to_string()), _ => None }));
            }
        }
    }
    r
}
/// a generated enumeration, with the discriminants of the code; a bitmask as the structure its macro makes
fn gen_enum(e: &ItemEnum, rep: &mut Report) -> String {
    let n = e.ident.to_string();
    let mut o = String::new();
    let mut last = String::from("0");
    let vals: Vec<(String, String)> = e.variants.iter().enumerate().map(|(k, v)| {
        let d = match &v.discriminant { Some((_, x)) => x.to_token_stream().to_string(), None if k == 0 => "0".into(), None => format!("({last}) + 1") };
        last = d.clone();
        (v.ident.to_string(), d)
    }).collect();
    if let Some(a) = e.attrs.iter().find(|a| a.path().is_ident("bitmask")) {
        let Meta::List(l) = &a.meta else { panic!() };
        let t = l.tokens.to_string();
        *rep.rewrites.entry("#[bitmask(T)] enum written as the structure { bits: T } with its constants, bits(), `&` and `==`").or_default() += 1;
        o += &format!("#[derive(Clone, Copy)]\npub struct {n} {{ pub bits: {t} }}\n#[allow(non_upper_case_globals)]\nimpl {n} {{\n");
        for (v, d) in &vals {
            o += &format!("    pub const {v}: {n} = {n} {{ bits: {d} }};\n");
        }
        o += &format!("    #[verifier::external_body] pub fn bits(&self) -> (r: {t}) ensures r == self.bits {{ unimplemented!() }}\n}}\n");
        o += &format!("impl PartialEq for {n} {{ #[verifier::external_body] fn eq(&self, o: &{n}) -> bool {{ unimplemented!() }} }}\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for {n} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{n}) -> bool {{ *self == *o }} }}\n");
        o += &format!("impl IntLike for {n} {{ open spec fn val(self) -> int {{ self.bits as int }} }}\nimpl ZsBits for {n} {{ open spec fn bval(self) -> int {{ self.bits as int }} open spec fn size(self) -> int {{ 64 }} open spec fn sig(self) -> bool {{ false }} #[verifier::external_body] fn and(self, o: Self) -> (r: Self) {{ unimplemented!() }} #[verifier::external_body] fn or(self, o: Self) -> (r: Self) {{ unimplemented!() }} #[verifier::external_body] fn xor(self, o: Self) -> (r: Self) {{ unimplemented!() }} }}\n");
        o += &format!("impl PartialEq<{t}> for {n} {{ #[verifier::external_body] fn eq(&self, o: &{t}) -> bool {{ unimplemented!() }} }}\nimpl vstd::std_specs::cmp::PartialEqSpecImpl<{t}> for {n} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{t}) -> bool {{ self.bits == *o }} }}\n");
        return o;
    }
    *rep.rewrites.entry("discriminants of an enumeration written as a function to integers").or_default() += 1;
    o += &format!("#[derive(Clone, Copy)]\npub enum {n} {{ {} }}\n", vals.iter().map(|v| v.0.clone()).collect::<Vec<_>>().join(", "));
    o += &format!("impl PartialEq for {n} {{ #[verifier::external_body] fn eq(&self, o: &{n}) -> bool {{ unimplemented!() }} }}\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for {n} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{n}) -> bool {{ *self == *o }} }}\n");
    o += &format!("impl IntLike for {n} {{ open spec fn val(self) -> int {{ match self {{ {} }} }} }}\n", vals.iter().map(|v| format!("{n}::{} => ({}) as int", v.0, v.1)).collect::<Vec<_>>().join(", "));
    if derives(&e.attrs).iter().any(|d| d == "Default") {
        o += &format!("impl Default for {n} {{ #[verifier::external_body] fn default() -> (res: {n}) ensures res == {n}_dflt() {{ unimplemented!() }} }}\n");
    }
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ov = parse_overlay(&std::fs::read_to_string(&a[1]).unwrap());
    // functions the verifier cannot take in their present form: their contract is assumed (and reported)
    for k in std::env::var("EXTRACT_EXTERNAL").unwrap_or_default().split(',').filter(|k| !k.is_empty()) {
        ov.fns.entry(k.into()).or_default().external = true;
    }
    // vacuity probe: every function must be refused
    if std::env::var("EXTRACT_PROBE").is_ok() {
        let keys: Vec<String> = ov.fns.keys().filter(|k| !k.starts_with('*')).cloned().collect();
        for k in keys {
            ov.fns.get_mut(&k).unwrap().at.insert(0, ("start".into(), "proof { assert(false); }\n".into()));
        }
    }
    let ov = ov;
    let root = &a[3];
    let mut rep = Report::default();
    let mut out = String::new();
    let mut used_impls = BTreeSet::new();
    let mut defaults: BTreeMap<String, Vec<ImplItemFn>> = BTreeMap::new();
    let mut const_values: Vec<(String, String)> = Vec::new();
    for (k, src) in ov.sources.iter().enumerate() {
        for v in ov.verbatim.iter().filter(|v| v.0 == k) {
            out.push_str(&v.1);
        }
        out.push_str(&format!("\n// ---------------------------------------------------------------- {}\n", src.file));
        let path = if src.file.starts_with('/') { src.file.clone() } else { format!("{root}/{}", src.file) };
        let txt = match std::fs::read_to_string(&path) {
            Ok(t) => t,
            Err(e) => {
                rep.problems.insert(format!("{path}: {e}"));
                continue;
            }
        };
        let file = parse_file(&txt).unwrap_or_else(|e| panic!("{path}: {e}"));
        let wanted = |n: &str| src.only.as_ref().map_or(true, |o| o.iter().any(|x| x == n)) && !src.skip.iter().any(|x| x == n);
        for item in file.items {
            match item {
                Item::Fn(mut f) => {
                    let name = f.sig.ident.to_string();
                    if !wanted(&name) || f.attrs.iter().any(|a| a.path().is_ident("cfg") || a.path().is_ident("test")) {
                        continue;
                    }
                    f.attrs.clear();
                    rep.shape(&name, &f.block);
                    Rw { rep: &mut rep, n: 0, subst: ov.of(&name).map(|f| f.subst).unwrap_or_default(), gen: src.pkg.is_some(), keep: false }.visit_item_fn_mut(&mut f);
                    f.vis = parse_quote!(pub);
                    if ov.fns.get(&name).is_some_and(|s| s.external) {
                        f.block = Box::new(parse_quote!({ unimplemented!() }));
                    }
                    prepare(&mut f.sig, Some(&mut f.block), &name, &ov, &mut rep);
                    let sp = ov.fns.get(&name);
                    if sp.is_none() {
                        rep.uncontracted.push(name.clone());
                    }
                    if sp.is_some_and(|s| s.external) {
                        out.push_str("#[verifier::external_body]\n");
                    }
                    out.push_str(&sp.map(|s| s.attrs.clone()).unwrap_or_default());
                    out.push_str(&finish(print_item(Item::Fn(f)), &ov));
                    out.push('\n');
                }
                Item::Enum(e) if src.pkg.is_some() => {
                    if wanted(&e.ident.to_string()) {
                        out.push_str(&gen_enum(&e, &mut rep));
                    }
                }
                Item::Struct(mut s) => {
                    if !wanted(&s.ident.to_string()) {
                        continue;
                    }
                    let name = s.ident.to_string();
                    let derived = derives(&s.attrs);
                    s.attrs.clear();
                    Rw { rep: &mut rep, n: 0, subst: vec![], gen: src.pkg.is_some(), keep: false }.visit_item_struct_mut(&mut s);
                    for f in &mut s.fields {
                        f.vis = parse_quote!(pub);
                    }
                    s.vis = parse_quote!(pub);
                    if let Some(h) = ov.impl_heads.get(&name) {
                        out.push_str(h);
                        out.push('\n');
                    }
                    out.push_str(&print_item(Item::Struct(s)));
                    if let Some(pkg) = &src.pkg {
                        let mut hit = |k: &'static str| *rep.rewrites.entry(k).or_default() += 1;
                        if derived.iter().any(|d| d == "Default") {
                            out.push_str(&format!("impl Default for {name} {{ #[verifier::external_body] fn default() -> (res: {name}) ensures res == {name}_dflt() {{ unimplemented!() }} }}\n"));
                            hit("derived Default of a generated structure: assumed to be the defaults of its fields");
                        }
                        if derived.iter().any(|d| d == "Clone") {
                            out.push_str(&format!("impl Clone for {name} {{ #[verifier::external_body] fn clone(&self) -> (res: {name}) ensures res == *self {{ unimplemented!() }} }}\n"));
                            hit("derived Clone of a generated structure: assumed to make an equal value");
                        }
                        if derived.iter().any(|d| d == "PartialEq") && ov.eqs.contains(&format!("{pkg}.{name}")) {
                            out.push_str(&format!("impl PartialEq for {name} {{ #[verifier::external_body] fn eq(&self, o: &{name}) -> bool {{ unimplemented!() }} }}\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{name}) -> bool {{ *self == *o }} }}\n"));
                            hit("derived PartialEq of a generated structure of integers: assumed to be equality");
                        }
                    }
                }
                Item::Type(mut t) if src.pkg.is_some() => {
                    t.attrs.clear();
                    t.vis = parse_quote!(pub);
                    Rw { rep: &mut rep, n: 0, subst: vec![], gen: true, keep: false }.visit_item_type_mut(&mut t);
                    out.push_str(&print_item(Item::Type(t)));
                }
                Item::Const(mut c) => {
                    if !wanted(&c.ident.to_string()) {
                        continue;
                    }
                    let key = match &src.pkg { Some(p) => format!("{p}.{}", c.ident), None => c.ident.to_string() };
                    let _ = &key;
                    c.attrs.clear();
                    c.vis = parse_quote!(pub);
                    Rw { rep: &mut rep, n: 0, subst: vec![], gen: src.pkg.is_some(), keep: src.pkg.is_some() }.visit_item_const_mut(&mut c);
                    if let Type::Reference(r) = &mut *c.ty {
                        r.lifetime = Some(parse_quote!('static));
                    }
                    const_values.push((format!("$CONST{{{}}}", c.ident), c.expr.to_token_stream().to_string()));
                    out.push_str(&print_item(Item::Const(c)));
                }
                Item::Trait(mut t) => {
                    let name = t.ident.to_string();
                    if !wanted(&name) {
                        continue;
                    }
                    t.attrs.clear();
                    for it in &mut t.items {
                        if let TraitItem::Fn(f) = it {
                            if let Some(b) = f.default.take() {
                                f.semi_token = Some(Default::default());
                                let sig = &f.sig;
                                defaults.entry(name.clone()).or_default().push(parse_quote!(#sig #b));
                            }
                        }
                    }
                    Rw { rep: &mut rep, n: 0, subst: vec![], gen: src.pkg.is_some(), keep: false }.visit_item_trait_mut(&mut t);
                    t.vis = parse_quote!(pub);
                    for it in &mut t.items {
                        if let TraitItem::Fn(f) = it {
                            let key = format!("{name}::{}", f.sig.ident);
                            prepare(&mut f.sig, f.default.as_mut(), &key, &ov, &mut rep);
                            if !ov.fns.contains_key(&key) {
                                rep.uncontracted.push(key.clone());
                            }
                        }
                    }
                    let mut s = finish(print_item(Item::Trait(t)), &ov);
                    if let Some(x) = ov.impls.get(&name) {
                        let b = s.find('{').unwrap();
                        s.insert_str(b + 1, &format!("\n{x}"));
                        used_impls.insert(name);
                    }
                    out.push_str(&s);
                    out.push('\n');
                }
                Item::Impl(i) => {
                    for mut i in duplicates(&i) {
                        let short = type_name(&i.self_ty);
                        let ty = match &src.pkg { Some(p) => format!("{p}.{short}"), None => short.clone() };
                        if src.pkg.is_some() && i.trait_.as_ref().is_some_and(|t| t.1.segments.last().unwrap().ident == "TryFrom") {
                            i.trait_ = None;
                            i.items.retain(|x| !matches!(x, ImplItem::Type(_)));
                            let (st, n) = (i.self_ty.clone(), &mut rep);
                            for it in &mut i.items {
                                if let ImplItem::Fn(f) = it {
                                    f.sig.output = parse_quote!(-> Result<#st, ZserioError>);
                                }
                            }
                            *n.rewrites.entry("impl TryFrom<i64> written as a function of the type").or_default() += 1;
                        }
                        let tr = i.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                        let full = match &tr { Some(t) => format!("{t}:{short}"), None => short.clone() };
                        let dotted = match &tr { Some(t) => format!("{t}:{ty}"), None => ty.clone() };
                        if !wanted(&full) {
                            continue;
                        }
                        i.attrs.clear();
                        if let Some(t) = &tr {
                            for d in defaults.get(t).map(|v| v.as_slice()).unwrap_or_default() {
                                let has = i.items.iter().any(|x| matches!(x, ImplItem::Fn(f) if f.sig.ident == d.sig.ident));
                                if !has {
                                    i.items.push(ImplItem::Fn(d.clone()));
                                    *rep.rewrites.entry("default method of a trait copied into an implementation that inherits it").or_default() += 1;
                                }
                            }
                        }
                        for it in &i.items {
                            if let ImplItem::Fn(f) = it {
                                rep.shape(&format!("{ty}::{}", f.sig.ident), &f.block);
                            }
                        }
                        Rw { rep: &mut rep, n: 0, subst: vec![], gen: src.pkg.is_some(), keep: false }.visit_item_impl_mut(&mut i);
                        for it in &mut i.items {
                            if let ImplItem::Fn(f) = it {
                                if let Some(sp) = ov.of(&format!("{ty}::{}", f.sig.ident)) {
                                    if !sp.subst.is_empty() {
                                        Rw { rep: &mut rep, n: 0, subst: sp.subst, gen: src.pkg.is_some(), keep: false }.visit_impl_item_fn_mut(f);
                                    }
                                }
                            }
                        }
                        // the element type an ArrayTrait implementation is for
                        let arg = i.trait_.as_ref().and_then(|t| match &t.1.segments.last().unwrap().arguments {
                            PathArguments::AngleBracketed(a) => Some(a.args.to_token_stream().to_string()),
                            _ => None,
                        });
                        let mut ext = Vec::new();
                        for it in &mut i.items {
                            if let ImplItem::Fn(f) = it {
                                f.attrs.clear();
                                let key = format!("{ty}::{}", f.sig.ident);
                                if ov.fns.get(&key).is_some_and(|s| s.external) {
                                    f.block = parse_quote!({ unimplemented!() });
                                }
                                f.vis = if tr.is_some() { Visibility::Inherited } else { parse_quote!(pub) };
                                prepare(&mut f.sig, Some(&mut f.block), &key, &ov, &mut rep);
                                if !ov.fns.contains_key(&key) && tr.is_none() {
                                    rep.uncontracted.push(key.clone());
                                }
                                if ov.fns.get(&key).is_some_and(|s| s.external) {
                                    ext.push(f.sig.ident.to_string());
                                }
                            }
                        }
                        let mut s = finish(print_item(Item::Impl(i)), &ov);
                        for e in ext {
                            s = s.replacen(&format!("fn {e}("), &format!("#[verifier::external_body] fn {e}("), 1);
                        }
                        for k in [dotted.clone(), format!("{dotted}<{}>", arg.clone().unwrap_or_default())] {
                            if let Some(x) = ov.impls.get(&k) {
                                let b = s.find('{').unwrap();
                                s.insert_str(b + 1, &format!("\n{x}"));
                                used_impls.insert(k);
                            }
                        }
                        s = s.replace("$T", arg.as_deref().unwrap_or("")).replace("$SELF", &short);
                        out.push_str(&s);
                        out.push('\n');
                    }
                }
                _ => {}
            }
        }
    }
    for v in ov.verbatim.iter().filter(|v| v.0 == ov.sources.len()) {
        out.push_str(&v.1);
    }
    for k in ov.fns.keys().filter(|k| !k.starts_with('*')) {
        if !rep.functions.contains(k) {
            rep.problems.insert(format!("contract for {k}: no such function in the source"));
        }
    }
    for k in ov.impls.keys() {
        if !used_impls.contains(k) {
            rep.problems.insert(format!("specification functions for {k}: no such implementation in the source"));
        }
    }
    for (f, t) in ov.consts.iter().chain(const_values.iter()) {
        out = out.replace(f, t);
    }
    std::fs::write(&a[2], out).unwrap();
    for (k, n) in &rep.rewrites {
        println!("REWRITE\t{n}\t{k}");
    }
    for p in &rep.problems {
        println!("PROBLEM\t{p}");
    }
    for p in &rep.uncontracted {
        println!("UNCONTRACTED\t{p}");
    }
    for (f, k, t) in &rep.shapes {
        println!("SHAPE\t{f}\t{k}\t{t}");
    }
    for (f, sp) in ov.fns.iter().filter(|f| f.1.external) {
        println!("EXTERNAL\t{f}");
        let _ = sp;
    }
    for (f, sp) in ov.fns.iter().filter(|f| !f.0.starts_with('*')) {
        let n = sp.loops.len() + sp.at.len();
        println!("HINTS\t{f}\t{n}");
    }
    for f in &rep.functions {
        println!("FUNCTION\t{f}");
    }
}
