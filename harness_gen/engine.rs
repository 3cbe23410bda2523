//! Reference semantics of zserio schemas: values, expressions, valid objects, wire layout
//! (plain and packed).  Written from the zserio documentation and reference implementation;
//! nothing of it is taken from the code under test.
use crate::shim::{any, assume, below, in_range, in_urange};
use crate::spec::{self, put};
use rust_bitwriter::BitWriter;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

// ---------------------------------------------------------------- schema
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Bool,
    U(u8),
    S(u8),
    /// bit / int with a literal or dynamic width
    BitU,
    BitS,
    VarU(u8),
    VarS(u8),
    Varsize,
    F16,
    F32,
    F64,
    Str,
    Bytes,
    Ext,
    Enum(usize),
    Mask(usize),
    Comp(usize),
}
pub struct Ty {
    pub k: K,
    pub bits: u8,
    pub width: Option<E>,
    pub args: Vec<E>,
}
pub enum Arr {
    No,
    Auto,
    Len(E),
}
pub struct Field {
    pub name: &'static str,
    pub ty: Ty,
    pub align: u32,
    /// the field has an offset (aligned to bytes; with @index: each element)
    pub offset: bool,
    pub indexed: bool,
    /// the field holds offsets: never packed
    pub is_offset: bool,
    pub optional: bool,
    pub cond: Option<E>,
    pub packed: bool,
    pub array: Arr,
}
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum DK {
    Struct,
    Choice,
    Union,
    Enum,
    Mask,
}
pub struct Func {
    pub name: &'static str,
    pub ty: Ty,
    pub e: E,
}
pub struct Decl {
    pub name: &'static str,
    pub kind: DK,
    pub params: Vec<(&'static str, Ty)>,
    pub fields: Vec<Field>,
    /// choices: values and the index of the selected field
    pub cases: Vec<(Vec<E>, Option<usize>)>,
    pub default: Option<Option<usize>>,
    pub sel: Option<E>,
    pub funcs: Vec<Func>,
    pub base: Option<Ty>,
    pub values: Vec<(&'static str, i128)>,
}
pub enum E {
    I(i128),
    B(bool),
    F(f64),
    Str(&'static str),
    Const(i128, Nt),
    ConstB(bool),
    Item(i128),
    Param(usize),
    Field(usize),
    Dot(Box<E>, &'static str),
    Func(usize),
    Len(Box<E>),
    ValueOf(Box<E>),
    NumBits(Box<E>),
    IsSet(Box<E>, Box<E>),
    Idx(Box<E>, Box<E>),
    Index,
    Un(char, Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
    Tern(Box<E>, Box<E>, Box<E>),
}
thread_local! { static DECLS: &'static Vec<Decl> = Box::leak(Box::new(crate::ast::decls())); }
pub fn decls() -> &'static Vec<Decl> {
    DECLS.with(|d| *d)
}

// ---------------------------------------------------------------- values
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    I(i128),
    B(bool),
    F(f64),
    S(String),
    Blob(Vec<u8>),
    Ext(u32, Vec<u8>),
    A(Vec<Val>),
    O(Rc<Obj>),
    None,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Obj {
    pub ty: usize,
    pub params: Vec<Val>,
    pub fields: Vec<Val>,
    /// the selected field of a union (may be out of range when poisoned) or choice
    pub sel: usize,
}
impl Val {
    pub fn i(&self) -> i128 {
        match self { Val::I(v) => *v, _ => panic!("engine: integer expected: {:?}", self) }
    }
    pub fn b(&self) -> bool {
        match self { Val::B(v) => *v, _ => panic!("engine: bool expected: {:?}", self) }
    }
    pub fn f(&self) -> f64 {
        match self { Val::F(v) => *v, _ => panic!("engine: float expected: {:?}", self) }
    }
    pub fn s(&self) -> String {
        match self { Val::S(v) => v.clone(), _ => panic!("engine: string expected: {:?}", self) }
    }
    pub fn a(&self) -> &Vec<Val> {
        match self { Val::A(v) => v, _ => panic!("engine: array expected: {:?}", self) }
    }
    pub fn o(&self) -> &Rc<Obj> {
        match self { Val::O(v) => v, _ => panic!("engine: object expected: {:?}", self) }
    }
    pub fn is_none(&self) -> bool {
        matches!(self, Val::None)
    }
}
pub const NONE: usize = usize::MAX;

// ---------------------------------------------------------------- expressions
/// the type of an integer expression; `rank` decides which operand's type wins
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Nt {
    pub signed: bool,
    pub rank: u8,
    pub backing: u8,
    pub keep: bool,
}
pub const INT32: Nt = Nt { signed: true, rank: 32, backing: 32, keep: true };
pub const LEN: Nt = Nt { signed: false, rank: 31, backing: 32, keep: true };
pub const I64: Nt = Nt { signed: true, rank: 64, backing: 64, keep: true };
/// the expression has no value (division by zero), or a value outside of its type
#[derive(Debug)]
pub struct Undefined;
type Ev<T> = Result<T, Undefined>;

pub fn nt(t: &Ty) -> Option<Nt> {
    let n = |signed, rank, backing, keep| Some(Nt { signed, rank, backing, keep });
    match t.k {
        K::U(b) => n(false, b, b, b >= 32),
        K::S(b) => n(true, b, b, b >= 32),
        K::BitU | K::BitS => {
            let r = if t.width.is_some() { 64 } else { t.bits };
            n(t.k == K::BitS, r, 64, r >= 32)
        }
        K::VarU(m) | K::VarS(m) => {
            let (r, b) = match m { 2 => (15, 16), 4 => (29, 32), 8 => (57, 64), _ => (64, 64) };
            let s = matches!(t.k, K::VarS(_));
            n(s, r, b, b >= 32 && !(s && b == 32))
        }
        K::Varsize => Some(LEN),
        _ => None,
    }
}
fn promote(t: Option<Nt>) -> Option<Nt> {
    t.map(|t| if t.keep { t } else { INT32 })
}
/// the usual arithmetic conversions of C++, over the width of the values
fn mix(a: Option<Nt>, b: Option<Nt>) -> Option<Nt> {
    if a == b {
        return a;
    }
    match (promote(a), promote(b)) {
        (Some(x), Some(y)) => {
            let (wx, wy) = (x.rank > 32, y.rank > 32);
            Some(if wx != wy {
                if wx { x } else { y }
            } else if x.signed != y.signed {
                if x.signed { y } else { x }
            } else if x.rank > y.rank {
                x
            } else {
                y
            })
        }
        (x, None) => x,
        (None, y) => y,
    }
}
fn range(t: Option<Nt>) -> (i128, i128) {
    let t = t.unwrap_or(INT32);
    if t.signed {
        (-(1i128 << (t.backing - 1)), (1i128 << (t.backing - 1)) - 1)
    } else {
        (0, (1i128 << t.backing) - 1)
    }
}
pub fn fits(v: i128, t: Option<Nt>) -> Ev<i128> {
    let (l, h) = range(t);
    if l <= v && v <= h { Ok(v) } else { Err(Undefined) }
}
pub struct Env<'a> {
    pub o: &'a Obj,
    pub index: Option<usize>,
}
type TV = (Val, Option<Nt>);

fn ty_of(e: &E, o: &Obj) -> Option<&'static Ty> {
    let d = &decls()[o.ty];
    match e {
        E::Param(i) => Some(&d.params[*i].1),
        E::Field(i) => Some(&d.fields[*i].ty),
        E::Idx(a, _) => ty_of(a, o),
        E::Dot(a, n) => match ty_of(a, o)?.k {
            K::Comp(id) => decls()[id].fields.iter().find(|f| f.name == *n).map(|f| &f.ty),
            _ => None,
        },
        _ => None,
    }
}
pub fn int(e: &E, env: &Env) -> Ev<i128> {
    Ok(ev(e, env)?.0.i())
}
pub fn truth(e: &E, env: &Env) -> Ev<bool> {
    match ev(e, env)?.0 {
        Val::B(b) => Ok(b),
        Val::I(i) => Ok(i != 0),
        _ => Err(Undefined),
    }
}
fn present(v: &Val) -> Ev<Val> {
    if v.is_none() { Err(Undefined) } else { Ok(v.clone()) }
}
pub fn numbits(v: i128) -> i128 {
    if v <= 1 { v } else { spec::bitlen((v - 1) as u128) as i128 }
}
pub fn ev(e: &E, env: &Env) -> Ev<TV> {
    Ok(match e {
        // literals beyond int32 are 64-bit values
        E::I(v) => (Val::I(*v), if *v > i64::MAX as i128 { Some(Nt { signed: false, ..I64 }) } else if *v > i32::MAX as i128 { Some(I64) } else { None }),
        E::B(b) | E::ConstB(b) => (Val::B(*b), None),
        E::F(f) => (Val::F(*f), None),
        E::Str(s) => (Val::S(s.to_string()), None),
        E::Const(v, t) => (Val::I(*v), Some(*t)),
        E::Item(v) => (Val::I(*v), None),
        E::Param(i) => (env.o.params[*i].clone(), nt(&decls()[env.o.ty].params[*i].1)),
        E::Field(i) => (present(env.o.fields.get(*i).ok_or(Undefined)?)?, nt(&decls()[env.o.ty].fields[*i].ty)),
        E::Idx(a, i) => {
            let (v, t) = ev(a, env)?;
            let i = int(i, env)?;
            (v.a().get(usize::try_from(i).map_err(|_| Undefined)?).ok_or(Undefined)?.clone(), t)
        }
        E::Index => (Val::I(env.index.ok_or(Undefined)? as i128), None),
        E::Dot(a, n) => {
            let (v, _) = ev(a, env)?;
            let o = v.o().clone();
            let d = &decls()[o.ty];
            let i = d.fields.iter().position(|f| f.name == *n).unwrap();
            (present(o.fields.get(i).ok_or(Undefined)?)?, nt(&d.fields[i].ty))
        }
        E::Func(i) => {
            let f = &decls()[env.o.ty].funcs[*i];
            (call(f, env)?, nt(&f.ty))
        }
        E::Len(a) => (Val::I(ev(a, env)?.0.a().len() as i128), Some(LEN)),
        E::NumBits(a) => (Val::I(numbits(int(a, env)?)), Some(LEN)),
        E::ValueOf(a) => {
            let t = match ty_of(a, env.o).unwrap().k {
                K::Enum(i) | K::Mask(i) => nt(decls()[i].base.as_ref().unwrap()),
                _ => panic!("engine: valueof"),
            };
            (Val::I(int(a, env)?), t)
        }
        E::IsSet(a, b) => (Val::B(int(a, env)? & int(b, env)? != 0), None),
        E::Un(op, a) => {
            let (v, t) = ev(a, env)?;
            match (op, v) {
                ('!', Val::B(b)) => (Val::B(!b), None),
                ('+', Val::I(v)) => (Val::I(fits(v, promote(t))?), promote(t)),
                ('-', Val::I(v)) => {
                    let t = match promote(t) { Some(t) if !t.signed => Some(Nt { signed: true, rank: 64, backing: 64, keep: true }), t => t };
                    fits(v, t)?;
                    (Val::I(fits(-v, t)?), t)
                }
                ('~', Val::I(v)) => {
                    let t = promote(t);
                    let r = if t.map_or(true, |t| t.signed) { !v } else { range(t).1 - v };
                    (Val::I(fits(r, t)?), t)
                }
                _ => panic!("engine: unary {}", op),
            }
        }
        E::Tern(c, a, b) => {
            let (x, y) = (ev(a, env), ev(b, env));
            let t = match (&x, &y) {
                (Ok((Val::I(_), tx)), Ok((Val::I(_), ty))) => mix(*tx, *ty),
                _ => None,
            };
            let (v, own) = if truth(c, env)? { x? } else { y? };
            match (v, t) {
                (Val::I(v), Some(t)) => (Val::I(fits(v, Some(t))?), Some(t)),
                (v, _) => (v, own),
            }
        }
        E::Bin("&&", a, b) => (Val::B(truth(a, env)? && truth(b, env)?), None),
        E::Bin("||", a, b) => (Val::B(truth(a, env)? || truth(b, env)?), None),
        E::Bin(op, a, b) => {
            let (x, tx) = ev(a, env)?;
            let (y, ty) = ev(b, env)?;
            match (&x, &y) {
                (Val::I(v), Val::I(w)) => {
                    let (v, w) = (*v, *w);
                    let c = match *op { "==" => Some(v == w), "!=" => Some(v != w), "<" => Some(v < w), "<=" => Some(v <= w), ">" => Some(v > w), ">=" => Some(v >= w), _ => None };
                    if let Some(c) = c {
                        return Ok((Val::B(c), None));
                    }
                    let t = promote(if *op == "<<" || *op == ">>" { tx } else { mix(tx, ty) });
                    let v = fits(v, t)?;
                    if *op == "<<" || *op == ">>" {
                        let bits = t.unwrap_or(INT32).backing as i128;
                        if !(0..bits).contains(&w) {
                            return Err(Undefined);
                        }
                    } else {
                        fits(w, t)?;
                    }
                    let r = match *op {
                        "+" => v + w,
                        "-" => v - w,
                        "*" => v.checked_mul(w).ok_or(Undefined)?,
                        // truncates toward zero, as does the remainder
                        "/" => if w == 0 { return Err(Undefined) } else { v / w },
                        "%" => if w == 0 { return Err(Undefined) } else { fits(v / w, t)?; v % w },
                        "&" => v & w,
                        "|" => v | w,
                        "^" => v ^ w,
                        "<<" => v << w,
                        ">>" => v >> w,
                        _ => panic!("engine: {}", op),
                    };
                    (Val::I(fits(r, t)?), t)
                }
                (Val::F(_), _) | (_, Val::F(_)) => {
                    let f = |v: &Val| match v { Val::F(f) => *f, v => v.i() as f64 };
                    let (v, w) = (f(&x), f(&y));
                    match *op {
                        "==" => (Val::B(v == w), None),
                        "!=" => (Val::B(v != w), None),
                        "<" => (Val::B(v < w), None),
                        "<=" => (Val::B(v <= w), None),
                        ">" => (Val::B(v > w), None),
                        ">=" => (Val::B(v >= w), None),
                        "+" => (Val::F(v + w), None),
                        "-" => (Val::F(v - w), None),
                        "*" => (Val::F(v * w), None),
                        "/" => (Val::F(v / w), None),
                        _ => panic!("engine: {} on floats", op),
                    }
                }
                _ => match *op {
                    "==" => (Val::B(x == y), None),
                    "!=" => (Val::B(x != y), None),
                    _ => panic!("engine: {} on {:?} {:?}", op, x, y),
                },
            }
        }
    })
}
/// the value of a function, in its declared type
pub fn call(f: &'static Func, env: &Env) -> Ev<Val> {
    let (v, _) = ev(&f.e, env)?;
    if let (Val::I(i), Some(t)) = (&v, nt(&f.ty)) {
        // the complement of a narrow value is taken in the declared type
        if let E::Un('~', _) = &f.e {
            if !t.signed {
                return Ok(Val::I(*i & range(Some(t)).1));
            }
        }
        fits(*i, Some(t))?;
    }
    Ok(v)
}

// ---------------------------------------------------------------- valid objects
thread_local! { static BUDGET: Cell<u32> = Cell::new(0); }
pub fn skip() -> ! {
    assume(false);
    unreachable!()
}
fn spend(n: u32) {
    BUDGET.with(|b| {
        if b.get() < n {
            skip()
        }
        b.set(b.get() - n)
    })
}
pub fn or_skip<T>(r: Ev<T>) -> T {
    match r { Ok(v) => v, Err(_) => skip() }
}
pub fn width(t: &Ty, env: &Env) -> Ev<u8> {
    match &t.width {
        Some(e) => {
            let w = int(e, env)?;
            if (1..=64).contains(&w) { Ok(w as u8) } else { Err(Undefined) }
        }
        None => Ok(t.bits),
    }
}
pub fn int_range(t: &Ty, env: &Env) -> Ev<(i128, i128)> {
    Ok(match t.k {
        K::U(b) => (0, (1i128 << b) - 1),
        K::S(b) => (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1),
        K::BitU => (0, (1i128 << width(t, env)?) - 1),
        K::BitS => {
            let w = width(t, env)?;
            (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
        }
        K::VarU(m) => (0, match m { 2 => (1 << 15) - 1, 4 => (1 << 29) - 1, 8 => (1i128 << 57) - 1, _ => u64::MAX as i128 }),
        K::VarS(9) => (i64::MIN as i128, i64::MAX as i128),
        K::VarS(m) => {
            let h = match m { 2 => (1i128 << 14) - 1, 4 => (1 << 28) - 1, _ => (1 << 56) - 1 };
            (-h, h)
        }
        K::Varsize => (0, spec::VARSIZE_MAX as i128),
        _ => panic!("engine: not an integer"),
    })
}
fn draw_int(lo: i128, hi: i128) -> i128 {
    let small = below(3);
    if small != 0 {
        let v = if lo < 0 { in_range(-6, 9) as i128 } else { below(12) as i128 };
        if lo <= v && v <= hi {
            return v;
        }
    }
    if lo < 0 {
        in_range(lo as i64, hi as i64) as i128
    } else {
        in_urange(lo as u64, hi as u64) as i128
    }
}
fn draw_bytes(max: u8) -> Vec<u8> {
    let n = below(max as u16);
    spend(n as u32);
    (0..n).map(|_| any()).collect()
}
/// IEEE 754 binary16 -> binary32, from the definition
pub fn half_value(b: u16) -> f32 {
    let s = (b as u32 >> 15) << 31;
    let e = (b as u32 >> 10) & 0x1f;
    let m = b as u32 & 0x3ff;
    if e == 31 {
        return f32::from_bits(s | 0x7f80_0000 | m << 13);
    }
    if e == 0 {
        let v = m as f32 * f32::from_bits((127 - 24) << 23);
        return f32::from_bits(v.to_bits() | s);
    }
    f32::from_bits(s | (e + 112) << 23 | m << 13)
}
fn half_bits(f: f32) -> u16 {
    let b = f.to_bits();
    let s = ((b >> 16) & 0x8000) as u16;
    let a = f32::from_bits(b & 0x7fff_ffff);
    let (mut lo, mut hi) = (0u16, 0x7c01u16);
    while hi - lo > 1 {
        let m = lo + (hi - lo) / 2;
        if half_value(m) <= a { lo = m } else { hi = m }
    }
    assert!(half_value(lo) == a, "engine: not a half");
    s | lo
}
/// a single value of a type (not an array)
pub fn gen(t: &'static Ty, env: &Env, depth: u32) -> Val {
    spend(1);
    match t.k {
        K::Bool => Val::B(any()),
        K::F16 => {
            let f = half_value(any());
            assume(!f.is_nan());
            Val::F(f as f64)
        }
        K::F32 => {
            let f = f32::from_bits(any());
            assume(!f.is_nan());
            Val::F(f as f64)
        }
        K::F64 => {
            let f = f64::from_bits(any());
            assume(!f.is_nan());
            Val::F(f)
        }
        K::Str => {
            let n = below(7);
            spend(n as u32);
            let mut s = String::new();
            for _ in 0..n {
                let c = match below(8) { 0 => any::<u32>() % 0x11_0000, 1 => any::<u16>() as u32, _ => (any::<u8>() & 0x7f) as u32 };
                s.push(char::from_u32(c).unwrap_or('?'));
            }
            Val::S(s)
        }
        K::Bytes => Val::Blob(draw_bytes(8)),
        K::Ext => {
            let n = below(44) as u32;
            let mut d: Vec<u8> = (0..(n + 7) / 8).map(|_| any()).collect();
            if n % 8 != 0 {
                *d.last_mut().unwrap() &= 0xffu8 << (8 - n % 8);
            }
            Val::Ext(n, d)
        }
        K::Enum(i) => {
            let v = &decls()[i].values;
            Val::I(v[below(v.len() as u16) as usize].1)
        }
        K::Mask(i) => {
            let m: u64 = any();
            let mut r = 0;
            for (k, v) in decls()[i].values.iter().enumerate() {
                if m >> k & 1 == 1 {
                    r |= v.1
                }
            }
            Val::I(r)
        }
        K::Comp(i) => {
            let params = arguments(t, i, env);
            Val::O(Rc::new(object(i, or_skip(params), depth + 1)))
        }
        _ => {
            let (lo, hi) = or_skip(int_range(t, env));
            Val::I(draw_int(lo, hi))
        }
    }
}
/// the parameters a compound field gets
pub fn arguments(t: &'static Ty, i: usize, env: &Env) -> Ev<Vec<Val>> {
    let mut r = Vec::new();
    for (a, (_, pt)) in t.args.iter().zip(&decls()[i].params) {
        let (v, _) = ev(a, env)?;
        if let (Val::I(x), Some(n)) = (&v, nt(pt)) {
            fits(*x, Some(n))?;
        }
        r.push(v);
    }
    Ok(r)
}
pub fn is_present(f: &Field, o: &Obj) -> Ev<bool> {
    match &f.cond {
        Some(c) => truth(c, &Env { o, index: None }),
        None => Ok(true),
    }
}
fn field_value(f: &'static Field, o: &Obj, depth: u32) -> Val {
    if !or_skip(is_present(f, o)) {
        return Val::None;
    }
    if f.optional && (depth > 3 || any::<bool>()) {
        return Val::None;
    }
    let n = match &f.array {
        Arr::No => return gen(&f.ty, &Env { o, index: None }, depth),
        Arr::Auto => if depth > 4 { 0 } else { below(if depth < 2 { 6 } else { 4 }) as usize },
        Arr::Len(e) => {
            let n = or_skip(int(e, &Env { o, index: None }));
            assume((0..400).contains(&n));
            n as usize
        }
    };
    if depth == 0 && f.ty.k == K::BitU && f.ty.bits == 1 && f.ty.width.is_none() && matches!(f.array, Arr::Auto) && below(16) == 0 {
        // as many elements as a length of two bytes could not hold
        let n = 65530 + below(12) as usize;
        return Val::A((0..n).map(|i| Val::I((i % 3 == 0) as i128)).collect());
    }
    let mut r: Vec<Val> = Vec::new();
    // neighbouring elements are often related
    let like = below(3) == 0;
    for i in 0..n {
        if like && i > 0 {
            if let Some(v) = similar(&f.ty, &r[i - 1], &Env { o, index: Some(i) }) {
                spend(1);
                r.push(v);
                continue;
            }
        }
        r.push(gen(&f.ty, &Env { o, index: Some(i) }, depth));
    }
    Val::A(r)
}
fn similar(t: &'static Ty, v: &Val, env: &Env) -> Option<Val> {
    match t.k {
        K::U(_) | K::S(_) | K::BitU | K::BitS | K::VarU(_) | K::VarS(_) | K::Varsize => {
            let (lo, hi) = or_skip(int_range(t, env));
            let w = v.i() + in_range(-3, 3) as i128;
            if lo <= w && w <= hi { Some(Val::I(w)) } else { None }
        }
        // elements which do not depend on their index may repeat
        K::Comp(_) if t.args.is_empty() && below(2) == 0 => Some(v.clone()),
        _ => None,
    }
}
pub fn select(d: &'static Decl, o: &Obj) -> Ev<Option<Option<usize>>> {
    let env = Env { o, index: None };
    let (s, _) = ev(d.sel.as_ref().unwrap(), &env)?;
    for (conds, f) in &d.cases {
        for c in conds {
            if ev(c, &env)?.0 == s {
                return Ok(Some(*f));
            }
        }
    }
    Ok(d.default)
}
/// a valid object with the given parameters
pub fn object(ty: usize, params: Vec<Val>, depth: u32) -> Obj {
    let d = &decls()[ty];
    assume(depth < 9);
    let mut o = Obj { ty, params, fields: vec![], sel: NONE };
    match d.kind {
        DK::Struct => {
            for f in &d.fields {
                let v = field_value(f, &o, depth);
                o.fields.push(v);
            }
        }
        DK::Union => {
            o.sel = below(d.fields.len() as u16) as usize;
            let v = field_value(&d.fields[o.sel], &o, depth);
            o.fields = d.fields.iter().map(|_| Val::None).collect();
            let s = o.sel;
            o.fields[s] = v;
        }
        DK::Choice => {
            match or_skip(select(d, &o)) {
                None => skip(),
                Some(None) => o.fields = d.fields.iter().map(|_| Val::None).collect(),
                Some(Some(i)) => {
                    let v = field_value(&d.fields[i], &o, depth);
                    o.fields = d.fields.iter().map(|_| Val::None).collect();
                    o.fields[i] = v;
                    o.sel = i;
                }
            }
        }
        _ => panic!("engine: object of {}", d.name),
    }
    o
}
pub fn random_params(ty: usize) -> Vec<Val> {
    let e = Obj { ty, params: vec![], fields: vec![], sel: NONE };
    decls()[ty].params.iter().map(|(_, t)| gen(t, &Env { o: &e, index: None }, 1)).collect()
}
/// any valid object of a type
pub fn random(ty: usize) -> Obj {
    BUDGET.with(|b| b.set(2500));
    if matches!(decls()[ty].kind, DK::Enum | DK::Mask) {
        panic!("engine: not a compound")
    }
    let p = random_params(ty);
    object(ty, p, 0)
}
pub fn reset_budget() {
    BUDGET.with(|b| b.set(2500));
}

// ---------------------------------------------------------------- layout
fn align(w: &mut BitWriter, n: u32) {
    while w.bit_count() % n as u64 != 0 {
        put(w, 0, 1);
    }
}
fn int_bits(t: &'static Ty, v: i128, env: &Env) -> u64 {
    match t.k {
        K::U(b) | K::S(b) => b as u64,
        K::BitU | K::BitS => or_skip(width(t, env)) as u64,
        K::VarU(m) => spec::varuint_len(v as u64, m).unwrap() as u64 * 8,
        K::VarS(m) => spec::varint_len(v as i64, m).unwrap() as u64 * 8,
        K::Varsize => spec::varuint_len(v as u64, 5).unwrap() as u64 * 8,
        _ => panic!("engine: not an integer"),
    }
}
fn mask(v: i128, n: u8) -> u64 {
    if n == 64 { v as u64 } else { v as u64 & ((1u64 << n) - 1) }
}
fn put_int(w: &mut BitWriter, t: &'static Ty, v: i128, env: &Env) {
    match t.k {
        K::U(b) | K::S(b) => put(w, mask(v, b), b),
        K::BitU | K::BitS => {
            let n = or_skip(width(t, env));
            put(w, mask(v, n), n)
        }
        K::VarU(m) => spec::varuint(w, v as u64, m),
        K::VarS(m) => spec::varint(w, v as i64, m),
        K::Varsize => spec::varsize(w, v as u64),
        _ => panic!("engine: not an integer"),
    }
}
fn is_int(t: &Ty) -> bool {
    matches!(t.k, K::U(_) | K::S(_) | K::BitU | K::BitS | K::VarU(_) | K::VarS(_) | K::Varsize)
}
/// one value outside of packed arrays
fn put_value(w: &mut BitWriter, t: &'static Ty, v: &Val, env: &Env) {
    match t.k {
        K::Bool => put(w, v.b() as u64, 1),
        K::F16 => put(w, half_bits(v.f() as f32) as u64, 16),
        K::F32 => put(w, (v.f() as f32).to_bits() as u64, 32),
        K::F64 => put(w, v.f().to_bits(), 64),
        K::Str => {
            let s = v.s();
            spec::varsize(w, s.len() as u64);
            s.bytes().for_each(|b| put(w, b as u64, 8));
        }
        K::Bytes => {
            let Val::Blob(b) = v else { panic!("engine: bytes") };
            spec::varsize(w, b.len() as u64);
            b.iter().for_each(|b| put(w, *b as u64, 8));
        }
        K::Ext => {
            let Val::Ext(n, b) = v else { panic!("engine: extern") };
            spec::varsize(w, *n as u64);
            let mut left = *n;
            for x in b {
                let k = left.min(8) as u8;
                put(w, (*x >> (8 - k)) as u64, k);
                left -= k as u32;
            }
        }
        K::Enum(i) | K::Mask(i) => put_int(w, decls()[i].base.as_ref().unwrap(), v.i(), env),
        K::Comp(_) => put_object(w, v.o(), None),
        _ => put_int(w, t, v.i(), env),
    }
}

/// the packing state of one integer of the elements of a packed array
#[derive(Default)]
struct Ctx {
    n: u64,
    prev: i128,
    first: u64,
    plain: u64,
    max: u32,
    started: bool,
    packed: bool,
}
const DELTA_LIMIT: u32 = 62;
impl Ctx {
    fn collect(&mut self, bits: u64, v: i128) {
        if self.n == 0 {
            self.first = bits;
        } else {
            self.max = self.max.max(spec::bitlen((v - self.prev).unsigned_abs()));
        }
        self.prev = v;
        self.n += 1;
        self.plain += bits;
    }
    fn put(&mut self, w: &mut BitWriter, t: &'static Ty, v: i128, env: &Env) {
        if !self.started {
            self.started = true;
            let delta = if self.max > 0 { self.max as u64 + 1 } else { 0 };
            self.packed = self.n > 1 && self.max <= DELTA_LIMIT && 1 + 6 + self.first + (self.n - 1) * delta < 1 + self.plain;
            put(w, self.packed as u64, 1);
            if self.packed {
                put(w, self.max as u64, 6);
            }
            put_int(w, t, v, env);
        } else if !self.packed {
            put_int(w, t, v, env);
        } else if self.max > 0 {
            let n = self.max as u8 + 1;
            put(w, mask(v - self.prev, n), n);
        }
        self.prev = v;
    }
}
#[derive(Default)]
pub struct Node {
    ctx: Ctx,
    sub: HashMap<usize, Node>,
}
impl Node {
    fn at(&mut self, i: usize) -> &mut Node {
        self.sub.entry(i).or_default()
    }
}
/// one element of a packed array (or a part of one)
fn packed_value(w: Option<&mut BitWriter>, t: &'static Ty, v: &Val, env: &Env, node: &mut Node) {
    let (t, v, node) = match t.k {
        K::Enum(i) | K::Mask(i) => (decls()[i].base.as_ref().unwrap(), v, node.at(0)),
        _ => (t, v, node),
    };
    if is_int(t) {
        match w {
            Some(w) => node.ctx.put(w, t, v.i(), env),
            None => node.ctx.collect(int_bits(t, v.i(), env), v.i()),
        }
    } else if let K::Comp(_) = t.k {
        match w {
            Some(w) => put_object(w, v.o(), Some(node)),
            None => scan_object(v.o(), node),
        }
    } else if let Some(w) = w {
        put_value(w, t, v, env)
    }
}
fn scan_object(o: &Obj, node: &mut Node) {
    let d = &decls()[o.ty];
    let varsize = union_tag();
    if d.kind == DK::Union {
        packed_value(None, varsize, &Val::I(o.sel as i128), &Env { o, index: None }, node.at(0));
    }
    for (i, f) in d.fields.iter().enumerate() {
        // nested arrays have packing contexts of their own
        if let (Arr::No, Some(v)) = (&f.array, o.fields.get(i)) {
            if !v.is_none() && !f.is_offset {
                packed_value(None, &f.ty, v, &Env { o, index: None }, node.at(i + 1));
            }
        }
    }
}
fn union_tag() -> &'static Ty {
    thread_local! { static T: &'static Ty = Box::leak(Box::new(Ty { k: K::Varsize, bits: 0, width: None, args: vec![] })); }
    T.with(|t| *t)
}
pub fn put_object(w: &mut BitWriter, o: &Obj, mut node: Option<&mut Node>) {
    let d = &decls()[o.ty];
    let env = Env { o, index: None };
    if d.kind == DK::Union {
        let tag = Val::I(o.sel as i128);
        match &mut node {
            Some(n) => packed_value(Some(w), union_tag(), &tag, &env, n.at(0)),
            None => put_value(w, union_tag(), &tag, &env),
        }
    }
    for (i, f) in d.fields.iter().enumerate() {
        let v = match o.fields.get(i) { Some(v) => v, None => &Val::None };
        if v.is_none() {
            // an absent optional field still has its alignment and its presence bit
            if d.kind == DK::Struct && f.optional && i < o.fields.len() && or_skip(is_present(f, o)) {
                if f.align > 0 {
                    align(w, f.align);
                }
                if f.offset {
                    align(w, 8);
                }
                put(w, 0, 1);
            }
            continue;
        }
        if f.align > 0 {
            align(w, f.align);
        }
        if f.offset {
            align(w, 8);
        }
        if f.optional {
            put(w, 1, 1);
        }
        match &f.array {
            Arr::No => match &mut node {
                Some(n) if !f.is_offset => packed_value(Some(w), &f.ty, v, &env, n.at(i + 1)),
                _ => put_value(w, &f.ty, v, &env),
            },
            _ => {
                let a = v.a();
                if let Arr::Auto = f.array {
                    spec::varsize(w, a.len() as u64);
                }
                let packable = is_int(&f.ty) || matches!(f.ty.k, K::Enum(_) | K::Mask(_) | K::Comp(_));
                if packable && !f.is_offset && (f.packed || node.is_some()) {
                    let mut fresh = Node::default();
                    for (i, x) in a.iter().enumerate() {
                        packed_value(None, &f.ty, x, &Env { o, index: Some(i) }, &mut fresh);
                    }
                    for (i, x) in a.iter().enumerate() {
                        if f.indexed {
                            align(w, 8);
                        }
                        packed_value(Some(w), &f.ty, x, &Env { o, index: Some(i) }, &mut fresh);
                    }
                } else {
                    for (i, x) in a.iter().enumerate() {
                        if f.indexed {
                            align(w, 8);
                        }
                        put_value(w, &f.ty, x, &Env { o, index: Some(i) });
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- undefined discriminators
/// the places of an object which hold an enum value or a union tag, in order of encoding;
/// `k`: the place to make undefined.  Everything behind it is dropped from the object.
pub struct Poison {
    pub k: usize,
    pub seen: usize,
    pub done: bool,
}
fn bad_enum(i: usize) -> i128 {
    let d = &decls()[i];
    let e = Obj { ty: i, params: vec![], fields: vec![], sel: NONE };
    let (lo, hi) = or_skip(int_range(d.base.as_ref().unwrap(), &Env { o: &e, index: None }));
    let v = draw_int(lo, hi);
    assume(d.values.iter().all(|x| x.1 != v));
    v
}
fn poison_value(t: &Ty, v: &Val, p: &mut Poison) -> Val {
    match t.k {
        K::Enum(i) => {
            p.seen += 1;
            if p.seen == p.k {
                p.done = true;
                return Val::I(bad_enum(i));
            }
            v.clone()
        }
        K::Comp(_) => Val::O(Rc::new(poison(v.o(), p))),
        _ => v.clone(),
    }
}
pub fn poison(o: &Obj, p: &mut Poison) -> Obj {
    let d = &decls()[o.ty];
    let mut r = Obj { ty: o.ty, params: o.params.clone(), fields: vec![], sel: o.sel };
    if d.kind == DK::Union {
        p.seen += 1;
        if p.seen == p.k {
            p.done = true;
            r.sel = d.fields.len() + match below(4) { 0 => below(200) as usize, 1 => 1 << (7 + below(20)), _ => below(3) as usize };
            return r;
        }
    }
    for (f, v) in d.fields.iter().zip(&o.fields) {
        if p.done {
            break;
        }
        let n = match (&f.array, v) {
            (_, Val::None) => Val::None,
            (Arr::No, v) => poison_value(&f.ty, v, p),
            (_, Val::A(a)) => Val::A(a.iter().map(|x| if p.done { x.clone() } else { poison_value(&f.ty, x, p) }).collect()),
            _ => unreachable!(),
        };
        r.fields.push(n);
    }
    r
}
