//! The contracts of generated types, as executable checks.
use crate::engine::*;
use crate::shim::{any, assume, below, ok, reachable};
use crate::spec::put;
use bitreader::BitReader;
use rust_bitwriter::BitWriter;
use zserio::ZserioPackableObject;

pub trait Gen: ZserioPackableObject + Clone + PartialEq + core::fmt::Debug {
    const ID: usize;
    /// an object with the given parameters and nothing else set
    fn blank(params: &[Val]) -> Self;
    fn from_obj(o: &Obj) -> Self;
    fn call(&self, _f: usize) -> Val {
        Val::None
    }
}
fn bytes(mut w: BitWriter) -> (Vec<u8>, u64) {
    let n = w.bit_count();
    w.close().unwrap();
    (w.data().clone(), n)
}
fn prefix(w: &mut BitWriter, n: u64) {
    for _ in 0..n {
        put(w, 1, 1);
    }
}
macro_rules! check {
    ($c:expr, $($m:tt)*) => { if !($c) { panic!($($m)*) } };
}
fn show(o: &Obj) -> String {
    let s = format!("{:?}", o);
    if s.len() > 900 { s.chars().take(900).collect() } else { s }
}
/// written without error, read back equal with the same parameters, all bits consumed
pub fn roundtrip<T: Gen>() {
    let o = random(T::ID);
    let v = T::from_obj(&o);
    let p = below(8) as u64;
    let mut w = BitWriter::new();
    prefix(&mut w, p);
    reachable(true);
    if let Err(e) = v.zserio_write(&mut w) {
        panic!("a valid object is written without error: {} {}", e, show(&o))
    }
    let (b, n) = bytes(w);
    let mut r = BitReader::new(&b);
    r.skip(p).unwrap();
    let mut x = T::blank(&o.params);
    if let Err(e) = x.zserio_read(&mut r) {
        panic!("a written object is read without error: {} {}", e, show(&o))
    }
    if x != v {
        let (a, b) = (format!("{:?}", v), format!("{:?}", x));
        let k = a.bytes().zip(b.bytes()).position(|(p, q)| p != q).unwrap_or(a.len().min(b.len()));
        let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[k.saturating_sub(150)..(k + 150).min(s.len())]).to_string();
        panic!("the object read equals the object written; written ..{}.. read ..{}.. : {}", cut(&a), cut(&b), show(&o));
    }
    check!(r.position() == n, "exactly the bits written are read: {} of {} {}", r.position(), n, show(&o));
}
/// the predicted size is the number of bits written, at every position
pub fn bitsize<T: Gen>() {
    let o = random(T::ID);
    let v = T::from_obj(&o);
    let p = below(70) as u64;
    let mut w = BitWriter::new();
    prefix(&mut w, p);
    let mut e = BitWriter::new();
    prefix(&mut e, p);
    put_object(&mut e, &o, None);
    if v.zserio_write(&mut w).is_err() {
        return;
    }
    reachable(true);
    match v.zserio_bitsize(p) {
        Ok(n) => {
            check!(n == w.bit_count() - p, "predicted {} bits, {} bits written at position {}: {}", n, w.bit_count() - p, p, show(&o));
            check!(n == e.bit_count() - p, "predicted {} bits, the format needs {} bits at position {}: {}", n, e.bit_count() - p, p, show(&o));
        }
        Err(e) => panic!("the size of a valid object is predicted: {} {}", e, show(&o)),
    }
}
/// the bits written are those the format prescribes
pub fn layout<T: Gen>() {
    let o = random(T::ID);
    layout_of::<T>(&o);
}
fn layout_of<T: Gen>(o: &Obj) {
    let v = T::from_obj(o);
    let p = below(9) as u64;
    let mut w = BitWriter::new();
    prefix(&mut w, p);
    let mut e = BitWriter::new();
    prefix(&mut e, p);
    put_object(&mut e, o, None);
    reachable(true);
    if v.zserio_write(&mut w).is_err() {
        panic!("a valid object is written without error: {}", show(o));
    }
    let (a, n) = bytes(w);
    let (b, m) = bytes(e);
    let at = (0..n.min(m)).find(|i| (a[(i / 8) as usize] ^ b[(i / 8) as usize]) >> (7 - i % 8) & 1 == 1).unwrap_or(n.min(m));
    check!(n == m && a == b, "the layout is the prescribed one (from bit {} on, {} bits for {}): {}", at, n, m, show(o));
}
/// as `roundtrip` and `bitsize`, for types which hold packed arrays
pub fn packed<T: Gen>() {
    match below(2) { 0 => roundtrip::<T>(), _ => bitsize::<T>() }
}
/// arbitrary input never panics
pub fn arbitrary<T: Gen>() {
    reset_budget();
    let p = random_params(T::ID);
    let n = if below(4) == 0 { below(200) as usize } else { below(40) as usize };
    // small values reach deeper than uniformly random bytes
    let style = below(4);
    let mut b: Vec<u8> = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        let x: u64 = any();
        for k in 0..8 {
            let v = (x >> (8 * k)) as u8;
            b.push(match style { 0 => v, 1 => v & 3, 2 => if v & 0xf0 == 0 { v } else { v >> 5 }, _ => if v & 0xc0 == 0 { 0xff } else { v & 7 } });
        }
        i += 8;
    }
    b.truncate(n);
    reachable(true);
    let mut x = T::blank(&p);
    let _ = ok(x.zserio_read(&mut BitReader::new(&b)));
}
/// neither do damaged encodings; cut ones are errors
pub fn damaged<T: Gen>() {
    let o = random(T::ID);
    let mut w = BitWriter::new();
    put_object(&mut w, &o, None);
    let (mut b, n) = bytes(w);
    assume(n > 0);
    reachable(true);
    if below(3) == 0 {
        let cut = any::<u64>() % ((n + 7) / 8);
        b.truncate(cut as usize);
        let mut x = T::blank(&o.params);
        check!(!ok(x.zserio_read(&mut BitReader::new(&b))), "an encoding cut to {} bytes is an error: {}", cut, show(&o));
        return;
    }
    for _ in 0..1 + below(3) {
        let i = any::<u64>() % n;
        b[(i / 8) as usize] ^= 0x80 >> (i % 8);
    }
    let mut x = T::blank(&o.params);
    let _ = ok(x.zserio_read(&mut BitReader::new(&b)));
}
/// enum values and union tags the schema does not define are errors
pub fn undefined<T: Gen>() {
    let o = random(T::ID);
    let mut count = Poison { k: 0, seen: 0, done: false };
    poison(&o, &mut count);
    assume(count.seen > 0);
    let mut p = Poison { k: 1 + (any::<u16>() as usize % count.seen), seen: 0, done: false };
    let bad = poison(&o, &mut p);
    let mut w = BitWriter::new();
    put_object(&mut w, &bad, None);
    let (mut b, _) = bytes(w);
    b.extend_from_slice(&[0; 16]);
    reachable(true);
    let mut x = T::blank(&o.params);
    check!(!ok(x.zserio_read(&mut BitReader::new(&b))), "an undefined enum value or union tag is an error: {}", show(&bad));
}
/// a choice without a case for the selector is an error
pub fn unmatched<T: Gen>() {
    reset_budget();
    let d = &decls()[T::ID];
    let o = Obj { ty: T::ID, params: random_params(T::ID), fields: vec![], sel: NONE };
    assume(matches!(select(d, &o), Ok(None)));
    reachable(true);
    let b: Vec<u8> = (0..8).map(|_| any()).collect();
    let mut x = T::blank(&o.params);
    check!(!ok(x.zserio_read(&mut BitReader::new(&b))), "a selector without a case is an error: {}", show(&o));
}
/// functions give the value of their expression
pub fn functions<T: Gen>() {
    let o = random(T::ID);
    let v = T::from_obj(&o);
    let d = &decls()[T::ID];
    let env = Env { o: &o, index: None };
    for (i, f) in d.funcs.iter().enumerate() {
        if let Ok(want) = call(f, &env) {
            reachable(true);
            let got = v.call(i);
            check!(got == want, "function {} of {} gives {:?}, its expression {:?}: {}", f.name, d.name, got, want, show(&o));
        }
    }
}
/// the generated items are those of the schema; no other value is an item
pub fn enumeration<T: Gen0>(ty: usize, got: &[i128], item: fn(i64) -> Option<i128>) {
    let d = &decls()[ty];
    reachable(true);
    for (g, (n, v)) in got.iter().zip(&d.values) {
        check!(g == v, "item {} of {} has the value {}, not {}", n, d.name, v, g);
        check!(item(*v as i64) == Some(*v), "{} is an item of {}", v, d.name);
    }
    let v = match below(3) { 0 => any::<i8>() as i64, 1 => any(), _ => d.values[below(d.values.len() as u16) as usize].1 as i64 ^ (1i64 << below(64)) };
    let is = d.values.iter().any(|x| x.1 == v as i128);
    check!(item(v) == if is { Some(v as i128) } else { None }, "{} is {}an item of {}", v, if is { "" } else { "not " }, d.name);
}
pub trait Gen0 {}
impl<T> Gen0 for T {}
pub fn mask(ty: usize, got: &[i128]) {
    let d = &decls()[ty];
    reachable(true);
    for (g, (n, v)) in got.iter().zip(&d.values) {
        check!(g == v, "value {} of {} is {}, not {}", n, d.name, v, g);
    }
}
/// many levels of nested elements
pub fn deep<T: Gen>() {
    let mut w = BitWriter::new();
    for _ in 0..2_000_000 {
        put(&mut w, 1, 8);
        put(&mut w, 1, 2);
    }
    let (b, _) = bytes(w);
    reachable(true);
    let mut x = T::blank(&[]);
    let _ = ok(x.zserio_read(&mut BitReader::new(&b)));
}
