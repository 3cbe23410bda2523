//! Element kinds: the array traits of the runtime, each with its own value
//! generator, independent reference encoding and size.
use crate::shim::*;
use crate::spec;
use rust_bitwriter::BitWriter;
use zserio::ztype::array_traits::array_trait::ArrayTrait;
use zserio::ztype::array_traits::*;
use zserio::ztype::{BytesType, ExternType};

pub trait Kind {
    type T: Default + Clone;
    const PACKABLE: bool;
    fn at(&self) -> Box<dyn ArrayTrait<Self::T>>;
    fn val(&self) -> Self::T;
    fn eq(&self, a: &Self::T, b: &Self::T) -> bool;
    fn enc(&self, w: &mut BitWriter, v: &Self::T);
    fn size(&self, v: &Self::T) -> u64;
    /// is the value one of the type (only asked for packable kinds)
    fn valid(&self, _v: &Self::T) -> bool {
        true
    }
    /// mathematical value, for delta packing
    fn num(&self, _v: &Self::T) -> i128 {
        0
    }
}
pub struct UBits<T>(pub u8, pub core::marker::PhantomData<T>);
pub struct SBits<T>(pub u8, pub core::marker::PhantomData<T>);
pub fn ubits<T>(n: u8) -> UBits<T> {
    UBits(n, core::marker::PhantomData)
}
pub fn sbits<T>(n: u8) -> SBits<T> {
    SBits(n, core::marker::PhantomData)
}
macro_rules! ub { ($($t:ty),*) => { $(
impl Kind for UBits<$t> {
    type T = $t;
    const PACKABLE: bool = true;
    fn at(&self) -> Box<dyn ArrayTrait<$t>> { Box::new(UnsignedBitFieldArrayTrait { num_bits: self.0 }) }
    fn val(&self) -> $t {
        let v: $t = any();
        let s = <$t>::BITS - self.0 as u32;
        (v << s) >> s
    }
    fn valid(&self, v: &$t) -> bool {
        let s = <$t>::BITS - self.0 as u32;
        (*v << s) >> s == *v
    }
    fn eq(&self, a: &$t, b: &$t) -> bool { a == b }
    fn enc(&self, w: &mut BitWriter, v: &$t) { spec::put(w, *v as u64, self.0) }
    fn size(&self, _: &$t) -> u64 { self.0 as u64 }
    fn num(&self, v: &$t) -> i128 { *v as i128 }
})* } }
ub!(u8, u16, u32, u64);
macro_rules! sb { ($($t:ty),*) => { $(
impl Kind for SBits<$t> {
    type T = $t;
    const PACKABLE: bool = true;
    fn at(&self) -> Box<dyn ArrayTrait<$t>> { Box::new(BitFieldArrayTrait { num_bits: self.0 }) }
    fn val(&self) -> $t {
        let v: $t = any();
        let s = <$t>::BITS - self.0 as u32;
        (v << s) >> s
    }
    fn valid(&self, v: &$t) -> bool {
        let s = <$t>::BITS - self.0 as u32;
        (*v << s) >> s == *v
    }
    fn eq(&self, a: &$t, b: &$t) -> bool { a == b }
    fn enc(&self, w: &mut BitWriter, v: &$t) {
        let m = if self.0 == 64 { u64::MAX } else { (1u64 << self.0) - 1 };
        spec::put(w, (*v as i64 as u64) & m, self.0)
    }
    fn size(&self, _: &$t) -> u64 { self.0 as u64 }
    fn num(&self, v: &$t) -> i128 { *v as i128 }
})* } }
sb!(i8, i16, i32, i64);

macro_rules! vark { ($($k:ident, $tr:ident, $t:ty, $lo:expr, $hi:expr, $max:expr, $f:ident, $l:ident, $w:ty, $r:ident);* $(;)?) => { $(
pub struct $k;
impl Kind for $k {
    type T = $t;
    const PACKABLE: bool = true;
    fn at(&self) -> Box<dyn ArrayTrait<$t>> { Box::new($tr {}) }
    fn val(&self) -> $t { $r($lo, $hi) as $t }
    fn valid(&self, v: &$t) -> bool { *v as i128 >= $lo as i128 && *v as i128 <= $hi as i128 }
    fn eq(&self, a: &$t, b: &$t) -> bool { a == b }
    fn enc(&self, w: &mut BitWriter, v: &$t) { spec::$f(w, *v as $w, $max) }
    fn size(&self, v: &$t) -> u64 { spec::$l(*v as $w, $max).unwrap() as u64 * 8 }
    fn num(&self, v: &$t) -> i128 { *v as i128 }
})* } }
vark! {
    VarInt16K, VarInt16ArrayTrait, i16, -16383, 16383, 2, varint, varint_len, i64, in_range;
    VarInt32K, VarInt32ArrayTrait, i32, -268435455, 268435455, 4, varint, varint_len, i64, in_range;
    VarInt64K, VarInt64ArrayTrait, i64, -((1i64 << 56) - 1), (1i64 << 56) - 1, 8, varint, varint_len, i64, in_range;
    VarIntK, VarIntArrayTrait, i64, i64::MIN, i64::MAX, 9, varint, varint_len, i64, in_range;
    VarUInt16K, VarUint16ArrayTrait, u16, 0, 32767, 2, varuint, varuint_len, u64, in_urange;
    VarUInt32K, VarUint32ArrayTrait, u32, 0, 536870911, 4, varuint, varuint_len, u64, in_urange;
    VarUInt64K, VarUint64ArrayTrait, u64, 0, (1u64 << 57) - 1, 8, varuint, varuint_len, u64, in_urange;
    VarUIntK, VarUintArrayTrait, u64, 0, u64::MAX, 9, varuint, varuint_len, u64, in_urange;
    VarSizeK, VarSizeArrayTrait, u32, 0, 2147483647, 5, varuint, varuint_len, u64, in_urange;
}
pub struct BoolK;
impl Kind for BoolK {
    type T = bool;
    const PACKABLE: bool = false;
    fn at(&self) -> Box<dyn ArrayTrait<bool>> {
        Box::new(BooleanArrayTrait {})
    }
    fn val(&self) -> bool {
        any()
    }
    fn eq(&self, a: &bool, b: &bool) -> bool {
        a == b
    }
    fn enc(&self, w: &mut BitWriter, v: &bool) {
        spec::put(w, *v as u64, 1)
    }
    fn size(&self, _: &bool) -> u64 {
        1
    }
}
pub struct F64K;
impl Kind for F64K {
    type T = f64;
    const PACKABLE: bool = false;
    fn at(&self) -> Box<dyn ArrayTrait<f64>> {
        Box::new(Float64ArrayTrait {})
    }
    fn val(&self) -> f64 {
        f64::from_bits(any())
    }
    fn eq(&self, a: &f64, b: &f64) -> bool {
        a.to_bits() == b.to_bits()
    }
    fn enc(&self, w: &mut BitWriter, v: &f64) {
        spec::put(w, v.to_bits(), 64)
    }
    fn size(&self, _: &f64) -> u64 {
        64
    }
}
pub struct F32K;
impl Kind for F32K {
    type T = f32;
    const PACKABLE: bool = false;
    fn at(&self) -> Box<dyn ArrayTrait<f32>> {
        Box::new(Float32ArrayTrait {})
    }
    fn val(&self) -> f32 {
        f32::from_bits(any())
    }
    fn eq(&self, a: &f32, b: &f32) -> bool {
        a.to_bits() == b.to_bits()
    }
    fn enc(&self, w: &mut BitWriter, v: &f32) {
        spec::put(w, v.to_bits() as u64, 32)
    }
    fn size(&self, _: &f32) -> u64 {
        32
    }
}
/// strings of at most `0` bytes (ASCII or 2-byte characters)
pub struct StrK(pub u8);
impl Kind for StrK {
    type T = String;
    const PACKABLE: bool = false;
    fn at(&self) -> Box<dyn ArrayTrait<String>> {
        Box::new(StringArrayTrait {})
    }
    fn val(&self) -> String {
        let mut s = String::with_capacity(8);
        for _ in 0..self.0 {
            let c: u8 = any();
            assume(c < 128);
            s.push(c as char);
        }
        s
    }
    fn eq(&self, a: &String, b: &String) -> bool {
        a.as_bytes() == b.as_bytes()
    }
    fn enc(&self, w: &mut BitWriter, v: &String) {
        spec::varsize(w, v.len() as u64);
        for b in v.as_bytes() {
            spec::put(w, *b as u64, 8);
        }
    }
    fn size(&self, v: &String) -> u64 {
        spec::varuint_len(v.len() as u64, 5).unwrap() as u64 * 8 + 8 * v.len() as u64
    }
}
pub struct BytesK(pub u8);
impl Kind for BytesK {
    type T = BytesType;
    const PACKABLE: bool = false;
    fn at(&self) -> Box<dyn ArrayTrait<BytesType>> {
        Box::new(ByteBufferArrayTrait {})
    }
    fn val(&self) -> BytesType {
        let mut d = Vec::with_capacity(8);
        for _ in 0..self.0 {
            d.push(any());
        }
        BytesType { byte_size: self.0 as u32, data_blob: d }
    }
    fn eq(&self, a: &BytesType, b: &BytesType) -> bool {
        a.byte_size == b.byte_size && a.data_blob == b.data_blob
    }
    fn enc(&self, w: &mut BitWriter, v: &BytesType) {
        spec::varsize(w, v.byte_size as u64);
        for b in v.data_blob.iter() {
            spec::put(w, *b as u64, 8);
        }
    }
    fn size(&self, v: &BytesType) -> u64 {
        spec::varuint_len(v.byte_size as u64, 5).unwrap() as u64 * 8 + 8 * v.byte_size as u64
    }
}
/// extern values of exactly `0` bits
pub struct ExternK(pub u32);
impl Kind for ExternK {
    type T = ExternType;
    const PACKABLE: bool = false;
    fn at(&self) -> Box<dyn ArrayTrait<ExternType>> {
        Box::new(BitBufferArrayTrait {})
    }
    fn val(&self) -> ExternType {
        let n = (self.0 as usize + 7) / 8;
        let mut d: Vec<u8> = Vec::with_capacity(8);
        for _ in 0..n {
            d.push(any());
        }
        if self.0 % 8 != 0 {
            let m = 0xffu8 << (8 - self.0 % 8);
            d[n - 1] &= m;
        }
        ExternType { bit_size: self.0, data_blob: d }
    }
    fn eq(&self, a: &ExternType, b: &ExternType) -> bool {
        a.bit_size == b.bit_size && a.data_blob == b.data_blob
    }
    fn enc(&self, w: &mut BitWriter, v: &ExternType) {
        spec::varsize(w, v.bit_size as u64);
        let mut left = v.bit_size;
        for b in v.data_blob.iter() {
            let k = if left < 8 { left as u8 } else { 8 };
            spec::put(w, (*b >> (8 - k)) as u64, k);
            left -= k as u32;
        }
    }
    fn size(&self, v: &ExternType) -> u64 {
        spec::varuint_len(v.bit_size as u64, 5).unwrap() as u64 * 8 + v.bit_size as u64
    }
}

/// one two-byte character
pub struct Str2K;
impl Kind for Str2K {
    type T = String;
    const PACKABLE: bool = false;
    fn at(&self) -> Box<dyn ArrayTrait<String>> {
        Box::new(StringArrayTrait {})
    }
    fn val(&self) -> String {
        let c: u16 = any();
        assume(c >= 0x80 && c < 0x800);
        let mut s = String::with_capacity(8);
        s.push(char::from_u32(c as u32).unwrap());
        s
    }
    fn eq(&self, a: &String, b: &String) -> bool {
        a.as_bytes() == b.as_bytes()
    }
    fn enc(&self, w: &mut BitWriter, v: &String) {
        StrK(0).enc(w, v)
    }
    fn size(&self, v: &String) -> u64 {
        StrK(0).size(v)
    }
}

pub fn is_packable<K: Kind>(_: &K) -> bool {
    K::PACKABLE
}
pub fn elem_size<K: Kind>(_: &K) -> usize {
    core::mem::size_of::<K::T>()
}
// ---------------------------------------------------------------- native-only kinds: long values
macro_rules! wrap { ($n:ident, $b:expr, $t:ty, $v:block) => {
    pub struct $n;
    impl Kind for $n {
        type T = $t;
        const PACKABLE: bool = false;
        fn at(&self) -> Box<dyn ArrayTrait<$t>> { $b.at() }
        fn val(&self) -> $t $v
        fn eq(&self, a: &$t, b: &$t) -> bool { $b.eq(a, b) }
        fn enc(&self, w: &mut BitWriter, v: &$t) { $b.enc(w, v) }
        fn size(&self, v: &$t) -> u64 { $b.size(v) }
    }
} }
#[cfg(not(kani))]
fn len() -> usize {
    match below(8) {
        0 => 126 + below(4) as usize,
        1 => 252 + below(6) as usize,
        2 => below(200) as usize,
        _ => below(10) as usize,
    }
}
#[cfg(not(kani))]
wrap!(StrN, StrK(0), String, {
    let n = len();
    let mut s = String::new();
    while s.len() < n {
        let c: u32 = any();
        s.push(match below(4) {
            0 => char::from_u32(c % 0x11_0000).unwrap_or('x'),
            1 => char::from_u32(0x80 + c % 0x780).unwrap(),
            2 => char::from_u32(0x800 + c % 0x5000).unwrap(),
            _ => (c % 128) as u8 as char,
        });
    }
    s
});
#[cfg(not(kani))]
wrap!(BytesN, BytesK(0), BytesType, {
    let d: Vec<u8> = (0..len()).map(|_| any()).collect();
    BytesType { byte_size: d.len() as u32, data_blob: d }
});
#[cfg(not(kani))]
wrap!(ExternN, ExternK(0), ExternType, {
    let d: Vec<u8> = (0..len()).map(|_| any()).collect();
    let bits = (d.len() * 8) as u32;
    let cut = if bits == 0 { 0 } else { below(8) as u32 };
    let mut d = d;
    if cut != 0 {
        *d.last_mut().unwrap() &= 0xff << cut;
    }
    ExternType { bit_size: bits - cut, data_blob: d }
});
#[cfg(not(kani))]
pub struct F16K;
#[cfg(not(kani))]
impl Kind for F16K {
    type T = f32;
    const PACKABLE: bool = false;
    fn at(&self) -> Box<dyn ArrayTrait<f32>> {
        Box::new(Float16ArrayTrait {})
    }
    fn val(&self) -> f32 {
        // exactly representable: (1 + m/1024) * 2^e, subnormals and zero
        let b: u16 = any();
        assume(b & 0x7c00 != 0x7c00);
        let m = (b & 0x3ff) as f32;
        let e = (b >> 10 & 0x1f) as i32;
        let a = if e == 0 { m * 2f32.powi(-24) } else { (1.0 + m / 1024.0) * 2f32.powi(e - 15) };
        if b >> 15 == 1 { -a } else { a }
    }
    fn eq(&self, a: &f32, b: &f32) -> bool {
        a.to_bits() == b.to_bits()
    }
    fn enc(&self, w: &mut BitWriter, v: &f32) {
        let s = (v.to_bits() >> 31) as u64;
        let a = v.abs();
        let h = if a < 2f32.powi(-14) { (a * 2f32.powi(24)) as u64 } else {
            let e = (a.to_bits() >> 23) as i32 - 127;
            (((e + 15) as u64) << 10) | ((a / 2f32.powi(e) - 1.0) * 1024.0) as u64
        };
        spec::put(w, s << 15 | h, 16)
    }
    fn size(&self, _: &f32) -> u64 {
        16
    }
}
/// sequences that move in small steps, so that delta packing pays off
#[cfg(not(kani))]
pub struct Walk<K: Kind> {
    k: K,
    mode: u8,
    last: std::cell::RefCell<Option<K::T>>,
}
#[cfg(not(kani))]
impl<K: Kind> Walk<K> {
    pub fn new(k: K) -> Self {
        Walk { k, mode: below(8), last: std::cell::RefCell::new(None) }
    }
}
#[cfg(not(kani))]
impl<K: Kind> Kind for Walk<K> {
    type T = K::T;
    const PACKABLE: bool = K::PACKABLE;
    fn at(&self) -> Box<dyn ArrayTrait<K::T>> {
        self.k.at()
    }
    fn val(&self) -> K::T {
        let mut last = self.last.borrow_mut();
        let v = match (&*last, self.mode) {
            (None, _) | (_, 0) => self.k.val(),
            (Some(p), 1) => p.clone(),
            (Some(p), m) => {
                if below(16) == 0 && m > 5 {
                    self.k.val()
                } else {
                    let t = self.k.at();
                    let r: i64 = any();
                    let d = r >> (62u32.saturating_sub(any::<u8>() as u32 % (m as u32 * 8)));
                    let c = t.from_u64(t.to_u64(p).wrapping_add(d as u64));
                    // stay inside the type: only values whose reference encoding reads back
                    if self.k.valid(&c) { c } else { p.clone() }
                }
            }
        };
        *last = Some(v.clone());
        v
    }
    fn valid(&self, v: &K::T) -> bool {
        self.k.valid(v)
    }
    fn eq(&self, a: &K::T, b: &K::T) -> bool {
        self.k.eq(a, b)
    }
    fn enc(&self, w: &mut BitWriter, v: &K::T) {
        self.k.enc(w, v)
    }
    fn size(&self, v: &K::T) -> u64 {
        self.k.size(v)
    }
    fn num(&self, v: &K::T) -> i128 {
        self.k.num(v)
    }
}
#[macro_export]
macro_rules! each_packable {
    ($k:ident, $b:block) => {
        match below(17) {
            0 => { let $k = ubits::<u8>(1 + below(8)); $b }
            1 => { let $k = ubits::<u16>(1 + below(16)); $b }
            2 => { let $k = ubits::<u32>(1 + below(32)); $b }
            3 => { let $k = ubits::<u64>(1 + below(64)); $b }
            4 => { let $k = sbits::<i8>(1 + below(8)); $b }
            5 => { let $k = sbits::<i16>(1 + below(16)); $b }
            6 => { let $k = sbits::<i32>(1 + below(32)); $b }
            7 => { let $k = sbits::<i64>(1 + below(64)); $b }
            8 => { let $k = VarInt16K; $b }
            9 => { let $k = VarInt32K; $b }
            10 => { let $k = VarInt64K; $b }
            11 => { let $k = VarIntK; $b }
            12 => { let $k = VarUInt16K; $b }
            13 => { let $k = VarUInt32K; $b }
            14 => { let $k = VarUInt64K; $b }
            15 => { let $k = VarUIntK; $b }
            _ => { let $k = VarSizeK; $b }
        }
    };
}
#[macro_export]
macro_rules! each_kind {
    ($k:ident, $b:block) => {
        match below(12) {
            0 => { let $k = BoolK; $b }
            1 => { let $k = F16K; $b }
            2 => { let $k = F32K; $b }
            3 => { let $k = F64K; $b }
            4 => { let $k = StrN; $b }
            5 => { let $k = BytesN; $b }
            6 => { let $k = ExternN; $b }
            _ => each_packable!($k, $b),
        }
    };
}

/// Reference encoding of an array (zserio delta packing for packed arrays).
/// `align`: element alignment to byte boundaries (index offsets).
pub fn enc_array<K: Kind>(w: &mut BitWriter, k: &K, data: &[K::T], auto: bool, packed: bool, align: bool) {
    if auto {
        spec::varsize(w, data.len() as u64);
    }
    if data.is_empty() {
        return;
    }
    let n = data.len();
    let mut use_delta = false;
    let mut width: u32 = 0;
    let flagged = packed && K::PACKABLE;
    if flagged && n > 1 {
        let mut plain: u64 = 0;
        let mut i = 0;
        while i < n {
            plain += k.size(&data[i]);
            if i > 0 {
                let d = k.num(&data[i]) - k.num(&data[i - 1]);
                let b = spec::bitlen(d.unsigned_abs());
                if b > width {
                    width = b;
                }
            }
            i += 1;
        }
        let delta_bits = if width == 0 { 0 } else { width as u64 + 1 };
        use_delta = width <= 62 && 7 + k.size(&data[0]) + (n as u64 - 1) * delta_bits < 1 + plain;
    }
    let mut i = 0;
    while i < n {
        if align {
            let p = w.bit_count() % 8;
            if p != 0 {
                spec::put(w, 0, (8 - p) as u8);
            }
        }
        if i == 0 && flagged {
            spec::put(w, use_delta as u64, 1);
            if use_delta {
                spec::put(w, width as u64, 6);
            }
        }
        if i == 0 || !use_delta {
            k.enc(w, &data[i]);
        } else if width > 0 {
            let d = k.num(&data[i]) - k.num(&data[i - 1]);
            let bits = width as u8 + 1;
            let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
            spec::put(w, d as u64 & m, bits);
        }
        i += 1;
    }
}
