//! Harnesses for the runtime properties C01..C14.
use crate::kinds::*;
use crate::shim::*;
use crate::shim;
use crate::spec;
use rust_bitwriter::BitWriter;
use zserio::ztype::array_traits::array_trait::ArrayTrait;
use zserio::ztype::array_traits::*;
use zserio::ztype::*;

macro_rules! check {
    ($c:expr, $m:literal) => {
        assert!($c, $m)
    };
}

// ------------------------------------------------------------------ C01
macro_rules! var_exact {
    ($write:ident, $read:ident, $t:ty, $lo:expr, $hi:expr, $r:ident, $spec:ident, $w:ty, $max:expr) => {{
        let v = $r($lo, $hi) as $t;
        let (mut a, mut b, o) = prefixed2();
        check!(ok($write(&mut a, v)), "writing a value in range succeeds");
        spec::$spec(&mut b, v as $w, $max);
        let a = Stream::of(a);
        let b = Stream::of(b);
        check!(a.same(&b), "bits written are the zserio encoding");
        let mut r = b.reader();
        r.skip(o).unwrap();
        match opt($read(&mut r)) {
            Some(u) => check!(u == v, "value read equals value written"),
            None => check!(false, "reading the zserio encoding succeeds"),
        }
        check!(r.position() == b.bits(), "read consumes exactly the encoding");
    }};
}
pub mod c01 {
    use super::*;
    harnesses! {
        fn c01_varuint16 [12] { var_exact!(write_varuint16, read_varuint16, u16, 0, 0x7fff, in_urange, varuint, u64, 2) }
        fn c01_varuint32 [10] { var_exact!(write_varuint32, read_varuint32, u32, 0, 0x1fff_ffff, in_urange, varuint, u64, 4) }
        fn c01_varuint64 [12] { var_exact!(write_varuint64, read_varuint64, u64, 0, (1u64 << 57) - 1, in_urange, varuint, u64, 8) }
        fn c01_varuint [12] { var_exact!(write_varuint, read_varuint, u64, 0, u64::MAX, in_urange, varuint, u64, 9) }
        fn c01_varsize [10] { var_exact!(write_varsize, read_varsize, u32, 0, 0x7fff_ffff, in_urange, varuint, u64, 5) }
        fn c01_varint16 [10] { var_exact!(write_varint16, read_varint16, i16, -16383, 16383, in_range, varint, i64, 2) }
        fn c01_varint32 [10] { var_exact!(write_varint32, read_varint32, i32, -268435455, 268435455, in_range, varint, i64, 4) }
        fn c01_varint64 [12] { var_exact!(write_varint64, read_varint64, i64, -((1i64 << 56) - 1), (1i64 << 56) - 1, in_range, varint, i64, 8) }
        fn c01_varint [12] { var_exact!(write_varint, read_varint, i64, i64::MIN, i64::MAX, in_range, varint, i64, 9) }
        fn c01_reach [12] {
            // vacuity guard: the preconditions of the harnesses above are satisfiable and reach the last byte
            let v: u64 = any();
            let mut w = BitWriter::new();
            write_varuint(&mut w, v).unwrap();
            reachable(w.bit_count() == 72);
        }
    }
}

// ------------------------------------------------------------------ C02
macro_rules! var_range {
    ($write:ident, $size:ident, $t:ty, $lo:expr, $hi:expr) => {{
        let v: $t = any();
        let (mut w, o) = prefixed();
        let ok = v >= $lo && v <= $hi;
        let r = $write(&mut w, v);
        check!(shim::ok(r) == ok, "writer accepts exactly the values of the type");
        if !ok {
            check!(w.bit_count() == o, "a refused write appends nothing");
        }
        let s = $size(v);
        check!(shim::ok(s) == ok, "size is defined exactly for the values of the type");
    }};
}
pub mod c02 {
    use super::*;
    harnesses! {
        fn c02_varuint16 [10] { var_range!(write_varuint16, varuint16_bitsize, u16, MIN_VARUINT16, MAX_VARUINT16) }
        fn c02_varuint32 [10] { var_range!(write_varuint32, varuint32_bitsize, u32, MIN_VARUINT32, MAX_VARUINT32) }
        fn c02_varuint64 [12] { var_range!(write_varuint64, varuint64_bitsize, u64, MIN_VARUINT64, MAX_VARUINT64) }
        fn c02_varuint [12] { var_range!(write_varuint, varuint_bitsize, u64, MIN_VARUINT, MAX_VARUINT) }
        fn c02_varint16 [10] { var_range!(write_varint16, varint16_bitsize, i16, MIN_VARINT16, MAX_VARINT16) }
        fn c02_varint32 [10] { var_range!(write_varint32, varint32_bitsize, i32, MIN_VARINT32, MAX_VARINT32) }
        fn c02_varint64 [12] { var_range!(write_varint64, varint64_bitsize, i64, MIN_VARINT64, MAX_VARINT64) }
        fn c02_varint [12] { var_range!(write_varint, varint_bitsize, i64, MIN_VARINT, MAX_VARINT) }
        fn c02_varsize [10] { var_range!(write_varsize, varsize_bitsize, u32, 0u32, 0x7fff_ffffu32) }
        fn c02_read_varsize [10] {
            // any input: the value denoted by a varsize is returned, or refused when above 2^31-1
            let s = Stream::arbitrary(6);
            let mut r = s.arbitrary_reader();
            let mut p = s.arbitrary_reader();
            // independent reading of the format
            let mut v: u64 = 0;
            let mut k = 0;
            let mut short = false;
            loop {
                let b = match opt(p.read_u8(8)) { Some(b) => b as u64, None => { short = true; break } };
                k += 1;
                if k == 5 { v = (v << 8) | b; break }
                v = (v << 7) | (b & 0x7f);
                if b & 0x80 == 0 { break }
            }
            match opt(read_varsize(&mut r)) {
                Some(u) => { check!(!short && u as u64 == v, "value denoted by the input"); check!(v <= spec::VARSIZE_MAX, "varsize above 2^31-1 is refused"); check!(r.position() == k * 8, "consumes the encoding"); }
                None => check!(short || v > spec::VARSIZE_MAX, "only truncated or too large values are refused"),
            }
        }
        fn c02_constants [3] {
            check!(MIN_VARUINT16 == 0 && MAX_VARUINT16 == 32767, "varuint16 limits");
            check!(MIN_VARUINT32 == 0 && MAX_VARUINT32 == 536870911, "varuint32 limits");
            check!(MIN_VARUINT64 == 0 && MAX_VARUINT64 == 144115188075855871, "varuint64 limits");
            check!(MIN_VARUINT == 0 && MAX_VARUINT == 18446744073709551615, "varuint limits");
            check!(MIN_VARINT16 == -16383 && MAX_VARINT16 == 16383, "varint16 limits");
            check!(MIN_VARINT32 == -268435455 && MAX_VARINT32 == 268435455, "varint32 limits");
            check!(MIN_VARINT64 == -72057594037927935 && MAX_VARINT64 == 72057594037927935, "varint64 limits");
            check!(MIN_VARINT == i64::MIN && MAX_VARINT == i64::MAX, "varint limits");
            check!(MIN_INT8 == -128 && MAX_INT8 == 127 && MIN_UINT8 == 0 && MAX_UINT8 == 255, "8 bit limits");
            check!(MIN_INT16 == -32768 && MAX_INT16 == 32767 && MIN_UINT16 == 0 && MAX_UINT16 == 65535, "16 bit limits");
            check!(MIN_INT32 == -2147483648 && MAX_INT32 == 2147483647 && MIN_UINT32 == 0 && MAX_UINT32 == 4294967295, "32 bit limits");
            check!(MIN_INT64 == i64::MIN && MAX_INT64 == i64::MAX && MIN_UINT64 == 0 && MAX_UINT64 == u64::MAX, "64 bit limits");
        }
        fn c02_lengths [12] {
            // values whose declared length is not a varsize
            let n: u32 = any();
            let b = BytesType { byte_size: n, data_blob: Vec::new() };
            let e = ExternType { bit_size: n, data_blob: Vec::new() };
            let ok = n as u64 <= spec::VARSIZE_MAX;
            let (mut w, o) = prefixed();
            check!(shim::ok(ByteBufferArrayTrait {}.bitsize_of(0, &b)) == ok, "size of bytes is defined exactly for varsize lengths");
            check!(shim::ok(BitBufferArrayTrait {}.bitsize_of(0, &e)) == ok, "size of extern is defined exactly for varsize lengths");
            if !ok {
                check!(!shim::ok(write_bytes_type(&mut w, &b)), "bytes length above varsize is refused");
                check!(w.bit_count() == o, "a refused write appends nothing");
                check!(!shim::ok(write_extern_type(&mut w, &e)), "extern length above varsize is refused");
                check!(w.bit_count() == o, "a refused write appends nothing");
            }
        }
    }
}

// ------------------------------------------------------------------ C03
fn bitwise(w: &mut BitWriter, v: u64, n: u8) {
    let mut i = 0u8;
    while i < 64 {
        if i < n {
            spec::put(w, v >> (n - 1 - i), 1);
        }
        i += 1;
    }
}
macro_rules! fixed {
    ($write:ident, $read:ident, $t:ty, $n:expr) => {{
        let v: $t = any();
        let (mut a, mut b, o) = prefixed2();
        check!(ok($write(&mut a, v)), "write succeeds");
        spec::put(&mut b, v as u64, $n);
        let a = Stream::of(a);
        check!(a.same(&Stream::of(b)), "n bits, most significant first");
        let mut r = a.reader();
        r.skip(o).unwrap();
        match opt($read(&mut r)) {
            Some(u) => check!(u == v, "value read equals value written"),
            None => check!(false, "read succeeds"),
        }
        check!(r.position() == o + $n, "read consumes n bits");
    }};
}
pub mod c03 {
    use super::*;
    harnesses! {
        fn c03_unsigned_bits [66] {
            let n = 1 + below(64);
            let v: u64 = any::<u64>() >> (64 - n);
            let (mut a, mut b, o) = prefixed2();
            check!(ok(write_unsigned_bits(&mut a, v, n)), "write succeeds");
            spec::put(&mut b, v, n);
            let a = Stream::of(a);
            check!(a.same(&Stream::of(b)), "n bits, most significant first");
            let mut r = a.reader();
            r.skip(o).unwrap();
            match opt(read_unsigned_bits(&mut r, n)) { Some(u) => check!(u == v, "value read equals value written"), None => check!(false, "read succeeds") }
            check!(r.position() == o + n as u64, "read consumes n bits");
        }
        fn c03_signed_bits [66] {
            let n = 1 + below(64);
            let v: i64 = any::<i64>() >> (64 - n);
            let (mut a, mut b, o) = prefixed2();
            check!(ok(write_signed_bits(&mut a, v, n)), "write succeeds");
            spec::put(&mut b, v as u64, n);
            let a = Stream::of(a);
            check!(a.same(&Stream::of(b)), "n bits, two's complement");
            let mut r = a.reader();
            r.skip(o).unwrap();
            match opt(read_signed_bits(&mut r, n)) { Some(u) => check!(u == v, "value read equals value written"), None => check!(false, "read succeeds") }
            check!(r.position() == o + n as u64, "read consumes n bits");
        }
        fn c03_uint8 [10] { fixed!(write_uint8, read_uint8, u8, 8) }
        fn c03_uint16 [10] { fixed!(write_uint16, read_uint16, u16, 16) }
        fn c03_uint32 [10] { fixed!(write_uint32, read_uint32, u32, 32) }
        fn c03_uint64 [10] { fixed!(write_uint64, read_uint64, u64, 64) }
        fn c03_int8 [10] { fixed!(write_int8, read_int8, i8, 8) }
        fn c03_int16 [10] { fixed!(write_int16, read_int16, i16, 16) }
        fn c03_int32 [10] { fixed!(write_int32, read_int32, i32, 32) }
        fn c03_int64 [10] { fixed!(write_int64, read_int64, i64, 64) }
        fn c03_bool [10] { elem(&BoolK, All) }
        fn c03_elem_u8 [10] { elem(&ubits::<u8>(1 + below(8)), All) }
        fn c03_elem_u16 [10] { elem(&ubits::<u16>(1 + below(16)), All) }
        fn c03_elem_u32 [10] { elem(&ubits::<u32>(1 + below(32)), All) }
        fn c03_elem_u64 [10] { elem(&ubits::<u64>(1 + below(64)), All) }
        fn c03_elem_i8 [10] { elem(&sbits::<i8>(1 + below(8)), All) }
        fn c03_elem_i16 [10] { elem(&sbits::<i16>(1 + below(16)), All) }
        fn c03_elem_i32 [10] { elem(&sbits::<i32>(1 + below(32)), All) }
        fn c03_elem_i64 [10] { elem(&sbits::<i64>(1 + below(64)), All) }
        fn c03_bits_msb [66] {
            // the elementary append of the contract is itself the most-significant-bit-first sequence of single bits
            let n = 1 + below(64);
            let v: u64 = any();
            let (mut a, mut b, _) = prefixed2();
            spec::put(&mut a, v, n);
            bitwise(&mut b, v, n);
            check!(Stream::of(a).same(&Stream::of(b)), "appending n bits equals appending them one by one");
        }
    }
}

// ------------------------------------------------------------------ elements (trait contracts)
#[derive(PartialEq, Clone, Copy)]
pub enum What {
    Layout,
    Size,
    RoundTrip,
    /// layout and round trip
    All,
}
pub use What::*;

/// contract of one array trait: layout, size and round trip of one element
pub fn elem<K: Kind>(k: &K, what: What) {
    let t = k.at();
    let v = k.val();
    let (mut a, mut b, o) = prefixed2();
    check!(ok(t.write(&mut a, &v)), "writing an element succeeds");
    if what == Size {
        let pos: u64 = any::<u32>() as u64;
        match opt(t.bitsize_of(pos, &v)) {
            Some(s) => check!(s == a.bit_count() - o, "predicted element size equals bits written"),
            None => check!(false, "size of a valid element is defined"),
        }
        if t.is_bitsizeof_constant() {
            let v2 = k.val();
            match opt(t.bitsize_of(pos, &v2)) {
                Some(s) => check!(s == a.bit_count() - o, "constant size is the same for every value"),
                None => check!(false, "size of a valid element is defined"),
            }
        }
        match opt(t.initialize_offsets(o, &v)) {
            Some(s) => check!(s == a.bit_count(), "offset after the element"),
            None => check!(false, "offset after a valid element is defined"),
        }
    }
    if what == Layout || what == All {
        k.enc(&mut b, &v);
    }
    let a = Stream::of(a);
    if what == Layout || what == All {
        check!(a.same(&Stream::of(b)), "element layout");
    }
    if what == RoundTrip || what == All {
        let mut r = a.reader();
        r.skip(o).unwrap();
        let mut u = K::T::default();
        check!(ok(t.read(&mut r, &mut u)), "reading a written element succeeds");
        check!(k.eq(&u, &v), "element read equals element written");
        check!(r.position() == a.bits(), "reading an element consumes what was written");
        if K::PACKABLE {
            check!(k.eq(&t.from_u64(t.to_u64(&v)), &v), "delta image determines the element");
        }
    }
}

fn mk<K: Kind>(k: &K, n: u8) -> Vec<K::T> {
    let mut v = Vec::with_capacity(n as usize);
    for _ in 0..n {
        v.push(k.val());
    }
    v
}
fn arr<K: Kind>(k: &K, n: u8, auto: bool, packed: bool) -> Array<K::T> {
    Array { array_trait: k.at(), is_packed: packed, fixed_size: if auto { None } else { Some(n as usize) } }
}
static NOOFF: Option<&Vec<u32>> = None;

/// layout and/or round trip of an array of exactly n elements
pub fn array<K: Kind>(k: &K, n: u8, auto: bool, packed: bool, align: bool, what: What) {
    let v = mk(k, n);
    let offs: Vec<u32> = Vec::new();
    let off = if align { Some(&offs) } else { None };
    let mut ar = arr(k, n, auto, packed);
    let (mut a, mut b, o) = prefixed2();
    check!(ok(ar.zserio_write(&mut a, &v, off)), "writing a valid array succeeds");
    let end = a.bit_count();
    if what == Size {
        match opt(ar.zserio_bitsize(&v, off, o)) {
            Some(s) => check!(s == end - o, "predicted array size equals bits written"),
            None => check!(false, "size of a valid array is defined"),
        }
        if packed && K::PACKABLE {
            match opt(ar.zserio_bitsize_packed(&v, off, o)) {
                Some(s) => check!(s == end - o, "predicted packed size equals bits written"),
                None => check!(false, "size of a valid array is defined"),
            }
        }
    }
    let a = Stream::of(a);
    if what == Layout || what == All {
        enc_array(&mut b, k, &v, auto, packed, align);
        check!(a.same(&Stream::of(b)), "array layout");
    }
    if what == RoundTrip || what == All {
        let mut r = a.reader();
        r.skip(o).unwrap();
        match opt(ar.zserio_read_array_length(&mut r)) {
            Some(l) => check!(l == n as usize, "array length"),
            None => check!(false, "reading the array length succeeds"),
        }
        // previous content must be replaced
        let mut u: Vec<K::T> = Vec::with_capacity(n as usize + 2);
        u.push(K::T::default());
        check!(ok(ar.zserio_read(&mut r, &mut u, n as usize, off)), "reading a written array succeeds");
        check!(u.len() == n as usize, "number of elements");
        let mut i = 0;
        while i < n as usize {
            check!(k.eq(&u[i], &v[i]), "element read equals element written");
            i += 1;
        }
        check!(r.position() == end, "reading consumes what was written");
    }
}
/// element-wise reading (used by generated code for parameterized elements)
pub fn array_elementwise<K: Kind>(k: &K, n: u8, packed: bool, align: bool) {
    let v = mk(k, n);
    let offs: Vec<u32> = Vec::new();
    let off = if align { Some(&offs) } else { None };
    let mut ar = arr(k, n, true, packed);
    let (mut a, o) = prefixed();
    check!(ok(ar.zserio_write(&mut a, &v, off)), "writing a valid array succeeds");
    let end = a.bit_count();
    let a = Stream::of(a);
    let mut r = a.reader();
    r.skip(o).unwrap();
    check!(ok(ar.zserio_read_array_length(&mut r)), "reading the array length succeeds");
    let mut ctx = ar.array_trait.create_context();
    let mut i = 0;
    while i < n as usize {
        let mut item = K::T::default();
        check!(ok(ar.read_one_element(&mut r, &mut ctx, &mut item, i, off)), "reading a written element succeeds");
        check!(k.eq(&item, &v[i]), "element read equals element written");
        i += 1;
    }
    check!(r.position() == end, "reading consumes what was written");
}

// ------------------------------------------------------------------ C04
pub mod c04 {
    use super::*;
    harnesses! {
        fn c04_f64 [10] {
            let bits: u64 = any();
            let (mut a, mut b, o) = prefixed2();
            check!(ok(write_float64(&mut a, f64::from_bits(bits))), "write succeeds");
            spec::put(&mut b, bits, 64);
            let a = Stream::of(a);
            check!(a.same(&Stream::of(b)), "big-endian IEEE 754 double");
            let mut r = a.reader();
            r.skip(o).unwrap();
            match opt(read_float64(&mut r)) { Some(u) => check!(u.to_bits() == bits, "same bit pattern"), None => check!(false, "read succeeds") }
            check!(r.position() == o + 64, "consumes 64 bits");
        }
        fn c04_f32 [10] {
            let bits: u32 = any();
            let (mut a, mut b, o) = prefixed2();
            check!(ok(write_float32(&mut a, f32::from_bits(bits))), "write succeeds");
            spec::put(&mut b, bits as u64, 32);
            let a = Stream::of(a);
            check!(a.same(&Stream::of(b)), "big-endian IEEE 754 single");
            let mut r = a.reader();
            r.skip(o).unwrap();
            match opt(read_float32(&mut r)) { Some(u) => check!(u.to_bits() == bits, "same bit pattern"), None => check!(false, "read succeeds") }
            check!(r.position() == o + 32, "consumes 32 bits");
        }
        fn c04_elem_f64 [10] { elem(&F64K, All) }
        fn c04_elem_f32 [10] { elem(&F32K, All) }
    }
}

fn c04_half(bits: u16) {
    // every half-precision value survives reading and writing
    let mut w = BitWriter::new();
    spec::put(&mut w, bits as u64, 16);
    let a = Stream::of(w);
    let mut r = a.reader();
    match opt(read_float16(&mut r)) {
        Some(f) => {
            let e = half_value(bits);
            check!(if e.is_nan() { f.is_nan() } else { f.to_bits() == e.to_bits() }, "value of the half-precision pattern");
            let mut w = BitWriter::new();
            check!(ok(write_float16(&mut w, f)), "write succeeds");
            let mut want = BitWriter::new();
            // a NaN keeps being a NaN of the same sign and payload (quieted)
            let q = if e.is_nan() { bits | 0x0200 } else { bits };
            spec::put(&mut want, q as u64, 16);
            check!(Stream::of(w).same(&Stream::of(want)), "half-precision value kept");
        }
        None => check!(false, "read succeeds"),
    }
}
/// IEEE 754 binary16 -> binary32, from the definition
fn half_value(b: u16) -> f32 {
    let s = (b as u32 >> 15) << 31;
    let e = (b as u32 >> 10) & 0x1f;
    let m = b as u32 & 0x3ff;
    if e == 31 {
        return f32::from_bits(s | 0x7f80_0000 | m << 13);
    }
    if e == 0 {
        // m * 2^-24, exact in binary32
        let v = m as f32 * f32::from_bits((127 - 24) << 23);
        return f32::from_bits(v.to_bits() | s);
    }
    f32::from_bits(s | (e + 112) << 23 | m << 13)
}
/// round to nearest, ties to even, from the definition
fn half_nearest(f: f32) -> Option<u16> {
    let b = f.to_bits();
    let s = ((b >> 31) as u16) << 15;
    let a = f32::from_bits(b & 0x7fff_ffff);
    if a.is_nan() {
        return None;
    }
    let x = a as f64;
    // 65520 = halfway between the largest half and 2^16
    if x >= 65520.0 {
        return Some(s | 0x7c00);
    }
    // candidates lo <= x < hi among non-negative halves (patterns are monotone)
    let (mut lo, mut hi) = (0u16, 0x7c00u16);
    while hi - lo > 1 {
        let m = lo + (hi - lo) / 2;
        if half_value(m) as f64 <= x { lo = m } else { hi = m }
    }
    let l = half_value(lo) as f64;
    let h = if hi == 0x7c00 { 65536.0 } else { half_value(hi) as f64 };
    let (dl, dh) = (x - l, h - x);
    let r = if dl < dh || (dl == dh && lo & 1 == 0) { lo } else { hi };
    Some(s | r)
}
#[cfg(not(kani))]
pub mod c04n {
    use super::*;
    natives! {
        fn c04_half_all {
            let mut b = 0u32;
            while b < 65536 { c04_half(b as u16); b += 1 }
        }
        fn c04_half_rounding {
            let m: u32 = any();
            // exponents around the half-precision range are drawn often
            let f = if any::<bool>() { f32::from_bits(m) } else {
                f32::from_bits((m & 0x8000_1fff) | ((100 + below(46) as u32) << 23) | ((m >> 8) & 0x007f_e000))
            };
            let (mut w, o) = prefixed();
            check!(ok(write_float16(&mut w, f)), "write succeeds");
            let a = Stream::of(w);
            check!(a.bits() == o + 16, "16 bits");
            let mut r = a.reader();
            r.skip(o).unwrap();
            let got = r.read_u16(16).unwrap();
            match half_nearest(f) {
                Some(h) => check!(got == h, "nearest half-precision value"),
                None => check!(got & 0x7c00 == 0x7c00 && got & 0x3ff != 0, "NaN stays NaN"),
            }
        }
        fn c04_elem_f16 { elem(&F16K, All) }
    }
}

// ------------------------------------------------------------------ C05
pub mod c05 {
    use super::*;
    harnesses! {
        fn c05_string_0 [10] { elem(&StrK(0), All) }
        fn c05_string_1 [10] { elem(&StrK(1), All) }
        fn c05_string_2 [10] { elem(&StrK(2), All) }
        fn c05_string_3_t [10] { elem(&StrK(3), All) }
        fn c05_string_wide [10] { elem(&Str2K, All) }
        fn c05_bytes_0 [10] { elem(&BytesK(0), All) }
        fn c05_bytes_1 [10] { elem(&BytesK(1), All) }
        fn c05_bytes_2 [10] { elem(&BytesK(2), All) }
        fn c05_bytes_4_t [10] { elem(&BytesK(4), All) }
        fn c05_extern_0 [10] { elem(&ExternK(0), All) }
        fn c05_extern_5 [10] { elem(&ExternK(5), All) }
        fn c05_extern_8 [10] { elem(&ExternK(8), All) }
        fn c05_extern_13 [10] { elem(&ExternK(13), All) }
        fn c05_extern_16_t [10] { elem(&ExternK(16), All) }
        fn c05_extern_23_t [10] { elem(&ExternK(23), All) }
    }
}
#[cfg(not(kani))]
pub mod c05n {
    use super::*;
    natives! {
        fn c05_string_long { elem(&StrN, All) }
        fn c05_bytes_long { elem(&BytesN, All) }
        fn c05_extern_long { elem(&ExternN, All) }
        fn c05_string_function {
            let s = StrN.val();
            let (mut w, o) = prefixed();
            check!(ok(write_string(&mut w, &s)), "write succeeds");
            match opt(bitsize_string(&s)) { Some(n) => check!(n == w.bit_count() - o, "size"), None => check!(false, "size is defined") }
            let n = w.bit_count();
            let a = Stream::of(w);
            let mut r = a.reader();
            r.skip(o).unwrap();
            match opt(read_string(&mut r)) { Some(u) => check!(u == s, "same string"), None => check!(false, "read succeeds") }
            check!(r.position() == n, "consumes what was written");
        }
    }
}

// ------------------------------------------------------------------ C06
pub mod c06 {
    use super::*;
    harnesses! {
        fn c06_elem_ubits [12] { elem(&ubits::<u64>(1 + below(64)), Size) }
        fn c06_elem_sbits [12] { elem(&sbits::<i64>(1 + below(64)), Size) }
        fn c06_elem_u8 [12] { elem(&ubits::<u8>(1 + below(8)), Size) }
        fn c06_elem_i16 [12] { elem(&sbits::<i16>(1 + below(16)), Size) }
        fn c06_elem_varint16 [12] { elem(&VarInt16K, Size) }
        fn c06_elem_varint32 [12] { elem(&VarInt32K, Size) }
        fn c06_elem_varint64 [12] { elem(&VarInt64K, Size) }
        fn c06_elem_varint [12] { elem(&VarIntK, Size) }
        fn c06_elem_varuint16 [12] { elem(&VarUInt16K, Size) }
        fn c06_elem_varuint32 [12] { elem(&VarUInt32K, Size) }
        fn c06_elem_varuint64 [12] { elem(&VarUInt64K, Size) }
        fn c06_elem_varuint [12] { elem(&VarUIntK, Size) }
        fn c06_elem_varsize [12] { elem(&VarSizeK, Size) }
        fn c06_elem_bool [12] { elem(&BoolK, Size) }
        fn c06_elem_f64 [12] { elem(&F64K, Size) }
        fn c06_elem_f32 [12] { elem(&F32K, Size) }
        fn c06_elem_string [12] { elem(&StrK(2), Size) }
        fn c06_elem_bytes [12] { elem(&BytesK(2), Size) }
        fn c06_elem_extern [12] { elem(&ExternK(11), Size) }
        fn c06_arr_bits [12] { array(&ubits::<u16>(1 + below(16)), 2, true, false, false, Size) }
        fn c06_arr_bits_align [12] { array(&ubits::<u16>(1 + below(16)), 2, true, false, true, Size) }
        fn c06_arr_bits_fixed [12] { array(&sbits::<i16>(1 + below(16)), 2, false, false, true, Size) }
        fn c06_arr_varint [12] { array(&VarInt32K, 2, true, false, false, Size) }
        fn c06_arr_varint_align [12] { array(&VarInt32K, 2, false, false, true, Size) }
        fn c06_arr_empty [12] { array(&VarUIntK, 0, true, false, true, Size) }
        fn c06_arr_packed [12] { array(&ubits::<u16>(1 + below(16)), 2, true, true, false, Size) }
        fn c06_arr_packed_signed [12] { array(&sbits::<i16>(1 + below(16)), 2, true, true, true, Size) }
        fn c06_arr_packed_var [12] { array(&VarUInt32K, 2, false, true, false, Size) }
        fn c06_arr_packed_3_t [12] { array(&ubits::<u16>(1 + below(16)), 3, true, true, true, Size) }
        fn c06_align_bitsize [12] {
            let a = in_urange(1, 1 << 32);
            let p = in_urange(0, 1 << 60);
            let s = align_bitsize(p, a);
            check!(s < a && (p + s) % a == 0, "padding reaches the next multiple");
        }
    }
}
#[cfg(not(kani))]
pub mod c06n {
    use super::*;
    natives! {
        fn c06_sizes_long { any_array(Size) }
        fn c06_elem_f16 { elem(&F16K, Size) }
        fn c06_elem_string_long { elem(&StrN, Size) }
        fn c06_elem_bytes_long { elem(&BytesN, Size) }
        fn c06_elem_extern_long { elem(&ExternN, Size) }
    }
}

// ------------------------------------------------------------------ C07
/// run a decoder on arbitrary input at an arbitrary position
fn survive<R>(max: u8, f: impl FnOnce(&mut BitReader) -> zserio::Result<R>) {
    let s = Stream::arbitrary(max);
    let mut r = s.arbitrary_reader();
    let o = below(8) as u64;
    assume(o <= s.len_bits());
    r.skip(o).unwrap();
    let ok = ok(f(&mut r));
    check!(r.position() <= s.len_bits(), "never reads past the end of the input");
    reachable(ok);
}
fn survive_elem<K: Kind>(k: &K, max: u8) {
    let t = k.at();
    survive(max, |r| {
        let mut v = K::T::default();
        t.read(r, &mut v)
    })
}
fn survive_array<K: Kind>(k: &K, max: u8, n: usize, packed: bool, align: bool) {
    let offs: Vec<u32> = Vec::new();
    let off = if align { Some(&offs) } else { None };
    let mut ar = arr(k, 0, true, packed);
    survive(max, |r| {
        let mut v: Vec<K::T> = Vec::new();
        ar.zserio_read(r, &mut v, n, off)
    })
}
/// input of l bytes is refused by a decoder that needs more
fn truncated<K: Kind>(k: &K) {
    let t = k.at();
    let v = k.val();
    let (mut w, o) = prefixed();
    check!(ok(t.write(&mut w, &v)), "write succeeds");
    let n = w.bit_count();
    let s = Stream::of(w);
    let cut = below(80) as u64;
    assume(cut * 8 >= o && cut * 8 < n);
    let mut r = s.reader_of(cut);
    r.skip(o).unwrap();
    let mut u = K::T::default();
    check!(!ok(t.read(&mut r, &mut u)), "truncated input is reported as an error");
}
pub mod c07 {
    use super::*;
    harnesses! {
        fn c07_ubits [12] { let n = 1 + below(64); survive(12, |r| read_unsigned_bits(r, n)) }
        fn c07_sbits [12] { let n = 1 + below(64); survive(12, |r| read_signed_bits(r, n)) }
        fn c07_varint16 [12] { survive_elem(&VarInt16K, 12) }
        fn c07_varint32 [12] { survive_elem(&VarInt32K, 12) }
        fn c07_varint64 [12] { survive_elem(&VarInt64K, 12) }
        fn c07_varint [12] { survive_elem(&VarIntK, 12) }
        fn c07_varuint16 [12] { survive_elem(&VarUInt16K, 12) }
        fn c07_varuint32 [12] { survive_elem(&VarUInt32K, 12) }
        fn c07_varuint64 [12] { survive_elem(&VarUInt64K, 12) }
        fn c07_varuint [12] { survive_elem(&VarUIntK, 12) }
        fn c07_varsize [12] { survive_elem(&VarSizeK, 12) }
        fn c07_bool [12] { survive_elem(&BoolK, 2) }
        fn c07_f64 [12] { survive_elem(&F64K, 12) }
        fn c07_f32 [12] { survive_elem(&F32K, 12) }
        fn c07_string [12] { survive_elem(&StrK(0), 3) }
        fn c07_bytes [12] { survive_elem(&BytesK(0), 3) }
        fn c07_extern [12] { survive_elem(&ExternK(0), 3) }
        fn c07_arr [12] { survive_array(&ubits::<u16>(1 + below(16)), 8, 2, false, false) }
        fn c07_arr_align [12] { survive_array(&VarInt32K, 8, 2, false, true) }
        fn c07_packed_u64 [12] { survive_array(&ubits::<u64>(1 + below(64)), 24, 3, true, false) }
        fn c07_packed_i32 [12] { survive_array(&sbits::<i32>(1 + below(32)), 24, 2, true, true) }
        fn c07_packed_varint [12] { survive_array(&VarIntK, 24, 2, true, false) }
        fn c07_packed_varuint16 [12] { survive_array(&VarUInt16K, 16, 2, true, false) }
        fn c07_array_length [12] {
            let mut ar = arr(&ubits::<u8>(8), 0, true, false);
            survive(6, |r| ar.zserio_read_array_length(r))
        }
        fn c07_align_reader [12] {
            let a = in_urange(1, 1 << 40);
            survive(6, |r| align_reader(r, a))
        }
        fn c07_trunc_bits [12] { truncated(&ubits::<u64>(1 + below(64))) }
        fn c07_trunc_varint [12] { truncated(&VarIntK) }
        fn c07_trunc_varuint [12] { truncated(&VarUInt32K) }
        fn c07_trunc_f64 [12] { truncated(&F64K) }
        fn c07_trunc_string [12] { truncated(&StrK(2)) }
        fn c07_trunc_bytes [12] { truncated(&BytesK(2)) }
        fn c07_trunc_extern [12] { truncated(&ExternK(11)) }
    }
}
#[cfg(not(kani))]
pub mod c07n {
    use super::*;
    natives! {
        fn c07_f16 { survive_elem(&F16K, 12) }
        fn c07_trunc_long { match below(4) { 0 => truncated(&StrN), 1 => truncated(&BytesN), 2 => truncated(&ExternN), _ => truncated(&F16K) } }
        fn c07_strings { survive_elem(&StrK(0), 48) }
        fn c07_blobs { survive_elem(&BytesK(0), 48); survive_elem(&ExternK(0), 48) }
        fn c07_arrays {
            let n = below(40) as usize;
            let (p, al) = (any(), any());
            each_kind!(k, { survive_array(&k, 48, n, p && is_packable(&k), al) })
        }
        fn c07_arrays_claimed {
            each_kind!(k, {
                let mut ar = arr(&k, 0, true, is_packable(&k) && any());
                survive(48, |r| {
                    let n = ar.zserio_read_array_length(r)?;
                    // zero-width packed elements need no input: keep the count small enough to run
                    if n > 5000 { return Ok(()) }
                    let mut v = Vec::new();
                    ar.zserio_read(r, &mut v, n, NOOFF)
                })
            })
        }
    }
}

// ------------------------------------------------------------------ C08 / C09
pub mod c08 {
    use super::*;
    harnesses! {
        fn c08_u8 [12] { array(&ubits::<u8>(1 + below(8)), 2, true, true, false, RoundTrip) }
        fn c08_u16 [12] { array(&ubits::<u16>(1 + below(16)), 2, true, true, false, RoundTrip) }
        fn c08_u32 [12] { array(&ubits::<u32>(1 + below(32)), 2, false, true, false, RoundTrip) }
        fn c08_u64 [12] { array(&ubits::<u64>(1 + below(64)), 2, true, true, false, RoundTrip) }
        fn c08_i8 [12] { array(&sbits::<i8>(1 + below(8)), 2, true, true, false, RoundTrip) }
        fn c08_i16 [12] { array(&sbits::<i16>(1 + below(16)), 2, false, true, false, RoundTrip) }
        fn c08_i32 [12] { array(&sbits::<i32>(1 + below(32)), 2, true, true, true, RoundTrip) }
        fn c08_i64 [12] { array(&sbits::<i64>(1 + below(64)), 2, true, true, false, RoundTrip) }
        fn c08_varint16 [12] { array(&VarInt16K, 2, true, true, false, RoundTrip) }
        fn c08_varint32 [12] { array(&VarInt32K, 2, true, true, false, RoundTrip) }
        fn c08_varint64_t [12] { array(&VarInt64K, 2, true, true, false, RoundTrip) }
        fn c08_varint_t [12] { array(&VarIntK, 2, true, true, false, RoundTrip) }
        fn c08_varuint16 [12] { array(&VarUInt16K, 2, true, true, false, RoundTrip) }
        fn c08_varuint32 [12] { array(&VarUInt32K, 2, true, true, false, RoundTrip) }
        fn c08_varuint64_t [12] { array(&VarUInt64K, 2, true, true, false, RoundTrip) }
        fn c08_varuint_t [12] { array(&VarUIntK, 2, true, true, false, RoundTrip) }
        fn c08_varsize [12] { array(&VarSizeK, 2, true, true, false, RoundTrip) }
        fn c08_one [12] { array(&ubits::<u64>(1 + below(64)), 1, true, true, true, RoundTrip) }
        fn c08_u16_3 [12] { array(&ubits::<u16>(1 + below(16)), 3, true, true, false, RoundTrip) }
        fn c08_i64_3_t [12] { array(&sbits::<i64>(1 + below(64)), 3, true, true, false, RoundTrip) }
        fn c08_u64_3_t [12] { array(&ubits::<u64>(1 + below(64)), 3, true, true, false, RoundTrip) }
        fn c08_elementwise [12] { array_elementwise(&sbits::<i16>(1 + below(16)), 2, true, true) }
    }
}
#[cfg(not(kani))]
pub mod c08n {
    use super::*;
    natives! {
        fn c08_long { any_packed(RoundTrip) }
        fn c08_long_elementwise { each_packable!(k, { array_elementwise(&Walk::new(k), below(24), true, any()) }) }
    }
}
pub mod c09 {
    use super::*;
    harnesses! {
        fn c09_u8 [12] { array(&ubits::<u8>(1 + below(8)), 2, true, true, false, Layout) }
        fn c09_u16 [12] { array(&ubits::<u16>(1 + below(16)), 2, true, true, true, Layout) }
        fn c09_u32 [12] { array(&ubits::<u32>(1 + below(32)), 2, true, true, false, Layout) }
        fn c09_u64 [12] { array(&ubits::<u64>(1 + below(64)), 2, true, true, false, Layout) }
        fn c09_i8 [12] { array(&sbits::<i8>(1 + below(8)), 2, true, true, false, Layout) }
        fn c09_i16 [12] { array(&sbits::<i16>(1 + below(16)), 2, false, true, false, Layout) }
        fn c09_i32 [12] { array(&sbits::<i32>(1 + below(32)), 2, true, true, false, Layout) }
        fn c09_i64 [12] { array(&sbits::<i64>(1 + below(64)), 2, true, true, false, Layout) }
        fn c09_varint16 [12] { array(&VarInt16K, 2, true, true, false, Layout) }
        fn c09_varint32 [12] { array(&VarInt32K, 2, true, true, false, Layout) }
        fn c09_varint_t [12] { array(&VarIntK, 2, true, true, false, Layout) }
        fn c09_varuint16 [12] { array(&VarUInt16K, 2, true, true, false, Layout) }
        fn c09_varuint32 [12] { array(&VarUInt32K, 2, true, true, false, Layout) }
        fn c09_varuint_t [12] { array(&VarUIntK, 2, true, true, false, Layout) }
        fn c09_varsize [12] { array(&VarSizeK, 2, true, true, false, Layout) }
        fn c09_one [12] { array(&ubits::<u64>(1 + below(64)), 1, true, true, false, Layout) }
        fn c09_u16_3 [12] { array(&ubits::<u16>(1 + below(16)), 3, true, true, false, Layout) }
        fn c09_i16_3_t [12] { array(&sbits::<i16>(1 + below(16)), 3, true, true, false, Layout) }
        fn c09_u64_3_t [12] { array(&ubits::<u64>(1 + below(64)), 3, true, true, false, Layout) }
    }
}
#[cfg(not(kani))]
pub mod c09n {
    use super::*;
    natives! {
        fn c09_long { any_packed(Layout) }
    }
}
#[cfg(not(kani))]
fn any_packed(what: What) {
    let (auto, al) = (any(), any());
    each_packable!(k, { array(&Walk::new(k), below(24), auto, true, al, what) })
}
#[cfg(not(kani))]
fn any_array(what: What) {
    let (auto, p, al): (bool, bool, bool) = (any(), any(), any());
    each_kind!(k, { array(&k, below(24), auto, p && is_packable(&k), al, what) })
}

// ------------------------------------------------------------------ C10
pub mod c10 {
    use super::*;
    harnesses! {
        fn c10_align_to [4] {
            let a: u8 = any();
            assume(a >= 1);
            let p = in_urange(0, u64::MAX - 255);
            let q = align_to(a, p);
            check!(q >= p && q - p < a as u64 && q % a as u64 == 0, "smallest multiple not below");
        }
        fn c10_align_bitsize [4] {
            let a = in_urange(1, 1 << 62);
            let p = in_urange(0, 1 << 62);
            let s = align_bitsize(p, a);
            check!(s < a, "padding below the alignment");
            check!((p + s) % a == 0, "padding reaches a multiple");
        }
        fn c10_writer [70] {
            let a = 1 + below(65) as u64;
            let pre = below(65);
            let v: u64 = any();
            let (mut x, mut y, _) = prefixed2();
            spec::put(&mut x, v, pre);
            spec::put(&mut y, v, pre);
            let p = x.bit_count();
            check!(ok(align_writer(&mut x, a)), "aligning a writer succeeds");
            let q = x.bit_count();
            check!(q >= p && q - p < a && q % a == 0, "next multiple of the alignment");
            check!(align_bitsize(p, a) == q - p, "reported padding");
            while y.bit_count() < q { spec::put(&mut y, 0, 1) }
            check!(Stream::of(x).same(&Stream::of(y)), "only zero bits are written");
        }
        fn c10_reader [10] {
            let a = in_urange(1, 1 << 40);
            let s = Stream::arbitrary(40);
            let p = in_urange(0, 320);
            assume(p <= s.len_bits());
            let mut r = s.arbitrary_reader();
            r.skip(p).unwrap();
            let ok = ok(align_reader(&mut r, a));
            let q = (p + a - 1) / a * a;
            check!(ok == (q <= s.len_bits()), "aligning past the end of the input is an error, otherwise it succeeds");
            if ok { check!(r.position() == q, "next multiple of the alignment") }
        }
    }
}

// ------------------------------------------------------------------ C11
pub mod c11 {
    use super::*;
    fn reserved<K: Kind>(k: &K) {
        let chunk = below(9) as usize;
        zserio::set_array_alloc_chunk(chunk);
        let got = zserio::get_array_alloc_chunk();
        // a claimed length with no elements behind it
        let n = in_urange(1, 0x7fff_ffff) as usize;
        let s = Stream::of(BitWriter::new());
        let mut r = s.reader();
        let mut v: Vec<K::T> = Vec::new();
        let mut ar = arr(k, 0, true, false);
        let failed = !ok(ar.zserio_read(&mut r, &mut v, n, NOOFF));
        let cap = v.capacity();
        zserio::set_array_alloc_chunk(1000);
        check!(got == chunk, "configured limit is in force");
        check!(failed, "missing elements are reported");
        // the allocator may round a small reservation up to its minimum block
        check!(cap <= chunk || cap <= 8 && core::mem::size_of::<K::T>() == 1 || cap <= 4, "reservation bounded by the limit");
    }
    harnesses! {
        fn c11_array_u64 [12] { reserved(&ubits::<u64>(64)) }
        fn c11_array_u8 [12] { reserved(&ubits::<u8>(8)) }
        fn c11_string_claim [12] {
            // a string or byte buffer that claims more than is there is refused
            let n = in_urange(3, 0x7fff_ffff);
            let mut w = BitWriter::new();
            spec::varsize(&mut w, n);
            spec::put(&mut w, 0x4142, 16);
            let s = Stream::of(w);
            check!(!ok(read_string(&mut s.reader())), "string longer than the input is refused");
            check!(!ok(read_bytes_type(&mut s.reader())), "bytes longer than the input are refused");
            if n > 16 { check!(!ok(read_extern_type(&mut s.reader())), "extern longer than the input is refused") }
        }
    }
}
#[cfg(not(kani))]
pub mod c11n {
    use super::*;
    use crate::shim::alloc;
    fn peak(max: usize, f: impl FnOnce()) {
        alloc::start();
        f();
        let m = alloc::stop();
        check!(m <= max, "largest allocation while decoding is bounded");
    }
    natives! {
        fn c11_alloc_blobs {
            let n = in_urange(0, 0x7fff_ffff);
            let have = below(40);
            let (mut w, o) = prefixed();
            spec::varsize(&mut w, n);
            for _ in 0..have { spec::put(&mut w, 0x41, 8) }
            let s = Stream::of(w);
            let which = below(3);
            // errors and their messages need a few hundred bytes of their own
            peak(512, || {
                let mut r = s.reader();
                r.skip(o).unwrap();
                let short = match which {
                    0 => { let e = read_string(&mut r).is_err(); e || n <= have as u64 }
                    1 => { let e = read_bytes_type(&mut r).is_err(); e || n <= have as u64 }
                    _ => { let e = read_extern_type(&mut r).is_err(); e || n <= 8 * have as u64 + 7 }
                };
                check!(short, "missing data is reported");
            });
        }
        fn c11_alloc_arrays {
            let n = in_urange(0, 0x7fff_ffff);
            let have = if any() { below(40) as u64 } else { 20 * below(100) as u64 };
            let chunk = in_urange(0, 3000) as usize;
            each_kind!(k, {
                let mut ar = arr(&k, 0, true, is_packable(&k) && any());
                let (mut w, o) = prefixed();
                spec::varsize(&mut w, n);
                for _ in 0..have { spec::put(&mut w, any(), 8) }
                let s = Stream::of(w);
                let bits = s.bits() - o;
                if ar.is_packed {
                    // keep away from zero-width deltas with a huge count, which legitimately need no input
                    assume(n < 3000);
                }
                zserio::set_array_alloc_chunk(chunk);
                let per = elem_size(&k);
                let mut v = Vec::new();
                let mut r = s.reader();
                r.skip(o).unwrap();
                alloc::start();
                let mut res = None;
                let len = ar.zserio_read_array_length(&mut r);
                if let Ok(l) = &len {
                    res = Some(ar.zserio_read(&mut r, &mut v, *l, NOOFF).is_ok());
                }
                let m = alloc::stop();
                zserio::set_array_alloc_chunk(1000);
                check!(len.is_ok() && len.unwrap() as u64 == n, "claimed length");
                let ok = res == Some(true);
                // the configured limit, or at most twice the elements that were really read (Vec
                // doubles its capacity); elements may own at most the input, errors some text
                let lim = 1024 + 8 * have as usize + per * chunk.min(n as usize).max(2 * v.len() + 8);
                check!(m <= lim, "largest allocation while decoding is bounded");
                check!(!ok || v.len() as u64 == n, "all elements or an error");
                check!(ar.is_packed || !ok || n <= bits, "missing elements are reported");
            })
        }
    }
}

// ------------------------------------------------------------------ C12
pub mod c12 {
    use super::*;
    use zserio::{bit_length, numbits};
    fn lg(v: u64) -> u8 {
        let mut n = 0u8;
        while n < 64 {
            if v >> n == 0 {
                return n;
            }
            n += 1;
        }
        64
    }
    macro_rules! nb {
        ($t:ty) => {{
            let v: $t = any();
            assume(v >= 0 as $t);
            let want = if v == 0 { 0 } else if v == 1 { 1 } else { lg(v as u64 - 1) };
            check!(numbits(v) == want, "numbits");
        }};
    }
    macro_rules! bl {
        ($t:ty) => {{
            let v: $t = any();
            assume(v >= 0 as $t);
            check!(bit_length(v) == lg(v as u64), "bit length");
        }};
    }
    // numbits against the contract of bit_length ...
    harnesses! {
        fn c12_numbits_u8 [70] { nb!(u8) }
        fn c12_numbits_u16 [70] { nb!(u16) }
        fn c12_numbits_u32 [70] { nb!(u32) }
        fn c12_numbits_u64 [70] { nb!(u64) }
        fn c12_numbits_i8 [70] { nb!(i8) }
        fn c12_numbits_i16 [70] { nb!(i16) }
        fn c12_numbits_i32 [70] { nb!(i32) }
        fn c12_numbits_i64 [70] { nb!(i64) }
        fn c12_contract [70] {
            // the contract used for bit_length elsewhere is the mathematical bit length
            let v: u64 = any();
            check!((64 - v.leading_zeros()) as u8 == lg(v), "contract of bit_length");
        }
    }
    pub mod real {
        use super::*;
        // ... and bit_length itself (its table lookup walks at most 256 characters)
        harnesses_nostub! {
            fn c12_bit_length_u8 [258] { bl!(u8) }
            fn c12_bit_length_u64 [258] { bl!(u64) }
        }
    }
}
#[cfg(not(kani))]
pub mod c12n {
    use super::*;
    natives! {
        fn c12_small_all {
            let mut v = 0u64;
            while v < 70_000 {
                let want = 64 - v.leading_zeros() as u8;
                check!(zserio::bit_length(v) == want, "bit length");
                check!(zserio::bit_length(v as u32) == want, "bit length");
                let nb = if v < 2 { v as u8 } else { 64 - (v - 1).leading_zeros() as u8 };
                check!(zserio::numbits(v) == nb, "numbits");
                v += 1;
            }
        }
    }
}

// ------------------------------------------------------------------ C13
pub mod c13 {
    use super::*;
    harnesses! {
        fn c13_u16_auto [12] { array(&ubits::<u16>(1 + below(16)), 2, true, false, false, All) }
        fn c13_u16_align [12] { array(&ubits::<u16>(1 + below(16)), 2, true, false, true, All) }
        fn c13_i32_fixed [12] { array(&sbits::<i32>(1 + below(32)), 2, false, false, true, All) }
        fn c13_u64_3 [12] { array(&ubits::<u64>(1 + below(64)), 3, true, false, false, All) }
        fn c13_varint32 [12] { array(&VarInt32K, 2, true, false, true, All) }
        fn c13_varuint16_fixed [12] { array(&VarUInt16K, 2, false, false, false, All) }
        fn c13_bool_3 [12] { array(&BoolK, 3, true, false, false, All) }
        fn c13_bool_align [12] { array(&BoolK, 2, true, false, true, All) }
        fn c13_f64 [12] { array(&F64K, 2, true, false, true, All) }
        fn c13_f32 [12] { array(&F32K, 2, false, false, false, All) }
        fn c13_string [12] { array(&StrK(1), 2, true, false, true, All) }
        fn c13_bytes [12] { array(&BytesK(1), 2, true, false, false, All) }
        fn c13_extern [12] { array(&ExternK(5), 2, true, false, true, All) }
        fn c13_empty [12] { array(&VarIntK, 0, true, false, true, All) }
        fn c13_empty_fixed [12] { array(&VarIntK, 0, false, false, false, All) }
        fn c13_empty_packed [12] { array(&ubits::<u8>(1 + below(8)), 0, true, true, true, All) }
        fn c13_elementwise [12] { array_elementwise(&ubits::<u16>(1 + below(16)), 2, false, true) }
    }
}
#[cfg(not(kani))]
pub mod c13n {
    use super::*;
    natives! {
        fn c13_long {
            let (auto, al) = (any(), any());
            each_kind!(k, { array(&k, below(24), auto, false, al, All) })
        }
        fn c13_very_long {
            // element counts with one, two and three byte length prefixes
            let n = match below(4) { 0 => 127 + below(3) as usize, 1 => 16383 + below(3) as usize, 2 => 255 + below(3) as usize, _ => in_urange(0, 3000) as usize };
            let al: bool = any();
            let mut x: u32 = any();
            let v: Vec<u8> = (0..n).map(|_| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 27) as u8 }).collect();
            let offs: Vec<u32> = Vec::new();
            let off = if al { Some(&offs) } else { None };
            let k = ubits::<u8>(5);
            let mut ar = arr(&k, 0, true, false);
            let (mut a, mut b, o) = prefixed2();
            check!(ok(ar.zserio_write(&mut a, &v, off)), "writing a valid array succeeds");
            enc_array(&mut b, &k, &v, true, false, al);
            let a = Stream::of(a);
            check!(a.same(&Stream::of(b)), "array layout");
            check!(ar.zserio_bitsize(&v, off, o).ok() == Some(a.bits() - o), "predicted array size equals bits written");
            let mut r = a.reader();
            r.skip(o).unwrap();
            let l = ar.zserio_read_array_length(&mut r).unwrap();
            let mut u = vec![1u8, 2, 3];
            check!(l == n && ar.zserio_read(&mut r, &mut u, l, off).is_ok() && u == v, "round trip");
        }
    }
}

// ------------------------------------------------------------------ C14
pub mod c14 {
    use super::*;
    use zserio::ztype::array_traits::packing_context_node::PackingContextNode;
    /// an object of `n` bits; fails to write or read on demand
    #[derive(Default)]
    pub struct Obj {
        pub v: u64,
        pub n: u8,
        pub fail: bool,
    }
    pub const N: u8 = 40;
    impl ZserioPackableObject for Obj {
        fn zserio_read(&mut self, r: &mut BitReader) -> zserio::Result<()> {
            self.n = N;
            self.v = r.read_u64(N)?;
            Ok(())
        }
        fn zserio_write(&self, w: &mut BitWriter) -> zserio::Result<()> {
            if self.fail {
                return Err(zserio::ZserioError::DataDoesNotFit);
            }
            spec::put(w, self.v, self.n);
            Ok(())
        }
        fn zserio_read_packed(&mut self, _: &mut PackingContextNode, r: &mut BitReader) -> zserio::Result<()> {
            self.zserio_read(r)
        }
        fn zserio_write_packed(&self, _: &mut PackingContextNode, w: &mut BitWriter) -> zserio::Result<()> {
            self.zserio_write(w)
        }
        fn zserio_bitsize(&self, _: u64) -> zserio::Result<u64> {
            Ok(self.n as u64)
        }
        fn zserio_bitsize_packed(&self, _: &mut PackingContextNode, _: u64) -> zserio::Result<u64> {
            Ok(self.n as u64)
        }
        fn zserio_create_packing_context(_: &mut PackingContextNode) {}
        fn zserio_init_packing_context(&self, _: &mut PackingContextNode) -> zserio::Result<()> {
            Ok(())
        }
    }
    /// output that accepts `cap` bytes, at most `step` per call, then fails
    pub struct Sink {
        pub got: Vec<u8>,
        pub cap: usize,
        pub step: usize,
    }
    impl std::io::Write for Sink {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            let k = b.len().min(self.step).min(self.cap - self.got.len());
            if k == 0 && !b.is_empty() {
                return Err(std::io::Error::from(std::io::ErrorKind::BrokenPipe));
            }
            self.got.extend_from_slice(&b[..k]);
            Ok(k)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    /// input that hands out at most `step` bytes per call and may fail at the end
    pub struct Src<'a> {
        pub data: &'a [u8],
        pub step: usize,
        pub fail: bool,
    }
    impl std::io::Read for Src<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            if self.data.is_empty() && self.fail {
                return Err(std::io::Error::from(std::io::ErrorKind::ConnectionReset));
            }
            let k = b.len().min(self.step).min(self.data.len());
            b[..k].copy_from_slice(&self.data[..k]);
            self.data = &self.data[k..];
            Ok(k)
        }
    }
    harnesses! {
        fn c14_to_bytes [12] {
            let n = below(65);
            let v: u64 = any();
            let fail: bool = any();
            let o = Obj { v, n, fail };
            match opt(zserio::to_bytes(&o)) {
                Some(d) => {
                    check!(!fail, "the object's error is returned");
                    check!(d.len() as u64 == (n as u64 + 7) / 8, "whole bytes");
                    let mut w = BitWriter::new();
                    spec::put(&mut w, v, n);
                    let s = Stream::of(w);
                    let mut r = s.reader();
                    let mut i = 0;
                    while i < d.len() {
                        let k = if n as usize - 8 * i >= 8 { 8 } else { n - 8 * i as u8 };
                        let b = r.read_u8(k).unwrap();
                        check!(d[i] == ((b as u16) << (8 - k)) as u8, "the bits written, then zero bits");
                        i += 1;
                    }
                }
                None => check!(fail, "serializing a valid object succeeds"),
            }
        }
        fn c14_from_bytes [12] {
            let d: [u8; 7] = [any(), any(), any(), any(), any(), any(), any()];
            let l = below(8) as usize;
            match opt(zserio::from_bytes::<Obj>(&d[..l])) {
                Some(o) => {
                    check!(l >= 5, "missing data is an error");
                    let v = (d[0] as u64) << 32 | (d[1] as u64) << 24 | (d[2] as u64) << 16 | (d[3] as u64) << 8 | d[4] as u64;
                    check!(o.v == v, "object of the leading bits, trailing data ignored");
                }
                None => check!(l < 5, "only missing data is an error"),
            }
        }
    }
}
#[cfg(not(kani))]
pub mod c14n {
    use super::c14::*;
    use super::*;
    natives! {
        fn c14_to_writer {
            let n = below(65);
            let o = Obj { v: any(), n, fail: below(8) == 0 };
            let mut s = Sink { got: Vec::new(), cap: below(10) as usize, step: 1 + below(4) as usize };
            let r = zserio::to_writer(&mut s, &o);
            match opt(zserio::to_bytes(&o)) {
                Some(d) => {
                    check!(!o.fail, "the object's error is returned");
                    check!(r.is_ok() == (d.len() <= s.cap), "the stream's error is returned");
                    if r.is_ok() { check!(s.got == d, "same bytes") } else { check!(d.starts_with(&s.got), "a prefix of the bytes") }
                }
                None => { check!(o.fail && r.is_err() && s.got.is_empty(), "the object's error is returned, nothing is written") }
            }
        }
        fn c14_from_reader {
            let d: Vec<u8> = (0..below(9)).map(|_| any()).collect();
            let fail = below(4) == 0;
            let r = zserio::from_reader::<_, Obj>(Src { data: &d, step: 1 + below(3) as usize, fail });
            match (zserio::from_bytes::<Obj>(&d), r) {
                (Ok(a), Ok(b)) => check!(a.v == b.v && !fail, "same object"),
                (_, Err(_)) => check!(fail || d.len() < 5, "the stream's or the object's error"),
                (Err(_), Ok(_)) => check!(false, "same errors"),
            }
        }
        fn c14_from_file {
            let dir = std::env::temp_dir().join(format!("zserio-c14-{}", std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            let f = dir.join("x.bin");
            let d: Vec<u8> = (0..below(9)).map(|_| any()).collect();
            std::fs::write(&f, &d).unwrap();
            let r = zserio::from_file::<_, Obj>(&f);
            let missing = zserio::from_file::<_, Obj>(dir.join("absent")).is_err();
            std::fs::remove_file(&f).unwrap();
            std::fs::remove_dir(&dir).unwrap();
            check!(missing, "a missing file is an error");
            match (zserio::from_bytes::<Obj>(&d), r) {
                (Ok(a), Ok(b)) => check!(a.v == b.v, "same object"),
                (Err(_), Err(_)) => {}
                _ => check!(false, "same result as from bytes"),
            }
        }
        fn c14_extern_object {
            let n = below(65);
            let o = Obj { v: any(), n, fail: false };
            match opt(ExternType::from_object(&o)) {
                Some(e) => check!(e.bit_size == n as u32 && e.data_blob == zserio::to_bytes(&o).unwrap(), "extern of an object"),
                None => check!(false, "wrapping an object succeeds"),
            }
        }
    }
}

#[cfg(kani)]
pub const GROUPS: &[&[(&str, fn())]] = &[];
#[cfg(not(kani))]
pub const GROUPS: &[&[(&str, fn())]] = &[
    c01::ALL, c02::ALL, c03::ALL, c04::ALL, c04n::ALL, c05::ALL, c05n::ALL, c06::ALL, c06n::ALL, c07::ALL, c07n::ALL, c08::ALL, c08n::ALL,
    c09::ALL, c09n::ALL, c10::ALL, c11::ALL, c11n::ALL, c12::ALL, c12::real::ALL, c12n::ALL, c13::ALL, c13n::ALL, c14::ALL, c14n::ALL,
];
