//! The zserio wire format, written independently of the code under test.
//! Everything is expressed with single-field appends to a bit stream.
use rust_bitwriter::BitWriter;

pub fn put(w: &mut BitWriter, v: u64, n: u8) {
    w.write_u64(v, n).unwrap();
}

/// capacity in bits of a k-byte varuint whose maximum length is max bytes
fn cap_unsigned(k: u8, max: u8) -> u32 {
    if k == max { 7 * (k as u32 - 1) + 8 } else { 7 * k as u32 }
}
fn fits(v: u64, bits: u32) -> bool {
    bits >= 64 || v >> bits == 0
}
pub fn varuint_len(v: u64, max: u8) -> Option<u8> {
    let mut k = 1;
    while k <= max {
        if fits(v, cap_unsigned(k, max)) {
            return Some(k);
        }
        k += 1;
    }
    None
}
/// magnitude capacity of a k-byte varint
pub fn varint_len(v: i64, max: u8) -> Option<u8> {
    if v == i64::MIN {
        return if max == 9 { Some(1) } else { None };
    }
    let m = v.unsigned_abs();
    let mut k = 1;
    while k <= max {
        if fits(m, cap_unsigned(k, max) - 1) {
            return Some(k);
        }
        k += 1;
    }
    None
}
pub fn varuint(w: &mut BitWriter, v: u64, max: u8) {
    let k = varuint_len(v, max).unwrap();
    let mut left = cap_unsigned(k, max);
    let mut i = 1;
    while i < k {
        left -= 7;
        put(w, 1, 1);
        put(w, v >> left, 7);
        i += 1;
    }
    if k == max {
        put(w, v, 8);
    } else {
        put(w, 0, 1);
        put(w, v, 7);
    }
}
pub fn varint(w: &mut BitWriter, v: i64, max: u8) {
    if v == i64::MIN {
        put(w, 0x80, 8);
        return;
    }
    let k = varint_len(v, max).unwrap();
    let m = v.unsigned_abs();
    put(w, (v < 0) as u64, 1);
    let mut left = cap_unsigned(k, max) - 1;
    if k == 1 {
        put(w, 0, 1);
        put(w, m, 6);
        return;
    }
    left -= 6;
    put(w, 1, 1);
    put(w, m >> left, 6);
    let mut i = 2;
    while i < k {
        left -= 7;
        put(w, 1, 1);
        put(w, m >> left, 7);
        i += 1;
    }
    if k == max {
        put(w, m, 8);
    } else {
        put(w, 0, 1);
        put(w, m, 7);
    }
}
pub fn varsize(w: &mut BitWriter, v: u64) {
    varuint(w, v, 5)
}
pub const VARSIZE_MAX: u64 = (1 << 31) - 1;

pub fn bitlen(v: u128) -> u32 {
    128 - v.leading_zeros()
}
