// written by bin/mkints.py
// ======================= the array traits of integers =======================
//@ at *::init_context start
    proof { let d: &dyn ArrayTrait<$T> = self; assert(d.num() == self.num()); assert(d.enc() == self.enc()); assert(d.sgn() == ArrayTrait::<$T>::sgn(self)); assert(d.canon() == self.canon()); }
//@ at *::bitsize_of_packed start
    proof { let d: &dyn ArrayTrait<$T> = self; assert(d.num() == self.num()); assert(d.enc() == self.enc()); assert(d.sgn() == ArrayTrait::<$T>::sgn(self)); assert(d.canon() == self.canon()); }
//@ at *::initialize_offsets_packed start
    proof { let d: &dyn ArrayTrait<$T> = self; assert(d.num() == self.num()); assert(d.enc() == self.enc()); assert(d.sgn() == ArrayTrait::<$T>::sgn(self)); assert(d.canon() == self.canon()); }
//@ at *::write_packed start
    proof { let d: &dyn ArrayTrait<$T> = self; assert(d.num() == self.num()); assert(d.enc() == self.enc()); assert(d.sgn() == ArrayTrait::<$T>::sgn(self)); assert(d.canon() == self.canon()); }
//@ at *::read_packed start
    proof { let d: &dyn ArrayTrait<$T> = self; assert(d.num() == self.num()); assert(d.enc() == self.enc()); assert(d.sgn() == ArrayTrait::<$T>::sgn(self)); assert(d.canon() == self.canon()); }
//@ text
pub mod m_varint16 {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len};
//@ source crates/zserio/src/ztype/array_traits/varint16_array_trait.rs
//@ text
}
//@ impl ArrayTrait:VarInt16ArrayTrait
    open spec fn okay(&self) -> bool { true }
    open spec fn constant(&self) -> bool { false }
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits { |p: int, v: $T| vbits(Var::I16, v as int) }
    open spec fn valid(&self) -> spec_fn($T) -> bool { |v: $T| vrange(Var::I16, v as int) }
    open spec fn sgn(&self) -> bool { true }
    open spec fn delta(&self) -> bool { true }
    open spec fn packs(&self) -> bool { true }
    open spec fn canon(&self) -> spec_fn($T) -> $T { |v: $T| v }
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool { |b: $T, v: $T| true }
    open spec fn shape(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn num(&self) -> spec_fn($T) -> int { |v: $T| v as int }
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool { |s: Seq<$T>| delta_small(lens(self.enc(), s)) }
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool { |c: PackingContextNode| c.context is Some && c.context->Some_0.readable() }
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.sz(nums(self.num(), s), lens(self.enc(), s), true, k) }
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.wr(nums(self.num(), s), lens(self.enc(), s), true, k) }
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.rd(nums(self.num(), s), lens(self.enc(), s), true, k) }
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits { |s: Seq<$T>, k: int, p: int| delta_enc(self.num(), self.enc(), s, k) }
//@ text
pub mod m_varint32 {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len};
//@ source crates/zserio/src/ztype/array_traits/varint32_array_trait.rs
//@ text
}
//@ impl ArrayTrait:VarInt32ArrayTrait
    open spec fn okay(&self) -> bool { true }
    open spec fn constant(&self) -> bool { false }
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits { |p: int, v: $T| vbits(Var::I32, v as int) }
    open spec fn valid(&self) -> spec_fn($T) -> bool { |v: $T| vrange(Var::I32, v as int) }
    open spec fn sgn(&self) -> bool { true }
    open spec fn delta(&self) -> bool { true }
    open spec fn packs(&self) -> bool { true }
    open spec fn canon(&self) -> spec_fn($T) -> $T { |v: $T| v }
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool { |b: $T, v: $T| true }
    open spec fn shape(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn num(&self) -> spec_fn($T) -> int { |v: $T| v as int }
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool { |s: Seq<$T>| delta_small(lens(self.enc(), s)) }
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool { |c: PackingContextNode| c.context is Some && c.context->Some_0.readable() }
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.sz(nums(self.num(), s), lens(self.enc(), s), true, k) }
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.wr(nums(self.num(), s), lens(self.enc(), s), true, k) }
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.rd(nums(self.num(), s), lens(self.enc(), s), true, k) }
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits { |s: Seq<$T>, k: int, p: int| delta_enc(self.num(), self.enc(), s, k) }
//@ text
pub mod m_varint64 {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len};
//@ source crates/zserio/src/ztype/array_traits/varint64_array_trait.rs
//@ text
}
//@ impl ArrayTrait:VarInt64ArrayTrait
    open spec fn okay(&self) -> bool { true }
    open spec fn constant(&self) -> bool { false }
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits { |p: int, v: $T| vbits(Var::I64, v as int) }
    open spec fn valid(&self) -> spec_fn($T) -> bool { |v: $T| vrange(Var::I64, v as int) }
    open spec fn sgn(&self) -> bool { true }
    open spec fn delta(&self) -> bool { true }
    open spec fn packs(&self) -> bool { true }
    open spec fn canon(&self) -> spec_fn($T) -> $T { |v: $T| v }
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool { |b: $T, v: $T| true }
    open spec fn shape(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn num(&self) -> spec_fn($T) -> int { |v: $T| v as int }
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool { |s: Seq<$T>| delta_small(lens(self.enc(), s)) }
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool { |c: PackingContextNode| c.context is Some && c.context->Some_0.readable() }
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.sz(nums(self.num(), s), lens(self.enc(), s), true, k) }
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.wr(nums(self.num(), s), lens(self.enc(), s), true, k) }
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.rd(nums(self.num(), s), lens(self.enc(), s), true, k) }
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits { |s: Seq<$T>, k: int, p: int| delta_enc(self.num(), self.enc(), s, k) }
//@ text
pub mod m_varint {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len};
//@ source crates/zserio/src/ztype/array_traits/varint_array_trait.rs
//@ text
}
//@ impl ArrayTrait:VarIntArrayTrait
    open spec fn okay(&self) -> bool { true }
    open spec fn constant(&self) -> bool { false }
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits { |p: int, v: $T| vbits(Var::I, v as int) }
    open spec fn valid(&self) -> spec_fn($T) -> bool { |v: $T| vrange(Var::I, v as int) }
    open spec fn sgn(&self) -> bool { true }
    open spec fn delta(&self) -> bool { true }
    open spec fn packs(&self) -> bool { true }
    open spec fn canon(&self) -> spec_fn($T) -> $T { |v: $T| v }
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool { |b: $T, v: $T| true }
    open spec fn shape(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn num(&self) -> spec_fn($T) -> int { |v: $T| v as int }
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool { |s: Seq<$T>| delta_small(lens(self.enc(), s)) }
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool { |c: PackingContextNode| c.context is Some && c.context->Some_0.readable() }
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.sz(nums(self.num(), s), lens(self.enc(), s), true, k) }
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.wr(nums(self.num(), s), lens(self.enc(), s), true, k) }
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.rd(nums(self.num(), s), lens(self.enc(), s), true, k) }
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits { |s: Seq<$T>, k: int, p: int| delta_enc(self.num(), self.enc(), s, k) }
//@ text
pub mod m_varuint16 {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len};
//@ source crates/zserio/src/ztype/array_traits/varuint16_array_trait.rs
//@ text
}
//@ impl ArrayTrait:VarUint16ArrayTrait
    open spec fn okay(&self) -> bool { true }
    open spec fn constant(&self) -> bool { false }
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits { |p: int, v: $T| vbits(Var::U16, v as int) }
    open spec fn valid(&self) -> spec_fn($T) -> bool { |v: $T| vrange(Var::U16, v as int) }
    open spec fn sgn(&self) -> bool { false }
    open spec fn delta(&self) -> bool { true }
    open spec fn packs(&self) -> bool { true }
    open spec fn canon(&self) -> spec_fn($T) -> $T { |v: $T| v }
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool { |b: $T, v: $T| true }
    open spec fn shape(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn num(&self) -> spec_fn($T) -> int { |v: $T| v as int }
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool { |s: Seq<$T>| delta_small(lens(self.enc(), s)) }
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool { |c: PackingContextNode| c.context is Some && c.context->Some_0.readable() }
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.sz(nums(self.num(), s), lens(self.enc(), s), false, k) }
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.wr(nums(self.num(), s), lens(self.enc(), s), false, k) }
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.rd(nums(self.num(), s), lens(self.enc(), s), false, k) }
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits { |s: Seq<$T>, k: int, p: int| delta_enc(self.num(), self.enc(), s, k) }
//@ text
pub mod m_varuint32 {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len};
//@ source crates/zserio/src/ztype/array_traits/varuint32_array_trait.rs
//@ text
}
//@ impl ArrayTrait:VarUint32ArrayTrait
    open spec fn okay(&self) -> bool { true }
    open spec fn constant(&self) -> bool { false }
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits { |p: int, v: $T| vbits(Var::U32, v as int) }
    open spec fn valid(&self) -> spec_fn($T) -> bool { |v: $T| vrange(Var::U32, v as int) }
    open spec fn sgn(&self) -> bool { false }
    open spec fn delta(&self) -> bool { true }
    open spec fn packs(&self) -> bool { true }
    open spec fn canon(&self) -> spec_fn($T) -> $T { |v: $T| v }
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool { |b: $T, v: $T| true }
    open spec fn shape(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn num(&self) -> spec_fn($T) -> int { |v: $T| v as int }
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool { |s: Seq<$T>| delta_small(lens(self.enc(), s)) }
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool { |c: PackingContextNode| c.context is Some && c.context->Some_0.readable() }
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.sz(nums(self.num(), s), lens(self.enc(), s), false, k) }
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.wr(nums(self.num(), s), lens(self.enc(), s), false, k) }
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.rd(nums(self.num(), s), lens(self.enc(), s), false, k) }
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits { |s: Seq<$T>, k: int, p: int| delta_enc(self.num(), self.enc(), s, k) }
//@ text
pub mod m_varuint64 {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len};
//@ source crates/zserio/src/ztype/array_traits/varuint64_array_trait.rs
//@ text
}
//@ impl ArrayTrait:VarUint64ArrayTrait
    open spec fn okay(&self) -> bool { true }
    open spec fn constant(&self) -> bool { false }
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits { |p: int, v: $T| vbits(Var::U64, v as int) }
    open spec fn valid(&self) -> spec_fn($T) -> bool { |v: $T| vrange(Var::U64, v as int) }
    open spec fn sgn(&self) -> bool { false }
    open spec fn delta(&self) -> bool { true }
    open spec fn packs(&self) -> bool { true }
    open spec fn canon(&self) -> spec_fn($T) -> $T { |v: $T| v }
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool { |b: $T, v: $T| true }
    open spec fn shape(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn num(&self) -> spec_fn($T) -> int { |v: $T| v as int }
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool { |s: Seq<$T>| delta_small(lens(self.enc(), s)) }
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool { |c: PackingContextNode| c.context is Some && c.context->Some_0.readable() }
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.sz(nums(self.num(), s), lens(self.enc(), s), false, k) }
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.wr(nums(self.num(), s), lens(self.enc(), s), false, k) }
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.rd(nums(self.num(), s), lens(self.enc(), s), false, k) }
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits { |s: Seq<$T>, k: int, p: int| delta_enc(self.num(), self.enc(), s, k) }
//@ text
pub mod m_varuint {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len};
//@ source crates/zserio/src/ztype/array_traits/varuint_array_trait.rs
//@ text
}
//@ impl ArrayTrait:VarUintArrayTrait
    open spec fn okay(&self) -> bool { true }
    open spec fn constant(&self) -> bool { false }
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits { |p: int, v: $T| vbits(Var::U, v as int) }
    open spec fn valid(&self) -> spec_fn($T) -> bool { |v: $T| vrange(Var::U, v as int) }
    open spec fn sgn(&self) -> bool { false }
    open spec fn delta(&self) -> bool { true }
    open spec fn packs(&self) -> bool { true }
    open spec fn canon(&self) -> spec_fn($T) -> $T { |v: $T| v }
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool { |b: $T, v: $T| true }
    open spec fn shape(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn num(&self) -> spec_fn($T) -> int { |v: $T| v as int }
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool { |s: Seq<$T>| delta_small(lens(self.enc(), s)) }
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool { |c: PackingContextNode| c.context is Some && c.context->Some_0.readable() }
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.sz(nums(self.num(), s), lens(self.enc(), s), false, k) }
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.wr(nums(self.num(), s), lens(self.enc(), s), false, k) }
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.rd(nums(self.num(), s), lens(self.enc(), s), false, k) }
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits { |s: Seq<$T>, k: int, p: int| delta_enc(self.num(), self.enc(), s, k) }
//@ text
pub mod m_varsize {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len};
//@ source crates/zserio/src/ztype/array_traits/varsize_array_trait.rs
//@ text
}
//@ impl ArrayTrait:VarSizeArrayTrait
    open spec fn okay(&self) -> bool { true }
    open spec fn constant(&self) -> bool { false }
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits { |p: int, v: $T| vbits(Var::Size, v as int) }
    open spec fn valid(&self) -> spec_fn($T) -> bool { |v: $T| vrange(Var::Size, v as int) }
    open spec fn sgn(&self) -> bool { false }
    open spec fn delta(&self) -> bool { true }
    open spec fn packs(&self) -> bool { true }
    open spec fn canon(&self) -> spec_fn($T) -> $T { |v: $T| v }
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool { |b: $T, v: $T| true }
    open spec fn shape(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn num(&self) -> spec_fn($T) -> int { |v: $T| v as int }
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool { |s: Seq<$T>| delta_small(lens(self.enc(), s)) }
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool { |c: PackingContextNode| c.context is Some && c.context->Some_0.readable() }
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.sz(nums(self.num(), s), lens(self.enc(), s), false, k) }
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.wr(nums(self.num(), s), lens(self.enc(), s), false, k) }
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.rd(nums(self.num(), s), lens(self.enc(), s), false, k) }
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits { |s: Seq<$T>, k: int, p: int| delta_enc(self.num(), self.enc(), s, k) }
//@ text
pub mod m_bit_field {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len};
//@ source crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
//@ text
}
//@ impl ArrayTrait:BitFieldArrayTrait
    open spec fn okay(&self) -> bool { 0 < self.num_bits <= 64 }
    open spec fn constant(&self) -> bool { true }
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits { |p: int, v: $T| sbits(v as i64, self.num_bits as int) }
    open spec fn valid(&self) -> spec_fn($T) -> bool { |v: $T| sfits(v as i64, self.num_bits as int) }
    open spec fn sgn(&self) -> bool { true }
    open spec fn delta(&self) -> bool { true }
    open spec fn packs(&self) -> bool { true }
    open spec fn canon(&self) -> spec_fn($T) -> $T { |v: $T| v }
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool { |b: $T, v: $T| true }
    open spec fn shape(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn num(&self) -> spec_fn($T) -> int { |v: $T| v as int }
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool { |s: Seq<$T>| delta_small(lens(self.enc(), s)) }
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool { |c: PackingContextNode| c.context is Some && c.context->Some_0.readable() }
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.sz(nums(self.num(), s), lens(self.enc(), s), true, k) }
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.wr(nums(self.num(), s), lens(self.enc(), s), true, k) }
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.rd(nums(self.num(), s), lens(self.enc(), s), true, k) }
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits { |s: Seq<$T>, k: int, p: int| delta_enc(self.num(), self.enc(), s, k) }
//@ text
pub mod m_unsigned_bit_field {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len};
//@ source crates/zserio/src/ztype/array_traits/unsigned_bit_field_array_trait.rs
//@ text
}
//@ impl ArrayTrait:UnsignedBitFieldArrayTrait
    open spec fn okay(&self) -> bool { 0 < self.num_bits <= 64 }
    open spec fn constant(&self) -> bool { true }
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits { |p: int, v: $T| ubits(v as u64, self.num_bits as int) }
    open spec fn valid(&self) -> spec_fn($T) -> bool { |v: $T| ufits(v as u64, self.num_bits as int) }
    open spec fn sgn(&self) -> bool { false }
    open spec fn delta(&self) -> bool { true }
    open spec fn packs(&self) -> bool { true }
    open spec fn canon(&self) -> spec_fn($T) -> $T { |v: $T| v }
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool { |b: $T, v: $T| true }
    open spec fn shape(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn num(&self) -> spec_fn($T) -> int { |v: $T| v as int }
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool { |s: Seq<$T>| delta_small(lens(self.enc(), s)) }
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool { |c: PackingContextNode| c.context is Some && c.context->Some_0.readable() }
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.sz(nums(self.num(), s), lens(self.enc(), s), false, k) }
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.wr(nums(self.num(), s), lens(self.enc(), s), false, k) }
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.rd(nums(self.num(), s), lens(self.enc(), s), false, k) }
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits { |s: Seq<$T>, k: int, p: int| delta_enc(self.num(), self.enc(), s, k) }
