// written by bin/mkscalars.py
// ======================= the array traits of everything but integers =======================
//@ text
/// what is read back for an extern value: the bits beyond the last are zero
pub open spec fn extern_zeroed(v: ExternType) -> ExternType {
    choose|w: ExternType| #![trigger w.data_blob@] w.bit_size == v.bit_size && w.data_blob@ == extern_canon(v.bit_size as int, v.data_blob@)
}
//@ at StringArrayTrait::read end
    proof { assert forall|v: String| #![trigger enc_string(v@)] value@ == v@ implies *value == v by { string_ext(*value, v); } }
//@ at ByteBufferArrayTrait::read end
    proof { assert forall|v: BytesType| #![trigger enc_bytes(v.data_blob@)] value.byte_size == v.byte_size && value.data_blob@ == v.data_blob@ implies *value == v by { vec_ext(value.data_blob, v.data_blob); } }
//@ at BitBufferArrayTrait::read end
    proof { assert forall|v: ExternType| #![trigger enc_extern(v.bit_size as int, v.data_blob@)] value.bit_size == v.bit_size && value.data_blob@ == extern_canon(v.bit_size as int, v.data_blob@) implies *value == extern_zeroed(v) by {
        let z = extern_zeroed(v); assert(z.bit_size == v.bit_size && z.data_blob@ == extern_canon(v.bit_size as int, v.data_blob@)); vec_ext(value.data_blob, z.data_blob); } }
//@ at BooleanArrayTrait::read start
    proof { assert forall|v: bool| #![trigger seq![v]] reader.sees(seq![v]) implies reader.all()[reader.pos()] == v by { assert(reader.all().subrange(reader.pos(), reader.pos() + 1)[0] == v); } }
//@ external StringArrayTrait::from_u64
//@ text
pub mod m_boolean {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len, bytes64_len, bytes32_len, bytes16_len};
//@ source crates/zserio/src/ztype/array_traits/boolean_array_trait.rs
//@ text
}
//@ impl ArrayTrait:BooleanArrayTrait
    open spec fn okay(&self) -> bool { true }
    open spec fn constant(&self) -> bool { true }
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits { |p: int, v: $T| seq![v] }
    open spec fn valid(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn shape(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn canon(&self) -> spec_fn($T) -> $T { |v: $T| v }
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool { |b: $T, v: $T| true }
    open spec fn sgn(&self) -> bool { false }
    open spec fn delta(&self) -> bool { false }
    open spec fn packs(&self) -> bool { false }
    open spec fn num(&self) -> spec_fn($T) -> int { |v: $T| 0 }
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool { |s: Seq<$T>| false }
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool { |c: PackingContextNode| false }
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits { |s: Seq<$T>, k: int, p: int| Seq::empty() }
//@ text
pub mod m_float16 {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len, bytes64_len, bytes32_len, bytes16_len};
//@ source crates/zserio/src/ztype/array_traits/float16_array_trait.rs
//@ text
}
//@ impl ArrayTrait:Float16ArrayTrait
    open spec fn okay(&self) -> bool { true }
    open spec fn constant(&self) -> bool { true }
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits { |p: int, v: $T| byte_bits(bytes16(half_of(v))) }
    open spec fn valid(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn shape(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn canon(&self) -> spec_fn($T) -> $T { |v: $T| half_value(half_of(v)) }
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool { |b: $T, v: $T| true }
    open spec fn sgn(&self) -> bool { false }
    open spec fn delta(&self) -> bool { false }
    open spec fn packs(&self) -> bool { false }
    open spec fn num(&self) -> spec_fn($T) -> int { |v: $T| 0 }
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool { |s: Seq<$T>| false }
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool { |c: PackingContextNode| false }
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits { |s: Seq<$T>, k: int, p: int| Seq::empty() }
//@ text
pub mod m_float32 {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len, bytes64_len, bytes32_len, bytes16_len};
//@ source crates/zserio/src/ztype/array_traits/float32_array_trait.rs
//@ text
}
//@ impl ArrayTrait:Float32ArrayTrait
    open spec fn okay(&self) -> bool { true }
    open spec fn constant(&self) -> bool { true }
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits { |p: int, v: $T| byte_bits(bytes32(v)) }
    open spec fn valid(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn shape(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn canon(&self) -> spec_fn($T) -> $T { |v: $T| v }
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool { |b: $T, v: $T| true }
    open spec fn sgn(&self) -> bool { false }
    open spec fn delta(&self) -> bool { false }
    open spec fn packs(&self) -> bool { false }
    open spec fn num(&self) -> spec_fn($T) -> int { |v: $T| 0 }
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool { |s: Seq<$T>| false }
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool { |c: PackingContextNode| false }
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits { |s: Seq<$T>, k: int, p: int| Seq::empty() }
//@ text
pub mod m_float64 {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len, bytes64_len, bytes32_len, bytes16_len};
//@ source crates/zserio/src/ztype/array_traits/float64_array_trait.rs
//@ text
}
//@ impl ArrayTrait:Float64ArrayTrait
    open spec fn okay(&self) -> bool { true }
    open spec fn constant(&self) -> bool { true }
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits { |p: int, v: $T| byte_bits(bytes64(v)) }
    open spec fn valid(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn shape(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn canon(&self) -> spec_fn($T) -> $T { |v: $T| v }
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool { |b: $T, v: $T| true }
    open spec fn sgn(&self) -> bool { false }
    open spec fn delta(&self) -> bool { false }
    open spec fn packs(&self) -> bool { false }
    open spec fn num(&self) -> spec_fn($T) -> int { |v: $T| 0 }
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool { |s: Seq<$T>| false }
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool { |c: PackingContextNode| false }
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits { |s: Seq<$T>, k: int, p: int| Seq::empty() }
//@ text
pub mod m_string {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len, bytes64_len, bytes32_len, bytes16_len};
//@ source crates/zserio/src/ztype/array_traits/string_array_trait.rs
//@ text
}
//@ impl ArrayTrait:StringArrayTrait
    open spec fn okay(&self) -> bool { true }
    open spec fn constant(&self) -> bool { false }
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits { |p: int, v: $T| enc_string(v@) }
    open spec fn valid(&self) -> spec_fn($T) -> bool { |v: $T| utf8(v@).len() <= 0x7fff_ffff }
    open spec fn shape(&self) -> spec_fn($T) -> bool { |v: $T| true }
    open spec fn canon(&self) -> spec_fn($T) -> $T { |v: $T| v }
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool { |b: $T, v: $T| true }
    open spec fn sgn(&self) -> bool { false }
    open spec fn delta(&self) -> bool { false }
    open spec fn packs(&self) -> bool { false }
    open spec fn num(&self) -> spec_fn($T) -> int { |v: $T| 0 }
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool { |s: Seq<$T>| false }
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool { |c: PackingContextNode| false }
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits { |s: Seq<$T>, k: int, p: int| Seq::empty() }
//@ text
pub mod m_byte_buffer {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len, bytes64_len, bytes32_len, bytes16_len};
//@ source crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
//@ text
}
//@ impl ArrayTrait:ByteBufferArrayTrait
    open spec fn okay(&self) -> bool { true }
    open spec fn constant(&self) -> bool { false }
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits { |p: int, v: $T| enc_bytes(v.data_blob@) }
    open spec fn valid(&self) -> spec_fn($T) -> bool { |v: $T| v.byte_size <= 0x7fff_ffff }
    open spec fn shape(&self) -> spec_fn($T) -> bool { |v: $T| v.byte_size == v.data_blob@.len() }
    open spec fn canon(&self) -> spec_fn($T) -> $T { |v: $T| v }
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool { |b: $T, v: $T| true }
    open spec fn sgn(&self) -> bool { false }
    open spec fn delta(&self) -> bool { false }
    open spec fn packs(&self) -> bool { false }
    open spec fn num(&self) -> spec_fn($T) -> int { |v: $T| 0 }
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool { |s: Seq<$T>| false }
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool { |c: PackingContextNode| false }
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits { |s: Seq<$T>, k: int, p: int| Seq::empty() }
//@ text
pub mod m_bit_buffer {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len, bytes64_len, bytes32_len, bytes16_len};
//@ source crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
//@ text
}
//@ impl ArrayTrait:BitBufferArrayTrait
    open spec fn okay(&self) -> bool { true }
    open spec fn constant(&self) -> bool { false }
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits { |p: int, v: $T| enc_extern(v.bit_size as int, v.data_blob@) }
    open spec fn valid(&self) -> spec_fn($T) -> bool { |v: $T| v.bit_size <= 0x7fff_ffff }
    open spec fn shape(&self) -> spec_fn($T) -> bool { |v: $T| extern_shape(v.bit_size as int, v.data_blob@) }
    open spec fn canon(&self) -> spec_fn($T) -> $T { |v: $T| extern_zeroed(v) }
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool { |b: $T, v: $T| true }
    open spec fn sgn(&self) -> bool { false }
    open spec fn delta(&self) -> bool { false }
    open spec fn packs(&self) -> bool { false }
    open spec fn num(&self) -> spec_fn($T) -> int { |v: $T| 0 }
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool { |s: Seq<$T>| false }
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool { |c: PackingContextNode| false }
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { |c: PackingContextNode, s: Seq<$T>, k: int| false }
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits { |s: Seq<$T>, k: int, p: int| Seq::empty() }
