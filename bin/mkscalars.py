#!/usr/bin/env python3
"""Writes /verif/verus/scalars.vspec: the specification functions of the array traits of
everything but integers (these elements are never packed one by one)."""
import os
# file, trait, constant, enc, valid, shape, canon
L = [
 ("boolean", "Boolean", "true", "seq![v]", "true", "true", "v"),
 ("float16", "Float16", "true", "byte_bits(bytes16(half_of(v)))", "true", "true", "half_value(half_of(v))"),
 ("float32", "Float32", "true", "byte_bits(bytes32(v))", "true", "true", "v"),
 ("float64", "Float64", "true", "byte_bits(bytes64(v))", "true", "true", "v"),
 ("string", "String", "false", "enc_string(v@)", "utf8(v@).len() <= 0x7fff_ffff", "true", "v"),
 ("byte_buffer", "ByteBuffer", "false", "enc_bytes(v.data_blob@)", "v.byte_size <= 0x7fff_ffff", "v.byte_size == v.data_blob@.len()", "v"),
 ("bit_buffer", "BitBuffer", "false", "enc_extern(v.bit_size as int, v.data_blob@)", "v.bit_size <= 0x7fff_ffff", "extern_shape(v.bit_size as int, v.data_blob@)",
  "extern_zeroed(v)"),
]
o = """// written by bin/mkscalars.py
// ======================= the array traits of everything but integers =======================
//@ text
/// what is read back for an extern value: the bits beyond the last are zero
pub open spec fn extern_zeroed(v: ExternType) -> ExternType {
    choose|w: ExternType| #![trigger w.data_blob@] w.bit_size == v.bit_size && w.data_blob@ == extern_canon(v.bit_size as int, v.data_blob@)
}
//@ at StringArrayTrait::read end
    proof { assert forall|v: String| #![trigger enc_string(v@)] value@ == v@ implies *value == v by { string_ext(*value, v); } }
//@ at ByteBufferArrayTrait::read end
    proof { assert forall|v: BytesType| #![trigger enc_bytes(v.data_blob@)] value.byte_size == v.byte_size && value.data_blob@ == v.data_blob@ implies *value == v by { vec_ext(value.data_blob, v.data_blob); } }
//@ at BitBufferArrayTrait::read end
    proof { assert forall|v: ExternType| #![trigger enc_extern(v.bit_size as int, v.data_blob@)] value.bit_size == v.bit_size && value.data_blob@ == extern_canon(v.bit_size as int, v.data_blob@) implies *value == extern_zeroed(v) by {
        let z = extern_zeroed(v); assert(z.bit_size == v.bit_size && z.data_blob@ == extern_canon(v.bit_size as int, v.data_blob@)); vec_ext(value.data_blob, z.data_blob); } }
//@ at BooleanArrayTrait::read start
    proof { assert forall|v: bool| #![trigger seq![v]] reader.sees(seq![v]) implies reader.all()[reader.pos()] == v by { assert(reader.all().subrange(reader.pos(), reader.pos() + 1)[0] == v); } }
//@ external StringArrayTrait::from_u64
"""
for f, t, const, enc, valid, shape, canon in L:
    o += f"""//@ text
pub mod m_{f} {{
use super::*;
broadcast use {{ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len, bytes64_len, bytes32_len, bytes16_len}};
//@ source crates/zserio/src/ztype/array_traits/{f}_array_trait.rs
//@ text
}}
//@ impl ArrayTrait:{t}ArrayTrait
    open spec fn okay(&self) -> bool {{ true }}
    open spec fn constant(&self) -> bool {{ {const} }}
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits {{ |p: int, v: $T| {enc} }}
    open spec fn valid(&self) -> spec_fn($T) -> bool {{ |v: $T| {valid} }}
    open spec fn shape(&self) -> spec_fn($T) -> bool {{ |v: $T| {shape} }}
    open spec fn canon(&self) -> spec_fn($T) -> $T {{ |v: $T| {canon} }}
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool {{ |b: $T, v: $T| true }}
    open spec fn sgn(&self) -> bool {{ false }}
    open spec fn delta(&self) -> bool {{ false }}
    open spec fn packs(&self) -> bool {{ false }}
    open spec fn num(&self) -> spec_fn($T) -> int {{ |v: $T| 0 }}
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool {{ |s: Seq<$T>| false }}
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool {{ |c: PackingContextNode| false }}
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool {{ |c: PackingContextNode, s: Seq<$T>, k: int| false }}
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool {{ |c: PackingContextNode, s: Seq<$T>, k: int| false }}
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool {{ |c: PackingContextNode, s: Seq<$T>, k: int| false }}
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits {{ |s: Seq<$T>, k: int, p: int| Seq::empty() }}
"""
open(os.path.join(os.path.dirname(__file__), "../verus/scalars.vspec"), "w").write(o)
