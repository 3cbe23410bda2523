#!/usr/bin/env python3
"""Writes /verif/verus/ints.vspec: the specification functions of the array traits of integers."""
import os
V = [("varint16", "VarInt16", "I16", 1), ("varint32", "VarInt32", "I32", 1), ("varint64", "VarInt64", "I64", 1), ("varint", "VarInt", "I", 1),
     ("varuint16", "VarUint16", "U16", 0), ("varuint32", "VarUint32", "U32", 0), ("varuint64", "VarUint64", "U64", 0), ("varuint", "VarUint", "U", 0), ("varsize", "VarSize", "Size", 0)]
L = []
for f, t, k, s in V:
    L.append((f, t, s, "true", "false", f"vbits(Var::{k}, v as int)", f"vrange(Var::{k}, v as int)"))
L.append(("bit_field", "BitField", 1, "0 < self.num_bits <= 64", "true", "sbits(v as i64, self.num_bits as int)", "sfits(v as i64, self.num_bits as int)"))
L.append(("unsigned_bit_field", "UnsignedBitField", 0, "0 < self.num_bits <= 64", "true", "ubits(v as u64, self.num_bits as int)", "ufits(v as u64, self.num_bits as int)"))
o = "// written by bin/mkints.py\n// ======================= the array traits of integers =======================\n"
for m in ["init_context", "bitsize_of_packed", "initialize_offsets_packed", "write_packed", "read_packed"]:
    o += f"""//@ at *::{m} start
    proof {{ let d: &dyn ArrayTrait<$T> = self; assert(d.num() == self.num()); assert(d.enc() == self.enc()); assert(d.sgn() == ArrayTrait::<$T>::sgn(self)); assert(d.canon() == self.canon()); }}
"""
for f, t, s, ok, const, enc, valid in L:
    s = "true" if s else "false"
    o += f"""//@ text
pub mod m_{f} {{
use super::*;
broadcast use {{ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len}};
//@ source crates/zserio/src/ztype/array_traits/{f}_array_trait.rs
//@ text
}}
//@ impl ArrayTrait:{t}ArrayTrait
    open spec fn okay(&self) -> bool {{ {ok} }}
    open spec fn constant(&self) -> bool {{ {const} }}
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits {{ |p: int, v: $T| {enc} }}
    open spec fn valid(&self) -> spec_fn($T) -> bool {{ |v: $T| {valid} }}
    open spec fn sgn(&self) -> bool {{ {s} }}
    open spec fn delta(&self) -> bool {{ true }}
    open spec fn packs(&self) -> bool {{ true }}
    open spec fn canon(&self) -> spec_fn($T) -> $T {{ |v: $T| v }}
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool {{ |b: $T, v: $T| true }}
    open spec fn shape(&self) -> spec_fn($T) -> bool {{ |v: $T| true }}
    open spec fn num(&self) -> spec_fn($T) -> int {{ |v: $T| v as int }}
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool {{ |s: Seq<$T>| delta_small(lens(self.enc(), s)) }}
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool {{ |c: PackingContextNode| c.context is Some && c.context->Some_0.readable() }}
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool {{ |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.sz(nums(self.num(), s), lens(self.enc(), s), {s}, k) }}
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool {{ |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.wr(nums(self.num(), s), lens(self.enc(), s), {s}, k) }}
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool {{ |c: PackingContextNode, s: Seq<$T>, k: int| c.context is Some && c.context->Some_0.rd(nums(self.num(), s), lens(self.enc(), s), {s}, k) }}
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits {{ |s: Seq<$T>, k: int, p: int| delta_enc(self.num(), self.enc(), s, k) }}
"""
open(os.path.join(os.path.dirname(__file__), "../verus/ints.vspec"), "w").write(o)
