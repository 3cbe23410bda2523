// ======================= objects, and arrays of objects =======================
//@ text
pub mod m_object {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len};
//@ source crates/zserio/src/ztype/traits.rs

//@ source crates/zserio/src/ztype/array_traits/object_array_trait.rs
//@ text
}
pub use m_object::*;
//@ impl ZserioPackableObject
    /// the contract of an object: what the functions generated for a type promise
    spec fn o_enc() -> spec_fn(int, Self) -> Bits;
    spec fn o_shape() -> spec_fn(Self) -> bool;
    spec fn o_valid() -> spec_fn(Self) -> bool;
    spec fn o_canon() -> spec_fn(Self) -> Self;
    spec fn o_blank() -> spec_fn(Self, Self) -> bool;
    spec fn o_psmall() -> spec_fn(Seq<Self>) -> bool;
    spec fn o_preadable() -> spec_fn(PackingContextNode) -> bool;
    spec fn o_psz() -> spec_fn(PackingContextNode, Seq<Self>, int) -> bool;
    spec fn o_pwr() -> spec_fn(PackingContextNode, Seq<Self>, int) -> bool;
    spec fn o_prd() -> spec_fn(PackingContextNode, Seq<Self>, int) -> bool;
    spec fn o_penc() -> spec_fn(Seq<Self>, int, int) -> Bits;
//@ fn ZserioPackableObject::zserio_read
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        forall|v: Self| #![trigger (Self::o_enc())(old(reader).pos(), v)] (Self::o_valid())(v) && (Self::o_shape())(v) && (Self::o_blank())(*old(self), v) && old(reader).sees((Self::o_enc())(old(reader).pos(), v)) ==>
            res is Ok && *final(self) == (Self::o_canon())(v) && final(reader).at(old(reader), (Self::o_enc())(old(reader).pos(), v).len() as int),
//@ fn ZserioPackableObject::zserio_write
    requires (Self::o_shape())(*self), old(writer)@.len() + (Self::o_enc())(old(writer)@.len() as int, *self).len() <= u64::MAX,
    ensures
        (Self::o_valid())(*self) ==> res is Ok,
        res is Ok ==> final(writer)@ == old(writer)@ + (Self::o_enc())(old(writer)@.len() as int, *self),
//@ fn ZserioPackableObject::zserio_bitsize
    requires (Self::o_shape())(*self), bit_position + (Self::o_enc())(bit_position as int, *self).len() <= u64::MAX,
    ensures
        (Self::o_valid())(*self) ==> res is Ok,
        res matches Ok(r) ==> r == (Self::o_enc())(bit_position as int, *self).len(),
//@ fn ZserioPackableObject::zserio_create_packing_context
    requires old(context_node).children@.len() == 0, old(context_node).context is None,
    ensures
        (Self::o_preadable())(*final(context_node)),
        (Self::o_psz())(*final(context_node), Seq::empty(), 0), (Self::o_pwr())(*final(context_node), Seq::empty(), 0),
        forall|s: Seq<Self>| #![trigger (Self::o_prd())(*final(context_node), s, 0)] (Self::o_prd())(*final(context_node), s, 0),
//@ fn ZserioPackableObject::zserio_init_packing_context
    requires (Self::o_shape())(*self),
        exists|s: Seq<Self>| #![trigger (Self::o_pwr())(*old(context_node), s, 0)] (Self::o_pwr())(*old(context_node), s, 0) && (Self::o_psmall())(s.push(*self)),
    ensures
        (Self::o_valid())(*self) ==> res is Ok,
        res is Ok ==> forall|s: Seq<Self>| #![trigger (Self::o_pwr())(*old(context_node), s, 0)] (Self::o_pwr())(*old(context_node), s, 0) && (Self::o_psmall())(s.push(*self)) ==>
            (Self::o_pwr())(*final(context_node), s.push(*self), 0) && (Self::o_psz())(*final(context_node), s.push(*self), 0),
//@ fn ZserioPackableObject::zserio_bitsize_packed
    requires (Self::o_shape())(*self),
        exists|s: Seq<Self>, k: int| #![trigger (Self::o_psz())(*old(context_node), s, k)] (Self::o_psz())(*old(context_node), s, k) && 0 <= k < s.len() && s[k] == *self && (Self::o_psmall())(s)
            && bit_position + (Self::o_penc())(s, k, bit_position as int).len() <= u64::MAX,
    ensures
        (Self::o_valid())(*self) ==> res is Ok,
        res matches Ok(r) ==> forall|s: Seq<Self>, k: int| #![trigger (Self::o_psz())(*old(context_node), s, k)] (Self::o_psz())(*old(context_node), s, k) && 0 <= k < s.len() && s[k] == *self && (Self::o_psmall())(s) ==>
            (Self::o_psz())(*final(context_node), s, k + 1) && r == (Self::o_penc())(s, k, bit_position as int).len(),
//@ fn ZserioPackableObject::zserio_write_packed
    requires (Self::o_shape())(*self),
        exists|s: Seq<Self>, k: int| #![trigger (Self::o_pwr())(*old(context_node), s, k)] (Self::o_pwr())(*old(context_node), s, k) && 0 <= k < s.len() && s[k] == *self && (Self::o_psmall())(s)
            && old(writer)@.len() + (Self::o_penc())(s, k, old(writer)@.len() as int).len() <= u64::MAX,
    ensures
        (Self::o_valid())(*self) ==> res is Ok,
        res is Ok ==> forall|s: Seq<Self>, k: int| #![trigger (Self::o_pwr())(*old(context_node), s, k)] (Self::o_pwr())(*old(context_node), s, k) && 0 <= k < s.len() && s[k] == *self && (Self::o_psmall())(s) ==>
            (Self::o_pwr())(*final(context_node), s, k + 1) && final(writer)@ == old(writer)@ + (Self::o_penc())(s, k, old(writer)@.len() as int),
//@ fn ZserioPackableObject::zserio_read_packed
    requires old(reader).wf(), (Self::o_preadable())(*old(context_node)),
    ensures
        final(reader).after(old(reader)), (Self::o_preadable())(*final(context_node)),
        forall|s: Seq<Self>, k: int| #![trigger (Self::o_prd())(*old(context_node), s, k)]
            (Self::o_prd())(*old(context_node), s, k) && 0 <= k < s.len() && all_of(Self::o_valid(), s) && all_of(Self::o_shape(), s) && (Self::o_psmall())(s)
            && (Self::o_blank())(*old(self), s[k]) && old(reader).sees((Self::o_penc())(s, k, old(reader).pos())) ==>
            res is Ok && *final(self) == (Self::o_canon())(s[k]) && (Self::o_prd())(*final(context_node), s, k + 1) && final(reader).at(old(reader), (Self::o_penc())(s, k, old(reader).pos()).len() as int),
//@ fn PackingContextNode::new
    ensures res.children@.len() == 0, res.context is None,
//@ impl ArrayTrait:ObjectArrayTrait
    open spec fn okay(&self) -> bool { true }
    open spec fn constant(&self) -> bool { false }
    open spec fn enc(&self) -> spec_fn(int, $T) -> Bits { T::o_enc() }
    open spec fn valid(&self) -> spec_fn($T) -> bool { T::o_valid() }
    open spec fn shape(&self) -> spec_fn($T) -> bool { T::o_shape() }
    open spec fn canon(&self) -> spec_fn($T) -> $T { T::o_canon() }
    open spec fn blank(&self) -> spec_fn($T, $T) -> bool { T::o_blank() }
    open spec fn sgn(&self) -> bool { false }
    open spec fn delta(&self) -> bool { false }
    open spec fn packs(&self) -> bool { true }
    open spec fn num(&self) -> spec_fn($T) -> int { |v: $T| 0 }
    open spec fn psmall(&self) -> spec_fn(Seq<$T>) -> bool { T::o_psmall() }
    open spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool { T::o_preadable() }
    open spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { T::o_psz() }
    open spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { T::o_pwr() }
    open spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<$T>, int) -> bool { T::o_prd() }
    open spec fn penc(&self) -> spec_fn(Seq<$T>, int, int) -> Bits { T::o_penc() }
