// ======================= arrays =======================
//@ text
/// padding before an element that has an offset
pub open spec fn opad(al: bool, q: int) -> int { if al { pad(q, 8) } else { 0 } }
/// the first n elements, the first of them at position p
pub open spec fn body(f: ElemFn, n: int, al: bool, p: int) -> Bits decreases n {
    if n <= 0 { Seq::empty() } else {
        let b = body(f, n - 1, al, p); let q = p + b.len();
        b + zeros(opad(al, q)) + f(n - 1, q + opad(al, q))
    }
}
/// element i of an array s, packed or not
pub open spec fn elem_fn<T>(enc: spec_fn(int, T) -> Bits, penc: spec_fn(Seq<T>, int, int) -> Bits, packed: bool, s: Seq<T>) -> ElemFn {
    |i: int, q: int| if packed { penc(s, i, q) } else { enc(q, s[i]) }
}
pub open spec fn array_header(fixed: Option<usize>, n: int) -> Bits { if fixed is Some { Seq::empty() } else { vbits(Var::Size, n) } }
pub open spec fn array_enc<T>(enc: spec_fn(int, T) -> Bits, penc: spec_fn(Seq<T>, int, int) -> Bits, packed: bool, fixed: Option<usize>, s: Seq<T>, al: bool, p: int) -> Bits {
    let h = array_header(fixed, s.len() as int);
    h + body(elem_fn(enc, penc, packed, s), s.len() as int, al, p + h.len())
}
/// sizes far from overflow while the elements are counted one by one
pub open spec fn psmall_all<T>(psmall: spec_fn(Seq<T>) -> bool, s: Seq<T>) -> bool { forall|n: int| 0 <= n <= s.len() ==> psmall(#[trigger] s.subrange(0, n)) }
pub proof fn pad8(p: int)
    requires p >= 0,
    ensures 0 <= pad(p, 8) < 8,
{ mod_lt(p, 8); }
pub proof fn body_step(f: ElemFn, n: int, al: bool, p: int)
    requires 0 <= n, p >= 0,
    ensures ({ let b = body(f, n, al, p); let q = p + b.len(); let e = opad(al, q);
        &&& 0 <= e < 8
        &&& body(f, n + 1, al, p) == b + zeros(e) + f(n, q + e)
        &&& body(f, n + 1, al, p).len() == b.len() + e + f(n, q + e).len() }),
{
    pad8(p + body(f, n, al, p).len());
}
pub proof fn body_mono(f: ElemFn, k: int, n: int, al: bool, p: int)
    requires 0 <= k <= n, p >= 0,
    ensures body(f, k, al, p).len() <= body(f, n, al, p).len(), body(f, k, al, p).is_prefix_of(body(f, n, al, p)),
    decreases n
{
    if k < n { body_mono(f, k, n - 1, al, p); body_step(f, n - 1, al, p);
        let (a, b) = (body(f, n - 1, al, p), body(f, n, al, p)); let q = p + a.len(); let e = opad(al, q);
        assert(b =~= a + (zeros(e) + f(n - 1, q + e)));
        assert(b.subrange(0, a.len() as int) =~= a);
        assert(b.subrange(0, body(f, k, al, p).len() as int) =~= a.subrange(0, body(f, k, al, p).len() as int));
    }
}
pub proof fn body_const(f: ElemFn, n: int, p: int, l: int)
    requires 0 <= n, p >= 0, forall|i: int, q: int| 0 <= i < n ==> (#[trigger] f(i, q)).len() == l,
    ensures body(f, n, false, p).len() == n * l,
    decreases n
{
    if n > 0 { body_const(f, n - 1, p, l); body_step(f, n - 1, false, p); assert((n - 1) * l + l == n * l) by (nonlinear_arith); } else { assert(n * l == 0) by (nonlinear_arith) requires n == 0; }
}
/// an input that shows the whole array shows element k where the reader gets to it
pub proof fn sees_elem(r0: &BitReader, r1: &BitReader, f: ElemFn, k: int, n: int, al: bool)
    requires r0.wf(), r0.sees(body(f, n, al, r0.pos())), 0 <= k < n, r1.at(r0, body(f, k, al, r0.pos()).len() as int),
    ensures ({ let q = r1.pos(); let e = opad(al, q);
        &&& q + e + f(k, q + e).len() <= r1.all().len()
        &&& 0 <= e < 8
        &&& body(f, k + 1, al, r0.pos()).len() == body(f, k, al, r0.pos()).len() + e + f(k, q + e).len()
        &&& forall|r2: &BitReader| #![trigger r2.sees(f(k, q + e))] r2.at(r1, e) ==> r2.sees(f(k, q + e)) }),
{
    let p = r0.pos(); let (b, b1, w) = (body(f, k, al, p), body(f, k + 1, al, p), body(f, n, al, p));
    body_step(f, k, al, p); body_mono(f, k + 1, n, al, p);
    let q = p + b.len(); let e = opad(al, q); let x = f(k, q + e);
    assert(r0.all().subrange(p, p + w.len()) == w);
    assert(b1 =~= w.subrange(0, b1.len() as int));
    assert(x =~= b1.subrange(b.len() + e, b1.len() as int));
    assert forall|r2: &BitReader| #![trigger r2.sees(x)] r2.at(r1, e) implies r2.sees(x) by {
        assert(r2.all().subrange(r2.pos(), r2.pos() + x.len()) =~= w.subrange(b.len() + e, b1.len() as int));
        assert(w.subrange(b.len() + e, b1.len() as int) =~= b1.subrange(b.len() + e, b1.len() as int));
    }
}
pub mod m_array {
use super::*;
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len};
//@ source crates/zserio/src/ztype/array.rs skip=OffsetTrait,OffsetTrait:u8,OffsetTrait:u16,OffsetTrait:u32,OffsetTrait:u64,set_array_alloc_chunk,get_array_alloc_chunk
//@ text
}
pub use m_array::*;
//@ implhead Array #[verifier::reject_recursive_types(T)]
//@ text
impl<T> Array<T> {
    pub open spec fn enc_of(&self, s: Seq<T>, al: bool, p: int) -> Bits { array_enc(self.array_trait.enc(), self.array_trait.penc(), self.is_packed, self.fixed_size, s, al, p) }
    pub open spec fn f(&self, s: Seq<T>) -> ElemFn { elem_fn(self.array_trait.enc(), self.array_trait.penc(), self.is_packed, s) }
    /// what can be written at all
    pub open spec fn writable(&self, s: Seq<T>, packed: bool) -> bool {
        &&& self.array_trait.okay()
        &&& all_of(self.array_trait.shape(), s)
        &&& self.fixed_size matches Some(n) ==> n == s.len()
        &&& packed ==> self.array_trait.packs() && psmall_all(self.array_trait.psmall(), s)
    }
    pub open spec fn in_range(&self, s: Seq<T>) -> bool { all_of(self.array_trait.valid(), s) && (self.fixed_size is Some || s.len() <= 0x7fff_ffff) }
}
//@ fn align_array_element_writer
    ensures res is Ok, final(writer)@ == old(writer)@ + zeros(opad(index_offsets is Some, old(writer)@.len() as int)),
//@ at align_array_element_writer end
    proof { assert(old(writer)@ + zeros(0) =~= old(writer)@); }
//@ fn align_array_element_reader
    requires old(reader).wf(),
    ensures
        res is Ok <==> old(reader).pos() + opad(index_offsets is Some, old(reader).pos()) <= old(reader).all().len(),
        final(reader).at(old(reader), if res is Ok { opad(index_offsets is Some, old(reader).pos()) } else { 0 }),
//@ fn align_array_element_bitsize
    requires bit_position + opad(index_offsets is Some, bit_position as int) <= u64::MAX,
    ensures res == bit_position + opad(index_offsets is Some, bit_position as int),
//@ fn Array::zserio_read_array_length
    requires old(reader).wf(),
    ensures
        *final(self) == *old(self), final(reader).after(old(reader)),
        forall|n: int| #![trigger vbits(Var::Size, n)] old(self).fixed_size is None && 0 <= n <= 0x7fff_ffff && old(reader).sees(vbits(Var::Size, n)) ==> res == Result::<usize, ZserioError>::Ok(n as usize) && final(reader).at(old(reader), vbits(Var::Size, n).len() as int),
        old(self).fixed_size matches Some(n) ==> res == Result::<usize, ZserioError>::Ok(n) && final(reader).at(old(reader), 0),
//@ at Array::zserio_read_array_length start
    proof { assert forall|n: int| 0 <= n <= 0x7fff_ffff implies #[trigger] vbits(Var::Size, n) == vbits(Var::Size, (n as u32) as int) by {} }
//@ fn Array::zserio_write
    requires old(self).writable(data@, old(self).is_packed), old(writer)@.len() + old(self).enc_of(data@, index_offsets is Some, old(writer)@.len() as int).len() <= u64::MAX,
    ensures
        *final(self) == *old(self),
        old(self).in_range(data@) ==> res is Ok,
        res is Ok ==> final(writer)@ == old(writer)@ + old(self).enc_of(data@, index_offsets is Some, old(writer)@.len() as int),
//@ at Array::zserio_write start
    let ghost (s, al, w0) = (data@, index_offsets is Some, writer@);
    let ghost h = array_header(self.fixed_size, s.len() as int);
    let ghost f = self.f(s);
    let ghost p = (w0.len() + h.len()) as int;
    let ghost n = s.len() as int;
    let ghost me = *self;
    proof { assert(data.len() == n); assert(h.len() == 0 || h.len() >= 8); assert(w0 + Seq::<bool>::empty() =~= w0); assert(body(f, 0, al, p) =~= Seq::empty()); assert(w0 + h + Seq::<bool>::empty() =~= w0 + h);
        assert(w0 + (h + Seq::<bool>::empty()) =~= w0 + h); assert(w0 + h + body(f, n, al, p) =~= w0 + (h + body(f, n, al, p))); }
//@ loop Array::zserio_write 0 for
    invariant
        *self == me, me.writable(s, me.is_packed), me.is_packed, s == data@, n == s.len(), n <= usize::MAX,
        (me.array_trait.pwr())(packing_context_node, s.subrange(0, it0.index@), 0),
//@ at Array::zserio_write loop 0 before
    proof { assert(s.subrange(0, 0) =~= Seq::empty()); }
//@ at Array::zserio_write loop 0 start
    proof { assert(s.subrange(0, it0.index@).push(*element) =~= s.subrange(0, it0.index@ + 1)); }
//@ at Array::zserio_write loop 1 before
    proof { assert(s.subrange(0, n) =~= s); }
//@ loop Array::zserio_write 1 for
    invariant
        *self == me, me.writable(s, me.is_packed), me.is_packed, s == data@, n == s.len(), n <= usize::MAX, al == (index_offsets is Some), f == me.f(s), (me.array_trait.psmall())(s),
        p == w0.len() + h.len(), p + body(f, n, al, p).len() <= u64::MAX,
        (me.array_trait.pwr())(packing_context_node, s, it1.index@),
        writer@ == w0 + h + body(f, it1.index@, al, p), counter_0 == it1.index@,
//@ at Array::zserio_write loop 1 start
    proof { body_step(f, it1.index@, al, p); body_mono(f, it1.index@ + 1, n, al, p); }
    let ghost b = writer@;
//@ at Array::zserio_write loop 1 end
    proof { let q = b.len() as int; let e = opad(al, q); assert(b + zeros(e) + f(it1.index@, q + e) =~= w0 + h + body(f, it1.index@ + 1, al, p)); }
//@ loop Array::zserio_write 2 for
    invariant
        *self == me, me.writable(s, me.is_packed), !me.is_packed, s == data@, n == s.len(), n <= usize::MAX, al == (index_offsets is Some), f == me.f(s),
        p == w0.len() + h.len(), p + body(f, n, al, p).len() <= u64::MAX,
        writer@ == w0 + h + body(f, it2.index@, al, p), counter_1 == it2.index@,
//@ at Array::zserio_write loop 2 start
    proof { body_step(f, it2.index@, al, p); body_mono(f, it2.index@ + 1, n, al, p); }
    let ghost b = writer@;
//@ at Array::zserio_write loop 2 end
    proof { let q = b.len() as int; let e = opad(al, q); assert(b + zeros(e) + f(it2.index@, q + e) =~= w0 + h + body(f, it2.index@ + 1, al, p)); }
//@ fn Array::zserio_bitsize
    requires old(self).writable(data@, old(self).is_packed), bit_position + old(self).enc_of(data@, index_offsets is Some, bit_position as int).len() <= u64::MAX,
    ensures
        *final(self) == *old(self),
        old(self).in_range(data@) ==> res is Ok,
        res matches Ok(r) ==> r == old(self).enc_of(data@, index_offsets is Some, bit_position as int).len(),
//@ at Array::zserio_bitsize start
    let ghost (s, al) = (data@, index_offsets is Some);
    let ghost h = array_header(self.fixed_size, s.len() as int);
    let ghost f = self.f(s);
    let ghost p = (bit_position + h.len()) as int;
    let ghost n = s.len() as int;
    let ghost me = *self;
    proof { assert(data.len() == n); assert(h.len() == 0 || h.len() >= 8); assert(body(f, 0, al, p) =~= Seq::empty()); assert(self.enc_of(s, al, bit_position as int).len() == h.len() + body(f, n, al, p).len());
        let enc = me.array_trait.enc();
        if n > 0 && !al && !me.is_packed && (forall|p: int, q: int, v: T, w: T| #![trigger enc(p, v), enc(q, w)] enc(p, v).len() == enc(q, w).len()) {
            let l = enc(p, s[0]).len() as int;
            assert forall|i: int, q: int| 0 <= i < n implies (#[trigger] f(i, q)).len() == l by { let v = s[i]; assert(f(i, q) == enc(q, v)); }
            body_const(f, n, p, l);
            assert(n * l >= l) by (nonlinear_arith) requires n >= 1, l >= 0;
        }
    }
//@ loop Array::zserio_bitsize 0 for
    invariant
        *self == me, me.writable(s, me.is_packed), me.is_packed, s == data@, n == s.len(), n <= usize::MAX,
        (me.array_trait.psz())(packing_context_node, s.subrange(0, it0.index@), 0),
        (me.array_trait.pwr())(packing_context_node, s.subrange(0, it0.index@), 0),
//@ at Array::zserio_bitsize loop 0 before
    proof { assert(s.subrange(0, 0) =~= Seq::empty()); }
//@ at Array::zserio_bitsize loop 0 start
    proof { assert(s.subrange(0, it0.index@).push(*element) =~= s.subrange(0, it0.index@ + 1)); }
//@ at Array::zserio_bitsize loop 1 before
    proof { assert(s.subrange(0, n) =~= s); }
//@ loop Array::zserio_bitsize 1 for
    invariant
        *self == me, me.writable(s, me.is_packed), me.is_packed, s == data@, n == s.len(), n <= usize::MAX, al == (index_offsets is Some), f == me.f(s), (me.array_trait.psmall())(s),
        p >= 0, p + body(f, n, al, p).len() <= u64::MAX,
        (me.array_trait.psz())(packing_context_node, s, it1.index@),
        end_position == p + body(f, it1.index@, al, p).len(), counter_0 == it1.index@,
//@ at Array::zserio_bitsize loop 1 start
    proof { body_step(f, it1.index@, al, p); body_mono(f, it1.index@ + 1, n, al, p); }
//@ at Array::zserio_bitsize loop 2 before
    proof { body_step(f, 0, al, p); if n > 0 { body_mono(f, 1, n, al, p); } }
//@ loop Array::zserio_bitsize 2 for
    invariant
        *self == me, me.writable(s, me.is_packed), !me.is_packed, s == data@, n == s.len(), n <= usize::MAX, al == (index_offsets is Some), f == me.f(s),
        p >= 0, p + body(f, n, al, p).len() <= u64::MAX,
        end_position == p + body(f, it2.index@, al, p).len(), counter_1 == it2.index@,
//@ at Array::zserio_bitsize loop 2 start
    proof { body_step(f, it2.index@, al, p); body_mono(f, it2.index@ + 1, n, al, p); }
//@ fn Array::zserio_bitsize_packed
    requires old(self).writable(data@, true),
        bit_position + array_enc(old(self).array_trait.enc(), old(self).array_trait.penc(), true, old(self).fixed_size, data@, index_offsets is Some, bit_position as int).len() <= u64::MAX,
    ensures
        *final(self) == *old(self),
        old(self).in_range(data@) ==> res is Ok,
        res matches Ok(r) ==> r == array_enc(old(self).array_trait.enc(), old(self).array_trait.penc(), true, old(self).fixed_size, data@, index_offsets is Some, bit_position as int).len(),
//@ at Array::zserio_bitsize_packed start
    let ghost (s, al) = (data@, index_offsets is Some);
    let ghost h = array_header(self.fixed_size, s.len() as int);
    let ghost f = elem_fn(self.array_trait.enc(), self.array_trait.penc(), true, s);
    let ghost p = (bit_position + h.len()) as int;
    let ghost n = s.len() as int;
    let ghost me = *self;
    proof { assert(data.len() == n); assert(h.len() == 0 || h.len() >= 8); assert(body(f, 0, al, p) =~= Seq::empty()); assert(array_enc(self.array_trait.enc(), self.array_trait.penc(), true, self.fixed_size, s, al, bit_position as int).len() == h.len() + body(f, n, al, p).len()); }
//@ loop Array::zserio_bitsize_packed 0 for
    invariant
        *self == me, me.writable(s, true), s == data@, n == s.len(), n <= usize::MAX,
        (me.array_trait.psz())(packing_context_node, s.subrange(0, it0.index@), 0),
        (me.array_trait.pwr())(packing_context_node, s.subrange(0, it0.index@), 0),
//@ at Array::zserio_bitsize_packed loop 0 before
    proof { assert(s.subrange(0, 0) =~= Seq::empty()); }
//@ at Array::zserio_bitsize_packed loop 0 start
    proof { assert(s.subrange(0, it0.index@).push(*element) =~= s.subrange(0, it0.index@ + 1)); }
//@ at Array::zserio_bitsize_packed loop 1 before
    proof { assert(s.subrange(0, n) =~= s); }
//@ loop Array::zserio_bitsize_packed 1 for
    invariant
        *self == me, me.writable(s, true), s == data@, n == s.len(), n <= usize::MAX, al == (index_offsets is Some), f == elem_fn(me.array_trait.enc(), me.array_trait.penc(), true, s), (me.array_trait.psmall())(s),
        p >= 0, p + body(f, n, al, p).len() <= u64::MAX,
        (me.array_trait.psz())(packing_context_node, s, it1.index@),
        end_position == p + body(f, it1.index@, al, p).len(), counter_0 == it1.index@,
//@ at Array::zserio_bitsize_packed loop 1 start
    proof { body_step(f, it1.index@, al, p); body_mono(f, it1.index@ + 1, n, al, p); }
//@ text
/// the input shows the array s, whose elements may be read into what T::default() makes
pub open spec fn shows<T: Default>(a: &Array<T>, r: &BitReader, s: Seq<T>, n: int, al: bool) -> bool {
    &&& s.len() == n
    &&& all_of(a.array_trait.valid(), s)
    &&& all_of(a.array_trait.shape(), s)
    &&& a.is_packed ==> (a.array_trait.psmall())(s)
    &&& forall|b: T, i: int| #![trigger call_ensures(T::default, (), b), s[i]] call_ensures(T::default, (), b) && 0 <= i < n ==> (a.array_trait.blank())(b, s[i])
    &&& r.sees(body(a.f(s), n, al, r.pos()))
}
/// what is read for s
pub open spec fn canons<T>(a: &Array<T>, s: Seq<T>) -> Seq<T> { s.map_values(a.array_trait.canon()) }
//@ fn Array::zserio_read
    requires old(self).array_trait.okay(), old(reader).wf(), old(self).is_packed ==> old(self).array_trait.packs(),
    ensures
        *final(self) == *old(self), final(reader).after(old(reader)),
        res is Ok ==> final(data)@.len() == array_length,
        forall|s: Seq<T>| #![trigger old(self).f(s)] #![trigger elem_fn(old(self).array_trait.enc(), old(self).array_trait.penc(), old(self).is_packed, s)] shows(old(self), old(reader), s, array_length as int, index_offsets is Some) ==>
            res is Ok && final(data)@ == canons(old(self), s) && final(reader).at(old(reader), body(old(self).f(s), array_length as int, index_offsets is Some, old(reader).pos()).len() as int),
//@ at Array::zserio_read start
    let ghost (me, al, n) = (*self, index_offsets is Some, array_length as int);
    let ghost r0 = *reader;
//@ loop Array::zserio_read 0 range
    invariant
        *self == me, me.array_trait.okay(), me.is_packed, me.array_trait.packs(), al == (index_offsets is Some), n == array_length, r0.wf(), r0 == *old(reader), me == *old(self),
        reader.after(&r0), (me.array_trait.preadable())(packing_context_node), data@.len() == index,
        forall|s: Seq<T>| #![trigger me.f(s)] shows(&me, &r0, s, n, al) ==> reader.at(&r0, body(me.f(s), index as int, al, r0.pos()).len() as int)
            && (me.array_trait.prd())(packing_context_node, s, index as int) && forall|j: int| 0 <= j < index ==> #[trigger] data@[j] == (me.array_trait.canon())(s[j]),
//@ loop Array::zserio_read 1 range
    invariant
        *self == me, me.array_trait.okay(), !me.is_packed, al == (index_offsets is Some), n == array_length, r0.wf(), r0 == *old(reader), me == *old(self),
        reader.after(&r0), data@.len() == index,
        forall|s: Seq<T>| #![trigger me.f(s)] shows(&me, &r0, s, n, al) ==> reader.at(&r0, body(me.f(s), index as int, al, r0.pos()).len() as int)
            && forall|j: int| 0 <= j < index ==> #[trigger] data@[j] == (me.array_trait.canon())(s[j]),
//@ at Array::zserio_read loop 0 start
    let ghost r1 = *reader; let ghost e = opad(al, r1.pos()); let ghost k = index as int;
    proof {
        assert forall|s: Seq<T>| #![trigger me.f(s)] shows(&me, &r0, s, n, al) implies r1.pos() + e <= r1.all().len() && 0 <= e < 8
            && body(me.f(s), k + 1, al, r0.pos()).len() == body(me.f(s), k, al, r0.pos()).len() + e + (me.array_trait.penc())(s, k, r1.pos() + e).len()
            && (forall|r2: &BitReader| #![trigger r2.at(&r1, e)] r2.at(&r1, e) ==> r2.sees((me.array_trait.penc())(s, k, r2.pos()))) by {
            sees_elem(&r0, &r1, me.f(s), k, n, al);
            assert(me.f(s)(k, r1.pos() + e) == (me.array_trait.penc())(s, k, r1.pos() + e));
            assert forall|r2: &BitReader| #![trigger r2.at(&r1, e)] r2.at(&r1, e) implies r2.sees((me.array_trait.penc())(s, k, r2.pos())) by { assert(r2.sees(me.f(s)(k, r1.pos() + e))); }
        }
    }
//@ at Array::zserio_read loop 1 start
    let ghost r1 = *reader; let ghost e = opad(al, r1.pos()); let ghost k = index as int;
    proof {
        assert forall|s: Seq<T>| #![trigger me.f(s)] shows(&me, &r0, s, n, al) implies r1.pos() + e <= r1.all().len() && 0 <= e < 8
            && body(me.f(s), k + 1, al, r0.pos()).len() == body(me.f(s), k, al, r0.pos()).len() + e + (me.array_trait.enc())(r1.pos() + e, s[k]).len()
            && (me.array_trait.valid())(s[k]) && (me.array_trait.shape())(s[k])
            && (forall|r2: &BitReader| #![trigger r2.at(&r1, e)] r2.at(&r1, e) ==> r2.sees((me.array_trait.enc())(r2.pos(), s[k]))) by {
            sees_elem(&r0, &r1, me.f(s), k, n, al);
            assert(me.f(s)(k, r1.pos() + e) == (me.array_trait.enc())(r1.pos() + e, s[k]));
            assert forall|r2: &BitReader| #![trigger r2.at(&r1, e)] r2.at(&r1, e) implies r2.sees((me.array_trait.enc())(r2.pos(), s[k])) by { assert(r2.sees(me.f(s)(k, r1.pos() + e))); }
        }
    }
//@ at Array::zserio_read end
    proof {
        assert forall|s: Seq<T>| #![trigger me.f(s)] shows(&me, &r0, s, n, al) implies data@ == canons(&me, s) by { assert(data@ =~= canons(&me, s)); }
    }
//@ fn Array::read_one_element
    requires old(self).array_trait.okay(), old(reader).wf(), old(self).is_packed ==> old(self).array_trait.packs() && (old(self).array_trait.preadable())(*old(packing_context)),
    ensures
        *final(self) == *old(self), final(reader).after(old(reader)),
        old(self).is_packed ==> (old(self).array_trait.preadable())(*final(packing_context)),
        ({ let q = old(reader).pos(); let e = opad(index_offsets is Some, q); let a = old(self).array_trait;
            &&& !old(self).is_packed && q + e <= old(reader).all().len() ==>
                forall|v: T| #![trigger (a.enc())(q + e, v)] (a.valid())(v) && (a.shape())(v) && (a.blank())(*old(item), v)
                    && (forall|r2: &BitReader| #![trigger r2.at(old(reader), e)] r2.at(old(reader), e) ==> r2.sees((a.enc())(q + e, v))) ==>
                    res is Ok && *final(item) == (a.canon())(v) && final(reader).at(old(reader), e + (a.enc())(q + e, v).len())
            &&& old(self).is_packed && q + e <= old(reader).all().len() ==>
                forall|s: Seq<T>, k: int| #![trigger (a.prd())(*old(packing_context), s, k)] (a.prd())(*old(packing_context), s, k) && 0 <= k < s.len() && all_of(a.valid(), s) && all_of(a.shape(), s) && (a.psmall())(s)
                    && (a.blank())(*old(item), s[k]) && (forall|r2: &BitReader| #![trigger r2.at(old(reader), e)] r2.at(old(reader), e) ==> r2.sees((a.penc())(s, k, q + e))) ==>
                    res is Ok && *final(item) == (a.canon())(s[k]) && (a.prd())(*final(packing_context), s, k + 1) && final(reader).at(old(reader), e + (a.penc())(s, k, q + e).len())
        }),
