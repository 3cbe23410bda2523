// ======================= what the generated code uses =======================
//@ text
pub use m_varint16::VarInt16ArrayTrait;
pub use m_varint32::VarInt32ArrayTrait;
pub use m_varint64::VarInt64ArrayTrait;
pub use m_varint::VarIntArrayTrait;
pub use m_varuint16::VarUint16ArrayTrait;
pub use m_varuint32::VarUint32ArrayTrait;
pub use m_varuint64::VarUint64ArrayTrait;
pub use m_varuint::VarUintArrayTrait;
pub use m_varsize::VarSizeArrayTrait;
pub use m_bit_field::BitFieldArrayTrait;
pub use m_unsigned_bit_field::UnsignedBitFieldArrayTrait;
pub use m_boolean::BooleanArrayTrait;
pub use m_float16::Float16ArrayTrait;
pub use m_float32::Float32ArrayTrait;
pub use m_float64::Float64ArrayTrait;
pub use m_string::StringArrayTrait;
pub use m_byte_buffer::ByteBufferArrayTrait;
pub use m_bit_buffer::BitBufferArrayTrait;
pub use m_object::ObjectArrayTrait;
pub mod zs {
use super::*;
/// bit operations on integers; only their laws below are used
pub uninterp spec fn band(a: int, b: int) -> int;
pub uninterp spec fn bor(a: int, b: int) -> int;
pub uninterp spec fn bxor(a: int, b: int) -> int;
pub broadcast axiom fn band_range(a: int, b: int)
    requires a >= 0, b >= 0,
    ensures 0 <= #[trigger] band(a, b) <= a, band(a, b) <= b;
/// operands of bit operations
pub trait ZsBits: Sized + Copy {
    spec fn bval(self) -> int;
    spec fn size(self) -> int;
    spec fn sig(self) -> bool;
    fn and(self, o: Self) -> (r: Self) ensures r.bval() == band(self.bval(), o.bval());
    fn or(self, o: Self) -> (r: Self) ensures r.bval() == bor(self.bval(), o.bval());
    fn xor(self, o: Self) -> (r: Self) ensures r.bval() == bxor(self.bval(), o.bval());
}
impl ZsBits for u8 {
    open spec fn bval(self) -> int { self as int }
    open spec fn size(self) -> int { 8 }
    open spec fn sig(self) -> bool { false }
    #[verifier::external_body] fn and(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn or(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn xor(self, o: Self) -> Self { unimplemented!() }
}
impl ZsBits for i8 {
    open spec fn bval(self) -> int { self as int }
    open spec fn size(self) -> int { 8 }
    open spec fn sig(self) -> bool { true }
    #[verifier::external_body] fn and(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn or(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn xor(self, o: Self) -> Self { unimplemented!() }
}
impl ZsBits for u16 {
    open spec fn bval(self) -> int { self as int }
    open spec fn size(self) -> int { 16 }
    open spec fn sig(self) -> bool { false }
    #[verifier::external_body] fn and(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn or(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn xor(self, o: Self) -> Self { unimplemented!() }
}
impl ZsBits for i16 {
    open spec fn bval(self) -> int { self as int }
    open spec fn size(self) -> int { 16 }
    open spec fn sig(self) -> bool { true }
    #[verifier::external_body] fn and(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn or(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn xor(self, o: Self) -> Self { unimplemented!() }
}
impl ZsBits for u32 {
    open spec fn bval(self) -> int { self as int }
    open spec fn size(self) -> int { 32 }
    open spec fn sig(self) -> bool { false }
    #[verifier::external_body] fn and(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn or(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn xor(self, o: Self) -> Self { unimplemented!() }
}
impl ZsBits for i32 {
    open spec fn bval(self) -> int { self as int }
    open spec fn size(self) -> int { 32 }
    open spec fn sig(self) -> bool { true }
    #[verifier::external_body] fn and(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn or(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn xor(self, o: Self) -> Self { unimplemented!() }
}
impl ZsBits for u64 {
    open spec fn bval(self) -> int { self as int }
    open spec fn size(self) -> int { 64 }
    open spec fn sig(self) -> bool { false }
    #[verifier::external_body] fn and(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn or(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn xor(self, o: Self) -> Self { unimplemented!() }
}
impl ZsBits for i64 {
    open spec fn bval(self) -> int { self as int }
    open spec fn size(self) -> int { 64 }
    open spec fn sig(self) -> bool { true }
    #[verifier::external_body] fn and(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn or(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn xor(self, o: Self) -> Self { unimplemented!() }
}
impl ZsBits for i128 {
    open spec fn bval(self) -> int { self as int }
    open spec fn size(self) -> int { 128 }
    open spec fn sig(self) -> bool { true }
    #[verifier::external_body] fn and(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn or(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn xor(self, o: Self) -> Self { unimplemented!() }
}
pub fn zs_and<T: ZsBits>(a: T, b: T) -> (r: T) ensures r.bval() == band(a.bval(), b.bval()) { a.and(b) }
pub fn zs_or<T: ZsBits>(a: T, b: T) -> (r: T) ensures r.bval() == bor(a.bval(), b.bval()) { a.or(b) }
pub fn zs_xor<T: ZsBits>(a: T, b: T) -> (r: T) ensures r.bval() == bxor(a.bval(), b.bval()) { a.xor(b) }
pub open spec fn shifted<T: ZsBits>(a: T, k: int, r: T) -> bool {
    &&& !a.sig() && 0 <= a.bval() * pow2(k) < pow2(a.size()) ==> r.bval() == a.bval() * pow2(k)
    &&& a.sig() && -pow2(a.size() - 1) <= a.bval() * pow2(k) < pow2(a.size() - 1) ==> r.bval() == a.bval() * pow2(k)
}
pub open spec fn bfits<T: ZsBits>(a: T, v: int) -> bool { if a.sig() { -pow2(a.size() - 1) <= v < pow2(a.size() - 1) } else { 0 <= v < pow2(a.size()) } }
#[verifier::external_body]
pub fn zs_div<T: ZsBits>(a: T, b: T) -> (r: T)
    requires b.bval() != 0, bfits(a, tdiv(a.bval(), b.bval())),
    ensures r.bval() == tdiv(a.bval(), b.bval()) { unimplemented!() }
#[verifier::external_body]
pub fn zs_rem<T: ZsBits>(a: T, b: T) -> (r: T)
    requires b.bval() != 0, bfits(a, tdiv(a.bval(), b.bval())),
    ensures r.bval() == tmod(a.bval(), b.bval()) { unimplemented!() }
#[verifier::external_body]
pub fn zs_shl<T: ZsBits, U: IntLike>(a: T, k: U) -> (r: T)
    requires 0 <= k.val() < a.size(),
    ensures shifted(a, k.val(), r) { unimplemented!() }
#[verifier::external_body]
pub fn zs_shr<T: ZsBits, U: IntLike>(a: T, k: U) -> (r: T)
    requires 0 <= k.val() < a.size(),
    ensures r.bval() == a.bval() / pow2(k.val()) { unimplemented!() }
pub fn zs_not<T: ZsNot>(a: T) -> (r: T) ensures T::is_not(a, r) { a.zs_not() }
pub trait ZsNot: Sized { spec fn is_not(a: Self, r: Self) -> bool; fn zs_not(self) -> (r: Self) ensures Self::is_not(self, r); }
impl ZsNot for bool { open spec fn is_not(a: bool, r: bool) -> bool { r == !a } fn zs_not(self) -> bool { !self } }
impl ZsNot for u8 { open spec fn is_not(a: u8, r: u8) -> bool { r == 255 - a } #[verifier::external_body] fn zs_not(self) -> u8 { unimplemented!() } }
impl ZsNot for i8 { open spec fn is_not(a: i8, r: i8) -> bool { r == -1 - a } #[verifier::external_body] fn zs_not(self) -> i8 { unimplemented!() } }
impl ZsNot for u16 { open spec fn is_not(a: u16, r: u16) -> bool { r == 65535 - a } #[verifier::external_body] fn zs_not(self) -> u16 { unimplemented!() } }
impl ZsNot for i16 { open spec fn is_not(a: i16, r: i16) -> bool { r == -1 - a } #[verifier::external_body] fn zs_not(self) -> i16 { unimplemented!() } }
impl ZsNot for u32 { open spec fn is_not(a: u32, r: u32) -> bool { r == 4294967295 - a } #[verifier::external_body] fn zs_not(self) -> u32 { unimplemented!() } }
impl ZsNot for i32 { open spec fn is_not(a: i32, r: i32) -> bool { r == -1 - a } #[verifier::external_body] fn zs_not(self) -> i32 { unimplemented!() } }
impl ZsNot for u64 { open spec fn is_not(a: u64, r: u64) -> bool { r == 18446744073709551615 - a } #[verifier::external_body] fn zs_not(self) -> u64 { unimplemented!() } }
impl ZsNot for i64 { open spec fn is_not(a: i64, r: i64) -> bool { r == -1 - a } #[verifier::external_body] fn zs_not(self) -> i64 { unimplemented!() } }
impl OffsetTrait for u32 {}
impl IntLike for i128 { open spec fn val(self) -> int { self as int } }
impl IntLike for bool { open spec fn val(self) -> int { if self { 1 } else { 0 } } }
#[verifier::external_body]
pub fn as_i128<S: IntLike>(x: S) -> (r: i128) ensures -0x8000_0000_0000_0000 <= x.val() <= 0xffff_ffff_ffff_ffff ==> r == x.val() { unimplemented!() }
pub fn zs_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
#[verifier::external_body]
pub fn get_array_alloc_chunk() -> (r: usize)
    ensures forall|n: int| #![trigger may_allocate(n)] n <= r ==> may_allocate(n) { unimplemented!() }
/// an array described by its trait; the box keeps every specification of the trait
#[verifier::external_body]
pub fn mk_array<T, A: ArrayTrait<T> + 'static>(tr: A, fixed_size: Option<usize>, is_packed: bool) -> (r: Array<T>)
    ensures r.fixed_size == fixed_size, r.is_packed == is_packed, same_trait(&r, &tr) { unimplemented!() }
pub open spec fn same_trait<T, A: ArrayTrait<T>>(r: &Array<T>, tr: &A) -> bool {
    &&& r.array_trait.okay() == tr.okay() && r.array_trait.constant() == tr.constant() && r.array_trait.delta() == tr.delta() && r.array_trait.packs() == tr.packs() && r.array_trait.sgn() == tr.sgn()
    &&& r.array_trait.enc() == tr.enc() && r.array_trait.shape() == tr.shape() && r.array_trait.valid() == tr.valid() && r.array_trait.canon() == tr.canon() && r.array_trait.blank() == tr.blank()
    &&& r.array_trait.num() == tr.num() && r.array_trait.psmall() == tr.psmall() && r.array_trait.preadable() == tr.preadable() && r.array_trait.psz() == tr.psz() && r.array_trait.pwr() == tr.pwr()
    &&& r.array_trait.prd() == tr.prd() && r.array_trait.penc() == tr.penc()
}
pub open spec fn arr_enc<T, A: ArrayTrait<T>>(tr: A, packed: bool, fixed: Option<usize>, s: Seq<T>, p: int) -> Bits { array_enc(tr.enc(), tr.penc(), packed, fixed, s, false, p) }
pub open spec fn arr_body<T, A: ArrayTrait<T>>(tr: A, packed: bool, s: Seq<T>, p: int) -> Bits { body(elem_fn(tr.enc(), tr.penc(), packed, s), s.len() as int, false, p) }
pub open spec fn arr_shape<T, A: ArrayTrait<T>>(tr: A, packed: bool, s: Seq<T>) -> bool { tr.okay() && all_of(tr.shape(), s) && (packed ==> tr.packs() && psmall_all(tr.psmall(), s)) }
pub open spec fn arr_valid<T, A: ArrayTrait<T>>(tr: A, fixed: bool, s: Seq<T>) -> bool { all_of(tr.valid(), s) && (fixed || s.len() <= 0x7fff_ffff) }
/// what is seen a bits further on, and a1 and then a2 bits further on; with f, bits that depend on the position
pub closed spec fn nx1(r: &BitReader, a: int, b: Bits) -> bool { forall|q: &BitReader| #![trigger q.at(r, a)] q.at(r, a) ==> q.sees(b) }
pub closed spec fn nx2(r: &BitReader, a: int, a2: int, b: Bits) -> bool { forall|q: &BitReader| #![trigger q.at(r, a)] q.at(r, a) ==> nx1(q, a2, b) }
pub closed spec fn nx3(r: &BitReader, a: int, a2: int, a3: int, b: Bits) -> bool { forall|q: &BitReader| #![trigger q.at(r, a)] q.at(r, a) ==> nx2(q, a2, a3, b) }
pub closed spec fn nf1(r: &BitReader, a: int, b: spec_fn(int) -> Bits) -> bool { forall|q: &BitReader| #![trigger q.at(r, a)] q.at(r, a) ==> q.sees(b(q.pos())) }
pub closed spec fn nf2(r: &BitReader, a: int, a2: int, b: spec_fn(int) -> Bits) -> bool { forall|q: &BitReader| #![trigger q.at(r, a)] q.at(r, a) ==> nf1(q, a2, b) }
pub closed spec fn nf3(r: &BitReader, a: int, a2: int, a3: int, b: spec_fn(int) -> Bits) -> bool { forall|q: &BitReader| #![trigger q.at(r, a)] q.at(r, a) ==> nf2(q, a2, a3, b) }
pub closed spec fn nb1(r: &BitReader, a: int, b: bool) -> bool { forall|q: &BitReader| #![trigger q.at(r, a)] q.at(r, a) ==> q.all()[q.pos()] == b }
pub broadcast proof fn nx1_is(r: &BitReader, a: int, b: Bits, q: &BitReader) requires nx1(r, a, b), q.at(r, a), ensures #![trigger nx1(r, a, b), q.at(r, a)] q.sees(b) { }
pub broadcast proof fn nx2_is(r: &BitReader, a: int, a2: int, b: Bits, q: &BitReader) requires nx2(r, a, a2, b), q.at(r, a), ensures #![trigger nx2(r, a, a2, b), q.at(r, a)] nx1(q, a2, b) { }
pub broadcast proof fn nx3_is(r: &BitReader, a: int, a2: int, a3: int, b: Bits, q: &BitReader) requires nx3(r, a, a2, a3, b), q.at(r, a), ensures #![trigger nx3(r, a, a2, a3, b), q.at(r, a)] nx2(q, a2, a3, b) { }
pub broadcast proof fn nf1_is(r: &BitReader, a: int, b: spec_fn(int) -> Bits, q: &BitReader) requires nf1(r, a, b), q.at(r, a), ensures #![trigger nf1(r, a, b), q.at(r, a)] q.sees(b(q.pos())) { }
pub broadcast proof fn nf2_is(r: &BitReader, a: int, a2: int, b: spec_fn(int) -> Bits, q: &BitReader) requires nf2(r, a, a2, b), q.at(r, a), ensures #![trigger nf2(r, a, a2, b), q.at(r, a)] nf1(q, a2, b) { }
pub broadcast proof fn nf3_is(r: &BitReader, a: int, a2: int, a3: int, b: spec_fn(int) -> Bits, q: &BitReader) requires nf3(r, a, a2, a3, b), q.at(r, a), ensures #![trigger nf3(r, a, a2, a3, b), q.at(r, a)] nf2(q, a2, a3, b) { }
pub broadcast proof fn nb1_is(r: &BitReader, a: int, b: bool, q: &BitReader) requires nb1(r, a, b), q.at(r, a), ensures #![trigger nb1(r, a, b), q.at(r, a)] q.all()[q.pos()] == b { }
pub proof fn nx1_by(r0: &BitReader, k: int, r: &BitReader, a: int, b: Bits)
    requires r.at(r0, k), forall|q: &BitReader| #![trigger q.wf()] q.wf() && q.all() == r0.all() && q.pos() == r0.pos() + k + a ==> q.sees(b),
    ensures nx1(r, a, b) { }
pub proof fn nx2_by(r0: &BitReader, k: int, r: &BitReader, a: int, a2: int, b: Bits)
    requires r.at(r0, k), forall|q: &BitReader| #![trigger q.wf()] q.wf() && q.all() == r0.all() && q.pos() == r0.pos() + k + a + a2 ==> q.sees(b),
    ensures nx2(r, a, a2, b) { }
pub proof fn nx3_by(r0: &BitReader, k: int, r: &BitReader, a: int, a2: int, a3: int, b: Bits)
    requires r.at(r0, k), forall|q: &BitReader| #![trigger q.wf()] q.wf() && q.all() == r0.all() && q.pos() == r0.pos() + k + a + a2 + a3 ==> q.sees(b),
    ensures nx3(r, a, a2, a3, b) { }
pub proof fn nf1_by(r0: &BitReader, k: int, r: &BitReader, a: int, b: spec_fn(int) -> Bits)
    requires r.at(r0, k), forall|q: &BitReader| #![trigger q.wf()] q.wf() && q.all() == r0.all() && q.pos() == r0.pos() + k + a ==> q.sees(b(q.pos())),
    ensures nf1(r, a, b) { }
pub proof fn nf2_by(r0: &BitReader, k: int, r: &BitReader, a: int, a2: int, b: spec_fn(int) -> Bits)
    requires r.at(r0, k), forall|q: &BitReader| #![trigger q.wf()] q.wf() && q.all() == r0.all() && q.pos() == r0.pos() + k + a + a2 ==> q.sees(b(q.pos())),
    ensures nf2(r, a, a2, b) { }
pub proof fn nf3_by(r0: &BitReader, k: int, r: &BitReader, a: int, a2: int, a3: int, b: spec_fn(int) -> Bits)
    requires r.at(r0, k), forall|q: &BitReader| #![trigger q.wf()] q.wf() && q.all() == r0.all() && q.pos() == r0.pos() + k + a + a2 + a3 ==> q.sees(b(q.pos())),
    ensures nf3(r, a, a2, a3, b) { }
pub proof fn nb1_by(r0: &BitReader, k: int, r: &BitReader, a: int, b: bool)
    requires r.at(r0, k), r0.all()[r0.pos() + k + a] == b,
    ensures nb1(r, a, b) { }
/// bit k of what is seen
pub proof fn sees_bit(r0: &BitReader, a: Bits, b: bool)
    requires r0.wf(), r0.sees(a + seq![b]), r0.pos() + a.len() + 1 <= r0.all().len(),
    ensures r0.all()[r0.pos() + a.len()] == b,
{
    let c = a + seq![b];
    assert(c.len() == a.len() + 1 && c[a.len() as int] == b);
    assert(r0.all().subrange(r0.pos(), r0.pos() + c.len())[a.len() as int] == r0.all()[r0.pos() + a.len()]);
}
pub proof fn sees_tail(r0: &BitReader, r: &BitReader, a: Bits, h: Bits, b: Bits)
    requires r0.wf(), r.wf(), r.all() == r0.all(), r.pos() == r0.pos() + a.len() + h.len(), r0.pos() + a.len() + h.len() + b.len() <= r0.all().len(),
        r0.sees(a + (h + b)),
    ensures r.sees(b),
{ assert(a + (h + b) =~= (a + h) + b); sees_split(r0, a + h, b); assert(r.at(r0, (a + h).len() as int)); }
pub proof fn arr_split<T, A: ArrayTrait<T>>(tr: A, packed: bool, fixed: Option<usize>, s: Seq<T>, p: int)
    ensures arr_enc(tr, packed, fixed, s, p) == array_header(fixed, s.len() as int) + arr_body(tr, packed, s, p + array_header(fixed, s.len() as int).len()),
{}
pub proof fn psmall_whole<T>(psmall: spec_fn(Seq<T>) -> bool, s: Seq<T>)
    requires psmall_all(psmall, s),
    ensures psmall(s),
{ assert(s.subrange(0, s.len() as int) =~= s); }
/// division and remainder round toward zero
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { if b >= 0 { a / b } else { -(a / -b) } } else if b >= 0 { -(-a / b) } else { (-a) / (-b) } }
pub open spec fn tmod(a: int, b: int) -> int { if a >= 0 { if b >= 0 { a % b } else { a % -b } } else if b >= 0 { -((-a) % b) } else { -((-a) % (-b)) } }
pub open spec fn nbits(v: int) -> int { if v <= 1 { v } else { blen(v - 1) } }
pub broadcast proof fn nbits_bound(v: int)
    ensures v <= 0xff ==> #[trigger] nbits(v) <= 8, v <= 0xffff ==> nbits(v) <= 16, v <= 0xffff_ffff ==> nbits(v) <= 32, v <= 0xffff_ffff_ffff_ffff ==> nbits(v) <= 64, v >= 0 ==> nbits(v) >= 0,
{
    pow2_vals();
    if v > 1 {
        blen_bounds(v - 1);
        if v <= 0xff { blen_least(v - 1, 8); }
        if v <= 0xffff { blen_least(v - 1, 16); }
        if v <= 0xffff_ffff { blen_least(v - 1, 32); }
        if v <= 0xffff_ffff_ffff_ffff { blen_least(v - 1, 64); }
    }
}
pub uninterp spec fn mkvec<T>(s: Seq<T>) -> Vec<T>;
pub uninterp spec fn mkstr(s: Seq<char>) -> String;
pub broadcast axiom fn mkvec_view<T>(v: Vec<T>) ensures mkvec(#[trigger] v@) == v;
pub broadcast axiom fn mkstr_view(v: String) ensures mkstr(#[trigger] v@) == v;
pub broadcast proof fn extern_zeroed_is(v: ExternType, e: ExternType)
    requires e.bit_size == v.bit_size, e.data_blob@ == extern_canon(v.bit_size as int, v.data_blob@),
    ensures #![trigger extern_zeroed(v), e.data_blob@] e == extern_zeroed(v),
{
    let z = extern_zeroed(v);
    assert(z.bit_size == v.bit_size && z.data_blob@ == extern_canon(v.bit_size as int, v.data_blob@));
    vec_ext(z.data_blob, e.data_blob);
}
pub broadcast proof fn bytes_is(v: BytesType, e: BytesType)
    requires e.byte_size == v.byte_size, e.data_blob@ == v.data_blob@,
    ensures #![trigger e.data_blob@, v.data_blob@] e == v,
{ vec_ext(v.data_blob, e.data_blob); }
pub broadcast proof fn vbits_some(k: Var, v: int) ensures 8 <= (#[trigger] vbits(k, v)).len() <= 72 { vbits_len(k, v); }
pub broadcast proof fn mul_bound(a: int, b: int)
    ensures
        -0x1_0000 <= a <= 0x1_0000 && -0x100 <= b <= 0x100 ==> -0x100_0000 <= #[trigger] (a * b) <= 0x100_0000,
        -0x1_0000 <= b <= 0x1_0000 && -0x100 <= a <= 0x100 ==> -0x100_0000 <= a * b <= 0x100_0000,
        a >= 0 && b >= 0 ==> a * b >= 0,
{
    if -0x1_0000 <= a <= 0x1_0000 && -0x100 <= b <= 0x100 { assert(-0x100_0000 <= a * b <= 0x100_0000) by (nonlinear_arith) requires -0x1_0000 <= a <= 0x1_0000, -0x100 <= b <= 0x100; }
    if -0x1_0000 <= b <= 0x1_0000 && -0x100 <= a <= 0x100 { assert(-0x100_0000 <= a * b <= 0x100_0000) by (nonlinear_arith) requires -0x1_0000 <= b <= 0x1_0000, -0x100 <= a <= 0x100; }
    if a >= 0 && b >= 0 { assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0; }
}
pub broadcast group zs_lemmas { nbits_bound, ubits_len, sbits_len, vbits_some, byte_bits_len, bits_of_len, bytes64_len, bytes32_len, bytes16_len, band_range, mkvec_view, mkstr_view, extern_zeroed_is, bytes_is, nx1_is, nx2_is, nx3_is, nf1_is, nf2_is, nf3_is, nb1_is }
pub uninterp spec fn bytes_dflt() -> BytesType;
pub uninterp spec fn extern_dflt() -> ExternType;
impl Default for BytesType { #[verifier::external_body] fn default() -> (r: BytesType) ensures r == bytes_dflt() { unimplemented!() } }
impl Default for ExternType { #[verifier::external_body] fn default() -> (r: ExternType) ensures r == extern_dflt() { unimplemented!() } }
impl Clone for BytesType { #[verifier::external_body] fn clone(&self) -> (r: BytesType) ensures r == *self { unimplemented!() } }
impl Clone for ExternType { #[verifier::external_body] fn clone(&self) -> (r: ExternType) ensures r == *self { unimplemented!() } }
}
pub use zs::*;
