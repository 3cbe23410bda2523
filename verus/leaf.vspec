// ======================= numbits =======================
//@ text
pub open spec fn blen(v: int) -> int decreases v { if v <= 0 { 0 } else { 1 + blen(v / 2) } }
pub proof fn blen_bounds(v: int)
    requires v >= 0,
    ensures v < pow2(blen(v)), blen(v) >= 0, v > 0 ==> pow2(blen(v) - 1) <= v,
    decreases v
{
    if v > 0 { blen_bounds(v / 2); if v / 2 > 0 {} else { assert(blen(v / 2) == 0); } }
}
pub proof fn pow2_mono(a: int, b: int)
    requires 0 <= a <= b,
    ensures pow2(a) <= pow2(b), pow2(a) >= 1
    decreases b - a, b
{
    if a < b { pow2_mono(a, b - 1); } else if a > 0 { pow2_mono(a - 1, a - 1); }
}
pub proof fn blen_least(v: int, n: int)
    requires v >= 0, n >= 0, v < pow2(n),
    ensures blen(v) <= n,
    decreases n
{
    blen_bounds(v);
    if v > 0 && blen(v) > n { pow2_mono(n, blen(v) - 1); }
}
pub proof fn blen_mono(a: int, b: int)
    requires 0 <= a <= b,
    ensures blen(a) <= blen(b),
{
    blen_bounds(a); blen_bounds(b);
    blen_least(a, blen(b));
}
pub proof fn blen_shift(v: int, k: int)
    requires v >= pow2(k), k >= 0,
    ensures blen(v) == k + blen(v / pow2(k)), pow2(k) >= 1,
    decreases k
{
    pow2_mono(0, k);
    if k > 0 {
        blen_shift(v / 2, k - 1);
        vstd::arithmetic::div_mod::lemma_div_denominator(v, 2, pow2(k - 1));
    } else {
        assert(pow2(k) == 1 && v / pow2(k) == v) by (nonlinear_arith) requires pow2(k) == 1;
    }
}
pub proof fn pow2_vals()
    ensures pow2(0) == 1, pow2(1) == 2, pow2(2) == 4, pow2(3) == 8, pow2(4) == 16, pow2(5) == 32, pow2(6) == 64, pow2(7) == 128, pow2(8) == 256, pow2(16) == 0x1_0000,
        pow2(31) == 0x8000_0000, pow2(32) == 0x1_0000_0000, pow2(61) == 0x2000_0000_0000_0000, pow2(62) == 0x4000_0000_0000_0000, pow2(63) == 0x8000_0000_0000_0000, pow2(64) == 0x1_0000_0000_0000_0000
{
    assert(pow2(8) == 256) by (compute);
    assert(pow2(16) == 0x1_0000) by (compute);
    assert(pow2(31) == 0x8000_0000) by (compute);
    assert(pow2(32) == 0x1_0000_0000) by (compute);
    assert(pow2(61) == 0x2000_0000_0000_0000) by (compute);
    assert(pow2(62) == 0x4000_0000_0000_0000) by (compute);
    assert(pow2(63) == 0x8000_0000_0000_0000) by (compute);
    assert(pow2(64) == 0x1_0000_0000_0000_0000) by (compute);
    reveal_with_fuel(pow2, 8);
}
/// the trait of crate num that all primitive integers implement
pub trait PrimInt: Copy + core::ops::Sub<Output = Self> + vstd::std_specs::ops::SubSpec<Self> {
    spec fn value(&self) -> int;
    fn to_u64(&self) -> (r: Option<u64>)
        ensures 0 <= self.value() <= u64::MAX ==> r == Some(self.value() as u64), self.value() < 0 ==> r is None;
    fn is_zero(v: &Self) -> (r: bool) ensures r == (v.value() == 0);
    fn is_one(v: &Self) -> (r: bool) ensures r == (v.value() == 1);
    fn from(i: i32) -> (r: Option<Self>) ensures i == 1 ==> r is Some && r->Some_0.value() == 1;
}
impl PrimInt for u8 {
    open spec fn value(&self) -> int { *self as int }
    #[verifier::external_body] fn to_u64(&self) -> Option<u64> { unimplemented!() }
    #[verifier::external_body] fn is_zero(v: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn is_one(v: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn from(i: i32) -> Option<Self> { unimplemented!() }
}
impl PrimInt for u16 {
    open spec fn value(&self) -> int { *self as int }
    #[verifier::external_body] fn to_u64(&self) -> Option<u64> { unimplemented!() }
    #[verifier::external_body] fn is_zero(v: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn is_one(v: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn from(i: i32) -> Option<Self> { unimplemented!() }
}
impl PrimInt for u32 {
    open spec fn value(&self) -> int { *self as int }
    #[verifier::external_body] fn to_u64(&self) -> Option<u64> { unimplemented!() }
    #[verifier::external_body] fn is_zero(v: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn is_one(v: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn from(i: i32) -> Option<Self> { unimplemented!() }
}
impl PrimInt for u64 {
    open spec fn value(&self) -> int { *self as int }
    #[verifier::external_body] fn to_u64(&self) -> Option<u64> { unimplemented!() }
    #[verifier::external_body] fn is_zero(v: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn is_one(v: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn from(i: i32) -> Option<Self> { unimplemented!() }
}
impl PrimInt for usize {
    open spec fn value(&self) -> int { *self as int }
    #[verifier::external_body] fn to_u64(&self) -> Option<u64> { unimplemented!() }
    #[verifier::external_body] fn is_zero(v: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn is_one(v: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn from(i: i32) -> Option<Self> { unimplemented!() }
}
impl PrimInt for i8 {
    open spec fn value(&self) -> int { *self as int }
    #[verifier::external_body] fn to_u64(&self) -> Option<u64> { unimplemented!() }
    #[verifier::external_body] fn is_zero(v: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn is_one(v: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn from(i: i32) -> Option<Self> { unimplemented!() }
}
impl PrimInt for i16 {
    open spec fn value(&self) -> int { *self as int }
    #[verifier::external_body] fn to_u64(&self) -> Option<u64> { unimplemented!() }
    #[verifier::external_body] fn is_zero(v: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn is_one(v: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn from(i: i32) -> Option<Self> { unimplemented!() }
}
impl PrimInt for i32 {
    open spec fn value(&self) -> int { *self as int }
    #[verifier::external_body] fn to_u64(&self) -> Option<u64> { unimplemented!() }
    #[verifier::external_body] fn is_zero(v: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn is_one(v: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn from(i: i32) -> Option<Self> { unimplemented!() }
}
impl PrimInt for i64 {
    open spec fn value(&self) -> int { *self as int }
    #[verifier::external_body] fn to_u64(&self) -> Option<u64> { unimplemented!() }
    #[verifier::external_body] fn is_zero(v: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn is_one(v: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn from(i: i32) -> Option<Self> { unimplemented!() }
}
/// subtraction of T is integer subtraction where it does not overflow
pub open spec fn sub_is_exact<T: PrimInt>() -> bool {
    &&& <T as vstd::std_specs::ops::SubSpec<T>>::obeys_sub_spec()
    &&& forall|a: T, b: T| #![trigger a.sub_req(b)] a.value() >= b.value() >= 0 ==> a.sub_req(b) && a.sub_spec(b).value() == a.value() - b.value()
}
//@ source crates/zserio/src/numbits.rs only=bit_length,numbits,BIT_LENGTH_BYTE
//@ fn bit_length
    requires 0 <= value.value() <= u64::MAX,
    ensures res == blen(value.value()), res <= 64,
//@ at bit_length start
    proof {
        let v = value.value() as u64;
        pow2_vals();
        assert(1u64 << 32i32 == 0x1_0000_0000u64) by (bit_vector);
        assert(1u64 << 16i32 == 0x1_0000u64) by (bit_vector);
        assert(1u64 << 8i32 == 0x100u64) by (bit_vector);
        assert(forall|y: u64| #![trigger y >> 32i32] y >> 32i32 == y / 0x1_0000_0000u64) by (bit_vector);
        assert(forall|y: u64| #![trigger y >> 16i32] y >> 16i32 == y / 0x1_0000u64) by (bit_vector);
        assert(forall|y: u64| #![trigger y >> 8i32] y >> 8i32 == y / 0x100u64) by (bit_vector);
        if v >= 0x1_0000_0000u64 { blen_shift(v as int, 32); }
        let v1 = if v >= 0x1_0000_0000u64 { v / 0x1_0000_0000u64 } else { v };
        if v1 >= 0x1_0000u64 { blen_shift(v1 as int, 16); }
        let v2 = if v1 >= 0x1_0000u64 { v1 / 0x1_0000u64 } else { v1 };
        if v2 >= 0x100u64 { blen_shift(v2 as int, 8); }
        blen_bounds(v as int);
        blen_least(v as int, 64);
        bit_length_table();
    }
//@ fn numbits
    requires 0 <= value.value() <= u64::MAX, sub_is_exact::<T>(),
    ensures res == (if value.value() == 0 { 0 } else if value.value() == 1 { 1 } else { blen(value.value() - 1) }), res <= 64,
//@ text
pub open spec fn tab(s: Seq<char>, n: int) -> bool decreases n {
    n <= 0 || (s[n - 1] as u32 == blen(n - 1) && tab(s, n - 1))
}
pub proof fn tab_at(s: Seq<char>, n: int, i: int)
    requires tab(s, n), 0 <= i < n,
    ensures s[i] as u32 == blen(i),
    decreases n
{
    if i < n - 1 { tab_at(s, n - 1, i); }
}
pub proof fn bit_length_table()
    ensures BIT_LENGTH_BYTE@.len() == 256, forall|i: int| 0 <= i < 256 ==> #[trigger] BIT_LENGTH_BYTE@[i] as u32 == blen(i)
{
    reveal_strlit($CONST{BIT_LENGTH_BYTE});
    reveal_with_fuel(blen, 10);
    reveal_with_fuel(tab, 2);
    let s = BIT_LENGTH_BYTE@;
    assert(s.len() == 256);
    assert(tab(s, 1)); assert(tab(s, 2)); assert(tab(s, 3)); assert(tab(s, 4)); assert(tab(s, 5)); assert(tab(s, 6)); assert(tab(s, 7)); assert(tab(s, 8)); assert(tab(s, 9)); assert(tab(s, 10)); assert(tab(s, 11)); assert(tab(s, 12)); assert(tab(s, 13)); assert(tab(s, 14)); assert(tab(s, 15)); assert(tab(s, 16));
    assert(tab(s, 17)); assert(tab(s, 18)); assert(tab(s, 19)); assert(tab(s, 20)); assert(tab(s, 21)); assert(tab(s, 22)); assert(tab(s, 23)); assert(tab(s, 24)); assert(tab(s, 25)); assert(tab(s, 26)); assert(tab(s, 27)); assert(tab(s, 28)); assert(tab(s, 29)); assert(tab(s, 30)); assert(tab(s, 31)); assert(tab(s, 32));
    assert(tab(s, 33)); assert(tab(s, 34)); assert(tab(s, 35)); assert(tab(s, 36)); assert(tab(s, 37)); assert(tab(s, 38)); assert(tab(s, 39)); assert(tab(s, 40)); assert(tab(s, 41)); assert(tab(s, 42)); assert(tab(s, 43)); assert(tab(s, 44)); assert(tab(s, 45)); assert(tab(s, 46)); assert(tab(s, 47)); assert(tab(s, 48));
    assert(tab(s, 49)); assert(tab(s, 50)); assert(tab(s, 51)); assert(tab(s, 52)); assert(tab(s, 53)); assert(tab(s, 54)); assert(tab(s, 55)); assert(tab(s, 56)); assert(tab(s, 57)); assert(tab(s, 58)); assert(tab(s, 59)); assert(tab(s, 60)); assert(tab(s, 61)); assert(tab(s, 62)); assert(tab(s, 63)); assert(tab(s, 64));
    assert(tab(s, 65)); assert(tab(s, 66)); assert(tab(s, 67)); assert(tab(s, 68)); assert(tab(s, 69)); assert(tab(s, 70)); assert(tab(s, 71)); assert(tab(s, 72)); assert(tab(s, 73)); assert(tab(s, 74)); assert(tab(s, 75)); assert(tab(s, 76)); assert(tab(s, 77)); assert(tab(s, 78)); assert(tab(s, 79)); assert(tab(s, 80));
    assert(tab(s, 81)); assert(tab(s, 82)); assert(tab(s, 83)); assert(tab(s, 84)); assert(tab(s, 85)); assert(tab(s, 86)); assert(tab(s, 87)); assert(tab(s, 88)); assert(tab(s, 89)); assert(tab(s, 90)); assert(tab(s, 91)); assert(tab(s, 92)); assert(tab(s, 93)); assert(tab(s, 94)); assert(tab(s, 95)); assert(tab(s, 96));
    assert(tab(s, 97)); assert(tab(s, 98)); assert(tab(s, 99)); assert(tab(s, 100)); assert(tab(s, 101)); assert(tab(s, 102)); assert(tab(s, 103)); assert(tab(s, 104)); assert(tab(s, 105)); assert(tab(s, 106)); assert(tab(s, 107)); assert(tab(s, 108)); assert(tab(s, 109)); assert(tab(s, 110)); assert(tab(s, 111)); assert(tab(s, 112));
    assert(tab(s, 113)); assert(tab(s, 114)); assert(tab(s, 115)); assert(tab(s, 116)); assert(tab(s, 117)); assert(tab(s, 118)); assert(tab(s, 119)); assert(tab(s, 120)); assert(tab(s, 121)); assert(tab(s, 122)); assert(tab(s, 123)); assert(tab(s, 124)); assert(tab(s, 125)); assert(tab(s, 126)); assert(tab(s, 127)); assert(tab(s, 128));
    assert(tab(s, 129)); assert(tab(s, 130)); assert(tab(s, 131)); assert(tab(s, 132)); assert(tab(s, 133)); assert(tab(s, 134)); assert(tab(s, 135)); assert(tab(s, 136)); assert(tab(s, 137)); assert(tab(s, 138)); assert(tab(s, 139)); assert(tab(s, 140)); assert(tab(s, 141)); assert(tab(s, 142)); assert(tab(s, 143)); assert(tab(s, 144));
    assert(tab(s, 145)); assert(tab(s, 146)); assert(tab(s, 147)); assert(tab(s, 148)); assert(tab(s, 149)); assert(tab(s, 150)); assert(tab(s, 151)); assert(tab(s, 152)); assert(tab(s, 153)); assert(tab(s, 154)); assert(tab(s, 155)); assert(tab(s, 156)); assert(tab(s, 157)); assert(tab(s, 158)); assert(tab(s, 159)); assert(tab(s, 160));
    assert(tab(s, 161)); assert(tab(s, 162)); assert(tab(s, 163)); assert(tab(s, 164)); assert(tab(s, 165)); assert(tab(s, 166)); assert(tab(s, 167)); assert(tab(s, 168)); assert(tab(s, 169)); assert(tab(s, 170)); assert(tab(s, 171)); assert(tab(s, 172)); assert(tab(s, 173)); assert(tab(s, 174)); assert(tab(s, 175)); assert(tab(s, 176));
    assert(tab(s, 177)); assert(tab(s, 178)); assert(tab(s, 179)); assert(tab(s, 180)); assert(tab(s, 181)); assert(tab(s, 182)); assert(tab(s, 183)); assert(tab(s, 184)); assert(tab(s, 185)); assert(tab(s, 186)); assert(tab(s, 187)); assert(tab(s, 188)); assert(tab(s, 189)); assert(tab(s, 190)); assert(tab(s, 191)); assert(tab(s, 192));
    assert(tab(s, 193)); assert(tab(s, 194)); assert(tab(s, 195)); assert(tab(s, 196)); assert(tab(s, 197)); assert(tab(s, 198)); assert(tab(s, 199)); assert(tab(s, 200)); assert(tab(s, 201)); assert(tab(s, 202)); assert(tab(s, 203)); assert(tab(s, 204)); assert(tab(s, 205)); assert(tab(s, 206)); assert(tab(s, 207)); assert(tab(s, 208));
    assert(tab(s, 209)); assert(tab(s, 210)); assert(tab(s, 211)); assert(tab(s, 212)); assert(tab(s, 213)); assert(tab(s, 214)); assert(tab(s, 215)); assert(tab(s, 216)); assert(tab(s, 217)); assert(tab(s, 218)); assert(tab(s, 219)); assert(tab(s, 220)); assert(tab(s, 221)); assert(tab(s, 222)); assert(tab(s, 223)); assert(tab(s, 224));
    assert(tab(s, 225)); assert(tab(s, 226)); assert(tab(s, 227)); assert(tab(s, 228)); assert(tab(s, 229)); assert(tab(s, 230)); assert(tab(s, 231)); assert(tab(s, 232)); assert(tab(s, 233)); assert(tab(s, 234)); assert(tab(s, 235)); assert(tab(s, 236)); assert(tab(s, 237)); assert(tab(s, 238)); assert(tab(s, 239)); assert(tab(s, 240));
    assert(tab(s, 241)); assert(tab(s, 242)); assert(tab(s, 243)); assert(tab(s, 244)); assert(tab(s, 245)); assert(tab(s, 246)); assert(tab(s, 247)); assert(tab(s, 248)); assert(tab(s, 249)); assert(tab(s, 250)); assert(tab(s, 251)); assert(tab(s, 252)); assert(tab(s, 253)); assert(tab(s, 254)); assert(tab(s, 255)); assert(tab(s, 256));
    assert forall|i: int| 0 <= i < 256 implies #[trigger] BIT_LENGTH_BYTE@[i] as u32 == blen(i) by { tab_at(s, 256, i); }
}
//@ source crates/zserio/src/ztype/alignment.rs

//@ text
pub proof fn mod_lt(p: int, a: int)
    requires p >= 0, a > 0,
    ensures 0 <= p % a < a, 0 <= pad(p, a) < a, 0 <= (p + a - 1) / a,
        ((p + a - 1) / a) * a == p + pad(p, a),
{
    assert(0 <= p % a < a) by (nonlinear_arith) requires a > 0;
    assert(0 <= pad(p, a) < a) by (nonlinear_arith) requires a > 0, pad(p, a) == (a - p % a) % a;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, a);
    let q = p / a; let r = p % a;
    assert(a * q == q * a) by (nonlinear_arith);
    if r == 0 {
        assert((a - r) % a == 0) by (nonlinear_arith) requires r == 0, a > 0;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p + a - 1, a, q, a - 1);
    } else {
        assert((a - r) % a == a - r) by (nonlinear_arith) requires 0 < r < a;
        assert((q + 1) * a == q * a + a) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p + a - 1, a, q + 1, r - 1);
    }
    assert(0 <= (p + a - 1) / a) by (nonlinear_arith) requires a > 0, p >= 0;
}
//@ fn align_reader
    requires old(reader).wf(), 0 < u64_alignment_bits <= u64::MAX / 2,
    ensures
        res is Ok <==> old(reader).pos() + pad(old(reader).pos(), u64_alignment_bits as int) <= old(reader).all().len(),
        final(reader).at(old(reader), if res is Ok { pad(old(reader).pos(), u64_alignment_bits as int) } else { 0 }),
//@ at align_reader start
    proof { mod_lt(reader.pos(), u64_alignment_bits as int); }
//@ fn align_writer
    requires u64_alignment_bits > 0,
    ensures res is Ok, final(writer)@ == old(writer)@ + zeros(pad(old(writer)@.len() as int, u64_alignment_bits as int)),
//@ fn align_bitsize
    requires u64_alignment_bits > 0,
    ensures res == pad(bit_pos as int, u64_alignment_bits as int),
//@ source crates/zserio/src/ztype/bit_alignment.rs
//@ fn align_to
    requires align_to_bitcount > 0, bit_position + align_to_bitcount <= u64::MAX,
    ensures res == bit_position + pad(bit_position as int, align_to_bitcount as int),
//@ at align_to start
    proof { mod_lt(bit_position as int, align_to_bitcount as int); }
//@ source crates/zserio/src/ztype/writer.rs
//@ fn write_bytes
    ensures res is Ok, final(writer)@ == old(writer)@ + byte_bits(bytes@),
//@ at write_bytes start
    let ghost w0 = writer@;
    proof { assert(w0 + byte_bits(bytes@.subrange(0, 0)) =~= w0); }
//@ loop write_bytes 0 for
    invariant
        writer@ == w0 + byte_bits(bytes@.subrange(0, it0.index@)),
//@ at write_bytes loop 0 end
    proof {
        let s = bytes@.subrange(0, it0.index@ + 1);
        assert(s.drop_last() =~= bytes@.subrange(0, it0.index@));
        assert(w0 + byte_bits(s.drop_last()) + ubits(s.last() as u64, 8) =~= w0 + byte_bits(s));
    }
//@ at write_bytes end
    proof { assert(bytes@.subrange(0, bytes@.len() as int) =~= bytes@); }
//@ source crates/zserio/src/ztype/reader.rs
//@ fn read_bytes
    requires old(reader).wf(),
    ensures
        res is Ok <==> old(reader).pos() + 8 * num_bytes <= old(reader).all().len(),
        final(reader).at(old(reader), if res is Ok { 8 * num_bytes as int } else { 0 }),
        res matches Ok(v) ==> v@.len() == num_bytes,
        forall|s: Seq<u8>| #![trigger byte_bits(s)] s.len() == num_bytes && old(reader).sees(byte_bits(s)) ==> res is Ok && res->Ok_0@ == s,
//@ at read_bytes start
    proof { broadcast use byte_bits_len; }
