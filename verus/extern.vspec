// ======================= extern =======================
//@ text
pub open spec fn tail_bits(n: int, s: Seq<u8>) -> Bits {
    if n % 8 == 0 { Seq::empty() } else { ubits((s[n / 8] >> ((8 - n % 8) as u8)) as u64, n % 8) }
}
/// an extern value of n bits held in the bytes s
pub open spec fn enc_extern(n: int, s: Seq<u8>) -> Bits {
    vbits(Var::Size, n) + (byte_bits(s.subrange(0, n / 8)) + tail_bits(n, s))
}
pub open spec fn extern_shape(n: int, s: Seq<u8>) -> bool { 0 <= n && s.len() == (n + 7) / 8 }
/// bits beyond the last are zero
pub open spec fn extern_canon(n: int, s: Seq<u8>) -> Seq<u8> {
    if n % 8 == 0 { s } else { s.update(n / 8, (s[n / 8] >> ((8 - n % 8) as u8)) << ((8 - n % 8) as u8)) }
}
pub proof fn tail_fits(b: u8, r: u8)
    requires 0 < r < 8,
    ensures (b >> ((8 - r) as u8)) < pow2(r as int),
{
    pow2_vals();
    assert(r == 1 ==> b >> 7u8 < 2) by (bit_vector);
    assert(r == 2 ==> b >> 6u8 < 4) by (bit_vector);
    assert(r == 3 ==> b >> 5u8 < 8) by (bit_vector);
    assert(r == 4 ==> b >> 4u8 < 16) by (bit_vector);
    assert(r == 5 ==> b >> 3u8 < 32) by (bit_vector);
    assert(r == 6 ==> b >> 2u8 < 64) by (bit_vector);
    assert(r == 7 ==> b >> 1u8 < 128) by (bit_vector);
}
//@ source crates/zserio/src/ztype/extern_type.rs
//@ fn write_extern_type
    requires extern_shape(extern_type.bit_size as int, extern_type.data_blob@),
    ensures
        extern_type.bit_size <= 0x7fff_ffff <==> res is Ok,
        res is Ok ==> final(bit_writer)@ == old(bit_writer)@ + enc_extern(extern_type.bit_size as int, extern_type.data_blob@),
//@ at write_extern_type start
    proof { let n = extern_type.bit_size as int; if n % 8 != 0 { tail_fits(extern_type.data_blob@[n / 8], (n % 8) as u8); } }
//@ at write_extern_type end
    proof {
        let n = extern_type.bit_size as int; let s = extern_type.data_blob@;
        let w = old(bit_writer)@;
        assert(w + vbits(Var::Size, n) + byte_bits(s.subrange(0, n / 8)) + tail_bits(n, s) =~= w + enc_extern(n, s));
        assert(n % 8 == 0 ==> w + vbits(Var::Size, n) + byte_bits(s.subrange(0, n / 8)) =~= w + enc_extern(n, s));
        assert(bit_writer@ =~= w + enc_extern(n, s));
    }
//@ fn bitsize_of_extern
    requires extern_shape(extern_type.bit_size as int, extern_type.data_blob@),
    ensures
        extern_type.bit_size <= 0x7fff_ffff <==> res is Ok,
        res matches Ok(r) ==> r == enc_extern(extern_type.bit_size as int, extern_type.data_blob@).len(),
//@ at bitsize_of_extern start
    proof { broadcast use byte_bits_len; broadcast use vbits_len; broadcast use ubits_len; }
//@ fn read_extern_type
    requires old(bit_reader).wf(),
    ensures
        final(bit_reader).after(old(bit_reader)),
        res matches Ok(v) ==> extern_shape(v.bit_size as int, v.data_blob@),
        forall|n: int, s: Seq<u8>| #![trigger enc_extern(n, s)] n <= 0x7fff_ffff && extern_shape(n, s) && old(bit_reader).sees(enc_extern(n, s)) ==>
            res is Ok && res->Ok_0.bit_size == n && res->Ok_0.data_blob@ == extern_canon(n, s) && final(bit_reader).at(old(bit_reader), enc_extern(n, s).len() as int),
//@ at read_extern_type start
    proof {
        broadcast use byte_bits_len; broadcast use vbits_len; broadcast use ubits_len;
        assert forall|n: int, s: Seq<u8>| #![trigger enc_extern(n, s)] extern_shape(n, s) && bit_reader.sees(enc_extern(n, s)) implies bit_reader.sees(vbits(Var::Size, n))
            && (forall|q: &BitReader| #![trigger q.sees(byte_bits(s.subrange(0, n / 8)))] q.at(&*bit_reader, vbits(Var::Size, n).len() as int) ==> q.sees(byte_bits(s.subrange(0, n / 8))))
            && (n % 8 != 0 ==> (s[n / 8] >> ((8 - n % 8) as u8)) < pow2(n % 8))
            && (forall|q: &BitReader| #![trigger q.sees(tail_bits(n, s))] q.at(&*bit_reader, vbits(Var::Size, n).len() as int + byte_bits(s.subrange(0, n / 8)).len()) ==> q.sees(tail_bits(n, s))) by {
            let (a, b, c) = (vbits(Var::Size, n), byte_bits(s.subrange(0, n / 8)), tail_bits(n, s));
            sees_split(bit_reader, a, b + c);
            assert(a + (b + c) =~= (a + b) + c);
            sees_split(bit_reader, a + b, c);
            sees_split(bit_reader, a + b, c);
            if n % 8 != 0 { tail_fits(s[n / 8], (n % 8) as u8); }
            assert forall|q: &BitReader| #![trigger q.sees(b)] q.at(&*bit_reader, a.len() as int) implies q.sees(b) by {
                assert(q.sees(b + c));
                sees_split(q, b, c);
            }
        }
    }
