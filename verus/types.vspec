// ======================= bits, strings, bytes, extern, floats =======================
//@ source crates/zserio/src/ztype/bits_encode.rs only=write_unsigned_bits,write_signed_bits,write_uint8,write_uint16,write_uint32,write_uint64,write_int8,write_int16,write_int32,write_int64
//@ fn write_unsigned_bits
    requires bits <= 64,
    ensures res is Ok, final(writer)@ == old(writer)@ + ubits(v, bits as int),
//@ fn write_signed_bits
    requires bits <= 64,
    ensures res is Ok, final(writer)@ == old(writer)@ + sbits(v, bits as int),
//@ fn write_uint8
    ensures res is Ok, final(writer)@ == old(writer)@ + ubits(v as u64, 8),
//@ fn write_uint16
    ensures res is Ok, final(writer)@ == old(writer)@ + ubits(v as u64, 16),
//@ fn write_uint32
    ensures res is Ok, final(writer)@ == old(writer)@ + ubits(v as u64, 32),
//@ fn write_uint64
    ensures res is Ok, final(writer)@ == old(writer)@ + ubits(v as u64, 64),
//@ fn write_int8
    ensures res is Ok, final(writer)@ == old(writer)@ + sbits(v as i64, 8),
//@ fn write_int16
    ensures res is Ok, final(writer)@ == old(writer)@ + sbits(v as i64, 16),
//@ fn write_int32
    ensures res is Ok, final(writer)@ == old(writer)@ + sbits(v as i64, 32),
//@ fn write_int64
    ensures res is Ok, final(writer)@ == old(writer)@ + sbits(v as i64, 64),
//@ source crates/zserio/src/ztype/bits_decode.rs only=read_unsigned_bits,read_signed_bits,read_uint8,read_uint16,read_uint32,read_uint64,read_int8,read_int16,read_int32,read_int64
//@ fn read_unsigned_bits
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        bits > 64 ==> res is Err,
        res matches Ok(v) ==> ufits(v, bits as int),
        forall|v: u64| #![trigger ubits(v, bits as int)] bits <= 64 && ufits(v, bits as int) && old(reader).sees(ubits(v, bits as int)) ==>
            res == Result::<u64, ZserioError>::Ok(v) && final(reader).at(old(reader), bits as int),
//@ at read_unsigned_bits start
    proof { broadcast use ubits_len; }
//@ fn read_signed_bits
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        bits > 64 ==> res is Err,
        forall|v: i64| #![trigger sbits(v, bits as int)] 0 < bits <= 64 && sfits(v, bits as int) && old(reader).sees(sbits(v, bits as int)) ==>
            res == Result::<i64, ZserioError>::Ok(v) && final(reader).at(old(reader), bits as int),
//@ at read_signed_bits start
    proof { broadcast use sbits_len; }
//@ fn read_uint8
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        forall|v: u8| #![trigger ubits(v as u64, 8)] old(reader).sees(ubits(v as u64, 8)) ==> res == Result::<u8, ZserioError>::Ok(v) && final(reader).at(old(reader), 8),
//@ at read_uint8 start
    proof { broadcast use ubits_len; broadcast use sbits_len; pow2_vals(); assert(pow2(15) == 0x8000 && pow2(7) == 0x80) by (compute); }
//@ fn read_uint16
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        forall|v: u16| #![trigger ubits(v as u64, 16)] old(reader).sees(ubits(v as u64, 16)) ==> res == Result::<u16, ZserioError>::Ok(v) && final(reader).at(old(reader), 16),
//@ at read_uint16 start
    proof { broadcast use ubits_len; broadcast use sbits_len; pow2_vals(); assert(pow2(15) == 0x8000 && pow2(7) == 0x80) by (compute); }
//@ fn read_uint32
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        forall|v: u32| #![trigger ubits(v as u64, 32)] old(reader).sees(ubits(v as u64, 32)) ==> res == Result::<u32, ZserioError>::Ok(v) && final(reader).at(old(reader), 32),
//@ at read_uint32 start
    proof { broadcast use ubits_len; broadcast use sbits_len; pow2_vals(); assert(pow2(15) == 0x8000 && pow2(7) == 0x80) by (compute); }
//@ fn read_uint64
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        forall|v: u64| #![trigger ubits(v as u64, 64)] old(reader).sees(ubits(v as u64, 64)) ==> res == Result::<u64, ZserioError>::Ok(v) && final(reader).at(old(reader), 64),
//@ at read_uint64 start
    proof { broadcast use ubits_len; broadcast use sbits_len; pow2_vals(); assert(pow2(15) == 0x8000 && pow2(7) == 0x80) by (compute); }
//@ fn read_int8
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        forall|v: i8| #![trigger sbits(v as i64, 8)] old(reader).sees(sbits(v as i64, 8)) ==> res == Result::<i8, ZserioError>::Ok(v) && final(reader).at(old(reader), 8),
//@ at read_int8 start
    proof { broadcast use ubits_len; broadcast use sbits_len; pow2_vals(); assert(pow2(15) == 0x8000 && pow2(7) == 0x80) by (compute); }
//@ fn read_int16
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        forall|v: i16| #![trigger sbits(v as i64, 16)] old(reader).sees(sbits(v as i64, 16)) ==> res == Result::<i16, ZserioError>::Ok(v) && final(reader).at(old(reader), 16),
//@ at read_int16 start
    proof { broadcast use ubits_len; broadcast use sbits_len; pow2_vals(); assert(pow2(15) == 0x8000 && pow2(7) == 0x80) by (compute); }
//@ fn read_int32
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        forall|v: i32| #![trigger sbits(v as i64, 32)] old(reader).sees(sbits(v as i64, 32)) ==> res == Result::<i32, ZserioError>::Ok(v) && final(reader).at(old(reader), 32),
//@ at read_int32 start
    proof { broadcast use ubits_len; broadcast use sbits_len; pow2_vals(); assert(pow2(15) == 0x8000 && pow2(7) == 0x80) by (compute); }
//@ fn read_int64
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        forall|v: i64| #![trigger sbits(v as i64, 64)] old(reader).sees(sbits(v as i64, 64)) ==> res == Result::<i64, ZserioError>::Ok(v) && final(reader).at(old(reader), 64),
//@ at read_int64 start
    proof { broadcast use ubits_len; broadcast use sbits_len; pow2_vals(); assert(pow2(15) == 0x8000 && pow2(7) == 0x80) by (compute); }
//@ text
pub open spec fn enc_bytes(s: Seq<u8>) -> Bits { vbits(Var::Size, s.len() as int) + byte_bits(s) }
pub open spec fn enc_string(s: Seq<char>) -> Bits { enc_bytes(utf8(s)) }
/// a + b is seen: a is seen, and b after it
pub proof fn sees_split(r: &BitReader, a: Bits, b: Bits)
    requires r.sees(a + b), r.wf(),
    ensures r.sees(a), forall|q: &BitReader| #![trigger q.sees(b)] q.at(r, a.len() as int) ==> q.sees(b),
{
    let all = r.all();
    assert(all.subrange(r.pos(), r.pos() + a.len()) =~= (a + b).subrange(0, a.len() as int));
    assert((a + b).subrange(0, a.len() as int) =~= a);
    assert forall|q: &BitReader| #![trigger q.sees(b)] q.at(r, a.len() as int) implies q.sees(b) by {
        assert(all.subrange(q.pos(), q.pos() + b.len()) =~= (a + b).subrange(a.len() as int, (a + b).len() as int));
        assert((a + b).subrange(a.len() as int, (a + b).len() as int) =~= b);
    }
}
//@ source crates/zserio/src/ztype/string_encode.rs
//@ fn write_string
    ensures
        utf8(s@).len() <= 0x7fff_ffff <==> res is Ok,
        res is Ok ==> final(writer)@ == old(writer)@ + enc_string(s@),
//@ loop write_string 0 for
    invariant
        string_bytes@ == utf8(s@),
        utf8(s@).len() <= 0x7fff_ffff,
        writer@ == w0 + vbits(Var::Size, string_bytes@.len() as int) + byte_bits(string_bytes@.subrange(0, it0.index@)),
//@ at write_string start
    let ghost w0 = writer@;
//@ at write_string loop 0 before
    proof { assert(byte_bits(string_bytes@.subrange(0, 0)) =~= Seq::empty()); assert(w0 + vbits(Var::Size, string_bytes@.len() as int) + Seq::<bool>::empty() =~= w0 + vbits(Var::Size, string_bytes@.len() as int)); }
//@ at write_string loop 0 end
    proof {
        let s = string_bytes@.subrange(0, it0.index@ + 1);
        let z = w0 + vbits(Var::Size, string_bytes@.len() as int);
        assert(s.drop_last() =~= string_bytes@.subrange(0, it0.index@));
        assert(z + byte_bits(s.drop_last()) + ubits(s.last() as u64, 8) =~= z + byte_bits(s));
    }
//@ at write_string end
    proof {
        assert(string_bytes@.subrange(0, string_bytes@.len() as int) =~= string_bytes@);
        assert(w0 + vbits(Var::Size, string_bytes@.len() as int) + byte_bits(string_bytes@) =~= w0 + enc_string(s@));
    }
//@ subst bitsize_string s.len() => str_len(s)
//@ subst write_string s.len() => str_len(s)
//@ fn bitsize_string
    ensures
        utf8(s@).len() <= 0x7fff_ffff <==> res is Ok,
        res matches Ok(r) ==> r == enc_string(s@).len(),
//@ at bitsize_string start
    proof { broadcast use byte_bits_len; broadcast use vbits_len; }
//@ source crates/zserio/src/ztype/string_decode.rs
//@ fn read_string
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        forall|s: Seq<char>| #![trigger enc_string(s)] utf8(s).len() <= 0x7fff_ffff && old(reader).sees(enc_string(s)) ==>
            res is Ok && res->Ok_0@ == s && final(reader).at(old(reader), enc_string(s).len() as int),
//@ at read_string start
    proof {
        broadcast use byte_bits_len; broadcast use vbits_len;
        assert forall|s: Seq<char>| #![trigger enc_string(s)] reader.sees(enc_string(s)) implies reader.sees(vbits(Var::Size, utf8(s).len() as int))
            && (forall|q: &BitReader| #![trigger q.sees(byte_bits(utf8(s)))] q.at(&*reader, vbits(Var::Size, utf8(s).len() as int).len() as int) ==> q.sees(byte_bits(utf8(s)))) by {
            sees_split(reader, vbits(Var::Size, utf8(s).len() as int), byte_bits(utf8(s)));
        }
    }
//@ source crates/zserio/src/ztype/bytes_type.rs
//@ fn read_bytes_type
    requires old(bit_reader).wf(),
    ensures
        final(bit_reader).after(old(bit_reader)),
        res matches Ok(v) ==> v.byte_size == v.data_blob@.len(),
        forall|s: Seq<u8>| #![trigger enc_bytes(s)] s.len() <= 0x7fff_ffff && old(bit_reader).sees(enc_bytes(s)) ==>
            res is Ok && res->Ok_0.data_blob@ == s && final(bit_reader).at(old(bit_reader), enc_bytes(s).len() as int),
//@ at read_bytes_type start
    proof {
        broadcast use byte_bits_len; broadcast use vbits_len;
        assert forall|s: Seq<u8>| #![trigger enc_bytes(s)] bit_reader.sees(enc_bytes(s)) implies bit_reader.sees(vbits(Var::Size, s.len() as int))
            && (forall|q: &BitReader| #![trigger q.sees(byte_bits(s))] q.at(&*bit_reader, vbits(Var::Size, s.len() as int).len() as int) ==> q.sees(byte_bits(s))) by {
            sees_split(bit_reader, vbits(Var::Size, s.len() as int), byte_bits(s));
        }
    }
//@ fn write_bytes_type
    ensures
        bytes_type.byte_size <= 0x7fff_ffff <==> res is Ok,
        res is Ok && bytes_type.byte_size == bytes_type.data_blob@.len() ==> final(bit_writer)@ == old(bit_writer)@ + enc_bytes(bytes_type.data_blob@),
//@ at write_bytes_type end
    proof {
        let b = bytes_type.data_blob@;
        assert(old(bit_writer)@ + vbits(Var::Size, b.len() as int) + byte_bits(b) =~= old(bit_writer)@ + enc_bytes(b));
    }
//@ fn bitsize_of_bytes
    ensures
        bytes_type.byte_size <= 0x7fff_ffff <==> res is Ok,
        res matches Ok(r) ==> bytes_type.byte_size == bytes_type.data_blob@.len() ==> r == enc_bytes(bytes_type.data_blob@).len(),
//@ at bitsize_of_bytes start
    proof { broadcast use byte_bits_len; broadcast use vbits_len; }
//@ source crates/zserio/src/ztype/float_encode.rs
//@ fn write_float64
    ensures res is Ok, final(writer)@ == old(writer)@ + byte_bits(bytes64(v)),
//@ fn write_float32
    ensures res is Ok, final(writer)@ == old(writer)@ + byte_bits(bytes32(v)),
//@ fn write_float16
    ensures res is Ok, final(writer)@ == old(writer)@ + byte_bits(bytes16(half_of(v))),
//@ source crates/zserio/src/ztype/float_decode.rs
//@ fn read_float64
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        forall|v: f64| #![trigger bytes64(v)] old(reader).sees(byte_bits(bytes64(v))) ==> res == Result::<f64, ZserioError>::Ok(v) && final(reader).at(old(reader), 64),
//@ at read_float64 start
    proof { broadcast use bytes64_len; }
//@ fn read_float32
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        forall|v: f32| #![trigger bytes32(v)] old(reader).sees(byte_bits(bytes32(v))) ==> res == Result::<f32, ZserioError>::Ok(v) && final(reader).at(old(reader), 32),
//@ at read_float32 start
    proof { broadcast use bytes32_len; }
//@ fn read_float16
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        forall|v: f16| #![trigger bytes16(v)] old(reader).sees(byte_bits(bytes16(v))) ==> res == Result::<f32, ZserioError>::Ok(half_value(v)) && final(reader).at(old(reader), 16),
//@ at read_float16 start
    proof { broadcast use bytes16_len; }
