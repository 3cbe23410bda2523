// ======================= the entry points =======================
//@ source crates/zserio/src/lib.rs only=to_bytes,to_writer,from_bytes,from_reader
//@ text
/// a whole number of bytes, the last of them filled up with zeros
pub open spec fn padded(b: Bits) -> Bits { b + zeros(pad(b.len() as int, 8)) }
/// the bytes of an object
pub open spec fn object_bytes<T: ZserioPackableObject>(v: T) -> Seq<u8> { bytes_of(padded((T::o_enc())(0, v))) }
pub open spec fn encodable<T: ZserioPackableObject>(v: T) -> bool { (T::o_shape())(v) && (T::o_enc())(0, v).len() <= u64::MAX }
/// bytes which from_bytes must turn into canon(v)
pub open spec fn bytes_show<T: ZserioPackableObject>(data: Seq<u8>, v: T) -> bool {
    &&& (T::o_valid())(v) && (T::o_shape())(v)
    &&& forall|b: T| #![trigger call_ensures(T::default, (), b)] call_ensures(T::default, (), b) ==> (T::o_blank())(b, v)
    &&& object_bytes(v).is_prefix_of(data)
}
pub proof fn padded_len(b: Bits)
    ensures padded(b).len() % 8 == 0, b.is_prefix_of(padded(b)),
{
    let n = b.len() as int;
    assert(pad(n, 8) == (8 - n % 8) % 8);
    assert(b =~= padded(b).subrange(0, n));
}
//@ fn to_bytes
    requires encodable(*v),
    ensures
        (T::o_valid())(*v) ==> res is Ok,
        res matches Ok(r) ==> r@ == object_bytes(*v),
//@ at to_bytes start
    proof { padded_len((T::o_enc())(0, *v)); assert(Seq::<bool>::empty() + (T::o_enc())(0, *v) =~= (T::o_enc())(0, *v)); }
//@ fn to_writer
    requires encodable(*v),
    ensures
        (T::o_valid())(*v) && out.never_fails() ==> res is Ok,
        res is Ok ==> was_written(out, object_bytes(*v)),
//@ at to_writer start
    proof { padded_len((T::o_enc())(0, *v)); assert(Seq::<bool>::empty() + (T::o_enc())(0, *v) =~= (T::o_enc())(0, *v)); }
//@ fn from_bytes
    ensures forall|v: T| #![trigger bytes_show(data@, v)] bytes_show(data@, v) ==> res is Ok && res->Ok_0 == (T::o_canon())(v),
//@ at from_bytes start
    proof {
        assert forall|v: T, r: &BitReader| #![trigger bytes_show(data@, v), r.wf()] bytes_show(data@, v) && r.wf() && r.pos() == 0 && r.all() == bits_of(data@) implies r.sees((T::o_enc())(0, v)) by {
            let b = (T::o_enc())(0, v);
            padded_len(b);
            bits_of_bytes_of(padded(b));
            bits_prefix(object_bytes(v), data@);
            assert(r.all().subrange(0, b.len() as int) =~= padded(b).subrange(0, b.len() as int));
        }
    }
//@ fn from_reader
    ensures forall|v: T| #![trigger bytes_show(reader.remaining(), v)] reader.never_fails() && bytes_show(reader.remaining(), v) ==> res is Ok && res->Ok_0 == (T::o_canon())(v),
//@ fn ExternType::from_object
    requires encodable(*data),
    ensures
        (T::o_valid())(*data) && (T::o_enc())(0, *data).len() <= u32::MAX ==> res is Ok,
        res matches Ok(r) ==> r.bit_size == (T::o_enc())(0, *data).len() && r.data_blob@ == object_bytes(*data) && extern_shape(r.bit_size as int, r.data_blob@),
//@ at ExternType::from_object start
    proof { let b = (T::o_enc())(0, *data); padded_len(b); bits_of_bytes_of(padded(b)); assert(bits_of(object_bytes(*data)).len() == 8 * object_bytes(*data).len()); }
