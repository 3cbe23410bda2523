// ======================= variable-length integers: contracts decided by Kani (c01, c02) =======================
//@ source crates/zserio/src/ztype/varint_bitsize.rs only=varint16_bitsize,varint32_bitsize,varint64_bitsize,varint_bitsize
//@ source crates/zserio/src/ztype/varint_encode.rs only=write_varint16,write_varint32,write_varint64,write_varint
//@ source crates/zserio/src/ztype/varint_decode.rs only=read_varint16,read_varint32,read_varint64,read_varint
//@ source crates/zserio/src/ztype/varuint_bitsize.rs only=varuint16_bitsize,varuint32_bitsize,varuint64_bitsize,varuint_bitsize,varsize_bitsize
//@ source crates/zserio/src/ztype/varuint_encode.rs only=write_varuint16,write_varuint32,write_varuint64,write_varuint,write_varsize,varsize_length
//@ source crates/zserio/src/ztype/varuint_decode.rs only=read_varuint16,read_varuint32,read_varuint64,read_varuint,read_varsize
//@ external varint16_bitsize
    ensures res is Ok <==> vrange(Var::I16, v as int), res matches Ok(r) ==> r == vbits(Var::I16, v as int).len(),
//@ external write_varint16
    ensures
        res is Ok <==> vrange(Var::I16, v as int),
        res is Ok ==> final(writer)@ == old(writer)@ + vbits(Var::I16, v as int),
        res is Err ==> final(writer)@ == old(writer)@,
//@ external read_varint16
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        res matches Ok(v) ==> vrange(Var::I16, v as int),
        forall|v: i16| #![trigger vbits(Var::I16, v as int)] vrange(Var::I16, v as int) && old(reader).sees(vbits(Var::I16, v as int)) ==>
            res == Result::<i16, ZserioError>::Ok(v) && final(reader).at(old(reader), vbits(Var::I16, v as int).len() as int),
//@ external varint32_bitsize
    ensures res is Ok <==> vrange(Var::I32, v as int), res matches Ok(r) ==> r == vbits(Var::I32, v as int).len(),
//@ external write_varint32
    ensures
        res is Ok <==> vrange(Var::I32, v as int),
        res is Ok ==> final(writer)@ == old(writer)@ + vbits(Var::I32, v as int),
        res is Err ==> final(writer)@ == old(writer)@,
//@ external read_varint32
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        res matches Ok(v) ==> vrange(Var::I32, v as int),
        forall|v: i32| #![trigger vbits(Var::I32, v as int)] vrange(Var::I32, v as int) && old(reader).sees(vbits(Var::I32, v as int)) ==>
            res == Result::<i32, ZserioError>::Ok(v) && final(reader).at(old(reader), vbits(Var::I32, v as int).len() as int),
//@ external varint64_bitsize
    ensures res is Ok <==> vrange(Var::I64, v as int), res matches Ok(r) ==> r == vbits(Var::I64, v as int).len(),
//@ external write_varint64
    ensures
        res is Ok <==> vrange(Var::I64, v as int),
        res is Ok ==> final(writer)@ == old(writer)@ + vbits(Var::I64, v as int),
        res is Err ==> final(writer)@ == old(writer)@,
//@ external read_varint64
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        res matches Ok(v) ==> vrange(Var::I64, v as int),
        forall|v: i64| #![trigger vbits(Var::I64, v as int)] vrange(Var::I64, v as int) && old(reader).sees(vbits(Var::I64, v as int)) ==>
            res == Result::<i64, ZserioError>::Ok(v) && final(reader).at(old(reader), vbits(Var::I64, v as int).len() as int),
//@ external varint_bitsize
    ensures res is Ok <==> vrange(Var::I, v as int), res matches Ok(r) ==> r == vbits(Var::I, v as int).len(),
//@ external write_varint
    ensures
        res is Ok <==> vrange(Var::I, v as int),
        res is Ok ==> final(writer)@ == old(writer)@ + vbits(Var::I, v as int),
        res is Err ==> final(writer)@ == old(writer)@,
//@ external read_varint
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        res matches Ok(v) ==> vrange(Var::I, v as int),
        forall|v: i64| #![trigger vbits(Var::I, v as int)] vrange(Var::I, v as int) && old(reader).sees(vbits(Var::I, v as int)) ==>
            res == Result::<i64, ZserioError>::Ok(v) && final(reader).at(old(reader), vbits(Var::I, v as int).len() as int),
//@ external varuint16_bitsize
    ensures res is Ok <==> vrange(Var::U16, v as int), res matches Ok(r) ==> r == vbits(Var::U16, v as int).len(),
//@ external write_varuint16
    ensures
        res is Ok <==> vrange(Var::U16, v as int),
        res is Ok ==> final(writer)@ == old(writer)@ + vbits(Var::U16, v as int),
        res is Err ==> final(writer)@ == old(writer)@,
//@ external read_varuint16
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        res matches Ok(v) ==> vrange(Var::U16, v as int),
        forall|v: u16| #![trigger vbits(Var::U16, v as int)] vrange(Var::U16, v as int) && old(reader).sees(vbits(Var::U16, v as int)) ==>
            res == Result::<u16, ZserioError>::Ok(v) && final(reader).at(old(reader), vbits(Var::U16, v as int).len() as int),
//@ external varuint32_bitsize
    ensures res is Ok <==> vrange(Var::U32, v as int), res matches Ok(r) ==> r == vbits(Var::U32, v as int).len(),
//@ external write_varuint32
    ensures
        res is Ok <==> vrange(Var::U32, v as int),
        res is Ok ==> final(writer)@ == old(writer)@ + vbits(Var::U32, v as int),
        res is Err ==> final(writer)@ == old(writer)@,
//@ external read_varuint32
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        res matches Ok(v) ==> vrange(Var::U32, v as int),
        forall|v: u32| #![trigger vbits(Var::U32, v as int)] vrange(Var::U32, v as int) && old(reader).sees(vbits(Var::U32, v as int)) ==>
            res == Result::<u32, ZserioError>::Ok(v) && final(reader).at(old(reader), vbits(Var::U32, v as int).len() as int),
//@ external varuint64_bitsize
    ensures res is Ok <==> vrange(Var::U64, v as int), res matches Ok(r) ==> r == vbits(Var::U64, v as int).len(),
//@ external write_varuint64
    ensures
        res is Ok <==> vrange(Var::U64, v as int),
        res is Ok ==> final(writer)@ == old(writer)@ + vbits(Var::U64, v as int),
        res is Err ==> final(writer)@ == old(writer)@,
//@ external read_varuint64
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        res matches Ok(v) ==> vrange(Var::U64, v as int),
        forall|v: u64| #![trigger vbits(Var::U64, v as int)] vrange(Var::U64, v as int) && old(reader).sees(vbits(Var::U64, v as int)) ==>
            res == Result::<u64, ZserioError>::Ok(v) && final(reader).at(old(reader), vbits(Var::U64, v as int).len() as int),
//@ external varuint_bitsize
    ensures res is Ok <==> vrange(Var::U, v as int), res matches Ok(r) ==> r == vbits(Var::U, v as int).len(),
//@ external write_varuint
    ensures
        res is Ok <==> vrange(Var::U, v as int),
        res is Ok ==> final(writer)@ == old(writer)@ + vbits(Var::U, v as int),
        res is Err ==> final(writer)@ == old(writer)@,
//@ external read_varuint
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        res matches Ok(v) ==> vrange(Var::U, v as int),
        forall|v: u64| #![trigger vbits(Var::U, v as int)] vrange(Var::U, v as int) && old(reader).sees(vbits(Var::U, v as int)) ==>
            res == Result::<u64, ZserioError>::Ok(v) && final(reader).at(old(reader), vbits(Var::U, v as int).len() as int),
//@ external varsize_bitsize
    ensures res is Ok <==> vrange(Var::Size, v as int), res matches Ok(r) ==> r == vbits(Var::Size, v as int).len(),
//@ external write_varsize
    ensures
        res is Ok <==> vrange(Var::Size, v as int),
        res is Ok ==> final(writer)@ == old(writer)@ + vbits(Var::Size, v as int),
        res is Err ==> final(writer)@ == old(writer)@,
//@ external read_varsize
    requires old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        res matches Ok(v) ==> vrange(Var::Size, v as int),
        forall|v: u32| #![trigger vbits(Var::Size, v as int)] vrange(Var::Size, v as int) && old(reader).sees(vbits(Var::Size, v as int)) ==>
            res == Result::<u32, ZserioError>::Ok(v) && final(reader).at(old(reader), vbits(Var::Size, v as int).len() as int),
//@ fn varsize_length
    ensures len <= u32::MAX ==> res == Result::<u32, ZserioError>::Ok(len as u32), len > u32::MAX ==> res is Err,
