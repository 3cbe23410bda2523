from mkseed import make
Z='crates/zserio/src/'; T=Z+'ztype/'
HDR='use bitreader::BitReader;\nuse rust_bitwriter::BitWriter;\nuse zserio::ztype::*;\n#[allow(unused_imports)] use zserio::ztype::array_traits::*;\n'
RT='''
fn finish(mut w: BitWriter) -> (u64, Vec<u8>) { let n = w.bit_count(); w.close().unwrap(); (n, w.data().clone()) }
'''
make('varint-nine-byte-decode','C01',[(T+'varint_decode.rs','for _ in 0..bit_length - 2 {','for _ in 0..bit_length.min(8) - 2 {')],
 'a varint whose magnitude needs all nine bytes','varint values of the largest magnitude are decoded to a wrong value and one byte of their encoding is left unread',
 HDR+RT+'fn main() { for v in [1i64 << 60, -(1i64 << 60), 5, -77] { let mut w = BitWriter::new(); write_varint(&mut w, v).unwrap(); let (_, d) = finish(w); assert_eq!(read_varint(&mut BitReader::new(&d)).unwrap(), v); } }\n')
make('string-size-chars','C06',[(T+'string_encode.rs','(s.len() * 8) as u64','(s.chars().count() * 8) as u64')],
 'a text with characters outside ASCII','the predicted size of a string counts characters, the writer writes bytes',
 HDR+RT+'fn main() { for s in ["plain", "gr\\u{fc}n"] { let mut w = BitWriter::new(); write_string(&mut w, s).unwrap(); assert_eq!(bitsize_string(s).unwrap(), w.bit_count()); } }\n')
ARR=HDR+RT+'''
fn write(a: &[u16], bits: u8) -> (u64, Vec<u8>) {
    let mut arr = Array::<u16> { array_trait: Box::new(UnsignedBitFieldArrayTrait { num_bits: bits }), is_packed: true, fixed_size: None };
    let mut w = BitWriter::new();
    arr.zserio_write::<u8>(&mut w, &a.to_vec(), None).unwrap();
    finish(w)
}
'''
make('packing-limit-63','C09',[(T+'array_traits/delta_context.rs','const MAX_BIT_NUMBER_LIMIT: u8 = 62;','const MAX_BIT_NUMBER_LIMIT: u8 = 63;')],
 'a sequence of 64-bit values whose largest delta needs exactly 63 bits and which is long enough','delta packing is used beyond the 62-bit limit of the format',
 HDR+RT+'''fn main() {
    let mut arr = Array::<u64> { array_trait: Box::new(VarUintArrayTrait {}), is_packed: true, fixed_size: None };
    let mut w = BitWriter::new();
    let v: Vec<u64> = (0..20).map(|i| if i % 2 == 0 { 1u64 << 63 } else { (1u64 << 63) + (1u64 << 62) }).collect();
    arr.zserio_write::<u8>(&mut w, &v, None).unwrap();
    let (_, d) = finish(w);
    assert_eq!(d[0], 20);
    assert_eq!(d[1] & 0x80, 0);
}
''')
make('align-power-of-two','C10',[(T+'alignment.rs','''    let cur_alignment = reader.position() % u64_alignment_bits;
''','''    let cur_alignment = reader.position() & (u64_alignment_bits - 1);
''')],
 'an alignment that is not a power of two','the reader is aligned to a wrong position',
 HDR+RT+'fn main() { let data = [0u8; 16]; for a in [8u64, 16, 12] { for p in 1..30u64 { let mut r = BitReader::new(&data); r.skip(p).unwrap(); align_reader(&mut r, a).unwrap(); assert_eq!(r.position(), p.div_ceil(a) * a); } } }\n')
make('aligned-constant-size','C06',[(T+'array.rs','if self.array_trait.is_bitsizeof_constant() && index_offsets.is_none() {','if self.array_trait.is_bitsizeof_constant() {')],
 'index offsets on an array whose elements are not a whole number of bytes','the predicted size misses the padding between the elements',
 HDR+RT+'''fn main() {
    let mk = || Array::<u8> { array_trait: Box::new(UnsignedBitFieldArrayTrait { num_bits: 5 }), is_packed: false, fixed_size: None };
    let v = vec![1u8, 2, 3];
    let mut w = BitWriter::new();
    mk().zserio_write::<u32>(&mut w, &v, Some(&vec![0, 0, 0])).unwrap();
    assert_eq!(mk().zserio_bitsize::<u32>(&v, Some(&vec![0, 0, 0]), 0).unwrap(), w.bit_count());
}
''')
make('string-length-u32','C07',[(T+'string_decode.rs','if reader.remaining() < (str_len as u64 * 8) {','if reader.remaining() < (str_len as u32 * 8) as u64 {')],
 'a string whose claimed length is 2^29 bytes or more','the length check overflows: a panic, or a reservation of the whole claimed length',
 HDR+'''fn main() {
    // varsize 2^29
    for d in [&[0x82u8, 0x80, 0x80, 0x80, 0x00, b'x'][..], &[5u8, b'a'][..]] {
        let mut r = BitReader::new(d);
        assert!(read_string(&mut r).is_err());
    }
}
''')
make('reserve-remaining','C11',[(T+'array.rs','data.reserve(array_length.min(ARRAY_ALLOC_CHUNK.load(Ordering::Relaxed)));','data.reserve(array_length.min(reader.remaining() as usize));')],
 'an array of wide elements with a claimed length far above the configured limit, in an input of some size','the memory reserved before reading any element exceeds the configured pre-allocation limit many times over',
 HDR+'''fn main() {
    let mut d = vec![0x80u8 | 1, 0x80, 0x80, 0x00]; d.extend(vec![0xffu8; 4000]);
    let mut arr = Array::<String> { array_trait: Box::new(StringArrayTrait {}), is_packed: false, fixed_size: None };
    let mut r = BitReader::new(&d);
    let n = arr.zserio_read_array_length(&mut r).unwrap();
    assert!(n > 1000);
    let mut v = Vec::new();
    assert!(arr.zserio_read::<u8>(&mut r, &mut v, n, None).is_err());
    assert!(v.capacity() <= 1000, "{}", v.capacity());
}
''')
make('short-writes','C14',[(Z+'lib.rs','Ok(out.write_all(writer.data())?)','out.write(writer.data())?;\n    Ok(())')],
 'an output stream that accepts only part of the data in one call','to_writer loses the rest of the data without an error',
 '''use bitreader::BitReader; use rust_bitwriter::BitWriter; use zserio::ztype::array_traits::packing_context_node::PackingContextNode; use zserio::{Result, ZserioPackableObject};
#[derive(Default)] struct Slow(Vec<u8>);
impl std::io::Write for Slow { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(3); self.0.extend_from_slice(&b[..n]); Ok(n) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
#[derive(Default)] struct Obj;
impl ZserioPackableObject for Obj {
    fn zserio_read(&mut self, _: &mut BitReader) -> Result<()> { Ok(()) }
    fn zserio_write(&self, w: &mut BitWriter) -> Result<()> { zserio::ztype::write_string(w, "a longer text") }
    fn zserio_read_packed(&mut self, _: &mut PackingContextNode, _: &mut BitReader) -> Result<()> { Ok(()) }
    fn zserio_write_packed(&self, _: &mut PackingContextNode, _: &mut BitWriter) -> Result<()> { Ok(()) }
    fn zserio_bitsize(&self, _: u64) -> Result<u64> { Ok(14 * 8) }
    fn zserio_bitsize_packed(&self, _: &mut PackingContextNode, _: u64) -> Result<u64> { Ok(0) }
    fn zserio_create_packing_context(_: &mut PackingContextNode) {}
    fn zserio_init_packing_context(&self, _: &mut PackingContextNode) -> Result<()> { Ok(()) }
}
fn main() {
    let mut s = Slow::default();
    zserio::to_writer(&mut s, &Obj).unwrap();
    assert_eq!(s.0, zserio::to_bytes(&Obj).unwrap());
}
''')
make('bit-length-table','C12',[(Z+'numbits.rs','x >>= 32;\n        n = 32;','x >>= 32;\n        n = 32 - (x == 1 << 16) as u8;')],
 'a value between 2^48 and 2^48+2^32','the bit length of these values is one too small',
 'fn main() { for k in 1..64u32 { assert_eq!(zserio::bit_length(1u64 << k) as u32, k + 1, "{k}"); } }\n')
