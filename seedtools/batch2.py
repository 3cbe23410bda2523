import sys; sys.path.insert(0,__file__.rsplit("/",1)[0])
from mkseed import make
G='crates/zserio-rs-build/src/internal/generator/'
A='crates/zserio-rs-build/src/internal/ast/'
H='''use bitreader::BitReader; use rust_bitwriter::BitWriter;
use zserio::ztype::ZserioPackableObject; use zserio::ztype::array_traits::packing_context_node::PackingContextNode;
fn bits<T: ZserioPackableObject>(o: &T) -> (Vec<u8>, u64) { let mut w = BitWriter::new(); o.zserio_write(&mut w).unwrap(); let n = w.bit_count(); w.close().unwrap(); (w.data().clone(), n) }
fn back<T: ZserioPackableObject + Default>(d: &[u8]) -> zserio::Result<T> { let mut o = T::default(); let mut r = BitReader::new(d); o.zserio_read(&mut r)?; Ok(o) }
'''
def gen(name, prop, edits, needs, breaks, zs, demo):
    make(name, prop, edits, needs, breaks, H+demo, script="demo_gen.sh", extra={"demo.zs": "package demo;\n"+zs})
W=set(sys.argv[1:])
def S(name,*a):
    if not W or name in W: gen(name,*a)

S('packed-align-bitsize','C21',[(G+'bitsize.rs','if field.alignment != 0 {','if field.alignment != 0 && !packed {')],
 'an aligned field in a compound stored in a packed array','the predicted size misses the padding before the field',
 'struct P { bit:3 a; align(8): uint8 b; }; struct Q { packed P p[]; };\n',
 '''fn main() { use demo::{p::P, q::Q};
  let q = Q { p: (0..5).map(|i| P { a: i % 8, b: i as u8 * 40 }).collect() };
  let (_, n) = bits(&q); assert_eq!(q.zserio_bitsize(0).unwrap(), n); }
''')
S('packed-length-prefix','C23',[(G+'array.rs','Some(array_length_expression) => format!(','Some(array_length_expression) if !is_packed => format!('),(G+'array.rs','        None => "None".to_owned(),','        _ => "None".to_owned(),')],
 'a packed array with an explicit length','a length is written before the elements although the schema gives it; reader and size prediction agree with that',
 'struct L { uint8 n; packed uint8 v[n]; };\n',
 '''fn main() { use demo::l::L;
  let (d, n) = bits(&L { n: 1, v: vec![7] }); assert_eq!((&d[..], n), (&[1u8, 3, 128][..], 17)); }
''')
S('int32-array-width','C20',[(G+'array.rs','"int32" => bits = 32,','"int32" => bits = 31,')],
 'an int32 array with an element outside 31 bits','writing the object fails (and every int32 array is laid out wrongly)',
 'struct L { int32 v[]; };\n',
 '''fn main() { use demo::l::L;
  let l = L { v: vec![i32::MAX, i32::MIN] }; let mut w = BitWriter::new();
  l.zserio_write(&mut w).expect("valid object"); w.close().unwrap(); assert_eq!(back::<L>(w.data()).unwrap(), l); }
''')
S('parametrised-reserve','C22',[(G+'decode.rs','"{}.reserve({}_array_length.min(zserio::get_array_alloc_chunk()));"','"{}.reserve({}_array_length);"')],
 'a claimed length far beyond the input for an array of parametrised elements','memory for all claimed elements is reserved before the first is read: the allocation fails and the process aborts',
 'struct E(uint8 p) { uint8 x; string a; string b; string c; string d; string e; string f; string g; }; struct L { uint8 k; E(k) v[]; };\n',
 '''fn main() { use demo::l::L; use std::alloc::*;
  assert!(back::<L>(&[1, 0x83, 0xff, 0xff, 0xff, 0xff, 1, 2]).is_err());
  unsafe { assert!(PEAK < 1 << 28, "{}", PEAK); } }
static mut PEAK: usize = 0;
struct Al; unsafe impl std::alloc::GlobalAlloc for Al {
  unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { if l.size() > PEAK { PEAK = l.size(); } std::alloc::System.alloc(l) }
  unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) } }
#[global_allocator] static AL: Al = Al;
''')
S('enum-match-i32','C22',[(G+'zenum.rs','from_int_fn.line("match v {");','from_int_fn.line("match v as i32 {");')],
 'an enum over a 64-bit type read from a value whose low 32 bits are a defined value','an undefined enum value is accepted as a defined one',
 'enum uint64 E { A = 1, B = 7 }; struct L { E e; };\n',
 '''fn main() { use demo::l::L; use demo::e::E;
  assert_eq!(back::<L>(&7u64.to_be_bytes()).unwrap().e, E::B);
  assert!(back::<L>(&((5u64 << 32) + 7).to_be_bytes()).is_err()); }
''')
S('numbits-u32','C25',[(G+'expression.rs','"(zserio::numbits({}) as u32)"','"(zserio::numbits(({}) as u32) as u32)"')],
 'numbits of a value above 2^32','the bits above 2^32 are not counted',
 'struct L { uint64 a; function uint8 nb() { return numbits(a); } };\n',
 '''fn main() { use demo::l::L;
  for k in 0..60u32 { let l = L { a: 1 << k }; assert_eq!(l.nb(), if k == 0 { 1 } else { k as u8 }, "{k}"); } }
''')
S('lengthof-u16','C25',[(G+'expression.rs','"({}.len() as u32)"','"(({}.len() as u16) as u32)"')],
 'lengthof of an array with more than 65535 elements','the length is taken modulo 65536',
 'struct L { bit:1 v[]; function uint32 len() { return lengthof(v); } };\n',
 '''fn main() { use demo::l::L;
  let l = L { v: vec![1; 70000] }; assert_eq!(l.len(), 70000); }
''')
S('varuint64-rank','C25',[(A+'evaluate_mixing_native_types.rs','"varuint64" => 57,','"varuint64" => 29,')],
 'arithmetic over a varuint64 and a uint32, with a varuint64 beyond 32 bits','the expression is computed in 32 bits',
 'struct L { varuint64 a; uint32 b; function uint64 sum() { return a + b; } };\n',
 '''fn main() { use demo::l::L;
  assert_eq!(L { a: 1 << 40, b: 5 }.sum(), (1 << 40) + 5); }
''')
S('small-alignment','C23',[(G+'bitsize.rs','if field.alignment != 0 {','if field.alignment > 2 {'),(G+'encode.rs','if field.alignment != 0 {','if field.alignment > 2 {'),(G+'decode.rs','if field.alignment != 0 {','if field.alignment > 2 {')],
 'an alignment of two bits','the padding is missing in the written data, consistently in writer, reader and size prediction',
 'struct L { bit:1 a; align(2): bit:4 b; };\n',
 '''fn main() { use demo::l::L;
  let (d, n) = bits(&L { a: 1, b: 15 }); assert_eq!((&d[..], n), (&[0xbcu8][..], 6)); }
''')
S('bitmask-high-values','C26',[(G+'zbitmask.rs','            item.value\n','            item.value as u32\n')],
 'a bitmask over a 64-bit type with a value above 2^32','the value loses its upper bits',
 'bitmask uint64 M { A = 0x1, B = 0x100000002, C }; struct L { M m; };\n',
 '''fn main() { use demo::m::M;
  assert_eq!(M::B.bits(), 0x1_0000_0002); assert_eq!(M::C.bits(), 0x2_0000_0000); }
''')
S('packed-optional-bitsize','C24',[(G+'bitsize.rs','packed && field_details.is_packable,','packed && field_details.is_packable && !field.is_optional,')],
 'an optional integer in a compound stored in a packed array','the predicted size counts the plain size of the field although it is written as a delta',
 'struct P { optional uint32 a; }; struct Q { packed P p[]; };\n',
 '''fn main() { use demo::{p::P, q::Q};
  let q = Q { p: (0..5).map(|i| P { a: if i == 2 { None } else { Some(1000 + i) } }).collect() };
  let (_, n) = bits(&q); assert_eq!(q.zserio_bitsize(0).unwrap(), n); }
''')
Z=A.replace('ast/','generator/')+'zenum.rs'
S('enum-decreasing-first','C26',[(G+'zenum.rs','''            match value_expression.as_ref().borrow().result_type {
                ExpressionType::Integer(v) => enum_value = v,
                _ => panic!("only integer value expressions are supported"),
            }
        }
        let v = gen_enum''','''            match value_expression.as_ref().borrow().result_type {
                ExpressionType::Integer(v) => enum_value = enum_value.max(v),
                _ => panic!("only integer value expressions are supported"),
            }
        }
        let v = gen_enum'''),(G+'zenum.rs','''            match value_expression.as_ref().borrow().result_type {
                ExpressionType::Integer(v) => enum_value = v,
                _ => panic!("only integer value expressions are supported"),
            }
        }
        from_int_fn''','''            match value_expression.as_ref().borrow().result_type {
                ExpressionType::Integer(v) => enum_value = enum_value.max(v),
                _ => panic!("only integer value expressions are supported"),
            }
        }
        from_int_fn''')],
 'an enum whose explicit values do not increase','an explicit value below its predecessor is replaced by the predecessor plus one, in writer and reader alike',
 'enum uint8 E { A = 9, B = 2, C }; struct L { E e; };\n',
 '''fn main() { use demo::e::E;
  assert_eq!((E::A as u8, E::B as u8, E::C as u8), (9, 2, 3)); }
''')
