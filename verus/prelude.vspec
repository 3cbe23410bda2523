//@ text
#![feature(const_destruct, const_trait_impl)]
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, unused_parens, unused_braces)]
#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use std::convert::TryInto;
fn main() {}
pub mod pre {
use vstd::prelude::*;
use std::convert::TryInto;
verus! {
global size_of usize == 8;
// ================================================================ streams
pub type Bits = Seq<bool>;

/// the n low bits of v, most significant bit first; the layout itself (C03) is decided by the
/// Kani harnesses c03_*, here only its length and the fact that reading inverts writing count
pub uninterp spec fn ubits(v: u64, n: int) -> Bits;
pub uninterp spec fn sbits(v: i64, n: int) -> Bits;
pub broadcast axiom fn ubits_len(v: u64, n: int)
    requires 0 <= n <= 64,
    ensures (#[trigger] ubits(v, n)).len() == n;
pub broadcast axiom fn sbits_len(v: i64, n: int)
    requires 0 <= n <= 64,
    ensures (#[trigger] sbits(v, n)).len() == n;

pub open spec fn pow2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * pow2(n - 1) } }
pub open spec fn ufits(v: u64, n: int) -> bool { n >= 64 || v < pow2(n) }
pub open spec fn sfits(v: i64, n: int) -> bool { n >= 64 || -pow2(n - 1) <= v < pow2(n - 1) }

/// variable-length integers: encoding decided by the Kani harnesses c01_*, ranges by c02_*
pub enum Var { I16, I32, I64, I, U16, U32, U64, U, Size }
pub uninterp spec fn vbits(k: Var, v: int) -> Bits;
pub broadcast axiom fn vbits_len(k: Var, v: int)
    ensures 8 <= (#[trigger] vbits(k, v)).len() <= 72, vbits(k, v).len() % 8 == 0;
pub open spec fn vrange(k: Var, v: int) -> bool {
    match k {
        Var::I16 => -0x3fff <= v <= 0x3fff,
        Var::I32 => -0xfffffff <= v <= 0xfffffff,
        Var::I64 => -0xff_ffff_ffff_ffff <= v <= 0xff_ffff_ffff_ffff,
        Var::I => i64::MIN <= v <= i64::MAX,
        Var::U16 => 0 <= v <= 0x7fff,
        Var::U32 => 0 <= v <= 0x1fff_ffff,
        Var::U64 => 0 <= v <= 0x1ff_ffff_ffff_ffff,
        Var::U => 0 <= v <= u64::MAX,
        Var::Size => 0 <= v <= 0x7fff_ffff,
    }
}

// ---------------------------------------------------------------- the writer (crate rust-bitwriter)
#[derive(Debug)]
pub struct IoError { pub k: u8 }
#[derive(Debug)]
pub struct BitReaderError { pub k: u8 }
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
use std::string::FromUtf8Error;
#[derive(Debug)]
pub enum ZserioError { Eof, DataDoesNotFit, InvalidUtf8, IoError, DataError }
pub type Result<T, E = ZserioError> = core::result::Result<T, E>;
impl From<IoError> for ZserioError { fn from(e: IoError) -> (r: ZserioError) { ZserioError::IoError } }
impl From<BitReaderError> for ZserioError { fn from(e: BitReaderError) -> (r: ZserioError) { ZserioError::Eof } }
impl From<FromUtf8Error> for ZserioError { fn from(e: FromUtf8Error) -> (r: ZserioError) { ZserioError::InvalidUtf8 } }
impl vstd::std_specs::convert::FromSpecImpl<IoError> for ZserioError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: IoError) -> ZserioError { ZserioError::IoError }
}
impl vstd::std_specs::convert::FromSpecImpl<BitReaderError> for ZserioError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: BitReaderError) -> ZserioError { ZserioError::Eof }
}
impl vstd::std_specs::convert::FromSpecImpl<FromUtf8Error> for ZserioError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: FromUtf8Error) -> ZserioError { ZserioError::InvalidUtf8 }
}

#[verifier::external_body]
pub struct BitWriter { x: u8 }
impl View for BitWriter { type V = Bits; uninterp spec fn view(&self) -> Bits; }
/// bytes of a whole number of bytes of bits
pub uninterp spec fn bytes_of(b: Bits) -> Seq<u8>;
impl BitWriter {
    #[verifier::external_body]
    pub fn new() -> (r: BitWriter) ensures r@ == Seq::<bool>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn bit_count(&self) -> (r: u64) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn write_bool(&mut self, v: bool) -> (r: core::result::Result<(), IoError>)
        ensures r is Ok, final(self)@ == old(self)@ + seq![v] { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u8(&mut self, v: u8, n: u8) -> (r: core::result::Result<(), IoError>)
        ensures n <= 8 ==> r is Ok && final(self)@ == old(self)@ + ubits(v as u64, n as int),
            n > 8 ==> r is Err && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u64(&mut self, v: u64, n: u8) -> (r: core::result::Result<(), IoError>)
        ensures n <= 64 ==> r is Ok && final(self)@ == old(self)@ + ubits(v, n as int),
            n > 64 ==> r is Err && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn write_i8(&mut self, v: i8, n: u8) -> (r: core::result::Result<(), IoError>)
        ensures n <= 8 ==> r is Ok && final(self)@ == old(self)@ + sbits(v as i64, n as int),
            n > 8 ==> r is Err && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn write_i16(&mut self, v: i16, n: u8) -> (r: core::result::Result<(), IoError>)
        ensures n <= 16 ==> r is Ok && final(self)@ == old(self)@ + sbits(v as i64, n as int),
            n > 16 ==> r is Err && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn write_i32(&mut self, v: i32, n: u8) -> (r: core::result::Result<(), IoError>)
        ensures n <= 32 ==> r is Ok && final(self)@ == old(self)@ + sbits(v as i64, n as int),
            n > 32 ==> r is Err && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn write_i64(&mut self, v: i64, n: u8) -> (r: core::result::Result<(), IoError>)
        ensures n <= 64 ==> r is Ok && final(self)@ == old(self)@ + sbits(v, n as int),
            n > 64 ==> r is Err && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(&mut self, n: u64) -> (r: core::result::Result<(), IoError>)
        ensures r is Ok, final(self)@ == old(self)@ + zeros(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn close(&mut self) -> (r: core::result::Result<(), IoError>)
        ensures r is Ok, final(self)@ == old(self)@ + zeros(pad(old(self)@.len() as int, 8)) { unimplemented!() }
    #[verifier::external_body]
    pub fn data(&self) -> (r: &Vec<u8>)
        ensures self@.len() % 8 == 0 ==> r@ == bytes_of(self@) { unimplemented!() }
}
pub open spec fn zeros(n: int) -> Bits { Seq::new(if n < 0 { 0 } else { n as nat }, |i: int| false) }
/// distance from p to the next multiple of a
pub open spec fn pad(p: int, a: int) -> int { (a - p % a) % a }

// ---------------------------------------------------------------- the reader (crate bitreader)
#[verifier::external_body]
pub struct BitReader { x: u8 }
pub uninterp spec fn bits_of(b: Seq<u8>) -> Bits;
pub broadcast axiom fn bits_of_len(b: Seq<u8>)
    ensures (#[trigger] bits_of(b)).len() == 8 * b.len();
/// bytes_of and bits_of are inverse on whole bytes
pub broadcast axiom fn bits_of_bytes_of(b: Bits)
    requires b.len() % 8 == 0,
    ensures bits_of(#[trigger] bytes_of(b)) == b;
impl BitReader {
    /// all bits of the input, and the position
    pub uninterp spec fn all(&self) -> Bits;
    pub uninterp spec fn pos(&self) -> int;
    /// the bits not yet read
    pub open spec fn rest(&self) -> Bits { self.all().subrange(self.pos(), self.all().len() as int) }
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.all().len() <= u64::MAX / 2 }
    /// the next bits are exactly b
    pub open spec fn sees(&self, b: Bits) -> bool {
        &&& self.pos() + b.len() <= self.all().len()
        &&& self.all().subrange(self.pos(), self.pos() + b.len()) == b
    }
    /// same input, n bits further on
    pub open spec fn at(&self, o: &BitReader, n: int) -> bool {
        &&& self.wf()
        &&& self.all() == o.all()
        &&& self.pos() == o.pos() + n
    }
    /// same input, not before where it was
    pub open spec fn after(&self, o: &BitReader) -> bool {
        &&& self.wf()
        &&& self.all() == o.all()
        &&& self.pos() >= o.pos()
    }
    /// assumption: no slice in memory is longer than 2^60 bytes
    #[verifier::external_body]
    pub fn new(b: &[u8]) -> (r: BitReader)
        ensures r.wf(), r.pos() == 0, r.all() == bits_of(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn position(&self) -> (r: u64)
        requires self.wf(),
        ensures r == self.pos() { unimplemented!() }
    /// remaining input is also the licence to allocate that much (property C11)
    #[verifier::external_body]
    pub fn remaining(&self) -> (r: u64)
        requires self.wf(),
        ensures r == self.all().len() - self.pos(),
            forall|n: int| #![trigger may_allocate(n)] n * 8 <= r ==> may_allocate(n) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(&mut self, n: u64) -> (r: core::result::Result<(), BitReaderError>)
        requires old(self).wf(), n <= u64::MAX / 2,
        ensures
            r is Ok <==> old(self).pos() + n <= old(self).all().len(),
            final(self).at(old(self), if r is Ok { n as int } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_bool(&mut self) -> (r: core::result::Result<bool, BitReaderError>)
        requires old(self).wf(),
        ensures
            r is Ok <==> old(self).pos() + 1 <= old(self).all().len(),
            r matches Ok(v) ==> v == old(self).all()[old(self).pos()],
            final(self).at(old(self), if r is Ok { 1 } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u8(&mut self, n: u8) -> (r: core::result::Result<u8, BitReaderError>)
        requires old(self).wf(),
        ensures
            r is Ok <==> n <= 8 && old(self).pos() + n <= old(self).all().len(),
            r matches Ok(v) ==> v < pow2(n as int),
            forall|v: u8| #![trigger ubits(v as u64, n as int)] n <= 8 && v < pow2(n as int) && old(self).sees(ubits(v as u64, n as int)) ==> r == core::result::Result::<u8, BitReaderError>::Ok(v),
            final(self).at(old(self), if r is Ok { n as int } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u16(&mut self, n: u8) -> (r: core::result::Result<u16, BitReaderError>)
        requires old(self).wf(),
        ensures
            r is Ok <==> n <= 16 && old(self).pos() + n <= old(self).all().len(),
            forall|v: u16| #![trigger ubits(v as u64, n as int)] n <= 16 && ufits(v as u64, n as int) && old(self).sees(ubits(v as u64, n as int)) ==> r == core::result::Result::<u16, BitReaderError>::Ok(v),
            final(self).at(old(self), if r is Ok { n as int } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u32(&mut self, n: u8) -> (r: core::result::Result<u32, BitReaderError>)
        requires old(self).wf(),
        ensures
            r is Ok <==> n <= 32 && old(self).pos() + n <= old(self).all().len(),
            forall|v: u32| #![trigger ubits(v as u64, n as int)] n <= 32 && ufits(v as u64, n as int) && old(self).sees(ubits(v as u64, n as int)) ==> r == core::result::Result::<u32, BitReaderError>::Ok(v),
            final(self).at(old(self), if r is Ok { n as int } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_i8(&mut self, n: u8) -> (r: core::result::Result<i8, BitReaderError>)
        requires old(self).wf(),
        ensures
            r is Ok <==> n <= 8 && (n == 0 || old(self).pos() + n <= old(self).all().len()),
            forall|v: i8| #![trigger sbits(v as i64, n as int)] 0 < n <= 8 && sfits(v as i64, n as int) && old(self).sees(sbits(v as i64, n as int)) ==> r == core::result::Result::<i8, BitReaderError>::Ok(v),
            final(self).at(old(self), if r is Ok { n as int } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_i16(&mut self, n: u8) -> (r: core::result::Result<i16, BitReaderError>)
        requires old(self).wf(),
        ensures
            r is Ok <==> n <= 16 && (n == 0 || old(self).pos() + n <= old(self).all().len()),
            forall|v: i16| #![trigger sbits(v as i64, n as int)] 0 < n <= 16 && sfits(v as i64, n as int) && old(self).sees(sbits(v as i64, n as int)) ==> r == core::result::Result::<i16, BitReaderError>::Ok(v),
            final(self).at(old(self), if r is Ok { n as int } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_i32(&mut self, n: u8) -> (r: core::result::Result<i32, BitReaderError>)
        requires old(self).wf(),
        ensures
            r is Ok <==> n <= 32 && (n == 0 || old(self).pos() + n <= old(self).all().len()),
            forall|v: i32| #![trigger sbits(v as i64, n as int)] 0 < n <= 32 && sfits(v as i64, n as int) && old(self).sees(sbits(v as i64, n as int)) ==> r == core::result::Result::<i32, BitReaderError>::Ok(v),
            final(self).at(old(self), if r is Ok { n as int } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u64(&mut self, n: u8) -> (r: core::result::Result<u64, BitReaderError>)
        requires old(self).wf(),
        ensures
            r is Ok <==> n <= 64 && old(self).pos() + n <= old(self).all().len(),
            r matches Ok(v) ==> ufits(v, n as int),
            forall|v: u64| #![trigger ubits(v, n as int)] n <= 64 && ufits(v, n as int) && old(self).sees(ubits(v, n as int)) ==> r == core::result::Result::<u64, BitReaderError>::Ok(v),
            final(self).at(old(self), if r is Ok { n as int } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_i64(&mut self, n: u8) -> (r: core::result::Result<i64, BitReaderError>)
        requires old(self).wf(),
        ensures
            r is Ok <==> n <= 64 && (n == 0 || old(self).pos() + n <= old(self).all().len()),
            r matches Ok(v) ==> n > 0 ==> sfits(v, n as int),
            forall|v: i64| #![trigger sbits(v, n as int)] 0 < n <= 64 && sfits(v, n as int) && old(self).sees(sbits(v, n as int)) ==> r == core::result::Result::<i64, BitReaderError>::Ok(v),
            final(self).at(old(self), if r is Ok { n as int } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u8_slice(&mut self, out: &mut Vec<u8>) -> (r: core::result::Result<(), BitReaderError>)
        requires old(self).wf(), old(out)@.len() <= u64::MAX / 8,
        ensures
            r is Ok <==> old(self).pos() + 8 * old(out)@.len() <= old(self).all().len(),
            final(out)@.len() == old(out)@.len(),
            r is Ok ==> final(self).at(old(self), 8 * old(out)@.len() as int),
            r is Err ==> final(self).at(old(self), 0),
            forall|s: Seq<u8>| #![trigger byte_bits(s)] s.len() == old(out)@.len() && old(self).sees(byte_bits(s)) ==> r is Ok && final(out)@ == s { unimplemented!() }
}
/// the bits of a sequence of bytes
pub open spec fn byte_bits(s: Seq<u8>) -> Bits decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { byte_bits(s.drop_last()) + ubits(s.last() as u64, 8) }
}
pub broadcast proof fn byte_bits_len(s: Seq<u8>)
    ensures (#[trigger] byte_bits(s)).len() == 8 * s.len()
    decreases s.len()
{
    broadcast use ubits_len;
    if s.len() > 0 { byte_bits_len(s.drop_last()); }
}

// ---------------------------------------------------------------- standard library
/// permission to reserve n units of memory before having read the data they are for (C11)
pub uninterp spec fn may_allocate(n: int) -> bool;
#[verifier::external_body]
pub fn vec_of(x: u8, n: usize) -> (r: Vec<u8>)
    requires may_allocate(n as int),
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x { unimplemented!() }
#[verifier::external_body]
pub fn vec_reserve<T>(v: &mut Vec<T>, n: usize)
    requires may_allocate(n as int),
    ensures final(v)@ == old(v)@ { unimplemented!() }
#[verifier::external_body]
pub fn array_alloc_chunk() -> (r: usize)
    ensures forall|n: int| #![trigger may_allocate(n)] n <= r ==> may_allocate(n) { unimplemented!() }
#[verifier::external_body]
pub fn to_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn slice_of(v: &Vec<u8>, a: usize, b: usize) -> (r: &[u8])
    requires a <= b <= v@.len(),
    ensures r@ == v@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn must_hold(c: bool) requires c { unimplemented!() }
#[verifier::external_body]
pub fn must_not_happen() -> ! requires false { unimplemented!() }
#[verifier::external_body]
pub fn str_nth(s: &str, i: usize) -> (r: Option<char>)
    ensures i < s@.len() ==> r == Some(s@[i as int]), i >= s@.len() ==> r is None { unimplemented!() }

pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize) ensures r == utf8(s@).len() { unimplemented!() }
/// UTF-8 is injective
pub assume_specification [String::from_utf8] (v: Vec<u8>) -> (r: core::result::Result<String, FromUtf8Error>)
    ensures forall|t: Seq<char>| #![trigger utf8(t)] v@ == utf8(t) ==> r is Ok && r->Ok_0@ == t;
/// floats: the big-endian bytes of the IEEE representation
pub uninterp spec fn bytes64(v: f64) -> Seq<u8>;
pub uninterp spec fn bytes32(v: f32) -> Seq<u8>;
pub uninterp spec fn bytes16(v: f16) -> Seq<u8>;
pub uninterp spec fn half_of(v: f32) -> f16;
pub uninterp spec fn half_value(v: f16) -> f32;
#[verifier::external_body]
#[allow(non_camel_case_types)]
pub struct f16 { x: u16 }
impl f16 {
    #[verifier::external_body]
    pub fn from_f32(v: f32) -> (r: f16) ensures r == half_of(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_f32(self) -> (r: f32) ensures r == half_value(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_be_bytes(self) -> (r: [u8; 2]) ensures r@ == bytes16(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_be_bytes(b: [u8; 2]) -> (r: f16) ensures forall|v: f16| #![trigger bytes16(v)] b@ == bytes16(v) ==> r == v { unimplemented!() }
}
pub assume_specification [f64::to_be_bytes] (v: f64) -> (r: [u8; 8]) ensures r@ == bytes64(v);
pub assume_specification [f32::to_be_bytes] (v: f32) -> (r: [u8; 4]) ensures r@ == bytes32(v);
pub assume_specification [f64::from_be_bytes] (b: [u8; 8]) -> (r: f64) ensures forall|v: f64| #![trigger bytes64(v)] b@ == bytes64(v) ==> r == v;
pub assume_specification [f32::from_be_bytes] (b: [u8; 4]) -> (r: f32) ensures forall|v: f32| #![trigger bytes32(v)] b@ == bytes32(v) ==> r == v;
pub broadcast axiom fn bytes64_len(v: f64) ensures (#[trigger] bytes64(v)).len() == 8;
pub broadcast axiom fn bytes32_len(v: f32) ensures (#[trigger] bytes32(v)).len() == 4;
pub broadcast axiom fn bytes16_len(v: f16) ensures (#[trigger] bytes16(v)).len() == 2;
#[verifier::external_body]
pub fn try_array<const N: usize>(v: Vec<u8>) -> (r: core::result::Result<[u8; N], Vec<u8>>)
    ensures v@.len() == N ==> r is Ok && r->Ok_0@ == v@, v@.len() != N ==> r is Err { unimplemented!() }

// ---------------------------------------------------------------- `as` between integers
pub trait IntLike: Sized { spec fn val(self) -> int; }
impl IntLike for u8 { open spec fn val(self) -> int { self as int } }
impl IntLike for u16 { open spec fn val(self) -> int { self as int } }
impl IntLike for u32 { open spec fn val(self) -> int { self as int } }
impl IntLike for u64 { open spec fn val(self) -> int { self as int } }
impl IntLike for usize { open spec fn val(self) -> int { self as int } }
impl IntLike for i8 { open spec fn val(self) -> int { self as int } }
impl IntLike for i16 { open spec fn val(self) -> int { self as int } }
impl IntLike for i32 { open spec fn val(self) -> int { self as int } }
impl IntLike for i64 { open spec fn val(self) -> int { self as int } }
impl IntLike for char { open spec fn val(self) -> int { self as int } }
/// reduction modulo 2^n, to the signed or unsigned range
pub open spec fn uwrap(v: int, n: int) -> int { v % n }
pub open spec fn swrap(v: int, n: int) -> int { if v % n >= n / 2 { v % n - n } else { v % n } }
#[verifier::external_body]
pub fn as_u8<S: IntLike>(x: S) -> (r: u8) ensures r == uwrap(x.val(), 0x100) { unimplemented!() }
#[verifier::external_body]
pub fn as_u16<S: IntLike>(x: S) -> (r: u16) ensures r == uwrap(x.val(), 0x10000) { unimplemented!() }
#[verifier::external_body]
pub fn as_u32<S: IntLike>(x: S) -> (r: u32) ensures r == uwrap(x.val(), 0x100000000) { unimplemented!() }
#[verifier::external_body]
pub fn as_u64<S: IntLike>(x: S) -> (r: u64) ensures r == uwrap(x.val(), 0x10000000000000000) { unimplemented!() }
#[verifier::external_body]
pub fn as_usize<S: IntLike>(x: S) -> (r: usize) ensures r == uwrap(x.val(), 0x10000000000000000) { unimplemented!() }
#[verifier::external_body]
pub fn as_i8<S: IntLike>(x: S) -> (r: i8) ensures r == swrap(x.val(), 0x100) { unimplemented!() }
#[verifier::external_body]
pub fn as_i16<S: IntLike>(x: S) -> (r: i16) ensures r == swrap(x.val(), 0x10000) { unimplemented!() }
#[verifier::external_body]
pub fn as_i32<S: IntLike>(x: S) -> (r: i32) ensures r == swrap(x.val(), 0x100000000) { unimplemented!() }
#[verifier::external_body]
pub fn as_i64<S: IntLike>(x: S) -> (r: i64) ensures r == swrap(x.val(), 0x10000000000000000) { unimplemented!() }
/// the value of the u64 image of an element: sign-extended for signed types
pub open spec fn ival(sgn: bool, r: u64) -> int { if sgn && r >= 0x8000_0000_0000_0000 { r - 0x1_0000_0000_0000_0000 } else { r as int } }
pub assume_specification [u64::abs_diff] (a: u64, b: u64) -> (r: u64)
    ensures r == (if a > b { a - b } else { b - a });
pub assume_specification [i64::abs_diff] (a: i64, b: i64) -> (r: u64)
    ensures r == (if a > b { a - b } else { b - a });
pub assume_specification [u64::div_ceil] (a: u64, b: u64) -> (r: u64)
    requires b > 0,
    ensures r == (a + b - 1) / b as int;
pub assume_specification [u32::div_ceil] (a: u32, b: u32) -> (r: u32)
    requires b > 0,
    ensures r == (a + b - 1) / b as int;
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize)
    requires b > 0,
    ensures r == (a + b - 1) / b as int;
pub assume_specification<T, E, F> [core::result::Result::<T, E>::or] (a: core::result::Result<T, E>, b: core::result::Result<T, F>) -> (r: core::result::Result<T, F>)
    where E: core::marker::Destruct, F: core::marker::Destruct, T: core::marker::Destruct,
    ensures a is Ok ==> r == core::result::Result::<T, F>::Ok(a->Ok_0), a is Err ==> r == b;
pub trait OffsetTrait: Copy {}
/// std::io::Write: write_all writes everything or fails, write writes any part
pub uninterp spec fn was_written<W>(out: W, b: Seq<u8>) -> bool;
pub trait Write: Sized {
    spec fn never_fails(&self) -> bool;
    fn write_all(&mut self, b: &[u8]) -> (r: core::result::Result<(), IoError>)
        ensures old(self).never_fails() ==> r is Ok, r is Ok ==> was_written(*old(self), b@);
    fn write(&mut self, b: &[u8]) -> (r: core::result::Result<usize, IoError>)
        ensures old(self).never_fails() ==> r is Ok, r matches Ok(n) ==> n <= b@.len() && was_written(*old(self), b@.subrange(0, n as int));
}
/// std::io::Read: read_to_end takes everything or fails, read takes any part
pub trait Read: Sized {
    spec fn remaining(&self) -> Seq<u8>;
    spec fn never_fails(&self) -> bool;
    fn read_to_end(&mut self, b: &mut Vec<u8>) -> (r: core::result::Result<usize, IoError>)
        ensures old(self).never_fails() ==> r is Ok, r is Ok ==> final(b)@ == old(b)@ + old(self).remaining();
}
/// a longer input starts with the same bits
pub broadcast axiom fn bits_prefix(a: Seq<u8>, b: Seq<u8>)
    requires a.is_prefix_of(b),
    ensures #![trigger bits_of(a), bits_of(b)] bits_of(a).is_prefix_of(bits_of(b));
/// strings and vectors are determined by their contents
pub axiom fn string_ext(a: String, b: String) requires a@ == b@ ensures a == b;
pub axiom fn vec_ext<T>(a: Vec<T>, b: Vec<T>) requires a@ == b@ ensures a == b;
} // verus!
} // mod pre
use pre::*;
verus! {
broadcast use {ubits_len, sbits_len, vbits_len, byte_bits_len, bits_of_len};
