//! Contract stand-in for the crates.io crate `bitreader` 0.3.8 (see the note in
//! ../rust-bitwriter): the input is a left-aligned shift register.
use rust_bitwriter::{BitWriter, Reg, CAP};

pub struct BitReader<'a> {
    reg: Reg,
    position: u64,
    relative_offset: u64,
    length: u64,
    p: std::marker::PhantomData<&'a u8>,
}

#[derive(PartialEq, Copy, Clone)]
pub enum BitReaderError {
    NotEnoughData { position: u64, length: u64, requested: u64 },
    TooManyBitsForType { position: u64, requested: u8, allowed: u8 },
}
pub type Result<T> = std::result::Result<T, BitReaderError>;
impl std::fmt::Debug for BitReaderError {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::fmt::Display for BitReaderError {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for BitReaderError {}

impl<'a> BitReader<'a> {
    pub fn new(bytes: &'a [u8]) -> BitReader<'a> {
        let mut reg = Reg::ZERO;
        let mut i = 0;
        while i < bytes.len() {
            reg.0[i / 8] |= (bytes[i] as u64) << (56 - 8 * (i % 8));
            i += 1;
        }
        BitReader { reg, position: 0, relative_offset: 0, length: 8 * bytes.len() as u64, p: std::marker::PhantomData }
    }
    pub fn model_from_writer(w: &BitWriter) -> BitReader<'static> {
        let mut reg = w.model_reg();
        reg.shl_big(CAP - w.bit_count());
        BitReader { reg, position: 0, relative_offset: 0, length: (w.bit_count() + 7) / 8 * 8, p: std::marker::PhantomData }
    }
    pub fn model_from_reg(reg: Reg, length: u64) -> BitReader<'static> {
        BitReader { reg, position: 0, relative_offset: 0, length, p: std::marker::PhantomData }
    }
    pub fn relative_reader(&self) -> BitReader<'a> {
        BitReader { reg: self.reg, position: self.position, relative_offset: self.position, length: self.length - self.position, p: std::marker::PhantomData }
    }
    pub fn relative_reader_atmost(&self, len: u64) -> BitReader<'a> {
        let mut r = self.relative_reader();
        if len < r.length {
            r.length = len;
        }
        r
    }
    pub fn position(&self) -> u64 {
        self.position - self.relative_offset
    }
    pub fn remaining(&self) -> u64 {
        self.length - self.position
    }
    pub fn is_aligned(&self, alignment_bytes: u32) -> bool {
        self.position % (alignment_bytes as u64 * 8) == 0
    }
    pub fn align(&mut self, alignment_bytes: u32) -> Result<()> {
        let a = alignment_bytes as u64 * 8;
        let n = (a - self.position % a) % a;
        self.skip(n)
    }
    pub fn skip(&mut self, n: u64) -> Result<()> {
        let e = self.position + n;
        if e > self.relative_offset + self.length {
            return Err(BitReaderError::NotEnoughData { position: self.position(), length: self.length, requested: n });
        }
        self.position = e;
        self.reg.shl_big(n);
        Ok(())
    }
    fn read_value(&mut self, n: u8, max: u8) -> Result<u64> {
        if n == 0 {
            return Ok(0);
        }
        if n > max {
            return Err(BitReaderError::TooManyBitsForType { position: self.position, requested: n, allowed: max });
        }
        if self.position + n as u64 > self.relative_offset + self.length {
            return Err(BitReaderError::NotEnoughData { position: self.position(), length: self.length, requested: n as u64 });
        }
        let v = self.reg.0[0] >> (64 - n);
        self.reg.shl(n);
        self.position += n as u64;
        Ok(v)
    }
    fn read_signed_value(&mut self, n: u8, max: u8) -> Result<i64> {
        if n == 0 {
            return Ok(0);
        }
        let u = self.read_value(n, max)?;
        if n == 64 {
            return Ok(u as i64);
        }
        let s = u >> (n - 1) & 1;
        Ok((if s == 1 { -1i64 } else { 0 }) << n | u as i64)
    }
    pub fn read_u8(&mut self, n: u8) -> Result<u8> {
        Ok(self.read_value(n, 8)? as u8)
    }
    pub fn read_u16(&mut self, n: u8) -> Result<u16> {
        Ok(self.read_value(n, 16)? as u16)
    }
    pub fn read_u32(&mut self, n: u8) -> Result<u32> {
        Ok(self.read_value(n, 32)? as u32)
    }
    pub fn read_u64(&mut self, n: u8) -> Result<u64> {
        self.read_value(n, 64)
    }
    pub fn read_i8(&mut self, n: u8) -> Result<i8> {
        Ok(self.read_signed_value(n, 8)? as i8)
    }
    pub fn read_i16(&mut self, n: u8) -> Result<i16> {
        Ok(self.read_signed_value(n, 16)? as i16)
    }
    pub fn read_i32(&mut self, n: u8) -> Result<i32> {
        Ok(self.read_signed_value(n, 32)? as i32)
    }
    pub fn read_i64(&mut self, n: u8) -> Result<i64> {
        self.read_signed_value(n, 64)
    }
    pub fn read_bool(&mut self) -> Result<bool> {
        Ok(self.read_value(1, 1)? != 0)
    }
    pub fn peek_u8(&self, n: u8) -> Result<u8> {
        self.relative_reader().read_u8(n)
    }
    pub fn peek_u16(&self, n: u8) -> Result<u16> {
        self.relative_reader().read_u16(n)
    }
    pub fn peek_u32(&self, n: u8) -> Result<u32> {
        self.relative_reader().read_u32(n)
    }
    pub fn peek_u64(&self, n: u8) -> Result<u64> {
        self.relative_reader().read_u64(n)
    }
    pub fn peek_bool(&self) -> Result<bool> {
        self.relative_reader().read_bool()
    }
    pub fn read_u8_slice(&mut self, out: &mut [u8]) -> Result<()> {
        let requested = out.len() as u64 * 8;
        if requested > self.remaining() {
            return Err(BitReaderError::NotEnoughData { position: self.position(), length: self.length, requested });
        }
        for b in out.iter_mut() {
            *b = self.read_u8(8)?;
        }
        Ok(())
    }
}

pub trait ReadInto: Sized {
    fn read(reader: &mut BitReader, bits: u8) -> Result<Self>;
}
macro_rules! impl_read_into {
    ($T:ty, $m:ident) => {
        impl ReadInto for $T {
            fn read(reader: &mut BitReader, bits: u8) -> Result<Self> {
                reader.$m(bits)
            }
        }
    };
}
impl_read_into!(u8, read_u8);
impl_read_into!(u16, read_u16);
impl_read_into!(u32, read_u32);
impl_read_into!(u64, read_u64);
impl_read_into!(i8, read_i8);
impl_read_into!(i16, read_i16);
impl_read_into!(i32, read_i32);
impl_read_into!(i64, read_i64);
