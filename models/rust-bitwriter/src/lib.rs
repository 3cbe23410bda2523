//! Contract stand-in for the crates.io crate `rust-bitwriter` 0.0.1.
//!
//! The Kani harnesses check callers against the *contract* of the bit writer:
//! the stream is a sequence of bits, and each call appends the bits its contract
//! says.  This crate is the executable form of that contract: the stream is one
//! wide shift register.  The real crate is verified against the same contract
//! (verus layer), and the stand-in is compared with the real crate on every run
//! of the native harness (`dep_*` harnesses).
use std::io::{Error, ErrorKind, Result};

pub const W: usize = 6;
pub const CAP: u64 = 64 * W as u64;

#[derive(Clone, Copy)]
pub struct Reg(pub [u64; W]);

impl PartialEq for Reg {
    fn eq(&self, o: &Reg) -> bool {
        let mut i = 0;
        while i < W {
            if self.0[i] != o.0[i] {
                return false;
            }
            i += 1;
        }
        true
    }
}

impl Reg {
    pub const ZERO: Reg = Reg([0; W]);
    /// shift left by 1..=64
    #[inline]
    pub fn shl(&mut self, n: u8) {
        let mut i = 0;
        if n == 64 {
            while i < W - 1 {
                self.0[i] = self.0[i + 1];
                i += 1;
            }
            self.0[W - 1] = 0;
        } else {
            while i < W - 1 {
                self.0[i] = (self.0[i] << n) | (self.0[i + 1] >> (64 - n));
                i += 1;
            }
            self.0[W - 1] <<= n;
        }
    }
    /// shift left by any amount
    pub fn shl_big(&mut self, n: u64) {
        let words = n / 64;
        let mut k = 0u64;
        while k < W as u64 {
            if k < words {
                self.shl(64);
            }
            k += 1;
        }
        let bits = (n % 64) as u8;
        if bits > 0 {
            self.shl(bits);
        }
    }
}

pub struct BitWriter {
    reg: Reg,
    n: u64,
    data: Vec<u8>,
}

impl Default for BitWriter {
    fn default() -> Self {
        Self::new()
    }
}

impl BitWriter {
    pub fn new() -> BitWriter {
        BitWriter { reg: Reg::ZERO, n: 0, data: Vec::new() }
    }
    pub fn write_u8(&mut self, v: u8, bit_count: u8) -> Result<()> {
        self.write_unsigned_bits(v as u64, bit_count, 8)
    }
    pub fn write_u16(&mut self, v: u16, bit_count: u8) -> Result<()> {
        self.write_unsigned_bits(v as u64, bit_count, 16)
    }
    pub fn write_u32(&mut self, v: u32, bit_count: u8) -> Result<()> {
        self.write_unsigned_bits(v as u64, bit_count, 32)
    }
    pub fn write_u64(&mut self, v: u64, bit_count: u8) -> Result<()> {
        self.write_unsigned_bits(v, bit_count, 64)
    }
    pub fn write_i8(&mut self, v: i8, bit_count: u8) -> Result<()> {
        self.write_signed_bits(v as i64, bit_count, 8)
    }
    pub fn write_i16(&mut self, v: i16, bit_count: u8) -> Result<()> {
        self.write_signed_bits(v as i64, bit_count, 16)
    }
    pub fn write_i32(&mut self, v: i32, bit_count: u8) -> Result<()> {
        self.write_signed_bits(v as i64, bit_count, 32)
    }
    pub fn write_i64(&mut self, v: i64, bit_count: u8) -> Result<()> {
        self.write_signed_bits(v, bit_count, 64)
    }
    pub fn write_bool(&mut self, v: bool) -> Result<()> {
        self.write_unsigned_bits(v as u64, 1, 1)
    }
    fn grow(&mut self, n: u64) {
        self.n += n;
        // the stand-in's capacity is a bound of the harness, not of the code
        #[cfg(kani)]
        kani::assume(self.n <= CAP);
        #[cfg(not(kani))]
        assert!(self.n <= CAP, "stand-in capacity");
    }
    pub fn skip(&mut self, n: u64) -> Result<()> {
        self.grow(n);
        self.reg.shl_big(n);
        Ok(())
    }
    pub fn align(&mut self, alignment_bytes: u32) -> Result<()> {
        if alignment_bytes == 0 {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        let a = alignment_bytes as u64 * 8;
        let n = (a - self.n % a) % a;
        self.skip(n)
    }
    pub fn write_signed_bits(&mut self, mut v: i64, n: u8, maximum_count: u8) -> Result<()> {
        if n == 0 {
            return Ok(());
        }
        if v < 0 && n != 64 {
            v |= 1 << (n - 1);
        }
        self.write_unsigned_bits(v as u64, n, maximum_count)
    }
    pub fn write_unsigned_bits(&mut self, v: u64, n: u8, maximum_count: u8) -> Result<()> {
        if n == 0 {
            return Ok(());
        }
        if n > maximum_count || n > 64 {
            return Err(Error::from(ErrorKind::Unsupported));
        }
        let v = if n == 64 { v } else { v & ((1 << n) - 1) };
        self.grow(n as u64);
        self.reg.shl(n);
        self.reg.0[W - 1] |= v;
        Ok(())
    }
    pub fn write(&mut self, data: &Vec<u8>) -> Result<()> {
        for b in data {
            self.write_u8(*b, 8)?;
        }
        Ok(())
    }
    pub fn close(&mut self) -> Result<()> {
        self.align(1)?;
        let mut reg = self.reg;
        reg.shl_big(CAP - self.n);
        let mut data = Vec::with_capacity(W * 8);
        let mut i = 0;
        while i < self.n / 8 {
            data.push((reg.0[(i / 8) as usize] >> (56 - 8 * (i % 8))) as u8);
            i += 1;
        }
        self.data = data;
        Ok(())
    }
    pub fn bit_count(&self) -> u64 {
        self.n
    }
    pub fn data(&self) -> &Vec<u8> {
        &self.data
    }
    // --- for the harnesses and the reader stand-in
    pub fn model_reg(&self) -> Reg {
        self.reg
    }
}
