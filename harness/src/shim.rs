use rust_bitwriter::BitWriter;
pub use bitreader::BitReader;

// ---------------------------------------------------------------- values
pub trait Any: Sized {
    fn any() -> Self;
}
#[cfg(kani)]
mod imp {
    macro_rules! a { ($($t:ty),*) => { $(impl super::Any for $t { fn any() -> $t { kani::any() } })* } }
    a!(u8, u16, u32, u64, i8, i16, i32, i64, bool);
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    pub fn reachable(c: bool) {
        kani::cover!(c, "REACH")
    }
}
#[cfg(not(kani))]
pub mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    pub struct Skip;
    #[derive(Default)]
    pub struct Source {
        pub replay: Option<VecDeque<Vec<u8>>>,
        pub rng: u64,
        pub log: Vec<Vec<u8>>,
        pub reached: bool,
    }
    thread_local! { pub static SRC: RefCell<Source> = RefCell::new(Source::default()); }
    impl Source {
        pub fn next(&mut self) -> u64 {
            // splitmix64
            self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.rng;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        pub fn value(&mut self, bits: u32) -> u64 {
            let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
            let r = self.next();
            let x = match r % 16 {
                0 => 0,
                1 => 1,
                2 => u64::MAX,
                3 => 1u64 << (self.next() % bits as u64),
                4 => (1u64 << (self.next() % bits as u64)).wrapping_sub(1),
                5 => (1u64 << (self.next() % bits as u64)).wrapping_add(1),
                6 => (1u64 << (self.next() % bits as u64)).wrapping_neg(),
                7 => (1u64 << (self.next() % bits as u64)).wrapping_neg().wrapping_sub(1),
                8 => (1u64 << (bits - 1)).wrapping_add(self.next() % 5).wrapping_sub(2),
                9 | 10 => self.next() % 10,
                11 => (self.next() % 10).wrapping_neg(),
                12 | 13 => self.next() >> (self.next() % 64),
                _ => self.next(),
            };
            x & mask
        }
        fn draw(&mut self, bits: u32) -> u64 {
            let bytes = (bits / 8) as usize;
            let v = if let Some(q) = &mut self.replay {
                match q.pop_front() {
                    Some(b) => {
                        let mut v = 0u64;
                        for (i, x) in b.iter().enumerate().take(8) {
                            v |= (*x as u64) << (8 * i);
                        }
                        v
                    }
                    None => 0,
                }
            } else {
                self.value(bits)
            };
            self.log.push(v.to_le_bytes()[..bytes].to_vec());
            v
        }
    }
    pub fn draw(bits: u32) -> u64 {
        SRC.with(|s| s.borrow_mut().draw(bits))
    }
    macro_rules! a { ($($t:ty),*) => { $(impl super::Any for $t { fn any() -> $t { draw(<$t>::BITS) as $t } })* } }
    a!(u8, u16, u32, u64, i8, i16, i32, i64);
    impl super::Any for bool {
        fn any() -> bool {
            draw(8) & 1 == 1
        }
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Skip)
        }
    }
    pub fn reachable(c: bool) {
        if c {
            SRC.with(|s| s.borrow_mut().reached = true)
        }
    }
}
pub use imp::{assume, reachable};
pub fn any<T: Any>() -> T {
    T::any()
}
/// a value below n (n <= 256)
pub fn below(n: u16) -> u8 {
    let v: u8 = any();
    #[cfg(kani)]
    {
        assume((v as u16) < n);
        v
    }
    #[cfg(not(kani))]
    {
        ((v as u16) % n) as u8
    }
}
/// a value in lo..=hi, every value possible
pub fn in_range(lo: i64, hi: i64) -> i64 {
    let v: i64 = any();
    #[cfg(kani)]
    {
        assume(lo <= v && v <= hi);
        v
    }
    #[cfg(not(kani))]
    {
        if lo <= v && v <= hi {
            return v;
        }
        let span = (hi as i128 - lo as i128 + 1) as u128;
        let off = (v as u64 as u128) % span;
        if v & 0x40 == 0 { (lo as i128 + off as i128) as i64 } else { (hi as i128 - off as i128) as i64 }
    }
}
pub fn in_urange(lo: u64, hi: u64) -> u64 {
    let v: u64 = any();
    #[cfg(kani)]
    {
        assume(lo <= v && v <= hi);
        v
    }
    #[cfg(not(kani))]
    {
        if lo <= v && v <= hi {
            return v;
        }
        let span = (hi - lo) as u128 + 1;
        let off = (v as u128) % span;
        if v & 0x40 == 0 { lo + off as u64 } else { hi - off as u64 }
    }
}
/// the value of a successful result (errors are not dropped: dropping an I/O error
/// is costly to reason about and irrelevant here)
pub fn opt<T, E>(r: Result<T, E>) -> Option<T> {
    match r {
        Ok(v) => Some(v),
        Err(e) => {
            if cfg!(kani) {
                core::mem::forget(e);
            }
            None
        }
    }
}
pub fn ok<T, E>(r: Result<T, E>) -> bool {
    match opt(r) {
        Some(v) => {
            if cfg!(kani) {
                core::mem::forget(v);
            }
            true
        }
        None => false,
    }
}
pub fn is_native() -> bool {
    !cfg!(kani)
}

// ---------------------------------------------------------------- streams
/// A finished bit stream that can be compared and read back.
#[cfg(kani)]
pub struct Stream {
    reg: rust_bitwriter::Reg,
    n: u64,
}
#[cfg(kani)]
impl Stream {
    pub fn of(w: BitWriter) -> Stream {
        Stream { reg: w.model_reg(), n: w.bit_count() }
    }
    pub fn bits(&self) -> u64 {
        self.n
    }
    pub fn reader(&self) -> BitReader<'static> {
        let mut reg = self.reg;
        reg.shl_big(rust_bitwriter::CAP - self.n);
        BitReader::model_from_reg(reg, (self.n + 7) / 8 * 8)
    }
    /// the first `bytes` bytes only
    pub fn reader_of(&self, bytes: u64) -> BitReader<'static> {
        let mut reg = self.reg;
        reg.shl_big(rust_bitwriter::CAP - self.n);
        BitReader::model_from_reg(reg, bytes * 8)
    }
    pub fn same(&self, o: &Stream) -> bool {
        self.n == o.n && self.reg == o.reg
    }
    /// arbitrary input of at most max_bytes bytes (max_bytes <= 8 * W)
    pub fn arbitrary(max_bytes: u8) -> Stream {
        let mut reg = rust_bitwriter::Reg::ZERO;
        let mut i = 0;
        while i < rust_bitwriter::W {
            if (i as u8) * 8 < max_bytes {
                reg.0[i] = any();
            }
            i += 1;
        }
        let len: u8 = below(max_bytes as u16 + 1);
        // keep left-aligned; bits beyond the length are never read
        Stream { reg, n: 0x8000 + len as u64 * 8 }
    }
    pub fn arbitrary_reader(&self) -> BitReader<'static> {
        BitReader::model_from_reg(self.reg, self.n - 0x8000)
    }
    pub fn len_bits(&self) -> u64 {
        self.n - 0x8000
    }
}
#[cfg(not(kani))]
pub struct Stream {
    data: Vec<u8>,
    n: u64,
}
#[cfg(not(kani))]
impl Stream {
    pub fn of(mut w: BitWriter) -> Stream {
        let n = w.bit_count();
        w.close().unwrap();
        Stream { data: w.data().clone(), n }
    }
    pub fn bits(&self) -> u64 {
        self.n
    }
    pub fn reader(&self) -> BitReader<'_> {
        BitReader::new(&self.data)
    }
    pub fn reader_of(&self, bytes: u64) -> BitReader<'_> {
        BitReader::new(&self.data[..bytes as usize])
    }
    pub fn same(&self, o: &Stream) -> bool {
        self.n == o.n && self.data == o.data
    }
    pub fn arbitrary(max_bytes: u8) -> Stream {
        let mut data = Vec::new();
        for _ in 0..rust_words() {
            if data.len() < max_bytes as usize {
                data.extend_from_slice(&any::<u64>().to_be_bytes());
            }
        }
        let len = below(max_bytes as u16 + 1) as usize;
        data.truncate(len);
        Stream { data, n: len as u64 * 8 }
    }
    pub fn arbitrary_reader(&self) -> BitReader<'_> {
        BitReader::new(&self.data)
    }
    pub fn len_bits(&self) -> u64 {
        self.n
    }
}
#[cfg(not(kani))]
fn rust_words() -> usize {
    6
}

/// A writer that already holds 0..=7 arbitrary bits, and their number.
pub fn prefixed() -> (BitWriter, u64) {
    let mut w = BitWriter::new();
    let o = below(8);
    w.write_u8(any(), o).unwrap();
    (w, o as u64)
}
/// Two writers with the same arbitrary prefix.
pub fn prefixed2() -> (BitWriter, BitWriter, u64) {
    let mut a = BitWriter::new();
    let mut b = BitWriter::new();
    let o = below(8);
    let v = any();
    a.write_u8(v, o).unwrap();
    b.write_u8(v, o).unwrap();
    (a, b, o as u64)
}

// ---------------------------------------------------------------- stubs (Kani only)
#[cfg(kani)]
pub mod stubs {
    pub fn unwrap_failed(_m: &str, _e: &dyn core::fmt::Debug) -> ! {
        panic!("unwrap of an Err value")
    }
    pub fn format(_a: core::fmt::Arguments<'_>) -> String {
        String::new()
    }
    /// the contract of zserio::bit_length (checked against the real one by the c12 harnesses)
    pub fn bit_length<T: num::PrimInt>(v: T) -> u8 {
        (64 - v.to_u64().expect("failed to convert to u64").leading_zeros()) as u8
    }
}

// ---------------------------------------------------------------- harness definition
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $name:ident [$unwind:literal] $body:block )*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            #[cfg_attr(kani, kani::stub(core::result::unwrap_failed, crate::shim::stubs::unwrap_failed))]
            #[cfg_attr(kani, kani::stub(std::fmt::format, crate::shim::stubs::format))]
            #[cfg_attr(kani, kani::stub(zserio::bit_length, crate::shim::stubs::bit_length))]
            $(#[$m])*
            pub fn $name() $body
        )*
        pub const ALL: &[(&str, fn())] = &[ $((stringify!($name), $name as fn())),* ];
    };
}
/// as `harnesses!`, but without the stub for bit_length
#[macro_export]
macro_rules! harnesses_nostub {
    ($( $(#[$m:meta])* fn $name:ident [$unwind:literal] $body:block )*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            #[cfg_attr(kani, kani::stub(core::result::unwrap_failed, crate::shim::stubs::unwrap_failed))]
            #[cfg_attr(kani, kani::stub(std::fmt::format, crate::shim::stubs::format))]
            $(#[$m])*
            pub fn $name() $body
        )*
        pub const ALL: &[(&str, fn())] = &[ $((stringify!($name), $name as fn())),* ];
    };
}

// ---------------------------------------------------------------- allocation accounting (native only)
#[cfg(not(kani))]
pub mod alloc {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
    pub struct Counting;
    static ON: AtomicBool = AtomicBool::new(false);
    static MAX: AtomicUsize = AtomicUsize::new(0);
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if ON.load(Relaxed) {
                MAX.fetch_max(l.size(), Relaxed);
            }
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            if ON.load(Relaxed) {
                MAX.fetch_max(n, Relaxed);
            }
            System.realloc(p, l, n)
        }
    }
    pub fn start() {
        MAX.store(0, Relaxed);
        ON.store(true, Relaxed);
    }
    pub fn stop() -> usize {
        ON.store(false, Relaxed);
        MAX.load(Relaxed)
    }
}

/// harnesses that only run natively (exhaustive or long inputs)
#[cfg(not(kani))]
#[macro_export]
macro_rules! natives {
    ($( fn $name:ident $body:block )*) => {
        $( pub fn $name() $body )*
        pub const ALL: &[(&str, fn())] = &[ $((stringify!($name), $name as fn())),* ];
    };
}
