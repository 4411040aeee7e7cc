//! Byte layouts derived for structures
use crate::harness;
use parasol_cpu_macros::IntoBytes;
use tfhe_cpu::IntoBytes as _;

/// what the derived code refers to
pub mod tfhe_cpu {
    pub struct Error;
    impl Error {
        pub fn buffer_size_mismatch() -> Self { Error }
    }
    pub type Result<T> = std::result::Result<T, Error>;
    pub trait IntoBytes: Sized {
        fn alignment() -> usize;
        fn size() -> usize;
        fn try_into_bytes(&self, data: &mut [u8]) -> Result<()>;
        fn try_from_bytes(data: &[u8]) -> Result<Self>;
    }
    macro_rules! word { ($($t:ty)*) => {$(
        impl IntoBytes for $t {
            fn alignment() -> usize { size_of::<$t>() }
            fn size() -> usize { size_of::<$t>() }
            fn try_into_bytes(&self, data: &mut [u8]) -> Result<()> {
                if data.len() != Self::size() {
                    return Err(Error::buffer_size_mismatch());
                }
                data.copy_from_slice(&self.to_le_bytes());
                Ok(())
            }
            fn try_from_bytes(data: &[u8]) -> Result<Self> {
                match data.try_into() {
                    Ok(x) => Ok(<$t>::from_le_bytes(x)),
                    Err(_) => Err(Error::buffer_size_mismatch()),
                }
            }
        }
    )*} }
    word!(u8 u16 u32 u64);
}
#[derive(IntoBytes)]
pub struct One { a: u32 }
#[derive(IntoBytes)]
pub struct Mixed { a: u8, b: u32, c: u8, d: u16, e: u64, f: u8 }
#[derive(IntoBytes)]
pub struct Down { a: u64, b: u32, c: u16, d: u8 }
#[derive(IntoBytes)]
pub struct Nested { a: u8, m: Mixed, b: u16, o: One, c: u8 }

macro_rules! layout { ($n:ident $t:ident [$($f:ident $v:expr, $off:literal $len:literal;)*] $size:literal $align:literal) => {
    fn $n() {
        $(let $f = $v;)*
        let s = $t { $($f),* };
        sx::assert($t::size() == $size, 1);
        sx::assert($t::alignment() == $align, 2);
        let old = sx::u8();
        let mut buf = [old; $size];
        sx::assert(s.try_into_bytes(&mut buf).is_ok(), 3);
        let mut used = [false; $size];
        $(
            let b = ($f as u64).to_le_bytes();
            for i in 0..$len {
                sx::assert(buf[$off + i] == b[i], 4);
                used[$off + i] = true;
            }
        )*
        // bytes between the members keep what they had
        for i in 0..$size {
            sx::assert(used[i] || buf[i] == old, 5);
        }
        match $t::try_from_bytes(&buf) {
            Ok(r) => { $(sx::assert(r.$f == s.$f, 6);)* }
            Err(_) => sx::assert(false, 7),
        }
        let n = sx::choose(0, $size + 3) as usize;
        let mut other = vec![old; n];
        sx::assert(s.try_into_bytes(&mut other).is_ok() == (n == $size), 8);
        if n != $size {
            for x in &other {
                sx::assert(*x == old, 9);
            }
        }
        sx::assert($t::try_from_bytes(&other).is_ok() == (n == $size), 10);
    }
} }
layout!(one One [a sx::u32(), 0 4;] 4 4);
layout!(mixed Mixed [a sx::u8(), 0 1; b sx::u32(), 4 4; c sx::u8(), 8 1; d sx::bits(16) as u16, 10 2; e sx::u64(), 16 8; f sx::u8(), 24 1;] 25 8);
layout!(down Down [a sx::u64(), 0 8; b sx::u32(), 8 4; c sx::bits(16) as u16, 12 2; d sx::u8(), 14 1;] 15 8);
/// a structure inside another
fn nested() {
    let m = Mixed { a: sx::u8(), b: sx::u32(), c: sx::u8(), d: sx::bits(16) as u16, e: sx::u64(), f: sx::u8() };
    let s = Nested { a: sx::u8(), m, b: sx::bits(16) as u16, o: One { a: sx::u32() }, c: sx::u8() };
    // 0, 8..33, 34..36, 36..40, 40
    sx::assert(Nested::size() == 41, 20);
    sx::assert(Nested::alignment() == 8, 21);
    let mut buf = [0u8; 41];
    sx::assert(s.try_into_bytes(&mut buf).is_ok(), 22);
    let mut inner = [0u8; 25];
    sx::assert(s.m.try_into_bytes(&mut inner).is_ok(), 23);
    for i in 0..25 {
        sx::assert(buf[8 + i] == inner[i], 24);
    }
    sx::assert((buf[0] == s.a) & (buf[40] == s.c), 25);
    match Nested::try_from_bytes(&buf) {
        Ok(r) => {
            sx::assert((r.a == s.a) & (r.b == s.b) & (r.c == s.c) & (r.o.a == s.o.a), 26);
            sx::assert((r.m.a == s.m.a) & (r.m.b == s.m.b) & (r.m.c == s.m.c), 27);
            sx::assert((r.m.d == s.m.d) & (r.m.e == s.m.e) & (r.m.f == s.m.f), 28);
        }
        Err(_) => sx::assert(false, 29),
    }
    sx::reach(1);
}
harness! {
fn h_bytes_flat() { match sx::choose(0, 2) { 0 => one(), 1 => mixed(), _ => down() }; sx::reach(1) }
fn h_bytes_nested() { nested() }
}
