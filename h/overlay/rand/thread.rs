// Stand-in for rand's thread-local generator: every output is an arbitrary value
// (symbolic under symx, replayed natively).
use crate::{CryptoRng, Error, RngCore};

extern "C" {
    fn sx_any(bits: u32, lo: u64, hi: u64) -> u64;
}

/// thread-local generator stand-in
#[derive(Clone, Debug)]
pub struct ThreadRng {
    _p: core::marker::PhantomData<*const ()>,
}
/// returns the stand-in
pub fn thread_rng() -> ThreadRng {
    ThreadRng { _p: core::marker::PhantomData }
}
impl Default for ThreadRng {
    fn default() -> ThreadRng {
        thread_rng()
    }
}
impl RngCore for ThreadRng {
    #[inline]
    fn next_u32(&mut self) -> u32 {
        unsafe { sx_any(32, 0, u64::MAX) as u32 }
    }
    #[inline]
    fn next_u64(&mut self) -> u64 {
        unsafe {
            let v = sx_any(64, 0, u64::MAX);
            if SX_RNG_LEN < 256 {
                SX_RNG_LOG[SX_RNG_LEN] = v;
                SX_RNG_LEN += 1;
            }
            v
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest.iter_mut() {
            *b = unsafe { sx_any(8, 0, 255) as u8 };
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for ThreadRng {}
/// the first 256 words drawn
#[no_mangle]
pub static mut SX_RNG_LOG: [u64; 256] = [0; 256];
/// entries used in SX_RNG_LOG
#[no_mangle]
pub static mut SX_RNG_LEN: usize = 0;
