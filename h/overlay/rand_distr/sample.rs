impl<F> Distribution<F> for Normal<F>
where F: Float, StandardNormal: Distribution<F>
{
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> F {
        // Stand-in: an arbitrary multiple k*2^e of the torus step with |k| <= SX_NOISE_BOUND,
        // recorded together with the standard deviation it was asked for.
        let _ = rng;
        unsafe {
            SX_SAMPLES = SX_SAMPLES.wrapping_add(1);
            SX_LAST_STD = self.std_dev.to_f64().unwrap().to_bits();
            if SX_STD_LOG_LEN < 64 {
                SX_STD_LOG[SX_STD_LOG_LEN] = SX_LAST_STD;
                SX_STD_LOG_LEN += 1;
            }
            let b = SX_NOISE_BOUND;
            if b == 0 || self.std_dev == F::zero() {
                return self.mean;
            }
            let v = sx_any(64 - (2 * b).leading_zeros(), 0, 2 * b);
            let k = v.wrapping_sub(b) as i64;
            self.mean + F::from(sx_dyadic(k, SX_NOISE_EXP)).unwrap()
        }
    }
}
extern "C" {
    fn sx_any(bits: u32, lo: u64, hi: u64) -> u64;
    fn sx_dyadic(k: i64, e: i32) -> f64;
}
/// bound on |k| (0: noise-free)
#[no_mangle]
pub static mut SX_NOISE_BOUND: u64 = 0;
/// exponent of the noise step
#[no_mangle]
pub static mut SX_NOISE_EXP: i32 = -64;
/// number of samples drawn
#[no_mangle]
pub static mut SX_SAMPLES: u64 = 0;
/// standard deviation (bits) of the last sample
#[no_mangle]
pub static mut SX_LAST_STD: u64 = 0;
/// standard deviations (bits) of the first 64 samples
#[no_mangle]
pub static mut SX_STD_LOG: [u64; 64] = [0; 64];
/// entries used in SX_STD_LOG
#[no_mangle]
pub static mut SX_STD_LOG_LEN: usize = 0;
