//! Stand-in for the external FFT library: the discrete Fourier transform written as its
//! defining sum (unnormalised in both directions, as rustfft documents).
pub use num_complex;
pub use num_traits;
use num_complex::Complex;
use num_traits::{FromPrimitive, Signed, Zero};
use std::{fmt::Debug, sync::Arc};

pub trait FftNum: Copy + FromPrimitive + Signed + Sync + Send + Debug + 'static {}
impl<T> FftNum for T where T: Copy + FromPrimitive + Signed + Sync + Send + Debug + 'static {}

pub trait Length {
    fn len(&self) -> usize;
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum FftDirection {
    Forward,
    Inverse,
}
pub trait Direction {
    fn fft_direction(&self) -> FftDirection;
}
pub trait Fft<T: FftNum>: Length + Direction + Sync + Send {
    fn process(&self, buffer: &mut [Complex<T>]) {
        let mut scratch = vec![Complex::zero(); self.get_inplace_scratch_len()];
        self.process_with_scratch(buffer, &mut scratch);
    }
    fn process_with_scratch(&self, buffer: &mut [Complex<T>], scratch: &mut [Complex<T>]);
    fn process_outofplace_with_scratch(
        &self,
        input: &mut [Complex<T>],
        output: &mut [Complex<T>],
        scratch: &mut [Complex<T>],
    );
    fn get_inplace_scratch_len(&self) -> usize;
    fn get_outofplace_scratch_len(&self) -> usize;
}

struct Dft<T> {
    n: usize,
    dir: FftDirection,
    _p: core::marker::PhantomData<fn() -> T>,
}
impl<T> Length for Dft<T> {
    fn len(&self) -> usize {
        self.n
    }
}
impl<T> Direction for Dft<T> {
    fn fft_direction(&self) -> FftDirection {
        self.dir
    }
}
impl<T: FftNum> Dft<T> {
    fn run(&self, x: &[Complex<T>], y: &mut [Complex<T>]) {
        let sg = match self.dir {
            FftDirection::Forward => -1.0,
            FftDirection::Inverse => 1.0,
        };
        let w: Vec<Complex<T>> = (0..self.n)
            .map(|i| {
                let t = sg * 2.0 * std::f64::consts::PI * (i as f64) / (self.n as f64);
                Complex::new(T::from_f64(t.cos()).unwrap(), T::from_f64(t.sin()).unwrap())
            })
            .collect();
        for k in 0..self.n {
            let mut s = Complex::new(T::zero(), T::zero());
            for j in 0..self.n {
                let w = w[(j * k) % self.n];
                let a = x[j];
                s = Complex::new(s.re + (a.re * w.re - a.im * w.im), s.im + (a.re * w.im + a.im * w.re));
            }
            y[k] = s;
        }
    }
}
impl<T: FftNum> Fft<T> for Dft<T> {
    fn process_with_scratch(&self, buffer: &mut [Complex<T>], scratch: &mut [Complex<T>]) {
        if self.n == 0 {
            return;
        }
        assert!(buffer.len() % self.n == 0 && scratch.len() >= self.n);
        for b in buffer.chunks_exact_mut(self.n) {
            scratch[..self.n].copy_from_slice(b);
            self.run(&scratch[..self.n], b);
        }
    }
    fn process_outofplace_with_scratch(
        &self,
        input: &mut [Complex<T>],
        output: &mut [Complex<T>],
        _scratch: &mut [Complex<T>],
    ) {
        if self.n == 0 {
            return;
        }
        assert!(input.len() == output.len() && input.len() % self.n == 0);
        for (i, o) in input.chunks_exact(self.n).zip(output.chunks_exact_mut(self.n)) {
            self.run(i, o);
        }
    }
    fn get_inplace_scratch_len(&self) -> usize {
        self.n
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        0
    }
}

pub struct FftPlanner<T> {
    _p: core::marker::PhantomData<T>,
}
impl<T: FftNum> FftPlanner<T> {
    pub fn new() -> Self {
        Self { _p: core::marker::PhantomData }
    }
    pub fn plan_fft(&mut self, len: usize, dir: FftDirection) -> Arc<dyn Fft<T>> {
        Arc::new(Dft { n: len, dir, _p: core::marker::PhantomData })
    }
    pub fn plan_fft_forward(&mut self, len: usize) -> Arc<dyn Fft<T>> {
        self.plan_fft(len, FftDirection::Forward)
    }
    pub fn plan_fft_inverse(&mut self, len: usize) -> Arc<dyn Fft<T>> {
        self.plan_fft(len, FftDirection::Inverse)
    }
}
