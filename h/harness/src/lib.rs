//! Harnesses: one `h_*` entry per obligation, executed symbolically by symx.
#![allow(static_mut_refs, clippy::all)]

/// Harness entry
#[macro_export]
macro_rules! harness {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {$(
        $(#[$m])*
        #[unsafe(no_mangle)]
        pub extern "C" fn $n() $b
    )*};
}
pub mod util;
#[cfg(feature = "arith")]
pub mod arith;
#[cfg(feature = "bad")]
pub mod bad;
#[cfg(feature = "bytes")]
pub mod bytes;
#[cfg(feature = "cbs")]
pub mod cbs;
#[cfg(feature = "comb")]
pub mod comb;
#[cfg(feature = "conc")]
pub mod conc;
#[cfg(feature = "ent")]
pub mod ent;
#[cfg(feature = "fft")]
pub mod fft;
#[cfg(feature = "glwe")]
pub mod glwe;
#[cfg(feature = "gsw")]
pub mod gsw;
#[cfg(feature = "ks")]
pub mod ks;
#[cfg(feature = "lwe")]
pub mod lwe;
#[cfg(feature = "mpoly")]
pub mod mpoly;
#[cfg(feature = "pairs")]
pub mod pairs;
#[cfg(feature = "pbs")]
pub mod pbs;
#[cfg(feature = "poly")]
pub mod poly;
#[cfg(feature = "ring")]
pub mod ring;
#[cfg(feature = "scratch")]
pub mod scratch;
#[cfg(feature = "simd")]
pub mod simd;
