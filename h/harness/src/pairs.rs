//! Triangular pairs (internal, reached through the verification hook)
use crate::harness;
use crate::util::*;
use rayon::iter::{IntoParallelRefIterator, ParallelIterator};
use sunscreen_tfhe::verif_hooks::{ParTriangularPairsExt, TriangularPairsExt};

/// every pair (i, j) with i <= j once, in row order, one after another or in parallel
fn pairs() {
    let k = sx::choose(0, 4) as usize;
    let items = any_vec::<u64>(k);
    let want: Vec<(u64, u64)> = (0..k).flat_map(|i| (i..k).map(|j| (items[i], items[j])).collect::<Vec<_>>()).collect();
    let same = |got: Vec<(u64, u64)>| {
        sx::assert(got.len() == want.len(), 4);
        sx::assert(got.iter().zip(&want).fold(true, |o, (a, b)| o & (a.0 == b.0) & (a.1 == b.1)), 5);
    };
    same(items.iter().copied().triangular_pairs().collect());
    par(sx::choose(0, 1) == 1, sx::choose(1, 3) as u32);
    same(items.par_iter().copied().par_triangular_pairs().collect());
    sx::reach(1);
}
harness! {
fn h_tri_pairs() { pairs() }
}
