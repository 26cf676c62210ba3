#source visqol-rs/src/patch_creator.rs
#module patch_creator
=== prelude
/// n consecutive columns starting at column a
pub open spec fn cols_of(m: Array2<f64>, a: int, n: nat) -> Array2<f64> { mk2(m.rows(), n, |i: int, j: int| m.at(i, a + j)) }
pub open spec fn patches_of(m: Array2<f64>, idx: Seq<usize>, n: nat) -> Seq<Array2<f64>> { idx.map_values(|a: usize| cols_of(m, a as int, n)) }
pub open spec fn fits(idx: Seq<usize>, n: nat, cols: nat) -> bool { forall|k: int| 0 <= k < idx.len() ==> #[trigger] idx[k] + n <= cols }
/// successive patches do not overlap
pub open spec fn disjoint(idx: Seq<usize>, n: nat) -> bool { forall|k: int, l: int| 0 <= k < l < idx.len() ==> #[trigger] idx[k] + n <= #[trigger] idx[l] }
=== raw PatchCreator
/// columns per patch
spec fn psize(&self) -> nat;
spec fn idx_pre(&self, m: Array2<f64>, sig: AudioSignal, win: AnalysisWindow) -> bool;
/// first columns of the reference patches
spec fn idx(&self, m: Array2<f64>, sig: AudioSignal, win: AnalysisWindow) -> Result<Seq<usize>, VisqolError>;
=== fn PatchCreator::create_ref_patch_indices
requires self.idx_pre(*spectrogram, *ref_signal, *window),
ensures match self.idx(*spectrogram, *ref_signal, *window) { Ok(s) => r.is_ok() && r->Ok_0@ == s, Err(e) => r == Err::<Vec<usize>, VisqolError>(e) },
  r.is_ok() ==> r->Ok_0@.len() > 0 && fits(r->Ok_0@, self.psize(), spectrogram.cols()) && disjoint(r->Ok_0@, self.psize()) && dims_ok(spectrogram),
=== fn PatchCreator::create_patches_from_indices
requires dims_ok(spectrogram), fits(patch_indices@, self.psize(), spectrogram.cols()),
ensures r@ == patches_of(*spectrogram, patch_indices@, self.psize()),
