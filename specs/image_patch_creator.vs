#source visqol-rs/src/image_patch_creator.rs
#module image_patch_creator
=== prelude
use crate::patch_creator::{cols_of, patches_of, fits, disjoint};
/// column after the last admissible patch start
pub open spec fn img_max(n: int, p: int) -> int { if p / 2 < n - p { n - p } else { p / 2 + 1 } }
pub open spec fn img_count(n: int, p: int) -> int { (img_max(n, p) - p / 2 + p - 1) / p }
/// patches start half a patch into the spectrogram (one column earlier) and
/// follow each other without gaps
pub open spec fn img_idx(n: nat, p: nat) -> Result<Seq<usize>, VisqolError> {
    if n < p + p / 2 { Err(VisqolError::ReferenceSpectrogramTooSmall { spectrogram_length: n as usize, minimum_required: (p + p / 2) as usize }) }
    else { Ok(Seq::new(img_count(n as int, p as int) as nat, |k: int| (p / 2 + k * p - 1) as usize)) }
}
pub proof fn lemma_img(n: nat, p: nat, k: int)
    requires p >= 2, n >= p + p / 2, n <= isize::MAX, 0 <= k < img_count(n as int, p as int)
    ensures 0 <= k * p, p / 2 + k * p < img_max(n as int, p as int), p / 2 + k * p - 1 + p <= n
{
    let d = img_max(n as int, p as int) - p / 2 + p - 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, p as int);
    let c = img_count(n as int, p as int);
    assert((k + 1) * p <= c * p) by (nonlinear_arith) requires k + 1 <= c, p >= 2;
    assert((k + 1) * p == k * p + p) by (nonlinear_arith);
    assert(p * c == c * p) by (nonlinear_arith);
    assert(0 <= k * p) by (nonlinear_arith) requires k >= 0, p >= 2;
}
pub proof fn lemma_img_idx(n: nat, p: nat)
    requires 2 <= p <= 0x1000_0000_0000_0000, n <= isize::MAX, img_idx(n, p).is_ok()
    ensures img_idx(n, p)->Ok_0.len() > 0, fits(img_idx(n, p)->Ok_0, p, n), disjoint(img_idx(n, p)->Ok_0, p)
{
    let s = img_idx(n, p)->Ok_0;
    assert(img_count(n as int, p as int) >= 1) by { let d = img_max(n as int, p as int) - p / 2 + p - 1; assert(d >= p); vstd::arithmetic::div_mod::lemma_div_is_ordered(p as int, d, p as int); vstd::arithmetic::div_mod::lemma_div_by_self(p as int); }
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] + p <= n by { lemma_img(n, p, k); }
    assert forall|k: int, l: int| 0 <= k < l < s.len() implies #[trigger] s[k] + p <= #[trigger] s[l] by { 
        lemma_img(n, p, k); lemma_img(n, p, l);
        assert(k * p + p <= l * p) by (nonlinear_arith) requires k + 1 <= l, p >= 2;
    }
}
=== raw PatchCreator for ImagePatchCreator
open spec fn psize(&self) -> nat { self.patch_size as nat }
open spec fn idx_pre(&self, m: Array2<f64>, sig: AudioSignal, win: AnalysisWindow) -> bool { 2 <= self.patch_size <= 0x1000_0000_0000_0000 }
open spec fn idx(&self, m: Array2<f64>, sig: AudioSignal, win: AnalysisWindow) -> Result<Seq<usize>, VisqolError> { img_idx(m.cols(), self.patch_size as nat) }
=== fn ImagePatchCreator::create_ref_patch_indices
--- spec
=== fn ImagePatchCreator::create_patches_from_indices
--- spec
--- loop 0
invariant patches@.len() == vx_i0, forall|k: int| 0 <= k < vx_i0 ==> #[trigger] patches@[k] == cols_of(*spectrogram, patch_indices@[k] as int, self.patch_size as nat),
--- loop 0 start
proof { assert(patch_indices@[vx_i0 - 1] + self.psize() <= spectrogram.cols()); let c = spectrogram.ncols(); }
--- loop 0 end
proof { let z = cols_of(*spectrogram, patch_indices@[vx_i0 - 1] as int, self.patch_size as nat); assert(patch.eqv(&z)); ax_ext2(patch, z); }
--- loop 0 after
proof { assert(patches@ =~= patches_of(*spectrogram, patch_indices@, self.psize())); }
=== fn ImagePatchCreator::new
ensures r.patch_size == patch_size,
=== fn ImagePatchCreator::create_ref_patch_indices_from_spectrogram
requires 2 <= self.patch_size <= 0x1000_0000_0000_0000,
ensures match img_idx(spectrogram.cols(), self.patch_size as nat) { Ok(s) => r.is_ok() && r->Ok_0@ == s, Err(e) => r == Err::<Vec<usize>, VisqolError>(e) },
  r.is_ok() ==> r->Ok_0@.len() > 0 && fits(r->Ok_0@, self.patch_size as nat, spectrogram.cols()) && disjoint(r->Ok_0@, self.patch_size as nat), dims_ok(spectrogram),
--- start
let ghost n = spectrogram.cols();
let ghost p = self.patch_size as nat;
let ghost k: int = 0;
--- loop 0
invariant n == spectrogram.cols(), n <= isize::MAX, n >= p + p / 2, p == self.patch_size, vx_st0 == p, vx_end0 == img_max(n as int, p as int), 2 <= p <= 0x1000_0000_0000_0000,
  0 <= k <= img_count(n as int, p as int), vx_i0 == p / 2 + k * p, ref_patch_indices@.len() == k,
  forall|q: int| 0 <= q < k ==> #[trigger] ref_patch_indices@[q] == p / 2 + q * p - 1,
--- loop 0 start
proof {
  let d = img_max(n as int, p as int) - p / 2 + p - 1;
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, p as int);
  let c = img_count(n as int, p as int);
  assert(p * c == c * p) by (nonlinear_arith);
  if k >= c { assert(c * p <= k * p) by (nonlinear_arith) requires c <= k, p >= 2; assert(false); }
  lemma_img(n, p, k);
  assert((k + 1) * p == k * p + p) by (nonlinear_arith);
}
--- loop 0 end
proof { k = k + 1; }
--- loop 0 after
proof {
  if k < img_count(n as int, p as int) { lemma_img(n, p, k); assert(false); }
  assert forall|q: int| 0 <= q < k implies #[trigger] ref_patch_indices@[q] == (p / 2 + q * p - 1) as usize by { lemma_img(n, p, q); }
  assert(ref_patch_indices@ =~= img_idx(n, p)->Ok_0);
  lemma_img_idx(n, p);
}
