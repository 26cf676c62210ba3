#source visqol-rs/src/patch_similarity_comparator.rs
#module patch_similarity_comparator
=== prelude
/// mathematical view of a patch similarity result
pub struct PSR { pub fbm: Seq<f64>, pub fbs: Seq<f64>, pub fbe: Seq<f64>, pub sim: f64, pub rs: f64, pub re: f64, pub ds: f64, pub de: f64 }
impl View for PatchSimilarityResult { type V = PSR;
    open spec fn view(&self) -> PSR { PSR { fbm: self.freq_band_means@, fbs: self.freq_band_stddevs@, fbe: self.freq_band_deg_energy@, sim: self.similarity, rs: self.ref_patch_start_time, re: self.ref_patch_end_time, ds: self.deg_patch_start_time, de: self.deg_patch_end_time } }
}
pub open spec fn psr_new(fbm: Seq<f64>, fbs: Seq<f64>, fbe: Seq<f64>, sim: f64) -> PSR { PSR { fbm, fbs, fbe, sim, rs: 0.0f64, re: 0.0f64, ds: 0.0f64, de: 0.0f64 } }
=== raw PatchSimilarityComparator
spec fn mps_pre(&self, r: ImagePatch<f64>, d: ImagePatch<f64>) -> bool;
spec fn mps(&self, r: ImagePatch<f64>, d: ImagePatch<f64>) -> PSR;
=== fn PatchSimilarityResult::new
ensures r@ == psr_new(freq_band_means@, freq_band_stddevs@, freq_band_deg_energy@, similarity),
=== fn PatchSimilarityResult::default
ensures r@ == psr_new(Seq::empty(), Seq::empty(), Seq::empty(), 0.0f64),
=== fn PatchSimilarityComparator::measure_patch_similarity
requires self.mps_pre(*old(ref_patch), *old(deg_patch)),
ensures r@ == self.mps(*old(ref_patch), *old(deg_patch)), *final(ref_patch) == *old(ref_patch), *final(deg_patch) == *old(deg_patch),
