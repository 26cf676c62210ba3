#source visqol-rs/src/neurogram_similiarity_index_measure.rs
#module neurogram_similiarity_index_measure
=== prelude
use crate::convolution_2d::conv;
use crate::patch_similarity_comparator::{PSR, psr_new};
/// 3x3 Gaussian window
pub open spec fn gauss_at(i: int, j: int) -> f64 { if i == 1 && j == 1 { 0.619485845753726f64 } else if i == 1 || j == 1 { 0.0838251475442633f64 } else { 0.0113033910173052f64 } }
pub open spec fn gauss() -> Array2<f64> { mk2(3, 3, |i: int, j: int| gauss_at(i, j)) }
pub open spec fn prod(a: Array2<f64>, b: Array2<f64>) -> Array2<f64> { mk2(a.rows(), a.cols(), |i: int, j: int| fmul(a.at(i, j), b.at(i, j))) }
pub open spec fn c_1(range: f64) -> f64 { f_powf(fmul(0.01f64, range), 2.0f64) }
pub open spec fn c_3(range: f64) -> f64 { fdiv(f_powf(fmul(0.03f64, range), 2.0f64), 2.0f64) }
/// intensity (luminance) term from the local means
pub open spec fn intensity_of(mr: f64, md: f64, c1: f64) -> f64 {
    fdiv(fadd(fmul(fmul(mr, md), 2.0f64), c1), fadd(fadd(fmul(mr, mr), fmul(md, md)), c1))
}
/// structure term from the local (co)variances; a negative variance product
/// counts as zero
pub open spec fn structure_of(srd: f64, sr: f64, sd: f64, c3: f64) -> f64 {
    fdiv(fadd(srd, c3), if flt(fmul(sr, sd), 0.0f64) { c3 } else { fadd(f_sqrt(fmul(sr, sd)), c3) })
}
pub open spec fn nsim_at(r: Array2<f64>, d: Array2<f64>, range: f64, i: int, j: int) -> f64 {
    let mr = conv(gauss(), r).at(i, j);
    let md = conv(gauss(), d).at(i, j);
    let sr = fsub(conv(gauss(), prod(r, r)).at(i, j), fmul(mr, mr));
    let sd = fsub(conv(gauss(), prod(d, d)).at(i, j), fmul(md, md));
    let srd = fsub(conv(gauss(), prod(r, d)).at(i, j), fmul(mr, md));
    fmul(intensity_of(mr, md, c_1(range)), structure_of(srd, sr, sd, c_3(range)))
}
pub open spec fn nsim_map(r: Array2<f64>, d: Array2<f64>, range: f64) -> Array2<f64> { mk2(r.rows(), r.cols(), |i: int, j: int| nsim_at(r, d, range, i, j)) }
pub open spec fn row_means(m: Array2<f64>) -> Seq<f64> { Seq::new(m.rows(), |i: int| nd_mean(m.row_seq(i))) }
pub open spec fn row_stds(m: Array2<f64>) -> Seq<f64> { Seq::new(m.rows(), |i: int| nd_std1(m.row_seq(i))) }
pub open spec fn nsim_psr(r: Array2<f64>, d: Array2<f64>, range: f64) -> PSR {
    let m = nsim_map(r, d, range);
    psr_new(row_means(m), row_stds(m), row_means(d), nd_mean(row_means(m)))
}
/// the measure is symmetric: swapping the patches leaves band means, band
/// deviations and the similarity unchanged
pub proof fn nsim_symmetric(r: Array2<f64>, d: Array2<f64>, range: f64)
    requires r.same_dim(&d)
    ensures nsim_psr(r, d, range).sim == nsim_psr(d, r, range).sim, nsim_psr(r, d, range).fbm == nsim_psr(d, r, range).fbm, nsim_psr(r, d, range).fbs == nsim_psr(d, r, range).fbs
{
    assert forall|i: int, j: int| nsim_map(r, d, range).ok(i, j) implies #[trigger] nsim_map(r, d, range).at(i, j) == nsim_map(d, r, range).at(i, j) by {
        assert(prod(r, d).eqv(&prod(d, r))) by {
            assert forall|a: int, b: int| prod(r, d).ok(a, b) implies #[trigger] prod(r, d).at(a, b) == prod(d, r).at(a, b) by { lemma_mul_comm(r.at(a, b), d.at(a, b)); }
        }
        ax_ext2(prod(r, d), prod(d, r));
        let mr = conv(gauss(), r).at(i, j);
        let md = conv(gauss(), d).at(i, j);
        let sr = fsub(conv(gauss(), prod(r, r)).at(i, j), fmul(mr, mr));
        let sd = fsub(conv(gauss(), prod(d, d)).at(i, j), fmul(md, md));
        lemma_mul_comm(mr, md); lemma_mul_comm(sr, sd); lemma_add_comm(fmul(mr, mr), fmul(md, md));
    }
    ax_ext2(nsim_map(r, d, range), nsim_map(d, r, range));
}
=== raw PatchSimilarityComparator for NeurogramSimiliarityIndexMeasure
open spec fn mps_pre(&self, r: Array2<f64>, d: Array2<f64>) -> bool { r.same_dim(&d) && r.rows() > 0 && r.cols() > 0 }
open spec fn mps(&self, r: Array2<f64>, d: Array2<f64>) -> PSR { nsim_psr(r, d, self.intensity_range) }
=== fn NeurogramSimiliarityIndexMeasure::new
ensures r.intensity_range == intensity_range,
=== fn NeurogramSimiliarityIndexMeasure::default
ensures r.intensity_range == 1.0f64,
=== fn NeurogramSimiliarityIndexMeasure::measure_patch_similarity
--- spec
--- start
let ghost g_r = *ref_patch;
let ghost g_d = *deg_patch;
let ghost g_m = nsim_map(g_r, g_d, self.intensity_range);
--- before let k = [0.01, 0.03];
proof { assert(window.eqv(&gauss())); ax_ext2(window, gauss()); typed(self.intensity_range); }
--- before let conv2_ref_neuro_squared
proof { assert(ref_neuro_sq.eqv(&prod(g_r, g_r))); ax_ext2(ref_neuro_sq, prod(g_r, g_r)); assert(deg_neuro_sq.eqv(&prod(g_d, g_d))); ax_ext2(deg_neuro_sq, prod(g_d, g_d)); }
--- before let conv2_ref_neuro_deg
proof { assert(ref_neuro_deg.eqv(&prod(g_r, g_d))); ax_ext2(ref_neuro_deg, prod(g_r, g_d)); }
--- before let mut structure_denominator
let ghost g_c3 = c3;
--- loop 0
invariant structure_denominator.same_dim(&g_r), vx_i0 <= g_r.rows(),
  forall|i: int, j: int| g_r.ok(i, j) ==> #[trigger] structure_denominator.at(i, j) == (if i >= vx_i0 { fmul(sigma_ref_squared.at(i, j), sigma_deg_squared.at(i, j)) } else if flt(fmul(sigma_ref_squared.at(i, j), sigma_deg_squared.at(i, j)), 0.0f64) { c3 } else { fadd(f_sqrt(fmul(sigma_ref_squared.at(i, j), sigma_deg_squared.at(i, j))), c3) }),
--- loop 1
invariant structure_denominator.same_dim(&g_r), vx_i0 < g_r.rows(), vx_i1 <= g_r.cols(),
  forall|i: int, j: int| g_r.ok(i, j) ==> #[trigger] structure_denominator.at(i, j) == (if i > vx_i0 || (i == vx_i0 && j >= vx_i1) { fmul(sigma_ref_squared.at(i, j), sigma_deg_squared.at(i, j)) } else if flt(fmul(sigma_ref_squared.at(i, j), sigma_deg_squared.at(i, j)), 0.0f64) { c3 } else { fadd(f_sqrt(fmul(sigma_ref_squared.at(i, j), sigma_deg_squared.at(i, j))), c3) }),
--- before let freq_band_deg_energy
proof {
  assert(c1 == c_1(self.intensity_range)); assert(c3 == c_3(self.intensity_range));
  assert forall|i: int, j: int| g_m.ok(i, j) implies #[trigger] sim_map.at(i, j) == g_m.at(i, j) by {
    let mr = conv(gauss(), g_r).at(i, j);
    let md = conv(gauss(), g_d).at(i, j);
    assert(intensity.at(i, j) == intensity_of(mr, md, c1));
    let sr = fsub(conv(gauss(), prod(g_r, g_r)).at(i, j), fmul(mr, mr));
    let sd = fsub(conv(gauss(), prod(g_d, g_d)).at(i, j), fmul(md, md));
    let srd = fsub(conv(gauss(), prod(g_r, g_d)).at(i, j), fmul(mr, md));
    assert(structure.at(i, j) == structure_of(srd, sr, sd, c3));
  }
  ax_ext2(sim_map, g_m);
}
--- after let mean_freq_band_means
proof { assert(freq_band_deg_energy@ =~= row_means(g_d)); assert(freq_band_means@ =~= row_means(g_m)); assert(freq_band_std@ =~= row_stds(g_m)); }
