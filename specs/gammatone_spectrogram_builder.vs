#source visqol-rs/src/gammatone_spectrogram_builder.rs
#module gammatone_spectrogram_builder
=== prelude
use crate::analysis_window::hop_of;
use crate::spectrogram_builder::*;
use crate::gammatone_filterbank::*;
use crate::equivalent_rectangular_bandwidth::*;
/// upper frequency limit: 8 kHz for the speech band count, else half the sampling rate
pub open spec fn top_freq(n: int, rate: u32) -> f64 { i2f(if n == 21 { 8000 } else { rate as int / 2 }) }
pub open spec fn gt_coefs(n: int, min_freq: f64, rate: u32) -> Array2<f64> { erb_coefs(n, rate as usize, min_freq, top_freq(n, rate)) }
pub open spec fn frame_of(x: Seq<f64>, size: int, hop: int, j: int) -> Seq<f64> { x.subrange(j * hop, j * hop + size) }
pub open spec fn squared(s: Seq<f64>) -> Seq<f64> { Seq::new(s.len(), |i: int| fmul(s[i], s[i])) }
/// root mean square of one frame through one band's filter, started from rest
pub open spec fn band_rms(c: Seq<f64>, frame: Seq<f64>) -> f64 { f_sqrt(nd_mean(squared(cascade(c, frame, cleared())))) }
/// magnitudes: bands from low to high, one column per complete frame
pub open spec fn gt_data(n: int, min_freq: f64, x: Seq<f64>, rate: u32, size: int, hop: int) -> Array2<f64> {
    mk2(n as nat, frame_count(x.len(), size as nat, hop as nat), |k: int, j: int| band_rms(gt_coefs(n, min_freq, rate).row_seq(n - 1 - k), frame_of(x, size, hop, j)))
}
pub open spec fn gt_bands(n: int, min_freq: f64, rate: u32) -> Seq<f64> { f_sorted(erb_centers(n, min_freq, erb_top(rate as usize, top_freq(n, rate)))) }
proof fn lemma_next(n: int, hop: int) ensures n * hop + hop == (n + 1) * hop { assert(n * hop + hop == (n + 1) * hop) by (nonlinear_arith); }
proof fn lemma_count(len: int, size: int, hop: int, n: int)
    requires 0 < size <= len, 0 < hop, n >= 1, (n - 1) * hop <= len - size, n * hop > len - size
    ensures n == 1 + (len - size) / hop
{ let d = len - size; assert(n * hop == (n - 1) * hop + hop) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(d, hop, n - 1, d - (n - 1) * hop) }
proof fn lemma_inside(len: int, size: int, hop: int, n: int)
    requires 0 < size <= len, 0 < hop, n >= 0, n * hop <= len - size
    ensures n < 1 + (len - size) / hop
{
    let d = len - size;
    if n >= 1 + d / hop { assert(n * hop >= (1 + d / hop) * hop) by (nonlinear_arith) requires n >= 1 + d / hop, hop > 0; assert((1 + d / hop) * hop == hop + (d / hop) * hop) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, hop); assert(hop * (d / hop) == (d / hop) * hop) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_mod_bound(d, hop); }
}
=== raw SpectrogramBuilder for GammatoneSpectrogramBuilder
open spec fn magnitudes(&self, x: Seq<f64>, rate: u32, w: AnalysisWindow) -> Array2<f64> { gt_data(NUM_BANDS as int, self.filter_bank.min_freq, x, rate, w.size as int, hop_of(w) as int) }
open spec fn bands(&self, rate: u32) -> Seq<f64> { gt_bands(NUM_BANDS as int, self.filter_bank.min_freq, rate) }
=== fn GammatoneSpectrogramBuilder::new
ensures r.filter_bank == filter_bank,
=== fn GammatoneSpectrogramBuilder::build
ensures final(self).filter_bank.min_freq == old(self).filter_bank.min_freq,
--- start
let ghost nb = NUM_BANDS as int;
let ghost minf = self.filter_bank.min_freq;
let ghost x = signal.data_matrix@;
let ghost size = window.size as int;
let ghost hop = hop_of(*window) as int;
let ghost gc = gt_coefs(nb, minf, signal.sample_rate);
--- before filter_coeffs.invert_axis
let ghost g0 = filter_coeffs;
proof { assert(max_freq as int == if nb == 21 { 8000 } else { signal.sample_rate as int / 2 }); assert(g0 == gc); }
--- after self.filter_bank.set_filter_coefficients
let ghost fset = self.filter_bank;
--- before let hop_size
let ghost fb = self.filter_bank;
proof {
  assert forall|k: int| 0 <= k < nb implies #[trigger] self.filter_bank.coefs(k) == gc.row_seq(nb - 1 - k) by {
    let c = self.filter_bank.coefs(k); let f = filter_coeffs.row_seq(k); let g = gc.row_seq(nb - 1 - k);
    assert(c == fset.coefs(k)); assert(c =~= f.subrange(0, 10));
    assert(f =~= g) by { assert forall|j: int| 0 <= j < 10 implies f[j] == g[j] by { assert(filter_coeffs.at(k, j) == gc.at(nb - 1 - k, j)); } }
    assert(c =~= g);
  }
}
--- before let mut out_matrix
let ghost gd = gt_data(nb, minf, x, signal.sample_rate, size, hop);
--- loop 0
invariant vx_w0 == size, vx_st0 == hop, 0 < size <= x.len(), hop > 0, x == time_domain_signal@, gd == gt_data(nb, minf, x, signal.sample_rate, size, hop),
  (vx_i0 == vx_n0 * hop) || (vx_n0 * hop > x.len() - size && vx_i0 > x.len() - size), vx_n0 >= 1 ==> (vx_n0 - 1) * hop <= x.len() - size,
  vx_n0 <= num_cols, num_cols == frame_count(x.len(), size as nat, hop as nat), out_matrix.rows() == NUM_BANDS, out_matrix.cols() == num_cols,
  self.filter_bank.same_coefs(&fb), self.filter_bank.n_coefs(NUM_BANDS as nat), self.filter_bank.min_freq == minf,
  forall|k: int| 0 <= k < nb ==> #[trigger] fb.coefs(k) == gc.row_seq(nb - 1 - k),
  forall|k: int, j: int| 0 <= k < nb && 0 <= j < vx_n0 ==> #[trigger] out_matrix.at(k, j) == gd.at(k, j),
--- loop 0 start
let ghost fr = frame_of(x, size, hop, vx_n0 - 1);
proof {
  assert(vx_n0 - 1 == index);
  assert(frame@ == fr);
  lemma_next(vx_n0 - 1, hop);
  lemma_inside(x.len() as int, size, hop, vx_n0 - 1);
}
--- after let mut filtered_signal
let ghost y = filtered_signal;
proof {
  assert forall|k: int| 0 <= k < nb implies #[trigger] y.row_seq(k) == cascade(gc.row_seq(nb - 1 - k), fr, cleared()) by { assert(self.filter_bank.coefs(k) == fb.coefs(k)); }
}
--- loop 1
invariant filtered_signal.same_dim(&y), 0 <= vx_i1 <= y.rows(),
  forall|k: int, j: int| y.ok(k, j) ==> #[trigger] filtered_signal.at(k, j) == if k < vx_i1 { fmul(y.at(k, j), y.at(k, j)) } else { y.at(k, j) },
--- loop 2
invariant filtered_signal.same_dim(&y), 0 <= vx_i1 < y.rows(), 0 <= vx_i2 <= y.cols(),
  forall|k: int, j: int| y.ok(k, j) ==> #[trigger] filtered_signal.at(k, j) == if k < vx_i1 || (k == vx_i1 && j < vx_i2) { fmul(y.at(k, j), y.at(k, j)) } else { y.at(k, j) },
--- after let mut row_means
let ghost m = row_means@;
proof {
  assert forall|k: int| 0 <= k < nb implies #[trigger] m[k] == nd_mean(squared(cascade(gc.row_seq(nb - 1 - k), fr, cleared()))) by {
    assert(filtered_signal.row_seq(k) =~= squared(y.row_seq(k)));
  }
}
--- loop 3
invariant row_means@.len() == nb, m.len() == nb,
  forall|k: int| 0 <= k < nb ==> #[trigger] row_means@[k] == if k < vx_i3 { f_sqrt(m[k]) } else { m[k] },
--- loop 4
invariant 0 <= vx_i4 <= vx_end4, vx_end4 == nb, row_means@.len() == nb, m.len() == nb, index == vx_n0 - 1, index < num_cols, out_matrix.rows() == NUM_BANDS, out_matrix.cols() == num_cols,
  forall|k: int| 0 <= k < nb ==> #[trigger] row_means@[k] == f_sqrt(m[k]),
  forall|k: int, j: int| 0 <= k < nb && 0 <= j < vx_n0 - 1 ==> #[trigger] out_matrix.at(k, j) == gd.at(k, j),
  forall|k: int| 0 <= k < vx_i4 ==> #[trigger] out_matrix.at(k, index as int) == gd.at(k, index as int),
--- loop 0 after
proof {
  lemma_count(x.len() as int, size, hop, vx_n0 as int);
  assert(out_matrix.eqv(&gd)); ax_ext2(out_matrix, gd);
}
