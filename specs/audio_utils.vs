#source visqol-rs/src/audio_utils.rs
#module audio_utils
=== prelude
use crate::spectrogram::{db_of, floored, frame_floored, min_cols, lowered_by};
use crate::math_utils::pcm_real;
use crate::wav_reader::{wav_of, Wav, ax_wav};
use crate::convolution_2d::lemma_flat_index;
/// sound pressure level in decibels relative to 20 micropascal
pub open spec fn spl(s: Seq<f64>) -> f64 {
    fmul(20.0f64, f_log10(fdiv(f_sqrt(fdiv(fsum(s.map_values(|x: f64| fmul(x, x))), i2f(s.len() as int))), 0.00002f64)))
}
/// factor that gives the degraded signal the level of the reference; a silent
/// degraded signal is left as it is
pub open spec fn spl_factor(r: Seq<f64>, d: Seq<f64>) -> f64 { if feq(spl(d), f_neg_inf()) { 1.0f64 } else { f_powf(10.0f64, fdiv(fsub(spl(r), spl(d)), 20.0f64)) } }
pub open spec fn spl_matched(r: Seq<f64>, d: Seq<f64>) -> Seq<f64> { d.map_values(|x: f64| fmul(x, spl_factor(r, d))) }
/// frame i of an interleaved signal
pub open spec fn frame_of(s: Seq<f64>, c: nat, i: int) -> Seq<f64> { Seq::new(c, |j: int| s[i * c + j]) }
/// channel average per frame of a 16 bit interleaved signal
pub open spec fn mono(s: Seq<i16>, c: u16) -> Seq<f64> {
    Seq::new(s.len() / (c as nat), |i: int| fdiv(nd_sum(frame_of(pcm_real(s), c as nat, i)), i2f(c as int)))
}
/// the two spectrograms before the shared minimum is subtracted
pub open spec fn raised(m: Array2<f64>, r: Array2<f64>, d: Array2<f64>) -> Array2<f64> {
    let fr = floored(db_of(r), -45.0f64); let fd = floored(db_of(d), -45.0f64);
    frame_floored(floored(db_of(m), -45.0f64), fr, fd, 45.0f64, min_cols(r, d) as int)
}
pub open spec fn prep(m: Array2<f64>, r: Array2<f64>, d: Array2<f64>) -> Array2<f64> {
    lowered_by(raised(m, r, d), f_min(raised(r, r, d).minimum(), raised(d, r, d).minimum()))
}
/// every element of a prepared spectrogram is at least 0 (or NaN where both the
/// element and the minimum are infinite)
pub proof fn lemma_prep_nonneg(r: Array2<f64>, d: Array2<f64>, i: int, j: int)
    requires raised(r, r, d).no_nan(), raised(d, r, d).no_nan(), r.ok(i, j), d.rows() > 0, d.cols() > 0
    ensures fle(0.0f64, prep(r, r, d).at(i, j)) || fnan(prep(r, r, d).at(i, j))
{
    let a = raised(r, r, d); let b = raised(d, r, d);
    assert(a.rows() * a.cols() > 0) by (nonlinear_arith) requires a.rows() > 0, a.cols() > 0;
    assert(b.rows() * b.cols() > 0) by (nonlinear_arith) requires b.rows() > 0, b.cols() > 0;
    a.ax_minimum(); b.ax_minimum();
    ax_fmin(a.minimum(), b.minimum());
    let x = a.at(i, j); let lo = f_min(a.minimum(), b.minimum()); let m1 = a.minimum();
    assert(lo.ieee_le(m1) && m1.ieee_le(x) ==> lo.ieee_le(x)) by (bit_vector);
    assert(lo.ieee_le(x) ==> 0.0f64.ieee_le(x.ieee_sub(lo)) || x.ieee_sub(lo).ieee_is_nan()) by (bit_vector);
}
=== fn scale_to_match_sound_pressure_level
ensures r.data_matrix@ == spl_matched(reference.data_matrix@, degraded.data_matrix@), r.sample_rate == degraded.sample_rate,
=== fn calculate_sound_pressure_level
ensures r == spl(signal.data_matrix@),
--- loop 0
invariant vx_c0@ == signal.data_matrix@.subrange(0, vx_i0 as int).map_values(|x: f64| fmul(x, x)),
--- loop 0 end
proof { assert(signal.data_matrix@.subrange(0, vx_i0 as int).map_values(|x: f64| fmul(x, x)) =~= signal.data_matrix@.subrange(0, vx_i0 - 1).map_values(|x: f64| fmul(x, x)).push(fmul(signal.data_matrix@[vx_i0 - 1], signal.data_matrix@[vx_i0 - 1]))); }
--- loop 0 after
proof { assert(signal.data_matrix@.subrange(0, vx_i0 as int) =~= signal.data_matrix@); }
=== fn to_mono_matrix
ensures r@ == Seq::new(sample_matrix.rows(), |i: int| nd_sum(sample_matrix.row_seq(i))),
=== fn load_as_mono
ensures match wav_of(file_path@) {
    Err(e) => r.is_err() && r->Err_0 == e,
    Ok(w) => r.is_ok() && r->Ok_0.sample_rate == w.rate && r->Ok_0.data_matrix@ == mono(w.samples, w.channels),
},
--- start
proof { ax_wav(file_path@); }
--- before let final_signal = to_mono_matrix
let ghost g_frames = final_signal;
--- before Ok(AudioSignal
proof {
  let w = wav_of(file_path@)->Ok_0; let c = w.channels as nat; let p = pcm_real(w.samples);
  assert(w.samples.len() / c == p.len() / c);
  assert forall|i: int| 0 <= i < p.len() / c implies #[trigger] final_signal@[i] == nd_sum(frame_of(p, c, i)) by { assert(g_frames.row_seq(i) =~= frame_of(p, c, i)); }
  assert(final_signal@.map_values(|x: f64| fdiv(x, i2f(c as int))) =~= mono(w.samples, w.channels));
}
=== fn extract_multichannel
requires num_channels > 0, interleaved_vector@.len() % (num_channels as nat) == 0,
ensures r.rows() == interleaved_vector@.len() / (num_channels as nat), r.cols() == num_channels, forall|i: int, j: int| r.ok(i, j) ==> #[trigger] r.at(i, j) == interleaved_vector@[i * num_channels + j],
--- start
proof {
  let n = interleaved_vector@.len() as int; let c = num_channels as int;
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, c);
  assert(c * (n / c) == (n / c) * c) by (nonlinear_arith);
  assert forall|i: int, j: int| 0 <= i < n / c && 0 <= j < c implies 0 <= #[trigger] (i * c + j) < n by { lemma_flat_index(n / c, c, i, j); }
}
=== fn prepare_spectrograms_for_comparison
requires old(reference).data.rows() > 0, old(reference).data.cols() > 0, old(degraded).data.rows() > 0, old(degraded).data.cols() > 0,
ensures
  final(reference).data == prep(old(reference).data, old(reference).data, old(degraded).data),
  final(degraded).data == prep(old(degraded).data, old(reference).data, old(degraded).data),
  final(reference).center_freq_bands == old(reference).center_freq_bands, final(degraded).center_freq_bands == old(degraded).center_freq_bands,
=== fn float_vec_to_real_valued_complex_vec
ensures r@ == float_vector@.map_values(|x: f64| Complex64 { re: x, im: 0.0f64 }),
--- loop 0
invariant complex_vec@.len() == float_vector@.len(),
  forall|i: int| 0 <= i < complex_vec@.len() ==> #[trigger] complex_vec@[i] == (Complex64 { re: if i < vx_i0 { float_vector@[i] } else { 0.0f64 }, im: 0.0f64 }),
--- loop 0 after
proof { assert(complex_vec@ =~= float_vector@.map_values(|x: f64| Complex64 { re: x, im: 0.0f64 })); }
=== fn real_valued_complex_vec_to_float_vec
ensures r@ == complex_vector@.map_values(|x: Complex64| c_re(x)),
--- loop 0
invariant real_vec@.len() == complex_vector@.len(), forall|i: int| 0 <= i < vx_i0 ==> #[trigger] real_vec@[i] == complex_vector@[i].re,
--- loop 0 after
proof {
  let z = complex_vector@.map_values(|x: Complex64| c_re(x));
  assert forall|i: int| 0 <= i < z.len() implies #[trigger] real_vec@[i] == z[i] by { }
  assert(real_vec@ =~= z);
}
