#source visqol-rs/src/envelope.rs
#module envelope
=== prelude
use crate::fft_manager::{fft_size_of, cvec};
use crate::fast_fourier_transform::{fwd, inv_re};
/// weight of frequency i of the one-sided spectrum of n samples transformed at size m:
/// the constant once, frequencies below half the transform size twice, the
/// one at half the transform size once if the signal fills the transform
pub open spec fn one_sided(n: nat, m: nat, i: int) -> f64 {
    let half = if n % 2 == 1 { (m + 1) / 2 } else { m / 2 };
    if 1 <= i < half { 2.0f64 } else if n > 0 && i == n / 2 { if n % 2 == 1 { 2.0f64 } else { 1.0f64 } } else if i == 0 { 1.0f64 } else { 0.0f64 }
}
pub open spec fn one_sided_spectrum(s: Seq<f64>) -> Seq<Complex64> {
    let m = fft_size_of(s.len());
    Seq::new(m, |i: int| c_mul_s(fwd(s, m)[i], one_sided(s.len(), m, i)))
}
/// the (real) signal with the one-sided spectrum
pub open spec fn analytic(s: Seq<f64>) -> Seq<Complex64> {
    inv_re(one_sided_spectrum(s), fft_size_of(s.len()), s.len()).map_values(|x: f64| Complex64 { re: fsub(fmul(x, 2.0f64), 0.000001f64), im: fmul(0.0f64, 2.0f64) })
}
pub open spec fn centered(s: Seq<f64>) -> Seq<f64> { s.map_values(|x: f64| fsub(x, nd_mean(s))) }
pub open spec fn upper_env(s: Seq<f64>) -> Seq<f64> { analytic(centered(s)).map_values(|x: Complex64| fadd(c_norm(x), nd_mean(s))) }
=== fn calculate_upper_env
requires signal@.len() <= 0x8000_0000,
ensures r.is_some() == (signal@.len() > 0), r.is_some() ==> r->0@ == upper_env(signal@) && r->0@.len() == signal@.len(),
--- before let hilbert
proof { assert(signal_centered@ =~= centered(signal@)); }
--- loop 0
invariant hilbert@ == analytic(centered(signal@)), hilbert@.len() == signal@.len(), hilbert_amplitude@.len() == hilbert@.len(),
  forall|i: int| 0 <= i < vx_i0 ==> #[trigger] hilbert_amplitude@[i] == c_norm(hilbert@[i]),
--- before Some(hilbert_amplitude)
proof { assert(hilbert_amplitude@ =~= upper_env(signal@)); }
=== fn calculate_hilbert
requires old(signal)@.len() <= 0x8000_0000,
ensures r.is_some(), r->0@ == analytic(old(signal)@), r->0@.len() == old(signal)@.len(), final(signal)@ == old(signal)@,
--- start
let ghost s = signal@;
let ghost m = fft_size_of(s.len());
let ghost w = one_sided_spectrum(s);
--- loop 0
invariant signal@ == s, fft_manager.wf(), fft_manager.fft_size == m, fft_manager.samples_per_channel == s.len(),
  freq_domain_signal@ == fwd(s, m), freq_domain_signal@.len() == m, hilbert_scaling@.len() == m, element_wise_product@.len() == m,
  forall|i: int| 0 <= i < m ==> #[trigger] hilbert_scaling@[i] == one_sided(s.len(), m, i),
  forall|i: int| 0 <= i < vx_i0 ==> #[trigger] element_wise_product@[i] == w[i],
--- loop 0 after
proof { assert(element_wise_product@ =~= w); }
--- loop 1
invariant signal@ == s, hilbert@.len() == s.len(), hilbert@.len() == inv_re(w, m, s.len()).len(),
  forall|i: int| 0 <= i < s.len() ==> #[trigger] hilbert@[i] == if i < vx_i1 { analytic(s)[i] } else { cvec(inv_re(w, m, s.len()))[i] },
--- loop 1 after
proof { assert(hilbert@ =~= analytic(s)); }
