#source visqol-rs/src/fast_fourier_transform.rs
#module fast_fourier_transform
=== prelude
use crate::fft_manager::{zext, cvec, re_of};
/// spectrum of a signal zero-padded (or cut) to n points
pub open spec fn fwd(s: Seq<f64>, n: nat) -> Seq<Complex64> { dft_fwd(cvec(zext(s, n))) }
/// first m real values of the inverse transform, scaled by 1/n
pub open spec fn inv_re(f: Seq<Complex64>, n: nat, m: nat) -> Seq<f64> { Seq::new(m, |i: int| fmul(c_re(dft_inv(f)[i]), fdiv(1.0f64, i2f(n as int)))) }
=== fn forward_1d_from_matrix
requires old(fft_manager).wf(),
ensures final(fft_manager).same(old(fft_manager)), r@ == fwd(input_signal@, old(fft_manager).fft_size as nat), r@.len() == old(fft_manager).fft_size,
=== fn forward_1d_from_points
requires old(fft_manager).wf(), in_matrix@.len() <= num_fft_points <= old(fft_manager).fft_size,
ensures final(fft_manager).same(old(fft_manager)), r@ == fwd(in_matrix@, old(fft_manager).fft_size as nat), r@.len() == old(fft_manager).fft_size,
--- before forward_1d_from_matrix(fft_manager
proof { let n = fft_manager.fft_size as nat; assert(zext(signal@, n) =~= zext(in_matrix@, n)); }
=== fn inverse_1d
requires old(fft_manager).wf(), input_signal@.len() == old(fft_manager).fft_size,
ensures final(fft_manager).same(old(fft_manager)),
  r@ == cvec(inv_re(input_signal@, old(fft_manager).fft_size as nat, old(fft_manager).samples_per_channel as nat)),
--- start
let ghost n = fft_manager.fft_size as nat;
let ghost m = fft_manager.samples_per_channel as nat;
let ghost z = inv_re(input_signal@, n, m);
--- loop 0
invariant out_vec@.len() == m, m <= n, temp_time_buffer@.len() == n, fft_manager.same(old(fft_manager)),
  forall|i: int| 0 <= i < m ==> #[trigger] out_vec@[i] == (Complex64 { re: if i < vx_i0 { z[i] } else { 0.0f64 }, im: 0.0f64 }),
--- loop 0 after
proof { assert(out_vec@ =~= cvec(z)); }
=== fn inverse_1d_conj_sym
requires old(fft_manager).wf(), in_matrix@.len() == old(fft_manager).fft_size,
ensures final(fft_manager).same(old(fft_manager)), r@ == inv_re(in_matrix@, old(fft_manager).fft_size as nat, old(fft_manager).samples_per_channel as nat),
--- before real_valued_complex
proof { let z = inv_re(in_matrix@, fft_manager.fft_size as nat, fft_manager.samples_per_channel as nat); assert(re_of(cvec(z)) =~= z) by { assert forall|i: int| 0 <= i < z.len() implies re_of(cvec(z))[i] == z[i] by {} } }
