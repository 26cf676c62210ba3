#source visqol-rs/src/fft_manager.rs
#module fft_manager
=== prelude
/// transform length used for n samples
pub open spec fn fft_size_of(n: nat) -> nat { if np2(n) > 32 { np2(n) } else { 32 } }
/// the first n values, zeros after the end
pub open spec fn zext(s: Seq<f64>, n: nat) -> Seq<f64> { Seq::new(n, |i: int| if i < s.len() { s[i] } else { 0.0f64 }) }
pub open spec fn cvec(s: Seq<f64>) -> Seq<Complex64> { s.map_values(|x: f64| Complex64 { re: x, im: 0.0f64 }) }
pub open spec fn re_of(s: Seq<Complex64>) -> Seq<f64> { s.map_values(|x: Complex64| c_re(x)) }
impl FftManager {
    pub open spec fn wf(&self) -> bool { self.samples_per_channel <= self.fft_size && 32 <= self.fft_size && self.inverse_fft_scale == fdiv(1.0f64, i2f(self.fft_size as int)) }
    pub open spec fn same(&self, o: &FftManager) -> bool { self.fft_size == o.fft_size && self.samples_per_channel == o.samples_per_channel && self.inverse_fft_scale == o.inverse_fft_scale }
}
=== fn FftManager::new
requires samples_per_channel <= 0x8000_0000_0000_0000usize,
ensures r.wf(), r.fft_size == fft_size_of(samples_per_channel as nat), r.samples_per_channel == samples_per_channel,
=== fn FftManager::freq_from_time_domain
requires old(self).wf(), old(freq_channel)@.len() == old(self).fft_size,
ensures final(self).same(old(self)), final(freq_channel)@ == dft_fwd(cvec(zext(old(time_channel)@, old(self).fft_size as nat))), final(freq_channel)@.len() == old(freq_channel)@.len(),
  final(time_channel)@ == zext(old(time_channel)@, old(self).fft_size as nat),
--- start
let ghost t = time_channel@;
let ghost n = self.fft_size as nat;
proof { assert(t.len() == n ==> t =~= zext(t, n)); assert(t.len() > n ==> t.subrange(0, n as int) =~= zext(t, n)); assert(t.len() < n ==> t + Seq::new((n - t.len()) as nat, |i: int| 0.0f64) =~= zext(t, n)); }
=== fn FftManager::time_from_freq_domain
requires old(self).wf(), old(freq_channel)@.len() == old(self).fft_size,
ensures final(self).same(old(self)), final(time_channel)@ == re_of(dft_inv(old(freq_channel)@)), final(freq_channel)@.len() == old(freq_channel)@.len(),
  final(time_channel)@.len() == old(self).fft_size,
=== fn FftManager::apply_reverse_fft_scaling
requires self.wf(),
ensures final(time_channel)@ == old(time_channel)@.map_values(|x: f64| fmul(x, fdiv(1.0f64, i2f(self.fft_size as int)))),
--- start
let ghost t = time_channel@;
let ghost z = t.map_values(|x: f64| fmul(x, fdiv(1.0f64, i2f(self.fft_size as int))));
proof { typed(self.inverse_fft_scale); }
--- loop 0
invariant time_channel@.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> #[trigger] time_channel@[i] == if i < vx_i0 { z[i] } else { t[i] },
--- loop 0 after
proof { assert(time_channel@ =~= z); }
