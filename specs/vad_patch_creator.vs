#source visqol-rs/src/vad_patch_creator.rs
#module vad_patch_creator
=== prelude
use crate::patch_creator::{cols_of, patches_of, fits, disjoint};
use crate::rms_vad::{chunk_label, smooth};
use crate::math_utils::normed;
use crate::analysis_window::hop_of;
/// quantisation of a normalised sample to 16 bit
pub open spec fn quant(x: f64) -> i16 { f2i16(fmul(x, 32768.0f64)) }
pub open spec fn quants(s: Seq<f64>) -> Seq<i16> { s.map_values(|x: f64| quant(x)) }
/// one label per complete chunk of f samples
pub open spec fn chunk_labels(q: Seq<i16>, f: nat) -> Seq<f64> { Seq::new(q.len() / f, |k: int| chunk_label(q.subrange(k * f, (k + 1) * f))) }
/// smoothed voice activity of `total` samples from `start` on
pub open spec fn voice_activity(s: Seq<f64>, start: nat, total: nat, f: nat) -> Seq<f64> { smooth(chunk_labels(quants(s.subrange(start as int, (start + total) as int)), f)) }
pub open spec fn patch_labels(l: Seq<f64>, p: nat, k: int) -> Seq<f64> { l.subrange(k * p, if (k + 1) * p <= l.len() { (k + 1) * p } else { l.len() as int }) }
/// starts of those among the first n patches whose voiced frames reach the threshold
pub open spec fn voiced(l: Seq<f64>, p: nat, first: nat, thr: f64, n: nat) -> Seq<usize> decreases n {
    if n == 0 { Seq::empty() } else {
        let r = voiced(l, p, first, thr, (n - 1) as nat);
        if fle(thr, fsum(patch_labels(l, p, n - 1))) { r.push((first + (n - 1) * p) as usize) } else { r }
    }
}
pub open spec fn vad_count(n: nat, p: nat) -> nat { ((n - (p / 2 - 1)) / (p as int)) as nat }
pub open spec fn vad_idx(n: nat, p: nat, thr: f64, s: Seq<f64>, hop: nat) -> Result<Seq<usize>, VisqolError> {
    let first = (p / 2 - 1) as nat;
    if n < first + p { Err(VisqolError::ReferenceSpectrogramTooSmall { spectrogram_length: n as usize, minimum_required: (first + p) as usize }) }
    else { Ok(voiced(voice_activity(normed(s), first, vad_count(n, p) * (p * hop), hop), p, first, thr, vad_count(n, p))) }
}
pub proof fn lemma_voiced(l: Seq<f64>, p: nat, first: nat, thr: f64, n: nat, cols: nat)
    requires p >= 1, first + n * p <= cols, cols <= usize::MAX
    ensures fits(voiced(l, p, first, thr, n), p, cols), disjoint(voiced(l, p, first, thr, n), p),
        forall|k: int| 0 <= k < voiced(l, p, first, thr, n).len() ==> #[trigger] voiced(l, p, first, thr, n)[k] + p <= first + n * p
    decreases n
{
    if n > 0 {
        assert(n * p == (n - 1) * p + p) by (nonlinear_arith) requires n > 0;
        assert(0 <= (n - 1) * p) by (nonlinear_arith) requires n > 0;
        lemma_voiced(l, p, first, thr, (n - 1) as nat, cols);
    }
}
pub proof fn lemma_quant(x: f64)
    ensures f2i16(f_min(f_max(-32768.0f64, fmul(1.0f64, 32767.0f64)), i2f(f2i16(fmul(x, 32768.0f64)) as int))) == quant(x)
{
    let hi = fmul(1.0f64, 32767.0f64); let a = -32768.0f64; let v = quant(x) as int; let w = i2f(v);
    assert(1.0f64.ieee_mul(32767.0f64) == 32767.0f64) by (bit_vector);
    assert(a.ieee_lt(32767.0f64) && !a.ieee_is_nan() && !32767.0f64.ieee_is_nan()) by (bit_vector) requires a == -32768.0f64;
    ax_fmax(a, hi); 
    let m = f_max(a, hi);
    assert(m == 32767.0f64) by { assert(a.ieee_lt(32767.0f64) && 32767.0f64.ieee_le(m) && (m == a || m == 32767.0f64) ==> m == 32767.0f64) by (bit_vector); }
    ax_i2f_i16(v); ax_i2f_i16(32767); ax_i2f_32767();
    ax_fmin(m, w);
    let r = f_min(m, w);
    assert((r == 32767.0f64 || r == w) && r.ieee_le(w) && w.ieee_le(32767.0f64) ==> r == w) by (bit_vector);
    ax_f2i16_i2f(v);
}
pub open spec fn labels_ok(l: Seq<f64>, q: Seq<i16>, f: nat, k: int) -> bool { forall|c: int| 0 <= c < k ==> #[trigger] l[c] == chunk_label(q.subrange(c * f, (c + 1) * f)) }
/// complete chunks of f in n samples
pub proof fn lemma_chunks(n: int, f: int, k: int, rest: int)
    requires f > 0, 0 <= k, 0 <= rest < f, n == k * f + rest
    ensures n / f == k
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n, f, k, rest); }
/// labels are 0 or 1, so a sum that starts with 1 stays at least 1
proof fn lemma_add_label(a: f64, x: f64) requires fle(1.0f64, a), fle(a, 9007199254740992.0f64), x == 0.0f64 || x == 1.0f64 ensures fle(1.0f64, fadd(a, x)), fle(fadd(a, x), 9007199254740992.0f64)
{ assert((1.0f64).ieee_le(a) && a.ieee_le(9007199254740992.0f64) && (x == 0.0f64 || x == 1.0f64) ==> (1.0f64).ieee_le(a.ieee_add(x)) && a.ieee_add(x).ieee_le(9007199254740992.0f64)) by (bit_vector); }
proof fn lemma_label_sum(s: Seq<f64>)
    requires s.len() > 0, s[0] == 1.0f64, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0.0f64 || s[i] == 1.0f64
    ensures fle(1.0f64, fsum(s)), fle(fsum(s), 9007199254740992.0f64)
    decreases s.len()
{
    if s.len() == 1 {
        assert(s.drop_last().len() == 0);
        assert(fsum(s.drop_last()) == -0.0f64);
        assert(fsum(s) == fadd(-0.0f64, 1.0f64));
        assert((1.0f64).ieee_le((-0.0f64).ieee_add(1.0f64)) && ((-0.0f64).ieee_add(1.0f64)).ieee_le(9007199254740992.0f64)) by (bit_vector);
    } else { lemma_label_sum(s.drop_last()); lemma_add_label(fsum(s.drop_last()), s.last()); }
}
/// the first patch always counts as voiced
proof fn lemma_first_voiced(l: Seq<f64>, p: nat, first: nat, thr: f64, n: nat)
    requires n >= 1, p >= 1, l.len() >= p, l[0] == 1.0f64, thr == 1.0f64, forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == 0.0f64 || l[i] == 1.0f64
    ensures voiced(l, p, first, thr, n).len() > 0
    decreases n
{
    if n == 1 {
        assert(0 * p == 0 && 1 * p == p) by (nonlinear_arith);
        lemma_label_sum(patch_labels(l, p, 0));
    } else { lemma_first_voiced(l, p, first, thr, (n - 1) as nat); }
}
=== raw PatchCreator for VadPatchCreator
open spec fn psize(&self) -> nat { self.patch_size as nat }
open spec fn idx_pre(&self, m: Array2<f64>, sig: AudioSignal, win: AnalysisWindow) -> bool {
    let p = self.patch_size as nat;
    self.frames_with_va_threshold == 1.0f64 && 2 <= p <= 0x100_0000 && 0 < hop_of(win) <= 0x1_0000_0000 && 0 < sig.data_matrix@.len() <= isize::MAX
    && (m.cols() >= p / 2 - 1 + p ==> p / 2 - 1 + vad_count(m.cols(), p) * (p * hop_of(win)) <= sig.data_matrix@.len())
}
open spec fn idx(&self, m: Array2<f64>, sig: AudioSignal, win: AnalysisWindow) -> Result<Seq<usize>, VisqolError> { vad_idx(m.cols(), self.patch_size as nat, self.frames_with_va_threshold, sig.data_matrix@, hop_of(win) as nat) }
=== fn VadPatchCreator::create_ref_patch_indices
--- spec
--- start
let ghost p = self.patch_size as nat;
let ghost n = spectrogram.cols();
let ghost hop = hop_of(*window) as nat;
let ghost first = (p / 2 - 1) as nat;
let ghost cnt = vad_count(n, p);
let ghost k: int = 0;
proof {
  assert(p * hop <= 0x100_0000 * 0x1_0000_0000) by (nonlinear_arith) requires p <= 0x100_0000, hop <= 0x1_0000_0000;
  assert(0 < p * hop) by (nonlinear_arith) requires 0 < p, 0 < hop;
}
--- before let total_sample_count
proof {
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n - first, p as int);
  assert(cnt * p == p * cnt) by (nonlinear_arith);
  assert(cnt >= 1) by { if cnt == 0 { assert(p * cnt == 0) by (nonlinear_arith) requires cnt == 0; assert(false); } }
  assert(cnt * (p * hop) == (cnt * p) * hop) by (nonlinear_arith);
  assert(cnt * p >= p) by (nonlinear_arith) requires cnt >= 1;
  lemma_chunks((cnt * (p * hop)) as int, hop as int, (cnt * p) as int, 0);
}
--- before let mut patch_idx
let ghost l = vad_result@;
proof { 
  assert(l == voice_activity(normed(ref_signal.data_matrix@), first, cnt * (p * hop), hop));
  assert(l.len() == cnt * p);
  assert(cnt * p >= p) by (nonlinear_arith) requires cnt >= 1;
  assert(0 * p == 0) by (nonlinear_arith);
}
--- loop 0
invariant vx_st0 == p, vad_result@ == l, l.len() == cnt * p, first + cnt * p <= n, n <= isize::MAX, dims_ok(spectrogram), 2 <= p <= 0x100_0000,
  0 <= k <= cnt, vx_i0 == k * p, patch_idx == first + k * p,
  ref_patch_indices@ == voiced(l, p, first, self.frames_with_va_threshold, k as nat),
--- loop 0 start
proof {
  if k >= cnt { assert(k * p >= cnt * p) by (nonlinear_arith) requires k >= cnt, p >= 2; assert(false); }
  assert((k + 1) * p == k * p + p) by (nonlinear_arith);
  assert((k + 1) * p <= cnt * p) by (nonlinear_arith) requires k + 1 <= cnt, p >= 2;
  assert(patch@ =~= patch_labels(l, p, k));
}
--- loop 0 end
proof { k = k + 1; }
--- loop 0 after
proof {
  if k < cnt { assert(k * p + p <= cnt * p) by (nonlinear_arith) requires k + 1 <= cnt, p >= 2; assert(false); }
  lemma_voiced(l, p, first, self.frames_with_va_threshold, cnt, n);
  lemma_first_voiced(l, p, first, self.frames_with_va_threshold, cnt);
}
=== fn VadPatchCreator::create_patches_from_indices
--- spec
--- loop 0
invariant patches@.len() == vx_i0, forall|k: int| 0 <= k < vx_i0 ==> #[trigger] patches@[k] == cols_of(*spectrogram, patch_indices@[k] as int, self.patch_size as nat),
--- loop 0 start
proof { assert(patch_indices@[vx_i0 - 1] + self.psize() <= spectrogram.cols()); }
--- loop 0 end
proof { let z = cols_of(*spectrogram, patch_indices@[vx_i0 - 1] as int, self.patch_size as nat); assert(patch.eqv(&z)); ax_ext2(patch, z); }
--- loop 0 after
proof { assert(patches@ =~= patches_of(*spectrogram, patch_indices@, self.psize())); }
=== fn VadPatchCreator::new
ensures r.patch_size == patch_size, r.frames_with_va_threshold == 1.0f64,
=== fn VadPatchCreator::get_voice_activity
requires start_sample + total_samples <= signal@.len(), 0 < frame_length <= 0x1_0000_0000, signal@.len() <= isize::MAX,
ensures r@ == voice_activity(signal@, start_sample as nat, total_samples as nat, frame_length as nat),
--- start
let ghost f = frame_length as nat;
let ghost k: int = 0;
let ghost q = quants(signal@.subrange(start_sample as int, (start_sample + total_samples) as int));
--- before let mut frame
proof { assert(0 * f == 0) by (nonlinear_arith); }
--- loop 0
invariant vad.wf(), q.len() == total_samples, patch@ == signal@.subrange(start_sample as int, (start_sample + total_samples) as int), q == quants(patch@), f == frame_length,
  0 <= k, vx_i0 == k * f + frame@.len(), frame@.len() < f, vad.results_per_chunk@.len() == k,
  frame@ == q.subrange(k * f, vx_i0 as int),
  0 <= k * f,
  labels_ok(vad.results_per_chunk@, q, f, k),
--- loop 0 start
proof { lemma_quant(*patch_element); assert((k + 1) * f == k * f + f) by (nonlinear_arith); }
let ghost gf = frame@;
let ghost gr = vad.results_per_chunk@;
--- before if frame.len() == frame_length
proof { assert(frame@ =~= q.subrange(k * f, vx_i0 as int)); }
--- loop 0 end
proof {
  let ok = k;
  if gf.len() + 1 == f {
    assert((k + 1) * f == vx_i0);
    assert(vad.results_per_chunk@[k] == chunk_label(q.subrange(k * f, (k + 1) * f)));
    k = k + 1;
  }
  assert(labels_ok(vad.results_per_chunk@, q, f, k)) by {
    assert forall|c: int| 0 <= c < k implies #[trigger] vad.results_per_chunk@[c] == chunk_label(q.subrange(c * f, (c + 1) * f)) by {
      if c < ok { assert(gr[c] == vad.results_per_chunk@[c]); }
    }
  }
  assert(frame@ =~= q.subrange(k * f, vx_i0 as int));
}
--- loop 0 after
proof {
  lemma_chunks(total_samples as int, f as int, k, frame@.len() as int);
  assert(vad.results_per_chunk@ =~= chunk_labels(q, f));
}
