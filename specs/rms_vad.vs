#source visqol-rs/src/rms_vad.rs
#module rms_vad
=== prelude
pub open spec fn sq_sum(s: Seq<i16>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sq_sum(s.drop_last()) + s.last() as int * s.last() as int } }
pub open spec fn rms(s: Seq<i16>) -> f64 { f_sqrt(fdiv(i2f(sq_sum(s)), i2f(s.len() as int))) }
/// label of one chunk: 0 below the threshold, 1 otherwise
pub open spec fn chunk_label(s: Seq<i16>) -> f64 { if flt(rms(s), 5000.0f64) { 0.0f64 } else { 1.0f64 } }
/// smoothed label: silent only when the chunk and the two before it are silent;
/// the first two chunks always count as voiced
pub open spec fn smooth(l: Seq<f64>) -> Seq<f64> {
    Seq::new(if l.len() < 2 { 2 } else { l.len() }, |i: int| if i < 2 { 1.0f64 } else if feq(l[i], 0.0f64) && !feq(l[i - 1], 1.0f64) && !feq(l[i - 2], 1.0f64) { 0.0f64 } else { 1.0f64 })
}
impl RmsVad {
    pub open spec fn wf(&self) -> bool { self.voice_activity_present == 1.0f64 && self.voice_activity_absent == 0.0f64 && self.silent_chunk_count == 3 && self.rms_threshold == 5000.0f64 }
}
pub proof fn lemma_sq_sum_bound(s: Seq<i16>) ensures 0 <= sq_sum(s) <= s.len() * 0x4000_0000 decreases s.len() {
    if s.len() > 0 { lemma_sq_sum_bound(s.drop_last()); let x = s.last() as int; assert(-32768 <= x <= 32767); assert(0 <= x * x <= 0x4000_0000) by (nonlinear_arith) requires -32768 <= x <= 32767; }
}
/// the level of a chunk is a number (never NaN), and not negative
pub proof fn lemma_rms(s: Seq<i16>) requires 0 < s.len() <= 0x1_0000_0000 ensures !fnan(rms(s)), fle(0.0f64, rms(s)) {
    lemma_sq_sum_bound(s); ax_i2f_sign(sq_sum(s)); ax_i2f_sign(s.len() as int);
    ax_div_sign(i2f(sq_sum(s)), i2f(s.len() as int)); ax_sqrt(fdiv(i2f(sq_sum(s)), i2f(s.len() as int)));
}
=== fn RmsVad::default
ensures r.wf(), r.results_per_chunk@.len() == 0,
=== fn RmsVad::process_chunk
requires old(self).wf(), 0 < chunk@.len() <= 0x1_0000_0000,
ensures final(self).wf(), final(self).results_per_chunk@ == old(self).results_per_chunk@.push(chunk_label(chunk@)), r == rms(chunk@), !fnan(r),
--- start
proof { lemma_rms(chunk@); assert(!fnan(5000.0f64)) by (bit_vector); }
=== fn RmsVad::get_vad_results
requires old(self).wf(),
ensures *final(self) == *old(self), r@ == smooth(old(self).results_per_chunk@),
--- loop 0
invariant vx_i0 >= 2, vad_results@.len() == vx_i0,
    vx_i0 <= vx_end0 || vx_i0 == 2,
    forall|j: int| 0 <= j < vx_i0 ==> #[trigger] vad_results@[j] == smooth(self.results_per_chunk@)[j],
--- loop 0 after
proof { assert(vad_results@ =~= smooth(self.results_per_chunk@)); }
=== fn RmsVad::calc_root_mean_square
requires chunk@.len() <= 0x1_0000_0000,
ensures r == rms(chunk@),
--- loop 0
invariant square == sq_sum(chunk@.subrange(0, vx_i0 as int)), 0 <= square <= vx_i0 * 0x4000_0000,
--- loop 0 start
proof {
  let x = chunk@[vx_i0 - 1] as int;
  assert(chunk@.subrange(0, vx_i0 as int).drop_last() =~= chunk@.subrange(0, vx_i0 - 1));
  assert(ipow(x, 2) == x * x) by { reveal_with_fuel(ipow, 3); assert(x * (x * 1) == x * x) by (nonlinear_arith); }
  assert(0 <= x * x <= 0x4000_0000) by (nonlinear_arith) requires -32768 <= x <= 32767;
}
--- loop 0 after
proof { assert(chunk@.subrange(0, vx_i0 as int) =~= chunk@); }
=== fn RmsVad::check_previous_chunks_for_silence
requires self.wf(), 2 <= *idx < self.results_per_chunk@.len(),
ensures r == (!feq(self.results_per_chunk@[*idx - 1], 1.0f64) && !feq(self.results_per_chunk@[*idx - 2], 1.0f64)),
--- loop 0
invariant 1 <= vx_i0 <= 3, previous_chunks_silent,
   vx_i0 >= 2 ==> !feq(self.results_per_chunk@[*idx - 1], 1.0f64),
   vx_i0 >= 3 ==> !feq(self.results_per_chunk@[*idx - 2], 1.0f64),
