#source visqol-rs/src/alignment.rs
#module alignment
=== prelude
use crate::fp::*;
use crate::envelope::upper_env;
use crate::xcorr::{best_lag, longer, lemma_best_lag};
/// lag at which the upper envelopes match best
pub open spec fn env_lag(a: Seq<f64>, b: Seq<f64>) -> Option<int> { best_lag(upper_env(a), upper_env(b)) }
/// number of samples the degraded signal is moved by: none for a lag beyond half the reference
pub open spec fn shift_of(a: Seq<f64>, b: Seq<f64>) -> int { let k = env_lag(a, b)->0; if k > a.len() / 2 || -k > a.len() / 2 { 0 } else { k } }
/// a signal moved by k samples: zeros in front, or leading samples lost
pub open spec fn shifted(s: Seq<f64>, k: int) -> Seq<f64> { if k < 0 { s.subrange(-k, s.len() as int) } else { Seq::new(k as nat, |i: int| 0.0f64) + s } }
pub open spec fn delay_of(k: int, rate: u32) -> f64 { if k == 0 { 0.0f64 } else { fdiv(i2f(k), i2f(rate as int)) } }
/// the strongest correlation of the envelopes is at a lag where the signals overlap (holds unless
/// rounding in the transform outweighs every true correlation)
pub open spec fn overlap(a: Seq<f64>, b: Seq<f64>) -> bool { a.len() <= 0x8000_0000 && b.len() <= 0x8000_0000 && (a.len() > 0 && b.len() > 0 ==> -shift_of(a, b) <= b.len()) }
pub open spec fn alignable(a: Seq<f64>, b: Seq<f64>) -> bool { a.len() > 0 && b.len() > 0 && env_lag(a, b).is_some() }
/// the two spans kept after moving by k: padding cut from the front of both, ends cut to the shorter one
pub open spec fn ref_span(a: Seq<f64>, b: Seq<f64>, k: int) -> Seq<f64> {
    let d = shifted(b, k);
    if a.len() < d.len() { a.subrange(dec(k), a.len() as int) } else { a.subrange(0, d.len() as int) }
}
pub open spec fn deg_span(a: Seq<f64>, b: Seq<f64>, k: int) -> Seq<f64> {
    let d = shifted(b, k);
    if a.len() < d.len() { d.subrange(dec(k), a.len() as int) } else { d }
}
pub open spec fn cut_of(a: Seq<f64>, b: Seq<f64>, k: int) -> int { if a.len() < shifted(b, k).len() { dec(k) } else { 0 } }
/// sample i of both spans is the same instant: the moved degraded signal at the same position as the reference
pub proof fn lemma_spans(a: Seq<f64>, b: Seq<f64>, k: int)
    requires -(b.len() as int) <= k <= a.len(),
    ensures ref_span(a, b, k).len() == deg_span(a, b, k).len(),
        forall|i: int| 0 <= i < ref_span(a, b, k).len() ==> #[trigger] ref_span(a, b, k)[i] == a[cut_of(a, b, k) + i] && deg_span(a, b, k)[i] == shifted(b, k)[cut_of(a, b, k) + i],
{
}
/// a late degraded signal (k > 0) is compared from its first sample on, next to reference sample k
pub proof fn lemma_moved(b: Seq<f64>, k: int, i: int)
    requires -(b.len() as int) <= k, 0 <= i < shifted(b, k).len(),
    ensures k >= 0 && i < k ==> shifted(b, k)[i] == 0.0f64, i >= k ==> shifted(b, k)[i] == b[i - k],
{}
=== fn align_and_truncate
requires overlap(ref_signal.data_matrix@, deg_signal.data_matrix@), ref_signal.sample_rate == deg_signal.sample_rate > 0,
ensures r.is_some() == alignable(ref_signal.data_matrix@, deg_signal.data_matrix@),
  ({ let (a, b) = (ref_signal.data_matrix@, deg_signal.data_matrix@); let k = shift_of(a, b);
     r.is_some() ==> (r->0).0.data_matrix@ == ref_span(a, b, k) && (r->0).1.data_matrix@ == deg_span(a, b, k) && (r->0).0.data_matrix@.len() == (r->0).1.data_matrix@.len()
       && (r->0).0.sample_rate == ref_signal.sample_rate && (r->0).1.sample_rate == deg_signal.sample_rate && (r->0).2 == delay_of(k, deg_signal.sample_rate) }),
--- start
let ghost (a, b) = (ref_signal.data_matrix@, deg_signal.data_matrix@);
let ghost k = shift_of(a, b);
proof { if k == 0 { lemma_no_lag(ref_signal.sample_rate); } else { lemma_lag_samples(k, ref_signal.sample_rate); } }
--- before Some((
proof {
  lemma_spans(a, b, k);
  assert(new_ref_matrix@ =~= ref_span(a, b, k));
  assert(new_deg_matrix@ =~= deg_span(a, b, k));
}
=== fn globally_align
requires overlap(ref_signal.data_matrix@, deg_signal.data_matrix@),
ensures r.is_some() == alignable(ref_signal.data_matrix@, deg_signal.data_matrix@),
  r.is_some() ==> ({ let (a, b) = (ref_signal.data_matrix@, deg_signal.data_matrix@); let k = shift_of(a, b);
     (r->0).0.data_matrix@ == shifted(b, k) && (r->0).0.sample_rate == deg_signal.sample_rate && (r->0).1 == delay_of(k, deg_signal.sample_rate) && k <= a.len() }),
--- before Some((new_deg_signal
proof { assert(new_deg_signal.data_matrix@ =~= shifted(deg_signal.data_matrix@, shift_of(ref_signal.data_matrix@, deg_signal.data_matrix@))); }
--- before let new_deg_signal = AudioSignal::new(new_deg_matrix
proof { assert(new_deg_matrix@ =~= shifted(deg_signal.data_matrix@, best_lag as int)); }
