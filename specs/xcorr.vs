#source visqol-rs/src/xcorr.rs
#module xcorr
=== prelude
use crate::fft_manager::{fft_size_of, zext, cvec};
use crate::fast_fourier_transform::{fwd, inv_re};
pub open spec fn longer(a: Seq<f64>, b: Seq<f64>) -> nat { if a.len() >= b.len() { a.len() } else { b.len() } }
/// transform size of the correlation of signals of up to n samples: no lag wraps around
pub open spec fn xpoints(n: nat) -> nat { if np2(2 * n) > 32 { np2(2 * n) } else { 32 } }
pub open spec fn cross_spectrum(a: Seq<f64>, b: Seq<f64>, p: nat) -> Seq<Complex64> { Seq::new(p, |i: int| c_mul(fwd(a, p)[i], c_conj(fwd(b, p)[i]))) }
/// circular cross-correlation
pub open spec fn circular(a: Seq<f64>, b: Seq<f64>) -> Seq<f64> { let p = xpoints(longer(a, b)); inv_re(cross_spectrum(a, b, p), p, p) }
/// correlation at a lag; negative lags sit at the end of the circular one
pub open spec fn corr_at(a: Seq<f64>, b: Seq<f64>, lag: int) -> f64 { circular(a, b)[if lag < 0 { xpoints(longer(a, b)) + lag } else { lag }] }
/// the correlations of all lags from -l to l in ascending order
pub open spec fn corrs_of(a: Seq<f64>, b: Seq<f64>) -> Seq<f64> { let l = longer(a, b) - 1; Seq::new((2 * l + 1) as nat, |j: int| corr_at(a, b, j - l)) }
/// position of the largest absolute value among the first n, the last one of equals
pub open spec fn last_max(s: Seq<f64>, n: nat) -> int decreases n {
    if n <= 1 { 0 } else { let b = last_max(s, (n - 1) as nat); if f_pcmp(f_abs(s[b]), f_abs(s[n - 1])) == Some(core::cmp::Ordering::Greater) { b } else { n - 1 } }
}
/// first position from i on of a value equal to x
pub open spec fn first_eq(s: Seq<f64>, x: f64, i: nat) -> Option<int> decreases s.len() - i {
    if i >= s.len() { None } else if feq(s[i as int], x) { Some(i as int) } else { first_eq(s, x, i + 1) }
}
pub open spec fn best_pos(s: Seq<f64>) -> Option<int> { first_eq(s, s[last_max(s, s.len())], 0) }
/// lag of the strongest correlation; among equals the last one by magnitude, at its first occurrence
pub open spec fn best_lag(a: Seq<f64>, b: Seq<f64>) -> Option<int> {
    match best_pos(corrs_of(a, b)) { Some(i) => Some(i - (longer(a, b) - 1)), None => None }
}
pub proof fn lemma_first_eq(s: Seq<f64>, x: f64, i: nat) requires i <= s.len()
    ensures first_eq(s, x, i) matches Some(j) ==> i <= j < s.len() && feq(s[j], x) && forall|k: int| i <= k < j ==> !feq(#[trigger] s[k], x),
        first_eq(s, x, i) is None ==> forall|k: int| i <= k < s.len() ==> !feq(#[trigger] s[k], x),
    decreases s.len() - i
{ if i < s.len() && !feq(s[i as int], x) { lemma_first_eq(s, x, i + 1); } }
pub proof fn lemma_last_max(s: Seq<f64>, n: nat) requires 0 < n <= s.len(), no_nan(s)
    ensures 0 <= last_max(s, n) < n, forall|i: int| 0 <= i < n ==> fle(f_abs(#[trigger] s[i]), f_abs(s[last_max(s, n)]))
    decreases n
{
    let m = last_max(s, n);
    if n > 1 { lemma_last_max(s, (n - 1) as nat); }
    let p = if n > 1 { last_max(s, (n - 1) as nat) } else { 0 };
    let (x, y) = (f_abs(s[p]), f_abs(s[n - 1]));
    ax_fabs(s[p]); ax_fabs(s[n - 1]);
    assert forall|i: int| 0 <= i < n implies fle(f_abs(#[trigger] s[i]), f_abs(s[m])) by {
        let z = f_abs(s[i]);
        ax_fabs(s[i]);
        assert(i < n - 1 ==> fle(z, x));
        lemma_step(x, y, z);
    }
}
proof fn lemma_step(x: f64, y: f64, z: f64) requires !fnan(x), !fnan(y), !fnan(z)
    ensures !flt(y, x) ==> fle(x, y), flt(y, x) ==> fle(y, x), fle(z, x) && !flt(y, x) ==> fle(z, y), fle(z, z), f_pcmp(x, y) == Some(core::cmp::Ordering::Greater) <==> flt(y, x)
{
    assert(!x.ieee_is_nan() && !y.ieee_is_nan() && !z.ieee_is_nan() ==> (!y.ieee_lt(x) ==> x.ieee_le(y)) && (y.ieee_lt(x) ==> y.ieee_le(x) && !x.ieee_lt(y)) && (z.ieee_le(x) && !y.ieee_lt(x) ==> z.ieee_le(y)) && z.ieee_le(z)) by (bit_vector);
}
/// the lag found has the largest absolute correlation of all lags
pub proof fn lemma_best_lag(a: Seq<f64>, b: Seq<f64>) requires longer(a, b) > 0, no_nan(corrs_of(a, b))
    ensures best_lag(a, b).is_some(), -(longer(a, b) - 1) <= best_lag(a, b)->0 <= longer(a, b) - 1,
        forall|k: int| -(longer(a, b) - 1) <= k <= longer(a, b) - 1 ==> fle(f_abs(#[trigger] corr_at(a, b, k)), f_abs(corr_at(a, b, best_lag(a, b)->0))),
{
    let s = corrs_of(a, b);
    let l = longer(a, b) - 1;
    lemma_last_max(s, s.len());
    let m = last_max(s, s.len());
    let x = s[m];
    lemma_first_eq(s, x, 0);
    assert(!x.ieee_is_nan() ==> x.ieee_eq(x)) by (bit_vector);
    let j = best_pos(s)->0;
    ax_abs_eq(s[j], x);
    assert forall|k: int| -l <= k <= l implies fle(f_abs(#[trigger] corr_at(a, b, k)), f_abs(corr_at(a, b, j - l))) by { assert(s[k + l] == corr_at(a, b, k)); assert(s[j] == corr_at(a, b, j - l)); }
}
proof fn lemma_points(n: nat) requires 0 < n <= 0x8000_0000
    ensures is_pow2(xpoints(n) as int), 2 * n <= xpoints(n) <= 0x2_0000_0000, fft_size_of(xpoints(n)) == xpoints(n), np2(2 * n) == ipow(2, f_exponent(i2f(2 * n - 1)) as nat), 
        1 <= f_exponent(i2f(2 * n - 1)) <= 33, !feq(0.0f64, i2f(2 * n - 1)),
{
    ax_exponent(2 * n - 1);
    let e = f_exponent(i2f(2 * n - 1)) as nat;
    lemma_np2_above(2 * n - 1, e);
    assert(ipow(2, 5) == 32) by (compute);
    assert(ipow(2, 33) == 0x2_0000_0000) by (compute);
    lemma_ipow2_mono(e, 33);
    assert(is_pow2(ipow(2, e)));
    assert(is_pow2(32)) by { assert(32 == ipow(2, 5)); }
    lemma_np2_self(xpoints(n));
}
=== fn frexp
ensures feq(0.0f64, s) ==> r == (s, 0i32), !feq(0.0f64, s) ==> r.1 == f_exponent(s),
  !feq(0.0f64, s) ==> r.0 == fmul(f_signum(s), f_exp2(fsub(fsub(f_log2(f_abs(s)), f_floor(f_log2(f_abs(s)))), 1.0f64))),
=== fn calculate_fft_pointwise_product
requires old(manager).wf(), old(manager).fft_size == fft_points, signal_1@.len() <= fft_points, signal_2@.len() <= fft_points,
ensures final(manager).same(old(manager)), r@ == cross_spectrum(signal_1@, signal_2@, fft_points as nat),
--- start
let ghost p = fft_points as nat;
let ghost f2 = fwd(signal_2@, p);
--- loop 0
invariant fft_signal_2@.len() == p, f2.len() == p, forall|i: int| 0 <= i < p ==> #[trigger] fft_signal_2@[i] == if i < vx_i0 { c_conj(f2[i]) } else { f2[i] },
--- loop 1
invariant vx_c1@.len() == vx_i1, fft_signal_2@.len() == p, fft_signal_1@ == fwd(signal_1@, p), fft_signal_1@.len() == p,
  forall|i: int| 0 <= i < p ==> #[trigger] fft_signal_2@[i] == c_conj(f2[i]),
  forall|i: int| 0 <= i < vx_i1 ==> #[trigger] vx_c1@[i] == cross_spectrum(signal_1@, signal_2@, p)[i],
--- loop 1 after
proof { assert(vx_c1@ =~= cross_spectrum(signal_1@, signal_2@, p)); }
=== fn calculate_inverse_fft_pointwise_product
requires 0 < longer(old(signal_1)@, old(signal_2)@) <= 0x8000_0000,
ensures r@ == circular(old(signal_1)@, old(signal_2)@), r@.len() == xpoints(longer(old(signal_1)@, old(signal_2)@)),
--- start
let ghost (a, b) = (signal_1@, signal_2@);
let ghost n = longer(a, b);
let ghost p = xpoints(n);
proof { lemma_points(n); }
--- before let (_, exp)
proof {
  assert(zext(signal_1@, p) =~= zext(a, p));
  assert(zext(signal_2@, p) =~= zext(b, p));
}
--- before fast_fourier_transform::inverse
proof { assert(point_wise_product@ == cross_spectrum(a, b, p)); }
=== fn calculate_best_lag
requires 0 < longer(signal_1@, signal_2@) <= 0x8000_0000,
ensures r.is_some() ==> best_lag(signal_1@, signal_2@) == Some(r->0 as int), r.is_none() ==> best_lag(signal_1@, signal_2@) is None,
  r.is_some() ==> -(longer(signal_1@, signal_2@) - 1) <= r->0 <= longer(signal_1@, signal_2@) - 1,
--- start
let ghost (a, b) = (signal_1@, signal_2@);
let ghost s = corrs_of(a, b);
proof { lemma_points(longer(a, b)); }
--- after corrs.append
proof { assert(corrs@ =~= s); }
--- loop 0
invariant corrs@ == s, s.len() > 0, 1 <= vx_i0 <= s.len(), 0 <= last_max(s, vx_i0 as nat) < vx_i0, *vx_b0 == s[last_max(s, vx_i0 as nat)],
--- loop 1
invariant corrs@ == s, *best_corr == s[last_max(s, s.len())],
  vx_pos.is_none() ==> first_eq(s, *best_corr, 0) == first_eq(s, *best_corr, vx_i1 as nat), vx_pos.is_some() ==> first_eq(s, *best_corr, 0) == Some(vx_pos->0 as int) && vx_pos->0 < s.len(),
