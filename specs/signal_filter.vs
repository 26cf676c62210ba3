#source visqol-rs/src/signal_filter.rs
#module signal_filter
=== prelude
/// one step of the transposed direct form II second order section:
/// (output, next condition 0, next condition 1)
pub open spec fn iir_step(b: Seq<f64>, a: Seq<f64>, x: f64, c0: f64, c1: f64) -> (f64, f64, f64) {
    let y = fadd(fmul(b[0], x), c0);
    (y, fsub(fadd(fmul(b[1], x), c1), fmul(a[1], y)), fsub(fmul(b[2], x), fmul(a[2], y)))
}
/// conditions after the first n samples
pub open spec fn iir_cond(b: Seq<f64>, a: Seq<f64>, x: Seq<f64>, c: (f64, f64), n: nat) -> (f64, f64) decreases n {
    if n == 0 { c } else { let p = iir_cond(b, a, x, c, (n - 1) as nat); let s = iir_step(b, a, x[n - 1], p.0, p.1); (s.1, s.2) }
}
pub open spec fn iir_out(b: Seq<f64>, a: Seq<f64>, x: Seq<f64>, c: (f64, f64)) -> Seq<f64> {
    Seq::new(x.len(), |i: int| { let p = iir_cond(b, a, x, c, i as nat); iir_step(b, a, x[i], p.0, p.1).0 })
}
pub open spec fn iir_final(b: Seq<f64>, a: Seq<f64>, x: Seq<f64>, c: (f64, f64)) -> (f64, f64) { iir_cond(b, a, x, c, x.len()) }
/// filtering only looks at the samples seen so far
pub proof fn lemma_iir_prefix(b: Seq<f64>, a: Seq<f64>, x: Seq<f64>, y: Seq<f64>, c: (f64, f64), n: nat)
    requires n <= x.len(), n <= y.len(), forall|i: int| 0 <= i < n ==> x[i] == y[i]
    ensures iir_cond(b, a, x, c, n) == iir_cond(b, a, y, c, n)
    decreases n
{ if n > 0 { lemma_iir_prefix(b, a, x, y, c, (n - 1) as nat); } }
pub proof fn lemma_iir_shift(b: Seq<f64>, a: Seq<f64>, x: Seq<f64>, y: Seq<f64>, c: (f64, f64), n: nat)
    requires n <= y.len()
    ensures iir_cond(b, a, x + y, c, x.len() + n) == iir_cond(b, a, y, iir_final(b, a, x, c), n)
    decreases n
{
    if n == 0 { lemma_iir_prefix(b, a, x + y, x, c, x.len()); } else { lemma_iir_shift(b, a, x, y, c, (n - 1) as nat); assert((x + y)[x.len() + n - 1] == y[n - 1]); }
}
/// streaming: filtering a concatenation equals filtering its parts, handing the
/// final conditions of the first to the second
pub proof fn streaming_composition(b: Seq<f64>, a: Seq<f64>, x: Seq<f64>, y: Seq<f64>, c: (f64, f64))
    ensures iir_out(b, a, x + y, c) =~= iir_out(b, a, x, c) + iir_out(b, a, y, iir_final(b, a, x, c)),
        iir_final(b, a, x + y, c) == iir_final(b, a, y, iir_final(b, a, x, c)),
{
    lemma_iir_shift(b, a, x, y, c, y.len());
    assert forall|i: int| 0 <= i < x.len() + y.len() implies iir_out(b, a, x + y, c)[i] == (iir_out(b, a, x, c) + iir_out(b, a, y, iir_final(b, a, x, c)))[i] by {
        if i < x.len() { lemma_iir_prefix(b, a, x + y, x, c, i as nat); }
        else { lemma_iir_shift(b, a, x, y, c, (i - x.len()) as nat); }
    }
}
=== fn filter_signal
requires numerator_coeffs@.len() >= 3, denom_coeffs@.len() >= 3, old(init_conditions)@.len() == 2,
ensures r.filtered_signal@ == iir_out(numerator_coeffs@, denom_coeffs@, signal@, (old(init_conditions)@[0], old(init_conditions)@[1])),
    (r.final_conditions@[0], r.final_conditions@[1]) == iir_final(numerator_coeffs@, denom_coeffs@, signal@, (old(init_conditions)@[0], old(init_conditions)@[1])),
    final(init_conditions)@ =~= r.final_conditions@,
--- start
let ghost c = (init_conditions@[0], init_conditions@[1]);
--- loop 0
invariant filtered_signal@.len() == signal@.len(), init_conditions@.len() == 2,
  (init_conditions@[0], init_conditions@[1]) == iir_cond(numerator_coeffs@, denom_coeffs@, signal@, c, vx_i0 as nat),
  forall|j: int| 0 <= j < vx_i0 ==> #[trigger] filtered_signal@[j] == iir_out(numerator_coeffs@, denom_coeffs@, signal@, c)[j],
--- loop 0 after
proof { assert(filtered_signal@ =~= iir_out(numerator_coeffs@, denom_coeffs@, signal@, c)); }
