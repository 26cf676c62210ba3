#source visqol-rs/src/equivalent_rectangular_bandwidth.rs
#module equivalent_rectangular_bandwidth
=== prelude
/// centre frequency of band i of n: equal steps on the equivalent rectangular
/// bandwidth scale (Glasberg and Moore: ear quality 9.26449, minimum bandwidth 24.7 Hz)
pub open spec fn erb_offset() -> f64 { fmul(9.26449f64, 24.7f64) }
pub open spec fn erb_center(i: int, n: int, lo: f64, hi: f64) -> f64 {
    fadd(fneg(erb_offset()), fmul(f_exp(fmul(fadd(i2f(i), 1.0f64), fdiv(fadd(fneg(f_ln(fadd(hi, erb_offset()))), f_ln(fadd(lo, erb_offset()))), i2f(n)))), fadd(hi, erb_offset())))
}
pub open spec fn erb_centers(n: int, lo: f64, hi: f64) -> Seq<f64> { Seq::new(n as nat, |i: int| erb_center(i, n, lo, hi)) }
/// no band lies above half the sampling rate
pub open spec fn erb_top(rate: usize, hi: f64) -> f64 { let h = fdiv(i2f(rate as int), 2.0f64); if flt(h, hi) { h } else { hi } }
pub open spec fn cx(x: f64) -> Complex64 { Complex64 { re: x, im: 0.0f64 } }
/// gammatone sections after Slaney, for centre frequency c and sample period t
pub open spec fn pi() -> f64 { 3.14159265358979323846264338327950288f64 }
pub open spec fn g_i() -> Complex64 { Complex64 { re: 0.0f64, im: 1.0f64 } }
/// bandwidth of the section (radians per second)
pub open spec fn g_bw(c: Complex64) -> Complex64 { c_smul(fmul(fmul(1.019f64, 2.0f64), pi()), c_powf(g_adds(c_powf(c_div_s(c, 9.26449f64), 1.0f64), f_powf(24.7f64, 1.0f64)), fdiv(1.0f64, 1.0f64))) }
pub open spec fn g_adds(a: Complex64, s: f64) -> Complex64 { Complex64 { re: fadd(a.re, s), im: a.im } }
pub open spec fn g_ebt(c: Complex64, t: f64) -> Complex64 { c_exp(c_mul_s(g_bw(c), t)) }
pub open spec fn g_b1(c: Complex64, t: f64) -> Complex64 { c_div(c_smul(-2.0f64, c_cos(c_mul_s(c_mul_s(c_smul(2.0f64, c), pi()), t))), g_ebt(c, t)) }
pub open spec fn g_b2(c: Complex64, t: f64) -> Complex64 { c_exp(c_mul_s(c_mul_s(g_bw(c), t), -2.0f64)) }
pub open spec fn g_sin(c: Complex64, t: f64) -> Complex64 { c_mul_s(c_sin(c_mul_s(c_mul_s(c_mul_s(c, 2.0f64), pi()), t)), t) }
pub open spec fn g_pos(c: Complex64, t: f64) -> Complex64 { c_mul_s(c_mul_s(g_sin(c, t), 2.0f64), f_sqrt(fadd(3.0f64, f_powf(2.0f64, 1.5f64)))) }
pub open spec fn g_neg(c: Complex64, t: f64) -> Complex64 { c_mul_s(c_mul_s(g_sin(c, t), 2.0f64), f_sqrt(fadd(3.0f64, fneg(f_powf(2.0f64, 1.5f64))))) }
pub open spec fn g_cos(c: Complex64, t: f64) -> Complex64 { c_mul_s(c_mul_s(c_cos(c_mul_s(c_mul_s(c_mul_s(c, 2.0f64), pi()), t)), 2.0f64), t) }
pub open spec fn g_a11(c: Complex64, t: f64) -> Complex64 { c_div_s(c_neg(c_add(c_div(g_cos(c, t), g_ebt(c, t)), c_div(g_pos(c, t), g_ebt(c, t)))), 2.0f64) }
pub open spec fn g_a12(c: Complex64, t: f64) -> Complex64 { c_div_s(c_neg(c_sub(c_div(g_cos(c, t), g_ebt(c, t)), c_div(g_pos(c, t), g_ebt(c, t)))), 2.0f64) }
pub open spec fn g_a13(c: Complex64, t: f64) -> Complex64 { c_div_s(c_neg(c_add(c_div(g_cos(c, t), g_ebt(c, t)), c_div(g_neg(c, t), g_ebt(c, t)))), 2.0f64) }
pub open spec fn g_a14(c: Complex64, t: f64) -> Complex64 { c_div_s(c_neg(c_sub(c_div(g_cos(c, t), g_ebt(c, t)), c_div(g_neg(c, t), g_ebt(c, t)))), 2.0f64) }
/// gain of the unnormalised cascade at the centre frequency
pub open spec fn g_s1() -> f64 { f_sqrt(fsub(3.0f64, f_powf(2.0f64, fdiv(3.0f64, 2.0f64)))) }
pub open spec fn g_s2() -> f64 { f_sqrt(fadd(3.0f64, f_powf(2.0f64, fdiv(3.0f64, 2.0f64)))) }
pub open spec fn g_ex(c: Complex64, t: f64) -> Complex64 { c_exp(c_mul_s(c_mul_s(c_mul(c_smul(4.0f64, g_i()), c), pi()), t)) }
pub open spec fn g_x01(c: Complex64, t: f64) -> Complex64 { c_mul_s(c_smul(-2.0f64, g_ex(c, t)), t) }
pub open spec fn g_x02(c: Complex64, t: f64) -> Complex64 { c_mul_s(c_smul(2.0f64, c_exp(c_add(c_neg(c_mul_s(g_bw(c), t)), c_mul_s(c_mul_s(c_mul(c_smul(2.0f64, g_i()), c), pi()), t)))), t) }
pub open spec fn g_xcos(c: Complex64, t: f64) -> Complex64 { c_cos(c_mul_s(c_mul_s(c_smul(2.0f64, c), pi()), t)) }
pub open spec fn g_xsin(c: Complex64, t: f64) -> Complex64 { c_sin(c_mul_s(c_mul_s(c_smul(2.0f64, c), pi()), t)) }
pub open spec fn g_x12(c: Complex64, t: f64) -> Complex64 { c_sub(g_xcos(c, t), c_smul(g_s1(), g_xsin(c, t))) }
pub open spec fn g_x22(c: Complex64, t: f64) -> Complex64 { c_add(g_xcos(c, t), c_smul(g_s1(), g_xsin(c, t))) }
pub open spec fn g_x32(c: Complex64, t: f64) -> Complex64 { c_sub(g_xcos(c, t), c_smul(g_s2(), g_xsin(c, t))) }
pub open spec fn g_x42(c: Complex64, t: f64) -> Complex64 { c_add(g_xcos(c, t), c_smul(g_s2(), g_xsin(c, t))) }
pub open spec fn g_x1(c: Complex64, t: f64) -> Complex64 { c_add(g_x01(c, t), c_mul(g_x02(c, t), g_x12(c, t))) }
pub open spec fn g_x2(c: Complex64, t: f64) -> Complex64 { c_add(g_x01(c, t), c_mul(g_x02(c, t), g_x22(c, t))) }
pub open spec fn g_x3(c: Complex64, t: f64) -> Complex64 { c_add(g_x01(c, t), c_mul(g_x02(c, t), g_x32(c, t))) }
pub open spec fn g_x4(c: Complex64, t: f64) -> Complex64 { c_add(g_x01(c, t), c_mul(g_x02(c, t), g_x42(c, t))) }
pub open spec fn g_x5(c: Complex64, t: f64) -> Complex64 {
    c_add(c_sub(c_sdiv(-2.0f64, c_exp(c_mul_s(c_smul(2.0f64, g_bw(c)), t))), c_smul(2.0f64, g_ex(c, t))), c_div(c_smul(2.0f64, c_sadd(1.0f64, g_ex(c, t))), c_exp(c_mul_s(g_bw(c), t))))
}
pub open spec fn g_gain(c: Complex64, t: f64) -> f64 { c_norm(c_div(c_mul(c_mul(c_mul(g_x1(c, t), g_x2(c, t)), g_x3(c, t)), g_x4(c, t)), c_powf(g_x5(c, t), 4.0f64))) }
/// coefficients of a band: a0, a11, a12, a13, a14, a2, b0, b1, b2, gain
pub open spec fn erb_row(c: Complex64, t: f64) -> Seq<f64> {
    seq![t, c_re(g_a11(c, t)), c_re(g_a12(c, t)), c_re(g_a13(c, t)), c_re(g_a14(c, t)), 0.0f64, 1.0f64, c_re(g_b1(c, t)), c_re(g_b2(c, t)), g_gain(c, t)]
}
pub open spec fn erb_coefs(n: int, rate: usize, lo: f64, hi: f64) -> Array2<f64> {
    mk2(n as nat, 10, |i: int, j: int| erb_row(cx(erb_center(i, n, lo, erb_top(rate, hi))), fdiv(1.0f64, i2f(rate as int)))[j])
}
=== fn calculate_uniform_center_freqs
ensures r@ =~= erb_centers(NUM_BANDS as int, low_freq, high_freq),
--- loop 0
invariant forall|k: int| 0 <= k < vx_i0 ==> #[trigger] coefficients@[k] == erb_center(k, NUM_BANDS as int, low_freq, high_freq),
=== fn make_filters
ensures r.0 == erb_coefs(NUM_BANDS as int, sample_rate, low_freq, high_freq),
  r.1@ == erb_centers(NUM_BANDS as int, low_freq, erb_top(sample_rate, high_freq)),
--- attr
#[verifier::rlimit(50)]
--- loop 0
invariant B@.len() == NUM_BANDS, 0 <= vx_i0 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i0 ==> #[trigger] B@[k] == g_bw(cf@[k]),
--- loop 1
invariant exp_bt@.len() == NUM_BANDS, 0 <= vx_i1 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i1 ==> #[trigger] exp_bt@[k] == g_ebt(cf@[k], t),
--- loop 2
invariant B1@.len() == NUM_BANDS, 0 <= vx_i2 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i2 ==> #[trigger] B1@[k] == g_b1(cf@[k], t),
--- loop 3
invariant B2@.len() == NUM_BANDS, 0 <= vx_i3 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i3 ==> #[trigger] B2@[k] == g_b2(cf@[k], t),
  forall|k: int| vx_i3 <= k < NUM_BANDS ==> #[trigger] B2@[k] == g_bw(cf@[k]),
--- loop 4
invariant b1@.len() == NUM_BANDS, 0 <= vx_i4 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i4 ==> #[trigger] b1@[k] == g_sin(cf@[k], t),
  forall|k: int| vx_i4 <= k < NUM_BANDS ==> #[trigger] b1@[k] == cf@[k],
--- loop 5
invariant bPos@.len() == NUM_BANDS, 0 <= vx_i5 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i5 ==> #[trigger] bPos@[k] == g_pos(cf@[k], t),
  forall|k: int| vx_i5 <= k < NUM_BANDS ==> #[trigger] bPos@[k] == g_sin(cf@[k], t),
--- loop 6
invariant bNeg@.len() == NUM_BANDS, 0 <= vx_i6 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i6 ==> #[trigger] bNeg@[k] == g_neg(cf@[k], t),
  forall|k: int| vx_i6 <= k < NUM_BANDS ==> #[trigger] bNeg@[k] == g_sin(cf@[k], t),
--- loop 7
invariant a@.len() == NUM_BANDS, 0 <= vx_i7 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i7 ==> #[trigger] a@[k] == g_cos(cf@[k], t),
  forall|k: int| vx_i7 <= k < NUM_BANDS ==> #[trigger] a@[k] == cf@[k],
--- loop 8
invariant A11@.len() == NUM_BANDS, 0 <= vx_i8 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i8 ==> #[trigger] A11@[k] == g_a11(cf@[k], t),
--- loop 9
invariant A12@.len() == NUM_BANDS, 0 <= vx_i9 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i9 ==> #[trigger] A12@[k] == g_a12(cf@[k], t),
--- loop 10
invariant A13@.len() == NUM_BANDS, 0 <= vx_i10 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i10 ==> #[trigger] A13@[k] == g_a13(cf@[k], t),
--- loop 11
invariant A14@.len() == NUM_BANDS, 0 <= vx_i11 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i11 ==> #[trigger] A14@[k] == g_a14(cf@[k], t),
--- loop 12
invariant xExp@.len() == NUM_BANDS, 0 <= vx_i12 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i12 ==> #[trigger] xExp@[k] == g_ex(cf@[k], t),
  forall|k: int| vx_i12 <= k < NUM_BANDS ==> #[trigger] xExp@[k] == cf@[k],
--- loop 13
invariant x01@.len() == NUM_BANDS, 0 <= vx_i13 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i13 ==> #[trigger] x01@[k] == g_x01(cf@[k], t),
  forall|k: int| vx_i13 <= k < NUM_BANDS ==> #[trigger] x01@[k] == g_ex(cf@[k], t),
--- loop 14
invariant x02@.len() == NUM_BANDS, 0 <= vx_i14 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i14 ==> #[trigger] x02@[k] == g_x02(cf@[k], t),
  forall|k: int| vx_i14 <= k < NUM_BANDS ==> #[trigger] x02@[k] == cf@[k],
--- loop 15
invariant xcos@.len() == NUM_BANDS, 0 <= vx_i15 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i15 ==> #[trigger] xcos@[k] == g_xcos(cf@[k], t),
  forall|k: int| vx_i15 <= k < NUM_BANDS ==> #[trigger] xcos@[k] == cf@[k],
--- loop 16
invariant xsin@.len() == NUM_BANDS, 0 <= vx_i16 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i16 ==> #[trigger] xsin@[k] == g_xsin(cf@[k], t),
  forall|k: int| vx_i16 <= k < NUM_BANDS ==> #[trigger] xsin@[k] == cf@[k],
--- loop 17
invariant x12@.len() == NUM_BANDS, 0 <= vx_i17 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i17 ==> #[trigger] x12@[k] == g_x12(cf@[k], t),
  forall|k: int| vx_i17 <= k < NUM_BANDS ==> #[trigger] x12@[k] == g_xcos(cf@[k], t),
--- loop 18
invariant x1@.len() == NUM_BANDS, 0 <= vx_i18 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i18 ==> #[trigger] x1@[k] == g_x1(cf@[k], t),
  forall|k: int| vx_i18 <= k < NUM_BANDS ==> #[trigger] x1@[k] == g_x01(cf@[k], t),
--- loop 19
invariant x22@.len() == NUM_BANDS, 0 <= vx_i19 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i19 ==> #[trigger] x22@[k] == g_x22(cf@[k], t),
  forall|k: int| vx_i19 <= k < NUM_BANDS ==> #[trigger] x22@[k] == g_xcos(cf@[k], t),
--- loop 20
invariant x2@.len() == NUM_BANDS, 0 <= vx_i20 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i20 ==> #[trigger] x2@[k] == g_x2(cf@[k], t),
  forall|k: int| vx_i20 <= k < NUM_BANDS ==> #[trigger] x2@[k] == g_x01(cf@[k], t),
--- loop 21
invariant x32@.len() == NUM_BANDS, 0 <= vx_i21 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i21 ==> #[trigger] x32@[k] == g_x32(cf@[k], t),
  forall|k: int| vx_i21 <= k < NUM_BANDS ==> #[trigger] x32@[k] == g_xcos(cf@[k], t),
--- loop 22
invariant x3@.len() == NUM_BANDS, 0 <= vx_i22 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i22 ==> #[trigger] x3@[k] == g_x3(cf@[k], t),
  forall|k: int| vx_i22 <= k < NUM_BANDS ==> #[trigger] x3@[k] == g_x01(cf@[k], t),
--- loop 23
invariant x42@.len() == NUM_BANDS, 0 <= vx_i23 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i23 ==> #[trigger] x42@[k] == g_x42(cf@[k], t),
  forall|k: int| vx_i23 <= k < NUM_BANDS ==> #[trigger] x42@[k] == g_xcos(cf@[k], t),
--- loop 24
invariant x4@.len() == NUM_BANDS, 0 <= vx_i24 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i24 ==> #[trigger] x4@[k] == g_x4(cf@[k], t),
  forall|k: int| vx_i24 <= k < NUM_BANDS ==> #[trigger] x4@[k] == g_x01(cf@[k], t),
--- loop 25
invariant x5@.len() == NUM_BANDS, 0 <= vx_i25 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i25 ==> #[trigger] x5@[k] == g_x5(cf@[k], t),
  forall|k: int| vx_i25 <= k < NUM_BANDS ==> #[trigger] x5@[k] == g_bw(cf@[k]),
--- loop 26
invariant y@.len() == NUM_BANDS, 0 <= vx_i26 <= NUM_BANDS, cf@.len() == NUM_BANDS,
--- loop 27
invariant gain@.len() == NUM_BANDS, 0 <= vx_i27 <= NUM_BANDS, cf@.len() == NUM_BANDS,
  forall|k: int| 0 <= k < vx_i27 ==> #[trigger] gain@[k] == g_gain(cf@[k], t),
--- loop 28
invariant 0 <= vx_i28 <= NUM_BANDS, vf_coeffs.rows() == NUM_BANDS, vf_coeffs.cols() == 10,
  forall|k: int, j: int| 0 <= k < vx_i28 && 0 <= j < 10 ==> #[trigger] vf_coeffs.at(k, j) == erb_row(cf@[k], t)[j],
--- loop 28 after
proof {
  let n = NUM_BANDS as int; let ce = erb_centers(n, low_freq, high_freq);
  assert(high_freq == erb_top(sample_rate, vx_hi));
  assert(vf_coeffs.eqv(&erb_coefs(n, sample_rate, low_freq, vx_hi))); ax_ext2(vf_coeffs, erb_coefs(n, sample_rate, low_freq, vx_hi));
  assert(cf@.map_values(|x: Complex64| c_re(x)) =~= ce);
}
--- start
let ghost vx_hi = high_freq;
