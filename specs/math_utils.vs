#source visqol-rs/src/math_utils.rs
#module math_utils
=== prelude
/// fitted exponential: a + e^(b (x - x0))
pub open spec fn exp_fit(x: f64, a: f64, b: f64, x0: f64) -> f64 { fadd(a, f_exp(fmul(b, fsub(x, x0)))) }
/// 16 bit PCM as reals in [-1, 1]
pub open spec fn pcm_real(s: Seq<i16>) -> Seq<f64> { s.map_values(|x: i16| fdiv(i2f(x as int), 32767.0f64)) }
/// a signal divided by its maximum
pub open spec fn normed(s: Seq<f64>) -> Seq<f64> { s.map_values(|x: f64| fdiv(x, nd_max(s))) }
=== fn normalize_signal
requires signal@.len() > 0,
ensures r@ == normed(signal@),
=== fn next_pow_two
requires input <= 0x8000_0000_0000_0000usize,
ensures is_next_pow2(input as int, r as int), r == np2(input as nat),
=== fn exponential_from_fit
ensures r == exp_fit(x, a, b, x_0),
=== fn normalize_int16_to_double
ensures r@ == pcm_real(input@),
--- loop 0
invariant vx_c0@ == pcm_real(input@.subrange(0, vx_i0 as int)),
--- loop 0 end
proof { assert(pcm_real(input@.subrange(0, vx_i0 as int)) =~= pcm_real(input@.subrange(0, vx_i0 - 1)).push(fdiv(i2f(input@[vx_i0 - 1] as int), 32767.0f64))); }
--- loop 0 after
proof { assert(input@.subrange(0, vx_i0 as int) =~= input@); }
=== fn get_max
requires mat@.len() > 0,
ensures r == nd_max(mat@),
