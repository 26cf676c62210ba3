use vstd::prelude::*;
verus! {
global size_of usize == 8;

// ---------------------------------------------------------------------------
// vx: machine arithmetic, casts and the helpers the extractor lowers to
// ---------------------------------------------------------------------------
pub mod vx {
use vstd::prelude::*;
use vstd::float::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;

// --- IEEE-754 double arithmetic: native operators are the IEEE operations ---
pub open spec fn fadd(a: f64, b: f64) -> f64 { a.ieee_add(b) }
pub open spec fn fsub(a: f64, b: f64) -> f64 { a.ieee_sub(b) }
pub open spec fn fmul(a: f64, b: f64) -> f64 { a.ieee_mul(b) }
pub open spec fn fdiv(a: f64, b: f64) -> f64 { a.ieee_div(b) }
pub open spec fn fneg(a: f64) -> f64 { a.ieee_neg() }
pub open spec fn flt(a: f64, b: f64) -> bool { a.ieee_lt(b) }
pub open spec fn fle(a: f64, b: f64) -> bool { a.ieee_le(b) }
pub open spec fn feq(a: f64, b: f64) -> bool { a.ieee_eq(b) }
pub open spec fn fnan(a: f64) -> bool { a.ieee_is_nan() }

pub broadcast axiom fn ax_add_req(a: f64, b: f64) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_sub_req(a: f64, b: f64) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn ax_mul_req(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ax_div_req(a: f64, b: f64) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn ax_neg_req(a: f64) ensures #[trigger] a.neg_req();
pub broadcast axiom fn ax_add(a: f64, b: f64, r: f64) ensures #[trigger] add_ensures(a, b, r) ==> r == fadd(a, b);
pub broadcast axiom fn ax_sub(a: f64, b: f64, r: f64) ensures #[trigger] sub_ensures(a, b, r) ==> r == fsub(a, b);
pub broadcast axiom fn ax_mul(a: f64, b: f64, r: f64) ensures #[trigger] mul_ensures(a, b, r) ==> r == fmul(a, b);
pub broadcast axiom fn ax_div(a: f64, b: f64, r: f64) ensures #[trigger] div_ensures(a, b, r) ==> r == fdiv(a, b);
pub broadcast axiom fn ax_neg(a: f64, r: f64) ensures #[trigger] neg_ensures(a, r) ==> r == fneg(a);
pub broadcast axiom fn ax_lt(a: f64, b: f64, r: bool) ensures #[trigger] lt_ensures(a, b, r) ==> r == flt(a, b);
pub broadcast axiom fn ax_gt(a: f64, b: f64, r: bool) ensures #[trigger] gt_ensures(a, b, r) ==> r == flt(b, a);
pub broadcast axiom fn ax_le(a: f64, b: f64, r: bool) ensures #[trigger] le_ensures(a, b, r) ==> r == fle(a, b);
pub broadcast axiom fn ax_ge(a: f64, b: f64, r: bool) ensures #[trigger] ge_ensures(a, b, r) ==> r == fle(b, a);
pub broadcast axiom fn ax_eq(a: f64, b: f64, r: bool) ensures #[trigger] eq_ensures(a, b, r) ==> r == feq(a, b);
pub broadcast axiom fn ax_ne(a: f64, b: f64, r: bool) ensures #[trigger] ne_ensures(a, b, r) ==> r == !feq(a, b);
/// the order of the doubles: comparisons are negations of each other exactly when no operand is NaN
pub broadcast proof fn lemma_order_lt(a: f64, b: f64) ensures #[trigger] flt(a, b) == (!fle(b, a) && !fnan(a) && !fnan(b))
{ assert(a.ieee_lt(b) == (!b.ieee_le(a) && !a.ieee_is_nan() && !b.ieee_is_nan())) by (bit_vector); }
pub broadcast proof fn lemma_order_le(a: f64, b: f64) ensures #[trigger] fle(a, b) == (!flt(b, a) && !fnan(a) && !fnan(b))
{ assert(a.ieee_le(b) == (!b.ieee_lt(a) && !a.ieee_is_nan() && !b.ieee_is_nan())) by (bit_vector); }
/// the sum and the product do not depend on the order of the operands
pub broadcast axiom fn ax_add_comm(a: f64, b: f64) ensures #[trigger] a.ieee_add(b) == b.ieee_add(a);
pub broadcast axiom fn ax_mul_comm(a: f64, b: f64) ensures #[trigger] a.ieee_mul(b) == b.ieee_mul(a);
pub broadcast group vx_group {
    ax_add_comm, ax_mul_comm, ax_add_req, ax_sub_req, ax_mul_req, ax_div_req, ax_neg_req,
    ax_add, ax_sub, ax_mul, ax_div, ax_neg, ax_lt, ax_gt, ax_le, ax_ge, ax_eq, ax_ne, lemma_order_lt, lemma_order_le, ax_powi2, crate::ext::mk2_group,
}

pub const F64_MIN: f64 = -1.7976931348623157e308;
pub const F64_MAX: f64 = 1.7976931348623157e308;
pub const F64_PI: f64 = 3.14159265358979323846264338327950288;
pub const F64_EPSILON: f64 = 2.2204460492503131e-16;

// --- libm and core float functions: uninterpreted, functional -------------
pub uninterp spec fn f_sqrt(a: f64) -> f64;
pub uninterp spec fn f_log10(a: f64) -> f64;
pub uninterp spec fn f_log2(a: f64) -> f64;
pub uninterp spec fn f_ln(a: f64) -> f64;
pub uninterp spec fn f_exp(a: f64) -> f64;
pub uninterp spec fn f_exp2(a: f64) -> f64;
pub uninterp spec fn f_powf(a: f64, b: f64) -> f64;
pub uninterp spec fn f_powi(a: f64, b: i32) -> f64;
pub uninterp spec fn f_floor(a: f64) -> f64;
pub uninterp spec fn f_ceil(a: f64) -> f64;
pub uninterp spec fn f_round(a: f64) -> f64;
pub uninterp spec fn f_abs(a: f64) -> f64;
pub uninterp spec fn f_signum(a: f64) -> f64;
pub uninterp spec fn f_max(a: f64, b: f64) -> f64;
pub uninterp spec fn f_min(a: f64, b: f64) -> f64;
/// exponent of the binary normal form, as `frexp` computes it
pub open spec fn f_exponent(x: f64) -> i32 { f2i32(fadd(f_floor(f_log2(f_abs(x))), 1.0f64)) }
/// for whole numbers up to 2^32 it is the number of binary digits (log2 is accurate enough)
pub axiom fn ax_exponent(k: int)
    requires 1 <= k <= 0x1_0000_0000
    ensures 1 <= f_exponent(i2f(k)) <= 33, ipow(2, (f_exponent(i2f(k)) - 1) as nat) <= k < ipow(2, f_exponent(i2f(k)) as nat), !feq(0.0f64, i2f(k));
/// rounding is monotone: adding to the larger number gives no smaller sum
pub axiom fn ax_add_mono(x: f64, a: f64, b: f64)
    requires fle(a, b), !fnan(fadd(x, a)), !fnan(fadd(x, b))
    ensures fle(fadd(x, a), fadd(x, b));
pub proof fn lemma_fle_trans(a: f64, b: f64, c: f64) requires fle(a, b), fle(b, c) ensures fle(a, c) { assert(a.ieee_le(b) && b.ieee_le(c) ==> a.ieee_le(c)) by (bit_vector); }
pub proof fn lemma_fle_total(a: f64, b: f64) requires !fnan(a), !fnan(b) ensures flt(a, b) ==> fle(a, b), !flt(a, b) ==> fle(b, a), fle(a, a)
{ assert(!a.ieee_is_nan() && !b.ieee_is_nan() ==> (a.ieee_lt(b) ==> a.ieee_le(b)) && (!a.ieee_lt(b) ==> b.ieee_le(a)) && a.ieee_le(a)) by (bit_vector); }
/// equal numbers have the same absolute value
pub axiom fn ax_abs_eq(a: f64, b: f64) ensures feq(a, b) ==> f_abs(a) == f_abs(b);
pub open spec fn f_clamp(x: f64, lo: f64, hi: f64) -> f64 {
    if flt(x, lo) { lo } else if flt(hi, x) { hi } else { x }
}
pub assume_specification [f64::sqrt](a: f64) -> (r: f64) ensures r == f_sqrt(a);
pub assume_specification [f64::log10](a: f64) -> (r: f64) ensures r == f_log10(a);
pub assume_specification [f64::log2](a: f64) -> (r: f64) ensures r == f_log2(a);
pub assume_specification [f64::ln](a: f64) -> (r: f64) ensures r == f_ln(a);
pub assume_specification [f64::exp](a: f64) -> (r: f64) ensures r == f_exp(a);
pub assume_specification [f64::exp2](a: f64) -> (r: f64) ensures r == f_exp2(a);
pub assume_specification [f64::powf](a: f64, b: f64) -> (r: f64) ensures r == f_powf(a, b);
pub assume_specification [f64::powi](a: f64, b: i32) -> (r: f64) ensures r == f_powi(a, b);
pub assume_specification [f64::floor](a: f64) -> (r: f64) ensures r == f_floor(a);
pub assume_specification [f64::ceil](a: f64) -> (r: f64) ensures r == f_ceil(a);
pub assume_specification [f64::round](a: f64) -> (r: f64) ensures r == f_round(a);
pub assume_specification [f64::abs](a: f64) -> (r: f64) ensures r == f_abs(a);
pub assume_specification [f64::signum](a: f64) -> (r: f64) ensures r == f_signum(a);
pub assume_specification [f64::max](a: f64, b: f64) -> (r: f64) ensures r == f_max(a, b);
pub assume_specification [f64::min](a: f64, b: f64) -> (r: f64) ensures r == f_min(a, b);
pub assume_specification [f64::clamp](a: f64, lo: f64, hi: f64) -> (r: f64)
    requires fle(lo, hi) ensures r == f_clamp(a, lo, hi);
/// `f64::max` returns one of its operands, and no operand exceeds it.
pub axiom fn ax_fmax(a: f64, b: f64)
    requires !fnan(a), !fnan(b)
    ensures f_max(a, b) == a || f_max(a, b) == b, fle(a, f_max(a, b)), fle(b, f_max(a, b));
/// if one operand is NaN the other one is returned
pub axiom fn ax_fmax_nan(a: f64, b: f64)
    requires !fnan(a), fnan(b)
    ensures f_max(a, b) == a, f_max(b, a) == a;
pub axiom fn ax_fmin(a: f64, b: f64)
    requires !fnan(a), !fnan(b)
    ensures f_min(a, b) == a || f_min(a, b) == b, fle(f_min(a, b), a), fle(f_min(a, b), b);
pub axiom fn ax_fabs(a: f64)
    requires !fnan(a)
    ensures !fnan(f_abs(a)), fle(0.0f64, f_abs(a));
pub axiom fn ax_sqrt(a: f64)
    requires !fnan(a), fle(0.0f64, a)
    ensures !fnan(f_sqrt(a)), fle(0.0f64, f_sqrt(a));

/// a finite number that is not negative, divided by a positive one, is not negative
pub axiom fn ax_div_sign(a: f64, b: f64)
    requires fle(0.0f64, a), fle(a, F64_MAX), flt(0.0f64, b)
    ensures !fnan(fdiv(a, b)), fle(0.0f64, fdiv(a, b));
/// conversion keeps the sign
pub axiom fn ax_i2f_sign(a: int)
    requires 0 <= a <= 0xffff_ffff_ffff_ffff
    ensures !fnan(i2f(a)), fle(0.0f64, i2f(a)), fle(i2f(a), F64_MAX), a > 0 ==> flt(0.0f64, i2f(a));

pub uninterp spec fn f_inf() -> f64;
pub uninterp spec fn f_neg_inf() -> f64;
pub uninterp spec fn f_nan() -> f64;
#[verifier::external_body] pub fn f64_infinity() -> (r: f64) ensures r == f_inf() { f64::INFINITY }
#[verifier::external_body] pub fn f64_neg_infinity() -> (r: f64) ensures r == f_neg_inf() { f64::NEG_INFINITY }
#[verifier::external_body] pub fn f64_nan() -> (r: f64) ensures r == f_nan() { f64::NAN }
/// powi(x, 2) is x * x
pub broadcast axiom fn ax_powi2(a: f64) ensures #[trigger] f_powi(a, 2) == fmul(a, a);

// --- integer helpers of core --------------------------------------------------
pub assume_specification [i64::unsigned_abs](a: i64) -> (r: u64) ensures r == if a >= 0 { a as int } else { -a };
pub assume_specification [i64::abs](a: i64) -> (r: i64) requires a != i64::MIN ensures r == if a >= 0 { a as int } else { -a };
pub open spec fn ipow(a: int, n: nat) -> int decreases n { if n == 0 { 1 } else { a * ipow(a, (n - 1) as nat) } }
pub proof fn lemma_ipow2_mono(a: nat, b: nat) requires a <= b ensures 1 <= ipow(2, a) <= ipow(2, b) decreases b
{ if b > 0 { if a < b { lemma_ipow2_mono(a, (b - 1) as nat); } else { lemma_ipow2_mono((a - 1) as nat, (b - 1) as nat); } } }
/// the power of two above k is the one for k + 1
pub proof fn lemma_np2_above(k: int, e: nat) requires e >= 1, ipow(2, (e - 1) as nat) <= k < ipow(2, e) ensures np2((k + 1) as nat) == ipow(2, e)
{
    lemma_ipow2_mono(0, (e - 1) as nat);
    let r = ipow(2, e);
    assert(is_pow2(r));
    assert forall|p: int| is_pow2(p) && p >= k + 1 implies r <= p by {
        let j = choose|j: nat| p == #[trigger] ipow(2, j);
        if j < e { lemma_ipow2_mono(j, (e - 1) as nat); } else { lemma_ipow2_mono(e, j); }
    }
    lemma_np2((k + 1) as nat, r as nat);
}
pub proof fn lemma_np2_self(p: nat) requires is_pow2(p as int) ensures np2(p) == p { assert(is_next_pow2(p as int, p as int)); lemma_np2(p, p); }
pub open spec fn is_pow2(x: int) -> bool { exists|k: nat| x == #[trigger] ipow(2, k) }
/// smallest power of two that is at least `a`
pub open spec fn is_next_pow2(a: int, r: int) -> bool { is_pow2(r) && r >= a && forall|p: int| is_pow2(p) && p >= a ==> r <= p }
pub assume_specification [usize::div_ceil](a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (a + b - 1) / (b as int);
pub assume_specification [usize::next_power_of_two](a: usize) -> (r: usize) requires a <= 0x8000_0000_0000_0000usize ensures is_next_pow2(a as int, r as int), r == np2(a as nat); // np2 is unique: lemma_np2
pub open spec fn np2(n: nat) -> nat { choose|r: nat| is_next_pow2(n as int, r as int) }
pub proof fn lemma_np2(n: nat, r: nat) requires is_next_pow2(n as int, r as int) ensures np2(n) == r { let q = np2(n); assert(is_next_pow2(n as int, q as int)); }
pub assume_specification [i64::pow](a: i64, n: u32) -> (r: i64) requires i64::MIN <= ipow(a as int, n as nat) <= i64::MAX ensures r == ipow(a as int, n as nat);
pub assume_specification [usize::pow](a: usize, n: u32) -> (r: usize) requires ipow(a as int, n as nat) <= usize::MAX ensures r == ipow(a as int, n as nat);

// --- float and integer functions of core the code does not use today (so that a change that uses them is decided)
pub uninterp spec fn f_trunc(a: f64) -> f64;
pub assume_specification [f64::trunc](a: f64) -> (r: f64) ensures r == f_trunc(a);
pub uninterp spec fn f_fract(a: f64) -> f64;
pub assume_specification [f64::fract](a: f64) -> (r: f64) ensures r == f_fract(a);
pub uninterp spec fn f_recip(a: f64) -> f64;
pub assume_specification [f64::recip](a: f64) -> (r: f64) ensures r == f_recip(a);
pub uninterp spec fn f_sin(a: f64) -> f64;
pub assume_specification [f64::sin](a: f64) -> (r: f64) ensures r == f_sin(a);
pub uninterp spec fn f_cos(a: f64) -> f64;
pub assume_specification [f64::cos](a: f64) -> (r: f64) ensures r == f_cos(a);
pub uninterp spec fn f_tan(a: f64) -> f64;
pub assume_specification [f64::tan](a: f64) -> (r: f64) ensures r == f_tan(a);
pub uninterp spec fn f_asin(a: f64) -> f64;
pub assume_specification [f64::asin](a: f64) -> (r: f64) ensures r == f_asin(a);
pub uninterp spec fn f_acos(a: f64) -> f64;
pub assume_specification [f64::acos](a: f64) -> (r: f64) ensures r == f_acos(a);
pub uninterp spec fn f_atan(a: f64) -> f64;
pub assume_specification [f64::atan](a: f64) -> (r: f64) ensures r == f_atan(a);
pub uninterp spec fn f_sinh(a: f64) -> f64;
pub assume_specification [f64::sinh](a: f64) -> (r: f64) ensures r == f_sinh(a);
pub uninterp spec fn f_cosh(a: f64) -> f64;
pub assume_specification [f64::cosh](a: f64) -> (r: f64) ensures r == f_cosh(a);
pub uninterp spec fn f_tanh(a: f64) -> f64;
pub assume_specification [f64::tanh](a: f64) -> (r: f64) ensures r == f_tanh(a);
pub uninterp spec fn f_ln_1p(a: f64) -> f64;
pub assume_specification [f64::ln_1p](a: f64) -> (r: f64) ensures r == f_ln_1p(a);
pub uninterp spec fn f_exp_m1(a: f64) -> f64;
pub assume_specification [f64::exp_m1](a: f64) -> (r: f64) ensures r == f_exp_m1(a);
pub uninterp spec fn f_to_radians(a: f64) -> f64;
pub assume_specification [f64::to_radians](a: f64) -> (r: f64) ensures r == f_to_radians(a);
pub uninterp spec fn f_to_degrees(a: f64) -> f64;
pub assume_specification [f64::to_degrees](a: f64) -> (r: f64) ensures r == f_to_degrees(a);
pub uninterp spec fn f_cbrt(a: f64) -> f64;
pub assume_specification [f64::cbrt](a: f64) -> (r: f64) ensures r == f_cbrt(a);
pub uninterp spec fn f_hypot(a: f64, b: f64) -> f64;
pub assume_specification [f64::hypot](a: f64, b: f64) -> (r: f64) ensures r == f_hypot(a, b);
pub uninterp spec fn f_rem_euclid(a: f64, b: f64) -> f64;
pub assume_specification [f64::rem_euclid](a: f64, b: f64) -> (r: f64) ensures r == f_rem_euclid(a, b);
pub uninterp spec fn f_atan2(a: f64, b: f64) -> f64;
pub assume_specification [f64::atan2](a: f64, b: f64) -> (r: f64) ensures r == f_atan2(a, b);
pub uninterp spec fn f_copysign(a: f64, b: f64) -> f64;
pub assume_specification [f64::copysign](a: f64, b: f64) -> (r: f64) ensures r == f_copysign(a, b);
pub uninterp spec fn f_log(a: f64, b: f64) -> f64;
pub assume_specification [f64::log](a: f64, b: f64) -> (r: f64) ensures r == f_log(a, b);
pub uninterp spec fn f_mul_add(a: f64, b: f64, c: f64) -> f64;
pub assume_specification [f64::mul_add](a: f64, b: f64, c: f64) -> (r: f64) ensures r == f_mul_add(a, b, c);
pub assume_specification [f64::is_nan](a: f64) -> (r: bool) ensures r == fnan(a);
pub uninterp spec fn f_is_finite(a: f64) -> bool;
pub assume_specification [f64::is_finite](a: f64) -> (r: bool) ensures r == f_is_finite(a), r ==> !fnan(a);
pub uninterp spec fn f_is_infinite(a: f64) -> bool;
pub assume_specification [f64::is_infinite](a: f64) -> (r: bool) ensures r == f_is_infinite(a), r ==> !fnan(a);
pub uninterp spec fn f_is_sign_negative(a: f64) -> bool;
pub assume_specification [f64::is_sign_negative](a: f64) -> (r: bool) ensures r == f_is_sign_negative(a);
pub assume_specification [f64::is_sign_positive](a: f64) -> (r: bool) ensures r == !f_is_sign_negative(a);
pub assume_specification [i32::abs](a: i32) -> (r: i32) requires a != i32::MIN ensures r == if a >= 0 { a as int } else { -a };
pub assume_specification [i32::unsigned_abs](a: i32) -> (r: u32) ensures r == if a >= 0 { a as int } else { -a };
pub assume_specification [usize::abs_diff](a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a - b } else { b - a };
pub assume_specification [u32::abs_diff](a: u32, b: u32) -> (r: u32) ensures r == if a >= b { a - b } else { b - a };
pub assume_specification [usize::is_power_of_two](a: usize) -> (r: bool) ensures r == is_pow2(a as int);
pub assume_specification [i64::rem_euclid](a: i64, b: i64) -> (r: i64) requires b > 0 ensures r == (a as int) % (b as int);
pub assume_specification [i32::rem_euclid](a: i32, b: i32) -> (r: i32) requires b > 0 ensures r == (a as int) % (b as int);
pub assume_specification<T> [<[T]>::swap](s: &mut [T], a: usize, b: usize) requires a < old(s)@.len(), b < old(s)@.len() ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T> [<[T]>::reverse](s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T> [core::mem::replace](d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s;

// --- casts (`as`): exact Rust semantics for integers, uninterpreted for floats -
pub uninterp spec fn i2f(a: int) -> f64;
pub uninterp spec fn f2usize(a: f64) -> usize;
pub uninterp spec fn f2i64(a: f64) -> i64;
pub uninterp spec fn f2i32(a: f64) -> i32;
pub uninterp spec fn f2i16(a: f64) -> i16;
pub uninterp spec fn f2f32(a: f64) -> f32;
pub uninterp spec fn f32tof(a: f32) -> f64;
pub axiom fn ax_f32_zero() ensures f32tof(0.0f32) == 0.0f64;
/// `as` is exact where it can be
pub axiom fn ax_f2i16_i2f(a: int)
    ensures -32768 <= a <= 32767 ==> f2i16(i2f(a)) == a;

/// 16 bit integers are exact doubles
pub axiom fn ax_i2f_i16(a: int) ensures -32768 <= a <= 32767 ==> !fnan(i2f(a)) && fle(i2f(a), 32767.0f64) && fle(-32768.0f64, i2f(a));
pub axiom fn ax_i2f_32767() ensures i2f(32767) == 32767.0f64;

pub trait VxAsF64: Sized { spec fn f64_of(self) -> f64; fn vx_as_f64(self) -> (r: f64) ensures r == self.f64_of(); }
macro_rules! as_f64 { ($($t:ty),*) => { verus!{ $(
impl VxAsF64 for $t { open spec fn f64_of(self) -> f64 { i2f(self as int) } #[verifier::external_body] fn vx_as_f64(self) -> (r: f64) { self as f64 } }
)* } } }
as_f64!(usize, u64, u32, u16, u8, i64, i32, i16, i8);
impl VxAsF64 for f32 { open spec fn f64_of(self) -> f64 { f32tof(self) } #[verifier::external_body] fn vx_as_f64(self) -> (r: f64) { self as f64 } }
impl VxAsF64 for f64 { open spec fn f64_of(self) -> f64 { self } fn vx_as_f64(self) -> (r: f64) { self } }

pub trait VxAsF32: Sized { spec fn f32_of(self) -> f32; fn vx_as_f32(self) -> (r: f32) ensures r == self.f32_of(); }
impl VxAsF32 for f64 { open spec fn f32_of(self) -> f32 { f2f32(self) } #[verifier::external_body] fn vx_as_f32(self) -> (r: f32) { self as f32 } }

macro_rules! int_cast { ($tr:ident, $sp:ident, $m:ident, $to:ty, $f:ident, $($t:ty),*) => { verus!{
pub trait $tr: Sized { spec fn $sp(self) -> $to; fn $m(self) -> (r: $to) ensures r == self.$sp(); }
$( impl $tr for $t { open spec fn $sp(self) -> $to { self as $to } #[verifier::truncate] fn $m(self) -> (r: $to) { self as $to } } )*
impl $tr for f64 { open spec fn $sp(self) -> $to { $f(self) } #[verifier::external_body] fn $m(self) -> (r: $to) { self as $to } }
} } }
int_cast!(VxAsUsize, usize_of, vx_as_usize, usize, f2usize, usize, u64, u32, u16, i64, i32, i16, u8, i8);
int_cast!(VxAsI64, i64_of, vx_as_i64, i64, f2i64, usize, u64, u32, u16, i64, i32, i16, u8, i8);
int_cast!(VxAsI32, i32_of, vx_as_i32, i32, f2i32, usize, u64, u32, u16, i64, i32, i16, u8, i8);
int_cast!(VxAsI16, i16_of, vx_as_i16, i16, f2i16, usize, u64, u32, u16, i64, i32, i16, u8, i8);
pub uninterp spec fn f2u64(a: f64) -> u64;
pub uninterp spec fn f2u32(a: f64) -> u32;
pub uninterp spec fn f2u16(a: f64) -> u16;
int_cast!(VxAsU64, u64_of, vx_as_u64, u64, f2u64, usize, u64, u32, u16, i64, i32, i16, u8, i8);
int_cast!(VxAsU32, u32_of, vx_as_u32, u32, f2u32, usize, u64, u32, u16, i64, i32, i16, u8, i8);
int_cast!(VxAsU16, u16_of, vx_as_u16, u16, f2u16, usize, u64, u32, u16, i64, i32, i16, u8, i8);

// --- lossless conversions written f64::from(x) ----------------------------------
macro_rules! f64_from { ($($t:ty),*) => { verus!{ $(
pub assume_specification [<f64 as From<$t>>::from](a: $t) -> (r: f64) ensures r == a.f64_of();
)* } } }
f64_from!(f32, u32, i32, u16, i16, u8, i8);

pub trait VxNeg: Sized { spec fn neg_pre(self) -> bool; spec fn neg_of(self) -> Self; fn vx_neg(self) -> (r: Self) requires self.neg_pre() ensures r == self.neg_of(); }
impl VxNeg for f64 { open spec fn neg_pre(self) -> bool { true } open spec fn neg_of(self) -> f64 { fneg(self) } #[verifier::external_body] fn vx_neg(self) -> (r: f64) { -self } }
impl VxNeg for i64 { open spec fn neg_pre(self) -> bool { self != i64::MIN } open spec fn neg_of(self) -> i64 { (-self) as i64 } fn vx_neg(self) -> (r: i64) { -self } }
impl VxNeg for i32 { open spec fn neg_pre(self) -> bool { self != i32::MIN } open spec fn neg_of(self) -> i32 { (-self) as i32 } fn vx_neg(self) -> (r: i32) { -self } }

// --- panics: reaching one is a failed obligation -------------------------------
pub fn vx_assert(c: bool) requires c ensures c {}
#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T) requires false { panic!() }
pub trait VxUnwrap<T>: Sized { spec fn has(self) -> bool; spec fn val(self) -> T; fn vx_unwrap(self) -> (r: T) requires self.has() ensures r == self.val(); }
impl<T> VxUnwrap<T> for Option<T> { open spec fn has(self) -> bool { self.is_some() } open spec fn val(self) -> T { self->0 } fn vx_unwrap(self) -> (r: T) { match self { Some(x) => x, None => vx_panic() } } }
impl<T, E> VxUnwrap<T> for Result<T, E> { open spec fn has(self) -> bool { self.is_ok() } open spec fn val(self) -> T { self->Ok_0 } fn vx_unwrap(self) -> (r: T) { match self { Ok(x) => x, Err(_) => vx_panic() } } }

pub open spec fn dec(x: int) -> int { if x >= 0 { x } else { 0 } }
// --- loops ------------------------------------------------------------------
/// index of the next element of a `step_by` iteration (saturating: the loop
/// condition compares it with a bound that is at most usize::MAX)
pub fn vx_step(i: usize, s: usize) -> (r: usize) ensures r == if i + s > usize::MAX { usize::MAX as int } else { i + s } {
    if i > usize::MAX - s { usize::MAX } else { i + s }
}

/// index of the first element after `skip`
pub fn vx_skip(i: usize, n: usize, end: usize) -> (r: usize) ensures r == if i >= end { i as int } else if i + n <= end { i + n } else { end as int } {
    if i >= end { i } else if n <= end - i { i + n } else { end }
}

// --- slices and vectors --------------------------------------------------------
pub open spec fn fsum(s: Seq<f64>) -> f64 decreases s.len() { if s.len() == 0 { -0.0f64 } else { fadd(fsum(s.drop_last()), s.last()) } }
#[verifier::external_body]
pub fn vx_sum(v: &Vec<f64>) -> (r: f64) ensures r == fsum(v@) { unimplemented!() }
pub trait VxFsum { spec fn elems(&self) -> Seq<f64>; fn vx_fsum(&self) -> (r: f64) ensures r == fsum(self.elems()); }
impl VxFsum for [f64] { open spec fn elems(&self) -> Seq<f64> { self@ } #[verifier::external_body] fn vx_fsum(&self) -> (r: f64) { unimplemented!() } }
impl VxFsum for Vec<f64> { open spec fn elems(&self) -> Seq<f64> { self@ } #[verifier::external_body] fn vx_fsum(&self) -> (r: f64) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_sub<T>(v: &[T], a: usize, b: usize) -> (r: &[T]) requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { &v[a..b] }
pub trait VxSlice<T> { spec fn sview(&self) -> Seq<T>; fn vx_window(&self, i: usize, w: usize) -> (r: &[T]) requires i + w <= self.sview().len() ensures r@ == self.sview().subrange(i as int, i + w);
   fn vx_chunk(&self, i: usize, n: usize) -> (r: &[T]) requires i <= self.sview().len() ensures r@ == self.sview().subrange(i as int, if i + n <= self.sview().len() { i + n } else { self.sview().len() as int }); }
impl<T> VxSlice<T> for Vec<T> { open spec fn sview(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_window(&self, i: usize, w: usize) -> (r: &[T]) { unimplemented!() } #[verifier::external_body] fn vx_chunk(&self, i: usize, w: usize) -> (r: &[T]) { unimplemented!() } }
impl<T> VxSlice<T> for [T] { open spec fn sview(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_window(&self, i: usize, w: usize) -> (r: &[T]) { unimplemented!() } #[verifier::external_body] fn vx_chunk(&self, i: usize, w: usize) -> (r: &[T]) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_fill_range(v: &mut Vec<f64>, a: usize, b: usize, x: f64)
    requires a <= b <= old(v)@.len()
    ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> final(v)@[i] == (if a <= i < b { x } else { old(v)@[i] })
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_vec<T: Clone>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { vec![x; n] }
pub uninterp spec fn f_sorted(s: Seq<f64>) -> Seq<f64>;
#[verifier::external_body]
pub fn vx_sort_f64(v: &mut Vec<f64>) // panics on NaN when there are at least two elements
    ensures final(v)@ == f_sorted(old(v)@) { unimplemented!() }
/// the permutation of `s` in non-decreasing order (stable sort with partial_cmp)
pub axiom fn ax_sorted(s: Seq<f64>)
    requires forall|i: int| 0 <= i < s.len() ==> !fnan(#[trigger] s[i])
    ensures f_sorted(s).len() == s.len(), f_sorted(s).to_multiset() == s.to_multiset(),
        forall|i: int, j: int| 0 <= i <= j < s.len() ==> fle(f_sorted(s)[i], f_sorted(s)[j]);
pub trait VxVecOps<T> { spec fn vview(&self) -> Seq<T>; 
   fn vx_resize(&mut self, n: usize, x: T) ensures final(self).vview() == if n <= old(self).vview().len() { old(self).vview().subrange(0, n as int) } else { old(self).vview() + Seq::new((n - old(self).vview().len()) as nat, |i: int| x) };
   fn vx_extend(&mut self, o: Vec<T>) ensures final(self).vview() == old(self).vview() + o@; }
impl<T> VxVecOps<T> for Vec<T> { open spec fn vview(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_resize(&mut self, n: usize, x: T) { unimplemented!() } #[verifier::external_body] fn vx_extend(&mut self, o: Vec<T>) { unimplemented!() } }
pub trait VxToVec<T> { spec fn tv(&self) -> Seq<T>; fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.tv(); }
impl<T: Copy> VxToVec<T> for [T] { open spec fn tv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T: Copy> VxToVec<T> for Vec<T> { open spec fn tv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
/// `clone` of the crate's and ndarray's value types: an equal value
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
macro_rules! vclone { ($($t:ty),*) => { verus!{ $( impl VxClone for $t { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } } )* } } }
vclone!(Vec<f64>, Vec<usize>, String, crate::patch_similarity_comparator::PatchSimilarityResult, crate::ext::Array1<f64>, crate::ext::Array2<f64>, Vec<crate::ext::Complex64>);
impl<const N: usize> VxClone for [crate::ext::Complex64; N] { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl<const N: usize> VxClone for [f64; N] { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }

// --- f64::partial_cmp -----------------------------------------------------------
pub open spec fn f_pcmp(a: f64, b: f64) -> Option<core::cmp::Ordering> {
    if flt(a, b) { Some(core::cmp::Ordering::Less) } else if flt(b, a) { Some(core::cmp::Ordering::Greater) } else if feq(a, b) { Some(core::cmp::Ordering::Equal) } else { None }
}
pub trait VxPcmp { spec fn pv(&self) -> f64; fn vx_partial_cmp(&self, o: &f64) -> (r: Option<core::cmp::Ordering>) ensures r == f_pcmp(self.pv(), *o); }
impl VxPcmp for f64 { open spec fn pv(&self) -> f64 { *self } #[verifier::external_body] fn vx_partial_cmp(&self, o: &f64) -> (r: Option<core::cmp::Ordering>) { self.partial_cmp(o) } }

// --- errors --------------------------------------------------------------------
pub enum VxError { Visqol(crate::visqol_error::VisqolError), Hound(crate::ext::HoundError), Other }
pub trait VxFrom<S>: Sized { spec fn from_of(s: S) -> Self; fn vx_make(s: S) -> (r: Self) ensures r == Self::from_of(s); }
impl VxFrom<VxError> for VxError { open spec fn from_of(s: VxError) -> VxError { s } fn vx_make(s: VxError) -> (r: VxError) { s } }
impl VxFrom<crate::visqol_error::VisqolError> for VxError { open spec fn from_of(s: crate::visqol_error::VisqolError) -> VxError { VxError::Visqol(s) } fn vx_make(s: crate::visqol_error::VisqolError) -> (r: VxError) { VxError::Visqol(s) } }
impl VxFrom<crate::visqol_error::VisqolError> for crate::visqol_error::VisqolError { open spec fn from_of(s: crate::visqol_error::VisqolError) -> Self { s } fn vx_make(s: crate::visqol_error::VisqolError) -> (r: Self) { s } }
impl VxFrom<crate::ext::HoundError> for VxError { open spec fn from_of(s: crate::ext::HoundError) -> VxError { VxError::Hound(s) } fn vx_make(s: crate::ext::HoundError) -> (r: VxError) { VxError::Hound(s) } }
pub fn vx_from<S, T: VxFrom<S>>(s: S) -> (r: T) ensures r == T::from_of(s) { T::vx_make(s) }

pub proof fn lemma_mul_comm(a: f64, b: f64) ensures fmul(a, b) == fmul(b, a) { broadcast use crate::vx::ax_mul_comm; }
pub proof fn lemma_add_comm(a: f64, b: f64) ensures fadd(a, b) == fadd(b, a) { broadcast use crate::vx::ax_add_comm; }
pub proof fn lemma_1_le_5() ensures fle(1.0f64, 5.0f64) { assert(fle(1.0f64, 5.0f64)) by (bit_vector); }
/// clamping to [1, 5] a number that is not NaN gives a number in [1, 5]
pub proof fn lemma_clamp(x: f64) ensures !fnan(x) ==> fle(1.0f64, f_clamp(x, 1.0f64, 5.0f64)) && fle(f_clamp(x, 1.0f64, 5.0f64), 5.0f64) {
    assert(!x.ieee_is_nan() ==> (x.ieee_lt(1.0f64) || 1.0f64.ieee_le(x)) && (5.0f64.ieee_lt(x) || x.ieee_le(5.0f64)) && 1.0f64.ieee_le(1.0f64) && 1.0f64.ieee_le(5.0f64) && 5.0f64.ieee_le(5.0f64)) by (bit_vector);
}
pub open spec fn same_f64(x: f64, y: f64) -> bool { x == y }
/// a struct field of type f64 is an f64 (Verus omits the typing fact of float
/// fields; quantified float axioms need it)
pub proof fn typed(x: f64) ensures exists|y: f64| #[trigger] same_f64(x, y) { assert(same_f64(x, x)); }
// --- proof helpers --------------------------------------------------------------
pub proof fn lemma_fsum_push(s: Seq<f64>, x: f64) ensures fsum(s.push(x)) == fadd(fsum(s), x) {
    assert(s.push(x).drop_last() =~= s);
}
}

// ---------------------------------------------------------------------------
// fp: the numbers doubles stand for. The standard model of floating-point arithmetic:
// an operation gives the exact result up to a relative error of 2^-53 (bounded here by
// an eighth of 1e-15); whole numbers up to 2^53 are exact. Everything else is proved.
// ---------------------------------------------------------------------------
pub mod fp {
use vstd::prelude::*;
use crate::vx::*;
/// the number a double stands for
pub uninterp spec fn val(x: f64) -> real;
pub uninterp spec fn fin(x: f64) -> bool;
pub open spec fn ab(x: real) -> real { if x >= 0real { x } else { -x } }
/// rounding error bound of one operation, generously: 1e-15 > 2^-53
#[verifier::inline] pub open spec fn eta() -> real { 1real / 1000000000000000real }
pub open spec fn moderate(v: real) -> bool { v == 0real || 1real / 1000000000000000000000000000000real <= ab(v) <= 1000000000000000000000000000000real }
pub open spec fn rounded(x: f64, v: real) -> bool { fin(x) && ab(val(x) - v) <= ab(v) * (eta() / 8real) }
pub axiom fn ax_val_int(k: int) requires -0x20_0000_0000_0000 <= k <= 0x20_0000_0000_0000 ensures fin(i2f(k)), val(i2f(k)) == k as real;
pub axiom fn ax_val_zero() ensures fin(0.0f64), val(0.0f64) == 0real;
pub axiom fn ax_val_mul(a: f64, b: f64) requires fin(a), fin(b), moderate(val(a) * val(b)) ensures rounded(fmul(a, b), val(a) * val(b));
pub axiom fn ax_val_div(a: f64, b: f64) requires fin(a), fin(b), val(b) != 0real, moderate(val(a) / val(b)) ensures rounded(fdiv(a, b), val(a) / val(b));
pub axiom fn ax_val_add(a: f64, b: f64) requires fin(a), fin(b), ab(val(a) + val(b)) <= 1000000000000000000000000000000real ensures rounded(fadd(a, b), val(a) + val(b));
pub axiom fn ax_val_sub(a: f64, b: f64) requires fin(a), fin(b), ab(val(a) - val(b)) <= 1000000000000000000000000000000real ensures rounded(fsub(a, b), val(a) - val(b));
pub axiom fn ax_val_lt(a: f64, b: f64) requires fin(a), fin(b) ensures flt(a, b) == (val(a) < val(b));
pub axiom fn ax_val_usize(a: f64) requires fin(a), val(a) < 1000000000000000000real ensures f2usize(a) == if val(a) <= 0real { 0 } else { val(a).floor() };
pub axiom fn ax_val_ceil(a: f64) requires fin(a) ensures fin(f_ceil(a)), val(f_ceil(a)) == -((-val(a)).floor() as real);

/// halves away from zero
pub axiom fn ax_val_round(a: f64) requires fin(a), ab(val(a)) <= 1000000000000000real ensures fin(f_round(a)), val(f_round(a)) == if val(a) >= 0real { (val(a) + 1real / 2real).floor() as real } else { -((1real / 2real - val(a)).floor() as real) };
pub axiom fn ax_val_008() ensures rounded(0.08f64, 2real / 25real);
/// scaling by a power of two is exact
pub axiom fn ax_val_quarter(k: int) requires 0 <= k <= 0x4_0000_0000_0000 ensures fin(fmul(i2f(k), 0.25f64)), val(fmul(i2f(k), 0.25f64)) == k as real / 4real;

proof fn lemma_close(x: f64, v: real, w: real) requires rounded(x, v), w == ab(v) ensures fin(x), -(w / 1000000000000000real) <= val(x) - v <= w / 1000000000000000real
{ assert(w * (eta() / 8real) <= w / 1000000000000000real) by (nonlinear_arith) requires w >= 0real; }
proof fn lemma_ratio(k: int, r: int, v: real) requires r >= 1, v == k as real / (r as real)
    ensures v * (r as real) == k as real, k > 0 ==> v > 0real, k == 0 ==> v == 0real, k < 0 ==> v < 0real, ab(v) <= ab(k as real), k != 0 && r <= 0x1_0000_0000 ==> ab(v) >= 1real / 4294967296real
{
    let (kr, s) = (k as real, r as real);
    assert(v * s == kr) by (nonlinear_arith) requires v == kr / s, s >= 1real;
    assert(k > 0 ==> v > 0real) by (nonlinear_arith) requires v * s == kr, s >= 1real, k > 0 ==> kr >= 1real;
    assert(k == 0 ==> v == 0real) by (nonlinear_arith) requires v * s == kr, s >= 1real, k == 0 ==> kr == 0real;
    assert(k < 0 ==> v < 0real) by (nonlinear_arith) requires v * s == kr, s >= 1real, k < 0 ==> kr <= -1real;
    if k > 0 {
        assert(v <= kr) by (nonlinear_arith) requires v * s == kr, s >= 1real, v > 0real;
        if r <= 0x1_0000_0000 { assert(v >= 1real / 4294967296real) by (nonlinear_arith) requires v * s == kr, 1real <= s <= 4294967296real, kr >= 1real; }
    }
    if k < 0 {
        assert(v >= kr) by (nonlinear_arith) requires v * s == kr, s >= 1real, v < 0real;
        if r <= 0x1_0000_0000 { assert(v <= -(1real / 4294967296real)) by (nonlinear_arith) requires v * s == kr, 1real <= s <= 4294967296real, kr <= -1real; }
    }
}
proof fn lemma_back(q: real, v: real, s: real, kr: real, e: real) requires s >= 1real, v * s == kr, e >= 0real, -(ab(v) * e) <= q - v <= ab(v) * e ensures -(ab(kr) * e) <= q * s - kr <= ab(kr) * e
{
    let (d, w, u) = (q - v, ab(v), ab(kr));
    assert(w * s == u) by { if v >= 0real { assert(kr >= 0real) by (nonlinear_arith) requires v * s == kr, v >= 0real, s >= 1real; } else { assert(kr <= 0real) by (nonlinear_arith) requires v * s == kr, v < 0real, s >= 1real; assert((-v) * s == -(v * s)) by (nonlinear_arith); } }
    assert(q * s - kr == d * s) by (nonlinear_arith) requires d == q - v, v * s == kr;
    let x = w * e;
    assert(d * s <= x * s) by (nonlinear_arith) requires d <= x, s >= 1real;
    assert(-(x * s) <= d * s) by (nonlinear_arith) requires -x <= d, s >= 1real;
    assert(x * s == u * e) by (nonlinear_arith) requires x == w * e, w * s == u;
}
proof fn lemma_round_near(x: f64, k: int) requires fin(x), ab(val(x) - k as real) <= 1real / 1000real, -0x8000_0000 <= k <= 0x8000_0000
    ensures f2usize(f_round(x)) == if k >= 0 { k } else { 0 }
{
    let v = val(x); let y = f_round(x);
    ax_val_round(x);
    if v >= 0real {
        let f = (v + 1real / 2real).floor();
        assert(f as real <= v + 1real / 2real < f as real + 1real);
        assert(f == k);
        assert(val(y) == k as real);
    } else {
        let f = (1real / 2real - v).floor();
        assert(f as real <= 1real / 2real - v < f as real + 1real);
        assert(f == -k);
        assert(val(y) == k as real);
    }
    ax_val_usize(y);
    assert((k as real).floor() == k);
}
proof fn lemma_quotient(k: int, r: int, v: real) requires 1 <= r <= 0x1_0000_0000, -0x8000_0000 <= k <= 0x8000_0000, v == k as real / (r as real)
    ensures fin(fdiv(i2f(k), i2f(r))), ab(val(fdiv(i2f(k), i2f(r))) - v) <= ab(v) * eta()
{
    ax_val_int(k); ax_val_int(r);
    lemma_ratio(k, r, v);
    ax_val_div(i2f(k), i2f(r));
    lemma_close(fdiv(i2f(k), i2f(r)), v, ab(v));
}
proof fn lemma_product(q: f64, k: int, r: int) requires fin(q), 1 <= r <= 0x1_0000_0000, -0x8000_0000 <= k <= 0x8000_0000, ab(val(q) * (r as real) - k as real) <= ab(k as real) * eta()
    ensures fin(fmul(q, i2f(r))), ab(val(fmul(q, i2f(r))) - k as real) <= 1real / 1000real
{
    ax_val_int(r);
    let p = val(q) * (r as real);
    assert(k == 0 ==> p == 0real);
    assert(k != 0 ==> ab(p) >= 1real / 2real);
    ax_val_mul(q, i2f(r));
    lemma_close(fmul(q, i2f(r)), p, ab(p));
}
/// a whole number divided and multiplied by a sample rate rounds back to itself
pub proof fn lemma_lag_samples(k: int, rate: u32)
    requires -0x8000_0000 <= k <= 0x8000_0000, rate > 0
    ensures f2usize(f_round(fmul(fdiv(i2f(k), i2f(rate as int)), i2f(rate as int)))) == if k >= 0 { k } else { 0 }
{
    let r = rate as int; let v = k as real / (r as real); let q = fdiv(i2f(k), i2f(r));
    lemma_quotient(k, r, v);
    lemma_ratio(k, r, v);
    lemma_back(val(q), v, r as real, k as real, eta());
    lemma_product(q, k, r);
    lemma_round_near(fmul(q, i2f(r)), k);
}
pub proof fn lemma_no_lag(rate: u32) ensures f2usize(f_round(fmul(0.0f64, i2f(rate as int)))) == 0
{
    ax_val_zero(); ax_val_int(rate as int);
    assert(val(0.0f64) * val(i2f(rate as int)) == 0real) by (nonlinear_arith) requires val(0.0f64) == 0real;
    ax_val_mul(0.0f64, i2f(rate as int));
    let x = fmul(0.0f64, i2f(rate as int));
    lemma_close(x, 0real, 0real);
    ax_val_round(x); ax_val_usize(f_round(x));
}
pub proof fn lemma_f2usize_i2f(a: usize) requires a <= 0x20_0000_0000_0000usize ensures f2usize(i2f(a as int)) == a
{ ax_val_int(a as int); ax_val_usize(i2f(a as int)); }

/// x is v up to n roundings
pub open spec fn rel(x: f64, v: real, n: int) -> bool { fin(x) && v >= 0real && ab(val(x) - v) <= v * (n as real * eta()) }
pub proof fn lemma_weaken(x: f64, v: real, n: int, m: int) requires rel(x, v, n), 0 <= n <= m ensures rel(x, v, m)
{ let (e, f) = (n as real * eta(), m as real * eta()); assert(v * e <= v * f) by (nonlinear_arith) requires v >= 0real, e <= f; }
proof fn lm(a: real, b: real) requires a >= 0real, b >= 0real ensures a * b >= 0real { assert(a * b >= 0real) by (nonlinear_arith) requires a >= 0real, b >= 0real; }
proof fn lm_le(a: real, b: real, c: real) requires a <= b, c >= 0real ensures a * c <= b * c { assert(a * c <= b * c) by (nonlinear_arith) requires a <= b, c >= 0real; }
proof fn lemma_prod(v: real, w: real, p: real, q: real, e: real, f: real)
    requires v >= 0real, w >= 0real, 0real <= e <= 1real/100real, 0real <= f <= 1real/100real, ab(p - v) <= v * e, ab(q - w) <= w * f
    ensures ab(p * q - v * w) <= (v * w) * (e + f + e * f), p >= 0real, q >= 0real
{
    let (dp, dq) = (p - v, q - w);
    lm(v, e); lm(w, f); lm(v, w);
    assert(p >= 0real) by (nonlinear_arith) requires v >= 0real, 0real <= e <= 1real/100real, v - p <= v * e;
    assert(q >= 0real) by (nonlinear_arith) requires w >= 0real, 0real <= f <= 1real/100real, w - q <= w * f;
    assert(p * q - v * w == dp * w + v * dq + dp * dq) by (nonlinear_arith) requires dp == p - v, dq == q - w;
    let (ew, ev, ef) = ((v * e) * w, (w * f) * v, (v * e) * (w * f));
    assert(-ew <= dp * w <= ew) by (nonlinear_arith) requires -(v * e) <= dp <= v * e, w >= 0real, ew == (v * e) * w;
    assert(-ev <= v * dq <= ev) by (nonlinear_arith) requires -(w * f) <= dq <= w * f, v >= 0real, ev == (w * f) * v;
    let (s, t) = (v * e, w * f); assert(-(s * t) <= dp * dq <= s * t) by (nonlinear_arith) requires -t <= dq <= t, -s <= dp <= s;
    assert(ew + ev + ef == (v * w) * (e + f + e * f)) by (nonlinear_arith) requires ew == (v * e) * w, ev == (w * f) * v, ef == (v * e) * (w * f);
}
/// one more rounding
proof fn lemma_round(x: f64, p: real, v: real, e: real, n: int)
    requires rounded(x, p), v >= 0real, p >= 0real, 0real <= e, ab(p - v) <= v * e, e + eta() / 7real <= n as real * eta(), e <= 1real/100real
    ensures rel(x, v, n)
{
    let d = eta() / 8real; let m = n as real * eta();
    lm(v, e);
    assert(p * d <= (v + v * e) * d) by (nonlinear_arith) requires p <= v + v * e, d >= 0real;
    assert(v * e + (v + v * e) * d == v * (e + d + e * d)) by (nonlinear_arith);
    assert(e * d <= d / 100real) by (nonlinear_arith) requires e <= 1real/100real, d >= 0real;
    assert(e + d + e * d <= m);
    assert(ab(val(x) - v) <= v * e + p * d);
    assert(v * (e + d + e * d) <= v * m) by (nonlinear_arith) requires v >= 0real, e + d + e * d <= m;
}
pub proof fn lemma_mul(x: f64, v: real, a: int, y: f64, w: real, b: int)
    requires rel(x, v, a), rel(y, w, b), 0 <= a <= 10, 0 <= b <= 10, v * w == 0real || 1real / 100000000000000000000real <= v * w <= 100000000000000000000real
    ensures rel(fmul(x, y), v * w, a + b + 1)
{
    let (e, f) = (a as real * eta(), b as real * eta());
    lemma_prod(v, w, val(x), val(y), e, f);
    let g = e + f + e * f; let vw = v * w; let p = val(x) * val(y);
    assert(e * f <= eta() / 100real) by (nonlinear_arith) requires 0real <= e <= 10real * eta(), 0real <= f <= 10real * eta(), eta() == 1real / 1000000000000000real;
    assert(0real <= e * f) by (nonlinear_arith) requires e >= 0real, f >= 0real;
    lm(val(x), val(y)); lm(v, w);
    assert(g <= 1real / 2real);
    assert(vw * g <= vw / 2real) by (nonlinear_arith) requires vw >= 0real, g <= 1real / 2real;
    if vw == 0real { assert(vw * g == 0real) by (nonlinear_arith) requires vw == 0real; }
    ax_val_mul(x, y);
    lemma_round(fmul(x, y), p, vw, g, a + b + 1);
}
/// dividing one positive number by another
pub proof fn lemma_div(x: f64, v: real, a: int, y: f64, w: real)
    requires rel(x, v, a), 0 <= a <= 10, fin(y), val(y) == w, w > 0real, v / w == 0real || 1real / 100000000000000000000real <= v / w <= 100000000000000000000real
    ensures rel(fdiv(x, y), v / w, a + 1)
{
    let e = a as real * eta(); let p = val(x) / w; let q = v / w;
    assert(v == q * w) by (nonlinear_arith) requires q == v / w, w > 0real;
    assert(val(x) == p * w) by (nonlinear_arith) requires p == val(x) / w, w > 0real;
    assert(q >= 0real) by (nonlinear_arith) requires v == q * w, v >= 0real, w > 0real;
    assert((p - q) * w == val(x) - v) by (nonlinear_arith) requires v == q * w, val(x) == p * w;
    assert(v * e == (q * e) * w) by (nonlinear_arith) requires v == q * w;
    assert(p - q <= q * e) by (nonlinear_arith) requires (p - q) * w <= (q * e) * w, w > 0real;
    assert(-(q * e) <= p - q) by (nonlinear_arith) requires -((q * e) * w) <= (p - q) * w, w > 0real;
    assert(q * e <= q / 2real) by (nonlinear_arith) requires q >= 0real, e <= 1real / 2real;
    assert(p >= 0real);
    ax_val_div(x, y);
    lemma_round(fdiv(x, y), p, q, e, a + 1);
}
pub proof fn lemma_add(x: f64, v: real, a: int, y: f64, w: real, b: int)
    requires rel(x, v, a), rel(y, w, b), 0 <= a <= b <= 10, v + w <= 100000000000000000000real
    ensures rel(fadd(x, y), v + w, b + 1)
{
    let (e, f) = (a as real * eta(), b as real * eta()); let p = val(x) + val(y);
    assert(v * e <= v * f) by (nonlinear_arith) requires v >= 0real, e <= f;
    assert(v * f + w * f == (v + w) * f) by (nonlinear_arith);
    assert(v * f <= v / 2real) by (nonlinear_arith) requires v >= 0real, f <= 1real / 2real;
    assert(w * f <= w / 2real) by (nonlinear_arith) requires w >= 0real, f <= 1real / 2real;
    ax_val_add(x, y);
    lemma_round(fadd(x, y), p, v + w, f, b + 1);
}
/// the whole part of a number that is v up to rounding
pub proof fn lemma_whole(x: f64, v: int, n: int)
    requires rel(x, v as real, n), 0 <= n <= 10, 0 <= v <= 0x2_0000_0000
    ensures (if v > 0 { v - 1 } else { 0 }) <= f2usize(x) <= v
{
    let e = v as real * (n as real * eta());
    assert(e <= 1real / 10000real) by (nonlinear_arith) requires e == v as real * (n as real * eta()), 0real <= v as real <= 8589934592real, 0real <= n as real <= 10real;
    ax_val_usize(x);
}
/// ... after subtracting a whole number
pub proof fn lemma_whole_sub(x: f64, v: int, n: int, l: int)
    requires rel(x, v as real, n), 0 <= n <= 10, 0 <= v <= 0x2_0000_0000, 0 <= l <= 0x2_0000_0000
    ensures (if v > l { v - l - 1 } else { 0 }) <= f2usize(fsub(x, i2f(l))) <= (if v > l { v - l } else { 0 })
{
    let e = v as real * (n as real * eta());
    assert(e <= 1real / 10000real) by (nonlinear_arith) requires e == v as real * (n as real * eta()), 0real <= v as real <= 8589934592real, 0real <= n as real <= 10real;
    ax_val_int(l);
    ax_val_sub(x, i2f(l));
    ax_val_usize(fsub(x, i2f(l)));
}
/// times on a grid of h samples at rate r
pub proof fn lemma_grid(k: int, n: int, h: int, r: int)
    requires 0 <= k, 1 <= n, 1 <= h, 1 <= r <= 0x1_0000_0000, (k + n) * h <= 0x4000_0000
    ensures ({ let fd = fdiv(i2f(h), i2f(r)); let d = h as real / r as real; let rs = fmul(i2f(k), fd); let dur = fmul(fd, i2f(n)); let re = fadd(rs, dur);
        d > 0real && d * r as real == h as real && rel(fd, d, 1) && rel(rs, k as real * d, 2) && rel(dur, n as real * d, 2) && rel(re, (k + n) as real * d, 3)
        && rel(fmul(rs, i2f(r)), (k * h) as real, 3) && rel(fmul(re, i2f(r)), ((k + n) * h) as real, 4) && 1 <= n * h && 0 <= k * h && k * h + n * h == (k + n) * h && k + n <= (k + n) * h })
{
    let fd = fdiv(i2f(h), i2f(r)); let (kr, nr, hr, rr) = (k as real, n as real, h as real, r as real); let d = hr / rr;
    let rs = fmul(i2f(k), fd); let dur = fmul(fd, i2f(n)); let re = fadd(rs, dur);
    assert(1 <= n * h && 0 <= k * h && k * h + n * h == (k + n) * h && k + n <= (k + n) * h && h <= n * h) by (nonlinear_arith) requires 0 <= k, 1 <= n, 1 <= h;
    assert(d * rr == hr && d > 0real) by (nonlinear_arith) requires d == hr / rr, rr > 0real, hr > 0real;
    assert(1real / 10000000000real <= d <= 10000000000real) by (nonlinear_arith) requires d * rr == hr, 1real <= rr <= 4294967296real, 1real <= hr <= 1073741824real, d > 0real;
    ax_val_int(k); ax_val_int(n); ax_val_int(h); ax_val_int(r);
    lemma_div(i2f(h), hr, 0, i2f(r), rr);
    assert(kr * d == 0real || kr * d >= d) by (nonlinear_arith) requires k == 0 || kr >= 1real, kr == k as real, d > 0real;
    assert(nr * d >= d) by (nonlinear_arith) requires nr >= 1real, d > 0real;
    let s = (kr + nr) * d;
    assert(kr * d + nr * d == s) by (nonlinear_arith) requires s == (kr + nr) * d;
    assert(s <= 100000000000000000000real) by (nonlinear_arith) requires s == (kr + nr) * d, kr + nr <= 1073741824real, 0real < d <= 10000000000real;
    lemma_mul(i2f(k), kr, 0, fd, d, 1);
    assert(d * nr == nr * d) by (nonlinear_arith);
    lemma_mul(fd, d, 1, i2f(n), nr, 0);
    lemma_add(rs, kr * d, 2, dur, nr * d, 2);
    assert((kr * d) * rr == kr * hr) by (nonlinear_arith) requires d * rr == hr;
    assert(s * rr == (kr + nr) * hr) by (nonlinear_arith) requires d * rr == hr, s == (kr + nr) * d;
    assert((k * h) as real == kr * hr) by (nonlinear_arith) requires kr == k as real, hr == h as real;
    assert(((k + n) * h) as real == (kr + nr) * hr) by (nonlinear_arith) requires kr == k as real, hr == h as real, nr == n as real;
    lemma_mul(rs, kr * d, 2, i2f(r), rr, 0);
    lemma_mul(re, s, 3, i2f(r), rr, 0);
}
/// a span of v frames of d seconds after a start of u frames counts at least one and at most v + 2 frames
pub proof fn lemma_count(rs: f64, u: real, dur: f64, v: real, fd: f64, d: real)
    requires rel(rs, u * d, 4), rel(dur, v * d, 2), rel(fd, d, 1), u >= 0real, v >= 1real, u + v <= 10000000000real, 1real / 10000000000real <= d <= 10000000000real
    ensures 1 <= f2usize(f_ceil(fdiv(fsub(fadd(rs, dur), rs), fd))), f2usize(f_ceil(fdiv(fsub(fadd(rs, dur), rs), fd))) as real <= v + 2real
{
    let re = fadd(rs, dur); let x = fsub(re, rs); let q = fdiv(x, fd); let e = eta();
    let (ud, vd) = (u * d, v * d);
    lm(u, d); lm(v, d);
    assert(ud <= 100000000000000000000real) by (nonlinear_arith) requires ud == u * d, 0real <= u <= 10000000000real, 0real < d <= 10000000000real;
    assert(ud + vd <= 10000000000real * d) by (nonlinear_arith) requires ud == u * d, vd == v * d, u + v <= 10000000000real, d > 0real;
    assert(ab(val(rs) - ud) <= ud * (4real * e));
    assert(ab(val(dur) - vd) <= vd * (2real * e));
    ax_val_add(rs, dur);
    // the end is rounded by at most (u + v) d e
    assert(ab(val(re) - (val(rs) + val(dur))) <= (ud + vd) * e);
    assert(ab(val(re) - val(rs) - vd) <= 3real * (10000000000real * d) * e);
    assert(ab(val(re) - val(rs) - vd) <= d / 10000real);
    assert(vd >= d) by (nonlinear_arith) requires vd == v * d, v >= 1real, d > 0real;
    ax_val_sub(re, rs);
    assert(ab(val(x) - vd) <= d / 5000real);
    assert(ab(val(fd) - d) <= d * e);
    let t = val(x) / val(fd); let f = val(fd);
    assert(t * f == val(x)) by (nonlinear_arith) requires t == val(x) / f, f > 0real;
    assert(v * d + d / 5000real <= (v + 1real / 1000real) * f) by (nonlinear_arith) requires f >= d - d * e, 1real <= v <= 10000000000real, d > 0real, e == eta();
    assert(v * d - d / 5000real >= (v - 1real / 1000real) * f) by (nonlinear_arith) requires f <= d + d * e, 1real <= v <= 10000000000real, d > 0real, e == eta();
    assert(t <= v + 1real / 1000real) by (nonlinear_arith) requires t * f <= (v + 1real / 1000real) * f, f > 0real;
    assert(t >= v - 1real / 1000real) by (nonlinear_arith) requires t * f >= (v - 1real / 1000real) * f, f > 0real;
    ax_val_div(x, fd);
    assert(ab(val(q) - v) <= 1real / 100real);
    ax_val_ceil(q);
    ax_val_usize(f_ceil(q));
}
}

// ---------------------------------------------------------------------------
// ext: contracts assumed of the crate's dependencies
// ---------------------------------------------------------------------------
pub mod ext {
use vstd::prelude::*;
use vstd::float::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::core::*;
use core::ops::*;
use crate::vx::*;

#[derive(Clone, Copy)]
pub struct Complex64 { pub re: f64, pub im: f64 }
impl Complex64 {
    pub fn new(re: f64, im: f64) -> (r: Self) ensures r == (Complex64 { re, im }) { Complex64 { re, im } }
    pub fn conj(&self) -> (r: Self) ensures r == (Complex64 { re: self.re, im: fneg(self.im) }) { Complex64 { re: self.re, im: self.im.vx_neg() } }
    #[verifier::external_body]
    pub fn norm(&self) -> (r: f64) ensures r == c_norm(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_cmul(&self, o: &Complex64) -> (r: Complex64) ensures r == c_mul(*self, *o) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_cmul_s(&self, s: f64) -> (r: Complex64) ensures r == c_mul_s(*self, s) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_csub_s(&self, s: f64) -> (r: Complex64) ensures r == (Complex64 { re: fsub(self.re, s), im: self.im }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_cadd_s(&self, s: f64) -> (r: Complex64) ensures r == (Complex64 { re: fadd(self.re, s), im: self.im }) { unimplemented!() }
}
impl Complex64 {
    #[verifier::external_body]
    pub fn vx_cadd(&self, o: &Complex64) -> (r: Complex64) ensures r == c_add(*self, *o) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_csub(&self, o: &Complex64) -> (r: Complex64) ensures r == c_sub(*self, *o) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_cdiv(&self, o: &Complex64) -> (r: Complex64) ensures r == c_div(*self, *o) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_cdiv_s(&self, s: f64) -> (r: Complex64) ensures r == c_div_s(*self, s) { unimplemented!() }
    #[verifier::external_body]
    pub fn exp(&self) -> (r: Complex64) ensures r == c_exp(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn sin(&self) -> (r: Complex64) ensures r == c_sin(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn cos(&self) -> (r: Complex64) ensures r == c_cos(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn powf(&self, s: f64) -> (r: Complex64) ensures r == c_powf(*self, s) { unimplemented!() }
}
impl VxNeg for Complex64 { open spec fn neg_pre(self) -> bool { true } open spec fn neg_of(self) -> Complex64 { c_neg(self) } fn vx_neg(self) -> (r: Complex64) { Complex64 { re: self.re.vx_neg(), im: self.im.vx_neg() } } }
#[verifier::external_body]
pub fn vx_sc_mul(s: f64, a: &Complex64) -> (r: Complex64) ensures r == c_smul(s, *a) { unimplemented!() }
#[verifier::external_body]
pub fn vx_sc_add(s: f64, a: &Complex64) -> (r: Complex64) ensures r == c_sadd(s, *a) { unimplemented!() }
#[verifier::external_body]
pub fn vx_sc_sub(s: f64, a: &Complex64) -> (r: Complex64) ensures r == c_ssub(s, *a) { unimplemented!() }
#[verifier::external_body]
pub fn vx_sc_div(s: f64, a: &Complex64) -> (r: Complex64) ensures r == c_sdiv(s, *a) { unimplemented!() }
/// the componentwise operations of num-complex; quotients and the
/// transcendental functions are uninterpreted
pub open spec fn c_add(a: Complex64, b: Complex64) -> Complex64 { Complex64 { re: fadd(a.re, b.re), im: fadd(a.im, b.im) } }
pub open spec fn c_sub(a: Complex64, b: Complex64) -> Complex64 { Complex64 { re: fsub(a.re, b.re), im: fsub(a.im, b.im) } }
pub open spec fn c_neg(a: Complex64) -> Complex64 { Complex64 { re: fneg(a.re), im: fneg(a.im) } }
pub open spec fn c_div_s(a: Complex64, s: f64) -> Complex64 { Complex64 { re: fdiv(a.re, s), im: fdiv(a.im, s) } }
pub open spec fn c_smul(s: f64, a: Complex64) -> Complex64 { Complex64 { re: fmul(s, a.re), im: fmul(s, a.im) } }
pub open spec fn c_sadd(s: f64, a: Complex64) -> Complex64 { Complex64 { re: fadd(s, a.re), im: a.im } }
pub open spec fn c_ssub(s: f64, a: Complex64) -> Complex64 { Complex64 { re: fsub(s, a.re), im: fsub(0.0f64, a.im) } }
pub uninterp spec fn c_div(a: Complex64, b: Complex64) -> Complex64;
pub uninterp spec fn c_sdiv(s: f64, b: Complex64) -> Complex64;
pub uninterp spec fn c_exp(a: Complex64) -> Complex64;
pub uninterp spec fn c_sin(a: Complex64) -> Complex64;
pub uninterp spec fn c_cos(a: Complex64) -> Complex64;
pub uninterp spec fn c_powf(a: Complex64, s: f64) -> Complex64;
pub uninterp spec fn c_norm(a: Complex64) -> f64;
pub open spec fn c_mul(a: Complex64, b: Complex64) -> Complex64 {
    Complex64 { re: fsub(fmul(a.re, b.re), fmul(a.im, b.im)), im: fadd(fmul(a.re, b.im), fmul(a.im, b.re)) }
}
pub open spec fn c_mul_s(a: Complex64, s: f64) -> Complex64 { Complex64 { re: fmul(a.re, s), im: fmul(a.im, s) } }
pub open spec fn c_conj(a: Complex64) -> Complex64 { Complex64 { re: a.re, im: fneg(a.im) } }
pub open spec fn c_re(a: Complex64) -> f64 { a.re }
pub open spec fn c_im(a: Complex64) -> f64 { a.im }
pub open spec fn c_zero() -> Complex64 { Complex64 { re: 0.0f64, im: 0.0f64 } }
pub trait Zero: Sized { spec fn zero_of() -> Self; fn zero() -> (r: Self) ensures r == Self::zero_of(); }
impl Zero for Complex64 { open spec fn zero_of() -> Self { c_zero() } fn zero() -> (r: Self) { Complex64 { re: 0.0, im: 0.0 } } }
impl Zero for f64 { open spec fn zero_of() -> Self { 0.0f64 } fn zero() -> (r: Self) { 0.0 } }

// ---- ndarray -----------------------------------------------------------------
pub struct Axis(pub usize);

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Array1<T> { p: core::marker::PhantomData<T> }
impl<T> View for Array1<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub type ArrayView1<T> = Array1<T>;
impl<T> IndexSpecImpl<usize> for Array1<T> { open spec fn index_req(&self, ix: &usize) -> bool { *ix < self@.len() } }
impl<T> Index<usize> for Array1<T> { type Output = T; #[verifier::external_body] fn index(&self, ix: usize) -> (r: &T) ensures *r == self@[ix as int] { unimplemented!() } }
impl<T> IndexMut<usize> for Array1<T> { #[verifier::external_body] fn index_mut(&mut self, ix: usize) -> (r: &mut T) ensures *r == old(self)@[ix as int], final(self)@ == old(self)@.update(ix as int, *final(r)) { unimplemented!() } }
impl<T: Copy> Array1<T> {
    pub open spec fn spec_len(&self) -> usize { self@.len() as usize }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(spec_len)]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn from_vec(v: Vec<T>) -> (r: Self) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: Option<&[T]>) ensures r.is_some(), r->0@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice_mut(&mut self) -> (r: Option<&mut [T]>) ensures r.is_some(), (*r->0)@ == old(self)@, final(self)@ == (*final(r->0))@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_slice(&self, a: usize, b: usize) -> (r: Array1<T>) requires a <= b <= self@.len() ensures r@ == self@.subrange(a as int, b as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to_owned(&self) -> (r: Array1<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_view(&self) -> (r: Array1<T>) ensures r@ == self@ { unimplemented!() }
}
impl<T: Zero> Array1<T> {
    #[verifier::external_body]
    pub fn zeros(n: usize) -> (r: Self) ensures r@ == Seq::new(n as nat, |i: int| T::zero_of()) { unimplemented!() }
}
impl<T: Copy> VxToVec<T> for Array1<T> { open spec fn tv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T> Array1<T> {
    #[verifier::external_body]
    pub fn vx_window(&self, i: usize, w: usize) -> (r: Array1<T>) requires i + w <= self@.len() ensures r@ == self@.subrange(i as int, i + w) { unimplemented!() }
}
/// lane sums / means of ndarray (its internal summation order is left open)
pub uninterp spec fn nd_sum(s: Seq<f64>) -> f64;
pub uninterp spec fn nd_std1(s: Seq<f64>) -> f64;
/// ndarray_stats max / min of a non-empty NaN-free collection
pub uninterp spec fn nd_max(s: Seq<f64>) -> f64;
pub uninterp spec fn nd_min(s: Seq<f64>) -> f64;
pub open spec fn no_nan(s: Seq<f64>) -> bool { forall|i: int| 0 <= i < s.len() ==> !fnan(#[trigger] s[i]) }
pub axiom fn ax_nd_max(s: Seq<f64>)
    requires s.len() > 0, no_nan(s)
    ensures s.contains(nd_max(s)), forall|i: int| 0 <= i < s.len() ==> fle(#[trigger] s[i], nd_max(s));
pub axiom fn ax_nd_min(s: Seq<f64>)
    requires s.len() > 0, no_nan(s)
    ensures s.contains(nd_min(s)), forall|i: int| 0 <= i < s.len() ==> fle(nd_min(s), #[trigger] s[i]);
pub open spec fn nd_mean(s: Seq<f64>) -> f64 { fdiv(nd_sum(s), i2f(s.len() as int)) }
pub enum MinMaxError { EmptyInput, UndefinedOrder }
/// `max().unwrap()` / `min().unwrap()` of ndarray-stats: the empty collection is
/// an obligation; a NaN makes the call panic (it then returns no result)
pub trait VxUnwrapNan<T>: Sized { spec fn nan_pre(self) -> bool; spec fn nan_val(self) -> T; spec fn nan_has(self) -> bool; fn vx_unwrap_nan(self) -> (r: T) requires self.nan_pre() ensures self.nan_has(), r == self.nan_val(); }
impl<T> VxUnwrapNan<T> for Result<T, MinMaxError> {
    open spec fn nan_pre(self) -> bool { self.is_ok() || self->Err_0 is UndefinedOrder }
    open spec fn nan_has(self) -> bool { self.is_ok() }
    open spec fn nan_val(self) -> T { self->Ok_0 }
    #[verifier::external_body] fn vx_unwrap_nan(self) -> (r: T) { unimplemented!() }
}
impl VxUnwrapNan<core::cmp::Ordering> for Option<core::cmp::Ordering> {
    open spec fn nan_pre(self) -> bool { true }
    open spec fn nan_has(self) -> bool { self.is_some() }
    open spec fn nan_val(self) -> core::cmp::Ordering { self->0 }
    #[verifier::external_body] fn vx_unwrap_nan(self) -> (r: core::cmp::Ordering) { unimplemented!() }
}
impl Array1<f64> {
    #[verifier::external_body]
    pub fn mean(&self) -> (r: Option<f64>) ensures self@.len() == 0 <==> r.is_none(), r.is_some() ==> r->0 == nd_mean(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn sum(&self) -> (r: f64) ensures r == nd_sum(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn max(&self) -> (r: Result<&f64, MinMaxError>) ensures (self@.len() > 0 && no_nan(self@)) <==> r.is_ok(), r.is_ok() ==> *r->Ok_0 == nd_max(self@), r.is_err() && self@.len() > 0 ==> r->Err_0 is UndefinedOrder { unimplemented!() }
    #[verifier::external_body]
    pub fn min(&self) -> (r: Result<&f64, MinMaxError>) ensures (self@.len() > 0 && no_nan(self@)) <==> r.is_ok(), r.is_ok() ==> *r->Ok_0 == nd_min(self@), r.is_err() && self@.len() > 0 ==> r->Err_0 is UndefinedOrder { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_add_s(&self, s: f64) -> (r: Self) ensures r@ == self@.map_values(|x: f64| fadd(x, s)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_sub_s(&self, s: f64) -> (r: Self) ensures r@ == self@.map_values(|x: f64| fsub(x, s)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_mul_s(&self, s: f64) -> (r: Self) ensures r@ == self@.map_values(|x: f64| fmul(x, s)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_div_s(&self, s: f64) -> (r: Self) ensures r@ == self@.map_values(|x: f64| fdiv(x, s)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_add(&self, o: &Self) -> (r: Self) requires self@.len() == o@.len() ensures r@ == Seq::new(self@.len(), |i: int| fadd(self@[i], o@[i])) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_sub(&self, o: &Self) -> (r: Self) requires self@.len() == o@.len() ensures r@ == Seq::new(self@.len(), |i: int| fsub(self@[i], o@[i])) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_mul(&self, o: &Self) -> (r: Self) requires self@.len() == o@.len() ensures r@ == Seq::new(self@.len(), |i: int| fmul(self@[i], o@[i])) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_div(&self, o: &Self) -> (r: Self) requires self@.len() == o@.len() ensures r@ == Seq::new(self@.len(), |i: int| fdiv(self@[i], o@[i])) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Array2<T> { p: core::marker::PhantomData<T> }
impl<T> Array2<T> {
    pub uninterp spec fn rows(&self) -> nat;
    pub uninterp spec fn cols(&self) -> nat;
    pub uninterp spec fn at(&self, i: int, j: int) -> T;
    pub open spec fn ok(&self, i: int, j: int) -> bool { 0 <= i < self.rows() && 0 <= j < self.cols() }
    pub open spec fn row_seq(&self, i: int) -> Seq<T> { Seq::new(self.cols(), |j: int| self.at(i, j)) }
    pub open spec fn col_seq(&self, j: int) -> Seq<T> { Seq::new(self.rows(), |i: int| self.at(i, j)) }
    pub open spec fn same_dim(&self, o: &Array2<T>) -> bool { self.rows() == o.rows() && self.cols() == o.cols() }
    pub open spec fn eqv(&self, o: &Array2<T>) -> bool { self.same_dim(o) && forall|i: int, j: int| self.ok(i, j) ==> #[trigger] self.at(i, j) == o.at(i, j) }
}
/// spec-level matrices: an Array2 is its dimensions and elements (the memory
/// layout is not part of its value)
pub uninterp spec fn mk2(r: nat, c: nat, f: spec_fn(int, int) -> f64) -> Array2<f64>;
pub broadcast axiom fn ax_mk2_rows(r: nat, c: nat, f: spec_fn(int, int) -> f64) ensures #[trigger] mk2(r, c, f).rows() == r;
pub broadcast axiom fn ax_mk2_cols(r: nat, c: nat, f: spec_fn(int, int) -> f64) ensures #[trigger] mk2(r, c, f).cols() == c;
pub broadcast axiom fn ax_mk2_at(r: nat, c: nat, f: spec_fn(int, int) -> f64, i: int, j: int) ensures 0 <= i < r && 0 <= j < c ==> #[trigger] mk2(r, c, f).at(i, j) == f(i, j);
pub axiom fn ax_ext2(a: Array2<f64>, b: Array2<f64>) requires a.eqv(&b) ensures a == b;
pub axiom fn ax_ext1<T>(a: Array1<T>, b: Array1<T>) requires a@ == b@ ensures a == b;
pub broadcast group mk2_group { ax_mk2_rows, ax_mk2_cols, ax_mk2_at }
pub open spec fn dims_ok<T>(a: &Array2<T>) -> bool { a.rows() <= isize::MAX && a.cols() <= isize::MAX && a.rows() * a.cols() <= isize::MAX }
pub type ArrayView2<T> = Array2<T>;
impl<T> IndexSpecImpl<(usize, usize)> for Array2<T> { open spec fn index_req(&self, ix: &(usize, usize)) -> bool { ix.0 < self.rows() && ix.1 < self.cols() } }
impl<T> Index<(usize, usize)> for Array2<T> { type Output = T; #[verifier::external_body] fn index(&self, ix: (usize, usize)) -> (r: &T) ensures *r == self.at(ix.0 as int, ix.1 as int) { unimplemented!() } }
impl<T> IndexMut<(usize, usize)> for Array2<T> {
    #[verifier::external_body]
    fn index_mut(&mut self, ix: (usize, usize)) -> (r: &mut T)
        ensures *r == old(self).at(ix.0 as int, ix.1 as int),
            final(self).rows() == old(self).rows(), final(self).cols() == old(self).cols(),
            final(self).at(ix.0 as int, ix.1 as int) == *final(r),
            forall|i: int, j: int| (i != ix.0 || j != ix.1) ==> #[trigger] final(self).at(i, j) == old(self).at(i, j),
    { unimplemented!() }
}
/// a shape, possibly with explicit layout; layout does not change indexing
pub struct Shape2 { pub r: usize, pub c: usize }
pub struct StrideShape2 { pub r: usize, pub c: usize, pub sr: usize, pub sc: usize }
/// shapes a matrix can be given over a vector: rows, columns, strides; and a sufficient condition for acceptance
/// (ndarray rejects explicit strides over an empty vector)
pub trait VecShape: Sized { spec fn vr(self) -> int; spec fn vc(self) -> int; spec fn vsr(self) -> int; spec fn vsc(self) -> int; spec fn vok(self, n: int) -> bool; }
impl VecShape for (usize, usize) { open spec fn vr(self) -> int { self.0 as int } open spec fn vc(self) -> int { self.1 as int } open spec fn vsr(self) -> int { self.1 as int } open spec fn vsc(self) -> int { 1 } open spec fn vok(self, n: int) -> bool { self.0 * self.1 == n } }
impl VecShape for StrideShape2 { open spec fn vr(self) -> int { self.r as int } open spec fn vc(self) -> int { self.c as int } open spec fn vsr(self) -> int { self.sr as int } open spec fn vsc(self) -> int { self.sc as int } open spec fn vok(self, n: int) -> bool { n > 0 && self.sr == self.c && self.sc == 1 && self.r * self.c == n } }
pub trait ShapeBuilder: Sized { spec fn shr(self) -> nat; spec fn shc(self) -> nat;
    fn f(self) -> (r: Shape2) ensures r.r == self.shr(), r.c == self.shc();
    fn strides(self, s: (usize, usize)) -> (r: StrideShape2) ensures r.r == self.shr(), r.c == self.shc(), r.sr == s.0, r.sc == s.1; }
impl ShapeBuilder for (usize, usize) { open spec fn shr(self) -> nat { self.0 as nat } open spec fn shc(self) -> nat { self.1 as nat } fn f(self) -> (r: Shape2) { Shape2 { r: self.0, c: self.1 } } fn strides(self, s: (usize, usize)) -> (r: StrideShape2) { StrideShape2 { r: self.0, c: self.1, sr: s.0, sc: s.1 } } }
impl ShapeBuilder for Shape2 { open spec fn shr(self) -> nat { self.r as nat } open spec fn shc(self) -> nat { self.c as nat } fn f(self) -> (r: Shape2) { self } fn strides(self, s: (usize, usize)) -> (r: StrideShape2) { StrideShape2 { r: self.r, c: self.c, sr: s.0, sc: s.1 } } }
pub struct ShapeError;
impl Array2<f64> {
    #[verifier::external_body]
    pub fn zeros<S: ShapeBuilder>(s: S) -> (r: Self) ensures r.rows() == s.shr(), r.cols() == s.shc(), forall|i: int, j: int| r.ok(i, j) ==> #[trigger] r.at(i, j) == 0.0f64 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_shape_vec<S: VecShape>(s: S, v: Vec<f64>) -> (r: Result<Self, ShapeError>)
        ensures s.vok(v@.len() as int) ==> r.is_ok(),
            r.is_ok() ==> r->Ok_0.rows() == s.vr() && r->Ok_0.cols() == s.vc() && forall|i: int, j: int| r->Ok_0.ok(i, j) ==> 0 <= i * s.vsr() + j * s.vsc() < v@.len() && #[trigger] r->Ok_0.at(i, j) == v@[i * s.vsr() + j * s.vsc()]
    { unimplemented!() }
    pub open spec fn spec_nrows(&self) -> usize { self.rows() as usize }
    pub open spec fn spec_ncols(&self) -> usize { self.cols() as usize }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(spec_nrows)]
    pub fn nrows(&self) -> (r: usize) ensures r == self.rows(), dims_ok(self) { unimplemented!() }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(spec_ncols)]
    pub fn ncols(&self) -> (r: usize) ensures r == self.cols(), dims_ok(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn row(&self, i: usize) -> (r: Array1<f64>) requires i < self.rows() ensures r@ == self.row_seq(i as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn column(&self, j: usize) -> (r: Array1<f64>) requires j < self.cols() ensures r@ == self.col_seq(j as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_column(&self, j: usize) -> (r: &Array1<f64>) requires j < self.cols() ensures r@ == self.col_seq(j as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_slice_cols(&self, a: usize, b: usize) -> (r: Array2<f64>) requires a <= b <= self.cols() ensures r.rows() == self.rows(), r.cols() == b - a, forall|i: int, j: int| r.ok(i, j) ==> #[trigger] r.at(i, j) == self.at(i, j + a) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to_owned(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_view(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn invert_axis(&mut self, a: Axis) requires a.0 == 0
        ensures final(self).same_dim(old(self)), forall|i: int, j: int| old(self).ok(i, j) ==> #[trigger] final(self).at(i, j) == old(self).at(old(self).rows() - 1 - i, j) { unimplemented!() }
    #[verifier::external_body]
    pub fn sum_axis(&self, a: Axis) -> (r: Array1<f64>) requires a.0 == 1 ensures r@ == Seq::new(self.rows(), |i: int| nd_sum(self.row_seq(i))) { unimplemented!() }
    #[verifier::external_body]
    pub fn mean_axis(&self, a: Axis) -> (r: Option<Array1<f64>>) requires a.0 == 1 ensures self.cols() > 0 ==> r.is_some(), r.is_some() ==> r->0@ == Seq::new(self.rows(), |i: int| nd_mean(self.row_seq(i))) { unimplemented!() }
    #[verifier::external_body]
    pub fn std_axis(&self, a: Axis, ddof: f64) -> (r: Array1<f64>) requires a.0 == 1, self.cols() > 0, ddof == 1.0f64 ensures r@ == Seq::new(self.rows(), |i: int| nd_std1(self.row_seq(i))) { unimplemented!() }
    #[verifier::external_body]
    pub fn min(&self) -> (r: Result<&f64, MinMaxError>) ensures (self.rows() > 0 && self.cols() > 0 && self.no_nan()) <==> r.is_ok(), r.is_ok() ==> *r->Ok_0 == self.minimum(), r.is_err() && self.rows() > 0 && self.cols() > 0 ==> r->Err_0 is UndefinedOrder { unimplemented!() }
    #[verifier::external_body]
    pub fn max(&self) -> (r: Result<&f64, MinMaxError>) ensures (self.rows() > 0 && self.cols() > 0 && self.no_nan()) <==> r.is_ok(), r.is_ok() ==> *r->Ok_0 == self.maximum(), r.is_err() && self.rows() > 0 && self.cols() > 0 ==> r->Err_0 is UndefinedOrder { unimplemented!() }
    pub uninterp spec fn minimum(&self) -> f64;
    pub uninterp spec fn maximum(&self) -> f64;
    pub open spec fn no_nan(&self) -> bool { forall|i: int, j: int| self.ok(i, j) ==> !fnan(#[trigger] self.at(i, j)) }
    pub axiom fn ax_minimum(&self)
        requires self.rows() * self.cols() > 0, self.no_nan()
        ensures exists|i: int, j: int| self.ok(i, j) && #[trigger] self.at(i, j) == self.minimum(), forall|i: int, j: int| self.ok(i, j) ==> fle(self.minimum(), #[trigger] self.at(i, j));
}
macro_rules! a2_ops { ($(($m:ident, $ms:ident, $f:ident)),*) => { verus!{ impl Array2<f64> { $(
    #[verifier::external_body]
    pub fn $ms(&self, s: f64) -> (r: Self) ensures r.same_dim(self), forall|i: int, j: int| self.ok(i, j) ==> #[trigger] r.at(i, j) == $f(self.at(i, j), s) { unimplemented!() }
    #[verifier::external_body]
    pub fn $m(&self, o: &Self) -> (r: Self) requires self.same_dim(o) ensures r.same_dim(self), forall|i: int, j: int| self.ok(i, j) ==> #[trigger] r.at(i, j) == $f(self.at(i, j), o.at(i, j)) { unimplemented!() }
)* } } } }
a2_ops!((vx_add, vx_add_s, fadd), (vx_sub, vx_sub_s, fsub), (vx_mul, vx_mul_s, fmul), (vx_div, vx_div_s, fdiv));
/// `concatenate` along the last axis
pub trait VxConcat: Sized { spec fn cat_pre(axis: int, parts: Seq<Self>) -> bool; spec fn is_cat(axis: int, parts: Seq<Self>, r: Self) -> bool; }
impl VxConcat for Array1<f64> {
    open spec fn cat_pre(axis: int, parts: Seq<Self>) -> bool { axis == 0 && parts.len() == 2 }
    open spec fn is_cat(axis: int, parts: Seq<Self>, r: Self) -> bool { r@ == parts[0]@ + parts[1]@ }
}
impl VxConcat for Array2<f64> {
    open spec fn cat_pre(axis: int, parts: Seq<Self>) -> bool { axis == 1 && parts.len() == 2 && parts[0].rows() == parts[1].rows() }
    open spec fn is_cat(axis: int, parts: Seq<Self>, r: Self) -> bool {
        r.rows() == parts[0].rows() && r.cols() == parts[0].cols() + parts[1].cols()
        && forall|i: int, j: int| r.ok(i, j) ==> #[trigger] r.at(i, j) == if j < parts[0].cols() { parts[0].at(i, j) } else { parts[1].at(i, j - parts[0].cols()) }
    }
}
#[verifier::external_body]
pub fn concatenate<A: VxConcat, const N: usize>(a: Axis, parts: &[A; N]) -> (r: Result<A, ShapeError>)
    ensures A::cat_pre(a.0 as int, parts@) ==> r.is_ok(), r.is_ok() ==> A::is_cat(a.0 as int, parts@, r->Ok_0)
{ unimplemented!() }
#[verifier::external_body]
pub fn arr2<const R: usize, const C: usize>(x: &[[f64; C]; R]) -> (r: Array2<f64>)
    ensures r.rows() == R, r.cols() == C, forall|i: int, j: int| r.ok(i, j) ==> #[trigger] r.at(i, j) == x@[i]@[j]
{ unimplemented!() }

// ---- rustfft -------------------------------------------------------------------
/// the (unnormalised) discrete Fourier transforms rustfft computes
pub uninterp spec fn dft_fwd(x: Seq<Complex64>) -> Seq<Complex64>;
pub uninterp spec fn dft_inv(x: Seq<Complex64>) -> Seq<Complex64>;
pub axiom fn ax_dft_len(x: Seq<Complex64>) ensures dft_fwd(x).len() == x.len(), dft_inv(x).len() == x.len();
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct FftPlanner<T> { p: core::marker::PhantomData<T> }
#[verifier::external_body]
pub struct FftPlan { p: u8 }
impl FftPlan {
    pub uninterp spec fn size(&self) -> nat;
    pub uninterp spec fn fwd(&self) -> bool;
    #[verifier::external_body]
    pub fn get_outofplace_scratch_len(&self) -> (r: usize) ensures r == self.scratch() { unimplemented!() }
    pub uninterp spec fn scratch(&self) -> nat;
    #[verifier::external_body]
    pub fn process_outofplace_with_scratch(&self, input: &mut [Complex64], output: &mut [Complex64], scratch: &mut [Complex64])
        requires old(input)@.len() == self.size(), old(output)@.len() == self.size(), old(scratch)@.len() >= self.scratch()
        ensures final(output)@ == (if self.fwd() { dft_fwd(old(input)@) } else { dft_inv(old(input)@) }), final(output)@.len() == old(output)@.len(), final(input)@.len() == old(input)@.len()
    { unimplemented!() }
}
impl FftPlanner<f64> {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn plan_fft_forward(&mut self, n: usize) -> (r: FftPlan) ensures r.size() == n, r.fwd() { unimplemented!() }
    #[verifier::external_body]
    pub fn plan_fft_inverse(&mut self, n: usize) -> (r: FftPlan) ensures r.size() == n, !r.fwd() { unimplemented!() }
}

// ---- hound ---------------------------------------------------------------------
#[verifier::external_body]
pub struct HoundError { p: u8 }
#[derive(Clone, Copy)]
pub struct WavSpec { pub channels: u16, pub sample_rate: u32, pub bits_per_sample: u16 }
/// what hound reads from the file a path names: the error of opening it, or its
/// header and the sequence of samples, ending in an error if it is truncated
pub uninterp spec fn wav_open(path: Seq<char>) -> Result<WavReader, HoundError>;
#[verifier::external_body]
pub struct WavReader { p: u8 }
impl WavReader {
    pub uninterp spec fn wspec(&self) -> WavSpec;
    pub uninterp spec fn wsamples(&self) -> Result<Seq<i32>, HoundError>;
    #[verifier::external_body]
    pub fn open(path: &str) -> (r: Result<WavReader, HoundError>) ensures r == wav_open(path@) { unimplemented!() }
    #[verifier::external_body]
    pub fn spec(&self) -> (r: WavSpec) ensures r == self.wspec() { unimplemented!() }
    #[verifier::external_body]
    pub fn samples<T>(&mut self) -> (r: WavSamples<T>) ensures r.all() == old(self).wsamples(), final(self).wspec() == old(self).wspec() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct WavSamples<T> { p: core::marker::PhantomData<T> }
pub trait VxCollectSamples: Sized { spec fn is_samples(self, s: Result<Seq<i32>, HoundError>) -> bool; }
impl VxCollectSamples for Result<Vec<i32>, HoundError> {
    open spec fn is_samples(self, s: Result<Seq<i32>, HoundError>) -> bool {
        match s { Ok(x) => self.is_ok() && self->Ok_0@ == x, Err(e) => self == Err::<Vec<i32>, HoundError>(e) }
    }
}
impl<T> WavSamples<T> {
    pub uninterp spec fn all(&self) -> Result<Seq<i32>, HoundError>;
}
impl WavSamples<i32> {
    #[verifier::external_body]
    pub fn collect<R: VxCollectSamples>(self) -> (r: R) ensures r.is_samples(self.all()) { unimplemented!() }
}

// ---- ffsvm ---------------------------------------------------------------------
/// a libsvm nu-SVR model: number of attributes and prediction function
#[verifier::external_body]
pub struct DenseSVM { p: u8 }
pub uninterp spec fn svm_attrs(m: DenseSVM) -> nat;
pub uninterp spec fn svm_predict(m: DenseSVM, x: Seq<f32>) -> Label;
pub enum Label { Class(u32), Value(f32), None }
#[derive(Debug)]
pub struct SvmError;
#[verifier::external_body]
pub struct DenseFeatures { p: u8 }
impl DenseFeatures {
    pub uninterp spec fn feats(&self) -> Seq<f32>;
    pub uninterp spec fn lab(&self) -> Label;
    #[verifier::external_body]
    pub fn from(m: &DenseSVM) -> (r: DenseFeatures) ensures r.feats() == Seq::new(svm_attrs(*m), |i: int| 0.0f32) { unimplemented!() }
    #[verifier::external_body]
    pub fn features(&mut self) -> (r: &mut Vec<f32>) ensures r@ == old(self).feats(), final(self).feats() == final(r)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn label(&self) -> (r: Label) ensures r == self.lab() { unimplemented!() }
}
/// the content of a text file, the model it describes
pub uninterp spec fn file_text(path: Seq<char>) -> Seq<char>;
pub uninterp spec fn svm_of(text: Seq<char>) -> Option<DenseSVM>;
#[verifier::external_body]
pub fn read_to_string(path: &str) -> (r: Result<String, SvmError>) ensures r is Ok ==> r->Ok_0@ == file_text(path@) { unimplemented!() }
impl DenseSVM {
    #[verifier::external_body]
    pub fn try_from(text: &str) -> (r: Result<DenseSVM, SvmError>) ensures match svm_of(text@) { Some(m) => r == Ok::<DenseSVM, SvmError>(m), None => r is Err } { unimplemented!() }
    #[verifier::external_body]
    pub fn predict_value(&self, p: &mut DenseFeatures) -> (r: Result<(), SvmError>)
        ensures r.is_ok(), final(p).feats() == old(p).feats(), final(p).lab() == svm_predict(*self, old(p).feats()) { unimplemented!() }
}
}
} // verus!
