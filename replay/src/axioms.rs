//! the floating-point facts the contracts assume (specs/prelude.rs), tried on the machine's own arithmetic
use serde_json::json;
use vreplay::*;
const ETA8: f64 = 1.25e-16;
fn any(g: &mut Rng) -> f64 {
    match g.int(0, 5) {
        0 => f64::from_bits(g.next()),
        1 => g.num(),
        2 => g.int(0, 1 << 40) as f64,
        3 => g.real(-1.0, 1.0) * 2f64.powi(g.int(0, 120) as i32 - 60),
        4 => g.pick(&[0.0, -0.0, 1.0, -1.0, f64::EPSILON, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324]),
        _ => g.int(0, 100000) as f64 / g.int(1, 100000) as f64,
    }
}
fn moderate(v: f64) -> bool { v == 0.0 || (1e-30..=1e30).contains(&v.abs()) }
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
pub fn check(g: &mut Rng, _c: usize) -> Result<String, Fail> {
    for _ in 0..2000 {
        let (a, b, x) = (any(g), any(g), any(g));
        let inp = json!([a.to_bits().to_string(), b.to_bits().to_string(), x.to_bits().to_string()]);
        macro_rules! law { ($n:expr, $e:expr) => { if !$e { return fail(format!("the machine's arithmetic breaks {}: {:e} {:e} {:e}", $n, a, b, x), inp); } } }
        law!("ax_f32_zero", same(0.0f32 as f64, 0.0));
        law!("ax_mul_comm", same(a * b, b * a));
        law!("ax_add_comm", same(a + b, b + a));
        law!("ax_powi2", same(a.powi(2), a * a));
        if a <= b && !(x + a).is_nan() && !(x + b).is_nan() { law!("ax_add_mono", x + a <= x + b); }
        if a == b { law!("ax_abs_eq", same(a.abs(), b.abs())); }
        if !a.is_nan() && !b.is_nan() {
            let (m, n) = (a.max(b), a.min(b));
            law!("ax_fmax", (same(m, a) || same(m, b)) && a <= m && b <= m);
            law!("ax_fmin", (same(n, a) || same(n, b)) && n <= a && n <= b);
            law!("ax_fabs", !a.abs().is_nan() && 0.0 <= a.abs());
            if a >= 0.0 { law!("ax_sqrt", !a.sqrt().is_nan() && 0.0 <= a.sqrt()); }
        }
        if a >= 0.0 && a <= f64::MAX && b > 0.0 { law!("ax_div_sign", a / b >= 0.0); }
        { let k = g.next() >> g.int(0, 63); law!("ax_i2f_sign", k as f64 >= 0.0 && (k as f64) < f64::MAX && (k == 0 || k as f64 > 0.0)); }
        if !a.is_nan() { law!("ax_fmax_nan", same(a.max(f64::NAN), a) && same(f64::NAN.max(a), a)); }
        if a.is_finite() && b.is_finite() {
            if moderate(a * b) && (a == 0.0 || b == 0.0 || a * b != 0.0) { law!("ax_val_mul", a.mul_add(b, -(a * b)).abs() <= (a * b).abs() * ETA8); }
            if b != 0.0 && moderate(a / b) && (a == 0.0 || a / b != 0.0) && moderate(a) && moderate(b) { law!("ax_val_div", (-(a / b)).mul_add(b, a).abs() <= a.abs() * ETA8); }
            for y in [b, -b] {
                let s = a + y;
                if s.abs() <= 1e30 && moderate(a) && moderate(y) {
                    let t = s - a;
                    let err = (a - (s - t)) + (y - t);
                    law!("ax_val_add", err.abs() <= s.abs() * ETA8);
                }
            }
            if a.abs() < 1e15 {
                let i = a as i64 as i128;
                let exact = i as f64 == a;
                let floor = if exact || a > 0.0 { i } else { i - 1 };
                let ceil = if exact || a < 0.0 { i } else { i + 1 };
                law!("ax_val_floor", a.floor() == floor as f64 && a.ceil() == ceil as f64);
                let frac = a.abs() - a.abs().floor();
                let r = a.abs().floor() + if frac >= 0.5 { 1.0 } else { 0.0 };
                law!("ax_val_round", a.round() == if a < 0.0 { -r } else { r });
                law!("ax_val_usize", a as usize == if a <= 0.0 { 0 } else { floor as usize });
            }
        }
        let k = (g.next() >> g.int(11, 63)) as usize;
        law!("ax_val_int", (k as f64) as u128 == k as u128);
        if k <= 1 << 50 { law!("ax_val_quarter", (k as f64 * 0.25) * 4.0 == k as f64 && (k as f64 * 0.25).floor() as usize == k / 4); }
        let k = (k % (1 << 32)).max(1);
        let e = ((k as f64).abs().log2().floor() + 1.0) as i32;
        law!("ax_exponent", (1..=33).contains(&e) && (1usize << (e - 1)) <= k && k < (1usize << e));
        let i = g.int(0, 65535) as i64 - 32768;
        law!("ax_f2i16_i2f", (i as f64) as i16 as i64 == i && (-32768.0..=32767.0).contains(&(i as f64)));
    }
    let bits = 0.08f64.to_bits();
    let (m, e) = ((bits & ((1 << 52) - 1)) | (1 << 52), 1075 - (bits >> 52));
    // 25 m against 2 * 2^e
    let d = (25 * m as i128 - (2i128 << e)).unsigned_abs() as f64;
    if d > (2i128 << e) as f64 * ETA8 { return fail("0.08 is not within half a unit of 2/25", json!(bits.to_string())); }
    // every power of two and its neighbours
    for s in 0..33u32 {
        for k in [(1u64 << s).saturating_sub(1), 1 << s, (1 << s) + 1] {
            if k == 0 || k > 1 << 32 { continue; }
            let e = ((k as f64).abs().log2().floor() + 1.0) as i32;
            if !(k < (1u64 << e) && (1u64 << (e - 1)) <= k) { return fail(format!("the machine's arithmetic breaks ax_exponent: {}", k), json!(k)); }
        }
    }
    Ok(format!("{}", g.0))
}
