//! design of the gammatone filters
use serde_json::json;
use visqol_rs::verif::equivalent_rectangular_bandwidth::make_filters;
use vreplay::*;
const Q: f64 = 9.26449;
const BW: f64 = 24.7;
/// centre frequencies, highest first, equally spaced on the ERB-rate scale
fn centres(n: usize, lo: f64, hi: f64) -> Vec<f64> {
    let c = Q * BW;
    (1..=n).map(|i| -c + ((i as f64) * ((lo + c).ln() - (hi + c).ln()) / n as f64).exp() * (hi + c)).collect()
}
type C = (f64, f64);
fn mul(a: C, b: C) -> C { (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0) }
fn abs(a: C) -> f64 { a.0.hypot(a.1) }
fn row(rate: f64, f: f64) -> Vec<f64> {
    let t = 1.0 / rate;
    let b = 1.019 * std::f64::consts::TAU * (f / Q + BW);
    let w = std::f64::consts::TAU * f * t;
    let e = (b * t).exp();
    let (sp, sn) = ((3.0 + 2f64.powf(1.5)).sqrt(), (3.0 - 2f64.powf(1.5)).sqrt());
    let a = |s: f64| -(2.0 * t * w.cos() + 2.0 * s * t * w.sin()) / e / 2.0;
    let (a11, a12, a13, a14) = (a(sp), a(-sp), a(sn), a(-sn));
    // the gain is the magnitude of the cascade at the centre frequency
    let z1: C = (w.cos(), -w.sin());
    let z2 = mul(z1, z1);
    let (b1, b2) = (-2.0 * w.cos() / e, (-2.0 * b * t).exp());
    let den: C = (1.0 + b1 * z1.0 + b2 * z2.0, b1 * z1.1 + b2 * z2.1);
    let g: f64 = [a11, a12, a13, a14].iter().map(|k| abs((t + k * z1.0, k * z1.1)) / abs(den)).product();
    vec![t, a11, a12, a13, a14, 0.0, 1.0, b1, b2, g]
}
fn go<const N: usize>(g: &mut Rng) -> Result<String, Fail> {
    let rate = g.int(8000, 48000);
    let lo = g.pick(&[50.0, 20.0, 100.0, 333.0]);
    let hi = g.pick(&[8000.0, rate as f64 / 2.0, 3500.0, 24000.0, rate as f64]);
    let inp = json!({"bands": N, "rate": rate, "lowest": lo, "highest": hi});
    let (m, cf) = make_filters::<N>(rate, lo, hi);
    let want = centres(N, lo, hi.min(rate as f64 / 2.0));
    if !close_rel(&cf, &want, 1e-9) { return fail(format!("centre frequencies: {}", first_diff(&cf, &want)), inp); }
    let got = from_a2(&m);
    if dims(&got) != (N, 10) { return fail(format!("shape {:?}", dims(&got)), inp); }
    for i in 0..N {
        let w = row(rate as f64, want[i]);
        for j in 0..10 {
            // the gain is a product of differences of nearly equal numbers
            let tol = if j == 9 { 1e-4 } else { 1e-8 };
            if (got[i][j] - w[j]).abs() > tol * w[j].abs().max(if j == 9 { 0.0 } else { 1.0 / rate as f64 }) { return fail(format!("band {} coefficient {} is {} instead of {}", i, j, got[i][j], w[j]), inp); }
        }
    }
    Ok(format!("{} {} {} {}", N, rate, lo, hi))
}
fn case(g: &mut Rng, c: usize) -> Result<String, Fail> { match c % 4 { 0 => go::<21>(g), 1 => go::<32>(g), 2 => go::<1>(g), _ => go::<8>(g) } }
fn main() { run("P28", &[("design", case, 2000)]) }
