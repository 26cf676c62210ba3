//! upper envelope through the analytic signal
use ndarray::Array1;
use serde_json::json;
use visqol_rs::verif::envelope::{calculate_hilbert, calculate_upper_env};
use vreplay::*;
fn analytic(x: &[f64]) -> Vec<f64> {
    let n = x.len();
    let f = fft_len(n);
    let mut w = vec![0.0; f];
    w[0] = 1.0;
    w[n / 2] = if n % 2 == 0 { 1.0 } else { 2.0 };
    let half = if n % 2 == 0 { f / 2 } else { (f + 1) / 2 };
    for k in 1..half { w[k] = 2.0; }
    let sp: Vec<(f64, f64)> = dft(x, f).into_iter().zip(&w).map(|(c, k)| (c.0 * k, c.1 * k)).collect();
    idft_re(&sp)[..n].iter().map(|v| v * 2.0 - 0.000001).collect()
}
fn case(g: &mut Rng, c: usize) -> Result<String, Fail> { let n = if c < 80 { c + 1 } else { g.int(1, 300) }; envelope(g, n) }
fn long(g: &mut Rng, _c: usize) -> Result<String, Fail> { let n = long_len(g, 8, 17); envelope(g, n) }
fn envelope(g: &mut Rng, n: usize) -> Result<String, Fail> {
    let x = g.signal(n);
    let inp = json!({"signal": trunc(&x)});
    let mut y = x.clone();
    let h = calculate_hilbert(&mut y).unwrap();
    let want = analytic(&x);
    let got: Vec<f64> = h.iter().map(|c| c.re).collect();
    if !close_rel(&got, &want, 1e-9) { return fail(format!("analytic signal: {}", first_diff(&got, &want)), inp); }
    if h.iter().any(|c| c.im.abs() > 1e-12) { return fail("the analytic signal kept an imaginary part", inp); }
    let mean = x.iter().sum::<f64>() / n as f64;
    let cent: Vec<f64> = x.iter().map(|v| v - mean).collect();
    let want: Vec<f64> = analytic(&cent).iter().map(|v| v.abs() + mean).collect();
    let got = calculate_upper_env(&Array1::from_vec(x.clone())).unwrap().to_vec();
    if !close_rel(&got, &want, 1e-8) { return fail(format!("envelope: {}", first_diff(&got, &want)), inp); }
    Ok(format!("{}", n))
}
fn empty(_g: &mut Rng, _c: usize) -> Result<String, Fail> {
    match quiet(|| calculate_upper_env(&Array1::from_vec(vec![]))) {
        Ok(None) => Ok("empty".into()),
        o => fail(format!("envelope of an empty signal: {:?}", o), json!([])),
    }
}
fn main() { run("P07", &[("envelope", case, 500), ("long", long, 25), ("empty", empty, 1)]) }
