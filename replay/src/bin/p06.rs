//! transform sizes, zero extension, inversion
use num::complex::Complex64;
use serde_json::json;
use visqol_rs::verif::fast_fourier_transform as fft;
use visqol_rs::verif::fft_manager::FftManager;
use visqol_rs::verif::math_utils::next_pow_two;
use vreplay::*;
fn cv(f: &[Complex64]) -> Vec<f64> { f.iter().flat_map(|c| [c.re, c.im]).collect() }
fn sizes(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let n = match c { 0..=299 => c + 1, _ => { let k = g.int(1, 40); let p = 1usize << k; match g.int(0, 3) { 0 => p, 1 => p + 1, 2 => p - 1, _ => g.int(p / 2 + 1, p) } } };
    let inp = json!({"n": n});
    let mut p = 1usize;
    while p < n { p *= 2; }
    let got = next_pow_two(n);
    if got != p { return fail(format!("smallest power of two for {} reported as {}", n, got), inp); }
    if n <= 1 << 16 {
        let m = FftManager::new(n);
        if m.fft_size != fft_len(n) || m.samples_per_channel != n { return fail(format!("transform length {} for {} samples", m.fft_size, n), inp); }
    }
    Ok(format!("{}", n))
}
fn forward(g: &mut Rng, _c: usize) -> Result<String, Fail> { let n = g.int(1, 260); both(g, n) }
fn long(g: &mut Rng, _c: usize) -> Result<String, Fail> { let n = long_len(g, 8, 18); both(g, n) }
fn both(g: &mut Rng, n: usize) -> Result<String, Fail> {
    let x = g.signal(n);
    let mut m = FftManager::new(n);
    let inp = json!({"signal": trunc(&x)});
    let f = fft::forward_1d_from_matrix(&mut m, &x);
    let want: Vec<f64> = dft(&x, fft_len(n)).into_iter().flat_map(|c| [c.0, c.1]).collect();
    if !close_rel(&cv(&f), &want, 1e-9) { return fail(format!("spectrum: {}", first_diff(&cv(&f), &want)), inp); }
    let back = fft::inverse_1d(&mut m, &f);
    let re: Vec<f64> = back.iter().map(|c| c.re).collect();
    if !close_rel(&re, &x, 1e-9) || back.iter().any(|c| c.im.abs() > 1e-9) { return fail(format!("round trip: {}", first_diff(&re, &x)), inp); }
    let back = fft::inverse_1d_conj_sym(&mut m, &f);
    if !close_rel(&back, &x, 1e-9) { return fail(format!("real round trip: {}", first_diff(&back, &x)), inp); }
    let mut again = FftManager::new(n);
    if cv(&fft::forward_1d_from_matrix(&mut m, &x)) != cv(&fft::forward_1d_from_matrix(&mut again, &x)) { return fail("a used transform gives another spectrum than a fresh one", inp); }
    Ok(format!("{}", n))
}
fn points(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let p = 1usize << if c % 20 == 0 { g.int(10, 16) } else { g.int(5, 9) };
    let n = g.int(1, p);
    let x = g.signal(n);
    let inp = json!({"signal": trunc(&x), "points": p});
    let mut m = FftManager::new(p);
    let f = fft::forward_1d_from_points(&mut m, &x, p);
    let want: Vec<f64> = dft(&x, p).into_iter().flat_map(|c| [c.0, c.1]).collect();
    if !close_rel(&cv(&f), &want, 1e-9) { return fail(format!("zero-extended spectrum: {}", first_diff(&cv(&f), &want)), inp); }
    let y = g.signal(p);
    let sp: Vec<Complex64> = (0..p).map(|i| Complex64::new(y[i], g.real(-1.0, 1.0))).collect();
    let want = idft_re(&sp.iter().map(|c| (c.re, c.im)).collect::<Vec<_>>());
    let got: Vec<f64> = fft::inverse_1d(&mut m, &sp).iter().map(|c| c.re).collect();
    if !close_rel(&got, &want, 1e-9) { return fail(format!("inverse: {}", first_diff(&got, &want)), inp); }
    Ok(format!("{}/{}", n, p))
}
fn main() { run("P06", &[("sizes", sizes, 3000), ("forward", forward, 800), ("points", points, 600), ("long", long, 50)]) }
