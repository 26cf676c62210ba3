//! lag with the largest absolute cross-correlation
use serde_json::json;
use visqol_rs::verif::xcorr::{calculate_best_lag, calculate_inverse_fft_pointwise_product};
use vreplay::*;
fn corr(a: &[f64], b: &[f64], lag: i64) -> f64 {
    let mut s = 0.0;
    for j in 0..b.len() as i64 {
        let i = j + lag;
        if i >= 0 && (i as usize) < a.len() { s += a[i as usize] * b[j as usize]; }
    }
    s
}
fn by_transform(a: &[f64], b: &[f64]) -> Vec<f64> {
    let n = a.len().max(b.len());
    let p = fft_len(2 * n);
    let f: Vec<(f64, f64)> = dft(a, p).iter().zip(dft(b, p)).map(|(x, y)| (x.0 * y.0 + x.1 * y.1, x.1 * y.0 - x.0 * y.1)).collect();
    let c = idft_re(&f);
    (-(n as i64 - 1)..n as i64).map(|l| c[if l < 0 { p as i64 + l } else { l } as usize]).collect()
}
fn check(a: &[f64], b: &[f64]) -> Result<String, Fail> {
    let inp = json!({"first": trunc(a), "second": trunc(b)});
    let m = a.len().max(b.len()) as i64 - 1;
    let got = match calculate_best_lag(a, b) { Some(l) => l, None => return fail("no lag was found", inp) };
    if got.abs() > m { return fail(format!("lag {} is outside -{}..={}", got, m, m), inp); }
    let all: Vec<f64> = if m > 600 { by_transform(a, b) } else { (-m..=m).map(|l| corr(a, b, l)).collect() };
    let top = all.iter().fold(0.0f64, |x, y| x.max(y.abs()));
    let g = all[(got + m) as usize].abs();
    if g < top * (1.0 - 1e-9) - 1e-12 { 
        let w = (0..all.len()).max_by(|x, y| all[*x].abs().partial_cmp(&all[*y].abs()).unwrap()).unwrap() as i64 - m;
        return fail(format!("lag {} has correlation {} but lag {} has {}", got, g, w, top), inp);
    }
    Ok(format!("{}x{} lag {}", a.len(), b.len(), got))
}
fn random(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let hi = if c % 3 == 0 { 12 } else { 220 };
    let (n, m) = (g.int(1, hi), g.int(1, hi));
    let a = g.signal(n);
    let b = g.signal(m);
    check(&a, &b)
}
fn shifted(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let n = g.int(2, if c % 2 == 0 { 20 } else { 300 });
    let k = g.int(0, n - 1);
    let a: Vec<f64> = (0..n).map(|_| g.real(-1.0, 1.0)).collect();
    let b: Vec<f64> = if g.chance(0.5) { a[k..].to_vec() } else { let mut z = vec![0.0; k]; z.extend(&a); z.truncate(g.int(n, n + k)); z };
    check(&a, &b)
}
fn long(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let n = long_len(g, 9, 16);
    let a: Vec<f64> = (0..n).map(|i| if (i / 700) % 5 == 0 { g.real(-1.0, 1.0) } else { g.real(-0.1, 0.1) }).collect();
    let k = g.int(0, n - 1);
    let b: Vec<f64> = match c % 3 { 0 => a[k..].to_vec(), 1 => { let mut z = vec![0.0; k]; z.extend(&a); z } _ => { let m = g.int(1, n); g.signal(m) } };
    check(&a, &b)
}
fn product(g: &mut Rng, _c: usize) -> Result<String, Fail> {
    let (n, m) = (g.int(1, 150), g.int(1, 150));
    let (a, b) = (g.signal(n), g.signal(m));
    let inp = json!({"first": trunc(&a), "second": trunc(&b)});
    let out = calculate_inverse_fft_pointwise_product(&mut a.clone(), &mut b.clone());
    let top = n.max(m);
    let p = fft_len(2 * top);
    let _ = p;
    let len = out.len();
    if len < 2 * top - 1 { return fail(format!("{} correlation values for signals of {} samples", len, top), inp); }
    for l in -(top as i64 - 1)..top as i64 {
        let i = if l < 0 { len as i64 + l } else { l } as usize;
        if !close_tol(out[i], corr(&a, &b, l), 1e-8) { return fail(format!("correlation at lag {} is {} instead of {}", l, out[i], corr(&a, &b, l)), inp); }
    }
    Ok(format!("{}x{}", n, m))
}
fn main() { run("P08", &[("random", random, 3000), ("shifted", shifted, 3000), ("product", product, 800), ("long", long, 60)]) }
