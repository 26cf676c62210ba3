//! recursive filter and its state, filterbank cascade
use serde_json::json;
use visqol_rs::verif::gammatone_filterbank::GammatoneFilterbank;
use visqol_rs::verif::signal_filter::filter_signal;
use vreplay::*;
fn co(g: &mut Rng) -> [f64; 3] { [g.real(-1.0, 1.0), g.real(-1.0, 1.0), g.real(-0.7, 0.7)] }
fn single(g: &mut Rng, _c: usize) -> Result<String, Fail> { let (num, den) = (co(g), { let mut d = co(g); d[0] = 1.0; d }); let n = g.int(0, 80); section(g, num, den, n) }
fn long(g: &mut Rng, _c: usize) -> Result<String, Fail> { let (num, r, t) = (co(g), g.real(0.1, 0.99), g.real(0.0, 3.1)); let n = long_len(g, 7, 17); section(g, num, [1.0, -2.0 * r * f64::cos(t), r * r], n) }
fn section(g: &mut Rng, num: [f64; 3], den: [f64; 3], n: usize) -> Result<String, Fail> {
    let x = g.signal(n);
    let z0 = [g.num(), g.num()];
    let inp = json!({"num": num, "den": den, "signal": trunc(&x), "state": z0});
    let mut z = z0;
    let want = biquad(&num, &den, &x, &mut z);
    let mut st = z0;
    let r = filter_signal(&num, &den, &x, &mut st);
    if !close_all(&r.filtered_signal, &want) { return fail(format!("output: {}", first_diff(&r.filtered_signal, &want)), inp); }
    if !close_all(&r.final_conditions, &z) || !close_all(&st, &z) { return fail(format!("state {:?}/{:?} instead of {:?}", r.final_conditions, st, z), inp); }
    // splitting the signal anywhere gives the same output
    if n > 0 {
        let k = g.int(0, n);
        let mut st = z0;
        let a = filter_signal(&num, &den, &x[..k], &mut st);
        let mut st2 = a.final_conditions;
        let b = filter_signal(&num, &den, &x[k..], &mut st2);
        let mut j = a.filtered_signal.clone();
        j.extend(&b.filtered_signal);
        if j != r.filtered_signal || b.final_conditions != r.final_conditions { return fail(format!("filtering in two pieces at {} differs: {}", k, first_diff(&j, &r.filtered_signal)), inp); }
    }
    Ok(format!("{} {:?}", n, num[0]))
}
fn bank<const N: usize>(g: &mut Rng) -> Result<String, Fail> {
    let mut m: Mat = (0..N).map(|_| (0..10).map(|_| g.real(-0.5, 0.5)).collect()).collect();
    for r in m.iter_mut() { r[6] = 1.0; r[9] = g.real(0.3, 3.0); }
    let mut fb = GammatoneFilterbank::<N>::new(50.0);
    fb.set_filter_coefficients(&to_a2(&m));
    let mut st = vec![[[0.0f64; 2]; 4]; N];
    let mut key = String::new();
    for _ in 0..g.int(1, 3) {
        let n = if g.chance(0.01) { long_len(g, 8, 12) } else { g.int(1, 40) };
        let x = g.signal(n);
        if g.chance(0.4) { fb.reset_filter_conditions(); st = vec![[[0.0; 2]; 4]; N]; }
        let inp = json!({"coefficients": m, "signal": trunc(&x), "bands": N});
        let out = from_a2(&fb.apply_filter(&x));
        let mut want = vec![];
        for b in 0..N {
            let c = &m[b];
            let den = [c[6], c[7], c[8]];
            let mut y = biquad(&[c[0] / c[9], c[1] / c[9], c[5] / c[9]], &den, &x, &mut st[b][0]);
            for k in 1..4 { y = biquad(&[c[0], c[1 + k], c[5]], &den, &y, &mut st[b][k]); }
            want.push(y);
        }
        if !mats_close(&out, &want, 1e-9) { return fail(format!("bank output: {}", mat_diff(&out, &want)), inp); }
        key = format!("{}b {} {:.4}", N, n, x[0]);
    }
    Ok(key)
}
fn banks(g: &mut Rng, c: usize) -> Result<String, Fail> { match c % 3 { 0 => bank::<1>(g), 1 => bank::<5>(g), _ => bank::<21>(g) } }
fn main() { run("P12", &[("section", single, 20000), ("bank", banks, 4800), ("long", long, 240)]) }
