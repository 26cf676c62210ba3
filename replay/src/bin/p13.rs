//! preparation of two spectrograms for comparison
use serde_json::json;
use visqol_rs::verif::audio_utils::prepare_spectrograms_for_comparison as prep;
use visqol_rs::verif::spectrogram::Spectrogram;
use vreplay::*;
#[path = "../composed.rs"]
mod composed;
fn mat(g: &mut Rng, r: usize, c: usize) -> Mat {
    let style = g.int(0, 4);
    (0..r).map(|_| (0..c).map(|j| match style {
        0 => g.real(0.0, 2.0),
        1 => if g.chance(0.4) { 0.0 } else { 10f64.powf(g.real(-9.0, 1.0)) },
        2 => if j % 3 == 0 { 0.0 } else { g.real(0.0, 1.0) },
        3 => 10f64.powf(g.real(-12.0, 4.0)),
        _ => g.real(-1.0, 1.0),
    }).collect()).collect()
}
fn case(g: &mut Rng, _c: usize) -> Result<String, Fail> { let r = g.int(1, 24); let (c1, c2) = (g.int(1, 14), g.int(1, 14)); prepared(g, r, c1, c2) }
fn long(g: &mut Rng, _c: usize) -> Result<String, Fail> { let r = g.pick(&[1usize, 21, 32]); let c1 = long_len(g, 7, 11); let c2 = match g.int(0, 2) { 0 => c1, 1 => c1 + g.int(1, 5), _ => long_len(g, 7, 11) }; prepared(g, r, c1, c2) }
fn prepared(g: &mut Rng, r: usize, c1: usize, c2: usize) -> Result<String, Fail> {
    let c2 = if g.chance(0.4) { c1 } else { c2 };
    let (a, b) = (mat(g, r, c1), mat(g, r, c2));
    // frames that agree in their peaks or altogether
    let mut b = b;
    if g.chance(0.3) {
        for j in 0..c1.min(c2) {
            if g.chance(0.3) { continue; }
            let pk = (0..r).map(|i| a[i][j].abs()).fold(0.0, f64::max);
            let keep = g.chance(0.3);
            for i in 0..r { if keep || a[i][j].abs() == pk || b[i][j].abs() > pk { b[i][j] = a[i][j]; } }
        }
    }
    let b = if g.chance(0.1) { vec![vec![0.0; c2]; r] } else { b };
    let inp = json!({"reference": a.iter().map(|v| trunc(v)).collect::<Vec<_>>(), "degraded": b.iter().map(|v| trunc(v)).collect::<Vec<_>>()});
    let (mut sa, mut sb) = (Spectrogram::new(to_a2(&a), vec![1.0; r]), Spectrogram::new(to_a2(&b), vec![2.0; r]));
    prep(&mut sa, &mut sb);
    let (wa, wb) = prepare(&a, &b);
    let (oa, ob) = (from_a2(&sa.data), from_a2(&sb.data));
    if !mats_close(&oa, &wa, 1e-9) { return fail(format!("reference: {}", mat_diff(&oa, &wa)), inp); }
    if !mats_close(&ob, &wb, 1e-9) { return fail(format!("degraded: {}", mat_diff(&ob, &wb)), inp); }
    let lo = oa.iter().chain(&ob).flatten().fold(f64::INFINITY, |m, x| m.min(*x));
    if lo != 0.0 { return fail(format!("the common floor is {} instead of 0", lo), inp); }
    if sa.center_freq_bands != vec![1.0; r] || sb.center_freq_bands != vec![2.0; r] { return fail("centre frequencies changed", inp); }
    Ok(format!("{}x{}/{} {:.5}", r, c1, c2, a[0][0]))
}
fn steps(g: &mut Rng, _c: usize) -> Result<String, Fail> {
    let (r, c) = (g.int(1, 8), g.int(1, 8));
    let a = mat(g, r, c);
    let inp = json!({"matrix": a});
    let mut s = Spectrogram::new(to_a2(&a), vec![]);
    s.convert_to_db();
    let want: Mat = a.iter().map(|v| v.iter().map(|x| to_db(*x)).collect()).collect();
    if !mats_close(&from_a2(&s.data), &want, 1e-9) { return fail(format!("dB: {}", mat_diff(&from_a2(&s.data), &want)), inp); }
    let fl = g.real(-60.0, 10.0);
    s.raise_floor(fl);
    let want: Mat = want.iter().map(|v| v.iter().map(|x| x.max(fl)).collect()).collect();
    if !mats_close(&from_a2(&s.data), &want, 1e-9) { return fail("raised floor differs", inp); }
    let lo = want.iter().flatten().fold(f64::INFINITY, |m, x| m.min(*x));
    if !close(s.get_minimum(), lo) { return fail("minimum differs", inp); }
    s.subtract_floor(lo);
    let want: Mat = want.iter().map(|v| v.iter().map(|x| x - lo).collect()).collect();
    if !mats_close(&from_a2(&s.data), &want, 1e-9) { return fail("lowered matrix differs", inp); }
    let c2 = g.int(1, 8);
    let mut b = mat(g, r, c2);
    if g.chance(0.3) { for j in 0..c.min(c2) { let pk = (0..r).map(|i| a[i][j]).fold(f64::NEG_INFINITY, f64::max); for i in 0..r { if a[i][j] == pk || b[i][j] > pk { b[i][j] = a[i][j]; } } } }
    let th = g.real(0.0, 3.0);
    let (mut sa, mut sb) = (Spectrogram::new(to_a2(&a), vec![]), Spectrogram::new(to_a2(&b), vec![]));
    sa.raise_floor_per_frame(th, &mut sb);
    let (mut wa, mut wb) = (a.clone(), b.clone());
    for j in 0..c.min(c2) {
        let pk = a.iter().chain(&b).map(|v| v[j]).fold(f64::NEG_INFINITY, f64::max);
        for v in wa.iter_mut().chain(wb.iter_mut()) { v[j] = v[j].max(pk - th); }
    }
    if !mats_close(&from_a2(&sa.data), &wa, 1e-9) || !mats_close(&from_a2(&sb.data), &wb, 1e-9) { return fail("per-frame floor differs", json!({"a": a, "b": b, "threshold": th})); }
    Ok(format!("{}x{} {:.5}", r, c, a[0][0]))
}
fn main() { run("P13", &[("comparison", composed::comparison, 160), ("prepare", case, 12000), ("steps", steps, 8000), ("long", long, 240)]) }
