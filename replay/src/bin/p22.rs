//! extraction of a span of audio or of a degraded patch
use serde_json::json;
use visqol_rs::verif::audio_signal::AudioSignal;
use visqol_rs::verif::comparison_patches_selector::ComparisonPatchesSelector as Sel;
use vreplay::*;
fn audio(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let rate = g.rate(&[8000u32, 16000, 48000, 100, 44100]);
    let n = if c % 100 == 0 { long_len(g, 9, 18) } else { g.int(1, 300) };
    let x = g.signal(n);
    let r = rate as f64;
    let (a, b) = match c % 4 {
        0 => { let i = g.int(0, n); (i as f64 / r, g.int(i, n) as f64 / r) }
        1 => { let i = g.int(0, n); (i as f64 / r, g.int(i, n + 100) as f64 / r) }
        2 => (-(g.int(0, 60) as f64) / r, g.int(0, n + 50) as f64 / r),
        _ => { let i = g.real(0.0, n as f64); (i / r, g.real(i, n as f64 + 90.0) / r) }
    };
    let inp = json!({"signal": trunc(&x), "rate": rate, "from": a, "to": b});
    let o = Sel::slice(&AudioSignal::new(&x, rate), a, b);
    let got = o.data_matrix.to_vec();
    let from = (a * r).max(0.0) as usize;
    let to = ((b * r).max(0.0) as usize).min(n);
    let post = (b * r - n as f64).max(0.0) as usize;
    let pre = if a < 0.0 { (-a * r) as usize } else { 0 };
    let mut want = vec![0.0; pre];
    want.extend(&x[from..to]);
    want.extend(vec![0.0; post]);
    if o.sample_rate != rate { return fail("the sample rate changed", inp); }
    if got != want { return fail(format!("span: {}", first_diff(&got, &want)), inp); }
    Ok(format!("{} {}..{} +{} -{}", n, from, to, post, pre))
}
fn patch(g: &mut Rng, k: usize) -> Result<String, Fail> {
    let (r, c) = if k % 100 == 0 { (g.int(1, 40), long_len(g, 6, 12)) } else { (g.int(1, 6), g.int(1, 40)) };
    let m = rand_mat(g, r, c, 1.0, 9.0);
    let a = g.int(0, c);
    let b = a + g.int(0, 45);
    let got = from_a2(&Sel::build_degraded_patch(&to_a2(&m), a, b));
    let want: Mat = m.iter().map(|v| (a..b).map(|j| if j < c { v[j] } else { 0.0 }).collect()).collect();
    if got != want { return fail(format!("columns {}..{} of {}: {}", a, b, c, mat_diff(&got, &want)), json!({"matrix": m, "from": a, "to": b})); }
    Ok(format!("{}x{} {}..{}", r, c, a, b))
}
fn main() { run("P22", &[("audio", audio, 24000), ("patch", patch, 18000)]) }
