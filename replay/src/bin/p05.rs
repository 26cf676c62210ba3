//! level matching of the degraded signal
use serde_json::json;
use visqol_rs::verif::audio_signal::AudioSignal;
use visqol_rs::verif::audio_utils::scale_to_match_sound_pressure_level as scale;
use vreplay::*;
#[path = "../composed.rs"]
mod composed;
fn case(g: &mut Rng, c: usize) -> Result<String, Fail> { let (n, m) = (g.int(1, 300), g.int(1, 300)); level(g, c, n, m) }
fn long(g: &mut Rng, c: usize) -> Result<String, Fail> { let (n, m) = (long_len(g, 9, 19), long_len(g, 9, 19)); level(g, c, n, m) }
fn level(g: &mut Rng, c: usize, n: usize, m: usize) -> Result<String, Fail> {
    let mut r = g.signal(n);
    let mut d = g.signal(m);
    match c % 7 {
        0 => d = vec![0.0; m],
        1 => r = vec![0.0; n],
        2 => { d = r.iter().map(|x| x * 0.25).collect(); }
        // loud at one end only
        3 => { let k = d.len() / 8 + 1; d = d.iter().enumerate().map(|(i, x)| if i + k >= m { *x } else { x * 1e-3 }).collect(); }
        _ => {}
    }
    let rate = g.rate(&[8000u32, 16000, 44100, 48000]);
    let inp = json!({"reference": trunc(&r), "degraded": trunc(&d), "rate": rate});
    let out = scale(&AudioSignal::new(&r, 48000), &AudioSignal::new(&d, rate));
    let o = out.data_matrix.to_vec();
    if out.sample_rate != rate { return fail("the sample rate changed", inp); }
    let e: f64 = d.iter().map(|x| x * x).sum();
    let er: f64 = r.iter().map(|x| x * x).sum();
    if e == 0.0 {
        if o != d { return fail("a silent degraded signal was altered", inp); }
        return Ok("silent".into());
    }
    let k = 10f64.powf((spl(&r) - spl(&d)) / 20.0);
    let want: Vec<f64> = d.iter().map(|x| x * k).collect();
    if !close_rel(&o, &want, 1e-9) { return fail(format!("scaled signal: {}", first_diff(&o, &want)), inp); }
    if er > 0.0 && (spl(&o) - spl(&r)).abs() > 1e-6 { return fail(format!("level {} dB instead of {} dB", spl(&o), spl(&r)), inp); }
    Ok(format!("{}x{} k={:.3}", n, m, k))
}
fn main() { run("P05", &[("comparison", composed::comparison, 160), ("level", case, 18000), ("long", long, 180)]) }
