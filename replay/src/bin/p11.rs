//! gammatone spectrogram: frames, per-band energy, no carry-over
use serde_json::json;
use visqol_rs::verif::analysis_window::AnalysisWindow;
use visqol_rs::verif::audio_signal::AudioSignal;
use visqol_rs::verif::equivalent_rectangular_bandwidth::make_filters;
use visqol_rs::verif::gammatone_filterbank::GammatoneFilterbank;
use visqol_rs::verif::gammatone_spectrogram_builder::GammatoneSpectrogramBuilder;
use visqol_rs::verif::spectrogram_builder::SpectrogramBuilder;
use vreplay::*;
#[path = "../composed.rs"]
mod composed;

/// band energies of one frame, highest coefficient row first
fn frame_rms(co: &[Vec<f64>], frame: &[f64]) -> Vec<f64> {
    co.iter().map(|c| {
        let b = [c[6], c[7], c[8]];
        let mut x = biquad(&[c[0] / c[9], c[1] / c[9], c[5] / c[9]], &b, frame, &mut [0.0; 2]);
        for k in 2..5 { x = biquad(&[c[0], c[k], c[5]], &b, &x, &mut [0.0; 2]); }
        (x.iter().map(|v| v * v).sum::<f64>() / frame.len() as f64).sqrt()
    }).collect()
}
fn go<const N: usize>(g: &mut Rng, b: &mut GammatoneSpectrogramBuilder<N>, min: f64) -> Result<String, Fail> {
    let rate = g.rate(&[8000u32, 16000, 44100, 48000]);
    let size = g.int(4, 120);
    let window = AnalysisWindow { size, overlap: g.pick(&[0.25, 0.5, 1.0, 0.75]) };
    let n = if g.chance(0.15) { g.int(0, size) } else { g.int(size, 900) };
    let x = g.signal(n);
    let inp = json!({"bands": N, "rate": rate, "window": size, "overlap": window.overlap, "signal": trunc(&x)});
    let hop = (size as f64 * window.overlap) as usize;
    let r = b.build(&AudioSignal::new(&x, rate), &window);
    if n < size {
        return match r {
            Err(e) => { let s = e.to_string(); if s.contains(&format!("Found {} samples", n)) && s.contains(&format!("required is {}", size)) { Ok(format!("short {}/{}", n, size)) } else { fail(format!("wrong error: {}", s), inp) } }
            Ok(_) => fail("a signal shorter than one window was accepted", inp),
        };
    }
    let s = match r { Ok(s) => s, Err(e) => return fail(format!("error: {}", e), inp) };
    let max = if N == 21 { 8000.0 } else { (rate / 2) as f64 };
    let (co, cf) = make_filters::<N>(rate as usize, min, max);
    let mut rows = from_a2(&co);
    rows.reverse();
    let cols = 1 + (n - size) / hop;
    let mut want = vec![vec![0.0; cols]; N];
    for c in 0..cols {
        for (i, v) in frame_rms(&rows, &x[c * hop..c * hop + size]).into_iter().enumerate() { want[i][c] = v; }
    }
    let got = from_a2(&s.data);
    if !mats_close(&got, &want, 1e-9) { return fail(format!("spectrogram: {}", mat_diff(&got, &want)), inp); }
    let mut cf = cf;
    cf.sort_by(|a, b| a.partial_cmp(b).unwrap());
    if !close_all(&s.center_freq_bands, &cf) { return fail(format!("centre frequencies: {}", first_diff(&s.center_freq_bands, &cf)), inp); }
    // a band's row is louder than any other for a tone at its centre: checked by the tone cases
    Ok(format!("{}b {}x{} hop {}", N, N, cols, hop))
}
fn case(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let min = g.pick(&[50.0, 20.0, 100.0]);
    // the same builder is used repeatedly: nothing may carry over
    match c % 4 {
        0 => { let mut b = GammatoneSpectrogramBuilder::<21>::new(GammatoneFilterbank::new(min)); go(g, &mut b, min)?; go(g, &mut b, min)?; go(g, &mut b, min) }
        1 => { let mut b = GammatoneSpectrogramBuilder::<32>::new(GammatoneFilterbank::new(min)); go(g, &mut b, min)?; go(g, &mut b, min) }
        2 => { let mut b = GammatoneSpectrogramBuilder::<4>::new(GammatoneFilterbank::new(min)); go(g, &mut b, min)?; go(g, &mut b, min) }
        _ => { let mut b = GammatoneSpectrogramBuilder::<1>::new(GammatoneFilterbank::new(min)); go(g, &mut b, min)?; go(g, &mut b, min) }
    }
}
/// a tone is strongest in the band whose centre frequency it has
fn tone(g: &mut Rng, _c: usize) -> Result<String, Fail> {
    let rate = 16000u32;
    let mut b = GammatoneSpectrogramBuilder::<21>::new(GammatoneFilterbank::new(50.0));
    let window = AnalysisWindow { size: 1280, overlap: 0.25 };
    let (_, mut cf) = make_filters::<21>(rate as usize, 50.0, 8000.0);
    cf.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let k = g.int(2, 18);
    let f = cf[k];
    let x: Vec<f64> = (0..2560).map(|i| (std::f64::consts::TAU * f * i as f64 / rate as f64).sin()).collect();
    let s = b.build(&AudioSignal::new(&x, rate), &window).unwrap();
    let m = from_a2(&s.data);
    let best = (0..21).max_by(|a, b| m[*a][0].partial_cmp(&m[*b][0]).unwrap()).unwrap();
    if best != k { return fail(format!("a tone at the centre of band {} is loudest in band {}", k, best), json!({"band": k, "frequency": f})); }
    Ok(format!("tone {}", k))
}
fn main() { run("P11", &[("comparison", composed::comparison, 160), ("frames", case, 160), ("tone", tone, 12)]) }
