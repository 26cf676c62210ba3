//! aggregation of patch results
use serde_json::json;
use visqol_rs::verif::analysis_window::AnalysisWindow;
use visqol_rs::verif::audio_signal::AudioSignal;
use visqol_rs::verif::comparison_patches_selector::ComparisonPatchesSelector;
use visqol_rs::verif::gammatone_filterbank::GammatoneFilterbank;
use visqol_rs::verif::gammatone_spectrogram_builder::GammatoneSpectrogramBuilder;
use visqol_rs::verif::neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure;
use visqol_rs::verif::visqol::calculate_similarity;
use vreplay::*;
#[path = "../composed.rs"]
mod composed;
#[path = "../e2e.rs"]
mod e2e;
use e2e::*;
/// a span that is quiet where it was loud, so that its similarity is negative or the patch is lost
fn opposite(g: &mut Rng, d: &mut [f64]) {
    let n = d.len();
    let a = g.int(0, n / 2);
    let b = (a + g.int(n / 4, n)).min(n);
    let k = 24;
    let level: Vec<f64> = (a..b).map(|i| { let (s, e) = (i.saturating_sub(k), (i + k).min(n)); (d[s..e].iter().map(|v| v * v).sum::<f64>() / (e - s) as f64).sqrt() }).collect();
    let f = g.real(0.02, 2.5);
    for i in a..b { d[i] = 0.01 / (level[i - a] + 0.01) * (if g.chance(0.5) { (i as f64 * f).sin() } else { g.real(-1.0, 1.0) }); }
}
fn agg<const N: usize>(g: &mut Rng, _c: usize) -> Result<String, Fail> {
    let n = g.int(700, 2000);
    let r = speechy(g, n);
    let mut d = degrade(g, &r);
    if g.int(0, 2) == 0 { opposite(g, &mut d); }
    let radius = g.int(0, 2);
    let rate = g.rate(&[8000u32, 16000, 48000]);
    let w = AnalysisWindow { size: g.pick(&[32usize, 40, 38, 45]), overlap: g.pick(&[0.25, 0.5]) };
    let hop = (w.size as f64 * w.overlap) as usize;
    let frames = 1 + (n - w.size) / hop;
    let size = g.int(3, 12);
    let mut starts = vec![];
    let mut s = g.int(0, 5);
    while s + size + 2 < frames { starts.push(s); s += size + g.int(0, 30); }
    let starts: Vec<usize> = starts.into_iter().take(4).collect();
    if starts.is_empty() { return Ok(String::new()); }
    let inp = json!({"reference": trunc(&r), "degraded": trunc(&d), "bands": N, "rate": rate, "window": w.size, "overlap": w.overlap, "patch_starts": starts, "patch_size": size, "search_radius": radius});
    let mut b = GammatoneSpectrogramBuilder::<N>::new(GammatoneFilterbank::new(50.0));
    let sel = ComparisonPatchesSelector::new(NeurogramSimiliarityIndexMeasure::default());
    let (mut rs, mut ds) = (AudioSignal::new(&r, rate), AudioSignal::new(&d, rate));
    let res = match quiet(|| calculate_similarity(&mut rs, &mut ds, &mut b, &w, &Fixed { starts, size }, &sel, &Weighted, radius)) { Ok(Ok(x)) => x, _ => return Ok(String::new()) };
    let p = &res.patch_sims;
    let k = p.len() as f64;
    if p.is_empty() { return fail("no patches in the result", inp); }
    let mean: Vec<f64> = (0..N).map(|i| p.iter().map(|q| q.freq_band_means[i]).sum::<f64>() / k).collect();
    if !close_all(&res.fvnsim, &mean) { return fail(format!("band similarity: {}", first_diff(&res.fvnsim, &mean)), inp); }
    let en: Vec<f64> = (0..N).map(|i| p.iter().map(|q| q.freq_band_deg_energy[i]).sum::<f64>() / k).collect();
    if !close_all(&res.fvdegenergy, &en) { return fail(format!("band energy: {}", first_diff(&res.fvdegenergy, &en)), inp); }
    let v = mean.iter().sum::<f64>() / N as f64;
    if !close(res.vnsim, v) { return fail(format!("similarity {} instead of {}", res.vnsim, v), inp); }
    let fd = hop as f64 / rate as f64;
    let counts: Vec<f64> = p.iter().map(|q| ((q.ref_patch_end_time - q.ref_patch_start_time) / fd).ceil().max(0.0)).collect();
    let total: f64 = counts.iter().sum();
    let sd: Vec<f64> = (0..N).map(|i| {
        let s: f64 = p.iter().zip(&counts).map(|(q, c)| (c - 1.0) * q.freq_band_stddevs[i].powi(2) + c * q.freq_band_means[i].powi(2)).sum();
        let x = (s - mean[i] * mean[i] * total) / (total - 1.0);
        if x < 0.0 { 0.0 } else { x.sqrt() }
    }).collect();
    for i in 0..N { if !close_tol(res.fstdnsim[i], sd[i], 1e-6) { return fail(format!("band {} deviation {} instead of {}", i, res.fstdnsim[i], sd[i]), inp); } }
    if res.fstdnsim.len() != N || res.center_freq_bands.len() != N { return fail("a band is missing", inp); }
    if res.center_freq_bands.windows(2).any(|w| w[0] >= w[1]) { return fail("centre frequencies are not ascending", inp); }
    let lost = p.iter().filter(|q| q.deg_patch_end_time == 0.0).count();
    Ok(format!("{} patches {} lost {} negative sim {:.6}", p.len(), lost, p.iter().filter(|q| q.similarity < 0.0).count(), v))
}
fn case(g: &mut Rng, c: usize) -> Result<String, Fail> { match c % 4 { 0 => agg::<21>(g, c), 1 => agg::<1>(g, c), _ => agg::<5>(g, c) } }
fn main() { run("P02", &[("comparison", composed::comparison, 160), ("aggregate", case, 600)]) }
