//! overall score: mapping of the band similarities, floor for dissimilar signals, range
use serde_json::json;
use visqol_rs::verif::analysis_window::AnalysisWindow;
use visqol_rs::verif::audio_signal::AudioSignal;
use visqol_rs::verif::comparison_patches_selector::ComparisonPatchesSelector;
use visqol_rs::verif::gammatone_filterbank::GammatoneFilterbank;
use visqol_rs::verif::gammatone_spectrogram_builder::GammatoneSpectrogramBuilder;
use visqol_rs::verif::neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure;
use visqol_rs::verif::similarity_to_quality_mapper::SimilarityToQualityMapper;
use visqol_rs::verif::speech_similarity_to_quality_mapper::SpeechSimilarityToQualityMapper;
use visqol_rs::verif::svr_similarity_to_quality_mapper::SvrSimilarityToQualityMapper;
use visqol_rs::verif::visqol::calculate_similarity;
use vreplay::*;
#[path = "../e2e.rs"]
mod e2e;
use e2e::*;
fn score<const N: usize>(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let n = g.int(700, 1800);
    let r = speechy(g, n);
    let d = match c % 6 { 0 => speechy(g, n), 1 => { let i = g.int(0, n - 1); let mut z = vec![0.0; n]; z[i] = 0.4; z } 2 => vec![0.0; n], 3 => r.clone(), _ => degrade(g, &r) };
    let w = AnalysisWindow { size: 32, overlap: 0.25 };
    let frames = 1 + (n - 32) / 8;
    let size = g.int(4, 10);
    let mut starts = vec![];
    let mut s = g.int(0, 5);
    while s + size + 2 < frames { starts.push(s); s += size + g.int(0, 40); }
    let starts: Vec<usize> = starts.into_iter().take(4).collect();
    if starts.is_empty() { return Ok(String::new()); }
    let inp = json!({"reference": trunc(&r), "degraded": trunc(&d), "bands": N, "patch_starts": starts, "patch_size": size});
    let mut b = GammatoneSpectrogramBuilder::<N>::new(GammatoneFilterbank::new(50.0));
    let sel = ComparisonPatchesSelector::new(NeurogramSimiliarityIndexMeasure::default());
    let (mut rs, mut ds) = (AudioSignal::new(&r, 16000), AudioSignal::new(&d, 16000));
    let fixed = Fixed { starts, size };
    let konst = Const(3.25);
    let map: &dyn SimilarityToQualityMapper = if c % 2 == 0 { &konst } else { &Weighted };
    let res = match quiet(|| calculate_similarity(&mut rs, &mut ds, &mut b, &w, &fixed, &sel, map, 2)) { Ok(Ok(x)) => x, _ => return Ok(String::new()) };
    if res.vnsim.is_nan() { return Ok(String::new()); }
    let want = if res.vnsim < 0.15 { 1.0 } else if c % 2 == 0 { 3.25 } else { weighted(&res.fvnsim) };
    if !close(res.moslqo, want) { return fail(format!("score {} instead of {} (similarity {})", res.moslqo, want, res.vnsim), inp); }
    Ok(format!("sim {:.6}", res.vnsim))
}
fn scores(g: &mut Rng, c: usize) -> Result<String, Fail> { if c % 5 == 0 { score::<21>(g, c) } else { score::<4>(g, c) } }
fn range(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let v: Vec<f64> = (0..32).map(|_| match c % 5 { 0 => g.real(0.0, 1.0), 1 => g.real(-1.0, 2.0), 2 => g.num() * 10.0, 3 => g.real(0.9, 1.0), _ => g.real(0.0, 0.2) }).collect();
    let inp = json!({"similarities": v});
    for s in [true, false] {
        let m = SpeechSimilarityToQualityMapper::new(s).predict_quality(&v[..21]);
        if !(1.0..=5.0).contains(&m) { return fail(format!("speech score {} is outside 1..5", m), inp); }
    }
    thread_local! { static M: SvrSimilarityToQualityMapper = SvrSimilarityToQualityMapper::new(&model()); }
    let m = M.with(|m| m.predict_quality(&v));
    if !(1.0..=5.0).contains(&m) { return fail(format!("audio score {} is outside 1..5", m), inp); }
    Ok(format!("{:.5}", m))
}
fn main() { run("P01", &[("score", scores, 700), ("range", range, 1500)]) }
