#![allow(dead_code)]
//! A whole comparison is the stages applied one after the other to the right signals: the
//! result of the comparison must be that of its stages called one by one.
use serde_json::json;
use visqol_rs::verif::alignment::globally_align;
use visqol_rs::verif::analysis_window::AnalysisWindow;
use visqol_rs::verif::audio_signal::AudioSignal;
use visqol_rs::verif::audio_utils::{prepare_spectrograms_for_comparison, scale_to_match_sound_pressure_level};
use visqol_rs::verif::comparison_patches_selector::ComparisonPatchesSelector;
use visqol_rs::verif::gammatone_filterbank::GammatoneFilterbank;
use visqol_rs::verif::gammatone_spectrogram_builder::GammatoneSpectrogramBuilder;
use visqol_rs::verif::image_patch_creator::ImagePatchCreator;
use visqol_rs::verif::neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure;
use visqol_rs::verif::patch_creator::PatchCreator;
use visqol_rs::verif::patch_similarity_comparator::PatchSimilarityResult;
use visqol_rs::verif::spectrogram_builder::SpectrogramBuilder;
use visqol_rs::verif::vad_patch_creator::VadPatchCreator;
use visqol_rs::verif::variant::Variant;
use visqol_rs::verif::visqol::calculate_similarity;
use visqol_rs::visqol_manager::VisqolManager;
use vreplay::*;
#[path = "e2e.rs"]
mod setup;
use setup::*;
fn selector() -> ComparisonPatchesSelector { ComparisonPatchesSelector::new(NeurogramSimiliarityIndexMeasure::default()) }
fn stages<const N: usize>(r: &AudioSignal, d: &AudioSignal, w: &AnalysisWindow, cr: &dyn PatchCreator, radius: usize) -> Result<Vec<PatchSimilarityResult>, String> {
    let say = |e: &dyn std::fmt::Display| e.to_string();
    let scaled = scale_to_match_sound_pressure_level(r, d);
    let mut b = GammatoneSpectrogramBuilder::<N>::new(GammatoneFilterbank::new(50.0));
    let mut rs = b.build(r, w).map_err(|e| say(&e))?;
    let mut ds = b.build(&scaled, w).map_err(|e| say(&e))?;
    prepare_spectrograms_for_comparison(&mut rs, &mut ds);
    let mut idx = cr.create_ref_patch_indices(&rs.data, r, w).map_err(|e| say(&e))?;
    let dt = (w.size as f64 * w.overlap) as usize as f64 / r.sample_rate as f64;
    let mut patches = cr.create_patches_from_indices(&rs.data, &idx);
    let mut m = selector().find_most_optimal_deg_patches(&mut patches, &mut idx, &ds.data, dt, radius as i32).map_err(|e| say(&e))?;
    selector().finely_align_and_recreate_patches(&mut m, r, &scaled, &mut b, w).map_err(|e| say(&e))
}
fn row(p: &PatchSimilarityResult) -> Vec<f64> {
    let mut v = vec![p.similarity, p.ref_patch_start_time, p.ref_patch_end_time, p.deg_patch_start_time, p.deg_patch_end_time];
    v.extend(p.freq_band_means.iter().chain(&p.freq_band_stddevs).chain(&p.freq_band_deg_energy));
    v
}
fn same(got: Result<Vec<PatchSimilarityResult>, String>, want: Result<Vec<PatchSimilarityResult>, String>, inp: serde_json::Value) -> Result<String, Fail> {
    match (got, want) {
        (Ok(a), Ok(b)) => {
            if a.len() != b.len() { return fail(format!("{} patches instead of the {} its stages give", a.len(), b.len()), inp); }
            for (i, (x, y)) in a.iter().zip(&b).enumerate() {
                if !close_all(&row(x), &row(y)) { return fail(format!("patch {} differs from that of the stages: {}", i, first_diff(&row(x), &row(y))), inp); }
            }
            Ok(format!("{} patches {:.6}", a.len(), a.first().map_or(0.0, |p| p.similarity)))
        }
        (Err(a), Err(b)) => if !a.starts_with("panic") || b.starts_with("panic") { Ok(String::new()) } else { fail(format!("refused with {:?} instead of {:?}", a, b), inp) },
        (Ok(_), Err(b)) => fail(format!("a result although a stage refuses with {}", b), inp),
        (Err(a), Ok(_)) => fail(format!("refused with {} although no stage refuses", a), inp),
    }
}
fn flat<T>(r: Result<Result<T, String>, String>) -> Result<T, String> { match r { Ok(x) => x, Err(p) => Err(format!("panic: {}", p)) } }
fn small<const N: usize>(g: &mut Rng) -> Result<String, Fail> {
    let n = g.int(700, 2200);
    let r = speechy(g, n);
    let mut d = degrade(g, &r);
    let gain = g.pick(&[1.0, 1.0, 0.25, 3.0, 1e-4, 1.0 / 0.7]);
    for x in &mut d { *x *= gain; }
    if g.chance(0.05) { d = r.clone(); }
    if g.chance(0.03) { for x in &mut d { *x = 0.0; } }
    let rate = g.rate(&[8000, 16000, 44100, 48000]);
    let w = AnalysisWindow { size: g.pick(&[32usize, 40, 38, 45]), overlap: g.pick(&[0.25, 0.5]) };
    let size = g.int(3, 12);
    let hop = (w.size as f64 * w.overlap) as usize;
    let frames = 1 + (n - w.size) / hop;
    let radius = g.int(0, 6);
    let kind = g.int(0, 3);
    let mut starts = vec![];
    let mut s = g.int(0, 5);
    while s + size + 2 < frames { starts.push(s); s += size + g.int(0, 30); }
    starts.truncate(4);
    if starts.is_empty() { return Ok(String::new()); }
    let inp = json!({"reference": trunc(&r), "degraded": trunc(&d), "bands": N, "rate": rate, "window": w.size, "overlap": w.overlap, "patch_starts": starts, "patch_size": size, "search_radius": radius, "patches": kind});
    let cr: Box<dyn PatchCreator> = match kind { 0 => Box::new(VadPatchCreator::new(size)), 1 => Box::new(ImagePatchCreator::new(size * 2)), _ => Box::new(Fixed { starts, size }) };
    let (mut rs, mut ds) = (AudioSignal::new(&r, rate), AudioSignal::new(&d, rate));
    let want = flat(quiet(|| stages::<N>(&rs, &ds, &w, cr.as_ref(), radius)));
    let mut b = GammatoneSpectrogramBuilder::<N>::new(GammatoneFilterbank::new(50.0));
    let got = flat(quiet(|| calculate_similarity(&mut rs, &mut ds, &mut b, &w, cr.as_ref(), &selector(), &Weighted, radius).map(|x| x.patch_sims).map_err(|e| e.to_string())));
    same(got, want, inp)
}
pub fn comparison(g: &mut Rng, c: usize) -> Result<String, Fail> { match c % 5 { 0 => small::<21>(g), 1 => small::<32>(g), _ => small::<5>(g) } }
fn whole<const N: usize>(g: &mut Rng, audio: bool) -> Result<String, Fail> {
    let n = g.int(6500, 15000);
    let r = speechy(g, n);
    let mut d = degrade(g, &r);
    let gain = g.pick(&[1.0, 1.0, 0.25, 3.0]);
    for x in &mut d { *x *= gain; }
    let rate = g.rate(&[8000, 11025]);
    let radius = g.int(0, 5);
    let inp = json!({"reference": trunc(&r), "degraded": trunc(&d), "bands": N, "rate": rate, "search_radius": radius});
    let (mut rs, mut ds) = (AudioSignal::new(&r, rate), AudioSignal::new(&d, rate));
    let cr: Box<dyn PatchCreator> = if audio { Box::new(ImagePatchCreator::new(20)) } else { Box::new(VadPatchCreator::new(30)) };
    let want = flat(quiet(|| match globally_align(&rs, &ds) { None => Err("cannot be aligned".into()), Some((a, _)) => stages::<N>(&rs, &a, &AnalysisWindow::new(rate, 0.25, 0.08), cr.as_ref(), radius) }));
    let v = if audio { Variant::Fullband { model_path: model() } } else { Variant::Wideband { use_unscaled_mos_mapping: false } };
    let got = flat(quiet(|| VisqolManager::<N>::new(v, radius).compute_results(&mut rs, &mut ds).map(|x| x.patch_sims).map_err(|e| e.to_string())));
    same(got, want, inp)
}
pub fn managed(g: &mut Rng, c: usize) -> Result<String, Fail> { if c % 2 == 0 { whole::<21>(g, false) } else { whole::<32>(g, true) } }
