//! best assignment of degraded patches
use ndarray::Array2;
use visqol_rs::verif::comparison_patches_selector::ComparisonPatchesSelector as Sel;
use visqol_rs::verif::neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure as N;
use visqol_rs::verif::patch_similarity_comparator::PatchSimilarityComparator;
use serde_json::json;
use visqol_rs::variant::Variant;
use visqol_rs::verif::analysis_window::AnalysisWindow;
use visqol_rs::verif::audio_signal::AudioSignal;
use visqol_rs::verif::patch_creator::PatchCreator;
use visqol_rs::verif::vad_patch_creator::VadPatchCreator;
use visqol_rs::visqol_manager::VisqolManager;
use vreplay::*;
#[path = "../composed.rs"]
mod composed;
#[path = "../dp.rs"]
mod dp;
use dp::*;
#[path = "../e2e.rs"]
mod e2e;
use e2e::speechy;
fn case(g: &mut Rng, c: usize) -> Result<String, Fail> { let p = problem(g, c); matched(p) }
fn wide(g: &mut Rng, c: usize) -> Result<String, Fail> { let p = wide_problem(g, c); matched(p) }
fn matched(p: Problem) -> Result<String, Fail> {
    let inp = p.json();
    let sel = Sel::new(N::default());
    let r = sel.find_most_optimal_deg_patches(&mut p.patches(), &mut p.starts.clone(), &to_a2(&p.deg), p.dt, p.radius as i32);
    let want = match reference(&p) { Some(w) => w, None => return Ok(String::new()) };
    let got = match r { Ok(x) => x, Err(e) => return fail(format!("error: {}", e), inp) };
    if got.len() != want.offsets.len() { return fail(format!("{} matches instead of {}", got.len(), want.offsets.len()), inp); }
    for i in 0..got.len() {
        let w = &want.results[i];
        if !close_all(&got[i].freq_band_means, &w.0) || !close_all(&got[i].freq_band_stddevs, &w.1) || !close_all(&got[i].freq_band_deg_energy, &w.2) || !close(got[i].similarity, w.3) {
            return fail(format!("patch {}: similarity {} instead of {} (offset {})", i, got[i].similarity, w.3, want.offsets[i]), inp);
        }
        let t = [got[i].ref_patch_start_time, got[i].ref_patch_end_time, got[i].deg_patch_start_time, got[i].deg_patch_end_time];
        if !close_all(&t, &w.4) { return fail(format!("patch {}: times {:?} instead of {:?}", i, t, w.4), inp); }
    }
    Ok(format!("{} patches {:?}", got.len(), want.offsets))
}
/// no choice of offsets inside the search windows has a larger total similarity (similarities that are not negative)
fn optimal(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let mut p = problem(g, c + 1);
    p.starts.truncate(3);
    p.radius = 1;
    let inp = p.json();
    let f = dims(&p.deg).1;
    let sel = Sel::new(N::default());
    let w = p.radius * p.size;
    if p.starts.iter().any(|s| *s >= f) || f > 40 { return Ok(String::new()); }
    let got = match sel.find_most_optimal_deg_patches(&mut p.patches(), &mut p.starts.clone(), &to_a2(&p.deg), 1.0, 1) { Ok(x) => x, Err(_) => return Ok(String::new()) };
    let n = got.len();
    let sims: Vec<Vec<f64>> = (0..n).map(|i| (0..f).map(|o| N::default().measure_patch_similarity(&mut p.patches()[i], &mut Sel::build_degraded_patch(&to_a2(&p.deg), o, o + p.size)).similarity).collect()).collect();
    // the table holds 0 at positions outside a patch's window, so a negative similarity may lose against a position there
    if sims.iter().flatten().any(|s| *s < 0.0) { return Ok(String::new()); }
    // enumerate strictly increasing offsets; skipping a patch is allowed and worth nothing
    let win = |i: usize| (p.starts[i].saturating_sub(w), (p.starts[i] + w).min(f - 1));
    fn best(i: usize, after: i64, n: usize, sims: &Vec<Vec<f64>>, win: &dyn Fn(usize) -> (usize, usize)) -> f64 {
        if i == n { return 0.0; }
        let (a, b) = win(i);
        let mut m = f64::MIN;
        for o in a..=b { if o as i64 > after { m = m.max(sims[i][o] + best(i + 1, o as i64, n, sims, win)); } }
        m
    }
    let top = best(0, -1, n, &sims, &win);
    let tot: f64 = got.iter().map(|r| r.similarity).sum();
    if tot < top - 1e-9 { return fail(format!("total similarity {} but {} is possible", tot, top), inp); }
    Ok(format!("total {:.5}", tot))
}
/// a recording compared with itself: every patch starts where its first frame does, at any sample rate
fn times(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let rate = if c == 0 { 11025 } else { g.pick(&[1013u32, 2222, 4321, 8000, 11025, 500]) };
    let n = g.int(rate as usize * 2, rate as usize * 4).min(if c == 0 { 44100 } else { 20000 });
    let r = speechy(g, n);
    let size = (rate as f64 * 0.08).round() as usize;
    let w = AnalysisWindow { size, overlap: 0.25 };
    let hop = size / 4;
    let frames = 1 + (n - size) / hop;
    let sig = AudioSignal::new(&r, rate);
    let starts = match quiet(|| VadPatchCreator::new(30).create_ref_patch_indices(&Array2::zeros((21, frames)), &sig, &w)) { Ok(Ok(x)) => x, _ => return Ok(String::new()) };
    let res = match quiet(|| VisqolManager::<21>::new(Variant::Wideband { use_unscaled_mos_mapping: false }, 2).compute_results(&mut AudioSignal::new(&r, rate), &mut AudioSignal::new(&r, rate))) { Ok(Ok(x)) => x, _ => return Ok(String::new()) };
    let inp = json!({"rate": rate, "signal": trunc(&r), "first_frames": starts});
    if res.patch_sims.len() > starts.len() { return fail(format!("{} patches instead of {}", res.patch_sims.len(), starts.len()), inp); }
    for (p, s) in res.patch_sims.iter().zip(&starts) {
        let want = s * hop;
        let got = p.ref_patch_start_time * rate as f64;
        // realignment may move a patch, but not a recording against itself
        if p.similarity > 0.999999 && (got - want as f64).abs() > 0.01 { return fail(format!("the patch of frame {} starts at sample {} instead of {}", s, got, want), inp); }
    }
    Ok(format!("{} at {}", res.patch_sims.len(), rate))
}
fn main() { run("P19", &[("comparison", composed::comparison, 160), ("match", case, 900), ("optimal", optimal, 1500), ("times", times, 12), ("wide", wide, 40)]) }
