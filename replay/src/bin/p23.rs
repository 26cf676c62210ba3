//! realignment of matched patches on the audio itself
use serde_json::json;
use visqol_rs::verif::alignment::align_and_truncate;
use visqol_rs::verif::analysis_window::AnalysisWindow;
use visqol_rs::verif::audio_signal::AudioSignal;
use visqol_rs::verif::audio_utils::prepare_spectrograms_for_comparison;
use visqol_rs::verif::comparison_patches_selector::ComparisonPatchesSelector as Sel;
use visqol_rs::verif::gammatone_filterbank::GammatoneFilterbank;
use visqol_rs::verif::gammatone_spectrogram_builder::GammatoneSpectrogramBuilder;
use visqol_rs::verif::neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure as N;
use visqol_rs::verif::patch_similarity_comparator::{PatchSimilarityComparator, PatchSimilarityResult};
use visqol_rs::verif::spectrogram_builder::SpectrogramBuilder;
use vreplay::*;
#[path = "../composed.rs"]
mod composed;
#[path = "../e2e.rs"]
mod e2e;
use e2e::*;
type R = PatchSimilarityResult;
/// samples between two times, zeros after the end
fn cut(x: &[f64], rate: u32, a: f64, b: f64) -> Vec<f64> {
    let r = rate as f64;
    let (s, e) = ((a * r) as usize, ((b * r) as usize).min(x.len()));
    let mut v = x[s..e].to_vec();
    let extra = (b * r - x.len() as f64) as usize;
    v.extend(vec![0.0; extra]);
    v
}
fn case(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let n = g.int(700, 1800);
    let rate = g.pick(&[8000u32, 16000]);
    let r = speechy(g, n);
    let mut d = match c % 3 { 0 => degrade(g, &r), 1 => { let k = g.int(0, 40); let mut z = vec![0.0; k]; z.extend(&r); z } _ => { let k = g.int(0, 40); r[k..].to_vec() } };
    if d.len() < 300 { d.resize(300, 0.0); }
    let w = AnalysisWindow { size: 32, overlap: 0.25 };
    let fd = 8.0 / rate as f64;
    let k = g.int(1, 4);
    let mut sims: Vec<R> = vec![];
    for _ in 0..k {
        let len = g.int(12, 30);
        let a = g.int(0, n / 8 - len);
        let b = if c % 3 == 2 && g.chance(0.3) { g.int(0, d.len() / 8 - 1) } else { (a as i64 + g.int(0, 6) as i64 - 3).clamp(0, (d.len() / 8 - 1) as i64) as usize };
        let lost = g.chance(0.15);
        let (rs, ds) = (a as f64 * fd, b as f64 * fd);
        let dur = len as f64 * fd;
        let mut x = R::default();
        x.freq_band_means = vec![g.unit(); 4];
        x.freq_band_stddevs = vec![g.unit(); 4];
        x.freq_band_deg_energy = vec![g.unit(); 4];
        x.similarity = g.pick(&[0.0, 0.3, 0.6, 0.9, 1.1]);
        x.ref_patch_start_time = rs;
        x.ref_patch_end_time = rs + dur;
        if !lost { x.deg_patch_start_time = ds; x.deg_patch_end_time = ds + dur; } else { x.similarity = 0.0; }
        sims.push(x);
    }
    let bank = || GammatoneSpectrogramBuilder::<4>::new(GammatoneFilterbank::new(50.0));
    let cmp = N::default();
    // an exact tie goes to the realigned patch
    if c % 5 == 4 {
        for s in sims.iter_mut() {
            let t = quiet(|| {
                let ra = AudioSignal::new(&cut(&r, rate, s.ref_patch_start_time, s.ref_patch_end_time), rate);
                let da = AudioSignal::new(&cut(&d, rate, s.deg_patch_start_time, s.deg_patch_end_time), rate);
                let (ra, da, _) = align_and_truncate(&ra, &da)?;
                let (mut a, mut b) = (bank().build(&ra, &w).ok()?, bank().build(&da, &w).ok()?);
                prepare_spectrograms_for_comparison(&mut a, &mut b);
                Some(cmp.measure_patch_similarity(&mut a.data, &mut b.data).similarity)
            });
            if let Ok(Some(t)) = t { if s.deg_patch_end_time != 0.0 { s.similarity = t; } }
        }
    }
    let inp = json!({"reference": trunc(&r), "degraded": trunc(&d), "rate": rate,
        "patches": sims.iter().map(|s| json!([s.ref_patch_start_time, s.ref_patch_end_time, s.deg_patch_start_time, s.deg_patch_end_time, s.similarity])).collect::<Vec<_>>()});
    let (rs, ds) = (AudioSignal::new(&r, rate), AudioSignal::new(&d, rate));
    // expected outcome, patch by patch
    let mut want: Vec<R> = vec![];
    let mut err = false;
    let mut moved = 0;
    let exp = quiet(|| {
        let mut want: Vec<R> = vec![];
        for s in &sims {
            if s.deg_patch_start_time == 0.0 && s.deg_patch_end_time == 0.0 { want.push(s.clone()); continue; }
            let ra = AudioSignal::new(&cut(&r, rate, s.ref_patch_start_time, s.ref_patch_end_time), rate);
            let da = AudioSignal::new(&cut(&d, rate, s.deg_patch_start_time, s.deg_patch_end_time), rate);
            let (ra, da, lag) = match align_and_truncate(&ra, &da) { Some(x) => x, None => return None };
            let (mut a, mut b) = match (bank().build(&ra, &w), bank().build(&da, &w)) { (Ok(a), Ok(b)) => (a, b), _ => return None };
            prepare_spectrograms_for_comparison(&mut a, &mut b);
            let mut m = cmp.measure_patch_similarity(&mut a.data, &mut b.data);
            if m.similarity < s.similarity { want.push(s.clone()); continue; }
            let (mut x, mut y) = (s.ref_patch_start_time, s.deg_patch_start_time);
            if lag > 0.0 { x += lag } else { y -= lag }
            m.ref_patch_start_time = x;
            m.deg_patch_start_time = y;
            m.ref_patch_end_time = x + ra.data_matrix.len() as f64 / rate as f64;
            m.deg_patch_end_time = y + da.data_matrix.len() as f64 / rate as f64;
            want.push(m);
        }
        Some(want)
    });
    match exp { Ok(Some(x)) => want = x, Ok(None) => err = true, Err(_) => return Ok(String::new()) }
    let before = sims.clone();
    let mut b = bank();
    let got = Sel::new(N::default()).finely_align_and_recreate_patches(&mut sims, &rs, &ds, &mut b, &w);
    if rs.data_matrix.to_vec() != r || ds.data_matrix.to_vec() != d { return fail("a signal was modified", inp); }
    let got = match got { Ok(x) => x, Err(e) => return if err { Ok("error".into()) } else { fail(format!("error: {}", e), inp) } };
    if err { return fail("a patch that cannot be analysed was accepted", inp); }
    if got.len() != before.len() { return fail(format!("{} patches instead of {}", got.len(), before.len()), inp); }
    for (i, (x, y)) in got.iter().zip(&want).enumerate() {
        if y.similarity != before[i].similarity { moved += 1; }
        let t = |p: &R| vec![p.ref_patch_start_time, p.ref_patch_end_time, p.deg_patch_start_time, p.deg_patch_end_time];
        if !close(x.similarity, y.similarity) { return fail(format!("patch {}: similarity {} instead of {} (was {})", i, x.similarity, y.similarity, before[i].similarity), inp); }
        if !close_all(&t(x), &t(y)) { return fail(format!("patch {}: times {:?} instead of {:?}", i, t(x), t(y)), inp); }
        if !close_all(&x.freq_band_means, &y.freq_band_means) || !close_all(&x.freq_band_stddevs, &y.freq_band_stddevs) || !close_all(&x.freq_band_deg_energy, &y.freq_band_deg_energy) {
            return fail(format!("patch {}: band values differ", i), inp);
        }
        if x.similarity < before[i].similarity { return fail(format!("patch {} became less similar", i), inp); }
    }
    Ok(format!("{} patches {} realigned {:.5}", got.len(), moved, got.iter().map(|x| x.similarity).sum::<f64>()))
}
fn main() { run("P23", &[("comparison", composed::comparison, 160), ("realign", case, 700)]) }
