//! reference patches of the audio mode
use serde_json::json;
use visqol_rs::verif::analysis_window::AnalysisWindow;
use visqol_rs::verif::audio_signal::AudioSignal;
use visqol_rs::verif::image_patch_creator::ImagePatchCreator;
use visqol_rs::verif::patch_creator::PatchCreator;
use vreplay::*;
#[path = "../composed.rs"]
mod composed;
fn one(g: &mut Rng, p: usize, cols: usize) -> Result<String, Fail> {
    let rows = g.int(1, 4);
    let spec = rand_mat(g, rows, cols, 0.0, 50.0);
    let inp = json!({"patch": p, "columns": cols});
    let cr = ImagePatchCreator::new(p);
    let r = cr.create_ref_patch_indices(&to_a2(&spec), &AudioSignal::new(&[0.0; 4], 48000), &AnalysisWindow { size: 8, overlap: 0.25 });
    let half = p / 2;
    if cols < p + half {
        return match r { Err(e) => { let s = e.to_string(); if s.contains(&format!("size {} ", cols)) && s.contains(&format!("minimum {}", p + half)) { Ok(format!("short {}", cols)) } else { fail(format!("wrong error {}", s), inp) } } Ok(v) => fail(format!("patches {:?} of a spectrogram of {} columns", v, cols), inp) };
    }
    let got = match r { Ok(v) => v, Err(e) => return fail(format!("error {}", e), inp) };
    let end = if half < cols - p { cols - p } else { half + 1 };
    let mut want = vec![];
    let mut i = half;
    while i < end { want.push(i - 1); i += p; }
    if got != want { return fail(format!("patches start at {:?} instead of {:?}", got, want), inp); }
    if got.is_empty() || got.windows(2).any(|w| w[1] < w[0] + p) || got.last().unwrap() + p > cols { return fail(format!("patches at {:?} overlap or leave the spectrogram", got), inp); }
    let pa = cr.create_patches_from_indices(&to_a2(&spec), &got);
    if pa.len() != got.len() { return fail("a patch is missing", inp); }
    for (k, s) in got.iter().enumerate() {
        let want: Mat = spec.iter().map(|r| r[*s..*s + p].to_vec()).collect();
        if from_a2(&pa[k]) != want { return fail(format!("patch {}: {}", k, mat_diff(&from_a2(&pa[k]), &want)), inp); }
    }
    Ok(format!("p {} cols {}", p, cols))
}
fn grid(g: &mut Rng, c: usize) -> Result<String, Fail> { one(g, 2 + c % 14, 1 + c / 14) }
fn default(g: &mut Rng, c: usize) -> Result<String, Fail> { one(g, 20, 1 + c) }
fn long(g: &mut Rng, c: usize) -> Result<String, Fail> { let p = if c % 2 == 0 { 20 } else { g.int(2, 40) }; let cols = if c % 3 == 0 { p * g.int(20, 300) + p / 2 + g.int(0, 2) } else { long_len(g, 8, 13) }; one(g, p, cols) }
fn main() { run("P16", &[("comparison", composed::comparison, 160), ("long", long, 120), ("grid", grid, 14 * 90), ("default", default, 260)]) }
