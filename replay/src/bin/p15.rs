//! reference patches of the speech mode
use serde_json::json;
use visqol_rs::verif::analysis_window::AnalysisWindow;
use visqol_rs::verif::audio_signal::AudioSignal;
use visqol_rs::verif::patch_creator::PatchCreator;
use visqol_rs::verif::vad_patch_creator::VadPatchCreator;
use vreplay::*;
#[path = "../composed.rs"]
mod composed;
fn case(g: &mut Rng, c: usize) -> Result<String, Fail> { let p = if c % 4 == 0 { 30 } else { g.int(2, 12) }; let cols = if g.chance(0.3) { g.int(1, 2 * p) } else { g.int(p, 8 * p) }; speech(g, p, cols) }
fn long(g: &mut Rng, c: usize) -> Result<String, Fail> { let p = if c % 2 == 0 { 30 } else { g.int(2, 12) }; let cols = long_len(g, 7, 12); speech(g, p, cols) }
fn speech(g: &mut Rng, p: usize, cols: usize) -> Result<String, Fail> {
    let size = g.pick(&[8usize, 16, 20, 40, 7]);
    let overlap = g.pick(&[0.25, 0.5, 1.0]);
    let hop = (size as f64 * overlap) as usize;
    let first = p / 2 - 1;
    let n = size + (cols - 1) * hop + g.int(0, hop - 1);
    let mut x: Vec<f64> = vec![];
    while x.len() < n {
        let a = g.pick(&[0.0, 0.0, 0.01, 0.12, 0.2, 1.0]);
        for _ in 0..g.int(1, 2 * p * hop) { x.push(g.real(-a, a)); }
    }
    x.truncate(n);
    let top = x.iter().fold(f64::NEG_INFINITY, |m, v| m.max(*v));
    let rows = g.int(1, 5);
    let spec = rand_mat(g, rows, cols, 0.0, 50.0);
    let inp = json!({"signal": trunc(&x), "patch": p, "window": size, "overlap": overlap, "columns": cols});
    let cr = VadPatchCreator::new(p);
    let sig = AudioSignal::new(&x, 16000);
    let r = cr.create_ref_patch_indices(&to_a2(&spec), &sig, &AnalysisWindow { size, overlap });
    if cols < first + p {
        return match r { Err(e) => { let s = e.to_string(); if s.contains(&format!("size {} ", cols)) && s.contains(&format!("minimum {}", first + p)) { Ok(format!("short {}", cols)) } else { fail(format!("wrong error {}", s), inp) } } Ok(v) => fail(format!("patches {:?} of a spectrogram of {} columns", v, cols), inp) };
    }
    let got = match r { Ok(v) => v, Err(e) => return fail(format!("error {}", e), inp) };
    let count = (cols - first) / p;
    let total = count * p * hop;
    if first + total > n { return Ok(String::new()); }
    let norm: Vec<f64> = x.iter().map(|v| v / top).collect();
    let lab = vad(&norm[first..first + total], hop);
    let want: Vec<usize> = lab.chunks(p).enumerate().filter(|(_, c)| c.iter().sum::<f64>() >= 1.0).map(|(i, _)| first + i * p).collect();
    if got != want { return fail(format!("patches start at {:?} instead of {:?}", got, want), inp); }
    let pa = cr.create_patches_from_indices(&to_a2(&spec), &got);
    if pa.len() != got.len() { return fail("a patch is missing", inp); }
    for (k, s) in got.iter().enumerate() {
        let want: Mat = spec.iter().map(|r| r[*s..*s + p].to_vec()).collect();
        if from_a2(&pa[k]) != want { return fail(format!("patch {}: {}", k, mat_diff(&from_a2(&pa[k]), &want)), inp); }
    }
    if sig.data_matrix.to_vec() != x { return fail("the reference signal was modified", inp); }
    Ok(format!("{} of {} p {} {:?}", got.len(), count, p, got))
}
fn main() { run("P15", &[("comparison", composed::comparison, 160), ("speech", case, 24000), ("long", long, 480)]) }
