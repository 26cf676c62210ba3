//! patch similarity
use serde_json::json;
use visqol_rs::verif::neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure as N;
use visqol_rs::verif::patch_similarity_comparator::PatchSimilarityComparator;
use vreplay::*;
fn case(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let (r, w) = if c % 90 == 7 { (g.int(1, 64), long_len(g, 5, 9)) } else { (g.int(1, 32), g.int(2, 30)) };
    let hi = g.pick(&[1.0, 45.0, 90.0]);
    let a = rand_mat(g, r, w, 0.0, hi);
    let b: Mat = match c % 6 {
        0 => a.clone(),
        1 => vec![vec![0.0; w]; r],
        2 => a.iter().map(|v| v.iter().map(|x| x * 0.9).collect()).collect(),
        3 => a.iter().map(|v| v.iter().map(|x| x + g.real(-0.01, 0.01) * hi).collect()).collect(),
        _ => rand_mat(g, r, w, 0.0, hi),
    };
    let a = if g.chance(0.05) { vec![vec![g.real(0.0, 2.0); w]; r] } else { a };
    let range = if g.chance(0.8) { 1.0 } else { g.real(0.5, 80.0) };
    let m = if range == 1.0 { N::default() } else { N::new(range) };
    let inp = json!({"reference": a, "degraded": b, "range": range});
    let (mut x, mut y) = (to_a2(&a), to_a2(&b));
    let s = m.measure_patch_similarity(&mut x, &mut y);
    if from_a2(&x) != a || from_a2(&y) != b { return fail("an input patch was modified", inp); }
    let want = nsim(&a, &b, range);
    for (n, p, q, t) in [("band similarities", &s.freq_band_means, &want.means, 1e-7), ("band deviations", &s.freq_band_stddevs, &want.stds, 1e-6), ("band energies", &s.freq_band_deg_energy, &want.energy, 1e-9)] {
        if p.len() != q.len() || p.iter().zip(q.iter()).any(|(u, v)| !close_tol(*u, *v, t)) { return fail(format!("{}: {:?} instead of {:?}", n, p, q), inp); }
    }
    if !close_tol(s.similarity, want.sim, 1e-7) { return fail(format!("similarity {} instead of {}", s.similarity, want.sim), inp); }
    if [s.ref_patch_start_time, s.ref_patch_end_time, s.deg_patch_start_time, s.deg_patch_end_time] != [0.0; 4] { return fail("times are set before matching", inp); }
    let t = m.measure_patch_similarity(&mut y, &mut x);
    if !close_tol(t.similarity, s.similarity, 1e-9) || t.freq_band_means.iter().zip(&s.freq_band_means).any(|(u, v)| !close_tol(*u, *v, 1e-9)) { return fail("swapping the patches changes the similarity", inp); }
    if a == b && (s.similarity - 1.0).abs() > 1e-9 && want.sim == 1.0 { return fail("identical patches are not fully similar", inp); }
    Ok(format!("{}x{} {:.6}", r, w, s.similarity))
}
fn main() { run("P18", &[("similarity", case, 7200)]) }
