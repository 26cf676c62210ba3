//! one step of the matching: cumulative table and predecessors
use serde_json::json;
use visqol_rs::verif::comparison_patches_selector::ComparisonPatchesSelector as Sel;
use visqol_rs::verif::neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure as N;
use visqol_rs::verif::patch_similarity_comparator::PatchSimilarityComparator;
use vreplay::*;
#[path = "../dp.rs"]
mod dp;
use dp::*;
fn step(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let p = if c % 30 == 0 { wide_problem(g, c) } else { problem(g, c) };
    let f = dims(&p.deg).1;
    let n = p.starts.len();
    let i = g.int(0, n - 1);
    let w = p.radius * p.size;
    let mut cum: Vec<Vec<f64>> = (0..n).map(|_| (0..f).map(|_| if g.chance(0.3) { 0.5 } else { g.real(0.0, n as f64) }).collect()).collect();
    let mut back = vec![vec![7usize; f]; n];
    let (c0, b0) = (cum.clone(), back.clone());
    let mut deg: Vec<_> = (0..f).map(|o| to_a2(&window_at(&p.deg, o, p.size))).collect();
    let mut inp = p.json();
    inp["table"] = json!(c0);
    inp["patch"] = json!(i);
    Sel::new(N::default()).find_most_optimal_deg_patch(&to_a2(&p.deg), &mut p.patch(i), &mut deg, &mut cum, &mut back, &p.starts, i, w as i32);
    let (mut wc, mut wb) = (c0.clone(), b0.clone());
    for o in p.starts[i].saturating_sub(w)..=(p.starts[i] + w) {
        if o >= f { break; }
        let mut s = N::default().measure_patch_similarity(&mut p.patch(i), &mut to_a2(&window_at(&p.deg, o, p.size))).similarity;
        if s.is_nan() { return Ok(String::new()); }
        let mut b = usize::MAX;
        if i > 0 {
            let lo = p.starts[i - 1].saturating_sub(w);
            let mut top = f64::MIN;
            for q in (lo..o).rev() { if c0[i - 1][q] > top { top = c0[i - 1][q]; b = q; } }
            s += top;
            if c0[i - 1][o] > s { s = c0[i - 1][o]; b = o; }
        }
        wc[i][o] = s;
        wb[i][o] = b;
    }
    for r in 0..n {
        if !close_all(&cum[r], &wc[r]) { return fail(format!("table row {}: {}", r, first_diff(&cum[r], &wc[r])), inp); }
        if back[r] != wb[r] { return fail(format!("predecessors of row {}: {:?} instead of {:?}", r, back[r], wb[r]), inp); }
    }
    Ok(format!("{}/{} {} {}", i, n, f, w))
}
fn main() { run("P20", &[("step", step, 7200)]) }
