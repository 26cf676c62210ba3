//! patches that the degraded signal cannot hold
use serde_json::json;
use visqol_rs::verif::comparison_patches_selector::ComparisonPatchesSelector as Sel;
use visqol_rs::verif::neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure as N;
use vreplay::*;
#[path = "../composed.rs"]
mod composed;
#[path = "../dp.rs"]
mod dp;
use dp::*;
fn count(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let n = if c % 10 == 0 { g.int(9, 600) } else { g.int(0, 8) };
    let size = g.int(1, 30);
    let mut s = g.int(0, 20);
    let starts: Vec<usize> = (0..n).map(|_| { let r = s; s += g.int(1, 40); r }).collect();
    let frames = g.int(0, s + 30);
    let got = Sel::calc_max_num_patches(&starts, frames, size);
    let want = kept(&starts, frames, size);
    if got != want { return fail(format!("{} patches kept instead of {}", got, want), json!({"starts": starts, "frames": frames, "patch": size})); }
    Ok(format!("{} of {} {}", got, n, frames))
}
fn drop(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let mut p = problem(g, c);
    let f = g.int(1, dims(&p.deg).1);
    for r in p.deg.iter_mut() { r.truncate(f); }
    if c % 2 == 0 { let k = g.int(0, 40); let rows = p.refs.len(); let tot = dims(&p.refs).1; p.starts = p.starts.iter().map(|s| s + k).collect(); for _ in 0..rows {} let z: Vec<Vec<f64>> = p.refs.iter().map(|r| { let mut v = vec![1.0; k]; v.extend(r); v }).collect(); p.refs = z; let _ = tot; }
    let inp = p.json();
    let r = quiet(|| Sel::new(N::default()).find_most_optimal_deg_patches(&mut p.patches(), &mut p.starts.clone(), &to_a2(&p.deg), p.dt, p.radius as i32).map(|v| v.len()).map_err(|e| e.to_string()));
    let k = kept(&p.starts, f, p.size);
    match r {
        Ok(Ok(n)) => if k == 0 { fail(format!("{} matches although every reference patch starts beyond the degraded signal", n), inp) } else if n != k { fail(format!("{} matches instead of {}", n, k), inp) } else { Ok(format!("kept {} of {} f {}", k, p.starts.len(), f)) },
        Ok(Err(e)) => if k > 0 { fail(format!("error although {} patches fit: {}", k, e), inp) } else if !e.contains("too short, different, or misaligned") { fail(format!("wrong error: {}", e), inp) } else { Ok(format!("none of {} f {}", p.starts.len(), f)) },
        Err(m) => if k == 0 { fail(format!("panicked: {}", m), inp) } else { Ok(String::new()) },
    }
}
fn main() { run("P21", &[("comparison", composed::comparison, 160), ("count", count, 32000), ("drop", drop, 8000)]) }
