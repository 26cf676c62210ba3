#![allow(dead_code)]
//! Reference formulation of the patch matching.
use ndarray::Array2;
use serde_json::{json, Value};
use visqol_rs::verif::neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure as N;
use visqol_rs::verif::patch_similarity_comparator::{PatchSimilarityComparator, PatchSimilarityResult};
use vreplay::*;
pub struct Problem { pub refs: Mat, pub deg: Mat, pub starts: Vec<usize>, pub size: usize, pub radius: usize, pub dt: f64 }
impl Problem {
    pub fn patch(&self, i: usize) -> Array2<f64> { to_a2(&self.refs.iter().map(|r| r[self.starts[i]..self.starts[i] + self.size].to_vec()).collect()) }
    pub fn patches(&self) -> Vec<Array2<f64>> { (0..self.starts.len()).map(|i| self.patch(i)).collect() }
    pub fn json(&self) -> Value { json!({"reference": self.refs, "degraded": self.deg, "starts": self.starts, "patch_size": self.size, "radius": self.radius, "frame_duration": self.dt}) }
}
/// many patches and a wide search
pub fn wide_problem(g: &mut Rng, c: usize) -> Problem { let n = g.int(6, 45); let mut p = problem_of(g, c, n); p.radius = g.int(2, 40); p }
pub fn problem(g: &mut Rng, c: usize) -> Problem { let n = g.int(1, 5); problem_of(g, c, n) }
fn problem_of(g: &mut Rng, c: usize, n: usize) -> Problem {
    let rows = g.int(1, 5);
    let size = g.int(2, 7);
    let mut starts = vec![];
    let mut s = g.int(0, 4);
    for _ in 0..n { starts.push(s); s += size + match g.int(0, 19) { 0 => g.int(20, 200), 1..=10 => 0, _ => g.int(0, 6) }; }
    let total = starts[n - 1] + size + g.int(0, 5);
    let refs = rand_mat(g, rows, total, 0.0, 40.0);
    let noise = g.pick(&[0.0, 0.5, 5.0, 40.0]);
    let mut deg: Mat = refs.iter().map(|r| r.iter().map(|v| v + noise * g.real(0.0, 1.0)).collect()).collect();
    match c % 5 {
        0 => { let k = g.int(0, size); for r in deg.iter_mut() { r.drain(..k.min(r.len() - 1)); } }
        1 => { let k = g.int(0, size); for r in deg.iter_mut() { let mut z = vec![0.0; k]; z.append(r); *r = z; } }
        2 => { let a = g.int(0, total - 1); let b = (a + g.int(1, 2 * size)).min(total); for r in deg.iter_mut() { for v in &mut r[a..b] { *v = 0.0; } } }
        3 => { let k = g.int(1, total); for r in deg.iter_mut() { r.truncate(k); } }
        _ => { deg = rand_mat(g, rows, total, 0.0, 40.0); }
    }
    Problem { refs, deg, starts, size, radius: g.int(0, 3), dt: g.pick(&[1.0, 0.02, 0.5]) }
}
pub type Res = (Vec<f64>, Vec<f64>, Vec<f64>, f64, [f64; 4]);
pub struct Reference { pub offsets: Vec<usize>, pub lost: Vec<bool>, pub results: Vec<Res> }
pub fn window_at(m: &Mat, o: usize, size: usize) -> Mat { m.iter().map(|r| (o..o + size).map(|j| if j < r.len() { r[j] } else { 0.0 }).collect()).collect() }
pub fn kept(starts: &[usize], frames: usize, size: usize) -> usize {
    let mut k = starts.len();
    while k > 0 && starts[k - 1].saturating_sub(size / 2) > frames { k -= 1; }
    k
}
fn measure(p: &Problem, i: usize, o: usize) -> PatchSimilarityResult { N::default().measure_patch_similarity(&mut p.patch(i), &mut to_a2(&window_at(&p.deg, o, p.size))) }
/// None: no reference patch can be matched, or a quantity is not a number
pub fn reference(p: &Problem) -> Option<Reference> {
    let f = dims(&p.deg).1;
    let w = p.radius * p.size;
    let k = kept(&p.starts, f, p.size);
    if k == 0 { return None; }
    let n = p.starts.len();
    let mut cum = vec![vec![0.0f64; f]; n];
    let mut back: Vec<Vec<i64>> = vec![vec![0; f]; n];
    for i in 0..n {
        for o in p.starts[i].saturating_sub(w)..=(p.starts[i] + w) {
            if o >= f { break; }
            let mut s = measure(p, i, o).similarity;
            if s.is_nan() { return None; }
            let mut b = -1i64;
            if i > 0 {
                let mut top = f64::MIN;
                let lo = p.starts[i - 1].saturating_sub(w);
                // of equally good predecessors the latest one
                for q in lo..o { if cum[i - 1][q] >= top { top = cum[i - 1][q]; b = q as i64; } }
                s += top;
                if cum[i - 1][o] > s { s = cum[i - 1][o]; b = o as i64; }
            }
            cum[i][o] = s;
            back[i][o] = b;
        }
    }
    let last = k - 1;
    let mut off = 0usize;
    let mut top = f64::MIN;
    for o in p.starts[last].saturating_sub(w)..=(p.starts[last] + w) {
        if o < f && cum[last][o] > top { top = cum[last][o]; off = o; }
    }
    let mut offsets = vec![0; k];
    let mut lost = vec![false; k];
    let mut results = vec![];
    for i in (0..k).rev() {
        let m = measure(p, i, off);
        offsets[i] = off;
        lost[i] = back[i][off] == off as i64;
        let dur = p.dt * p.size as f64;
        let rs = p.starts[i] as f64 * p.dt;
        let ds = off as f64 * p.dt;
        results.push(if lost[i] {
            (vec![0.0; m.freq_band_means.len()], m.freq_band_stddevs, m.freq_band_deg_energy, 0.0, [rs, rs + dur, 0.0, 0.0])
        } else {
            (m.freq_band_means, m.freq_band_stddevs, m.freq_band_deg_energy, m.similarity, [rs, rs + dur, ds, ds + dur])
        });
        if i > 0 {
            if back[i][off] < 0 { return None; }
            off = back[i][off] as usize;
        }
    }
    results.reverse();
    Some(Reference { offsets, lost, results })
}
