//! 3x3 smoothing with replicated border
use serde_json::json;
use visqol_rs::verif::convolution_2d::{add_matrix_boundary, copy_matrix_within_padding, perform_valid_2d_conv_with_boundary};
use vreplay::*;
fn case(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let (r, w) = if c < 36 { (1 + c / 6, 1 + c % 6) } else if c % 100 == 0 { (g.int(1, 70), long_len(g, 6, 10)) } else if c % 100 == 50 { (long_len(g, 6, 10), g.int(1, 40)) } else { (g.int(1, 25), g.int(1, 32)) };
    // faint matrices are smoothed like any other
    let scale = g.pick(&[1.0, 1.0, 1.0, 1e-6, 1e-11, 1e-30, 1e9]);
    let m: Mat = rand_mat(g, r, w, -3.0, 30.0).iter().map(|x| x.iter().map(|v| v * scale).collect()).collect();
    let mut k = [[0.0; 3]; 3];
    for row in k.iter_mut() { for v in row.iter_mut() { *v = g.real(-1.0, 1.0); } }
    let k = if g.chance(0.3) { NSIM_W } else { k };
    let inp = json!({"kernel": k, "matrix": m});
    let mut a = to_a2(&m);
    let out = from_a2(&perform_valid_2d_conv_with_boundary(&ndarray::arr2(&k), &mut a));
    let want = conv3(&k, &m);
    if from_a2(&a) != m { return fail("the input matrix was modified", inp); }
    let up = |m: &Mat| -> Mat { m.iter().map(|x| x.iter().map(|v| v / scale).collect()).collect() };
    if !mats_close(&up(&out), &up(&want), 1e-9) { return fail(format!("convolution of a matrix of scale {:e}: {}", scale, mat_diff(&up(&out), &up(&want))), inp); }
    let bd = from_a2(&add_matrix_boundary(&mut a));
    let want: Mat = (0..r + 2).map(|i| (0..w + 2).map(|j| m[i.max(1).min(r) - 1][j.max(1).min(w) - 1]).collect()).collect();
    if bd != want { return fail(format!("border: {}", mat_diff(&bd, &want)), inp); }
    Ok(format!("{}x{} {:.4}", r, w, k[0][1]))
}
fn pad(g: &mut Rng, _c: usize) -> Result<String, Fail> {
    let (r, w) = (g.int(1, 9), g.int(1, 9));
    let m = rand_mat(g, r, w, 1.0, 9.0);
    let (a, b, c, d) = (g.int(0, 3), g.int(0, 3), g.int(0, 3), g.int(0, 3));
    let got = from_a2(&copy_matrix_within_padding(&to_a2(&m), a, b, c, d));
    let want: Mat = (0..a + r + b).map(|i| (0..c + w + d).map(|j| if i >= a && i < a + r && j >= c && j < c + w { m[i - a][j - c] } else { 0.0 }).collect()).collect();
    if got != want { return fail(format!("padding {:?}: {}", (a, b, c, d), mat_diff(&got, &want)), json!({"matrix": m})); }
    Ok(format!("{}x{} {:?}", r, w, (a, b, c, d)))
}
fn main() { run("P17", &[("convolution", case, 9000), ("padding", pad, 3000)]) }
