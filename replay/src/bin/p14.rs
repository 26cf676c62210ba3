//! voice activity labels
use serde_json::json;
use visqol_rs::verif::rms_vad::RmsVad;
use visqol_rs::verif::vad_patch_creator::VadPatchCreator;
use vreplay::*;
fn chunks(g: &mut Rng, _c: usize) -> Result<String, Fail> { let (n, frame) = (g.int(1, 12), g.int(1, 40)); labels(g, n, frame, 1.0) }
/// long runs of quiet and of loud chunks
fn many(g: &mut Rng, c: usize) -> Result<String, Fail> { let (n, frame) = (long_len(g, 7, 13), g.int(1, 6)); labels(g, n, frame, [1.0, 0.01, 0.002][c % 3]) }
/// long chunks: their energy exceeds 32 bits
fn wide(g: &mut Rng, _c: usize) -> Result<String, Fail> { let (n, frame) = (g.int(1, 5), long_len(g, 8, 16)); labels(g, n, frame, 1.0) }
fn labels(g: &mut Rng, n: usize, frame: usize, change: f64) -> Result<String, Fail> {
    let mut a = 0i32;
    let data: Vec<Vec<i16>> = (0..n).map(|_| { if g.chance(change) { a = g.pick(&[0i32, 100, 4900, 4999, 5000, 5001, 5100, 20000, 32767]); } (0..frame).map(|_| match g.int(0, 3) { 0 => -a as i16, 1 => a as i16, 2 => if a == 32767 { -32768 } else { a as i16 }, _ => a as i16 }).collect() }).collect();
    let inp = json!({"chunks": data.iter().take(40).map(|c| c.iter().take(100).collect::<Vec<_>>()).collect::<Vec<_>>(), "count": n, "frame": frame});
    let mut v = RmsVad::default();
    let mut act = vec![];
    for c in &data {
        let e: i64 = c.iter().map(|x| *x as i64 * *x as i64).sum();
        let rms = (e as f64 / frame as f64).sqrt();
        let got = v.process_chunk(c);
        if !close(got, rms) { return fail(format!("level {} instead of {}", got, rms), inp); }
        act.push(rms >= 5000.0);
    }
    let mut want = vec![1.0, 1.0];
    for i in 2..n { want.push(if act[i] || act[i - 1] || act[i - 2] { 1.0 } else { 0.0 }); }
    let got = v.get_vad_results();
    if got != want { let k = (0..n.max(2)).find(|i| got.get(*i) != want.get(*i)); return fail(format!("{} labels instead of {}, label {:?} of {:?} instead of {:?}", got.len(), want.len(), k, &got[..got.len().min(40)], &want[..want.len().min(40)]), inp); }
    Ok(format!("{}x{} {:?}", n, frame, &want[..want.len().min(40)]))
}
fn signal(g: &mut Rng, _c: usize) -> Result<String, Fail> {
    let frame = g.int(1, 30);
    let frames = g.int(0, 14);
    let total = frames * frame + if g.chance(0.3) { g.int(0, frame - 1) } else { 0 };
    let start = g.int(0, 40);
    let mut x: Vec<f64> = vec![];
    while x.len() < start + total + g.int(0, 20) {
        let a = g.pick(&[0.0, 0.01, 0.1, 0.15, 0.1526, 0.2, 1.0, 1.3]);
        for _ in 0..g.int(1, 2 * frame) { x.push(match g.int(0, 2) { 0 => a, 1 => -a, _ => g.real(-a, a) }); }
    }
    let inp = json!({"signal": trunc(&x), "start": start, "total": total, "frame": frame});
    let got = VadPatchCreator::new(g.int(1, 30)).get_voice_activity(&x, start, total, frame);
    let want = vad(&x[start..start + total], frame);
    if got != want { return fail(format!("labels {:?} instead of {:?}", got, want), inp); }
    Ok(format!("{} {} {:?}", frame, total, want))
}
fn main() { run("P14", &[("chunks", chunks, 18000), ("signal", signal, 18000), ("many", many, 360), ("wide", wide, 360)]) }
