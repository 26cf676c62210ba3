//! global alignment of the degraded signal
use ndarray::Array1;
use serde_json::json;
use visqol_rs::verif::alignment::globally_align;
use visqol_rs::verif::audio_signal::AudioSignal;
use visqol_rs::verif::envelope::calculate_upper_env;
use visqol_rs::verif::xcorr::calculate_best_lag;
use vreplay::*;
#[path = "../composed.rs"]
mod composed;
fn case(g: &mut Rng, c: usize) -> Result<String, Fail> { let n = g.int(4, 400); align(g, c, n, 12) }
fn long(g: &mut Rng, c: usize) -> Result<String, Fail> { let n = long_len(g, 9, 16); align(g, c, n, 2000) }
fn align(g: &mut Rng, c: usize, n: usize, most: usize) -> Result<String, Fail> {
    let burst = g.int(1, most);
    let mut r: Vec<f64> = (0..n).map(|i| if (i / burst) % 5 == 0 { g.real(-1.0, 1.0) } else { g.real(-0.02, 0.02) }).collect();
    if c % 5 == 0 { r = g.signal(n); }
    let k = g.int(0, n * 3 / 4);
    let d: Vec<f64> = match g.int(0, 3) {
        0 => r[k..].to_vec(),
        1 => { let mut z = vec![0.0; k]; z.extend(&r); z }
        2 => { let mut z = vec![0.0; k]; z.extend(&r); z.truncate(n); z }
        _ => { let m = g.int(n / 2 + 1, n + n / 2); g.signal(m) }
    };
    if d.is_empty() { return Ok(String::new()); }
    let (ra, rb) = (g.rate(&[8000u32, 16000, 48000]), g.rate(&[8000u32, 16000, 48000]));
    let rb = if g.chance(0.8) { ra } else { rb };
    let inp = json!({"reference": trunc(&r), "degraded": trunc(&d), "reference_rate": ra, "degraded_rate": rb});
    let (rs, ds) = (AudioSignal::new(&r, ra), AudioSignal::new(&d, rb));
    let er = calculate_upper_env(&Array1::from_vec(r.clone())).unwrap();
    let ed = calculate_upper_env(&Array1::from_vec(d.clone())).unwrap();
    let lag = match calculate_best_lag(er.as_slice().unwrap(), ed.as_slice().unwrap()) { Some(l) => l, None => return Ok(String::new()) };
    let far = lag.unsigned_abs() as usize > n / 2;
    if lag < 0 && !far && (-lag) as usize > d.len() { return Ok(String::new()); }
    let (out, secs) = match globally_align(&rs, &ds) { Some(x) => x, None => return fail("no alignment", inp) };
    if rs.data_matrix.to_vec() != r || ds.data_matrix.to_vec() != d { return fail("an input signal was modified", inp); }
    let (want, ws): (Vec<f64>, f64) = if lag == 0 || far { (d.clone(), 0.0) } else if lag < 0 { (d[(-lag) as usize..].to_vec(), lag as f64 / rb as f64) } else { let mut z = vec![0.0; lag as usize]; z.extend(&d); (z, lag as f64 / rb as f64) };
    if out.sample_rate != rb { return fail("the sample rate changed", inp); }
    if out.data_matrix.to_vec() != want { return fail(format!("aligned signal for lag {}: {}", lag, first_diff(&out.data_matrix.to_vec(), &want)), inp); }
    if !close(secs, ws) { return fail(format!("reported lag {} s instead of {} s", secs, ws), inp); }
    Ok(format!("lag {} of {} far {}", lag, n, far))
}
fn empty(_g: &mut Rng, c: usize) -> Result<String, Fail> {
    let x = AudioSignal::new(&[], 8000);
    let y = AudioSignal::new(&[0.1, 0.2, 0.3, 0.1], 8000);
    let (a, b) = if c == 0 { (&x, &y) } else { (&y, &x) };
    match quiet(|| globally_align(a, b).is_none()) { Ok(true) => Ok(format!("empty {}", c)), o => fail(format!("aligning an empty signal: {:?}", o), json!(c)) }
}
fn main() { run("P09", &[("stages", composed::managed, 8), ("align", case, 6000), ("long", long, 80), ("empty", empty, 2)]) }
