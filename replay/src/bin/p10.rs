//! alignment and truncation to a common span
use serde_json::json;
use visqol_rs::verif::alignment::{align_and_truncate, globally_align};
use visqol_rs::verif::audio_signal::AudioSignal;
use vreplay::*;
fn case(g: &mut Rng, _c: usize) -> Result<String, Fail> { let n = g.int(8, 400); cut(g, n, 9) }
fn long(g: &mut Rng, _c: usize) -> Result<String, Fail> { let n = long_len(g, 9, 16); cut(g, n, 2000) }
fn cut(g: &mut Rng, n: usize, most: usize) -> Result<String, Fail> {
    let rate = g.rate(&[8000u32, 11025, 16000, 22050, 44100, 48000, 12345]);
    let burst = g.int(1, most);
    let r: Vec<f64> = (0..n).map(|i| if (i / burst) % 5 == 0 { g.real(-1.0, 1.0) } else { g.real(-0.02, 0.02) }).collect();
    let k = g.int(0, n / 2);
    let d: Vec<f64> = match g.int(0, 4) {
        0 => r[k..].to_vec(),
        1 => { let mut z = vec![0.0; k]; z.extend(&r); z }
        2 => { let mut z = vec![0.0; k]; z.extend(&r); z.truncate(n); z }
        3 => { let mut z = r[k..].to_vec(); z.extend(vec![0.0; k]); z }
        _ => g.signal(n),
    };
    let inp = json!({"reference": trunc(&r), "degraded": trunc(&d), "rate": rate});
    let (rs, ds) = (AudioSignal::new(&r, rate), AudioSignal::new(&d, rate));
    let (al, secs) = match quiet(|| globally_align(&rs, &ds)) { Ok(Some(x)) => x, _ => return Ok(String::new()) };
    let lag = (secs * rate as f64).round() as i64;
    let al = al.data_matrix.to_vec();
    let (wr, wd): (Vec<f64>, Vec<f64>) = if n < al.len() {
        // a positive lag drops the padding from the front of both; a longer degraded signal is cut to the reference
        let from = lag.max(0) as usize;
        (r[from..].to_vec(), al[from..n].to_vec())
    } else if n > al.len() { (r[..al.len()].to_vec(), al.clone()) } else { (r.clone(), al.clone()) };
    let (or, od, os) = match align_and_truncate(&rs, &ds) { Some(x) => x, None => return fail("no alignment", inp) };
    let (or_, od_) = (or.data_matrix.to_vec(), od.data_matrix.to_vec());
    if or_.len() != od_.len() { return fail(format!("lengths {} and {} differ", or_.len(), od_.len()), inp); }
    if or_ != wr { return fail(format!("reference (lag {}): {}", lag, first_diff(&or_, &wr)), inp); }
    if od_ != wd { return fail(format!("degraded (lag {}): {}", lag, first_diff(&od_, &wd)), inp); }
    if os != secs || or.sample_rate != rate || od.sample_rate != rate { return fail("lag or sample rate differ from the alignment", inp); }
    Ok(format!("lag {} n {} m {} rate {}", lag, n, d.len(), rate))
}
fn main() { run("P10", &[("truncate", case, 9000), ("long", long, 90)]) }
