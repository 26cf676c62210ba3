//! reading of recordings
use serde_json::json;
use visqol_rs::verif::audio_utils::load_as_mono;
use vreplay::*;
#[path = "../e2e.rs"]
mod e2e;
fn good(g: &mut Rng, _c: usize) -> Result<String, Fail> { let ch = g.int(1, 6); let n = g.int(0, 200); read(g, ch, n) }
fn long(g: &mut Rng, c: usize) -> Result<String, Fail> { let n = long_len(g, 10, 18); read(g, 1 + c % 3, n) }
fn read(g: &mut Rng, ch: usize, n: usize) -> Result<String, Fail> {
    let s = Scratch::new();
    let rate = g.rate(&[8000u32, 16000, 22050, 44100, 48000, 96000]);
    let data: Vec<i16> = (0..n * ch).map(|_| match g.int(0, 5) { 0 => 32767, 1 => -32768, 2 => 0, _ => g.next() as i16 }).collect();
    let p = s.file("a.wav");
    e2e::write_wav(&p, rate, ch as u16, &data);
    let inp = json!({"channels": ch, "rate": rate, "samples": data.iter().take(60).collect::<Vec<_>>()});
    let a = match load_as_mono(&p) { Ok(a) => a, Err(e) => return fail(format!("rejected: {}", e), inp) };
    let want: Vec<f64> = data.chunks(ch).map(|f| f.iter().map(|v| *v as f64 / 32767.0).sum::<f64>() / ch as f64).collect();
    let got = a.data_matrix.to_vec();
    if a.sample_rate != rate { return fail(format!("rate {} instead of {}", a.sample_rate, rate), inp); }
    if !close_all(&got, &want) { return fail(format!("samples: {}", first_diff(&got, &want)), inp); }
    if !close(a.get_duration(), n as f64 / rate as f64) || a.len() != n || a.is_empty() != (n == 0) { return fail("duration or length is wrong", inp); }
    Ok(format!("{}ch {} @{}", ch, n, rate))
}
fn bad(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let s = Scratch::new();
    let p = s.file("b.wav");
    let n = g.int(2, 100);
    let what = match c % 5 {
        0 | 1 | 2 => {
            let bits = [8u16, 24, 32][c % 3];
            let mut w = hound::WavWriter::create(&p, hound::WavSpec { channels: 1, sample_rate: 16000, bits_per_sample: bits, sample_format: hound::SampleFormat::Int }).unwrap();
            for _ in 0..n { w.write_sample(g.int(0, 100) as i32).unwrap(); }
            w.finalize().unwrap();
            match load_as_mono(&p) {
                Ok(_) => return fail(format!("a {} bit file was accepted", bits), json!({"bits": bits})),
                Err(e) => { let t = e.to_string(); if !(t.contains("16 bit") && t.contains(&bits.to_string())) { return fail(format!("wrong error for {} bits: {}", bits, t), json!({"bits": bits})); } }
            }
            format!("{} bit", bits)
        }
        3 => {
            let d: Vec<i16> = (0..n).map(|_| g.next() as i16).collect();
            e2e::write_wav(&p, 16000, 1, &d);
            let b = std::fs::read(&p).unwrap();
            let cut = g.int(1, (b.len() - 44).min(n * 2 - 1));
            std::fs::write(&p, &b[..b.len() - cut]).unwrap();
            match quiet(|| load_as_mono(&p).is_err()) { Ok(true) => {} o => return fail(format!("a file cut by {} bytes: {:?}", cut, o.map(|e| if e { "error" } else { "accepted" })), json!({"cut": cut, "samples": n})) }
            format!("cut {}", cut)
        }
        _ => {
            std::fs::write(&p, vec![0u8; n]).unwrap();
            for q in [p.clone(), s.file("missing.wav")] {
                match quiet(|| load_as_mono(&q).is_err()) { Ok(true) => {} o => return fail(format!("no recording: {:?}", o), json!({"bytes": n})) }
            }
            format!("junk {}", n)
        }
    };
    Ok(what)
}
fn main() { run("P04", &[("recordings", good, 400), ("rejected", bad, 200), ("long", long, 40)]) }
