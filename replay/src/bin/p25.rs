//! unusual inputs are refused with an error, not a crash
use serde_json::json;
use visqol_rs::variant::Variant;
use visqol_rs::verif::audio_signal::AudioSignal;
use visqol_rs::visqol_manager::VisqolManager;
use vreplay::*;
#[path = "../e2e.rs"]
mod e2e;
use e2e::*;
#[path = "../axioms.rs"]
mod axioms;
fn check(r: Result<Result<visqol_rs::similarity_result::SimilarityResult, Box<dyn std::error::Error>>, String>, n: usize, inp: serde_json::Value) -> Result<String, Fail> {
    match r {
        Err(m) => fail(format!("panicked: {}", m), inp),
        Ok(Err(e)) => Ok(format!("{} {}", e.to_string().split_whitespace().take(6).collect::<Vec<_>>().join(" "), n % 7)),
        Ok(Ok(x)) => {
            if x.moslqo.is_nan() { return fail("the score is not a number", inp); }
            if !(1.0..=5.0).contains(&x.moslqo) { return fail(format!("score {}", x.moslqo), inp); }
            Ok(format!("score {:.4}", x.moslqo))
        }
    }
}
/// recordings of every kind and length through the public entry point
fn files(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let s = Scratch::new();
    let rate = g.pick(&[8000u32, 16000, 8000, 11025]);
    let (ra, rb) = if c % 5 == 0 { (rate, g.pick(&[22050u32, 32000, 48000])) } else { (rate, rate) };
    let len = |g: &mut Rng| match g.int(0, 5) { 0 => g.int(0, 40), 1 => g.int(0, 2000), 2 => g.int(2000, rate as usize), _ => g.int(rate as usize * 7 / 10, rate as usize * 3 / 2) };
    let n = len(g);
    let m = if g.chance(0.6) { n } else { len(g) };
    let r = if g.chance(0.1) { vec![0.0; n] } else if n > 60 { speechy(g, n) } else { g.signal(n) };
    let d = if g.chance(0.1) { vec![0.0; m] } else if g.chance(0.5) && n == m && n > 100 { degrade(g, &r) } else if m > 60 { speechy(g, m) } else { g.signal(m) };
    let (fa, fb) = (s.file("a.wav"), s.file("b.wav"));
    write_wav(&fa, ra, 1, &quant(&r));
    write_wav(&fb, rb, 1, &quant(&d));
    let inp = json!({"rates": [ra, rb], "lengths": [n, d.len()], "reference": quant(&r).iter().take(12000).collect::<Vec<_>>(), "degraded": quant(&d).iter().take(12000).collect::<Vec<_>>()});
    let fa2 = if g.chance(0.05) { s.file("missing.wav") } else { fa };
    let r = if c % 4 == 3 {
        quiet(|| VisqolManager::<32>::new(Variant::Fullband { model_path: model() }, 3).run(&fa2, &fb))
    } else {
        quiet(|| VisqolManager::<21>::new(Variant::Wideband { use_unscaled_mos_mapping: c % 2 == 0 }, 3).run(&fa2, &fb))
    };
    if ra != rb {
        if let Ok(Ok(_)) = r { return fail("recordings of different sample rates were compared", inp); }
        if let Ok(Err(e)) = &r {
            let t = e.to_string();
            if !fa2.contains("missing") && !(t.contains(&ra.to_string()) && t.contains(&rb.to_string())) { return fail(format!("wrong error: {}", t), inp); }
        }
    }
    check(r, n, inp)
}
fn signals(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let rate = 8000u32;
    let n = g.int(0, 14000);
    let r = if n > 60 { speechy(g, n) } else { g.signal(n) };
    let mut d = if n > 100 { degrade(g, &r) } else { g.signal(n) };
    if c % 3 == 0 && d.len() > 10 { let k = g.int(0, d.len() - 1); d.drain(..k); }
    if c % 3 == 1 { let k = g.int(0, 9000); let mut z = vec![0.0; k]; z.extend(d); d = z; }
    let inp = json!({"rate": rate, "reference": trunc(&r), "degraded": trunc(&d), "lengths": [r.len(), d.len()]});
    let x = quiet(|| VisqolManager::<21>::new(Variant::Wideband { use_unscaled_mos_mapping: false }, 4).compute_results(&mut AudioSignal::new(&r, rate), &mut AudioSignal::new(&d, rate)));
    check(x, n, inp)
}
/// minutes of a recording at a sample rate whose analysis hop is not a quarter of its window
fn long(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let rate = if c == 0 { 1013u32 } else { g.pick(&[513u32, 751, 1013, 1489]) };
    let n = rate as usize * if c == 0 { 121 } else { g.int(60, 100) };
    let r = speechy(g, n);
    let d = if c == 0 { r.clone() } else { degrade(g, &r) };
    let radius = if c == 0 { 4 } else { g.int(1, 6) };
    let x = quiet(|| VisqolManager::<21>::new(Variant::Wideband { use_unscaled_mos_mapping: false }, radius).compute_results(&mut AudioSignal::new(&r, rate), &mut AudioSignal::new(&d, rate)));
    if let Ok(Ok(x)) = &x {
        // every patch lies inside the recording it was taken from
        for p in &x.patch_sims {
            if !(p.ref_patch_start_time >= 0.0 && p.ref_patch_start_time <= p.ref_patch_end_time && p.ref_patch_end_time <= n as f64 / rate as f64 + 0.5) { return fail(format!("a patch from {} s to {} s of {} s", p.ref_patch_start_time, p.ref_patch_end_time, n as f64 / rate as f64), json!({"rate": rate, "length": n})); }
        }
    }
    check(x, n, json!({"rate": rate, "length": n, "search_radius": radius, "identical": c == 0}))
}
fn main() { run("P25", &[("recordings", files, 60), ("signals", signals, 60), ("long", long, 3), ("floating point", axioms::check, 60)]) }
