//! comparisons do not influence each other, nor their inputs
use serde_json::json;
use visqol_rs::similarity_result::SimilarityResult;
use visqol_rs::variant::Variant;
use visqol_rs::verif::audio_signal::AudioSignal;
use visqol_rs::visqol_manager::VisqolManager;
use vreplay::*;
#[path = "../composed.rs"]
mod composed;
#[path = "../e2e.rs"]
mod e2e;
use e2e::*;
/// how a comparator is configured: scaled mapping, search window, the model with another offset
#[derive(Clone, Copy, PartialEq)]
struct Cfg { unscaled: bool, radius: usize, other: bool }
const USUAL: Cfg = Cfg { unscaled: false, radius: 4, other: false };
fn other_model() -> String {
    use std::sync::OnceLock;
    static P: OnceLock<(String, Scratch)> = OnceLock::new();
    P.get_or_init(|| {
        let t = Scratch::new();
        let m: String = std::fs::read_to_string(model()).unwrap().lines().map(|l| if l.starts_with("rho ") { "rho -2.5\n".to_string() } else { format!("{}\n", l) }).collect();
        std::fs::write(t.file("m.txt"), m).unwrap();
        (t.file("m.txt"), t)
    }).0.clone()
}
fn manager<const N: usize>(audio: bool, c: Cfg) -> VisqolManager<N> {
    let path = if c.other { std::env::var("VREPLAY_M").unwrap_or_else(|_| other_model()) } else { model() };
    VisqolManager::new(if audio { Variant::Fullband { model_path: path } } else { Variant::Wideband { use_unscaled_mos_mapping: c.unscaled } }, c.radius)
}
fn text(r: &Result<Result<SimilarityResult, Box<dyn std::error::Error>>, String>) -> String {
    match r { Ok(Ok(x)) => serde_json::to_string(x).unwrap(), Ok(Err(e)) => format!("error {}", e), Err(_) => "panic".into() }
}
fn put(path: &str, v: &[f64]) { std::fs::write(path, v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()).unwrap() }
fn take(path: &str) -> Vec<f64> { std::fs::read(path).unwrap().chunks(8).map(|b| f64::from_le_bytes(b.try_into().unwrap())).collect() }
/// the result of one comparison in a process of its own
fn alone(audio: bool, cfg: Cfg, rate: u32, r: &[f64], d: &[f64]) -> String {
    let t = Scratch::new();
    put(&t.file("r"), r);
    put(&t.file("d"), d);
    let o = std::process::Command::new(std::env::current_exe().unwrap()).env("VREPLAY_ALONE", format!("{}:{}:{}:{}:{}", audio, rate, cfg.unscaled, cfg.radius, cfg.other)).env("VREPLAY_M", other_model()).env("VREPLAY_R", t.file("r")).env("VREPLAY_D", t.file("d")).output().unwrap();
    String::from_utf8_lossy(&o.stdout).into_owned()
}
fn child(spec: &str) {
    let f: Vec<&str> = spec.split(':').collect();
    let (audio, rate) = (f[0], f[1].parse::<u32>().unwrap());
    let cfg = Cfg { unscaled: f[2] == "true", radius: f[3].parse().unwrap(), other: f[4] == "true" };
    let (r, d) = (take(&std::env::var("VREPLAY_R").unwrap()), take(&std::env::var("VREPLAY_D").unwrap()));
    std::panic::set_hook(Box::new(|_| {}));
    let (mut a, mut b) = (AudioSignal::new(&r, rate), AudioSignal::new(&d, rate));
    print!("{}", if audio == "true" { text(&quiet(|| manager::<32>(true, cfg).compute_results(&mut a, &mut b))) } else { text(&quiet(|| manager::<21>(false, cfg).compute_results(&mut a, &mut b))) });
}
fn go<const N: usize>(g: &mut Rng, audio: bool) -> Result<String, Fail> {
    let rate = if audio { 16000u32 } else { 8000 };
    let pairs: Vec<(Vec<f64>, Vec<f64>)> = (0..g.int(2, 3)).map(|i| {
        let n = if g.chance(0.15) { g.int(0, 500) } else { g.int(rate as usize * 9 / 10, rate as usize * 3 / 2) };
        let r = if g.chance(0.1) { vec![0.0; n] } else if n == 0 { vec![] } else { speechy(g, n) };
        let d = if n == 0 || i == 7 { vec![] } else { degrade(g, &r) };
        (r, d)
    }).collect();
    // recordings of several rates in one history
    let rates: Vec<u32> = pairs.iter().map(|_| if g.chance(0.5) { rate } else { g.pick(&[8000u32, 11025, 12000, 16000]) }).collect();
    // and comparators of several configurations in one process
    let cfgs: Vec<Cfg> = pairs.iter().map(|_| if g.chance(0.5) { USUAL } else { Cfg { unscaled: g.chance(0.5), radius: g.pick(&[1usize, 4, 8]), other: g.chance(0.5) } }).collect();
    let inp = json!({"bands": N, "rates": rates, "configurations": cfgs.iter().map(|c| json!([c.unscaled, c.radius, c.other])).collect::<Vec<_>>(), "pairs": pairs.iter().map(|(a, b)| json!({"reference": trunc(a), "degraded": trunc(b)})).collect::<Vec<_>>()});
    let mut shared: Vec<(Cfg, VisqolManager<N>)> = vec![];
    for c in &cfgs { if !shared.iter().any(|x| x.0 == *c) { shared.push((*c, manager::<N>(audio, *c))); } }
    let mut order: Vec<usize> = (0..pairs.len()).chain(0..pairs.len()).collect();
    for i in 0..order.len() { let j = g.int(0, order.len() - 1); order.swap(i, j); }
    // comparators of one process do not share anything either
    let fresh: Vec<String> = pairs.iter().zip(&rates).zip(&cfgs).map(|(((r, d), &rate), &c)| alone(audio, c, rate, r, d)).collect();
    let here: Vec<String> = pairs.iter().zip(&rates).zip(&cfgs).map(|(((r, d), &rate), &c)| text(&quiet(|| manager::<N>(audio, c).compute_results(&mut AudioSignal::new(r, rate), &mut AudioSignal::new(d, rate))))).collect();
    for k in 0..pairs.len() {
        if here[k] != fresh[k] { return fail(format!("pair {} gives another result with a new comparator in a process that compared other pairs: {} instead of {}", k, &here[k][..here[k].len().min(300)], &fresh[k][..fresh[k].len().min(300)]), inp); }
    }
    let mut good = 0;
    for k in order {
        let (r, d) = &pairs[k];
        let rate = rates[k];
        let (mut a, mut b) = (AudioSignal::new(r, rate), AudioSignal::new(d, rate));
        let used = shared.iter_mut().find(|x| x.0 == cfgs[k]).unwrap();
        let got = text(&quiet(|| used.1.compute_results(&mut a, &mut b)));
        if got == "panic" { used.1 = manager::<N>(audio, cfgs[k]); }
        if got.starts_with('{') { good += 1; }
        if got != fresh[k] { return fail(format!("pair {} gives another result when other pairs were compared before: {} instead of {}", k, &got[..got.len().min(300)], &fresh[k][..fresh[k].len().min(300)]), inp); }
        if a.data_matrix.to_vec() != *r || b.data_matrix.to_vec() != *d || a.sample_rate != rate || b.sample_rate != rate { return fail("an input signal was modified", inp); }
    }
    Ok(if good == 0 { String::new() } else { format!("{} results {}", good, fresh[0].len()) })
}
fn case(g: &mut Rng, c: usize) -> Result<String, Fail> { if c % 3 == 0 { go::<32>(g, true) } else { go::<21>(g, false) } }
/// scaling a recording's level does not change what a comparison of it with itself yields
fn same(g: &mut Rng, _c: usize) -> Result<String, Fail> {
    let rate = 8000u32;
    let n = g.int(8000, 12000);
    let r = speechy(g, n);
    let k = g.pick(&[0.5, 0.25, 1.0]);
    let d: Vec<f64> = r.iter().map(|v| v * k).collect();
    let x = text(&quiet(|| manager::<21>(false, USUAL).compute_results(&mut AudioSignal::new(&r, rate), &mut AudioSignal::new(&d, rate))));
    let v: serde_json::Value = match serde_json::from_str(&x) { Ok(v) => v, Err(_) => return Ok(String::new()) };
    let s = v["vnsim"].as_f64().unwrap_or(f64::NAN);
    if s.is_nan() { return Ok(String::new()); }
    if (s - 1.0).abs() > 1e-6 { return fail(format!("a recording compared with itself at gain {} has similarity {}", k, s), json!({"signal": trunc(&r), "gain": k})); }
    Ok(format!("{:.9} {}", s, n))
}
fn main() {
    if let Ok(s) = std::env::var("VREPLAY_ALONE") { return child(&s); }
    run("P24", &[("stages", composed::managed, 8), ("reuse", case, 9), ("self", same, 6)])
}
