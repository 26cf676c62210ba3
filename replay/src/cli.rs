#![allow(dead_code)]
//! Runs the command line program on recordings it is given.
use crate::e2e::*;
use std::process::Command;
use visqol_rs::similarity_result::SimilarityResult;
use visqol_rs::variant::Variant;
use visqol_rs::visqol_manager::VisqolManager;
use vreplay::*;
pub struct Out { pub ok: bool, pub out: String, pub err: String }
pub fn cli(dir: &Scratch, args: &[String]) -> Out {
    let exe = std::env::var("VREPLAY_CLI").unwrap_or_else(|_| {
        let mut p = std::env::current_exe().unwrap();
        p.set_file_name("visqol_cli");
        p.to_str().unwrap().to_string()
    });
    let o = Command::new(exe).args(args).current_dir(&dir.0).output().unwrap();
    Out { ok: o.status.success(), out: String::from_utf8_lossy(&o.stdout).into(), err: String::from_utf8_lossy(&o.stderr).into() }
}
pub fn a(v: &[&str]) -> Vec<String> { v.iter().map(|s| s.to_string()).collect() }
#[derive(Clone, Copy, PartialEq)]
pub enum Mode { Scaled, Unscaled, Audio }
/// options, sub-command last
pub fn mode_args(m: Mode) -> Vec<String> {
    match m {
        Mode::Scaled => a(&["wideband"]),
        Mode::Unscaled => a(&["wideband", "--use_unscaled_speech_mos_mapping"]),
        Mode::Audio => { let mut v = a(&["fullband", "--similarity_to_quality_model"]); v.push(model()); v }
    }
}
/// what the library says about a pair, with a manager of its own
pub fn expected(s: &Scratch, m: Mode, radius: usize, r: &str, d: &str) -> Result<SimilarityResult, String> {
    let (r, d) = (&s.file(r)[..], &s.file(d)[..]);
    let f = || match m {
        Mode::Audio => VisqolManager::<32>::new(Variant::Fullband { model_path: model() }, radius).run(r, d).map_err(|e| e.to_string()),
        _ => VisqolManager::<21>::new(Variant::Wideband { use_unscaled_mos_mapping: m == Mode::Unscaled }, radius).run(r, d).map_err(|e| e.to_string()),
    };
    quiet(f).and_then(|x| x)
}
/// recordings named with spaces, commas and quotes now and then
pub fn pairs(g: &mut Rng, s: &Scratch, n: usize) -> Vec<(String, String)> {
    let rate = 8000u32;
    let deco = g.pick(&["", " with space", ",comma", "\"q", ";", "ü", "  "]);
    let lead = g.pick(&["", "", "#", " ", "\"", "'", "r,", "\t"]);
    let files: Vec<(String, String)> = (0..n).map(|i| {
        let len = g.int(7500, 9500);
        let r = speechy(g, len);
        let (r, mut d) = if g.chance(0.3) { let l = if g.chance(0.5) { g.int(12000, 18000) } else { len }; opposed(g, l) } else { let d = degrade(g, &r); (r, d) };
        if g.chance(0.25) { d.truncate(g.int(4000, 6500)); }
        // names relative to the directory the program runs in
        let tail = g.pick(&[".wav", ".wav", ".wav "]);
        let (a, b) = (format!("{}r{}{}{}", lead, i, deco, tail), format!("{}d{}{}{}", lead, i, deco, tail));
        write_wav(&s.file(&a), rate, 1, &quant(&r));
        write_wav(&s.file(&b), rate, 1, &quant(&d));
        (a, b)
    }).collect();
    // a recording may appear in several pairs
    (0..n).map(|i| if g.chance(0.2) { (files[g.int(0, n - 1)].0.clone(), files[g.int(0, n - 1)].1.clone()) } else { files[i].clone() }).collect()
}
/// two signals that are loud where the other is quiet, band by band: patches that match nothing
pub fn opposed(g: &mut Rng, n: usize) -> (Vec<f64>, Vec<f64>) {
    let (f, h) = (g.real(0.1, 0.4), g.real(1.0, 2.5));
    let p = g.int(1500, 9000);
    let q = g.int(0, p);
    let x = |i: usize, k: bool| -> f64 { let a = ((i + q) / p) % 2 == 0; 0.4 * if a == k { (i as f64 * f).sin() } else { (i as f64 * h).sin() } };
    ((0..n).map(|i| x(i, true) + 0.003 * g.real(-1.0, 1.0)).collect(), (0..n).map(|i| x(i, false) + 0.003 * g.real(-1.0, 1.0)).collect())
}
/// a CSV field, quoted when it has to be
pub fn field(x: &str) -> String { if x.contains([',', '"', '\n']) { format!("\"{}\"", x.replace('"', "\"\"")) } else { x.into() } }
pub fn batch(s: &Scratch, head: &str, p: &[(String, String)]) -> String {
    let f = s.file("batch input.csv");
    let mut t = format!("{}\n", head);
    for (a, b) in p { t += &format!("{},{}\n", field(a), field(b)); }
    std::fs::write(&f, t).unwrap();
    f
}
/// the scores printed, in order
pub fn scores(out: &str) -> Vec<f64> { out.lines().filter_map(|l| l.strip_prefix("MOS-LQO:")).filter_map(|x| x.trim().parse().ok()).collect() }
pub fn csv_rows(path: &str) -> Option<Vec<Vec<String>>> {
    let mut r = csv::ReaderBuilder::new().has_headers(false).from_path(path).ok()?;
    r.records().map(|x| x.ok().map(|x| x.iter().map(|s| s.to_string()).collect())).collect()
}
