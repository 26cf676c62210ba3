//! similarity to quality mappings
use serde_json::json;
use visqol_rs::verif::similarity_to_quality_mapper::SimilarityToQualityMapper;
use visqol_rs::verif::speech_similarity_to_quality_mapper::SpeechSimilarityToQualityMapper;
use visqol_rs::verif::svr_similarity_to_quality_mapper::SvrSimilarityToQualityMapper;
use vreplay::*;
#[path = "../e2e.rs"]
mod e2e;
use e2e::model;
fn vec_of(g: &mut Rng, n: usize, c: usize) -> Vec<f64> {
    let base = g.real(0.0, 1.0);
    (0..n).map(|_| match c % 4 { 0 => g.real(0.0, 1.0), 1 => (base + g.real(-0.05, 0.05)).min(1.0), 2 => g.real(-0.5, 1.5), _ => base }).collect()
}
fn speech(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let n = g.int(1, 32);
    let v = vec_of(g, n, c);
    let inp = json!({"similarities": v});
    let x = v.iter().sum::<f64>() / n as f64;
    for (s, k) in [(true, 1.2031409), (false, 1.0)] {
        let want = ((1.1559455 + (4.6851153 * (x - 0.7655232)).exp()) * k).clamp(1.0, 5.0);
        let got = SpeechSimilarityToQualityMapper::new(s).predict_quality(&v);
        if !close(got, want) { return fail(format!("scaled={}: score {} instead of {}", s, got, want), inp); }
    }
    Ok(format!("{:.6}", x))
}
/// nu-SVR with an RBF kernel, read from the model file
fn svr(path: &str) -> (f64, f64, Vec<(f64, Vec<f64>)>) {
    let t = std::fs::read_to_string(path).unwrap();
    let (mut gamma, mut rho, mut sv, mut body) = (0.0, 0.0, vec![], false);
    for l in t.lines() {
        if body {
            let mut it = l.split_whitespace();
            if let Some(a) = it.next() {
                let mut f = vec![0.0; 64];
                let mut top = 0;
                for e in it { let (i, x) = e.split_once(':').unwrap(); let i: usize = i.parse().unwrap(); f[i] = x.parse().unwrap(); top = top.max(i); }
                let _ = top;
                sv.push((a.parse().unwrap(), f));
            }
        } else if let Some(x) = l.strip_prefix("gamma ") { gamma = x.trim().parse().unwrap() } else if let Some(x) = l.strip_prefix("rho ") { rho = x.trim().parse().unwrap() } else if l.starts_with("SV") { body = true }
    }
    (gamma, rho, sv)
}
fn audio(g: &mut Rng, c: usize) -> Result<String, Fail> {
    thread_local! {
        static M: (SvrSimilarityToQualityMapper, (f64, f64, Vec<(f64, Vec<f64>)>)) = (SvrSimilarityToQualityMapper::new(&model()), svr(&model()));
    }
    let v = vec_of(g, 32, c);
    let inp = json!({"similarities": v});
    let (got, want) = M.with(|(m, (gamma, rho, sv))| {
        let lo = if sv.iter().any(|s| s.1[0] != 0.0) { 0 } else { 1 };
        let y: f64 = sv.iter().map(|(a, f)| { let d: f64 = (0..32).map(|i| { let e = v[i] - f[i + lo]; e * e }).sum(); a * (-gamma * d).exp() }).sum::<f64>() - rho;
        (m.predict_quality(&v), y.clamp(1.0, 5.0))
    });
    if (got - want).abs() > 2e-3 { return fail(format!("score {} instead of {}", got, want), inp); }
    Ok(format!("{:.5}", got))
}
/// models of every kind: the mapping depends on nothing but the file it was given
fn any_model(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let s = Scratch::new();
    let f = s.file("model.txt");
    let n = g.int(1, 8);
    let k = g.int(1, 5);
    let (gamma, rho) = (g.real(0.01, 2.0), g.real(-8.0, 4.0));
    let sv: Vec<(f64, Vec<f64>)> = (0..k).map(|_| (g.real(-2.0, 2.0), (0..n).map(|_| g.real(0.0, 1.0)).collect())).collect();
    let mut t = format!("svm_type nu_svr\nkernel_type rbf\ngamma {}\nnr_class 2\ntotal_sv {}\nrho {}\nSV\n", gamma, k, rho);
    for (a, x) in &sv { t += &format!("{} {}\n", a, x.iter().enumerate().map(|(i, v)| format!("{}:{}", i, v)).collect::<Vec<_>>().join(" ")); }
    std::fs::write(&f, &t).unwrap();
    let m = SvrSimilarityToQualityMapper::new(&f);
    let v = vec_of(g, n, c);
    let y: f64 = sv.iter().map(|(a, f)| { let d: f64 = (0..n).map(|i| { let e = v[i] - f[i]; e * e }).sum(); a * (-gamma * d).exp() }).sum::<f64>() - rho;
    let (got, want) = (m.predict_quality(&v), y.clamp(1.0, 5.0));
    if !((got - want).abs() <= 2e-3) { return fail(format!("score {} instead of {}", got, want), json!({"model": t, "similarities": v})); }
    Ok(format!("{:.5}", got))
}
/// without a model there is no score
fn no_model(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let s = Scratch::new();
    let f = s.file("model.txt");
    match c % 3 { 0 => {} 1 => std::fs::write(&f, "").unwrap(), _ => std::fs::write(&f, format!("svm_type {}\n", g.int(0, 9))).unwrap() }
    match quiet(|| SvrSimilarityToQualityMapper::new(&f).predict_quality(&[0.9; 32])) { Ok(x) => fail(format!("score {} from a model that cannot be read", x), json!({"case": c % 3})), Err(_) => Ok("refused".into()) }
}
fn main() { run("P03", &[("speech", speech, 3000), ("audio", audio, 800), ("model", any_model, 400), ("no model", no_model, 9)]) }
