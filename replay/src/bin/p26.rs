//! which pairs the command line program compares
use serde_json::json;
use vreplay::*;
#[path = "../e2e.rs"]
mod e2e;
#[path = "../cli.rs"]
mod cli;
use cli::*;
use e2e::*;
fn compare(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let s = Scratch::new();
    let m = [Mode::Scaled, Mode::Unscaled, Mode::Scaled, Mode::Audio][c % 4];
    let single = c % 3 == 0;
    let n = if single { 1 } else { g.int(0, 3) };
    let p = if n == 0 { vec![] } else { pairs(g, &s, n) };
    let radius = g.pick(&[60usize, 2, 4]);
    let mut args = if single { a(&["--reference_file", &p[0].0, "--degraded_file", &p[0].1]) } else { a(&["--batch_input_csv", &batch(&s, "reference,degraded", &p)]) };
    if radius != 60 { args.extend(a(&["--search_window_radius", &radius.to_string()])); }
    args.extend(mode_args(m));
    let inp = json!({"arguments": args, "pairs": p});
    let want: Vec<Result<f64, String>> = p.iter().map(|(x, y)| expected(&s, m, radius, x, y).map(|r| r.moslqo)).collect();
    let o = cli(&s, &args);
    let got = scores(&o.out);
    if want.iter().any(|w| w.is_err()) { return if o.ok { fail("a pair that cannot be compared did not end the program with an error", inp) } else { Ok("error".into()) }; }
    if !o.ok { return fail(format!("failed: {}", o.err), inp); }
    let want: Vec<f64> = want.into_iter().map(|x| x.unwrap()).collect();
    if !close_all(&got, &want) { return fail(format!("scores {:?} instead of {:?}", got, want), inp); }
    Ok(format!("{} scores {:?}", got.len(), got.first()))
}
fn refused(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let s = Scratch::new();
    let p = pairs(g, &s, 1);
    let (r, d) = &p[0];
    let b = batch(&s, "reference,degraded", &p);
    let (what, args): (&str, Vec<String>) = match c % 9 {
        0 => ("a reference without a degraded recording", a(&["--reference_file", r])),
        1 => ("a degraded recording without a reference", a(&["--degraded_file", d])),
        2 => ("a batch file together with a pair", a(&["--batch_input_csv", &b, "--reference_file", r, "--degraded_file", d])),
        3 => ("a batch file that does not exist", a(&["--batch_input_csv", &s.file("none.csv")])),
        4 => { let f = s.file("short.csv"); std::fs::write(&f, format!("reference,degraded\n{}\n", field(r))).unwrap(); ("a batch row with one column", a(&["--batch_input_csv", &f])) }
        5 => { let f = s.file("bad.csv"); std::fs::write(&f, format!("reference,degraded\n{},{}\n{},{}\n", field(r), field(d), field(r), s.file("none.wav"))).unwrap(); ("a batch with a recording that does not exist", a(&["--batch_input_csv", &f])) }
        6 => { let f = s.file("uneven.csv"); std::fs::write(&f, format!("reference,degraded\n{},{}\n{}\n", field(r), field(d), field(r))).unwrap(); ("a batch with a short row", a(&["--batch_input_csv", &f])) }
        7 => ("no recordings at all", if c % 2 == 0 { vec![] } else { a(&["--verbose"]) }),
        _ => ("a recording that does not exist", a(&["--reference_file", &s.file("none.wav"), "--degraded_file", d])),
    };
    let csv = s.file("out.csv");
    let mut args = args;
    args.extend(a(&["--results_csv", &csv]));
    args.extend(mode_args(Mode::Scaled));
    let inp = json!({"arguments": args});
    let o = cli(&s, &args);
    if o.ok { return fail(format!("accepted {}", what), inp); }
    if o.err.contains("panicked") { return fail(format!("panicked on {}: {}", what, o.err.lines().next().unwrap_or("")), inp); }
    if !scores(&o.out).is_empty() || std::path::Path::new(&csv).exists() { return fail(format!("printed or wrote a result for {}", what), inp); }
    Ok(format!("{} {}", what, r))
}
/// what is not said is as documented: a search radius of 60 patches and the model in ./model
fn defaults(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let s = Scratch::new();
    let audio = c % 2 == 1;
    let (r, d) = ("r.wav".to_string(), "d.wav".to_string());
    let n = g.int(7500, 9500);
    let mut x = voice(g, n);
    let mut y = x.clone();
    if !audio {
        // the second half is found only by a wide search
        let pause = g.int(8000 * 6, 8000 * 22);
        let z = voice(g, 12000);
        y.extend((0..pause).map(|_| 0.0));
        x.extend(&z);
        y.extend(&z);
    }
    write_wav(&s.file(&r), 8000, 1, &quant(&x));
    write_wav(&s.file(&d), 8000, 1, &quant(&y));
    let mut args = a(&["--reference_file", &r, "--degraded_file", &d]);
    args.extend(a(&[if audio { "fullband" } else { "wideband" }]));
    if audio {
        std::fs::create_dir(s.file("model")).unwrap();
        std::fs::copy(model(), s.file("model/libsvm_nu_svr_model.txt")).unwrap();
    }
    let inp = json!({"arguments": args, "samples": [x.len(), y.len()]});
    let want = expected(&s, if audio { Mode::Audio } else { Mode::Scaled }, 60, &r, &d).map(|r| r.moslqo);
    let o = cli(&s, &args);
    match want {
        Err(e) => if o.ok { fail(format!("accepted although {}", e), inp) } else { Ok("error".into()) },
        Ok(w) if !o.ok => fail(format!("failed instead of score {}: {}", w, o.err), inp),
        Ok(w) => if close_all(&scores(&o.out), &[w]) { Ok(format!("{:.4}", w)) } else { fail(format!("scores {:?} instead of {:?}", scores(&o.out), w), inp) },
    }
}
fn voice(g: &mut Rng, n: usize) -> Vec<f64> {
    let f = g.real(0.05, 0.3);
    (0..n).map(|i| { let t = i as f64; 0.3 * (t * f * (1.0 + 0.2 * (t * 0.0004).sin())).sin() * (0.6 + 0.4 * (t * g_step(n)).sin()) + 0.02 * g.real(-1.0, 1.0) }).collect()
}
fn g_step(n: usize) -> f64 { 11.0 / n as f64 }
fn main() { run("P26", &[("compare", compare, 24), ("refused", refused, 18), ("defaults", defaults, 4)]) }
