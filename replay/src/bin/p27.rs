//! what the command line program writes
use serde_json::{json, Value};
use vreplay::*;
#[path = "../e2e.rs"]
mod e2e;
#[path = "../cli.rs"]
mod cli;
use cli::*;
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => close(x.as_f64().unwrap(), y.as_f64().unwrap()),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| same(v, w))),
        _ => a == b,
    }
}
fn case(g: &mut Rng, c: usize) -> Result<String, Fail> {
    let s = Scratch::new();
    let m = [Mode::Scaled, Mode::Unscaled, Mode::Audio][c % 3];
    let n = g.int(1, 3);
    let p = pairs(g, &s, n);
    let (csv, dbg) = (s.file("results out.csv"), s.file("debug.json"));
    let (use_csv, use_dbg, verbose) = (c % 4 != 3, c % 3 != 2, c % 2 == 1);
    let old = if g.chance(0.5) { "{\"kept\": 1}\n" } else { "" };
    if use_dbg && !old.is_empty() { std::fs::write(&dbg, old).unwrap(); }
    if use_csv && g.chance(0.5) { std::fs::write(&csv, "stale,content,of,another,run\n").unwrap(); }
    let mut args = if n == 1 { a(&["--reference_file", &p[0].0, "--degraded_file", &p[0].1]) } else { a(&["--batch_input_csv", &batch(&s, "reference,degraded", &p)]) };
    if use_csv { args.extend(a(&["--results_csv", &csv])); }
    if use_dbg { args.extend(a(&["--output_debug", &dbg])); }
    if verbose { args.extend(a(&["--verbose"])); }
    let radius = g.pick(&[60usize, 0, 0, 1]);
    if radius != 60 { args.extend(a(&["--search_window_radius", &radius.to_string()])); }
    args.extend(mode_args(m));
    let inp = json!({"arguments": args, "pairs": p});
    let mut want = vec![];
    for (x, y) in &p { match expected(&s, m, radius, x, y) { Ok(r) => want.push(r), Err(_) => return Ok(String::new()) } }
    let rounds = if c % 5 == 4 { 2 } else { 1 };
    let mut o = cli(&s, &args);
    if rounds == 2 { o = cli(&s, &args); }
    if !o.ok { return fail(format!("failed: {}", o.err), inp); }
    let mos: Vec<f64> = want.iter().map(|w| w.moslqo).collect();
    if !close_all(&scores(&o.out), &mos) { return fail(format!("console scores {:?} instead of {:?}", scores(&o.out), mos), inp); }
    if verbose {
        let r: Vec<&str> = o.out.lines().filter_map(|l| l.strip_prefix("Reference Filepath:\t ")).collect();
        let d: Vec<&str> = o.out.lines().filter_map(|l| l.strip_prefix("Degraded Filepath:\t ")).collect();
        if r != p.iter().map(|x| x.0.as_str()).collect::<Vec<_>>() || d != p.iter().map(|x| x.1.as_str()).collect::<Vec<_>>() { return fail(format!("console file names {:?} {:?}", r, d), inp); }
        // band and patch tables: every number of every result appears, in order
        let cells: Vec<Vec<String>> = o.out.lines().filter(|l| l.starts_with('|')).map(|l| l.trim_matches('|').split('|').map(|x| x.trim().to_string()).collect()).collect();
        let mut exp: Vec<Vec<String>> = vec![];
        for w in &want {
            for (v, f) in w.fvnsim.iter().zip(&w.center_freq_bands) { exp.push(vec![v.to_string(), f.to_string()]); }
            for (i, q) in w.patch_sims.iter().enumerate() {
                exp.push(vec![i.to_string(), q.similarity.to_string(), format!("{}  -   {}", q.ref_patch_start_time, q.ref_patch_end_time), format!("{}  -   {}", q.deg_patch_start_time, q.deg_patch_end_time)]);
            }
        }
        let got: Vec<Vec<String>> = cells.into_iter().filter(|r| r[0].parse::<f64>().is_ok()).collect();
        if got != exp { return fail(format!("tables differ: {} rows instead of {}", got.len(), exp.len()), inp); }
    } else if o.out.contains("Filepath") { return fail("file names without verbose output", inp); }
    if use_csv {
        let rows = match csv_rows(&csv) { Some(r) => r, None => return fail("no readable results file", inp) };
        if rows.is_empty() || rows[0] != vec!["reference", "degraded", "moslqo"] { return fail(format!("header {:?}", rows.first()), inp); }
        if rows.len() != n + 1 { return fail(format!("{} result rows instead of {}", rows.len() - 1, n), inp); }
        for i in 0..n {
            if rows[i + 1].len() != 3 || rows[i + 1][0] != p[i].0 || rows[i + 1][1] != p[i].1 || !close(rows[i + 1][2].parse().unwrap_or(f64::NAN), mos[i]) {
                return fail(format!("row {}: {:?} instead of {:?}", i, rows[i + 1], (&p[i], mos[i])), inp);
            }
        }
    } else if std::path::Path::new(&csv).exists() && std::fs::read_to_string(&csv).unwrap() != "stale,content,of,another,run\n" { return fail("a results file nobody asked for", inp); }
    if use_dbg {
        let t = std::fs::read_to_string(&dbg).unwrap_or_default();
        if !t.starts_with(old) { return fail("earlier debug output was not kept", inp); }
        let v: Vec<Value> = match serde_json::Deserializer::from_str(&t[old.len()..]).into_iter::<Value>().collect::<Result<Vec<_>, _>>() { Ok(v) => v, Err(e) => return fail(format!("debug output is not JSON: {}", e), inp) };
        let exp: Vec<Value> = (0..rounds).flat_map(|_| want.iter().map(|w| serde_json::to_value(w).unwrap())).collect();
        if v.len() != exp.len() { return fail(format!("{} debug results instead of {}", v.len(), exp.len()), inp); }
        for (i, (x, y)) in v.iter().zip(&exp).enumerate() {
            if !same(x, y) { return fail(format!("debug result {} differs", i), inp); }
            for k in ["moslqo", "vnsim", "fvnsim", "fstdnsim", "fvdegenergy", "center_freq_bands", "patch_sims"] { if x.get(k).is_none() { return fail(format!("debug result lacks {}", k), inp); } }
        }
    } else if std::path::Path::new(&dbg).exists() { return fail("debug output nobody asked for", inp); }
    let lost = want.iter().flat_map(|w| &w.patch_sims).filter(|q| q.deg_patch_end_time == 0.0).count();
    Ok(format!("lost {} of {} {} {} {} {:?}", lost, n, use_csv, use_dbg, verbose, mos[0]))
}
fn main() { run("P27", &[("outputs", case, 36)]) }
