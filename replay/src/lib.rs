//! Case driver and reference oracles shared by the per-property harnesses.
//! Nothing here depends on the code under test.
use serde_json::{json, Value};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub mod oracle;
pub use oracle::*;

/// numbers the current tree mentions and the verified one did not (set by the check when a
/// proof failed or could not be attempted): sizes and values worth trying, never out of range
fn dict() -> &'static [f64] {
    static D: std::sync::OnceLock<Vec<f64>> = std::sync::OnceLock::new();
    D.get_or_init(|| std::env::var("VREPLAY_DICT").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).filter(|x: &f64| x.is_finite()).collect())
}

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// lo..=hi
    pub fn int(&mut self, lo: usize, hi: usize) -> usize {
        if !dict().is_empty() && hi - lo >= 8 && self.next() % 5 == 0 {
            if let Some(x) = self.known(lo, hi) { return x; }
        }
        lo + (self.next() % (hi - lo + 1) as u64) as usize
    }
    /// one of the given sampling rates, or one the current tree mentions
    pub fn rate(&mut self, v: &[u32]) -> u32 {
        if !dict().is_empty() && self.next() % 3 == 0 {
            if let Some(x) = self.known(4000, 96000) { return x as u32; }
        }
        self.pick(v)
    }
    pub fn words(&self) -> bool { !dict().is_empty() }
    /// a whole number derived from one the current tree mentions
    pub fn known(&mut self, lo: usize, hi: usize) -> Option<usize> {
        let w: Vec<usize> = dict().iter().filter(|x| x.fract() == 0.0 && **x >= 2.0 && **x < 1e15).map(|x| *x as usize).collect();
        if w.is_empty() { return None; }
        let d = w[(self.next() % w.len() as u64) as usize];
        let k = 1 + (self.next() % (hi / d).max(1) as u64) as usize;
        let x = match self.next() % 8 {
            0 | 1 => d,
            2 => d - 1,
            3 => d + 1,
            4 => k * d,
            5 => k * d - 1,
            6 => k * d + 1,
            _ => if d <= 20 { 1 << d } else { d },
        };
        (lo..=hi).contains(&x).then_some(x)
    }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn real(&mut self, lo: f64, hi: f64) -> f64 {
        if !dict().is_empty() && self.next() % 24 == 0 {
            let d = dict()[(self.next() % dict().len() as u64) as usize];
            let x = if self.next() % 2 == 0 { d } else { -d };
            if lo <= x && x <= hi { return x; }
        }
        lo + (hi - lo) * self.unit()
    }
    pub fn chance(&mut self, p: f64) -> bool { self.unit() < p }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { v[self.int(0, v.len() - 1)].clone() }
    /// a value of varied magnitude and sign
    pub fn num(&mut self) -> f64 {
        if !dict().is_empty() && self.next() % 10 == 0 {
            return self.real(-1e4, 1e4);
        }
        match self.int(0, 9) {
            0 => 0.0,
            1 => 1.0,
            2 => -1.0,
            3 => self.real(-1e-6, 1e-6),
            4 => self.real(-1e4, 1e4),
            _ => self.real(-2.0, 2.0),
        }
    }
    /// a signal of n samples: noise, bursts, tones, silence, steps
    pub fn signal(&mut self, n: usize) -> Vec<f64> {
        let kind = self.int(0, 7);
        let amp = self.pick(&[1.0, 0.5, 0.1, 0.01]);
        let f = self.real(0.005, 0.4);
        let g = self.real(0.001, 0.02);
        (0..n)
            .map(|i| {
                let t = i as f64;
                match kind {
                    0 | 1 | 2 => self.real(-amp, amp),
                    3 => amp * (t * f * std::f64::consts::TAU).sin(),
                    4 => amp * (t * f * std::f64::consts::TAU).sin() * (t * g * std::f64::consts::TAU).sin().max(0.0),
                    5 => if (t * g).sin() > 0.3 { self.real(-amp, amp) } else { 0.0 },
                    6 => if self.chance(0.05) { self.real(-amp, amp) } else { 0.0 },
                    _ => amp * ((t * f * 6.0).sin() + 0.3 * self.real(-1.0, 1.0)),
                }
            })
            .collect()
    }
}

#[derive(Debug)]
pub struct Fail {
    pub what: String,
    pub input: Value,
}
pub fn fail<T>(what: impl Into<String>, input: Value) -> Result<T, Fail> { Err(Fail { what: what.into(), input }) }

/// One property case: reads its input from the generator and checks it.
/// Ok(key) counts the case; an empty key marks a trivial one.
pub type CaseFn = fn(&mut Rng, usize) -> Result<String, Fail>;

pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
    })
}

pub fn close(a: f64, b: f64) -> bool { close_tol(a, b, 1e-9) }
pub fn close_tol(a: f64, b: f64, t: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || a.is_finite() && b.is_finite() && (a - b).abs() <= t * 1.0f64.max(a.abs()).max(b.abs())
}
pub fn close_all(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y)) }
pub fn close_rel(a: &[f64], b: &[f64], t: f64) -> bool {
    let s = a.iter().chain(b).filter(|x| x.is_finite()).fold(1e-12f64, |m, x| m.max(x.abs()));
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= t * s || x == y || (x.is_nan() && y.is_nan()))
}
pub fn first_diff(a: &[f64], b: &[f64]) -> String {
    if a.len() != b.len() {
        return format!("length {} instead of {}", a.len(), b.len());
    }
    for i in 0..a.len() {
        if !close(a[i], b[i]) {
            return format!("element {} is {} instead of {}", i, a[i], b[i]);
        }
    }
    "no element differs by more than the tolerance".into()
}
pub fn trunc(v: &[f64]) -> Value {
    if v.len() <= 400 { json!(v) } else { json!({"len": v.len(), "head": &v[..200]}) }
}

/// Runs the case kinds of a property and prints one JSON object.
pub fn run(id: &str, kinds: &[(&str, CaseFn, usize)]) {
    let mut seed = 1u64;
    let mut mult = 1.0f64;
    let trace = std::env::var("VREPLAY_TRACE").is_ok();
    let mut only: Option<(String, usize)> = None;
    let mut limit = 60.0f64;
    let a: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--seed" => seed = a[i + 1].parse().unwrap(),
            "--mult" => mult = a[i + 1].parse().unwrap(),
            "--limit" => limit = a[i + 1].parse().unwrap(),
            "--only" => only = Some((a[i + 1].clone(), a[i + 2].parse().unwrap())),
            _ => {}
        }
        i += if a[i] == "--only" { 3 } else { 2 };
    }
    std::panic::set_hook(Box::new(|_| {}));
    // a case that does not return is a failure too: say which one it is and stop
    let now = std::sync::Arc::new(std::sync::Mutex::new((String::new(), 0usize, Instant::now(), false)));
    {
        let (now, id) = (now.clone(), id.to_string());
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let g = now.lock().unwrap();
            if g.3 {
                return;
            }
            if g.2.elapsed().as_secs() > 100 && !g.0.is_empty() {
                println!("{}", json!({"property": id, "evaluations": 0, "distinct_nontrivial": 0, "per_kind": {}, "samples": [], "wall_s": 0,
                    "failure": {"property": id, "kind": g.0, "case": g.1, "seed": seed, "what": "did not return within 100 s", "input": null}}));
                std::process::exit(3);
            }
        });
    }
    let t0 = Instant::now();
    let mut evals = 0usize;
    let mut distinct: HashSet<String> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut failure = Value::Null;
    let mut per_kind = serde_json::Map::new();
    'out: for (ki, (kind, f, n)) in kinds.iter().enumerate() {
        let n = ((*n as f64 * mult).ceil() as usize).max(1);
        let kt = Instant::now();
        let mut done = 0usize;
        for c in 0..n {
            if let Some((k, x)) = &only {
                if k != kind || *x != c {
                    continue;
                }
            }
            // a kind may not starve the ones after it
            if kt.elapsed().as_secs_f64() > limit * (*kind_share(kinds.len(), ki)) {
                break;
            }
            let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x100000001b3);
            for b in id.bytes().chain(kind.bytes()) {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
            let mut rng = Rng(h.wrapping_add((c as u64).wrapping_mul(0x9E3779B97F4A7C15)));
            evals += 1;
            done += 1;
            if trace { eprintln!("case {} {}", kind, c); }
            *now.lock().unwrap() = (kind.to_string(), c, Instant::now(), false);
            let r = quiet(|| f(&mut rng, c));
            let r = match r {
                Ok(r) => r,
                Err(p) => Err(Fail { what: format!("panicked: {}", p), input: json!({"note": "regenerate the case with --only"}) }),
            };
            match r {
                Ok(key) => {
                    if !key.is_empty() {
                        if samples.len() < 6 && c < 2 {
                            samples.push(json!({"kind": kind, "case": c, "key": key}));
                        }
                        distinct.insert(format!("{}|{}", kind, key));
                    }
                }
                Err(e) => {
                    failure = json!({"property": id, "kind": kind, "case": c, "seed": seed, "what": e.what, "input": e.input});
                    break 'out;
                }
            }
        }
        per_kind.insert(kind.to_string(), json!(done));
    }
    now.lock().unwrap().3 = true;
    println!(
        "{}",
        json!({"property": id, "evaluations": evals, "distinct_nontrivial": distinct.len(), "per_kind": per_kind,
               "samples": samples, "failure": failure, "wall_s": t0.elapsed().as_secs_f64()})
    );
    std::process::exit(if failure.is_null() { 0 } else { 3 });
}
fn kind_share(n: usize, _i: usize) -> &'static f64 {
    if n <= 1 { &1.0 } else if n == 2 { &0.5 } else { &0.34 }
}

/// a scratch directory removed on drop
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Self {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let base = std::env::var("VREPLAY_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
        let p = base.join(format!("vreplay-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn file(&self, n: &str) -> String { self.0.join(n).to_str().unwrap().to_string() }
}
impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

pub fn to_a2(m: &Mat) -> ndarray::Array2<f64> {
    let (r, c) = dims(m);
    ndarray::Array2::from_shape_fn((r, c), |(i, j)| m[i][j])
}
pub fn from_a2(a: &ndarray::Array2<f64>) -> Mat { (0..a.nrows()).map(|i| (0..a.ncols()).map(|j| a[(i, j)]).collect()).collect() }
pub fn rand_mat(g: &mut Rng, r: usize, c: usize, lo: f64, hi: f64) -> Mat {
    let style = g.int(0, 3);
    (0..r).map(|i| (0..c).map(|j| match style { 0 => g.real(lo, hi), 1 => if g.chance(0.3) { lo } else { g.real(lo, hi) }, 2 => lo + (hi - lo) * ((i * 7 + j * 3) % 11) as f64 / 11.0, _ => g.real(lo, hi) }).collect()).collect()
}
pub fn mats_close(a: &Mat, b: &Mat, t: f64) -> bool {
    dims(a) == dims(b) && a.iter().flatten().zip(b.iter().flatten()).all(|(x, y)| close_tol(*x, *y, t))
}
pub fn mat_diff(a: &Mat, b: &Mat) -> String {
    if dims(a) != dims(b) {
        return format!("shape {:?} instead of {:?}", dims(a), dims(b));
    }
    for i in 0..a.len() {
        for j in 0..a[i].len() {
            if !close(a[i][j], b[i][j]) {
                return format!("element ({},{}) is {} instead of {}", i, j, a[i][j], b[i][j]);
            }
        }
    }
    "equal within tolerance".into()
}
