//! Independent reference definitions, written from the property statements.
pub type Mat = Vec<Vec<f64>>; // rows of columns

pub fn dims(m: &Mat) -> (usize, usize) { (m.len(), if m.is_empty() { 0 } else { m[0].len() }) }

/// 3x3 kernel slid over the matrix with the border replicated once
pub fn conv3(k: &[[f64; 3]; 3], m: &Mat) -> Mat {
    let (r, c) = dims(m);
    let at = |i: isize, j: isize| m[i.clamp(0, r as isize - 1) as usize][j.clamp(0, c as isize - 1) as usize];
    (0..r as isize)
        .map(|i| {
            (0..c as isize)
                .map(|j| {
                    let mut s = 0.0;
                    for dc in 0..3isize {
                        for dr in 0..3isize {
                            // the kernel is consumed back to front, column by column
                            let idx = 8 - (dc * 3 + dr);
                            s += at(i + dr - 1, j + dc - 1) * k[(idx / 3) as usize][(idx % 3) as usize];
                        }
                    }
                    s
                })
                .collect()
        })
        .collect()
}

pub const NSIM_W: [[f64; 3]; 3] = [
    [0.0113033910173052, 0.0838251475442633, 0.0113033910173052],
    [0.0838251475442633, 0.619485845753726, 0.0838251475442633],
    [0.0113033910173052, 0.0838251475442633, 0.0113033910173052],
];

pub struct Nsim {
    pub means: Vec<f64>,
    pub stds: Vec<f64>,
    pub energy: Vec<f64>,
    pub sim: f64,
}

pub fn nsim(r: &Mat, d: &Mat, range: f64) -> Nsim {
    let c1 = (0.01 * range) * (0.01 * range);
    let c3 = (0.03 * range) * (0.03 * range) / 2.0;
    let mul = |a: &Mat, b: &Mat| -> Mat { a.iter().zip(b).map(|(x, y)| x.iter().zip(y).map(|(p, q)| p * q).collect()).collect() };
    let (mr, md) = (conv3(&NSIM_W, r), conv3(&NSIM_W, d));
    let (rr, dd, rd) = (conv3(&NSIM_W, &mul(r, r)), conv3(&NSIM_W, &mul(d, d)), conv3(&NSIM_W, &mul(r, d)));
    let (n, c) = dims(r);
    let mut map = vec![vec![0.0; c]; n];
    for i in 0..n {
        for j in 0..c {
            let (x, y) = (mr[i][j], md[i][j]);
            let inten = (2.0 * (x * y) + c1) / (x * x + y * y + c1);
            let p = (rr[i][j] - x * x) * (dd[i][j] - y * y);
            let den = if p < 0.0 { c3 } else { p.sqrt() + c3 };
            map[i][j] = inten * ((rd[i][j] - x * y + c3) / den);
        }
    }
    let mean = |v: &Vec<f64>| v.iter().sum::<f64>() / v.len() as f64;
    let means: Vec<f64> = map.iter().map(mean).collect();
    let stds = map
        .iter()
        .map(|v| {
            let m = mean(v);
            (v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / (v.len() as f64 - 1.0)).sqrt()
        })
        .collect();
    let energy = d.iter().map(mean).collect();
    let sim = mean(&means);
    Nsim { means, stds, energy, sim }
}

/// second order section, transposed direct form II
pub fn biquad(num: &[f64; 3], den: &[f64; 3], x: &[f64], z: &mut [f64; 2]) -> Vec<f64> {
    x.iter()
        .map(|&s| {
            let y = num[0] * s + z[0];
            z[0] = num[1] * s + z[1] - den[1] * y;
            z[1] = num[2] * s - den[2] * y;
            y
        })
        .collect()
}

/// recursive transform of a power of two many values
fn fft(v: Vec<(f64, f64)>, sign: f64) -> Vec<(f64, f64)> {
    let n = v.len();
    if n == 1 {
        return v;
    }
    let e = fft(v.iter().step_by(2).copied().collect(), sign);
    let o = fft(v.iter().skip(1).step_by(2).copied().collect(), sign);
    let mut r = vec![(0.0, 0.0); n];
    for k in 0..n / 2 {
        let (s, c) = (sign * std::f64::consts::TAU * k as f64 / n as f64).sin_cos();
        let t = (o[k].0 * c - o[k].1 * s, o[k].0 * s + o[k].1 * c);
        r[k] = (e[k].0 + t.0, e[k].1 + t.1);
        r[k + n / 2] = (e[k].0 - t.0, e[k].1 - t.1);
    }
    r
}
/// a length around which sizes of buffers, blocks and counters change
pub fn long_len(g: &mut crate::Rng, lo: u32, hi: u32) -> usize {
    if g.words() && g.chance(0.3) {
        if let Some(x) = g.known(1 << lo, 1 << 17) { return x; }
    }
    let p = 1usize << g.int(lo as usize, hi as usize);
    match g.int(0, 4) {
        0 => p,
        1 => p + 1,
        2 => p - 1,
        3 => p + g.int(2, p / 2),
        _ => g.int(p, 2 * p),
    }
}

/// naive DFT of a real signal zero-extended to n points
pub fn dft(x: &[f64], n: usize) -> Vec<(f64, f64)> {
    if n > 512 && n.is_power_of_two() {
        let mut v: Vec<(f64, f64)> = x.iter().take(n).map(|a| (*a, 0.0)).collect();
        v.resize(n, (0.0, 0.0));
        return fft(v, -1.0);
    }
    (0..n)
        .map(|k| {
            let (mut re, mut im) = (0.0, 0.0);
            for (t, v) in x.iter().take(n).enumerate() {
                let a = -std::f64::consts::TAU * ((k * t) % n) as f64 / n as f64;
                re += v * a.cos();
                im += v * a.sin();
            }
            (re, im)
        })
        .collect()
}
/// real part of the scaled inverse DFT
pub fn idft_re(f: &[(f64, f64)]) -> Vec<f64> {
    let n = f.len();
    if n > 512 && n.is_power_of_two() {
        return fft(f.to_vec(), 1.0).iter().map(|c| c.0 / n as f64).collect();
    }
    (0..n)
        .map(|t| {
            let mut re = 0.0;
            for (k, v) in f.iter().enumerate() {
                let a = std::f64::consts::TAU * ((k * t) % n) as f64 / n as f64;
                re += v.0 * a.cos() - v.1 * a.sin();
            }
            re / n as f64
        })
        .collect()
}
pub fn fft_len(n: usize) -> usize {
    let mut p = 32;
    while p < n {
        p *= 2;
    }
    p
}

/// level in dB relative to 20 uPa
pub fn spl(x: &[f64]) -> f64 {
    let e: f64 = x.iter().map(|v| v * v).sum();
    20.0 * ((e / x.len() as f64).sqrt() / 0.00002).log10()
}

pub fn to_db(v: f64) -> f64 { 10.0 * (if v == 0.0 { f64::EPSILON } else { v.abs() }).log10() }
/// the shared preparation of two spectrograms before they are compared
pub fn prepare(r: &Mat, d: &Mat) -> (Mat, Mat) {
    let f = |m: &Mat| -> Mat { m.iter().map(|row| row.iter().map(|&v| to_db(v).max(-45.0)).collect()).collect() };
    let (mut a, mut b) = (f(r), f(d));
    let n = dims(&a).1.min(dims(&b).1);
    for j in 0..n {
        let pk = a.iter().chain(b.iter()).map(|row| row[j]).fold(f64::NEG_INFINITY, f64::max);
        for row in a.iter_mut().chain(b.iter_mut()) {
            row[j] = row[j].max(pk - 45.0);
        }
    }
    let lo = a.iter().chain(b.iter()).flatten().fold(f64::INFINITY, |m, &x| m.min(x));
    for row in a.iter_mut().chain(b.iter_mut()) {
        for v in row.iter_mut() {
            *v -= lo;
        }
    }
    (a, b)
}

/// voice activity of consecutive frames of 16 bit samples
pub fn vad(x: &[f64], frame: usize) -> Vec<f64> {
    let active: Vec<bool> = x
        .chunks(frame)
        .filter(|c| c.len() == frame)
        .map(|c| {
            let e: i64 = c.iter().map(|&v| { let q = (v * 32768.0).trunc().clamp(-32768.0, 32767.0) as i64; q * q }).sum();
            (e as f64 / frame as f64).sqrt() >= 5000.0
        })
        .collect();
    let mut out = vec![1.0; 2];
    for i in 2..active.len() {
        out.push(if active[i] || active[i - 1] || active[i - 2] { 1.0 } else { 0.0 });
    }
    out
}
