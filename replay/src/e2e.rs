#![allow(dead_code)]
//! Small end-to-end set-ups over the real pipeline.
use ndarray::Array2;
use visqol_rs::verif::analysis_window::AnalysisWindow;
use visqol_rs::verif::audio_signal::AudioSignal;
use visqol_rs::verif::patch_creator::PatchCreator;
use visqol_rs::verif::similarity_to_quality_mapper::SimilarityToQualityMapper;
use visqol_rs::verif::visqol_error::VisqolError;
use vreplay::*;

/// fixed patch starts
pub struct Fixed { pub starts: Vec<usize>, pub size: usize }
impl PatchCreator for Fixed {
    fn create_ref_patch_indices(&self, _s: &Array2<f64>, _r: &AudioSignal, _w: &AnalysisWindow) -> Result<Vec<usize>, VisqolError> { Ok(self.starts.clone()) }
    fn create_patches_from_indices(&self, s: &Array2<f64>, idx: &[usize]) -> Vec<Array2<f64>> {
        idx.iter().map(|i| Array2::from_shape_fn((s.nrows(), self.size), |(r, c)| s[(r, i + c)])).collect()
    }
}
/// reports a fixed value whatever it is given, and checks it is given one value per band
pub struct Const(pub f64);
impl SimilarityToQualityMapper for Const {
    fn predict_quality(&self, _v: &[f64]) -> f64 { self.0 }
}
/// a weighted sum, so that it depends on every band
pub struct Weighted;
pub fn weighted(v: &[f64]) -> f64 { 1.5 + v.iter().enumerate().map(|(i, x)| x * (1.0 + i as f64 * 0.1) / v.len() as f64).sum::<f64>() }
impl SimilarityToQualityMapper for Weighted {
    fn predict_quality(&self, v: &[f64]) -> f64 { weighted(v) }
}
/// speech-like: bursts of coloured noise and pauses
pub fn speechy(g: &mut Rng, n: usize) -> Vec<f64> {
    let mut out = Vec::with_capacity(n);
    while out.len() < n {
        let a = g.pick(&[0.0, 0.02, 0.3, 0.8]);
        let f = g.real(0.01, 0.3);
        let len = g.int(n / 40 + 1, n / 8 + 2);
        let k = g.real(0.0, 1.0);
        for _ in 0..len { let t = out.len() as f64; out.push(a * (k * (t * f).sin() + (1.0 - k) * g.real(-1.0, 1.0))); }
    }
    out.truncate(n);
    out
}
pub fn degrade(g: &mut Rng, x: &[f64]) -> Vec<f64> {
    let kind = g.int(0, 6);
    let noise = g.pick(&[0.0, 0.001, 0.02, 0.2]);
    let n = x.len();
    let mut y: Vec<f64> = x.iter().map(|v| v * 0.7 + noise * g.real(-1.0, 1.0)).collect();
    match kind {
        0 => { let a = g.int(0, n - 1); let b = (a + g.int(1, n / 3 + 1)).min(n); for v in &mut y[a..b] { *v = 0.0; } }
        1 => { let k = g.int(0, n / 10); y.drain(..k); }
        2 => { let k = g.int(0, n / 10); let mut z = vec![0.0; k]; z.extend(&y); y = z; }
        3 => { let k = g.int(0, n / 4); y.truncate(n - k); }
        4 => { for i in 1..n { y[i] = 0.6 * y[i] + 0.4 * y[i - 1]; } }
        5 => { y = y.iter().map(|v| v.clamp(-0.2, 0.2)).collect(); }
        _ => {}
    }
    y
}
pub fn write_wav(path: &str, rate: u32, ch: u16, data: &[i16]) {
    let mut w = hound::WavWriter::create(path, hound::WavSpec { channels: ch, sample_rate: rate, bits_per_sample: 16, sample_format: hound::SampleFormat::Int }).unwrap();
    for s in data { w.write_sample(*s).unwrap(); }
    w.finalize().unwrap();
}
pub fn quant(x: &[f64]) -> Vec<i16> { x.iter().map(|v| (v * 32767.0).round().clamp(-32768.0, 32767.0) as i16).collect() }
pub fn repo() -> String { std::env::var("VREPLAY_REPO").unwrap_or_else(|_| "/repo".into()) }
pub fn model() -> String { format!("{}/model/libsvm_nu_svr_model.txt", repo()) }
