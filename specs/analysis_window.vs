#source visqol-rs/src/analysis_window.rs
#module analysis_window
=== prelude
/// window length in samples: sample rate times duration, rounded to nearest
pub open spec fn window_size(rate: u32, dur: f64) -> usize { f2usize(f_round(fmul(i2f(rate as int), dur))) }
/// hop in samples: window length times overlap fraction, truncated
pub open spec fn hop_of(w: AnalysisWindow) -> usize { f2usize(fmul(i2f(w.size as int), w.overlap)) }
=== fn AnalysisWindow::new
ensures r.size == window_size(sample_rate, window_duration), r.overlap == overlap,
