#source visqol-rs/src/spectrogram_builder.rs
#module spectrogram_builder
=== prelude
use crate::analysis_window::hop_of;
pub open spec fn frame_ok(w: AnalysisWindow) -> bool { w.size > 0 && hop_of(w) > 0 }
pub open spec fn frame_count(len: nat, size: nat, hop: nat) -> nat { if len < size || hop == 0 { 0 } else { (1 + (len - size) / (hop as int)) as nat } }
=== raw SpectrogramBuilder
/// what the builder makes of a signal of at least one frame: magnitudes and centre frequencies
spec fn magnitudes(&self, x: Seq<f64>, rate: u32, w: AnalysisWindow) -> Array2<f64>;
spec fn bands(&self, rate: u32) -> Seq<f64>;
=== fn SpectrogramBuilder::build
requires frame_ok(*window),
ensures
    r.is_ok() == (signal.data_matrix@.len() >= window.size),
    r.is_err() ==> r->Err_0 == (VisqolError::TooFewSamples { found: signal.data_matrix@.len() as usize, minimum_required: window.size }),
    r.is_ok() ==> r->Ok_0.data == old(self).magnitudes(signal.data_matrix@, signal.sample_rate, *window) && r->Ok_0.center_freq_bands@ == old(self).bands(signal.sample_rate),
    r.is_ok() ==> r->Ok_0.data.cols() == frame_count(signal.data_matrix@.len(), window.size as nat, hop_of(*window) as nat),
    // a use leaves no trace: later results are those of a fresh builder
    forall|x: Seq<f64>, rate: u32, w: AnalysisWindow| #[trigger] final(self).magnitudes(x, rate, w) == old(self).magnitudes(x, rate, w),
    forall|rate: u32| #[trigger] final(self).bands(rate) == old(self).bands(rate),
