#source visqol-rs/src/visqol_manager.rs
#module visqol_manager
=== prelude
use crate::alignment::{alignable, overlap, shifted, shift_of};
use crate::analysis_window::{window_size, hop_of};
use crate::audio_utils::{mono, spl_matched, prep};
use crate::wav_reader::wav_of;
use crate::spectrogram_builder::{frame_ok, frame_count};
use crate::speech_similarity_to_quality_mapper::speech_raw;
use crate::support_vector_regression_model::{svm_score, svm_file};
use crate::vad_patch_creator::{vad_idx, vad_count};
use crate::image_patch_creator::img_idx;
use crate::gammatone_spectrogram_builder::gt_data;
use crate::visqol::Comparison;
use crate::fp::*;
use crate::comparison_patches_selector::{Search, Fine};
/// the signal with the given samples and rate
pub open spec fn sig_of(x: Seq<f64>, rate: u32) -> AudioSignal { choose|s: AudioSignal| #[trigger] s.data_matrix@ == x && s.sample_rate == rate }
pub proof fn lemma_sig(s: AudioSignal) ensures sig_of(s.data_matrix@, s.sample_rate) == s
{ let t = sig_of(s.data_matrix@, s.sample_rate); assert(t.data_matrix@ == s.data_matrix@ && t.sample_rate == s.sample_rate); ax_ext1(t.data_matrix, s.data_matrix); }
/// windows of 80 ms that advance by a quarter
pub open spec fn win_of(rate: u32) -> AnalysisWindow { AnalysisWindow { size: window_size(rate, 0.08f64), overlap: 0.25f64 } }
/// from 50 Hz on a window has at least four samples and advances by at least one
pub proof fn lemma_window(rate: u32) requires rate >= 50 ensures frame_ok(win_of(rate)), hop_of(win_of(rate)) <= win_of(rate).size <= 0x2000_0000
{
    let r = rate as real; let v = r * (2real / 25real); let w = win_of(rate); let t = fmul(i2f(rate as int), 0.08f64);
    ax_val_int(rate as int); ax_val_008();
    lemma_mul(i2f(rate as int), r, 0, 0.08f64, 2real / 25real, 1);
    assert(v * (2real * eta()) <= 1real / 1000real);
    ax_val_round(t);
    ax_val_usize(f_round(t));
    assert(4 <= w.size <= 0x2000_0000);
    ax_val_quarter(w.size as int);
    ax_val_usize(fmul(i2f(w.size as int), 0.25f64));
}
/// the frames of the voiced patches lie inside the signal
proof fn lemma_vad_fits(len: nat, size: nat, hop: nat, p: nat) requires 0 < hop <= size, 2 <= p, frame_count(len, size, hop) >= p / 2 - 1 + p
    ensures p / 2 - 1 + vad_count(frame_count(len, size, hop), p) * (p * hop) <= len
{
    let c = frame_count(len, size, hop) as int; let f = p / 2 - 1; let m = (c - f) / (p as int); let d = len - size;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, hop as int); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c - f, p as int);
    assert(m * (p * hop) == (p * m) * hop) by (nonlinear_arith);
    assert((p * m) * hop <= (c - f) * hop) by (nonlinear_arith) requires p * m <= c - f, hop > 0;
    assert((c - f) * hop == (c - 1) * hop - (f - 1) * hop) by (nonlinear_arith);
    assert(hop * (d / hop as int) == (c - 1) * hop) by (nonlinear_arith) requires c - 1 == d / hop as int;
    assert((f - 1) * hop >= f - hop) by (nonlinear_arith) requires f >= 0, hop >= 1;
}
impl<const NUM_BANDS: usize> VisqolManager<NUM_BANDS> {
    /// the degraded signal after global alignment
    pub open spec fn aligned(x: Seq<f64>, y: Seq<f64>) -> Seq<f64> { shifted(y, shift_of(x, y)) }
    pub open spec fn comparison(self, x: Seq<f64>, y: Seq<f64>, rate: u32) -> Comparison {
        Comparison { x, y: Self::aligned(x, y), rate, n: NUM_BANDS as int, minf: self.spectrogram_builder.filter_bank.min_freq, w: win_of(rate), c: self.patch_selector.sim_comparator, p: self.patch_creator.psize(), s: self.search_window as int }
    }
    /// reference patches of a comparison
    pub open spec fn idx_of(self, x: Seq<f64>, y: Seq<f64>, rate: u32) -> Result<Seq<usize>, VisqolError> { self.patch_creator.idx(self.comparison(x, y, rate).rm(), sig_of(x, rate), win_of(rate)) }
    /// everything a later comparison depends on is the same
    pub open spec fn same_config(self, o: Self) -> bool {
        self.search_window == o.search_window && self.patch_creator == o.patch_creator && self.patch_selector == o.patch_selector && self.sim_to_quality_mapper == o.sim_to_quality_mapper
        && self.spectrogram_builder.filter_bank.min_freq == o.spectrogram_builder.filter_bank.min_freq
    }
    /// sizes, rates and the assumptions about rounding
    pub open spec fn comparable(self, x: Seq<f64>, y: Seq<f64>, rate: u32) -> bool {
        let g = self.comparison(x, y, rate);
        rate > 0 && NUM_BANDS > 0 && overlap(x, y) && (alignable(x, y) ==> frame_ok(win_of(rate)) && hop_of(win_of(rate)) <= win_of(rate).size && g.small()
          && (g.long_enough() ==> self.patch_creator.idx_pre(g.rm(), sig_of(x, rate), win_of(rate)) && (self.idx_of(x, y, rate) is Ok ==> g.search(self.idx_of(x, y, rate)->Ok_0).sane())))
          && forall|f: Seq<f64>| f.len() == NUM_BANDS ==> #[trigger] self.sim_to_quality_mapper.q_pre(f)
    }
    /// what comparing x and y yields: a function of the samples and the configuration
    pub open spec fn outcome(self, x: Seq<f64>, y: Seq<f64>, rate: u32, r: Result<SimilarityResult, VxError>) -> bool {
        let g = self.comparison(x, y, rate); let idx = self.idx_of(x, y, rate);
        if !alignable(x, y) { r is Err && r->Err_0 == VxError::Visqol(VisqolError::FailedToAlignSignals) }
        else if g.scored(idx) { r is Ok && g.reported(idx->Ok_0, |f: Seq<f64>| self.sim_to_quality_mapper.q_raw(f), r->Ok_0) }
        else { r is Err && g.refused(idx, r->Err_0) }
    }
    /// a new comparator: patches, mapping and search radius of the variant
    pub open spec fn made(self, variant: Variant, window: usize) -> bool {
        self.search_window == window && self.patch_selector.sim_comparator.intensity_range == 1.0f64 && self.spectrogram_builder.filter_bank.min_freq == 50.0f64
        && match variant {
            Variant::Wideband { use_unscaled_mos_mapping } => self.patch_creator.psize() == 30
                && (forall|m: Array2<f64>, s: AudioSignal, w: AnalysisWindow| #[trigger] self.patch_creator.idx(m, s, w) == vad_idx(m.cols(), 30, 1.0f64, s.data_matrix@, hop_of(w) as nat))
                && (forall|m: Array2<f64>, s: AudioSignal, w: AnalysisWindow| #[trigger] self.patch_creator.idx_pre(m, s, w) == (VadPatchCreator { patch_size: 30, frames_with_va_threshold: 1.0f64 }).idx_pre(m, s, w))
                && (forall|f: Seq<f64>| #[trigger] self.sim_to_quality_mapper.q_pre(f)) && (forall|f: Seq<f64>| #[trigger] self.sim_to_quality_mapper.q_raw(f) == speech_raw(f, !use_unscaled_mos_mapping)),
            Variant::Fullband { model_path } => self.patch_creator.psize() == 20
                && (forall|m: Array2<f64>, s: AudioSignal, w: AnalysisWindow| #[trigger] self.patch_creator.idx(m, s, w) == img_idx(m.cols(), 20))
                && (forall|m: Array2<f64>, s: AudioSignal, w: AnalysisWindow| #[trigger] self.patch_creator.idx_pre(m, s, w))
                && (forall|f: Seq<f64>| #[trigger] self.sim_to_quality_mapper.q_pre(f) == (f.len() <= svm_attrs(svm_file(model_path@)))) && (forall|f: Seq<f64>| #[trigger] self.sim_to_quality_mapper.q_raw(f) == svm_score(svm_file(model_path@), f)),
        }
    }
    /// the recordings at these paths, if both can be loaded at one rate, are comparable
    pub open spec fn runnable(self, rp: Seq<char>, dp: Seq<char>) -> bool {
        match (wav_of(rp), wav_of(dp)) { (Ok(a), Ok(b)) => a.rate == b.rate ==> self.comparable(mono(a.samples, a.channels), mono(b.samples, b.channels), a.rate), _ => true }
    }
    /// what comparing the recordings at two paths yields
    pub open spec fn ran(self, rp: Seq<char>, dp: Seq<char>, r: Result<SimilarityResult, VxError>) -> bool {
        match wav_of(rp) {
            Err(e) => r is Err && r->Err_0 == e,
            Ok(a) => match wav_of(dp) {
                Err(e) => r is Err && r->Err_0 == e,
                Ok(b) => if a.rate != b.rate { r is Err && r->Err_0 == VxError::Visqol(VisqolError::DifferentSampleRates { reference: a.rate, degraded: b.rate }) }
                    else { self.outcome(mono(a.samples, a.channels), mono(b.samples, b.channels), a.rate, r) },
            },
        }
    }
    pub proof fn lemma_same_config(self, o: Self, rp: Seq<char>, dp: Seq<char>)
        requires self.same_config(o)
        ensures self.runnable(rp, dp) == o.runnable(rp, dp), forall|r: Result<SimilarityResult, VxError>| self.ran(rp, dp, r) == o.ran(rp, dp, r)
    {
        if let (Ok(a), Ok(b)) = (wav_of(rp), wav_of(dp)) {
            let (x, y) = (mono(a.samples, a.channels), mono(b.samples, b.channels));
            assert forall|r: Result<SimilarityResult, VxError>| self.ran(rp, dp, r) == o.ran(rp, dp, r) by { self.lemma_repeatable(o, x, y, a.rate, r); }
            self.lemma_repeatable(o, x, y, a.rate, Err(VxError::Other));
        }
    }
    /// an earlier use of the comparator makes no difference
    pub proof fn lemma_repeatable(self, o: Self, x: Seq<f64>, y: Seq<f64>, rate: u32, r: Result<SimilarityResult, VxError>)
        requires self.same_config(o)
        ensures self.comparison(x, y, rate) == o.comparison(x, y, rate), self.idx_of(x, y, rate) == o.idx_of(x, y, rate), self.outcome(x, y, rate, r) == o.outcome(x, y, rate, r)
    {
        assert((|f: Seq<f64>| self.sim_to_quality_mapper.q_raw(f)) =~= (|f: Seq<f64>| o.sim_to_quality_mapper.q_raw(f)));
    }
    /// what is left to assume of a new comparator: at least 50 Hz, at most 2^27 samples, a search radius within
    /// 32 bit arithmetic, signals that overlap once aligned if the degraded one is shorter than half the reference, similarities in proportion, a model for this number of bands
    pub proof fn lemma_comparable(self, variant: Variant, window: usize, r: AudioSignal, d: AudioSignal)
        requires self.made(variant, window), r.sample_rate >= 50, 0 < NUM_BANDS, 0 < r.data_matrix@.len() <= 0x800_0000, d.data_matrix@.len() <= 0x800_0000, window <= 0x100_0000,
            r.data_matrix@.len() / 2 <= d.data_matrix@.len() || overlap(r.data_matrix@, d.data_matrix@),
            self.idx_of(r.data_matrix@, d.data_matrix@, r.sample_rate) matches Ok(idx) ==> self.comparison(r.data_matrix@, d.data_matrix@, r.sample_rate).search(idx).sane(),
            variant matches Variant::Fullband { model_path } ==> NUM_BANDS <= svm_attrs(svm_file(model_path@)),
        ensures self.comparable(r.data_matrix@, d.data_matrix@, r.sample_rate)
    {
        let (x, y, rate) = (r.data_matrix@, d.data_matrix@, r.sample_rate);
        let g = self.comparison(x, y, rate); let w = win_of(rate);
        lemma_window(rate); lemma_sig(r);
        assert(self.search_window as int * self.patch_creator.psize() <= 0x2000_0000) by (nonlinear_arith) requires 0 <= self.search_window <= 0x100_0000, self.patch_creator.psize() <= 30;
        if alignable(x, y) && g.long_enough() {
            g.lemma_dims();
            if variant is Wideband {
                let v = VadPatchCreator { patch_size: 30, frames_with_va_threshold: 1.0f64 };
                if g.rm().cols() >= 44 { lemma_vad_fits(x.len(), w.size as nat, hop_of(w) as nat, 30); }
                assert(v.idx_pre(g.rm(), r, w));
            }
            assert(self.patch_creator.idx_pre(g.rm(), sig_of(x, rate), w));
        }
    }
}
=== fn VisqolManager::new
ensures r.made(variant, window_size),
=== fn VisqolManager::run
requires old(self).runnable(ref_signal_path@, deg_signal_path@),
ensures final(self).same_config(*old(self)), old(self).ran(ref_signal_path@, deg_signal_path@, r),
=== fn VisqolManager::compute_results
requires old(ref_signal).sample_rate == old(deg_signal).sample_rate, old(self).comparable(old(ref_signal).data_matrix@, old(deg_signal).data_matrix@, old(ref_signal).sample_rate),
ensures
  *final(ref_signal) == *old(ref_signal), *final(deg_signal) == *old(deg_signal), final(self).same_config(*old(self)),
  old(self).outcome(old(ref_signal).data_matrix@, old(deg_signal).data_matrix@, old(ref_signal).sample_rate, r),
--- start
let ghost (x, y, rate) = (ref_signal.data_matrix@, deg_signal.data_matrix@, ref_signal.sample_rate);
proof { lemma_sig(*ref_signal); }
=== fn VisqolManager::validate_input_audio
ensures r == if ref_signal.sample_rate != deg_signal.sample_rate { Err::<(), VisqolError>(VisqolError::DifferentSampleRates { reference: ref_signal.sample_rate, degraded: deg_signal.sample_rate }) } else { Ok::<(), VisqolError>(()) },
