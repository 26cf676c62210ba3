#source visqol-rs/src/visqol.rs
#module visqol
=== prelude
use crate::patch_similarity_comparator::{PSR, PatchSimilarityComparator};
use crate::comparison_patches_selector::{Search, Fine, unmatched, cols_ext, lemma_kept, grid, grid_ok};
use crate::neurogram_similiarity_index_measure::{NeurogramSimiliarityIndexMeasure, nsim_psr};
use crate::audio_utils::{prep, spl_matched};
use crate::visqol_error::VisqolError;
use crate::patch_creator::{patches_of, cols_of, fits, disjoint};
use crate::analysis_window::hop_of;
use crate::spectrogram_builder::{frame_ok, frame_count};
use crate::gammatone_spectrogram_builder::{gt_data, gt_bands};
use crate::spectrogram::*;
pub open spec fn views(s: Seq<PatchSimilarityResult>) -> Seq<PSR> { s.map_values(|p: PatchSimilarityResult| p@) }
/// every patch has all bands of the first one
pub open spec fn rect(s: Seq<PSR>) -> bool { s.len() > 0 && forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).fbm.len() == s[0].fbm.len() && s[k].fbs.len() == s[0].fbm.len() && s[k].fbe.len() == s[0].fbm.len() }
/// sum of one band's similarity (or energy) over the first n patches, in order
pub open spec fn band_sum(s: Seq<PSR>, b: int, n: nat) -> f64 decreases n { if n == 0 { 0.0f64 } else { fadd(band_sum(s, b, (n - 1) as nat), s[n - 1].fbm[b]) } }
pub open spec fn energy_sum(s: Seq<PSR>, b: int, n: nat) -> f64 decreases n { if n == 0 { 0.0f64 } else { fadd(energy_sum(s, b, (n - 1) as nat), s[n - 1].fbe[b]) } }
/// arithmetic means over the patches, per band
pub open spec fn band_means(s: Seq<PSR>) -> Seq<f64> { Seq::new(s[0].fbm.len(), |b: int| fdiv(band_sum(s, b, s.len()), i2f(s.len() as int))) }
pub open spec fn band_energies(s: Seq<PSR>) -> Seq<f64> { Seq::new(s[0].fbm.len(), |b: int| fdiv(energy_sum(s, b, s.len()), i2f(s.len() as int))) }
/// frames in a patch
pub open spec fn frames_in(p: PSR, fd: f64) -> int { f2usize(f_ceil(fdiv(fsub(p.re, p.rs), fd))) as int }
pub open spec fn all_frames(s: Seq<PSR>, fd: f64, n: nat) -> int decreases n { if n == 0 { 0 } else { all_frames(s, fd, (n - 1) as nat) + frames_in(s[n - 1], fd) } }
/// sum of squares of one band over all frames of the first n patches: (f - 1) dev^2 + f mean^2 each
pub open spec fn squares(s: Seq<PSR>, fd: f64, b: int, n: nat) -> f64 decreases n {
    if n == 0 { 0.0f64 } else {
        let p = s[n - 1]; let f = frames_in(p, fd);
        fadd(fadd(squares(s, fd, b, (n - 1) as nat), fmul(fmul(i2f(f - 1), p.fbs[b]), p.fbs[b])), fmul(fmul(i2f(f), p.fbm[b]), p.fbm[b]))
    }
}
pub open spec fn variance(s: Seq<PSR>, fd: f64, b: int) -> f64 {
    let m = band_means(s)[b]; let t = all_frames(s, fd, s.len());
    fdiv(fsub(squares(s, fd, b, s.len()), fmul(fmul(m, m), i2f(t))), fsub(i2f(t), 1.0f64))
}
/// pooled deviation of all frames; rounding below zero counts as zero
pub open spec fn deviation(s: Seq<PSR>, fd: f64, b: int) -> f64 { let v = variance(s, fd, b); if flt(v, 0.0f64) { 0.0f64 } else { f_sqrt(v) } }
pub open spec fn deviations(s: Seq<PSR>, fd: f64) -> Seq<f64> { Seq::new(s[0].fbm.len(), |b: int| deviation(s, fd, b)) }
/// every patch has at least one frame and they can be counted
pub open spec fn framed(s: Seq<PSR>, fd: f64) -> bool { (forall|k: int| 0 <= k < s.len() ==> frames_in(#[trigger] s[k], fd) >= 1) && all_frames(s, fd, s.len()) <= usize::MAX }
proof fn lemma_frames_in(p: PSR, fd: f64) ensures frames_in(p, fd) >= 0 { typed(p.re); typed(p.rs); }
proof fn lemma_all_frames(s: Seq<PSR>, fd: f64, a: nat, b: nat) requires a <= b <= s.len() ensures 0 <= all_frames(s, fd, a) <= all_frames(s, fd, b) decreases a + b
{ if b > a { lemma_all_frames(s, fd, a, (b - 1) as nat); lemma_frames_in(s[b - 1], fd); assert(all_frames(s, fd, b) == all_frames(s, fd, (b - 1) as nat) + frames_in(s[b - 1], fd)); } else if a > 0 { lemma_all_frames(s, fd, (a - 1) as nat, (a - 1) as nat); lemma_frames_in(s[a - 1], fd); } }
pub proof fn lemma_deviation(s: Seq<PSR>, fd: f64, b: int) requires !fnan(variance(s, fd, b)) ensures fle(0.0f64, deviation(s, fd, b))
{
    let v = variance(s, fd, b);
    assert(!(0.0f64).ieee_is_nan()) by (bit_vector);
    lemma_fle_total(v, 0.0f64);
    if flt(v, 0.0f64) { assert(0.0f64.ieee_le(0.0f64)) by (bit_vector); } else { ax_sqrt(v); }
}
/// similarities below 0.15 mean entirely different signals, and count as the lowest quality
pub open spec fn extreme(vnsim: f64, mos: f64) -> f64 { if flt(vnsim, 0.15f64) { 1.0f64 } else { mos } }
// --- a whole comparison ------------------------------------------------------------
/// reference x and degraded y at one rate, compared with n bands from minf up in windows w;
/// patches are p frames wide and searched within s patch widths
pub struct Comparison { pub x: Seq<f64>, pub y: Seq<f64>, pub rate: u32, pub n: int, pub minf: f64, pub w: AnalysisWindow, pub c: NeurogramSimiliarityIndexMeasure, pub p: nat, pub s: int }
impl Comparison {
    /// the degraded signal at the reference's level
    pub open spec fn z(self) -> Seq<f64> { spl_matched(self.x, self.y) }
    pub open spec fn spect(self, s: Seq<f64>) -> Array2<f64> { gt_data(self.n, self.minf, s, self.rate, self.w.size as int, hop_of(self.w) as int) }
    pub open spec fn rm(self) -> Array2<f64> { prep(self.spect(self.x), self.spect(self.x), self.spect(self.z())) }
    pub open spec fn dm(self) -> Array2<f64> { prep(self.spect(self.z()), self.spect(self.x), self.spect(self.z())) }
    /// seconds per frame
    pub open spec fn fd(self) -> f64 { fdiv(i2f(hop_of(self.w) as int), i2f(self.rate as int)) }
    pub open spec fn search(self, idx: Seq<usize>) -> Search { Search { c: self.c, refs: patches_of(self.rm(), idx, self.p), idx, m: self.dm(), n: self.p, w: self.s * self.p } }
    pub open spec fn fine(self) -> Fine { Fine { c: self.c, x: self.x, y: self.z(), rate: self.rate, n: self.n, minf: self.minf, w: self.w } }
    /// the matches, and the realigned matches
    pub open spec fn coarse(self, idx: Seq<usize>) -> Seq<PSR> { Seq::new(self.search(idx).count(), |i: int| self.search(idx).result(i, self.fd())) }
    pub open spec fn patches(self, idx: Seq<usize>) -> Seq<PSR> { Seq::new(self.search(idx).count(), |i: int| self.fine().result(self.coarse(idx)[i])) }
    pub open spec fn long_enough(self) -> bool { self.x.len() >= self.w.size && self.y.len() >= self.w.size }
    pub open spec fn realignable(self, idx: Seq<usize>) -> bool { forall|i: int| 0 <= i < self.coarse(idx).len() ==> self.fine().failure(#[trigger] self.coarse(idx)[i]).is_none() }
    /// sizes within 32 bit index arithmetic
    pub open spec fn small(self) -> bool { 0 < self.p <= 0x2000_0000 && 0 <= self.s && self.s * self.p <= 0x2000_0000 && self.s <= 0x7fff_ffff && self.x.len() <= 0x1000_0000 && self.y.len() <= 0x1000_0000 }
    /// the comparison of the patches starting at columns idx
    pub open spec fn reported(self, idx: Seq<usize>, q: spec_fn(Seq<f64>) -> f64, r: SimilarityResult) -> bool {
        let s = self.patches(idx);
        views(r.patch_sims@) == s && r.fvnsim@ == band_means(s) && r.fstdnsim@ == deviations(s, self.fd()) && r.fvdegenergy@ == band_energies(s)
        && r.vnsim == nd_mean(band_means(s)) && r.moslqo == extreme(r.vnsim, f_clamp(q(band_means(s)), 1.0f64, 5.0f64)) && r.center_freq_bands@ == gt_bands(self.n, self.minf, self.rate)
    }
    /// the cause a comparison is refused for
    pub open spec fn refused(self, idx: Result<Seq<usize>, VisqolError>, e: VxError) -> bool {
        e is Visqol && ({ let v = e->Visqol_0;
            if self.x.len() < self.w.size { v == (VisqolError::TooFewSamples { found: self.x.len() as usize, minimum_required: self.w.size }) }
            else if self.y.len() < self.w.size { v == (VisqolError::TooFewSamples { found: self.y.len() as usize, minimum_required: self.w.size }) }
            else if idx is Err { v == idx->Err_0 }
            else if self.search(idx->Ok_0).count() == 0 { v is SignalsTooDifferent }
            else { exists|i: int| 0 <= i < self.coarse(idx->Ok_0).len() && self.fine().failure(#[trigger] self.coarse(idx->Ok_0)[i]) == Some(v) } })
    }
    pub open spec fn scored(self, idx: Result<Seq<usize>, VisqolError>) -> bool { self.long_enough() && idx is Ok && self.search(idx->Ok_0).count() > 0 && self.realignable(idx->Ok_0) }
    /// sizes of the spectrograms
    pub proof fn lemma_dims(self)
        requires self.long_enough(), 0 < self.n, frame_ok(self.w)
        ensures self.rm().rows() == self.n, self.dm().rows() == self.n, self.spect(self.x).rows() == self.n, self.spect(self.z()).rows() == self.n,
            self.rm().cols() == self.spect(self.x).cols(), self.dm().cols() == self.spect(self.z()).cols(), 1 <= self.rm().cols() <= self.x.len(), 1 <= self.dm().cols() <= self.y.len(), self.z().len() == self.y.len()
    {
        lemma_frames(self.x.len(), self.w.size as nat, hop_of(self.w) as nat);
        lemma_frames(self.z().len(), self.w.size as nat, hop_of(self.w) as nat);
    }
    proof fn lemma_shaped(self, idx: Seq<usize>)
        requires self.small(), self.long_enough(), 0 < self.n, frame_ok(self.w), fits(idx, self.p, self.rm().cols()), disjoint(idx, self.p), idx.len() > 0
        ensures self.search(idx).shaped()
    {
        let s = self.search(idx);
        self.lemma_dims();
        lemma_starts(idx, self.p, (idx.len() - 1) as nat);
        assert(idx[idx.len() - 1] + self.p <= self.rm().cols());
        assert(self.s * self.p >= 0) by (nonlinear_arith) requires self.s >= 0, self.p >= 0;
        assert forall|i: int| 0 <= i < s.idx.len() implies #[trigger] s.idx[i] <= 0x2000_0000 by { assert(idx[i] + self.p <= self.rm().cols()); }
    }
    /// the columns of the spectrograms lie inside the signals
    proof fn lemma_inside(self)
        requires self.long_enough(), frame_ok(self.w)
        ensures (self.rm().cols() - 1) * hop_of(self.w) + self.w.size <= self.x.len(), (self.dm().cols() - 1) * hop_of(self.w) + self.w.size <= self.y.len()
    {
        let h = hop_of(self.w) as int;
        lemma_last_frame(self.x.len(), self.w.size as nat, h as nat);
        lemma_last_frame(self.z().len(), self.w.size as nat, h as nat);
    }
    proof fn lemma_grid_ok(self, idx: Seq<usize>, i: int)
        requires self.small(), self.long_enough(), 0 < self.n, frame_ok(self.w), hop_of(self.w) <= self.w.size, fits(idx, self.p, self.rm().cols()), 0 <= i < self.search(idx).count() <= idx.len(), self.search(idx).traceable()
        ensures grid_ok(idx[i] as int, self.p as int, hop_of(self.w) as int, self.x.len() as int), grid_ok(self.search(idx).pos(i), self.p as int, hop_of(self.w) as int, self.y.len() as int)
    {
        hide(Search::count); hide(gt_data); hide(prep);
        let h = hop_of(self.w) as int; let k = idx[i] as int; let o = self.search(idx).pos(i); let n = self.p as int; let (cr, cd) = (self.rm().cols() as int, self.dm().cols() as int); let z = self.w.size as int;
        self.lemma_inside(); self.lemma_dims();
        assert(k + n <= cr);
        assert(0 <= o < cd);
        assert((k + n) * h <= self.x.len() && k * h <= self.x.len() && n * h <= self.x.len()) by (nonlinear_arith) requires k + n <= cr, (cr - 1) * h + z <= self.x.len(), 1 <= h <= z, 0 <= k, 1 <= n;
        assert((o + n) * h <= self.x.len() + self.y.len() && o * h <= self.y.len()) by (nonlinear_arith) requires o + 1 <= cd, (cd - 1) * h + z <= self.y.len(), n * h <= self.x.len(), 1 <= h <= z, 0 <= o;
    }
    /// the rounded times of matched patches lie inside both signals
    proof fn lemma_usable(self, idx: Seq<usize>, i: int)
        requires self.rate > 0, self.small(), self.long_enough(), 0 < self.n, frame_ok(self.w), hop_of(self.w) <= self.w.size, fits(idx, self.p, self.rm().cols()), 0 <= i < self.search(idx).count() <= idx.len(), self.search(idx).traceable()
        ensures self.fine().usable(self.coarse(idx)[i]), self.fine().failure(self.coarse(idx)[i]).is_none() ==> 1 <= frames_in(self.patches(idx)[i], self.fd()) <= 0x8000_0000
    {
        hide(Search::count); hide(Fine::usable); hide(Fine::failure); hide(Fine::result);
        let f = self.fine(); let p = self.coarse(idx)[i]; let q = self.search(idx); let h = hop_of(self.w) as int;
        self.lemma_grid_ok(idx, i);
        assert(p == q.result(i, self.fd()));
        assert((p.rs, p.re) == grid(idx[i] as int, self.p as int, h, self.rate));
        assert(q.lost(i) || (p.ds, p.de) == grid(q.pos(i), self.p as int, h, self.rate));
        assert(f.y.len() == self.y.len());
        f.lemma_usable(p, idx[i] as int, q.pos(i), self.p as int, h);
        if f.failure(p).is_none() { f.lemma_framed(p, idx[i] as int, self.p as int, h); }
    }
    /// the rounded times lie inside both signals and give every realigned patch at least one frame
    pub proof fn lemma_timed(self, idx: Seq<usize>)
        requires self.rate > 0, self.small(), self.long_enough(), 0 < self.n, frame_ok(self.w), hop_of(self.w) <= self.w.size, fits(idx, self.p, self.rm().cols()), self.search(idx).count() <= idx.len() <= 0x1000_0000, self.search(idx).traceable()
        ensures forall|i: int| 0 <= i < self.coarse(idx).len() ==> self.fine().usable(#[trigger] self.coarse(idx)[i]), self.realignable(idx) ==> framed(self.patches(idx), self.fd())
    {
        hide(Search::count); hide(Fine::usable); hide(Fine::failure); hide(Fine::result);
        assert forall|i: int| 0 <= i < self.coarse(idx).len() implies self.fine().usable(#[trigger] self.coarse(idx)[i]) by { self.lemma_usable(idx, i); }
        if self.realignable(idx) {
            let s = self.patches(idx);
            assert forall|k: int| 0 <= k < s.len() implies 1 <= frames_in(#[trigger] s[k], self.fd()) <= 0x8000_0000 by { self.lemma_usable(idx, k); assert(self.fine().failure(self.coarse(idx)[k]).is_none()); }
            lemma_few_frames(s, self.fd(), s.len());
            assert(s.len() * 0x8000_0000 <= 0x1000_0000 * 0x8000_0000);
        }
    }
    /// every reported patch has all bands
    proof fn lemma_rect(self, idx: Seq<usize>)
        requires 0 < self.n, self.search(idx).count() > 0, self.search(idx).count() <= idx.len(), self.dm().rows() == self.n, self.rm().rows() == self.n
        ensures rect(self.patches(idx)), self.patches(idx)[0].fbm.len() == self.n
    {
        let s = self.patches(idx);
        assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).fbm.len() == self.n && s[k].fbs.len() == self.n && s[k].fbe.len() == self.n by {
            let p = self.coarse(idx)[k]; let q = self.search(idx); let f = self.fine();
            assert(q.refs[k].rows() == self.n);
            let d = cols_ext(q.m, q.pos(k), q.n);
            assert(d.rows() == q.m.rows() && q.m.rows() == self.n);
            let b = self.c.mps(q.refs[k], d);
            assert(b == nsim_psr(q.refs[k], d, self.c.intensity_range));
            lemma_nsim_bands(q.refs[k], d, self.c.intensity_range);
            assert(b.fbm.len() == self.n && b.fbs.len() == self.n && b.fbe.len() == self.n);
            let c = f.again(p);
            let (f1, f2) = (f.spect(f.ra(p)), f.spect(f.rb(p)));
            assert(f1.rows() == self.n && f2.rows() == self.n);
            lemma_nsim_bands(prep(f1, f1, f2), prep(f2, f1, f2), self.c.intensity_range);
            assert(c.fbm.len() == self.n && c.fbs.len() == self.n && c.fbe.len() == self.n);
            assert(p.fbm.len() == self.n && p.fbs.len() == self.n && p.fbe.len() == self.n);
        }
    }
}
proof fn lemma_nsim_bands(r: Array2<f64>, d: Array2<f64>, range: f64) ensures nsim_psr(r, d, range).fbm.len() == r.rows(), nsim_psr(r, d, range).fbs.len() == r.rows(), nsim_psr(r, d, range).fbe.len() == d.rows() {}
proof fn lemma_frames(len: nat, size: nat, hop: nat) requires 0 < size <= len, hop > 0 ensures 1 <= frame_count(len, size, hop) <= len
{ let d = len - size; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, hop as int); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(d, hop as int); let q = d / hop as int; assert(q <= hop * q) by (nonlinear_arith) requires q >= 0, hop >= 1; }
proof fn lemma_last_frame(len: nat, size: nat, hop: nat) requires 0 < size <= len, hop > 0 ensures (frame_count(len, size, hop) - 1) * hop + size <= len
{ let d = len - size; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, hop as int); assert(hop * (d / hop as int) == (d / hop as int) * hop) by (nonlinear_arith); }
proof fn lemma_few_frames(s: Seq<PSR>, fd: f64, n: nat) requires n <= s.len(), forall|k: int| 0 <= k < s.len() ==> frames_in(#[trigger] s[k], fd) <= 0x8000_0000 ensures all_frames(s, fd, n) <= n * 0x8000_0000 decreases n
{ if n > 0 { lemma_few_frames(s, fd, (n - 1) as nat); assert(frames_in(s[n - 1], fd) <= 0x8000_0000); } }
proof fn lemma_starts(idx: Seq<usize>, p: nat, k: nat) requires disjoint(idx, p), p >= 1, k < idx.len() ensures idx[k as int] >= k decreases k
{ if k > 0 { lemma_starts(idx, p, (k - 1) as nat); assert(idx[k - 1] + p <= idx[k as int]); } }
=== fn calc_per_patch_mean_freq_band_means
requires rect(views(sim_match_info@)),
ensures r@ == band_means(views(sim_match_info@)),
--- start
let ghost s = views(sim_match_info@);
let ghost nb = s[0].fbm.len() as int;
--- loop 0
invariant fvnsim@.len() == nb, forall|b: int| 0 <= b < nb ==> #[trigger] fvnsim@[b] == band_sum(s, b, vx_i0 as nat),
--- loop 0 start
proof { assert(s[vx_i0 - 1].fbm == patch.freq_band_means@); }
--- loop 1
invariant fvnsim@.len() == nb, forall|b: int| 0 <= b < nb ==> #[trigger] fvnsim@[b] == band_sum(s, b, (if b < vx_i1 { vx_i0 as int } else { vx_i0 - 1 }) as nat),
--- after let mut fvnsim
proof { assert(s[0].fbm == sim_match_info@[0].freq_band_means@); }
--- end
proof { assert(fvnsim@.map_values(|x: f64| fdiv(x, i2f(s.len() as int))) =~= band_means(s)); }
=== fn calc_per_patch_mean_freq_band_degraded_energy
requires rect(views(sim_match_info@)),
ensures r@ == band_energies(views(sim_match_info@)),
--- start
let ghost s = views(sim_match_info@);
let ghost nb = s[0].fbm.len() as int;
--- loop 0
invariant total_fvdegenergy@.len() == nb, forall|b: int| 0 <= b < nb ==> #[trigger] total_fvdegenergy@[b] == energy_sum(s, b, vx_i0 as nat),
--- loop 0 start
proof { assert(s[vx_i0 - 1].fbe == patch.freq_band_deg_energy@); }
--- loop 1
invariant total_fvdegenergy@.len() == nb, forall|b: int| 0 <= b < nb ==> #[trigger] total_fvdegenergy@[b] == energy_sum(s, b, (if b < vx_i1 { vx_i0 as int } else { vx_i0 - 1 }) as nat),
--- after let mut total_fvdegenergy
proof { assert(s[0].fbm == sim_match_info@[0].freq_band_means@); }
--- end
proof { assert(total_fvdegenergy@.map_values(|x: f64| fdiv(x, i2f(s.len() as int))) =~= band_energies(s)); }
=== fn calc_per_patch_mean_freq_band_std_devs
requires rect(views(sim_match_info@)), framed(views(sim_match_info@), frame_duration),
ensures r@ == deviations(views(sim_match_info@), frame_duration),
--- start
let ghost s = views(sim_match_info@);
let ghost nb = s[0].fbm.len() as int;
--- after let mut contribution
proof { assert(s[0].fbm == sim_match_info@[0].freq_band_means@); }
--- loop 0
invariant contribution@.len() == nb, total_frame_count == all_frames(s, frame_duration, vx_i0 as nat),
  forall|b: int| 0 <= b < nb ==> #[trigger] contribution@[b] == squares(s, frame_duration, b, vx_i0 as nat),
--- loop 0 start
proof {
  assert(s[vx_i0 - 1] == patch@); typed(patch.ref_patch_end_time); typed(patch.ref_patch_start_time);
  lemma_all_frames(s, frame_duration, vx_i0 as nat, s.len());
}
--- loop 1
invariant contribution@.len() == nb,
  forall|b: int| 0 <= b < nb ==> #[trigger] contribution@[b] == squares(s, frame_duration, b, (if b < vx_i1 { vx_i0 as int } else { vx_i0 - 1 }) as nat),
--- loop 2
invariant result@.len() == nb,
  forall|b: int| 0 <= b < nb ==> #[trigger] result@[b] == if b < vx_i2 { deviation(s, frame_duration, b) } else { variance(s, frame_duration, b) },
--- end
proof { assert(result@ =~= deviations(s, frame_duration)); }
=== fn alter_for_similarity_extremes
ensures r == extreme(vnsim, moslqo),
=== fn calculate_frame_duration
ensures r == fdiv(frame_size, i2f(sample_rate as int)),
=== fn predict_mos
requires mapper.q_pre(fvnsim@),
ensures r == f_clamp(mapper.q_raw(fvnsim@), 1.0f64, 5.0f64),
  !fnan(mapper.q_raw(fvnsim@)) ==> fle(1.0f64, r) && fle(r, 5.0f64),
=== fn calculate_similarity
--- attr
#[verifier::rlimit(60)]
--- spec
requires
  old(ref_signal).sample_rate == old(deg_signal).sample_rate > 0, frame_ok(*window), hop_of(*window) <= window.size, NUM_BANDS > 0,
  ({ let g = Comparison { x: old(ref_signal).data_matrix@, y: old(deg_signal).data_matrix@, rate: old(ref_signal).sample_rate, n: NUM_BANDS as int, minf: old(spect_builder).filter_bank.min_freq, w: *window, c: selector.sim_comparator, p: patch_creator.psize(), s: search_window as int };
     g.small() && (g.long_enough() ==> patch_creator.idx_pre(g.rm(), *old(ref_signal), *window)
       && (patch_creator.idx(g.rm(), *old(ref_signal), *window).is_ok() ==> g.search(patch_creator.idx(g.rm(), *old(ref_signal), *window)->Ok_0).sane())) }),
  forall|f: Seq<f64>| f.len() == NUM_BANDS ==> #[trigger] sim_to_qual_mapper.q_pre(f),
ensures
  *final(ref_signal) == *old(ref_signal), *final(deg_signal) == *old(deg_signal),
  ({ let g = Comparison { x: old(ref_signal).data_matrix@, y: old(deg_signal).data_matrix@, rate: old(ref_signal).sample_rate, n: NUM_BANDS as int, minf: old(spect_builder).filter_bank.min_freq, w: *window, c: selector.sim_comparator, p: patch_creator.psize(), s: search_window as int }; let idx = patch_creator.idx(g.rm(), *old(ref_signal), *window);
     r.is_ok() == g.scored(idx) && (r.is_err() ==> g.refused(idx, r->Err_0))
     && (r.is_ok() ==> g.reported(idx->Ok_0, |f: Seq<f64>| sim_to_qual_mapper.q_raw(f), r->Ok_0)) }),
  final(spect_builder).filter_bank.min_freq == old(spect_builder).filter_bank.min_freq,
--- start
hide(Search::shaped); hide(Search::sane); hide(Search::traceable); hide(Search::count); hide(Search::result); hide(Fine::result); hide(Fine::failure); hide(Fine::usable); hide(gt_data); hide(prep); hide(rect); hide(framed); hide(band_means); hide(deviations); hide(band_energies);
let ghost g = Comparison { x: ref_signal.data_matrix@, y: deg_signal.data_matrix@, rate: ref_signal.sample_rate, n: NUM_BANDS as int, minf: spect_builder.filter_bank.min_freq, w: *window, c: selector.sim_comparator, p: patch_creator.psize(), s: search_window as int };
--- before audio_utils::prepare_spectrograms
proof { g.lemma_dims(); }
--- before let mut sim_match_info
let ghost idx = ref_patch_indices@;
proof {
  assert(ref_spectrogram.data == g.rm() && deg_spectrogram.data == g.dm());
  g.lemma_shaped(idx);
  g.search(idx).lemma_traceable();
  assert(g.search(idx).count() <= idx.len()) by { reveal(Search::count); lemma_kept(idx, g.dm().cols(), g.p, idx.len()); }
  assert(ref_patches@ == g.search(idx).refs);
}
--- before let realign_result
let ghost found = sim_match_info@;
proof {
  assert forall|i: int| 0 <= i < found.len() implies #[trigger] found[i]@ == g.coarse(idx)[i] by {}
  assert(idx.len() <= 0x1000_0000) by { reveal(Search::shaped); assert(g.search(idx).idx.len() <= 0x1000_0000); }
  g.lemma_timed(idx);
  assert forall|i: int| 0 <= i < found.len() implies g.fine().usable(#[trigger] found[i]@) by { assert(found[i]@ == g.coarse(idx)[i]); assert(g.fine().usable(g.coarse(idx)[i])); }
}
--- before let fvnsim
proof {
  assert forall|i: int| 0 <= i < found.len() implies g.fine().failure(#[trigger] g.coarse(idx)[i]).is_none() && sim_match_info@[i]@ == g.patches(idx)[i] by { assert(found[i]@ == g.coarse(idx)[i]); }
  assert(views(sim_match_info@) =~= g.patches(idx));
  g.lemma_rect(idx);
  assert(band_means(g.patches(idx)).len() == g.n) by { reveal(band_means); }
}
