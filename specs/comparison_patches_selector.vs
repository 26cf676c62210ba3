#source visqol-rs/src/comparison_patches_selector.rs
#module comparison_patches_selector
=== prelude
use crate::patch_similarity_comparator::PSR;
use crate::alignment::{shift_of, delay_of, overlap, alignable, ref_span, deg_span, shifted, lemma_spans};
use crate::audio_utils::prep;
use crate::audio_signal::duration_of;
use crate::analysis_window::hop_of;
use crate::spectrogram_builder::{frame_ok, frame_count};
use crate::gammatone_spectrogram_builder::gt_data;
use crate::fp::*;
/// n columns from column a on, with zero columns after the end
pub open spec fn cols_ext(m: Array2<f64>, a: int, n: nat) -> Array2<f64> { mk2(m.rows(), n, |i: int, j: int| if a + j < m.cols() { m.at(i, a + j) } else { 0.0f64 }) }
/// number of reference patches that can be matched: trailing ones starting more than half a patch after the end are dropped
pub open spec fn kept(idx: Seq<usize>, frames: nat, n: nat, k: nat) -> nat decreases k {
    if k == 0 { 0 } else if dec(idx[k - 1] - n / 2) > frames { kept(idx, frames, n, (k - 1) as nat) } else { k }
}
pub proof fn lemma_kept(idx: Seq<usize>, frames: nat, n: nat, k: nat) requires k <= idx.len()
    ensures kept(idx, frames, n, k) <= k, kept(idx, frames, n, k) > 0 ==> idx[kept(idx, frames, n, k) - 1] - n / 2 <= frames,
        forall|i: int| kept(idx, frames, n, k) <= i < k ==> #[trigger] idx[i] - n / 2 > frames
    decreases k
{ if k > 0 && dec(idx[k - 1] - n / 2) > frames { lemma_kept(idx, frames, n, (k - 1) as nat); } }

// --- one row of the cumulative table -------------------------------------------
/// first and last position searched for a patch that starts at column c of the reference
pub open spec fn win_lo(c: int, w: int) -> int { dec(c - w) }
pub open spec fn searched(c: int, w: int, frames: nat, o: int) -> bool { win_lo(c, w) <= o <= c + w && o < frames }
/// largest value and its position among positions b, b - 1, .., lo, given the best found so far; the latest of equals
pub open spec fn scan(prev: Seq<f64>, b: int, lo: int, v: f64, p: int) -> (f64, int) decreases b - lo + 1 {
    if b < lo { (v, p) } else if flt(v, prev[b]) { scan(prev, b - 1, lo, prev[b], b) } else { scan(prev, b - 1, lo, v, p) }
}
/// cumulative similarity and predecessor for a position after the first patch: the patch's own similarity
/// on top of the best earlier position of the preceding patch, or that patch's value at the same position if larger
pub open spec fn step_of(prev: Seq<f64>, lo: int, o: int, sim: f64) -> (f64, int) {
    let (v, p) = scan(prev, o - 1, lo, F64_MIN, -1);
    let s = fadd(sim, v);
    if flt(s, prev[o]) { (prev[o], o) } else { (s, p) }
}
pub open spec fn as_pos(p: int) -> usize { (p as i32) as usize }
pub open spec fn cell_of(first: bool, prev: Seq<f64>, prev_start: int, w: int, o: int, sim: f64) -> (f64, int) {
    if first { (sim, -1) } else { step_of(prev, win_lo(prev_start, w), o, sim) }
}
/// a cell is updated exactly when it is searched
pub open spec fn row_ok(old_v: Seq<f64>, new_v: Seq<f64>, old_b: Seq<usize>, new_b: Seq<usize>, k: nat, prev: Seq<f64>, prev_start: int, c: int, w: int, frames: nat, sims: spec_fn(int) -> f64) -> bool {
    new_v.len() == old_v.len() && new_b.len() == old_b.len()
    && (forall|o: int| 0 <= o < new_v.len() ==> #[trigger] new_v[o] == if searched(c, w, frames, o) { cell_of(k == 0, prev, prev_start, w, o, sims(o)).0 } else { old_v[o] })
    && (forall|o: int| 0 <= o < new_b.len() ==> #[trigger] new_b[o] == if searched(c, w, frames, o) { as_pos(cell_of(k == 0, prev, prev_start, w, o, sims(o)).1) } else { old_b[o] })
}
pub open spec fn other_rows<T>(a: Seq<Vec<T>>, b: Seq<Vec<T>>, k: int) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() && i != k ==> (#[trigger] a[i])@ == b[i]@ }
pub open spec fn prev_row(t: Seq<Vec<f64>>, k: nat) -> Seq<f64> { if k == 0 { Seq::empty() } else { t[k - 1]@ } }
pub open spec fn prev_start(idx: Seq<usize>, k: nat) -> int { if k == 0 { 0 } else { idx[k - 1] as int } }
pub open spec fn rows_sized<T>(t: Seq<Vec<T>>, n: nat) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i])@.len() == n }
pub open spec fn sims_of(c: NeurogramSimiliarityIndexMeasure, r: Array2<f64>, d: Seq<Array2<f64>>) -> spec_fn(int) -> f64 { |o: int| c.mps(r, d[o]).sim }

// --- the whole search ----------------------------------------------------------
/// reference patches at their start columns, all n columns wide, searched in the degraded spectrogram m within w columns
pub struct Search { pub c: NeurogramSimiliarityIndexMeasure, pub refs: Seq<Array2<f64>>, pub idx: Seq<usize>, pub m: Array2<f64>, pub n: nat, pub w: int }
/// largest value and its position among positions a, a + 1, .., b - 1; the earliest of equals
pub open spec fn best_from(row: Seq<f64>, a: int, b: int, v: f64, p: int) -> (f64, int) decreases b - a {
    if a >= b { (v, p) } else if flt(v, row[a]) { best_from(row, a + 1, b, row[a], a) } else { best_from(row, a + 1, b, v, p) }
}
impl Search {
    /// similarity of reference patch k and the degraded patch at o
    pub open spec fn sim(self, k: nat, o: int) -> f64 { self.c.mps(self.refs[k as int], cols_ext(self.m, o, self.n)).sim }
    #[verifier::opaque]
    pub open spec fn cell(self, k: nat, o: int) -> (f64, int) decreases k, 0int {
        cell_of(k == 0, if k == 0 { Seq::empty() } else { self.row((k - 1) as nat) }, prev_start(self.idx, k), self.w, o, self.sim(k, o))
    }
    /// row k of the table of cumulative similarities, and of the predecessors
    pub open spec fn row(self, k: nat) -> Seq<f64> decreases k, 1int { Seq::new(self.m.cols(), |o: int| if searched(self.idx[k as int] as int, self.w, self.m.cols(), o) { self.cell(k, o).0 } else { 0.0f64 }) }
    pub open spec fn back(self, k: nat) -> Seq<usize> { Seq::new(self.m.cols(), |o: int| if searched(self.idx[k as int] as int, self.w, self.m.cols(), o) { as_pos(self.cell(k, o).1) } else { 0usize }) }
    pub open spec fn count(self) -> nat { kept(self.idx, self.m.cols(), self.n, self.idx.len()) }
    pub open spec fn last_lo(self) -> int { win_lo(self.idx[self.count() - 1] as int, self.w) }
    pub open spec fn last_hi(self) -> int { let e = self.idx[self.count() - 1] + self.w + 1; if e < self.m.cols() { e } else { self.m.cols() as int } }
    /// largest cumulative similarity of the last matchable patch, and where it is
    pub open spec fn best(self) -> (f64, int) { best_from(self.row((self.count() - 1) as nat), self.last_lo(), self.last_hi(), F64_MIN, 0) }
    /// position patch i is matched with: the predecessor of the next one's
    #[verifier::opaque]
    pub open spec fn pos(self, i: int) -> int decreases self.count() - i { if i >= self.count() - 1 { self.best().1 } else { self.back((i + 1) as nat)[self.pos(i + 1)] as int } }
    pub open spec fn lost(self, i: int) -> bool { self.back(i as nat)[self.pos(i)] == self.pos(i) }
    pub open spec fn result(self, i: int, fd: f64) -> PSR {
        let b = self.c.mps(self.refs[i], cols_ext(self.m, self.pos(i), self.n));
        let dur = fmul(fd, i2f(self.n as int));
        let rs = fmul(i2f(self.idx[i] as int), fd); let ds = fmul(i2f(self.pos(i)), fd);
        PSR { fbm: if self.lost(i) { zeros_of(b.fbm.len() as int) } else { b.fbm }, fbs: b.fbs, fbe: b.fbe, sim: if self.lost(i) { 0.0f64 } else { b.sim },
            rs, re: fadd(rs, dur), ds: if self.lost(i) { 0.0f64 } else { ds }, de: if self.lost(i) { 0.0f64 } else { fadd(ds, dur) } }
    }
    /// every patch is traced back to a position of the spectrogram
    pub open spec fn traceable(self) -> bool { forall|i: int| 0 <= i < self.count() ==> 0 <= #[trigger] self.pos(i) < self.m.cols() }
    /// patches and spectrogram fit together; sizes keep the index arithmetic within 32 bits
    pub open spec fn shaped(self) -> bool {
        self.refs.len() > 0 && self.refs.len() == self.idx.len() && self.idx.len() <= 0x1000_0000 && 0 < self.n <= 0x2000_0000 && 0 <= self.w <= 0x2000_0000 && 0 < self.m.cols() <= 0x2000_0000 && self.m.rows() > 0
        && (forall|i: int| 0 <= i < self.refs.len() ==> (#[trigger] self.refs[i]).rows() == self.m.rows() && self.refs[i].cols() == self.n)
        && forall|i: int| 0 <= i < self.idx.len() ==> #[trigger] self.idx[i] <= 0x2000_0000
    }
    /// no similarity is NaN or out of proportion
    pub open spec fn sane(self) -> bool { forall|k: nat, o: int| k < self.refs.len() && 0 <= o < self.m.cols() ==> fle(-2.0f64, #[trigger] self.sim(k, o)) && fle(self.sim(k, o), 2.0f64) }
}
pub open spec fn big() -> f64 { 18014398509481984.0f64 }
pub open spec fn within(x: f64) -> bool { fle(-18014398509481984.0f64, x) && fle(x, 18014398509481984.0f64) }
proof fn lemma_add_within(a: f64, b: f64) requires fle(-2.0f64, a), fle(a, 2.0f64), within(b) ensures within(fadd(a, b))
{
    assert((-2.0f64).ieee_le(a) && a.ieee_le(2.0f64) && (-18014398509481984.0f64).ieee_le(b) && b.ieee_le(18014398509481984.0f64) ==> (-18014398509481984.0f64).ieee_le(a.ieee_add(b)) && a.ieee_add(b).ieee_le(18014398509481984.0f64)) by (bit_vector);
}
proof fn lemma_add_min(a: f64) requires fle(-2.0f64, a), fle(a, 2.0f64) ensures fadd(a, F64_MIN) == F64_MIN
{
    assert((-2.0f64).ieee_le(a) && a.ieee_le(2.0f64) ==> a.ieee_add(-1.7976931348623157e308f64) == -1.7976931348623157e308f64) by (bit_vector);
}
proof fn lemma_within_min(a: f64) requires within(a) ensures flt(F64_MIN, a), !fnan(a)
{
    assert((-18014398509481984.0f64).ieee_le(a) && a.ieee_le(18014398509481984.0f64) ==> (-1.7976931348623157e308f64).ieee_lt(a) && !a.ieee_is_nan()) by (bit_vector);
}
proof fn lemma_within_const(a: f64) requires fle(-2.0f64, a), fle(a, 2.0f64) ensures within(a), within(0.0f64)
{
    assert((-2.0f64).ieee_le(a) && a.ieee_le(2.0f64) ==> (-18014398509481984.0f64).ieee_le(a) && a.ieee_le(18014398509481984.0f64)) by (bit_vector);
    assert((-18014398509481984.0f64).ieee_le(0.0f64) && (0.0f64).ieee_le(18014398509481984.0f64)) by (bit_vector);
}
/// the scan returns one of the values it visits, or what it was given; at least one of them exceeds F64_MIN
proof fn lemma_scan(prev: Seq<f64>, b: int, lo: int, v: f64, p: int)
    requires 0 <= lo, b < prev.len(), forall|i: int| lo <= i <= b ==> within(#[trigger] prev[i])
    ensures ({ let r = scan(prev, b, lo, v, p); r == (v, p) || (lo <= r.1 <= b && r.0 == prev[r.1]) }),
        v == F64_MIN && lo <= b ==> lo <= scan(prev, b, lo, v, p).1 <= b && within(scan(prev, b, lo, v, p).0)
    decreases b - lo + 1
{
    if b >= lo {
        lemma_within_min(prev[b]);
        if flt(v, prev[b]) { lemma_scan(prev, b - 1, lo, prev[b], b); } else { lemma_scan(prev, b - 1, lo, v, p); }
    }
}
impl Search {
    pub proof fn lemma_row(self, k: nat)
        requires self.shaped(), self.sane(), k < self.refs.len()
        ensures forall|o: int| 0 <= o < self.m.cols() ==> within(#[trigger] self.row(k)[o]), k > 0 ==> forall|o: int| 0 <= o < self.m.cols() ==> #[trigger] self.back(k)[o] <= o
        decreases k
    {
        let pr = if k == 0 { Seq::empty() } else { self.row((k - 1) as nat) };
        if k > 0 { self.lemma_row((k - 1) as nat); }
        assert forall|o: int| 0 <= o < self.m.cols() implies within(#[trigger] self.row(k)[o]) && (k > 0 ==> self.back(k)[o] <= o) by {
            let sim = self.sim(k, o);
            lemma_within_const(sim);
            assert(k == 0 && searched(self.idx[k as int] as int, self.w, self.m.cols(), o) ==> self.cell(k, o).0 == sim) by { reveal(Search::cell); }
            if k > 0 && searched(self.idx[k as int] as int, self.w, self.m.cols(), o) {
                let lo = win_lo(prev_start(self.idx, k), self.w);
                lemma_scan(pr, o - 1, lo, F64_MIN, -1);
                let r = scan(pr, o - 1, lo, F64_MIN, -1);
                lemma_within_min(pr[o]);
                if lo <= o - 1 { lemma_add_within(sim, r.0); } else { lemma_add_min(sim); }
                assert(within(pr[o]));
                assert(self.cell(k, o) == step_of(pr, lo, o, sim)) by { reveal(Search::cell); }
                assert(within(self.cell(k, o).0) && 0 <= self.cell(k, o).1 <= o);
                assert(as_pos(self.cell(k, o).1) == self.cell(k, o).1);
            }
        }
        assert forall|o: int| k > 0 && 0 <= o < self.m.cols() implies #[trigger] self.back(k)[o] <= o by { assert(within(self.row(k)[o])); }
    }
    pub proof fn lemma_best(self, row: Seq<f64>, a: int, b: int, v: f64, p: int)
        requires 0 <= a, b <= row.len()
        ensures ({ let r = best_from(row, a, b, v, p); r == (v, p) || (a <= r.1 < b && r.0 == row[r.1]) })
        decreases b - a
    { if a < b { if flt(v, row[a]) { self.lemma_best(row, a + 1, b, row[a], a); } else { self.lemma_best(row, a + 1, b, v, p); } } }
    /// with proportionate similarities every patch is traced back to a position, and positions never increase backwards
    pub proof fn lemma_traceable(self)
        requires self.shaped(), self.sane()
        ensures self.traceable(), forall|i: int| 0 <= i < self.count() - 1 ==> #[trigger] self.pos(i) <= self.pos(i + 1)
    {
        lemma_kept(self.idx, self.m.cols(), self.n, self.idx.len());
        if self.count() > 0 { self.lemma_trace(0); }
    }
    proof fn lemma_pos_last(self)
        requires self.shaped(), 0 < self.count()
        ensures 0 <= self.pos(self.count() - 1) < self.m.cols()
    {
        reveal(Search::pos);
        let row = self.row((self.count() - 1) as nat); let (lo, hi) = (self.last_lo(), self.last_hi());
        assert(row.len() == self.m.cols());
        self.lemma_best(row, lo, hi, F64_MIN, 0);
    }
    proof fn lemma_pos_step(self, i: int)
        requires self.shaped(), self.sane(), 0 <= i < self.count() - 1, self.count() <= self.refs.len(), 0 <= self.pos(i + 1) < self.m.cols()
        ensures 0 <= self.pos(i) <= self.pos(i + 1)
    {
        reveal(Search::pos);
        self.lemma_row((i + 1) as nat);
        assert(self.back((i + 1) as nat)[self.pos(i + 1)] <= self.pos(i + 1));
    }
    proof fn lemma_trace(self, i: int)
        requires self.shaped(), self.sane(), 0 <= i < self.count() <= self.refs.len()
        ensures forall|j: int| i <= j < self.count() ==> 0 <= #[trigger] self.pos(j) < self.m.cols(), forall|j: int| i <= j < self.count() - 1 ==> #[trigger] self.pos(j) <= self.pos(j + 1)
        decreases self.count() - i
    {
        hide(Search::sane); hide(Search::shaped); hide(Search::count);
        if i == self.count() - 1 { self.lemma_pos_last(); } else { self.lemma_trace(i + 1); self.lemma_pos_step(i); }
    }
}

// --- optimality ----------------------------------------------------------------
proof fn lemma_scan_top(prev: Seq<f64>, b: int, lo: int, v: f64, p: int, j: int)
    requires 0 <= lo, b < prev.len(), forall|i: int| lo <= i <= b ==> within(#[trigger] prev[i]), v == F64_MIN || within(v)
    ensures fle(v, scan(prev, b, lo, v, p).0), lo <= j <= b ==> fle(prev[j], scan(prev, b, lo, v, p).0)
    decreases b - lo + 1
{
    assert(fle(F64_MIN, F64_MIN)) by { assert((-1.7976931348623157e308f64).ieee_le(-1.7976931348623157e308f64)) by (bit_vector); }
    assert(!fnan(F64_MIN)) by { assert(!(-1.7976931348623157e308f64).ieee_is_nan()) by (bit_vector); }
    if b >= lo {
        lemma_within_min(prev[b]);
        if v != F64_MIN { lemma_within_min(v); }
        if flt(v, prev[b]) { lemma_scan_top(prev, b - 1, lo, prev[b], b, j); } else { lemma_scan_top(prev, b - 1, lo, v, p, j); }
        let r = scan(prev, b, lo, v, p).0;
        if flt(v, prev[b]) { lemma_fle_total(v, prev[b]); lemma_fle_trans(v, prev[b], r); } else { lemma_fle_total(v, prev[b]); lemma_fle_trans(prev[b], v, r); }
    } else if v != F64_MIN { lemma_within_min(v); lemma_fle_total(v, v); }
}
proof fn lemma_best_top(row: Seq<f64>, a: int, b: int, v: f64, p: int, j: int)
    requires 0 <= a, b <= row.len(), forall|i: int| a <= i < b ==> within(#[trigger] row[i]), v == F64_MIN || within(v)
    ensures fle(v, best_from(row, a, b, v, p).0), a <= j < b ==> fle(row[j], best_from(row, a, b, v, p).0)
    decreases b - a
{
    assert(fle(F64_MIN, F64_MIN)) by { assert((-1.7976931348623157e308f64).ieee_le(-1.7976931348623157e308f64)) by (bit_vector); }
    assert(!fnan(F64_MIN)) by { assert(!(-1.7976931348623157e308f64).ieee_is_nan()) by (bit_vector); }
    if a < b {
        lemma_within_min(row[a]);
        if v != F64_MIN { lemma_within_min(v); }
        if flt(v, row[a]) { lemma_best_top(row, a + 1, b, row[a], a, j); } else { lemma_best_top(row, a + 1, b, v, p, j); }
        let r = best_from(row, a, b, v, p).0;
        if flt(v, row[a]) { lemma_fle_total(v, row[a]); lemma_fle_trans(v, row[a], r); } else { lemma_fle_total(v, row[a]); lemma_fle_trans(row[a], v, r); }
    } else if v != F64_MIN { lemma_within_min(v); lemma_fle_total(v, v); }
}
impl Search {
    /// positions for the matchable patches that keep their order and stay in the search windows
    pub open spec fn choice(self, p: Seq<int>) -> bool {
        p.len() == self.count() && (forall|i: int| 0 <= i < p.len() ==> searched(self.idx[i] as int, self.w, self.m.cols(), #[trigger] p[i]))
        && forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] < #[trigger] p[j]
    }
    /// its cumulative similarity over patches 0..=k
    pub open spec fn total(self, p: Seq<int>, k: nat) -> f64 decreases k { if k == 0 { self.sim(0, p[0]) } else { fadd(self.sim(k, p[k as int]), self.total(p, (k - 1) as nat)) } }
    proof fn lemma_cell_top(self, p: Seq<int>, k: nat)
        requires self.shaped(), self.sane(), self.choice(p), k < self.count() <= self.refs.len()
        ensures fle(self.total(p, k), self.row(k)[p[k as int]]), within(self.total(p, k))
        decreases k
    {
        let o = p[k as int]; let sim = self.sim(k, o);
        lemma_within_const(sim); lemma_within_min(sim); lemma_fle_total(sim, sim);
        self.lemma_row(k);
        assert(within(self.row(k)[o]));
        if k == 0 {
            assert(self.cell(k, o).0 == sim) by { reveal(Search::cell); }
        } else {
            let pr = self.row((k - 1) as nat); let t = self.total(p, (k - 1) as nat); let q = p[k - 1];
            self.lemma_cell_top(p, (k - 1) as nat);
            self.lemma_row((k - 1) as nat);
            let lo = win_lo(prev_start(self.idx, k), self.w);
            assert(lo <= q <= o - 1);
            let v = scan(pr, o - 1, lo, F64_MIN, -1).0;
            lemma_scan(pr, o - 1, lo, F64_MIN, -1);
            lemma_scan_top(pr, o - 1, lo, F64_MIN, -1, q);
            lemma_fle_trans(t, pr[q], v);
            lemma_add_within(sim, v); lemma_add_within(sim, t);
            lemma_within_min(fadd(sim, v)); lemma_within_min(fadd(sim, t));
            ax_add_mono(sim, t, v);
            assert(within(pr[o])); lemma_within_min(pr[o]);
            lemma_fle_total(fadd(sim, v), pr[o]);
            if flt(fadd(sim, v), pr[o]) { lemma_fle_trans(fadd(sim, t), fadd(sim, v), pr[o]); }
            assert(self.cell(k, o) == step_of(pr, lo, o, sim)) by { reveal(Search::cell); }
        }
    }
    /// no choice of positions has a larger cumulative similarity than the one traced back
    pub proof fn best_is_optimal(self, p: Seq<int>)
        requires self.shaped(), self.sane(), self.choice(p), self.count() > 0
        ensures fle(self.total(p, (self.count() - 1) as nat), self.best().0)
    {
        lemma_kept(self.idx, self.m.cols(), self.n, self.idx.len());
        let k = (self.count() - 1) as nat; let row = self.row(k); let o = p[k as int];
        self.lemma_cell_top(p, k);
        self.lemma_row(k);
        assert forall|i: int| self.last_lo() <= i < self.last_hi() implies within(#[trigger] row[i]) by {}
        lemma_best_top(row, self.last_lo(), self.last_hi(), F64_MIN, 0, o);
        lemma_fle_trans(self.total(p, k), row[o], self.best().0);
    }
}

// --- time spans ------------------------------------------------------------------
pub open spec fn sample_at(t: f64, rate: u32) -> int { f2usize(fmul(t, i2f(rate as int))) as int }
/// zeros after the end up to the end time
pub open spec fn pad_after(n: int, t: f64, rate: u32) -> int { f2usize(fsub(fmul(t, i2f(rate as int)), i2f(n))) as int }
pub open spec fn pad_before(t: f64, rate: u32) -> int { if flt(t, 0.0f64) { f2usize(fmul(fneg(t), i2f(rate as int))) as int } else { 0 } }
pub open spec fn span_end(n: int, t: f64, rate: u32) -> int { if sample_at(t, rate) <= n { sample_at(t, rate) } else { n } }
pub open spec fn zeros_of(n: int) -> Seq<f64> { Seq::new(n as nat, |i: int| 0.0f64) }
pub open spec fn span_of(s: Seq<f64>, rate: u32, a: f64, b: f64) -> Seq<f64> {
    zeros_of(pad_before(a, rate)) + s.subrange(sample_at(a, rate), span_end(s.len() as int, b, rate)) + zeros_of(pad_after(s.len() as int, b, rate))
}
pub open spec fn span_ok(s: Seq<f64>, rate: u32, a: f64, b: f64) -> bool { sample_at(a, rate) <= span_end(s.len() as int, b, rate) }
// --- realignment of the matched patches --------------------------------------------
pub open spec fn unmatched(p: PSR) -> bool { feq(p.ds, p.de) && feq(p.ds, 0.0f64) }
/// reference x and degraded y at one rate, compared with n bands from minf up in windows w
pub struct Fine { pub c: NeurogramSimiliarityIndexMeasure, pub x: Seq<f64>, pub y: Seq<f64>, pub rate: u32, pub n: int, pub minf: f64, pub w: AnalysisWindow }
impl Fine {
    /// the audio of both patches
    pub open spec fn a(self, p: PSR) -> Seq<f64> { span_of(self.x, self.rate, p.rs, p.re) }
    pub open spec fn b(self, p: PSR) -> Seq<f64> { span_of(self.y, self.rate, p.ds, p.de) }
    pub open spec fn k(self, p: PSR) -> int { shift_of(self.a(p), self.b(p)) }
    pub open spec fn lag(self, p: PSR) -> f64 { delay_of(self.k(p), self.rate) }
    /// the patches start inside their signals
    pub open spec fn usable(self, p: PSR) -> bool { !unmatched(p) ==> span_ok(self.x, self.rate, p.rs, p.re) && span_ok(self.y, self.rate, p.ds, p.de) && overlap(self.a(p), self.b(p)) }
    /// the common spans once the degraded patch is moved, and the prepared spectrograms of them
    pub open spec fn ra(self, p: PSR) -> Seq<f64> { ref_span(self.a(p), self.b(p), self.k(p)) }
    pub open spec fn rb(self, p: PSR) -> Seq<f64> { deg_span(self.a(p), self.b(p), self.k(p)) }
    pub open spec fn spect(self, s: Seq<f64>) -> Array2<f64> { gt_data(self.n, self.minf, s, self.rate, self.w.size as int, hop_of(self.w) as int) }
    /// similarity of the realigned patches
    pub open spec fn again(self, p: PSR) -> PSR { let (f, g) = (self.spect(self.ra(p)), self.spect(self.rb(p))); self.c.mps(prep(f, f, g), prep(g, f, g)) }
    pub open spec fn failure(self, p: PSR) -> Option<VisqolError> {
        if unmatched(p) { None } else if !alignable(self.a(p), self.b(p)) { Some(VisqolError::FailedToAlignSignals) }
        else if self.ra(p).len() < self.w.size { Some(VisqolError::TooFewSamples { found: self.ra(p).len() as usize, minimum_required: self.w.size }) } else { None }
    }
    /// a patch with the lag added to whichever signal starts later
    pub open spec fn moved(self, p: PSR) -> PSR {
        let q = self.again(p);
        let rs = if flt(0.0f64, self.lag(p)) { fadd(p.rs, self.lag(p)) } else { p.rs };
        let ds = if flt(0.0f64, self.lag(p)) { p.ds } else { fsub(p.ds, self.lag(p)) };
        PSR { rs, ds, re: fadd(rs, duration_of(self.ra(p).len() as int, self.rate)), de: fadd(ds, duration_of(self.rb(p).len() as int, self.rate)), fbm: q.fbm, fbs: q.fbs, fbe: q.fbe, sim: q.sim }
    }
    /// the realigned patch, unless there was no match or the realignment is worse
    pub open spec fn result(self, p: PSR) -> PSR { if unmatched(p) || flt(self.again(p).sim, p.sim) { p } else { self.moved(p) } }
    /// realignment never lowers a similarity
    pub proof fn lemma_not_worse(self, p: PSR) ensures !flt(self.result(p).sim, p.sim) { let v = p.sim; assert(!v.ieee_lt(v)) by (bit_vector); }
}
// --- the rounded times lie inside the signals ------------------------------------------
/// start and end of n frames of h samples from frame k on
pub open spec fn grid(k: int, n: int, h: int, rate: u32) -> (f64, f64) {
    let fd = fdiv(i2f(h), i2f(rate as int)); (fmul(i2f(k), fd), fadd(fmul(i2f(k), fd), fmul(fd, i2f(n))))
}
pub open spec fn grid_ok(k: int, n: int, h: int, len: int) -> bool { 0 <= k && 1 <= n && 1 <= h && (k + n) * h <= 0x4000_0000 && k * h <= len <= 0x4000_0000 }
/// the samples of n frames from frame k on, up to one
pub proof fn lemma_span(s: Seq<f64>, rate: u32, k: int, n: int, h: int)
    requires rate > 0, grid_ok(k, n, h, s.len() as int)
    ensures ({ let (a, b) = grid(k, n, h, rate); span_ok(s, rate, a, b) && n * h - 1 <= span_of(s, rate, a, b).len() <= n * h + 1 })
{
    let (a, b) = grid(k, n, h, rate);
    lemma_grid(k, n, h, rate as int);
    let (kr, nr, d) = (k as real, n as real, h as real / rate as real);
    lemma_whole(fmul(a, i2f(rate as int)), k * h, 3);
    lemma_whole(fmul(b, i2f(rate as int)), (k + n) * h, 4);
    lemma_whole_sub(fmul(b, i2f(rate as int)), (k + n) * h, 4, s.len() as int);
    ax_val_zero(); ax_val_lt(a, 0.0f64);
    assert(val(a) >= 0real) by { let v = kr * d; assert(v >= 0real && v * (2real * eta()) <= v) by (nonlinear_arith) requires v == kr * d, kr >= 0real, d > 0real; }
    assert(pad_before(a, rate) == 0);
}
/// a whole number of samples divided by the sample rate
proof fn lemma_ratio(n: int, r: int)
    requires 1 <= n <= 1073741825, 1 <= r <= 4294967296
    ensures rel(fdiv(i2f(n), i2f(r)), n as real / r as real, 1)
{
    ax_val_int(n); ax_val_int(r);
    let (v, w) = (n as real, r as real); let g = v / w;
    assert(rel(i2f(n), v, 0)) by { assert(v * (0real * eta()) == 0real) by (nonlinear_arith); }
    assert(g * w == v) by (nonlinear_arith) requires g == v / w, w > 0real;
    assert(1real / 10000000000real <= g <= 10000000000real) by (nonlinear_arith) requires g * w == v, 1real <= w <= 4294967296real, 1real <= v <= 1073741825real;
    lemma_div(i2f(n), v, 0, i2f(r), w);
}
proof fn lemma_half_overlap(a: Seq<f64>, b: Seq<f64>, n: int)
    requires 1 <= n <= 0x4000_0000, n - 1 <= a.len() <= n + 1, n - 1 <= b.len() <= n + 1
    ensures overlap(a, b)
{ }
impl Fine {
    /// matched patches lie in both signals
    pub proof fn lemma_usable(self, p: PSR, k: int, o: int, n: int, h: int)
        requires self.rate > 0, grid_ok(k, n, h, self.x.len() as int), (p.rs, p.re) == grid(k, n, h, self.rate),
            (p.ds == 0.0f64 && p.de == 0.0f64) || (grid_ok(o, n, h, self.y.len() as int) && (p.ds, p.de) == grid(o, n, h, self.rate))
        ensures self.usable(p), !unmatched(p) ==> self.a(p).len() <= n * h + 1
    {
        assert(feq(0.0f64, 0.0f64)) by { assert((0.0f64).ieee_eq(0.0f64)) by (bit_vector); }
        if !unmatched(p) {
            lemma_span(self.x, self.rate, k, n, h); lemma_span(self.y, self.rate, o, n, h);
            assert(1 <= n * h <= (k + n) * h) by (nonlinear_arith) requires 0 <= k, 1 <= n, 1 <= h;
            lemma_half_overlap(self.a(p), self.b(p), n * h);
        }
    }
    /// the frames of a realigned patch can be counted
    pub proof fn lemma_framed(self, p: PSR, k: int, n: int, h: int)
        requires self.rate > 0, grid_ok(k, n, h, self.x.len() as int), (p.rs, p.re) == grid(k, n, h, self.rate), h <= self.w.size,
            !unmatched(p) ==> self.usable(p) && self.a(p).len() <= n * h + 1, self.failure(p).is_none()
        ensures ({ let q = self.result(p); let c = f2usize(f_ceil(fdiv(fsub(q.re, q.rs), fdiv(i2f(h), i2f(self.rate as int))))); 1 <= c <= 0x8000_0000 })
    {
        let r = self.rate as int; let fd = fdiv(i2f(h), i2f(r)); let (kr, nr, hr, rr) = (k as real, n as real, h as real, r as real); let d = hr / rr;
        lemma_grid(k, n, h, r);
        assert(1 <= h <= (k + n) * h) by (nonlinear_arith) requires 0 <= k, 1 <= n, 1 <= h;
        assert(1real / 10000000000real <= d <= 10000000000real) by (nonlinear_arith) requires d * rr == hr, 1real <= rr <= 4294967296real, 1real <= hr <= 1073741824real, d > 0real;
        let q = self.result(p);
        if q == p {
            lemma_weaken(p.rs, kr * d, 2, 4);
            lemma_count(p.rs, kr, fmul(fd, i2f(n)), nr, fd, d);
        } else {
            let l = self.ra(p).len() as int; let lr = l as real; let dur = duration_of(l, self.rate); let v = lr / hr; let s = self.k(p);
            lemma_spans(self.a(p), self.b(p), s);
            assert(h <= l <= n * h + 1);
            ax_val_int(l); ax_val_int(r); ax_val_int(s);
            let ld = lr / rr;
            assert(ld * rr == lr && 1real / 10000000000real <= ld <= 10000000000real) by (nonlinear_arith) requires ld == lr / rr, 1real <= rr <= 4294967296real, 1real <= lr <= 1073741825real;
            lemma_ratio(l, r);
            assert(v * hr == lr && 1real <= v <= 1073741825real) by (nonlinear_arith) requires v == lr / hr, 1real <= hr <= lr, lr <= 1073741825real;
            assert(v * d == ld) by (nonlinear_arith) requires v * hr == lr, d * rr == hr, ld * rr == lr, rr > 0real;
            lemma_weaken(dur, v * d, 1, 2);
            ax_val_zero();
            let g = s as real / rr;
            assert(g * rr == s as real) by (nonlinear_arith) requires g == s as real / rr, rr > 0real;
            if s == 0 {
                ax_val_lt(0.0f64, self.lag(p));
                lemma_weaken(p.rs, kr * d, 2, 4);
                lemma_count(p.rs, kr, dur, v, fd, d);
            } else if s < 0 {
                assert(-10000000000real <= g <= -1real / 10000000000real) by (nonlinear_arith) requires g * rr == s as real, 1real <= rr <= 4294967296real, -1073741825real <= s as real <= -1real;
                ax_val_div(i2f(s), i2f(r));
                ax_val_lt(0.0f64, self.lag(p));
                assert(val(self.lag(p)) < 0real);
                lemma_weaken(p.rs, kr * d, 2, 4);
                lemma_count(p.rs, kr, dur, v, fd, d);
            } else {
                assert(1real / 10000000000real <= g <= 10000000000real) by (nonlinear_arith) requires g * rr == s as real, 1real <= rr <= 4294967296real, 1real <= s as real <= 1073741825real;
                lemma_ratio(s, r);
                ax_val_lt(0.0f64, self.lag(p));
                assert(val(self.lag(p)) > 0real);
                let u = kr + s as real / hr;
                lemma_weaken(p.rs, kr * d, 2, 2);
                lemma_weaken(self.lag(p), g, 1, 2);
                assert(kr <= 1073741824real) by { assert(k <= (k + n) * h) by (nonlinear_arith) requires 0 <= k, 1 <= n, 1 <= h; }
                assert(kr * d <= 20000000000000000000real) by (nonlinear_arith) requires 0real <= kr <= 1073741824real, 0real < d <= 10000000000real;
                lemma_add(p.rs, kr * d, 2, self.lag(p), g, 2);
                assert((s as real / hr) * hr == s as real && 0real <= s as real / hr <= 1073741825real) by (nonlinear_arith) requires 1real <= hr, 1real <= s as real <= 1073741825real;
                let sh = s as real / hr;
                assert(sh * d == g) by (nonlinear_arith) requires sh * hr == s as real, d * rr == hr, g * rr == s as real, rr > 0real;
                assert(u * d == kr * d + g) by (nonlinear_arith) requires u == kr + sh, sh * d == g;
                lemma_weaken(q.rs, u * d, 3, 4);
                lemma_count(q.rs, u, dur, v, fd, d);
            }
        }
    }
}
=== fn ComparisonPatchesSelector::new
ensures r.sim_comparator == sim_comparator,
=== fn ComparisonPatchesSelector::find_most_optimal_deg_patches
requires
  0 <= search_window_radius, search_window_radius * old(ref_patches)@[0].cols() <= 0x2000_0000,
  ({ let s = Search { c: self.sim_comparator, refs: old(ref_patches)@, idx: old(ref_patch_indices)@, m: *spectrogram_data, n: old(ref_patches)@[0].cols(), w: search_window_radius * old(ref_patches)@[0].cols() }; s.shaped() && s.traceable() }),
ensures
  final(ref_patches)@ == old(ref_patches)@, final(ref_patch_indices)@ == old(ref_patch_indices)@,
  ({ let s = Search { c: self.sim_comparator, refs: old(ref_patches)@, idx: old(ref_patch_indices)@, m: *spectrogram_data, n: old(ref_patches)@[0].cols(), w: search_window_radius * old(ref_patches)@[0].cols() };
     r.is_ok() == (s.count() > 0) && (r.is_err() ==> r->Err_0 is SignalsTooDifferent)
     && (r.is_ok() ==> r->Ok_0@.len() == s.count() && forall|i: int| 0 <= i < s.count() ==> (#[trigger] r->Ok_0@[i])@ == s.result(i, frame_duration)) }),
--- attr
#[verifier::allow_complex_invariants]
#[verifier::rlimit(40)]
--- start
let ghost s = Search { c: self.sim_comparator, refs: ref_patches@, idx: ref_patch_indices@, m: *spectrogram_data, n: ref_patches@[0].cols(), w: search_window_radius * ref_patches@[0].cols() };
let ghost kp = s.count() as int;
let ghost fr = s.m.cols();
proof { lemma_kept(s.idx, fr, s.n, s.idx.len()); }
--- loop 0
invariant 0 <= vx_i0 <= vx_end0, vx_end0 == fr, deg_patches@.len() == vx_i0, ref_patches@ == s.refs, forall|o: int| 0 <= o < vx_i0 ==> #[trigger] deg_patches@[o] == cols_ext(s.m, o, s.n),
--- loop 1
invariant 0 <= vx_i1 <= s.refs.len(), ref_patches@ == s.refs, ref_patch_indices@ == s.idx, deg_patches@.len() == fr, num_patches == kp,
  cumulative_similarity_dp@.len() == s.idx.len(), backtrace@.len() == s.idx.len(), rows_sized(cumulative_similarity_dp@, fr), rows_sized(backtrace@, fr),
  forall|o: int| 0 <= o < fr ==> #[trigger] deg_patches@[o] == cols_ext(s.m, o, s.n),
  forall|j: int| 0 <= j < vx_i1 ==> (#[trigger] cumulative_similarity_dp@[j])@ == s.row(j as nat),
  forall|j: int| 0 <= j < vx_i1 ==> (#[trigger] backtrace@[j])@ == s.back(j as nat),
  forall|j: int, o: int| vx_i1 <= j < s.idx.len() && 0 <= o < fr ==> #[trigger] cumulative_similarity_dp@[j]@[o] == 0.0f64,
  forall|j: int, o: int| vx_i1 <= j < s.idx.len() && 0 <= o < fr ==> #[trigger] backtrace@[j]@[o] == 0usize,
--- loop 1 start
let ghost dg = deg_patches@;
let ghost cd0 = cumulative_similarity_dp@;
--- loop 1 end
proof {
  let k = vx_i1 - 1;
  let sims = sims_of(s.c, s.refs[k], dg);
  assert forall|o: int| 0 <= o < fr implies sims(o) == #[trigger] s.sim(k as nat, o) by {}
  assert forall|o: int| 0 <= o < fr implies #[trigger] s.cell(k as nat, o) == cell_of(k == 0, prev_row(cd0, k as nat), prev_start(s.idx, k as nat), s.w, o, sims(o)) by { reveal(Search::cell); assert(sims(o) == s.sim(k as nat, o)); }
  assert(cumulative_similarity_dp@[k]@ =~= s.row(k as nat));
  assert(backtrace@[k]@ =~= s.back(k as nat));
  assert(ref_patches@ =~= s.refs);
}
--- before let mut max_similarity_score
proof { reveal_with_fuel(Search::pos, 2); }
let ghost (cd, bt) = (cumulative_similarity_dp@, backtrace@);
--- loop 2
invariant cumulative_similarity_dp@ == cd, vx_end2 == s.idx[kp - 1] + s.w + 1, lower_limit == s.last_lo(), lower_limit <= vx_i2,
  cd[kp - 1]@ == s.row((kp - 1) as nat), fr == num_frames_in_deg_spectro, last_index == kp - 1,
  s.best() == best_from(s.row((kp - 1) as nat), vx_i2 as int, s.last_hi(), max_similarity_score, last_offset as int),
ensures vx_i2 >= s.last_hi(),
--- loop 3
invariant -1 <= patch_index < kp, best_deg_patches@.len() == kp, ref_patches@ == s.refs, ref_patch_indices@ == s.idx, backtrace@ == bt,
  forall|j: int| 0 <= j < s.idx.len() ==> (#[trigger] bt[j])@ == s.back(j as nat),
  patch_index >= 0 ==> last_offset == s.pos(patch_index as int),
  forall|j: int| patch_index < j < kp ==> (#[trigger] best_deg_patches@[j])@ == s.result(j, frame_duration),
decreases patch_index + 1,
=== fn ComparisonPatchesSelector::calc_max_num_patches
ensures r == kept(ref_patch_indices@, num_frames_in_deg_spectro as nat, num_frames_per_patch as nat, ref_patch_indices@.len()), r <= ref_patch_indices@.len(),
--- loop 0
invariant num_patches <= ref_patch_indices@.len(),
  kept(ref_patch_indices@, num_frames_in_deg_spectro as nat, num_frames_per_patch as nat, ref_patch_indices@.len()) == kept(ref_patch_indices@, num_frames_in_deg_spectro as nat, num_frames_per_patch as nat, num_patches as nat),
decreases num_patches,
=== fn ComparisonPatchesSelector::slice
requires span_ok(in_signal.data_matrix@, in_signal.sample_rate, start_time, end_time),
ensures r.data_matrix@ == span_of(in_signal.data_matrix@, in_signal.sample_rate, start_time, end_time), r.sample_rate == in_signal.sample_rate,
--- before AudioSignal::new
proof { assert(sliced_matrix@ =~= span_of(in_signal.data_matrix@, in_signal.sample_rate, start_time, end_time)); }
=== fn ComparisonPatchesSelector::build_degraded_patch
requires window_beginning <= window_end, window_beginning <= spectrogram_data.cols(),
ensures r == cols_ext(*spectrogram_data, window_beginning as int, (window_end - window_beginning) as nat),
--- end
proof { let z = cols_ext(*spectrogram_data, window_beginning as int, (window_end - window_beginning) as nat); assert(deg_patch.eqv(&z)); ax_ext2(deg_patch, z); }
=== fn ComparisonPatchesSelector::find_most_optimal_deg_patch
requires
  patch_index < ref_patch_indices@.len(), patch_index < old(cumulative_similarity_dp)@.len(), patch_index < old(backtrace)@.len(),
  rows_sized(old(cumulative_similarity_dp)@, spectrogram_data.cols()), rows_sized(old(backtrace)@, spectrogram_data.cols()), old(deg_patches)@.len() == spectrogram_data.cols(),
  spectrogram_data.cols() <= 0x2000_0000, 0 <= search_window <= 0x2000_0000, forall|i: int| 0 <= i < ref_patch_indices@.len() ==> #[trigger] ref_patch_indices@[i] <= 0x2000_0000,
  forall|o: int| 0 <= o < old(deg_patches)@.len() ==> self.sim_comparator.mps_pre(*old(ref_patch), #[trigger] old(deg_patches)@[o]),
ensures
  *final(ref_patch) == *old(ref_patch), final(deg_patches)@ == old(deg_patches)@,
  other_rows(final(cumulative_similarity_dp)@, old(cumulative_similarity_dp)@, patch_index as int), other_rows(final(backtrace)@, old(backtrace)@, patch_index as int),
  row_ok(old(cumulative_similarity_dp)@[patch_index as int]@, final(cumulative_similarity_dp)@[patch_index as int]@, old(backtrace)@[patch_index as int]@, final(backtrace)@[patch_index as int]@,
    patch_index as nat, prev_row(old(cumulative_similarity_dp)@, patch_index as nat), prev_start(ref_patch_indices@, patch_index as nat), ref_patch_indices@[patch_index as int] as int, search_window as int,
    spectrogram_data.cols(), sims_of(self.sim_comparator, *old(ref_patch), old(deg_patches)@)),
--- start
let ghost (dp0, bt0, rp0, dg0) = (cumulative_similarity_dp@, backtrace@, *ref_patch, deg_patches@);
let ghost k = patch_index as int;
let ghost prev = prev_row(dp0, k as nat);
let ghost ps = prev_start(ref_patch_indices@, k as nat);
let ghost c = ref_patch_indices@[k] as int;
let ghost n = spectrogram_data.cols();
let ghost w = search_window as int;
let ghost sims = sims_of(self.sim_comparator, rp0, dg0);
--- loop 0
invariant
  *ref_patch == rp0, deg_patches@ == dg0, c - w <= slide_offset <= c + w + 1, slide_offset <= n || slide_offset <= 0 || slide_offset == c - w,
  other_rows(cumulative_similarity_dp@, dp0, k), other_rows(backtrace@, bt0, k), rows_sized(cumulative_similarity_dp@, n), rows_sized(backtrace@, n),
  forall|o: int| 0 <= o < n ==> #[trigger] cumulative_similarity_dp@[k]@[o] == if searched(c, w, n, o) && o < slide_offset { cell_of(k == 0, prev, ps, w, o, sims(o)).0 } else { dp0[k]@[o] },
  forall|o: int| 0 <= o < n ==> #[trigger] backtrace@[k]@[o] == if searched(c, w, n, o) && o < slide_offset { as_pos(cell_of(k == 0, prev, ps, w, o, sims(o)).1) } else { bt0[k]@[o] },
decreases c + w + 1 - slide_offset,
--- loop 1
invariant
  0 <= lower_limit == win_lo(ps, w), slide_offset > back_offset >= -1, sim_result.similarity == sims(slide_offset as int), -1 <= past_slide_offset < slide_offset,
  scan(prev, slide_offset - 1, lower_limit as int, F64_MIN, -1) == scan(prev, back_offset as int, lower_limit as int, highest_sim, past_slide_offset as int),
decreases back_offset + 1,
=== fn ComparisonPatchesSelector::finely_align_and_recreate_patches
--- attr
#[verifier::rlimit(40)]
--- spec
requires ref_signal.sample_rate == deg_signal.sample_rate > 0, frame_ok(*analysis_window), NUM_BANDS > 0,
  ({ let f = Fine { c: self.sim_comparator, x: ref_signal.data_matrix@, y: deg_signal.data_matrix@, rate: ref_signal.sample_rate, n: NUM_BANDS as int, minf: old(spect_builder).filter_bank.min_freq, w: *analysis_window }; forall|i: int| 0 <= i < old(sim_results)@.len() ==> f.usable(#[trigger] old(sim_results)@[i]@) }),
ensures
  ({ let f = Fine { c: self.sim_comparator, x: ref_signal.data_matrix@, y: deg_signal.data_matrix@, rate: ref_signal.sample_rate, n: NUM_BANDS as int, minf: old(spect_builder).filter_bank.min_freq, w: *analysis_window }; let s = old(sim_results)@;
     match r {
       Ok(v) => v@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> f.failure(#[trigger] s[i]@).is_none() && v@[i]@ == f.result(s[i]@),
       Err(e) => exists|i: int| 0 <= i < s.len() && f.failure(#[trigger] s[i]@) == Some(e->Visqol_0) && e is Visqol && forall|j: int| 0 <= j < i ==> f.failure(#[trigger] s[j]@).is_none(),
     } }),
  final(spect_builder).filter_bank.min_freq == old(spect_builder).filter_bank.min_freq,
  final(sim_results)@.len() == old(sim_results)@.len(),
--- start
let ghost f = Fine { c: self.sim_comparator, x: ref_signal.data_matrix@, y: deg_signal.data_matrix@, rate: ref_signal.sample_rate, n: NUM_BANDS as int, minf: spect_builder.filter_bank.min_freq, w: *analysis_window };
let ghost s = sim_results@;
--- loop 0
invariant realigned_results@.len() == s.len(), sim_results@.len() == s.len(),
  forall|i: int| 0 <= i < s.len() ==> (#[trigger] sim_results@[i])@ == s[i]@,
  forall|i: int| 0 <= i < vx_i0 ==> f.failure(#[trigger] s[i]@).is_none() && realigned_results@[i]@ == f.result(s[i]@),
  spect_builder.filter_bank.min_freq == f.minf,
--- before if result.deg_patch_start_time
let ghost p = s[vx_i0 - 1]@;
let ghost (xa, xb) = (f.a(p), f.b(p));
proof {
  assert(result@ == p && f.usable(p));
  typed(result.deg_patch_start_time); typed(result.deg_patch_end_time); typed(result.ref_patch_start_time); typed(result.ref_patch_end_time); typed(result.similarity);
}
--- before let new_ref_duration
proof { lemma_spans(xa, xb, f.k(p)); assert(lag == f.lag(p)); }
--- loop 0 end
proof {
  assert(realigned_results@[vx_i0 - 1]@ == f.result(p));
}
