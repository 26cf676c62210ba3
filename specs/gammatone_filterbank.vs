#source visqol-rs/src/gammatone_filterbank.rs
#module gammatone_filterbank
=== prelude
use crate::signal_filter::*;
/// numerators of the four second order sections a band's ten coefficients
/// (a0, a11, a12, a13, a14, a2, b0, b1, b2, gain) describe; only the first one
/// carries the gain
pub open spec fn section_num(c: Seq<f64>, k: int) -> Seq<f64> {
    if k == 1 { seq![fdiv(c[0], c[9]), fdiv(c[1], c[9]), fdiv(c[5], c[9])] } else { seq![c[0], c[k], c[5]] }
}
pub open spec fn section_den(c: Seq<f64>) -> Seq<f64> { seq![c[6], c[7], c[8]] }
/// states of the four sections of one band
pub struct Sections { pub s1: (f64, f64), pub s2: (f64, f64), pub s3: (f64, f64), pub s4: (f64, f64) }
pub open spec fn cleared() -> Sections { Sections { s1: (0.0f64, 0.0f64), s2: (0.0f64, 0.0f64), s3: (0.0f64, 0.0f64), s4: (0.0f64, 0.0f64) } }
/// output of the first k sections of the cascade
pub open spec fn cascade1(c: Seq<f64>, x: Seq<f64>, s: Sections) -> Seq<f64> { iir_out(section_num(c, 1), section_den(c), x, s.s1) }
pub open spec fn cascade2(c: Seq<f64>, x: Seq<f64>, s: Sections) -> Seq<f64> { iir_out(section_num(c, 2), section_den(c), cascade1(c, x, s), s.s2) }
pub open spec fn cascade3(c: Seq<f64>, x: Seq<f64>, s: Sections) -> Seq<f64> { iir_out(section_num(c, 3), section_den(c), cascade2(c, x, s), s.s3) }
pub open spec fn cascade(c: Seq<f64>, x: Seq<f64>, s: Sections) -> Seq<f64> { iir_out(section_num(c, 4), section_den(c), cascade3(c, x, s), s.s4) }
/// states after the samples x
pub open spec fn cascade_state(c: Seq<f64>, x: Seq<f64>, s: Sections) -> Sections {
    Sections {
        s1: iir_final(section_num(c, 1), section_den(c), x, s.s1),
        s2: iir_final(section_num(c, 2), section_den(c), cascade1(c, x, s), s.s2),
        s3: iir_final(section_num(c, 3), section_den(c), cascade2(c, x, s), s.s3),
        s4: iir_final(section_num(c, 4), section_den(c), cascade3(c, x, s), s.s4),
    }
}
/// the cascade is a stream processor: a signal may be split anywhere if the
/// states are handed over
pub proof fn cascade_streams(c: Seq<f64>, x: Seq<f64>, y: Seq<f64>, s: Sections)
    ensures cascade(c, x + y, s) =~= cascade(c, x, s) + cascade(c, y, cascade_state(c, x, s)),
        cascade_state(c, x + y, s) == cascade_state(c, y, cascade_state(c, x, s)),
{
    let d = section_den(c); let t = cascade_state(c, x, s);
    streaming_composition(section_num(c, 1), d, x, y, s.s1);
    streaming_composition(section_num(c, 2), d, cascade1(c, x, s), cascade1(c, y, t), s.s2);
    streaming_composition(section_num(c, 3), d, cascade2(c, x, s), cascade2(c, y, t), s.s3);
    streaming_composition(section_num(c, 4), d, cascade3(c, x, s), cascade3(c, y, t), s.s4);
    assert(cascade1(c, x + y, s) == cascade1(c, x, s) + cascade1(c, y, t));
    assert(cascade2(c, x + y, s) == cascade2(c, x, s) + cascade2(c, y, t));
    assert(cascade3(c, x + y, s) == cascade3(c, x, s) + cascade3(c, y, t));
}
impl<const NUM_BANDS: usize> GammatoneFilterbank<NUM_BANDS> {
    pub open spec fn coefs(&self, k: int) -> Seq<f64> {
        seq![self.filter_coeff_a0@[k], self.filter_coeff_a11@[k], self.filter_coeff_a12@[k], self.filter_coeff_a13@[k], self.filter_coeff_a14@[k], self.filter_coeff_a2@[k], self.filter_coeff_b0@[k], self.filter_coeff_b1@[k], self.filter_coeff_b2@[k], self.filter_coeff_gain@[k]]
    }
    pub open spec fn sections(&self, k: int) -> Sections {
        Sections { s1: (self.filter_conditions_1@[k]@[0], self.filter_conditions_1@[k]@[1]), s2: (self.filter_conditions_2@[k]@[0], self.filter_conditions_2@[k]@[1]),
            s3: (self.filter_conditions_3@[k]@[0], self.filter_conditions_3@[k]@[1]), s4: (self.filter_conditions_4@[k]@[0], self.filter_conditions_4@[k]@[1]) }
    }
    pub open spec fn n_coefs(&self, n: nat) -> bool {
        self.filter_coeff_a0@.len() == n && self.filter_coeff_a11@.len() == n && self.filter_coeff_a12@.len() == n && self.filter_coeff_a13@.len() == n && self.filter_coeff_a14@.len() == n
        && self.filter_coeff_a2@.len() == n && self.filter_coeff_b0@.len() == n && self.filter_coeff_b1@.len() == n && self.filter_coeff_b2@.len() == n && self.filter_coeff_gain@.len() == n
    }
    pub open spec fn same_coefs(&self, o: &Self) -> bool {
        self.min_freq == o.min_freq
        && self.filter_coeff_a0 == o.filter_coeff_a0 && self.filter_coeff_a11 == o.filter_coeff_a11 && self.filter_coeff_a12 == o.filter_coeff_a12 && self.filter_coeff_a13 == o.filter_coeff_a13 && self.filter_coeff_a14 == o.filter_coeff_a14
        && self.filter_coeff_a2 == o.filter_coeff_a2 && self.filter_coeff_b0 == o.filter_coeff_b0 && self.filter_coeff_b1 == o.filter_coeff_b1 && self.filter_coeff_b2 == o.filter_coeff_b2 && self.filter_coeff_gain == o.filter_coeff_gain
    }
}
=== fn GammatoneFilterbank::new
ensures r.min_freq == min_freq, r.n_coefs(0), forall|k: int| 0 <= k < NUM_BANDS ==> #[trigger] r.sections(k) == cleared(),
=== fn GammatoneFilterbank::reset_filter_conditions
ensures final(self).same_coefs(old(self)), forall|k: int| 0 <= k < NUM_BANDS ==> #[trigger] final(self).sections(k) == cleared(),
=== fn GammatoneFilterbank::set_filter_coefficients
requires filter_coeffs.cols() >= 10,
ensures final(self).min_freq == old(self).min_freq, final(self).n_coefs(filter_coeffs.rows()),
    forall|k: int| 0 <= k < filter_coeffs.rows() ==> #[trigger] final(self).coefs(k) =~= filter_coeffs.row_seq(k).subrange(0, 10),
    forall|k: int| 0 <= k < NUM_BANDS ==> #[trigger] final(self).sections(k) == old(self).sections(k),
=== fn GammatoneFilterbank::apply_filter
requires old(self).n_coefs(NUM_BANDS as nat),
ensures r.rows() == NUM_BANDS, r.cols() == input_signal@.len(), final(self).same_coefs(old(self)),
    forall|k: int| 0 <= k < NUM_BANDS ==> #[trigger] r.row_seq(k) == cascade(old(self).coefs(k), input_signal@, old(self).sections(k)),
    forall|k: int| 0 <= k < NUM_BANDS ==> #[trigger] final(self).sections(k) == cascade_state(old(self).coefs(k), input_signal@, old(self).sections(k)),
--- loop 0
invariant 0 <= vx_i0 <= vx_end0, vx_end0 == NUM_BANDS, self.same_coefs(old(self)), old(self).n_coefs(NUM_BANDS as nat),
  output.rows() == NUM_BANDS, output.cols() == input_signal@.len(),
  forall|k: int, j: int| 0 <= k < vx_i0 && 0 <= j < input_signal@.len() ==> #[trigger] output.at(k, j) == cascade(old(self).coefs(k), input_signal@, old(self).sections(k))[j],
  forall|k: int| 0 <= k < vx_i0 ==> #[trigger] self.sections(k) == cascade_state(old(self).coefs(k), input_signal@, old(self).sections(k)),
  forall|k: int| vx_i0 <= k < NUM_BANDS ==> #[trigger] self.sections(k) == old(self).sections(k),
--- loop 0 start
let ghost c = old(self).coefs(vx_i0 - 1);
let ghost s = old(self).sections(vx_i0 - 1);
let ghost me = *self;
proof { assert(self.sections(vx_i0 - 1) == s); }
--- before let mut filter_result
proof {
  assert(b@ =~= section_den(c)); assert(a1@ =~= section_num(c, 1)); assert(a2@ =~= section_num(c, 2)); assert(a3@ =~= section_num(c, 3)); assert(a4@ =~= section_num(c, 4));
}
--- loop 1
invariant 0 <= vx_i1 <= vx_end1, vx_end1 == input_signal@.len(), 0 < vx_i0 <= NUM_BANDS, band == vx_i0 - 1,
  output.rows() == NUM_BANDS, output.cols() == input_signal@.len(), filter_result.filtered_signal@ == cascade(c, input_signal@, s), c == old(self).coefs(vx_i0 - 1), s == old(self).sections(vx_i0 - 1),
  forall|k: int, j: int| 0 <= k < vx_i0 - 1 && 0 <= j < input_signal@.len() ==> #[trigger] output.at(k, j) == cascade(old(self).coefs(k), input_signal@, old(self).sections(k))[j],
  forall|j: int| 0 <= j < vx_i1 ==> #[trigger] output.at(vx_i0 - 1, j) == cascade(c, input_signal@, s)[j],
--- loop 0 end
proof {
  assert forall|k: int| 0 <= k < NUM_BANDS && k != vx_i0 - 1 implies #[trigger] self.sections(k) == me.sections(k) by {}
  assert(self.sections(vx_i0 - 1) == cascade_state(c, input_signal@, s));
}
--- loop 0 after
proof { assert forall|k: int| 0 <= k < NUM_BANDS implies #[trigger] output.row_seq(k) == cascade(old(self).coefs(k), input_signal@, old(self).sections(k)) by {
  assert(output.row_seq(k) =~= cascade(old(self).coefs(k), input_signal@, old(self).sections(k)));
} }
