#source visqol-rs/src/spectrogram.rs
#module spectrogram
=== prelude
/// decibels of the magnitude, zero counting as machine epsilon
pub open spec fn db(x: f64) -> f64 { fmul(10.0f64, f_log10(if feq(x, 0.0f64) { 2.2204460492503131e-16f64 } else { f_abs(x) })) }
pub open spec fn db_of(m: Array2<f64>) -> Array2<f64> { mk2(m.rows(), m.cols(), |i: int, j: int| db(m.at(i, j))) }
pub open spec fn floored(m: Array2<f64>, floor: f64) -> Array2<f64> { mk2(m.rows(), m.cols(), |i: int, j: int| f_max(floor, m.at(i, j))) }
pub open spec fn lowered_by(m: Array2<f64>, x: f64) -> Array2<f64> { mk2(m.rows(), m.cols(), |i: int, j: int| fsub(m.at(i, j), x)) }
/// floor of frame j: the louder of the two frame peaks minus the threshold
pub open spec fn frame_floor(a: Array2<f64>, b: Array2<f64>, t: f64, j: int) -> f64 { fsub(f_max(nd_max(a.col_seq(j)), nd_max(b.col_seq(j))), t) }
pub open spec fn min_cols(a: Array2<f64>, b: Array2<f64>) -> nat { if a.cols() < b.cols() { a.cols() } else { b.cols() } }
/// m with the frame floors of a and b applied to the frames both have
pub open spec fn frame_floored(m: Array2<f64>, a: Array2<f64>, b: Array2<f64>, t: f64, n: int) -> Array2<f64> {
    mk2(m.rows(), m.cols(), |i: int, j: int| if j < n { f_max(frame_floor(a, b, t, j), m.at(i, j)) } else { m.at(i, j) })
}
=== fn Spectrogram::new
ensures r.data == data, r.center_freq_bands == center_freq_bands,
=== fn Spectrogram::convert_to_db
ensures final(self).data == db_of(old(self).data), final(self).center_freq_bands == old(self).center_freq_bands,
--- start
let ghost g = self.data;
let ghost z = db_of(g);
--- loop 0
invariant self.data.same_dim(&g), 0 <= vx_i0 <= g.rows(), self.center_freq_bands == old(self).center_freq_bands,
  forall|i: int, j: int| g.ok(i, j) ==> #[trigger] self.data.at(i, j) == if i < vx_i0 { z.at(i, j) } else { g.at(i, j) },
--- loop 1
invariant self.data.same_dim(&g), 0 <= vx_i0 < g.rows(), 0 <= vx_i1 <= g.cols(), self.center_freq_bands == old(self).center_freq_bands,
  forall|i: int, j: int| g.ok(i, j) ==> #[trigger] self.data.at(i, j) == if i < vx_i0 || (i == vx_i0 && j < vx_i1) { z.at(i, j) } else { g.at(i, j) },
--- loop 0 after
proof { assert(self.data.eqv(&z)); ax_ext2(self.data, z); }
=== fn Spectrogram::get_minimum
requires self.data.rows() > 0, self.data.cols() > 0,
ensures r == self.data.minimum(), self.data.no_nan(),
=== fn Spectrogram::subtract_floor
ensures final(self).data == lowered_by(old(self).data, floor), final(self).center_freq_bands == old(self).center_freq_bands,
--- end
proof { assert(self.data.eqv(&lowered_by(old(self).data, floor))); ax_ext2(self.data, lowered_by(old(self).data, floor)); }
=== fn Spectrogram::raise_floor
ensures final(self).data == floored(old(self).data, new_floor), final(self).center_freq_bands == old(self).center_freq_bands,
--- start
let ghost g = self.data;
let ghost z = floored(g, new_floor);
--- loop 0
invariant self.data.same_dim(&g), 0 <= vx_i0 <= g.rows(), self.center_freq_bands == old(self).center_freq_bands,
  forall|i: int, j: int| g.ok(i, j) ==> #[trigger] self.data.at(i, j) == if i < vx_i0 { z.at(i, j) } else { g.at(i, j) },
--- loop 1
invariant self.data.same_dim(&g), 0 <= vx_i0 < g.rows(), 0 <= vx_i1 <= g.cols(), self.center_freq_bands == old(self).center_freq_bands,
  forall|i: int, j: int| g.ok(i, j) ==> #[trigger] self.data.at(i, j) == if i < vx_i0 || (i == vx_i0 && j < vx_i1) { z.at(i, j) } else { g.at(i, j) },
--- loop 0 after
proof { assert(self.data.eqv(&z)); ax_ext2(self.data, z); }
=== fn Spectrogram::raise_floor_per_frame
requires old(self).data.rows() > 0, old(other).data.rows() > 0,
ensures
  final(self).data == frame_floored(old(self).data, old(self).data, old(other).data, noise_threshold, min_cols(old(self).data, old(other).data) as int),
  final(other).data == frame_floored(old(other).data, old(self).data, old(other).data, noise_threshold, min_cols(old(self).data, old(other).data) as int),
  final(self).center_freq_bands == old(self).center_freq_bands, final(other).center_freq_bands == old(other).center_freq_bands,
--- start
let ghost a = self.data;
let ghost b = other.data;
--- loop 0
invariant self.data.same_dim(&a), other.data.same_dim(&b), 0 <= vx_i0 <= vx_end0, vx_end0 == min_cols(a, b),
  self.center_freq_bands == old(self).center_freq_bands, other.center_freq_bands == old(other).center_freq_bands,
  forall|i: int, j: int| a.ok(i, j) ==> #[trigger] self.data.at(i, j) == frame_floored(a, a, b, noise_threshold, vx_i0 as int).at(i, j),
  forall|i: int, j: int| b.ok(i, j) ==> #[trigger] other.data.at(i, j) == frame_floored(b, a, b, noise_threshold, vx_i0 as int).at(i, j),
--- loop 0 start
proof { assert(self.data.col_seq(vx_i0 - 1) =~= a.col_seq(vx_i0 - 1)); assert(other.data.col_seq(vx_i0 - 1) =~= b.col_seq(vx_i0 - 1)); }
--- loop 1
invariant self.data.same_dim(&a), other.data.same_dim(&b), 0 <= vx_i1 <= a.rows(), 0 < vx_i0 <= vx_end0,
  self.center_freq_bands == old(self).center_freq_bands, other.center_freq_bands == old(other).center_freq_bands,
  forall|i: int, j: int| a.ok(i, j) ==> #[trigger] self.data.at(i, j) == (if j == vx_i0 - 1 && i >= vx_i1 { a.at(i, j) } else { frame_floored(a, a, b, noise_threshold, vx_i0 as int).at(i, j) }),
--- loop 2
invariant self.data.same_dim(&a), other.data.same_dim(&b), 0 <= vx_i2 <= b.rows(), 0 < vx_i0 <= vx_end0,
  self.center_freq_bands == old(self).center_freq_bands, other.center_freq_bands == old(other).center_freq_bands,
  forall|i: int, j: int| b.ok(i, j) ==> #[trigger] other.data.at(i, j) == (if j == vx_i0 - 1 && i >= vx_i2 { b.at(i, j) } else { frame_floored(b, a, b, noise_threshold, vx_i0 as int).at(i, j) }),
--- loop 0 after
proof {
  let n = min_cols(a, b) as int;
  assert(self.data.eqv(&frame_floored(a, a, b, noise_threshold, n))); ax_ext2(self.data, frame_floored(a, a, b, noise_threshold, n));
  assert(other.data.eqv(&frame_floored(b, a, b, noise_threshold, n))); ax_ext2(other.data, frame_floored(b, a, b, noise_threshold, n));
}
