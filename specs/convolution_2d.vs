#source visqol-rs/src/convolution_2d.rs
#module convolution_2d
=== prelude
pub open spec fn clampi(x: int, hi: int) -> int { if x < 0 { 0 } else if x > hi { hi } else { x } }
/// the matrix extended by one row / column on each side, repeating the border
pub open spec fn padded(m: Array2<f64>) -> Array2<f64> {
    mk2(m.rows() + 2, m.cols() + 2, |i: int, j: int| m.at(clampi(i - 1, m.rows() - 1), clampi(j - 1, m.cols() - 1)))
}
pub open spec fn zero_padded(m: Array2<f64>, rp: nat, rq: nat, cp: nat, cq: nat) -> Array2<f64> {
    mk2(rp + m.rows() + rq, cp + m.cols() + cq, |i: int, j: int| if rp <= i < rp + m.rows() && cp <= j < cp + m.cols() { m.at(i - rp, j - cp) } else { 0.0f64 })
}
/// row-major contents
pub open spec fn flat(m: Array2<f64>) -> Seq<f64> { Seq::new(m.rows() * m.cols(), |k: int| m.at(k / m.cols() as int, k % m.cols() as int)) }
/// the first n terms (column by column) of the sum of a window of p at (i, j)
/// weighted with the point-mirrored filter w
pub open spec fn conv_terms(w: Array2<f64>, p: Array2<f64>, i: int, j: int, n: nat) -> f64 decreases n {
    if n == 0 { 0.0f64 } else {
        let k = n - 1; let fr = k % w.rows() as int; let fc = k / w.rows() as int;
        let q = w.rows() * w.cols() - 1 - k;
        fadd(conv_terms(w, p, i, j, k as nat), fmul(p.at(i + fr, j + fc), w.at(q / w.cols() as int, q % w.cols() as int)))
    }
}
/// two-dimensional convolution, same size for a 3x3 filter, border repeated
pub open spec fn conv(w: Array2<f64>, m: Array2<f64>) -> Array2<f64> {
    mk2((m.rows() + 3 - w.rows()) as nat, (m.cols() + 3 - w.cols()) as nat, |i: int, j: int| conv_terms(w, padded(m), i, j, w.rows() * w.cols()))
}
pub proof fn lemma_flat_index(r: int, c: int, i: int, j: int)
    requires 0 <= i < r, 0 <= j < c
    ensures 0 <= i * c + j < r * c, (i * c + j) / c == i, (i * c + j) % c == j
{
    assert(0 <= i * c) by (nonlinear_arith) requires 0 <= i, 0 < c;
    assert((i + 1) * c <= r * c) by (nonlinear_arith) requires i + 1 <= r, 0 < c;
    assert((i + 1) * c == i * c + c) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i * c + j, c, i, j);
}
=== fn flatten_matrix
ensures r@ == flat(*input_matrix),
--- loop 0
invariant vx_end0 == input_matrix.rows(), 0 <= vx_i0 <= vx_end0, dims_ok(input_matrix),
  res@.len() == vx_i0 * input_matrix.cols(),
  forall|k: int| 0 <= k < res@.len() ==> #[trigger] res@[k] == flat(*input_matrix)[k],
--- loop 0 start
proof { 
  let c = input_matrix.cols() as int;
  assert(vx_i0 * c <= vx_end0 * c) by (nonlinear_arith) requires vx_i0 <= vx_end0, c >= 0;
  assert(vx_i0 * c == (vx_i0 - 1) * c + c) by (nonlinear_arith);
}
--- loop 1
invariant vx_end1 == input_matrix.cols(), 0 <= vx_i1 <= vx_end1, 1 <= vx_i0 <= vx_end0, i == vx_i0 - 1,
  res@.len() == (vx_i0 - 1) * input_matrix.cols() + vx_i1,
  forall|k: int| 0 <= k < res@.len() ==> #[trigger] res@[k] == flat(*input_matrix)[k],
--- loop 1 start
proof { lemma_flat_index(input_matrix.rows() as int, input_matrix.cols() as int, vx_i0 - 1, vx_i1 - 1); }
--- loop 0 after
proof { assert(res@ =~= flat(*input_matrix)); }
=== fn copy_matrix_within_padding
requires row_prepad_amount <= 1, row_postpad_amount <= 1, col_prepad_amount <= 1, col_postpad_amount <= 1,
ensures r == zero_padded(*input_matrix, row_prepad_amount as nat, row_postpad_amount as nat, col_prepad_amount as nat, col_postpad_amount as nat),
--- start
let ghost z = zero_padded(*input_matrix, row_prepad_amount as nat, row_postpad_amount as nat, col_prepad_amount as nat, col_postpad_amount as nat);
--- loop 0
invariant vx_end0 == input_matrix.rows(), 0 <= vx_i0 <= vx_end0, dims_ok(input_matrix), output_matrix.same_dim(&z),
  forall|i: int, j: int| z.ok(i, j) ==> #[trigger] output_matrix.at(i, j) == if i < row_prepad_amount + vx_i0 { z.at(i, j) } else { 0.0f64 },
--- loop 1
invariant vx_end1 == input_matrix.cols(), 0 <= vx_i1 <= vx_end1, 1 <= vx_i0 <= vx_end0, row_i == vx_i0 - 1, output_matrix.same_dim(&z),
  forall|i: int, j: int| z.ok(i, j) ==> #[trigger] output_matrix.at(i, j) == if i < row_prepad_amount + row_i || (i == row_prepad_amount + row_i && j < col_prepad_amount + vx_i1) { z.at(i, j) } else { 0.0f64 },
--- loop 0 after
proof { assert(output_matrix.eqv(&z)); ax_ext2(output_matrix, z); }
=== fn add_matrix_boundary
requires old(input_matrix).rows() > 0, old(input_matrix).cols() > 0,
ensures r == padded(*old(input_matrix)), *final(input_matrix) == *old(input_matrix),
--- start
let ghost m = *input_matrix;
let ghost z = zero_padded(m, 1, 1, 1, 1);
let ghost p = padded(m);
--- loop 0
invariant vx_end0 == z.cols(), 0 <= vx_i0 <= vx_end0, output_matrix.same_dim(&z),
  forall|i: int, j: int| z.ok(i, j) ==> #[trigger] output_matrix.at(i, j) == if 1 <= i <= m.rows() || j >= vx_i0 { z.at(i, j) } else { z.at(clampi(i - 1, m.rows() - 1) + 1, j) },
--- loop 1
invariant vx_end1 == z.rows(), 0 <= vx_i1 <= vx_end1, output_matrix.same_dim(&z),
  forall|i: int, j: int| z.ok(i, j) ==> #[trigger] output_matrix.at(i, j) == if i < vx_i1 || 1 <= j <= m.cols() { p.at(i, j) } else { z.at(clampi(i - 1, m.rows() - 1) + 1, j) },
--- loop 1 after
proof { assert(output_matrix.eqv(&p)); ax_ext2(output_matrix, p); }
=== fn perform_valid_2d_conv_with_boundary
requires old(input_matrix).rows() > 0, old(input_matrix).cols() > 0, fir_filter.rows() == 3, fir_filter.cols() == 3,
ensures r == conv(*fir_filter, *old(input_matrix)), *final(input_matrix) == *old(input_matrix), r.same_dim(old(input_matrix)),
--- start
let ghost m = *input_matrix;
let ghost p = padded(m);
let ghost z = conv(*fir_filter, m);
--- loop 0
invariant vx_end0 == z.rows(), 0 <= vx_i0 <= vx_end0, out_matrix.same_dim(&z),
  forall|i: int, j: int| z.ok(i, j) && i < vx_i0 ==> #[trigger] out_matrix.at(i, j) == z.at(i, j),
--- loop 1
invariant vx_end1 == z.cols(), 0 <= vx_i1 <= vx_end1, 1 <= vx_i0 <= vx_end0, o_row == vx_i0 - 1, out_matrix.same_dim(&z),
  forall|i: int, j: int| z.ok(i, j) && (i < o_row || (i == o_row && j < vx_i1)) ==> #[trigger] out_matrix.at(i, j) == z.at(i, j),
--- loop 2
invariant vx_end2 == f_c_c, 0 <= vx_i2 <= vx_end2, filter_index == (if vx_i2 == 3 { 0 } else { 8 - 3 * vx_i2 }),
  sum == conv_terms(*fir_filter, p, o_row as int, o_col as int, (3 * vx_i2) as nat),
--- loop 3
invariant vx_end3 == f_r_c, 0 <= vx_i3 <= vx_end3, 1 <= vx_i2 <= 3, f_col == vx_i2 - 1, filter_index == (if 3 * f_col + vx_i3 == 9 { 0 } else { 8 - 3 * f_col - vx_i3 }),
  sum == conv_terms(*fir_filter, p, o_row as int, o_col as int, (3 * f_col + vx_i3) as nat),
--- loop 3 start
proof { 
  lemma_flat_index(p.rows() as int, p.cols() as int, vx_i3 - 1 + o_row, f_col + o_col);
  let k = 3 * f_col + vx_i3 - 1; assert(k % 3 == vx_i3 - 1 && k / 3 == f_col as int);
  assert(fir_filter.rows() * fir_filter.cols() == 9) by (nonlinear_arith) requires fir_filter.rows() == 3, fir_filter.cols() == 3;
  assert(p.rows() * p.cols() >= 0);
}
--- loop 0 after
proof { assert(out_matrix.eqv(&z)); ax_ext2(out_matrix, z); }
