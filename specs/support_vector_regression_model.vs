#source visqol-rs/src/support_vector_regression_model.rs
#module support_vector_regression_model
=== prelude
/// the model of a file; without one the program ends
pub open spec fn svm_file(path: Seq<char>) -> DenseSVM { svm_of(file_text(path))->Some_0 }
pub open spec fn as_f32s(f: Seq<f64>) -> Seq<f32> { f.map_values(|x: f64| f2f32(x)) }
/// features beyond the observation stay 0
pub open spec fn svm_input(m: DenseSVM, f: Seq<f64>) -> Seq<f32> { Seq::new(svm_attrs(m), |i: int| if i < f.len() { f2f32(f[i]) } else { 0.0f32 }) }
pub open spec fn svm_score(m: DenseSVM, f: Seq<f64>) -> f64 { match svm_predict(m, svm_input(m, f)) { Label::Value(s) => f32tof(s), _ => f32tof(0.0f32) } }
=== fn SupportVectorRegressionModel::new
ensures r.model == svm_file(model_path@),
=== fn SupportVectorRegressionModel::predict
requires observation@.len() <= svm_attrs(self.model),
ensures r == svm_score(self.model, observation@),
--- loop 0
invariant features@.len() == svm_attrs(self.model),
  forall|j: int| 0 <= j < features@.len() ==> features@[j] == if j < vx_i0 { f2f32(observation@[j]) } else { 0.0f32 },
--- loop 0 after
proof { assert(features@ =~= svm_input(self.model, observation@)); ax_f32_zero(); }
