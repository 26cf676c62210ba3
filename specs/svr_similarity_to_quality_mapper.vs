#source visqol-rs/src/svr_similarity_to_quality_mapper.rs
#module svr_similarity_to_quality_mapper
=== prelude
use crate::support_vector_regression_model::{svm_score, svm_file};
=== raw SimilarityToQualityMapper for SvrSimilarityToQualityMapper
open spec fn q_pre(&self, f: Seq<f64>) -> bool { f.len() <= svm_attrs(self.model.model) }
open spec fn q_raw(&self, f: Seq<f64>) -> f64 { svm_score(self.model.model, f) }
=== fn SvrSimilarityToQualityMapper::new
ensures r.model.model == svm_file(model_path@),
=== fn SvrSimilarityToQualityMapper::predict_quality
--- spec
--- start
proof { lemma_1_le_5(); lemma_clamp(svm_score(self.model.model, similarity_vector@)); }
