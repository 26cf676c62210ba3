#source visqol-rs/src/speech_similarity_to_quality_mapper.rs
#module speech_similarity_to_quality_mapper
=== prelude
use crate::math_utils::exp_fit;
pub open spec fn speech_raw(f: Seq<f64>, scaled: bool) -> f64 {
    fmul(exp_fit(fdiv(fsum(f), i2f(f.len() as int)), 1.1559455f64, 4.6851153f64, 0.7655232f64), if scaled { 1.2031409f64 } else { 1.0f64 })
}
=== raw SimilarityToQualityMapper for SpeechSimilarityToQualityMapper
open spec fn q_pre(&self, f: Seq<f64>) -> bool { true }
open spec fn q_raw(&self, f: Seq<f64>) -> f64 { speech_raw(f, self.scale_max_to_mos) }
=== fn SpeechSimilarityToQualityMapper::new
ensures r.scale_max_to_mos == scale_to_max_mos,
=== fn SpeechSimilarityToQualityMapper::predict_quality
--- spec
--- start
proof { lemma_1_le_5(); lemma_clamp(speech_raw(similarity_vector@, self.scale_max_to_mos)); }
