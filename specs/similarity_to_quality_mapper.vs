#source visqol-rs/src/similarity_to_quality_mapper.rs
#module similarity_to_quality_mapper
=== raw SimilarityToQualityMapper
/// what the mapper needs of its input
spec fn q_pre(&self, f: Seq<f64>) -> bool;
/// the raw (unclamped) score
spec fn q_raw(&self, f: Seq<f64>) -> f64;
=== fn SimilarityToQualityMapper::predict_quality
requires self.q_pre(features@),
ensures r == f_clamp(self.q_raw(features@), 1.0f64, 5.0f64),
    !fnan(self.q_raw(features@)) ==> fle(1.0f64, r) && fle(r, 5.0f64),
