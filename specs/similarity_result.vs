#source visqol-rs/src/similarity_result.rs
#module similarity_result
=== fn SimilarityResult::new
ensures r.moslqo == moslqo, r.vnsim == vnsim, r.fvnsim == fnsim, r.fstdnsim == fstdnsim, r.fvdegenergy == fvdegenergy, r.center_freq_bands == center_freq_bands, r.patch_sims == patch_sims,
