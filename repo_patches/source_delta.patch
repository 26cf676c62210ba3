From 8a6a0d090e1fc5ca9c04f5505c40e7be4bbd947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:18 +0000
Subject: [PATCH 01/17] verification hooks: re-export internal modules under
 cfg(visqol_verif)

---
 visqol-rs/src/lib.rs | 52 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/visqol-rs/src/lib.rs b/visqol-rs/src/lib.rs
index 5e9a8ab..664d311 100644
--- a/visqol-rs/src/lib.rs
+++ b/visqol-rs/src/lib.rs
@@ -25,6 +25,7 @@
 //!     path_to_degraded_file, similarity_result.moslqo
 //! );
 //! ```
+#![allow(unexpected_cfgs)]
 
 mod alignment;
 mod analysis_window;
@@ -63,3 +64,54 @@ mod xcorr;
 
 #[cfg(test)]
 mod test_utility;
+
+/// Re-exports of the crate's internal modules for the verification harness.
+/// Only compiled with `--cfg visqol_verif`; not part of the public API.
+#[cfg(visqol_verif)]
+#[doc(hidden)]
+pub mod verif {
+    macro_rules! reexport {
+        ($($module:ident),* $(,)?) => {
+            $(pub mod $module {
+                #[allow(unused_imports)]
+                pub use crate::$module::*;
+            })*
+        };
+    }
+    reexport!(
+        alignment,
+        analysis_window,
+        audio_signal,
+        audio_utils,
+        comparison_patches_selector,
+        constants,
+        convolution_2d,
+        envelope,
+        equivalent_rectangular_bandwidth,
+        fast_fourier_transform,
+        fft_manager,
+        gammatone_filterbank,
+        gammatone_spectrogram_builder,
+        image_patch_creator,
+        math_utils,
+        neurogram_similiarity_index_measure,
+        patch_creator,
+        patch_similarity_comparator,
+        rms_vad,
+        signal_filter,
+        similarity_result,
+        similarity_to_quality_mapper,
+        spectrogram,
+        spectrogram_builder,
+        speech_similarity_to_quality_mapper,
+        support_vector_regression_model,
+        svr_similarity_to_quality_mapper,
+        vad_patch_creator,
+        variant,
+        visqol,
+        visqol_error,
+        visqol_manager,
+        wav_reader,
+        xcorr,
+    );
+}
-- 
2.43.0


From 047e3184a7c255305f99c917e03be5a55165ddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:13 +0000
Subject: [PATCH 02/17] fix: next_pow_two returns a power of two for every
 input

---
 visqol-rs/src/math_utils.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/visqol-rs/src/math_utils.rs b/visqol-rs/src/math_utils.rs
index f33c74a..c111bdb 100644
--- a/visqol-rs/src/math_utils.rs
+++ b/visqol-rs/src/math_utils.rs
@@ -7,14 +7,7 @@ pub fn normalize_signal(signal: &Array1<f64>) -> Array1<f64> {
 }
 
 pub fn next_pow_two(input: usize) -> usize {
-    let mut next_power_of_two = input - 1;
-
-    next_power_of_two |= next_power_of_two >> 1;
-    next_power_of_two |= next_power_of_two >> 2;
-    next_power_of_two |= next_power_of_two >> 4;
-    next_power_of_two |= next_power_of_two >> 1;
-    next_power_of_two |= next_power_of_two >> 16;
-    next_power_of_two + 1
+    input.next_power_of_two()
 }
 
 /// Returns the exponential fit between 2 points
-- 
2.43.0


From 7c6793ce7f4c5747cb0b669365e53130c6828bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:13 +0000
Subject: [PATCH 03/17] fix: calc_max_num_patches neither underflows nor runs
 past the first patch

---
 visqol-rs/src/comparison_patches_selector.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index cd69233..8c4b0ab 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -247,12 +247,11 @@ impl ComparisonPatchesSelector {
     ) -> usize {
         let mut num_patches = ref_patch_indices.len();
 
-        if num_patches != 0 {
-            while (ref_patch_indices[num_patches - 1] - (num_frames_per_patch / 2))
+        while num_patches != 0
+            && ref_patch_indices[num_patches - 1].saturating_sub(num_frames_per_patch / 2)
                 > num_frames_in_deg_spectro
-            {
-                num_patches -= 1;
-            }
+        {
+            num_patches -= 1;
         }
         num_patches
     }
-- 
2.43.0


From 50e692a99da0a8d35be7ee4e998019fb930cd366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:13 +0000
Subject: [PATCH 04/17] fix: stop the patch search when its window starts past
 the degraded spectrogram

---
 visqol-rs/src/comparison_patches_selector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index 8c4b0ab..3562264 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -176,7 +176,7 @@ impl ComparisonPatchesSelector {
                 continue;
             }
 
-            if slide_offset == spectrogram_data.ncols() as i32 {
+            if slide_offset >= spectrogram_data.ncols() as i32 {
                 // The start of the degraded is past the end of the spectrogram, so
                 // nothing left to compare.
 
-- 
2.43.0


From d5809c71bcb9e58c2a55d01a08966bd4d1409997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:13 +0000
Subject: [PATCH 05/17] fix: report a reference too short for one VAD patch
 instead of panicking

---
 visqol-rs/src/vad_patch_creator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/visqol-rs/src/vad_patch_creator.rs b/visqol-rs/src/vad_patch_creator.rs
index 8429152..b9edf46 100644
--- a/visqol-rs/src/vad_patch_creator.rs
+++ b/visqol-rs/src/vad_patch_creator.rs
@@ -28,6 +28,12 @@ impl PatchCreator for VadPatchCreator {
         let patch_sample_length = self.patch_size * frame_size;
         let spectrum_length = spectrogram.ncols();
         let first_patch_idx = self.patch_size / 2 - 1;
+        if spectrum_length < first_patch_idx + self.patch_size {
+            return Err(VisqolError::ReferenceSpectrogramTooSmall {
+                spectrogram_length: spectrum_length,
+                minimum_required: first_patch_idx + self.patch_size,
+            });
+        }
         let patch_count = (spectrum_length - first_patch_idx) / self.patch_size;
         let total_sample_count = patch_count * patch_sample_length;
 
-- 
2.43.0


From 0cd5e2f1df34fe2abcbc8ef26f10040a31806401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:13 +0000
Subject: [PATCH 06/17] fix: report the minimum spectrogram size that is
 actually required

---
 visqol-rs/src/image_patch_creator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visqol-rs/src/image_patch_creator.rs b/visqol-rs/src/image_patch_creator.rs
index f08906f..175197f 100644
--- a/visqol-rs/src/image_patch_creator.rs
+++ b/visqol-rs/src/image_patch_creator.rs
@@ -54,7 +54,7 @@ impl ImagePatchCreator {
         if spectrum_length < self.patch_size + init_patch_index {
             return Err(VisqolError::ReferenceSpectrogramTooSmall {
                 spectrogram_length: spectrum_length,
-                minimum_required: self.patch_size - init_patch_index,
+                minimum_required: self.patch_size + init_patch_index,
             });
         }
 
-- 
2.43.0


From 1005e22ff0abc7aa259635ae8989dc08bab4fb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:13 +0000
Subject: [PATCH 07/17] fix: leave a silent degraded signal unscaled instead of
 turning it into NaN

---
 visqol-rs/src/audio_utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/visqol-rs/src/audio_utils.rs b/visqol-rs/src/audio_utils.rs
index e19cf56..571fe1a 100644
--- a/visqol-rs/src/audio_utils.rs
+++ b/visqol-rs/src/audio_utils.rs
@@ -21,7 +21,12 @@ pub fn scale_to_match_sound_pressure_level(
     let ref_spl = calculate_sound_pressure_level(reference);
     let deg_spl = calculate_sound_pressure_level(degraded);
 
-    let scale_factor = 10.0f64.powf((ref_spl - deg_spl) / 20.0);
+    // A silent signal has no finite level and cannot be scaled to any other level.
+    let scale_factor = if deg_spl == f64::NEG_INFINITY {
+        1.0
+    } else {
+        10.0f64.powf((ref_spl - deg_spl) / 20.0)
+    };
     let scaled_mat = degraded.data_matrix.clone() * scale_factor;
     AudioSignal::new(
         scaled_mat
-- 
2.43.0


From f0b0266f470491387ff5bf25c63f0b7d8a1b47e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:13 +0000
Subject: [PATCH 08/17] fix: report unreadable wav samples as an error instead
 of panicking

---
 visqol-rs/src/wav_reader.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/visqol-rs/src/wav_reader.rs b/visqol-rs/src/wav_reader.rs
index cf5d450..5938557 100644
--- a/visqol-rs/src/wav_reader.rs
+++ b/visqol-rs/src/wav_reader.rs
@@ -25,10 +25,7 @@ impl WavFile {
             }));
         }
 
-        let samples: Vec<i32> = reader
-            .samples::<i32>()
-            .map(|x| x.expect("Failed to read samples"))
-            .collect();
+        let samples = reader.samples::<i32>().collect::<Result<Vec<i32>, _>>()?;
         let samples_quantized = samples.iter().map(|&e| e as i16).collect();
 
         Ok(Self {
-- 
2.43.0


From 68f0ba8fde3aebf93b5e0636acab3479e28bb087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:13 +0000
Subject: [PATCH 09/17] fix: truncate by exactly the lag in samples in
 align_and_truncate

---
 visqol-rs/src/alignment.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/alignment.rs b/visqol-rs/src/alignment.rs
index 2150d35..999da77 100644
--- a/visqol-rs/src/alignment.rs
+++ b/visqol-rs/src/alignment.rs
@@ -21,12 +21,12 @@ pub fn align_and_truncate(
             // that amount should be truncated.
             new_ref_matrix = new_ref_matrix
                 .slice(s![
-                    (lag * ref_signal.sample_rate as f64) as usize..ref_signal.len()
+                    (lag * ref_signal.sample_rate as f64).round() as usize..ref_signal.len()
                 ])
                 .to_owned();
             new_deg_matrix = new_deg_matrix
                 .slice(s![
-                    (lag * deg_signal.sample_rate as f64) as usize..ref_signal.len()
+                    (lag * deg_signal.sample_rate as f64).round() as usize..ref_signal.len()
                 ])
                 .to_owned();
         }
-- 
2.43.0


From 83cc27f333f834a6c8440b25f86e078e9bde684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:13 +0000
Subject: [PATCH 10/17] fix: refer to existing argument ids in the command line
 definition

---
 visqol/src/command_line_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol/src/command_line_utils.rs b/visqol/src/command_line_utils.rs
index bafa25c..e892166 100644
--- a/visqol/src/command_line_utils.rs
+++ b/visqol/src/command_line_utils.rs
@@ -57,7 +57,7 @@ pub struct CommandLineArgs {
     /// The wav file path used as the reference audio.
     #[clap(
         long = "reference_file",
-        requires = "degraded-file",
+        requires = "degraded_file",
         conflicts_with = "batch_input_csv"
     )]
     pub reference_file: Option<String>,
@@ -65,7 +65,7 @@ pub struct CommandLineArgs {
     /// The wav file path used as the degraded audio.
     #[clap(
         long = "degraded_file",
-        requires = "reference-file",
+        requires = "reference_file",
         conflicts_with = "batch_input_csv"
     )]
     pub degraded_file: Option<String>,
-- 
2.43.0


From 58c7bfbd40b356fee3ca10dbd5b4854c5879ba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:13 +0000
Subject: [PATCH 11/17] fix: report an unreadable batch csv as an error instead
 of panicking

---
 visqol/src/command_line_utils.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/visqol/src/command_line_utils.rs b/visqol/src/command_line_utils.rs
index e892166..ea5ba42 100644
--- a/visqol/src/command_line_utils.rs
+++ b/visqol/src/command_line_utils.rs
@@ -119,15 +119,12 @@ pub fn read_files_to_compare(batch_input_path: &PathBuf) -> Result<Vec<PathPair>
     let mut reader = ReaderBuilder::new()
         .has_headers(true)
         .delimiter(b',')
-        .from_path(batch_input_path)
-        .unwrap_or_else(|_| panic!("Failed to read csv file!"));
+        .from_path(batch_input_path)?;
 
     let header = StringRecord::from(vec!["reference", "degraded"]);
     while let Some(result) = reader.records().next() {
         let record = result?;
-        let row: PathPair = record
-            .deserialize(Some(&header))
-            .expect("Failed to deserialize line in csv file!");
+        let row: PathPair = record.deserialize(Some(&header))?;
         file_paths.push(row);
     }
     Ok(file_paths)
-- 
2.43.0


From 630d9a32abaede1ef4e9ba2f0c714db814c6e219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:13 +0000
Subject: [PATCH 12/17] fix: append every result to the debug json file

---
 visqol/src/output_utils.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/visqol/src/output_utils.rs b/visqol/src/output_utils.rs
index bc13095..ae02025 100644
--- a/visqol/src/output_utils.rs
+++ b/visqol/src/output_utils.rs
@@ -7,6 +7,7 @@ use prettytable::{
     Cell, Row, Table,
 };
 use serde_json;
+use std::{fs::OpenOptions, io::Write};
 
 /// Writes debug info to either console or to file.
 pub fn write_results(
@@ -48,9 +49,15 @@ fn write_to_console(args: &CommandLineArgs, result: &SimilarityResult, file_pair
 fn write_debug_json(json_output_path: &String, results: &Vec<SimilarityResult>) {
     let mut json_output = String::new();
     for result in results {
-        json_output = serde_json::to_string_pretty(result).expect("Could not format JSON!");
+        json_output +=
+            &serde_json::to_string_pretty(result).expect("Could not format JSON!");
+        json_output.push('\n');
     }
-    std::fs::write(json_output_path, json_output)
+    OpenOptions::new()
+        .create(true)
+        .append(true)
+        .open(json_output_path)
+        .and_then(|mut file| file.write_all(json_output.as_bytes()))
         .unwrap_or_else(|_| panic!("Could not write JSON to {}!", json_output_path.as_str()));
 }
 
-- 
2.43.0


From a1f7d89a71639f87e48d0be6a743c4666d5e97f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:13 +0000
Subject: [PATCH 13/17] fix: write the documented reference,degraded,moslqo
 columns to the results csv

---
 visqol/src/output_utils.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/visqol/src/output_utils.rs b/visqol/src/output_utils.rs
index ae02025..6418a93 100644
--- a/visqol/src/output_utils.rs
+++ b/visqol/src/output_utils.rs
@@ -23,7 +23,7 @@ pub fn write_results(
     }
 
     if let Some(csv_output_path) = &args.results_csv {
-        write_results_to_csv(csv_output_path, results);
+        write_results_to_csv(csv_output_path, results, file_pairs);
     }
 
     for (sim_result, file_pair) in results.iter().zip(file_pairs) {
@@ -62,15 +62,22 @@ fn write_debug_json(json_output_path: &String, results: &Vec<SimilarityResult>)
 }
 
 /// Writes computes MOS values to csv file.
-fn write_results_to_csv(csv_output_path: &String, results: &Vec<SimilarityResult>) {
+fn write_results_to_csv(
+    csv_output_path: &String,
+    results: &Vec<SimilarityResult>,
+    file_pairs: &Vec<PathPair>,
+) {
     let mut writer = WriterBuilder::new()
         .has_headers(false)
         .delimiter(b',')
         .from_path(csv_output_path)
         .expect("Failed to instantiate CSV writer!");
-    for result in results {
+    writer
+        .serialize(("reference", "degraded", "moslqo"))
+        .expect("Failed to serialize csv header!");
+    for (result, file_pair) in results.iter().zip(file_pairs) {
         writer
-            .serialize(result)
+            .serialize((&file_pair.reference, &file_pair.degraded, result.moslqo))
             .expect("Failed to serialize SimilarityResult!");
     }
     writer.flush().expect("Failed to flush csv file!")
-- 
2.43.0


From 76e30921164e6a2878dd01eb19bb6ddf0594be9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:56 +0000
Subject: [PATCH 14/17] fix: pad short cross-correlations to the smallest
 transform so that negative lags are found

---
 visqol-rs/src/fft_manager.rs | 2 +-
 visqol-rs/src/xcorr.rs       | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/visqol-rs/src/fft_manager.rs b/visqol-rs/src/fft_manager.rs
index 4e83765..0c7da4f 100644
--- a/visqol-rs/src/fft_manager.rs
+++ b/visqol-rs/src/fft_manager.rs
@@ -5,7 +5,7 @@ use num::Zero;
 use rustfft::FftPlanner;
 
 // Constants
-const MIN_FFT_SIZE: usize = 32;
+pub(crate) const MIN_FFT_SIZE: usize = 32;
 
 /// Wrapper around the `rustfft` library to perform basic fft operations.
 pub struct FftManager {
diff --git a/visqol-rs/src/xcorr.rs b/visqol-rs/src/xcorr.rs
index ab48dff..a5b9c2a 100644
--- a/visqol-rs/src/xcorr.rs
+++ b/visqol-rs/src/xcorr.rs
@@ -1,5 +1,5 @@
 use crate::fast_fourier_transform;
-use crate::fft_manager::FftManager;
+use crate::fft_manager::{FftManager, MIN_FFT_SIZE};
 use num::complex::Complex64;
 
 /// Calculate the maximum delay between to signals.
@@ -44,7 +44,8 @@ pub fn calculate_inverse_fft_pointwise_product(
         _ => {}
     }
     let (_, exp) = frexp((signal_1.len() * 2 - 1) as f64);
-    let fft_points = 2usize.pow(exp as u32);
+    // The transform is never smaller than `MIN_FFT_SIZE`; negative lags sit at its very end
+    let fft_points = 2usize.pow(exp as u32).max(MIN_FFT_SIZE);
     let mut manager = FftManager::new(fft_points);
     let point_wise_product =
         calculate_fft_pointwise_product(signal_1, signal_2, &mut manager, fft_points);
-- 
2.43.0


From 3838db6eb0ea47909c7ccc95b545d36289970ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:38 +0000
Subject: [PATCH 15/17] fix: an empty multi-channel recording no longer panics
 while it is mixed down

---
 visqol-rs/src/audio_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/audio_utils.rs b/visqol-rs/src/audio_utils.rs
index 571fe1a..a5a1bc2 100644
--- a/visqol-rs/src/audio_utils.rs
+++ b/visqol-rs/src/audio_utils.rs
@@ -4,7 +4,7 @@ use crate::audio_signal::AudioSignal;
 use crate::math_utils;
 use crate::spectrogram::Spectrogram;
 use crate::wav_reader::WavFile;
-use ndarray::{Array1, Array2, Axis, ShapeBuilder};
+use ndarray::{Array1, Array2, Axis};
 use num::complex::Complex64;
 use num_traits::Zero;
 
@@ -70,7 +70,7 @@ fn extract_multichannel(num_channels: usize, interleaved_vector: &[f64]) -> Arra
     assert!(interleaved_vector.len().is_multiple_of(num_channels));
     let sub_vector_size = interleaved_vector.len() / num_channels;
     Array2::from_shape_vec(
-        (sub_vector_size, num_channels).strides((num_channels, 1)),
+        (sub_vector_size, num_channels),
         interleaved_vector.to_vec(),
     )
     .expect("Failed to sum multichannel signal to mono signal!")
-- 
2.43.0


From 1ad579fd296432bf117dbba2d553e7c486f95289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:41 +0000
Subject: [PATCH 16/17] fix: refuse to run without recordings to compare

---
 visqol/src/command_line_utils.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/visqol/src/command_line_utils.rs b/visqol/src/command_line_utils.rs
index ea5ba42..c6343b1 100644
--- a/visqol/src/command_line_utils.rs
+++ b/visqol/src/command_line_utils.rs
@@ -58,6 +58,7 @@ pub struct CommandLineArgs {
     #[clap(
         long = "reference_file",
         requires = "degraded_file",
+        required_unless_present = "batch_input_csv",
         conflicts_with = "batch_input_csv"
     )]
     pub reference_file: Option<String>,
-- 
2.43.0


From 857ba688710a29a5dcdbc2986f7542dcc08d000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:26 +0000
Subject: [PATCH 17/17] fix: patch times follow the frames of the spectrogram

The duration of a frame was computed from the untruncated hop although the
spectrogram's frames are a whole number of samples apart. Where a quarter of
the window is not a whole number the times drifted away from the patches, and
long recordings ended in a slice beyond the signal.
---
 visqol-rs/src/visqol.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/visqol-rs/src/visqol.rs b/visqol-rs/src/visqol.rs
index a6181ce..002f186 100644
--- a/visqol-rs/src/visqol.rs
+++ b/visqol-rs/src/visqol.rs
@@ -34,10 +34,9 @@ pub fn calculate_similarity<const NUM_BANDS: usize>(
     let mut ref_patch_indices =
         patch_creator.create_ref_patch_indices(&ref_spectrogram.data, ref_signal, window)?;
 
-    let frame_duration = calculate_frame_duration(
-        window.size as f64 * window.overlap,
-        ref_signal.sample_rate as usize,
-    );
+    // Spectrogram frames are a whole number of samples apart.
+    let hop_size = (window.size as f64 * window.overlap) as usize;
+    let frame_duration = calculate_frame_duration(hop_size as f64, ref_signal.sample_rate as usize);
 
     let mut ref_patches =
         patch_creator.create_patches_from_indices(&ref_spectrogram.data, &ref_patch_indices);
-- 
2.43.0

