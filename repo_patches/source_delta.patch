From ece129cfbe9f850a9c690b5f46bde84fc792cb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:00 +0000
Subject: [PATCH 01/21] fix: use the speech patch size for wideband and the
 audio patch size for fullband

The two constants were swapped, so no score matched ViSQOL v3.1. With this the
values documented in tests/visqol_manager_test.rs are reproduced (2.00039 for
CA01_01, 4.512324 for guitar 64 kbps).
---
 visqol-rs/src/visqol_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/visqol_manager.rs b/visqol-rs/src/visqol_manager.rs
index 0beb2fb..022d01c 100644
--- a/visqol-rs/src/visqol_manager.rs
+++ b/visqol-rs/src/visqol_manager.rs
@@ -40,13 +40,13 @@ impl<const NUM_BANDS: usize> VisqolManager<NUM_BANDS> {
             Variant::Wideband {
                 use_unscaled_mos_mapping,
             } => {
-                patch_creator = Box::new(VadPatchCreator::new(PATCH_SIZE_AUDIO));
+                patch_creator = Box::new(VadPatchCreator::new(PATCH_SIZE_SPEECH));
                 sim_to_quality_mapper = Box::new(SpeechSimilarityToQualityMapper::new(
                     !use_unscaled_mos_mapping,
                 ));
             }
             Variant::Fullband { model_path } => {
-                patch_creator = Box::new(ImagePatchCreator::new(PATCH_SIZE_SPEECH));
+                patch_creator = Box::new(ImagePatchCreator::new(PATCH_SIZE_AUDIO));
                 sim_to_quality_mapper = Box::new(SvrSimilarityToQualityMapper::new(&model_path));
             }
         }
-- 
2.43.0


From 2119a46bdf903aaf3b0a73530f7122f51475afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:00 +0000
Subject: [PATCH 02/21] fix: next_pow_two returned sizes that are no power of
 two for most inputs above 512

---
 visqol-rs/src/math_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visqol-rs/src/math_utils.rs b/visqol-rs/src/math_utils.rs
index f33c74a..5e48464 100644
--- a/visqol-rs/src/math_utils.rs
+++ b/visqol-rs/src/math_utils.rs
@@ -12,7 +12,7 @@ pub fn next_pow_two(input: usize) -> usize {
     next_power_of_two |= next_power_of_two >> 1;
     next_power_of_two |= next_power_of_two >> 2;
     next_power_of_two |= next_power_of_two >> 4;
-    next_power_of_two |= next_power_of_two >> 1;
+    next_power_of_two |= next_power_of_two >> 8;
     next_power_of_two |= next_power_of_two >> 16;
     next_power_of_two + 1
 }
-- 
2.43.0


From 55e748e50271ab52ce59284548a32dc431dac15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:00 +0000
Subject: [PATCH 03/21] fix: report a truncated wav file as an error instead of
 panicking

---
 visqol-rs/src/wav_reader.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/visqol-rs/src/wav_reader.rs b/visqol-rs/src/wav_reader.rs
index cf5d450..8ba0e77 100644
--- a/visqol-rs/src/wav_reader.rs
+++ b/visqol-rs/src/wav_reader.rs
@@ -27,8 +27,7 @@ impl WavFile {
 
         let samples: Vec<i32> = reader
             .samples::<i32>()
-            .map(|x| x.expect("Failed to read samples"))
-            .collect();
+            .collect::<Result<_, _>>()?;
         let samples_quantized = samples.iter().map(|&e| e as i16).collect();
 
         Ok(Self {
-- 
2.43.0


From 19b949e3bda2489e41ab862127f4a3d6cba74e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:00 +0000
Subject: [PATCH 04/21] fix: comparing signals with a single patch underflowed
 the patch count

---
 visqol-rs/src/comparison_patches_selector.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index cd69233..af9e4f3 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -248,8 +248,9 @@ impl ComparisonPatchesSelector {
         let mut num_patches = ref_patch_indices.len();
 
         if num_patches != 0 {
-            while (ref_patch_indices[num_patches - 1] - (num_frames_per_patch / 2))
-                > num_frames_in_deg_spectro
+            while num_patches > 0
+                && ref_patch_indices[num_patches - 1]
+                    > num_frames_in_deg_spectro + num_frames_per_patch / 2
             {
                 num_patches -= 1;
             }
-- 
2.43.0


From f0b96721915dfdc8230ce7514fbd4a42ad0585c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:00 +0000
Subject: [PATCH 05/21] fix: out-of-bounds search when the degraded signal ends
 before the search window

---
 visqol-rs/src/comparison_patches_selector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index af9e4f3..e189ef9 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -176,7 +176,7 @@ impl ComparisonPatchesSelector {
                 continue;
             }
 
-            if slide_offset == spectrogram_data.ncols() as i32 {
+            if slide_offset >= spectrogram_data.ncols() as i32 {
                 // The start of the degraded is past the end of the spectrogram, so
                 // nothing left to compare.
 
-- 
2.43.0


From 4e3f5b6daa9bcd749203b8cf7fb85235718a7b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:01 +0000
Subject: [PATCH 06/21] fix: report a speech reference shorter than one patch
 as an error instead of panicking

---
 visqol-rs/src/vad_patch_creator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/visqol-rs/src/vad_patch_creator.rs b/visqol-rs/src/vad_patch_creator.rs
index 8429152..ef3e246 100644
--- a/visqol-rs/src/vad_patch_creator.rs
+++ b/visqol-rs/src/vad_patch_creator.rs
@@ -28,6 +28,14 @@ impl PatchCreator for VadPatchCreator {
         let patch_sample_length = self.patch_size * frame_size;
         let spectrum_length = spectrogram.ncols();
         let first_patch_idx = self.patch_size / 2 - 1;
+
+        if spectrum_length < first_patch_idx + self.patch_size {
+            return Err(VisqolError::ReferenceSpectrogramTooSmall {
+                spectrogram_length: spectrum_length,
+                minimum_required: first_patch_idx + self.patch_size,
+            });
+        }
+
         let patch_count = (spectrum_length - first_patch_idx) / self.patch_size;
         let total_sample_count = patch_count * patch_sample_length;
 
-- 
2.43.0


From 983c252eb93302523d46e8708ea51d51296f0c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:01 +0000
Subject: [PATCH 07/21] fix: report the real minimum spectrogram size for short
 fullband references

---
 visqol-rs/src/image_patch_creator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visqol-rs/src/image_patch_creator.rs b/visqol-rs/src/image_patch_creator.rs
index f08906f..175197f 100644
--- a/visqol-rs/src/image_patch_creator.rs
+++ b/visqol-rs/src/image_patch_creator.rs
@@ -54,7 +54,7 @@ impl ImagePatchCreator {
         if spectrum_length < self.patch_size + init_patch_index {
             return Err(VisqolError::ReferenceSpectrogramTooSmall {
                 spectrogram_length: spectrum_length,
-                minimum_required: self.patch_size - init_patch_index,
+                minimum_required: self.patch_size + init_patch_index,
             });
         }
 
-- 
2.43.0


From b62736a26cf23f4e89535a3bfb3c9aff34ad8239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:30 +0000
Subject: [PATCH 08/21] fix: scaling a silent degraded signal produced NaN
 samples and a panic during alignment

---
 visqol-rs/src/audio_utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/visqol-rs/src/audio_utils.rs b/visqol-rs/src/audio_utils.rs
index e19cf56..f5da3ac 100644
--- a/visqol-rs/src/audio_utils.rs
+++ b/visqol-rs/src/audio_utils.rs
@@ -21,7 +21,12 @@ pub fn scale_to_match_sound_pressure_level(
     let ref_spl = calculate_sound_pressure_level(reference);
     let deg_spl = calculate_sound_pressure_level(degraded);
 
-    let scale_factor = 10.0f64.powf((ref_spl - deg_spl) / 20.0);
+    // A silent signal has no sound pressure level: whatever the gain, it stays silent.
+    let scale_factor = if deg_spl.is_finite() {
+        10.0f64.powf((ref_spl - deg_spl) / 20.0)
+    } else {
+        1.0
+    };
     let scaled_mat = degraded.data_matrix.clone() * scale_factor;
     AudioSignal::new(
         scaled_mat
-- 
2.43.0


From c8ec4fa22476de19c3b7e67d0ce2817879f3cd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:30 +0000
Subject: [PATCH 09/21] fix: report sample rates too low for the analysis
 window as an error instead of dividing by zero

---
 visqol-rs/src/gammatone_spectrogram_builder.rs | 4 ++++
 visqol-rs/src/visqol_error.rs                  | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/visqol-rs/src/gammatone_spectrogram_builder.rs b/visqol-rs/src/gammatone_spectrogram_builder.rs
index 3094688..fccf799 100644
--- a/visqol-rs/src/gammatone_spectrogram_builder.rs
+++ b/visqol-rs/src/gammatone_spectrogram_builder.rs
@@ -39,6 +39,10 @@ impl<const NUM_BANDS: usize> SpectrogramBuilder for GammatoneSpectrogramBuilder<
 
         let hop_size = (window.size as f64 * window.overlap) as usize;
 
+        if hop_size == 0 {
+            return Err(VisqolError::SampleRateTooLow { sample_rate });
+        }
+
         if time_domain_signal.len() < window.size {
             return Err(VisqolError::TooFewSamples {
                 found: time_domain_signal.len(),
diff --git a/visqol-rs/src/visqol_error.rs b/visqol-rs/src/visqol_error.rs
index 1ee226b..2b0b9cf 100644
--- a/visqol-rs/src/visqol_error.rs
+++ b/visqol-rs/src/visqol_error.rs
@@ -25,6 +25,9 @@ pub enum VisqolError {
     #[error("Degraded file was too short, different, or misaligned to score any of the reference patches.")]
     SignalsTooDifferent,
 
+    #[error("Sample rate of {sample_rate:?} Hz is too low to analyze the signal!")]
+    SampleRateTooLow { sample_rate: u32 },
+
     #[error("Failed to align signals!")]
     FailedToAlignSignals,
 
-- 
2.43.0


From 36df3b8f60813463c7bc1b5dbf9bd1e6815d277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:30 +0000
Subject: [PATCH 10/21] fix: frame duration did not match the hop size of the
 spectrogram

The spectrogram advances by whole samples. Where the window size is no multiple
of four (e.g. 11025 Hz) patch times drifted away from the frames they describe,
and could end up past the end of the signal, which panicked.
---
 visqol-rs/src/visqol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visqol-rs/src/visqol.rs b/visqol-rs/src/visqol.rs
index a6181ce..0b52389 100644
--- a/visqol-rs/src/visqol.rs
+++ b/visqol-rs/src/visqol.rs
@@ -35,7 +35,7 @@ pub fn calculate_similarity<const NUM_BANDS: usize>(
         patch_creator.create_ref_patch_indices(&ref_spectrogram.data, ref_signal, window)?;
 
     let frame_duration = calculate_frame_duration(
-        window.size as f64 * window.overlap,
+        (window.size as f64 * window.overlap).floor(),
         ref_signal.sample_rate as usize,
     );
 
-- 
2.43.0


From 989207b33b5b7357fa64d51d5cb463a0808020db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:30 +0000
Subject: [PATCH 11/21] fix: large search window radii overflowed

---
 visqol-rs/src/comparison_patches_selector.rs | 7 ++++++-
 visqol-rs/src/visqol.rs                      | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index e189ef9..78860a9 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -31,7 +31,12 @@ impl ComparisonPatchesSelector {
         let num_frames_per_patch = ref_patches[0].ncols();
         let num_frames_in_deg_spectro = spectrogram_data.ncols();
         let patch_duration = frame_duration * num_frames_per_patch as f64;
-        let search_window = search_window_radius * num_frames_per_patch as i32;
+        // Searching beyond the ends of both spectrograms cannot find any other match.
+        let widest_search_window =
+            (num_frames_in_deg_spectro + ref_patch_indices[ref_patch_indices.len() - 1]) as i32;
+        let search_window = search_window_radius
+            .saturating_mul(num_frames_per_patch as i32)
+            .min(widest_search_window);
         let num_patches = Self::calc_max_num_patches(
             ref_patch_indices,
             num_frames_in_deg_spectro,
diff --git a/visqol-rs/src/visqol.rs b/visqol-rs/src/visqol.rs
index 0b52389..8477a19 100644
--- a/visqol-rs/src/visqol.rs
+++ b/visqol-rs/src/visqol.rs
@@ -7,6 +7,7 @@ use crate::{
     spectrogram_builder::SpectrogramBuilder,
 };
 use ndarray::Array1;
+use std::convert::TryFrom;
 use std::error::Error;
 
 /// Perform a comparison on two audio signals. Their similarity is calculated
@@ -47,7 +48,7 @@ pub fn calculate_similarity<const NUM_BANDS: usize>(
         &mut ref_patch_indices,
         &deg_spectrogram.data,
         frame_duration,
-        search_window as i32,
+        i32::try_from(search_window).unwrap_or(i32::MAX),
     )?;
     // Realign the patches in time domain subsignals that start at the coarse
     // patch times.
-- 
2.43.0


From 806fe1ca9ecb777fc463585643f5cf9fd4610c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:30 +0000
Subject: [PATCH 12/21] fix: the file flags required arguments that do not
 exist, so parsing always failed

---
 visqol/src/command_line_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol/src/command_line_utils.rs b/visqol/src/command_line_utils.rs
index bafa25c..e892166 100644
--- a/visqol/src/command_line_utils.rs
+++ b/visqol/src/command_line_utils.rs
@@ -57,7 +57,7 @@ pub struct CommandLineArgs {
     /// The wav file path used as the reference audio.
     #[clap(
         long = "reference_file",
-        requires = "degraded-file",
+        requires = "degraded_file",
         conflicts_with = "batch_input_csv"
     )]
     pub reference_file: Option<String>,
@@ -65,7 +65,7 @@ pub struct CommandLineArgs {
     /// The wav file path used as the degraded audio.
     #[clap(
         long = "degraded_file",
-        requires = "reference-file",
+        requires = "reference_file",
         conflicts_with = "batch_input_csv"
     )]
     pub degraded_file: Option<String>,
-- 
2.43.0


From e89b3fc1016b0ed0a58dfdbd474421fa7bea3657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:30 +0000
Subject: [PATCH 13/21] fix: append debug info as documented instead of keeping
 only the last comparison

---
 visqol/src/output_utils.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/visqol/src/output_utils.rs b/visqol/src/output_utils.rs
index bc13095..301a5c4 100644
--- a/visqol/src/output_utils.rs
+++ b/visqol/src/output_utils.rs
@@ -7,6 +7,7 @@ use prettytable::{
     Cell, Row, Table,
 };
 use serde_json;
+use std::{fs::OpenOptions, io::Write};
 
 /// Writes debug info to either console or to file.
 pub fn write_results(
@@ -48,9 +49,14 @@ fn write_to_console(args: &CommandLineArgs, result: &SimilarityResult, file_pair
 fn write_debug_json(json_output_path: &String, results: &Vec<SimilarityResult>) {
     let mut json_output = String::new();
     for result in results {
-        json_output = serde_json::to_string_pretty(result).expect("Could not format JSON!");
+        json_output += &serde_json::to_string_pretty(result).expect("Could not format JSON!");
+        json_output.push('\n');
     }
-    std::fs::write(json_output_path, json_output)
+    OpenOptions::new()
+        .create(true)
+        .append(true)
+        .open(json_output_path)
+        .and_then(|mut file| file.write_all(json_output.as_bytes()))
         .unwrap_or_else(|_| panic!("Could not write JSON to {}!", json_output_path.as_str()));
 }
 
-- 
2.43.0


From a99a402ea0863c56db3dd44e3abaf508697ac2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:30 +0000
Subject: [PATCH 14/21] fix: write the results csv in its documented format

Rows held every field of the result instead of reference,degraded,moslqo, and a
batch whose pairs differ in patch count failed with unequal row lengths.
---
 visqol/src/output_utils.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/visqol/src/output_utils.rs b/visqol/src/output_utils.rs
index 301a5c4..09e164f 100644
--- a/visqol/src/output_utils.rs
+++ b/visqol/src/output_utils.rs
@@ -23,7 +23,7 @@ pub fn write_results(
     }
 
     if let Some(csv_output_path) = &args.results_csv {
-        write_results_to_csv(csv_output_path, results);
+        write_results_to_csv(csv_output_path, results, file_pairs);
     }
 
     for (sim_result, file_pair) in results.iter().zip(file_pairs) {
@@ -61,16 +61,26 @@ fn write_debug_json(json_output_path: &String, results: &Vec<SimilarityResult>)
 }
 
 /// Writes computes MOS values to csv file.
-fn write_results_to_csv(csv_output_path: &String, results: &Vec<SimilarityResult>) {
+fn write_results_to_csv(
+    csv_output_path: &String,
+    results: &[SimilarityResult],
+    file_pairs: &[PathPair],
+) {
     let mut writer = WriterBuilder::new()
-        .has_headers(false)
         .delimiter(b',')
         .from_path(csv_output_path)
         .expect("Failed to instantiate CSV writer!");
-    for result in results {
+    writer
+        .write_record(["reference", "degraded", "moslqo"])
+        .expect("Failed to write csv header!");
+    for (result, file_pair) in results.iter().zip(file_pairs) {
         writer
-            .serialize(result)
-            .expect("Failed to serialize SimilarityResult!");
+            .write_record([
+                &file_pair.reference,
+                &file_pair.degraded,
+                &result.moslqo.to_string(),
+            ])
+            .expect("Failed to write csv record!");
     }
     writer.flush().expect("Failed to flush csv file!")
 }
-- 
2.43.0


From 5eb4312231a6741383e7c7de55258c1ce3239c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:15 +0000
Subject: [PATCH 15/21] fix: a reference patch without candidates in its search
 window discarded all other matches

---
 visqol-rs/src/comparison_patches_selector.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index 78860a9..4cf9ebf 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -42,6 +42,11 @@ impl ComparisonPatchesSelector {
             num_frames_in_deg_spectro,
             num_frames_per_patch,
         );
+        // A patch whose search window begins past the end of the degraded spectrogram has no candidates.
+        let num_patches = ref_patch_indices[..num_patches]
+            .iter()
+            .take_while(|&&i| (i as i32) - search_window < num_frames_in_deg_spectro as i32)
+            .count();
 
         if num_patches == 0 {
             return Err(VisqolError::SignalsTooDifferent);
-- 
2.43.0


From 6dcdcd49282ebcc39eeb0706b039ef5e9b92c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:11 +0000
Subject: [PATCH 16/21] hooks: expose the internal building blocks to the
 verification harness behind cfg(visqol_verif)

---
 visqol-rs/src/lib.rs | 95 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 95 insertions(+)

diff --git a/visqol-rs/src/lib.rs b/visqol-rs/src/lib.rs
index 5e9a8ab..c305142 100644
--- a/visqol-rs/src/lib.rs
+++ b/visqol-rs/src/lib.rs
@@ -26,6 +26,8 @@
 //! );
 //! ```
 
+#![allow(unexpected_cfgs)]
+
 mod alignment;
 mod analysis_window;
 mod audio_signal;
@@ -63,3 +65,96 @@ mod xcorr;
 
 #[cfg(test)]
 mod test_utility;
+
+/// Gives the verification harness access to the internal building blocks.
+/// Only compiled with `RUSTFLAGS="--cfg visqol_verif"`.
+#[cfg(visqol_verif)]
+pub mod verif_hooks {
+    pub mod alignment {
+        pub use crate::alignment::*;
+    }
+    pub mod analysis_window {
+        pub use crate::analysis_window::*;
+    }
+    pub mod audio_signal {
+        pub use crate::audio_signal::*;
+    }
+    pub mod comparison_patches_selector {
+        pub use crate::comparison_patches_selector::*;
+    }
+    pub mod convolution_2d {
+        pub use crate::convolution_2d::*;
+    }
+    pub mod envelope {
+        pub use crate::envelope::*;
+    }
+    pub mod equivalent_rectangular_bandwidth {
+        pub use crate::equivalent_rectangular_bandwidth::*;
+    }
+    pub mod fast_fourier_transform {
+        pub use crate::fast_fourier_transform::*;
+    }
+    pub mod fft_manager {
+        pub use crate::fft_manager::*;
+    }
+    pub mod gammatone_filterbank {
+        pub use crate::gammatone_filterbank::*;
+    }
+    pub mod gammatone_spectrogram_builder {
+        pub use crate::gammatone_spectrogram_builder::*;
+    }
+    pub mod image_patch_creator {
+        pub use crate::image_patch_creator::*;
+    }
+    pub mod math_utils {
+        pub use crate::math_utils::*;
+    }
+    pub mod neurogram_similiarity_index_measure {
+        pub use crate::neurogram_similiarity_index_measure::*;
+    }
+    pub mod patch_creator {
+        pub use crate::patch_creator::*;
+    }
+    pub mod patch_similarity_comparator {
+        pub use crate::patch_similarity_comparator::*;
+    }
+    pub mod rms_vad {
+        pub use crate::rms_vad::*;
+    }
+    pub mod signal_filter {
+        pub use crate::signal_filter::*;
+    }
+    pub mod similarity_to_quality_mapper {
+        pub use crate::similarity_to_quality_mapper::*;
+    }
+    pub mod spectrogram {
+        pub use crate::spectrogram::*;
+    }
+    pub mod spectrogram_builder {
+        pub use crate::spectrogram_builder::*;
+    }
+    pub mod speech_similarity_to_quality_mapper {
+        pub use crate::speech_similarity_to_quality_mapper::*;
+    }
+    pub mod support_vector_regression_model {
+        pub use crate::support_vector_regression_model::*;
+    }
+    pub mod svr_similarity_to_quality_mapper {
+        pub use crate::svr_similarity_to_quality_mapper::*;
+    }
+    pub mod vad_patch_creator {
+        pub use crate::vad_patch_creator::*;
+    }
+    pub mod visqol {
+        pub use crate::visqol::*;
+    }
+    pub mod visqol_error {
+        pub use crate::visqol_error::*;
+    }
+    pub mod wav_reader {
+        pub use crate::wav_reader::*;
+    }
+    pub mod xcorr {
+        pub use crate::xcorr::*;
+    }
+}
-- 
2.43.0


From 98b24691d32dcf4e938ee23f0193c76b8096b0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:52 +0000
Subject: [PATCH 17/21] fix: patches with negative similarity were matched
 outside their search window

---
 visqol-rs/src/comparison_patches_selector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index 4cf9ebf..f43de5f 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -65,7 +65,7 @@ impl ComparisonPatchesSelector {
         best_deg_patches.resize(num_patches, PatchSimilarityResult::default());
 
         let mut cumulative_similarity_dp =
-            vec![vec![0.0f64; spectrogram_data.ncols()]; ref_patch_indices.len()];
+            vec![vec![f64::NEG_INFINITY; spectrogram_data.ncols()]; ref_patch_indices.len()];
         let mut backtrace = vec![vec![0usize; spectrogram_data.ncols()]; ref_patch_indices.len()];
 
         let mut deg_patches = Vec::<Array2<f64>>::with_capacity(spectrogram_data.ncols());
-- 
2.43.0


From 6a1cc692b346192a3eba18614ab0c6f916d5662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:01 +0000
Subject: [PATCH 18/21] fix: realigned patches kept one sample too many where
 the lag in seconds rounds down

---
 visqol-rs/src/alignment.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/alignment.rs b/visqol-rs/src/alignment.rs
index 2150d35..999da77 100644
--- a/visqol-rs/src/alignment.rs
+++ b/visqol-rs/src/alignment.rs
@@ -21,12 +21,12 @@ pub fn align_and_truncate(
             // that amount should be truncated.
             new_ref_matrix = new_ref_matrix
                 .slice(s![
-                    (lag * ref_signal.sample_rate as f64) as usize..ref_signal.len()
+                    (lag * ref_signal.sample_rate as f64).round() as usize..ref_signal.len()
                 ])
                 .to_owned();
             new_deg_matrix = new_deg_matrix
                 .slice(s![
-                    (lag * deg_signal.sample_rate as f64) as usize..ref_signal.len()
+                    (lag * deg_signal.sample_rate as f64).round() as usize..ref_signal.len()
                 ])
                 .to_owned();
         }
-- 
2.43.0


From 55401ea7dfbad90909cb4f403fba6cb11b908417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:01 +0000
Subject: [PATCH 19/21] fix: patches were cut one sample off where their times
 in seconds round down

---
 visqol-rs/src/comparison_patches_selector.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index f43de5f..8c52a7f 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -270,16 +270,17 @@ impl ComparisonPatchesSelector {
 
     /// Given an `AudioSignal` and the desired start and end times in seconds, this function returns a copy of the segment in the audio signal ranging from `start_time` to `end_time`
     pub fn slice(in_signal: &AudioSignal, start_time: f64, end_time: f64) -> AudioSignal {
-        let start_index = ((start_time * in_signal.sample_rate as f64) as usize).max(0);
-        let end_index =
-            ((end_time * in_signal.sample_rate as f64) as usize).min(in_signal.data_matrix.len());
+        let start_index = ((start_time * in_signal.sample_rate as f64).round() as usize).max(0);
+        let end_index = ((end_time * in_signal.sample_rate as f64).round() as usize)
+            .min(in_signal.data_matrix.len());
 
         let mut sliced_matrix = in_signal
             .data_matrix
             .slice(s![start_index..end_index])
             .to_owned();
         let end_time_diff =
-            (end_time * in_signal.sample_rate as f64 - in_signal.data_matrix.len() as f64) as usize;
+            (end_time * in_signal.sample_rate as f64 - in_signal.data_matrix.len() as f64).round()
+                as usize;
 
         if end_time_diff > 0 {
             let post_silence_matrix = Array1::<f64>::zeros(end_time_diff);
-- 
2.43.0


From ea1c5d1c5868a27757ab7041a0fc0b7762b1d6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 20/21] fix: reading a file with several channels and no
 samples panicked

---
 visqol-rs/src/audio_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/audio_utils.rs b/visqol-rs/src/audio_utils.rs
index f5da3ac..5b4b5e6 100644
--- a/visqol-rs/src/audio_utils.rs
+++ b/visqol-rs/src/audio_utils.rs
@@ -4,7 +4,7 @@ use crate::audio_signal::AudioSignal;
 use crate::math_utils;
 use crate::spectrogram::Spectrogram;
 use crate::wav_reader::WavFile;
-use ndarray::{Array1, Array2, Axis, ShapeBuilder};
+use ndarray::{Array1, Array2, Axis};
 use num::complex::Complex64;
 use num_traits::Zero;
 
@@ -70,7 +70,7 @@ fn extract_multichannel(num_channels: usize, interleaved_vector: &[f64]) -> Arra
     assert!(interleaved_vector.len().is_multiple_of(num_channels));
     let sub_vector_size = interleaved_vector.len() / num_channels;
     Array2::from_shape_vec(
-        (sub_vector_size, num_channels).strides((num_channels, 1)),
+        (sub_vector_size, num_channels),
         interleaved_vector.to_vec(),
     )
     .expect("Failed to sum multichannel signal to mono signal!")
-- 
2.43.0


From 05ec26e64a4722bcebacf165f9f3ce76ecb80b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:11 +0000
Subject: [PATCH 21/21] fix: signals in memory with different sample rates were
 scored

---
 visqol-rs/src/visqol_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/visqol_manager.rs b/visqol-rs/src/visqol_manager.rs
index 022d01c..bd747ed 100644
--- a/visqol-rs/src/visqol_manager.rs
+++ b/visqol-rs/src/visqol_manager.rs
@@ -76,8 +76,6 @@ impl<const NUM_BANDS: usize> VisqolManager<NUM_BANDS> {
         let mut ref_signal = audio_utils::load_as_mono(ref_signal_path)?;
         let mut deg_signal = audio_utils::load_as_mono(deg_signal_path)?;
 
-        Self::validate_input_audio(&ref_signal, &deg_signal)?;
-
         self.compute_results(&mut ref_signal, &mut deg_signal)
     }
 
@@ -86,6 +84,8 @@ impl<const NUM_BANDS: usize> VisqolManager<NUM_BANDS> {
         ref_signal: &mut AudioSignal,
         deg_signal: &mut AudioSignal,
     ) -> Result<SimilarityResult, Box<dyn Error>> {
+        Self::validate_input_audio(ref_signal, deg_signal)?;
+
         let (mut deg_signal, _) = alignment::globally_align(ref_signal, deg_signal)
             .ok_or(VisqolError::FailedToAlignSignals)?;
 
-- 
2.43.0

