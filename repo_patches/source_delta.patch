From 52580b779a35c8db59c8a92aed4f3e011dbcbfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:24 +0000
Subject: [PATCH 01/25] fix: Key::from_numerical no longer panics on notation
 ending in a multi-byte character

---
 src/analysis/result.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/analysis/result.rs b/src/analysis/result.rs
index a5df132..e3d10aa 100644
--- a/src/analysis/result.rs
+++ b/src/analysis/result.rs
@@ -115,7 +115,8 @@ impl Key {
             return None;
         }
 
-        let (num_str, suffix) = notation.split_at(notation.len() - 1);
+        let suffix_start = notation.char_indices().next_back()?.0;
+        let (num_str, suffix) = notation.split_at(suffix_start);
         let num: u32 = num_str.parse().ok()?;
 
         if !(1..=12).contains(&num) {
-- 
2.43.0


From 14bdf3de0fad7bdbc7488530c061f8d0c8b80fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:24 +0000
Subject: [PATCH 02/25] fix: silence detection with a one-sample frame no
 longer divides by zero

---
 src/preprocessing/silence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessing/silence.rs b/src/preprocessing/silence.rs
index d314764..b31a8df 100644
--- a/src/preprocessing/silence.rs
+++ b/src/preprocessing/silence.rs
@@ -141,7 +141,7 @@ pub fn detect_and_trim(
     let threshold_linear = 10.0_f32.powf(detector.threshold_db / 20.0);
 
     // Step 1: Frame audio and compute RMS per frame
-    let hop_size = detector.frame_size / 2; // 50% overlap for smoother detection
+    let hop_size = (detector.frame_size / 2).max(1); // 50% overlap for smoother detection
     let num_frames = if samples.len() >= detector.frame_size {
         (samples.len() - detector.frame_size) / hop_size + 1
     } else {
-- 
2.43.0


From 2af756e7f16a827f38931e4504394d224758becb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:24 +0000
Subject: [PATCH 03/25] fix: frequency bounds above Nyquist no longer panic at
 low sample rates

---
 src/features/chroma/extractor.rs | 4 ++--
 src/features/period/novelty.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 6c78568..7d78832 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -98,7 +98,7 @@ pub fn estimate_tuning_offset_semitones_from_spectrogram(
 
     let freq_resolution = sample_rate as f32 / fft_size as f32;
     let fmin = fmin_hz.max(20.0);
-    let fmax = fmax_hz.clamp(fmin + 1.0, sample_rate as f32 / 2.0);
+    let fmax = fmax_hz.max(fmin + 1.0).min(sample_rate as f32 / 2.0);
     let step = frame_step.max(1);
     let thr = peak_rel_threshold.clamp(0.0, 1.0);
 
@@ -1403,7 +1403,7 @@ pub fn harmonic_spectrogram_hpss_median_mask(
 
     let freq_resolution = sample_rate as f32 / fft_size as f32;
     let fmin = fmin_hz.max(20.0);
-    let fmax = fmax_hz.clamp(fmin + 1.0, sample_rate as f32 / 2.0);
+    let fmax = fmax_hz.max(fmin + 1.0).min(sample_rate as f32 / 2.0);
     let mut bin_start = (fmin / freq_resolution).floor() as isize;
     let mut bin_end = (fmax / freq_resolution).ceil() as isize;
     bin_start = bin_start.clamp(0, n_bins as isize);
diff --git a/src/features/period/novelty.rs b/src/features/period/novelty.rs
index c651b5e..dc80cdb 100644
--- a/src/features/period/novelty.rs
+++ b/src/features/period/novelty.rs
@@ -100,7 +100,7 @@ impl MelFilterbank {
         if !(fmax.is_finite() && fmax > 0.0) {
             fmax = nyquist;
         }
-        let fmax = fmax.clamp(fmin + 1.0, nyquist);
+        let fmax = fmax.max(fmin + 1.0).min(nyquist);
 
         // Infer FFT size from rFFT bins: n_bins = fft_size/2 + 1
         let fft_size = (n_bins - 1) * 2;
-- 
2.43.0


From 5fa46bf9f10c3df450410f367c5c1b8a0497c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:05 +0000
Subject: [PATCH 04/25] fix: legacy BPM confidence stays within its documented
 0.0-1.0 range

---
 src/features/period/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/features/period/mod.rs b/src/features/period/mod.rs
index ed193f4..14ef1d2 100644
--- a/src/features/period/mod.rs
+++ b/src/features/period/mod.rs
@@ -400,5 +400,11 @@ fn estimate_bpm_internal(
             log::debug!("  → Won: highest confidence");
         }
     }
-    Ok(best)
+
+    // Ranking boosts and guardrail multipliers can push the score past 1.0; the reported
+    // confidence stays within its documented range.
+    Ok(best.map(|mut est| {
+        est.confidence = est.confidence.clamp(0.0, 1.0);
+        est
+    }))
 }
-- 
2.43.0


From 6061777d77c96b7db46050837e9974e85af4bb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:05 +0000
Subject: [PATCH 05/25] fix: reject non-finite samples instead of panicking in
 the sorting stages

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3dcbf84..67c04bb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -109,6 +109,12 @@ pub fn analyze_audio(
         ));
     }
 
+    if samples.iter().any(|s| !s.is_finite()) {
+        return Err(AnalysisError::InvalidInput(
+            "Audio samples must be finite".to_string(),
+        ));
+    }
+
     // Phase 1A: Preprocessing
     let mut processed_samples = samples.to_vec();
 
-- 
2.43.0


From 1fd0cac30706048f8e68e278be1c4cf95cca982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:32 +0000
Subject: [PATCH 06/25] fix: variable-tempo beat grids no longer repeat the
 beats of overlapping segments

---
 src/features/beat_tracking/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/features/beat_tracking/mod.rs b/src/features/beat_tracking/mod.rs
index 533f7aa..2d8789e 100644
--- a/src/features/beat_tracking/mod.rs
+++ b/src/features/beat_tracking/mod.rs
@@ -50,6 +50,9 @@ use crate::error::AnalysisError;
 use tempo_variation::{detect_tempo_variations, has_tempo_variation};
 use time_signature::{detect_time_signature, TimeSignature};
 
+/// Beats closer than this (in seconds) are the same beat.
+const SAME_BEAT_TOLERANCE_S: f32 = 0.05;
+
 /// Beat position in a bar
 #[derive(Debug, Clone)]
 pub struct BeatPosition {
@@ -210,6 +213,8 @@ pub fn generate_beat_grid(
         // If we got refined beats, use them; otherwise keep original
         if !refined_beats.is_empty() {
             refined_beats.sort_by(|a, b| a.time_seconds.partial_cmp(&b.time_seconds).unwrap());
+            // Segments overlap, so a beat can be tracked twice: keep one of each.
+            refined_beats.dedup_by(|b, a| b.time_seconds - a.time_seconds < SAME_BEAT_TOLERANCE_S);
             beat_positions = refined_beats;
             log::debug!(
                 "Refined beats using Bayesian tracker: {} beats",
-- 
2.43.0


From d06c860ce7505c936a35883c6c484c909ed1633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:15 +0000
Subject: [PATCH 07/25] fix: key detection breaks score ties deterministically
 instead of by hash order

---
 src/features/key/detector.rs | 38 +++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index 2ca72c8..8e344ee 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -156,6 +156,17 @@ pub fn detect_key_weighted(
         })
         .fold(0.0f32, f32::max);
 
+    // The un-normalized match decides between the best major and the best minor key below: after
+    // normalization both always carry the same score.
+    let raw_scores = scores.clone();
+    let raw_score = |key: Key| {
+        raw_scores
+            .iter()
+            .find(|(k, _)| *k == key)
+            .map(|(_, s)| *s)
+            .unwrap_or(0.0)
+    };
+
     // Normalize scores if max values are non-zero
     if max_major > 1e-9 && max_minor > 1e-9 {
         for (k, s) in scores.iter_mut() {
@@ -243,7 +254,11 @@ pub fn detect_key_weighted(
     scores = refined_scores;
 
     // Step 2: Sort by score (highest first)
-    scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
+    // Equal scores are ordered by the un-normalized match, so the ranking is deterministic.
+    scores.sort_by(|a, b| {
+        b.1.total_cmp(&a.1)
+            .then_with(|| raw_score(b.0).total_cmp(&raw_score(a.0)))
+    });
 
     // Step 3: Select best key using weighted top-N voting (if top keys are close)
     // This helps when the best key is only slightly better than alternatives
@@ -258,18 +273,23 @@ pub fn detect_key_weighted(
 
     let final_key = if use_weighted_voting {
         // Weighted voting: count occurrences of each key in top 3, weighted by score
-        let mut key_votes: std::collections::HashMap<Key, f32> = std::collections::HashMap::new();
+        let mut key_votes: Vec<(Key, f32)> = Vec::with_capacity(3);
         for (key, score) in scores.iter().take(3) {
             let vote_weight = *score / best_score; // Normalize by best score
-            *key_votes.entry(*key).or_insert(0.0) += vote_weight;
+            match key_votes.iter_mut().find(|(k, _)| k == key) {
+                Some((_, votes)) => *votes += vote_weight,
+                None => key_votes.push((*key, vote_weight)),
+            }
         }
 
-        // Select key with highest vote count
-        key_votes
-            .iter()
-            .max_by(|a, b| a.1.partial_cmp(b.1).unwrap_or(std::cmp::Ordering::Equal))
-            .map(|(k, _)| *k)
-            .unwrap_or(best_key)
+        // Select key with highest vote count (the higher-ranked key on equal votes)
+        let mut winner = (best_key, 0.0f32);
+        for &(key, votes) in &key_votes {
+            if votes > winner.1 {
+                winner = (key, votes);
+            }
+        }
+        winner.0
     } else {
         best_key
     };
-- 
2.43.0


From 986f4cf1c1d9bdefcb682edecbc8bd25023394c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:22 +0000
Subject: [PATCH 08/25] fix: median key and primary key of key-change detection
 no longer depend on hash order

---
 src/features/key/detector.rs    | 14 +++++++++-----
 src/features/key/key_changes.rs | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index 8e344ee..7e687c3 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -790,12 +790,16 @@ pub fn detect_key_median(
     }
 
     // Count key occurrences (weighted by confidence)
-    let mut key_counts: std::collections::HashMap<Key, (usize, f32)> =
-        std::collections::HashMap::new();
+    // (kept in order of first appearance so that ties do not depend on hash order)
+    let mut key_counts: Vec<(Key, (usize, f32))> = Vec::new();
     for (key, result) in segment_keys.iter().zip(segment_scores.iter()) {
-        let entry = key_counts.entry(*key).or_insert((0, 0.0));
-        entry.0 += 1;
-        entry.1 += result.confidence;
+        match key_counts.iter_mut().find(|(k, _)| k == key) {
+            Some((_, entry)) => {
+                entry.0 += 1;
+                entry.1 += result.confidence;
+            }
+            None => key_counts.push((*key, (1, result.confidence))),
+        }
     }
 
     // Select median key (most common, with confidence as tiebreaker)
diff --git a/src/features/key/key_changes.rs b/src/features/key/key_changes.rs
index bd33df1..b94b477 100644
--- a/src/features/key/key_changes.rs
+++ b/src/features/key/key_changes.rs
@@ -132,12 +132,16 @@ pub fn detect_key_changes(
     }
 
     // Find primary key (most common)
-    let mut key_counts: std::collections::HashMap<Key, (usize, f32)> =
-        std::collections::HashMap::new();
+    // (kept in order of first appearance so that ties do not depend on hash order)
+    let mut key_counts: Vec<(Key, (usize, f32))> = Vec::new();
     for (_, key, confidence) in &segment_keys {
-        let entry = key_counts.entry(*key).or_insert((0, 0.0));
-        entry.0 += 1;
-        entry.1 += confidence;
+        match key_counts.iter_mut().find(|(k, _)| k == key) {
+            Some((_, entry)) => {
+                entry.0 += 1;
+                entry.1 += confidence;
+            }
+            None => key_counts.push((*key, (1, *confidence))),
+        }
     }
 
     let (primary_key, (count, total_confidence)) = key_counts
-- 
2.43.0


From 4e6d227ef814b6639895ca1b2d22680d00330f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:22 +0000
Subject: [PATCH 09/25] fix: key-change detection reports an overlap longer
 than the segment as invalid input

---
 src/features/key/key_changes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/key/key_changes.rs b/src/features/key/key_changes.rs
index b94b477..b0bdd04 100644
--- a/src/features/key/key_changes.rs
+++ b/src/features/key/key_changes.rs
@@ -92,7 +92,7 @@ pub fn detect_key_changes(
     let frames_per_second = sample_rate as f32 / hop_size as f32;
     let segment_frames = (segment_duration * frames_per_second) as usize;
     let overlap_frames = (segment_overlap * frames_per_second) as usize;
-    let hop_frames = segment_frames - overlap_frames;
+    let hop_frames = segment_frames.saturating_sub(overlap_frames);
 
     if segment_frames == 0 || hop_frames == 0 {
         return Err(AnalysisError::InvalidInput(
-- 
2.43.0


From 667d477c267027ee5c8dc7d4acfd7399f502013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:42 +0000
Subject: [PATCH 10/25] fix: key scoring no longer panics when extreme
 weighting exponents overflow

---
 src/features/chroma/smoothing.rs | 2 +-
 src/features/key/detector.rs     | 2 +-
 src/features/key/key_clarity.rs  | 4 ++--
 src/lib.rs                       | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/features/chroma/smoothing.rs b/src/features/chroma/smoothing.rs
index 2b082a0..4086083 100644
--- a/src/features/chroma/smoothing.rs
+++ b/src/features/chroma/smoothing.rs
@@ -79,7 +79,7 @@ pub fn smooth_chroma(chroma_vectors: &[Vec<f32>], window_size: usize) -> Vec<Vec
 
             // Compute median
             if !window_values.is_empty() {
-                window_values.sort_by(|a, b| a.partial_cmp(b).unwrap());
+                window_values.sort_by(|a, b| a.total_cmp(b));
                 let median_idx = window_values.len() / 2;
                 smoothed_frame[semitone_idx] = window_values[median_idx];
             } else {
diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index 7e687c3..f2d5661 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -694,7 +694,7 @@ pub fn detect_key_multi_scale(
         }
 
         // Sort and build result
-        acc_scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
+        acc_scores.sort_by(|a, b| b.1.total_cmp(&a.1));
         let (best_key, best_score) = acc_scores[0];
         let second_score = if acc_scores.len() > 1 {
             acc_scores[1].1
diff --git a/src/features/key/key_clarity.rs b/src/features/key/key_clarity.rs
index 51f7efb..5d12ac5 100644
--- a/src/features/key/key_clarity.rs
+++ b/src/features/key/key_clarity.rs
@@ -73,11 +73,11 @@ pub fn compute_key_clarity(scores: &[(crate::analysis::result::Key, f32)]) -> f3
     // Find range (max - min)
     let min_score = *score_values
         .iter()
-        .min_by(|a, b| a.partial_cmp(b).unwrap())
+        .min_by(|a, b| a.total_cmp(b))
         .unwrap();
     let max_score = *score_values
         .iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
+        .max_by(|a, b| a.total_cmp(b))
         .unwrap();
     let range = max_score - min_score;
 
diff --git a/src/lib.rs b/src/lib.rs
index 67c04bb..0edd7c7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1418,7 +1418,7 @@ pub fn analyze_audio(
                             }
                         } else {
                             // Sort accumulated scores and build a KeyDetectionResult.
-                            acc_scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
+                            acc_scores.sort_by(|a, b| b.1.total_cmp(&a.1));
                             let (best_key, best_score) = acc_scores[0];
                             let second_score = if acc_scores.len() > 1 {
                                 acc_scores[1].1
-- 
2.43.0


From 0f7289bf7f61f37f8c31d72bae3ec4dd475a71b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:10 +0000
Subject: [PATCH 11/25] fix: log-frequency conversion reports an empty
 frequency range instead of panicking

---
 src/features/chroma/extractor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 7d78832..77e971e 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -743,7 +743,7 @@ pub fn convert_linear_to_log_frequency_spectrogram(
     // Round to nearest semitone and create bin range
     let semitone_bin_min = semitone_min.floor() as i32;
     let semitone_bin_max = semitone_max.ceil() as i32;
-    let n_semitone_bins = (semitone_bin_max - semitone_bin_min + 1) as usize;
+    let n_semitone_bins = (semitone_bin_max - semitone_bin_min + 1).max(0) as usize;
 
     if n_semitone_bins == 0 {
         return Err(AnalysisError::InvalidInput(
-- 
2.43.0


From 3c335086dfaec6430c2f42e6b648e6b2f1ae705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:06 +0000
Subject: [PATCH 12/25] fix: log-frequency range no longer overflows when the
 upper bound is not positive

---
 src/features/chroma/extractor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 77e971e..b952c44 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -743,7 +743,10 @@ pub fn convert_linear_to_log_frequency_spectrogram(
     // Round to nearest semitone and create bin range
     let semitone_bin_min = semitone_min.floor() as i32;
     let semitone_bin_max = semitone_max.ceil() as i32;
-    let n_semitone_bins = (semitone_bin_max - semitone_bin_min + 1).max(0) as usize;
+    let n_semitone_bins = semitone_bin_max
+        .saturating_sub(semitone_bin_min)
+        .saturating_add(1)
+        .max(0) as usize;
 
     if n_semitone_bins == 0 {
         return Err(AnalysisError::InvalidInput(
-- 
2.43.0


From 7d0cb397aafbff129af0ad4ac05fa272745487f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:05 +0000
Subject: [PATCH 13/25] fix: evenly spaced beats are reported as 4/4, not 6/8

All three hypotheses score the same on even beats and max_by kept the last one,
so a steady click track was given bars of six beats.
---
 src/features/beat_tracking/time_signature.rs | 21 +++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/features/beat_tracking/time_signature.rs b/src/features/beat_tracking/time_signature.rs
index 8f45285..8bcbbd0 100644
--- a/src/features/beat_tracking/time_signature.rs
+++ b/src/features/beat_tracking/time_signature.rs
@@ -34,6 +34,9 @@ use crate::error::AnalysisError;
 /// Numerical stability epsilon
 const EPSILON: f32 = 1e-10;
 
+/// Scores closer than this do not distinguish two time signatures
+const TIE_MARGIN: f32 = 1e-3;
+
 /// Musical time signature
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum TimeSignature {
@@ -136,16 +139,20 @@ pub fn detect_time_signature(
     let score_68 = score_time_signature(&intervals, 6, mean_interval);
     scores.push((TimeSignature::SixEight, score_68));
 
-    // Find best match
-    let (best_sig, best_score) = scores
-        .iter()
-        .max_by(|(_, a), (_, b)| a.partial_cmp(b).unwrap())
-        .unwrap();
+    // Find best match. Hypotheses are listed most common first and evenly spaced beats fit
+    // all of them equally well, so a later one has to fit noticeably better.
+    let (mut best_sig, mut best_score) = scores[0];
+    for &(sig, score) in &scores[1..] {
+        if score > best_score + TIE_MARGIN {
+            best_sig = sig;
+            best_score = score;
+        }
+    }
 
     // Normalize confidence to [0, 1]
-    let confidence = (*best_score).clamp(0.0, 1.0);
+    let confidence = best_score.clamp(0.0, 1.0);
 
-    Ok((*best_sig, confidence))
+    Ok((best_sig, confidence))
 }
 
 /// Score a time signature hypothesis
-- 
2.43.0


From 1d0f4acfb1f2674c247c647bab68bd41aa5f8c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:19 +0000
Subject: [PATCH 14/25] fix: generate_beat_grid rejects non-finite onset times
 instead of panicking

---
 src/features/beat_tracking/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/features/beat_tracking/mod.rs b/src/features/beat_tracking/mod.rs
index 2d8789e..afabab4 100644
--- a/src/features/beat_tracking/mod.rs
+++ b/src/features/beat_tracking/mod.rs
@@ -127,6 +127,12 @@ pub fn generate_beat_grid(
         ));
     }
 
+    if onsets.iter().any(|onset| !onset.is_finite()) {
+        return Err(AnalysisError::InvalidInput(
+            "Cannot generate beat grid: onset times must be finite".to_string(),
+        ));
+    }
+
     log::debug!(
         "Generating beat grid: BPM={:.2}, confidence={:.3}, {} onsets",
         bpm_estimate,
-- 
2.43.0


From 7cadf40b1210836aa11322532129c606ec406f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:44 +0000
Subject: [PATCH 15/25] fix: autocorrelation tempo estimation no longer reports
 FFT rounding noise as tempi

---
 src/features/period/autocorrelation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/features/period/autocorrelation.rs b/src/features/period/autocorrelation.rs
index f92314c..79fc9dc 100644
--- a/src/features/period/autocorrelation.rs
+++ b/src/features/period/autocorrelation.rs
@@ -181,6 +181,12 @@ pub fn estimate_bpm_from_autocorrelation(
         return Ok(vec![]);
     }
 
+    // The beat signal is 0/1, so the ACF counts pairs of onsets: a range without a single
+    // pair holds nothing but FFT rounding noise, which must not be taken for tempi.
+    if acf[lag_min..=lag_max].iter().all(|&value| value < 0.5) {
+        return Ok(vec![]);
+    }
+
     // Step 4: Find peaks in ACF within lag range
     let peaks = find_peaks_in_acf(&acf[lag_min..=lag_max], lag_min)?;
 
-- 
2.43.0


From 007b02bab3e37aa6f2c2753489f07d4b9fdda57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:57 +0000
Subject: [PATCH 16/25] fix: compute_stft rejects zero frame and hop sizes
 instead of panicking

---
 src/features/chroma/extractor.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index b952c44..34ef2cb 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -305,6 +305,12 @@ pub fn compute_stft(
 ) -> Result<Vec<Vec<f32>>, AnalysisError> {
     let n_samples = samples.len();
 
+    if frame_size == 0 || hop_size == 0 {
+        return Err(AnalysisError::InvalidInput(
+            "Frame size and hop size must be > 0".to_string(),
+        ));
+    }
+
     if n_samples < frame_size {
         // Not enough samples for even one frame
         return Ok(vec![]);
@@ -317,7 +323,7 @@ pub fn compute_stft(
     // Create Hann window
     let window: Vec<f32> = (0..frame_size)
         .map(|i| {
-            let x = 2.0 * std::f32::consts::PI * i as f32 / (frame_size - 1) as f32;
+            let x = 2.0 * std::f32::consts::PI * i as f32 / (frame_size - 1).max(1) as f32;
             0.5 * (1.0 - x.cos())
         })
         .collect();
-- 
2.43.0


From 8e630149b1313626a1bdcd515f62f4755a1df6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:59 +0000
Subject: [PATCH 17/25] fix: emit no more tempogram candidates than requested
 when multi-resolution is enabled

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0edd7c7..cdf4a37 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -692,6 +692,7 @@ pub fn analyze_audio(
                         tempogram_candidates = Some(
                             chosen_cands
                                 .into_iter()
+                                .take(config.tempogram_candidates_top_n)
                                 .map(|c| TempoCandidateDebug {
                                     bpm: c.bpm,
                                     score: c.score,
-- 
2.43.0


From 41daf89f3074ac1dd22bacc0d1c0516578382463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:28 +0000
Subject: [PATCH 18/25] fix: do not panic when the key tuning limit is not a
 number

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cdf4a37..a63a825 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1111,10 +1111,10 @@ pub fn analyze_audio(
                     config.key_tuning_frame_step,
                     config.key_tuning_peak_rel_threshold,
                 ) {
-                    Ok(d) => d.clamp(
-                        -config.key_tuning_max_abs_semitones.abs(),
-                        config.key_tuning_max_abs_semitones.abs(),
-                    ),
+                    // max/min rather than clamp: clamp panics on a NaN limit
+                    Ok(d) => d
+                        .max(-config.key_tuning_max_abs_semitones.abs())
+                        .min(config.key_tuning_max_abs_semitones.abs()),
                     Err(e) => {
                         log::warn!("Key tuning estimation failed: {}", e);
                         0.0
-- 
2.43.0


From cbbde7344cc7472e659f4039d6c429f6d0c4826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:37 +0000
Subject: [PATCH 19/25] fix: keep octave folds of the multi-resolution tempo
 inside the BPM range

---
 src/features/period/multi_resolution.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features/period/multi_resolution.rs b/src/features/period/multi_resolution.rs
index f3740b7..f37a43a 100644
--- a/src/features/period/multi_resolution.rs
+++ b/src/features/period/multi_resolution.rs
@@ -697,7 +697,7 @@ pub fn multi_resolution_tempogram_from_samples(
     // Fold-down (high -> half)
     if best.bpm >= 170.0 {
         let half = best.bpm * 0.5;
-        if (70.0..=120.0).contains(&half) {
+        if (70.0..=120.0).contains(&half) && half >= min_bpm {
             let (s_best, a_best) = total_support(&c256, &c512, &c1024, best.bpm, tol);
             let (s_half, a_half) = total_support(&c256, &c512, &c1024, half, tol);
             let ratio = if s_best > 0.0 { s_half / s_best } else { 0.0 };
@@ -726,7 +726,7 @@ pub fn multi_resolution_tempogram_from_samples(
     // Fold-up (low -> double)
     if best.bpm <= 80.0 {
         let dbl = best.bpm * 2.0;
-        if (70.0..=180.0).contains(&dbl) {
+        if (70.0..=180.0).contains(&dbl) && dbl <= max_bpm {
             let (s_best, a_best) = total_support(&c256, &c512, &c1024, best.bpm, tol);
             let (s_dbl, a_dbl) = total_support(&c256, &c512, &c1024, dbl, tol);
             let ratio = if s_best > 0.0 { s_dbl / s_best } else { 0.0 };
-- 
2.43.0


From 97b62a7eafc0da3cc22b4f624c9f85b9d07f6413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:23 +0000
Subject: [PATCH 20/25] fix: huge margins, hops and band counts no longer
 overflow or exhaust memory

---
 src/features/chroma/extractor.rs | 6 +++++-
 src/features/key/detector.rs     | 4 ++--
 src/features/onset/hpss.rs       | 4 ++--
 src/features/period/novelty.rs   | 9 +++++----
 4 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 34ef2cb..d2966b0 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -1288,7 +1288,7 @@ pub fn smooth_spectrogram_time(
         }
         for (t, out_frame) in out.iter_mut().enumerate().take(n_frames) {
             let start = t.saturating_sub(margin);
-            let end = (t + margin + 1).min(n_frames);
+            let end = t.saturating_add(margin).saturating_add(1).min(n_frames);
             let sum = prefix[end] - prefix[start];
             let denom = (end - start).max(1) as f32;
             out_frame[bin] = sum / denom;
@@ -1446,6 +1446,10 @@ pub fn harmonic_spectrogram_hpss_median_mask(
         *m
     }
 
+    // A window never reaches past the spectrogram, however large the margin.
+    let time_margin = time_margin.min(n_ds);
+    let freq_margin = freq_margin.min(band_bins);
+
     // Harmonic estimate: median across time (horizontal median filter).
     let mut h_est = vec![vec![0.0f32; band_bins]; n_ds];
     let mut scratch: Vec<f32> = Vec::with_capacity(2 * time_margin + 1);
diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index f2d5661..011e17f 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -615,7 +615,7 @@ pub fn detect_key_multi_scale(
             continue;
         }
 
-        let hop = segment_hop_frames.max(1);
+        let hop = segment_hop_frames.min(chroma_vectors.len()).max(1);
         let mut start = 0usize;
 
         // Process all segments at this scale
@@ -753,7 +753,7 @@ pub fn detect_key_median(
     }
 
     let seg_len = segment_length_frames.min(chroma_vectors.len()).max(120); // Not a simple clamp: min first, then max
-    let hop = segment_hop_frames.max(1);
+    let hop = segment_hop_frames.min(chroma_vectors.len()).max(1);
     let min_seg = min_segments.max(1);
 
     // Detect key for each segment
diff --git a/src/features/onset/hpss.rs b/src/features/onset/hpss.rs
index e90c795..67b65a3 100644
--- a/src/features/onset/hpss.rs
+++ b/src/features/onset/hpss.rs
@@ -187,7 +187,7 @@ fn apply_horizontal_median_filter(spectrogram: &[Vec<f32>], margin: usize) -> Ve
         for frame_idx in 0..n_frames {
             // Collect values in window around current frame
             let start = frame_idx.saturating_sub(margin);
-            let end = (frame_idx + margin + 1).min(n_frames);
+            let end = frame_idx.saturating_add(margin).saturating_add(1).min(n_frames);
 
             let mut window: Vec<f32> = (start..end).map(|f| spectrogram[f][bin_idx]).collect();
 
@@ -221,7 +221,7 @@ fn apply_vertical_median_filter(spectrogram: &[Vec<f32>], margin: usize) -> Vec<
         for bin_idx in 0..n_bins {
             // Collect values in window around current bin
             let start = bin_idx.saturating_sub(margin);
-            let end = (bin_idx + margin + 1).min(n_bins);
+            let end = bin_idx.saturating_add(margin).saturating_add(1).min(n_bins);
 
             let mut window: Vec<f32> = (start..end).map(|b| spectrogram[frame_idx][b]).collect();
 
diff --git a/src/features/period/novelty.rs b/src/features/period/novelty.rs
index dc80cdb..3744b8f 100644
--- a/src/features/period/novelty.rs
+++ b/src/features/period/novelty.rs
@@ -93,7 +93,8 @@ impl MelFilterbank {
                 "Not enough FFT bins".to_string(),
             ));
         }
-        let n_mels = n_mels.max(4);
+        // More bands than this carry no information, but cost memory.
+        let n_mels = n_mels.clamp(4, 8192);
         let nyquist = sample_rate as f32 * 0.5;
         let fmin = fmin_hz.max(0.0).min(nyquist.max(1.0)); // Complex: max then min with another max
         let mut fmax = fmax_hz;
@@ -364,7 +365,7 @@ pub fn superflux_novelty(
         #[allow(clippy::needless_range_loop)]
         for b in 0..n_bins {
             let start = b.saturating_sub(k);
-            let end = (b + k + 1).min(n_bins);
+            let end = b.saturating_add(k).saturating_add(1).min(n_bins);
             let mut prev_max = 0.0f32;
             for v in &prev[start..end] {
                 prev_max = prev_max.max(*v);
@@ -431,7 +432,7 @@ pub fn superflux_novelty_band(
         #[allow(clippy::needless_range_loop)]
         for b in start..end {
             let local_start = b.saturating_sub(k).max(start);
-            let local_end = (b + k + 1).min(end);
+            let local_end = b.saturating_add(k).saturating_add(1).min(end);
             let mut prev_max = 0.0f32;
             for v in &prev[local_start..local_end] {
                 prev_max = prev_max.max(*v);
@@ -585,7 +586,7 @@ pub fn mel_superflux_novelty(
         #[allow(clippy::needless_range_loop)]
         for b in 0..n {
             let start = b.saturating_sub(k);
-            let end = (b + k + 1).min(n);
+            let end = b.saturating_add(k).saturating_add(1).min(n);
             let mut prev_max = 0.0f32;
             for v in &prev[start..end] {
                 prev_max = prev_max.max(*v);
-- 
2.43.0


From e33f7012ef7ae297bd5f3d15d8112c823bc410c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:23 +0000
Subject: [PATCH 21/25] fix: an extreme minor leading-tone bonus no longer
 makes the key confidence NaN

---
 src/features/key/detector.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index 011e17f..2962ac0 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -400,7 +400,8 @@ pub fn detect_key_weighted_mode_heuristic(
     // We do this *after* base scoring so we can keep the existing template code unchanged.
     let mut scores = base.all_scores.clone();
     if enable_minor_harmonic_bonus {
-        let w = minor_leading_tone_bonus_weight.max(0.0);
+        // Bounded, so that an extreme weight cannot turn scores (and the confidence) into NaN.
+        let w = minor_leading_tone_bonus_weight.max(0.0).min(1.0e6);
         if w > 0.0 {
             for (k, s) in scores.iter_mut() {
                 if let Key::Minor(tonic_u32) = *k {
-- 
2.43.0


From 21c1c1a89a3852b7fb9ebe948b6ff528a53b7310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:23 +0000
Subject: [PATCH 22/25] fix: measure the RMS level of long audio in double
 precision

---
 src/preprocessing/normalization.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/preprocessing/normalization.rs b/src/preprocessing/normalization.rs
index 5aca65f..df3bd67 100644
--- a/src/preprocessing/normalization.rs
+++ b/src/preprocessing/normalization.rs
@@ -300,7 +300,7 @@ fn normalize_peak(
     }
 
     // Calculate RMS for metadata
-    let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
+    let rms = mean_square(samples).sqrt();
     let rms_db = if rms > EPSILON {
         20.0 * rms.log10()
     } else {
@@ -321,6 +321,13 @@ fn normalize_peak(
     })
 }
 
+/// Mean of the squared samples, summed in double precision: in single precision the sum of a
+/// whole track stops growing long before its end.
+fn mean_square(samples: &[f32]) -> f32 {
+    let sum: f64 = samples.iter().map(|&x| f64::from(x) * f64::from(x)).sum();
+    (sum / samples.len() as f64) as f32
+}
+
 /// Normalize audio samples using RMS normalization
 fn normalize_rms(
     samples: &mut [f32],
@@ -334,7 +341,7 @@ fn normalize_rms(
     }
 
     // Calculate current RMS
-    let rms_sq = samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32;
+    let rms_sq = mean_square(samples);
     let rms = rms_sq.sqrt();
 
     if rms <= EPSILON {
@@ -440,7 +447,7 @@ fn normalize_lufs(
         }
 
         // Calculate RMS for metadata
-        let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
+        let rms = mean_square(samples).sqrt();
         let rms_db = if rms > EPSILON {
             20.0 * rms.log10()
         } else {
@@ -461,7 +468,7 @@ fn normalize_lufs(
     }
 
     // Calculate RMS for metadata
-    let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
+    let rms = mean_square(samples).sqrt();
     let rms_db = if rms > EPSILON {
         20.0 * rms.log10()
     } else {
-- 
2.43.0


From 6236c4edbd7a0983c3b8fc672c6d80b746c04937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:10 +0000
Subject: [PATCH 23/25] fix: honour enable_key_median

The switch and its segment settings are documented and exposed by the
analyze_file example, but analyze_audio never looked at them: key detection
ran as if the switch were off.
---
 src/features/key/mod.rs |  4 ++--
 src/lib.rs              | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/features/key/mod.rs b/src/features/key/mod.rs
index 5d04580..5739899 100644
--- a/src/features/key/mod.rs
+++ b/src/features/key/mod.rs
@@ -11,8 +11,8 @@ pub mod key_clarity;
 pub mod templates;
 
 pub use detector::{
-    detect_key, detect_key_ensemble, detect_key_multi_scale, detect_key_weighted,
-    detect_key_weighted_mode_heuristic,
+    detect_key, detect_key_ensemble, detect_key_median, detect_key_multi_scale,
+    detect_key_weighted, detect_key_weighted_mode_heuristic,
 };
 pub use key_changes::{detect_key_changes, KeyChange, KeyChangeResult};
 pub use key_clarity::compute_key_clarity;
diff --git a/src/lib.rs b/src/lib.rs
index a63a825..e2f8f5c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -984,8 +984,9 @@ pub fn analyze_audio(
         use features::chroma::normalization::sharpen_chroma;
         use features::chroma::smoothing::smooth_chroma;
         use features::key::{
-            compute_key_clarity, detect_key_ensemble, detect_key_multi_scale, detect_key_weighted,
-            detect_key_weighted_mode_heuristic, KeyDetectionResult, KeyTemplates,
+            compute_key_clarity, detect_key_ensemble, detect_key_median, detect_key_multi_scale,
+            detect_key_weighted, detect_key_weighted_mode_heuristic, KeyDetectionResult,
+            KeyTemplates,
         };
 
         // Key-only STFT override (optional): allow higher frequency resolution for key detection.
@@ -1335,6 +1336,16 @@ pub fn analyze_audio(
                             config.enable_key_minor_harmonic_bonus,
                             config.key_minor_leading_tone_bonus_weight,
                         )
+                    // Optional: median key (most common key across short overlapping segments).
+                    } else if config.enable_key_median {
+                        detect_key_median(
+                            chroma_slice,
+                            &templates,
+                            frame_weights.as_deref(),
+                            config.key_median_segment_length_frames,
+                            config.key_median_segment_hop_frames,
+                            config.key_median_min_segments,
+                        )
                     // Optional: segment voting (windowed detection + clarity-weighted score accumulation).
                     } else if config.enable_key_segment_voting
                         && chroma_slice.len() >= config.key_segment_len_frames.max(1)
-- 
2.43.0


From 726f0149fc4e20998aaf75edfc658f45d9ef7032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:56 +0000
Subject: [PATCH 24/25] fix: compare onset positions without narrowing them to
 32 bits

Positions past 2^31 samples (three hours at 192 kHz) overflowed the signed
32-bit difference: a panic with overflow checks, and without them onsets
2^32 samples apart were taken for the same one.
---
 src/features/onset/consensus.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/features/onset/consensus.rs b/src/features/onset/consensus.rs
index 2847473..59b3bd1 100644
--- a/src/features/onset/consensus.rs
+++ b/src/features/onset/consensus.rs
@@ -213,9 +213,7 @@ pub fn vote_onsets(
         for cluster in &mut clusters {
             // Check if this onset is within tolerance of any onset in the cluster
             for existing_onset in cluster.iter() {
-                if (onset.sample as i32 - existing_onset.sample as i32).unsigned_abs() as usize
-                    <= tolerance_samples
-                {
+                if onset.sample.abs_diff(existing_onset.sample) <= tolerance_samples {
                     cluster.push(onset);
                     added = true;
                     break;
-- 
2.43.0


From 13f38d3c309afd0e1140304fbb9704ddb152f913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:28 +0000
Subject: [PATCH 25/25] fix: reject a BPM resolution too fine to step through
 the tempo range

---
 src/features/period/comb_filter.rs        | 3 ++-
 src/features/period/tempogram_autocorr.rs | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/features/period/comb_filter.rs b/src/features/period/comb_filter.rs
index 9f604d5..8a6ee65 100644
--- a/src/features/period/comb_filter.rs
+++ b/src/features/period/comb_filter.rs
@@ -130,7 +130,8 @@ pub fn estimate_bpm_from_comb_filter(
         )));
     }
 
-    if bpm_resolution <= 0.0 {
+    // A step too small to change the BPM at this precision would never reach max_bpm
+    if bpm_resolution <= 0.0 || max_bpm + bpm_resolution <= max_bpm {
         return Err(crate::error::AnalysisError::InvalidInput(format!(
             "Invalid BPM resolution: {:.2}",
             bpm_resolution
diff --git a/src/features/period/tempogram_autocorr.rs b/src/features/period/tempogram_autocorr.rs
index 9489dad..3d734c2 100644
--- a/src/features/period/tempogram_autocorr.rs
+++ b/src/features/period/tempogram_autocorr.rs
@@ -109,10 +109,11 @@ pub fn autocorrelation_tempogram(
         )));
     }
 
-    if bpm_resolution <= 0.0 {
+    // A step too small to change the BPM at this precision would never reach max_bpm
+    if bpm_resolution <= 0.0 || max_bpm + bpm_resolution <= max_bpm {
         return Err(AnalysisError::InvalidInput(format!(
-            "BPM resolution must be > 0, got {}",
-            bpm_resolution
+            "BPM resolution must be > 0 and large enough to step up to {} BPM, got {}",
+            max_bpm, bpm_resolution
         )));
     }
 
-- 
2.43.0

