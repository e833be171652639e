#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

L = "src/lib.rs"
prop("C01", "Analysis always ends in a result or a reported error",
     "Analysing any sample buffer, at any sample rate, under any combination of feature switches and any tempo range between 10 and 600 BPM, terminates with a result or a reported error. It never panics, never overflows and never runs forever, even when single numbers of the configuration are zero, negative, huge or not a number; the same holds for every public stage of the library given finite arguments that describe audio of a plausible length, including empty and one-element ones.",
     ["inputs", "configurations"],
     "all sample buffers (empty, short, silent, constant, extreme, non-finite), all sample rates, all switch combinations",
     "The tests call the pipeline with a handful of well-behaved signals and near-default configurations; the panics live in the corners of the product of lengths, rates and switches.",
     [L, "src/features", "src/preprocessing"],
     [("input validation", "src/lib.rs analyze_audio (head)"), ("non-fatal stage handling", "src/lib.rs analyze_audio (consensus, tempogram, beat grid, key)"), ("empty/short guards", "every public stage function")],
     [("stage", "which pipeline stage the analysis is in", "src/lib.rs analyze_audio")],
     ["return value of analyze_audio and of every public stage function"])
prop("C02", "Unusable input is rejected with the documented error, usable input is not",
     "Empty audio, a zero sample rate, non-finite samples, an unusable tempo range or resolution, and arguments outside a stage's documented domain (thresholds, weights, tolerances, lengths, chroma dimensions) are each rejected with an invalid-input error, and audio that is entirely silent is rejected as a processing error. An analysis of finite, non-silent audio at a common sample rate under a meaningful configuration is never rejected, and a failure of an optional stage never turns into a failed analysis.",
     ["inputs", "configurations"],
     "every invalid argument class at every public entry point, crossed with otherwise valid inputs",
     "Tests check one invalid value for a few functions; which of several simultaneous faults wins and that nothing valid is refused are never tested.",
     [L, "src/error.rs", "src/features", "src/preprocessing"],
     [("guards at function entry", "all public stage functions"), ("error propagation", "src/lib.rs analyze_audio")],
     [], ["Err variant returned by each entry point"])
prop("C03", "Every reported score is finite and inside its documented range",
     "Whatever the audio and configuration, every number in a returned analysis and in the confidence report derived from it is finite; all confidences, clarity and stability lie in 0..1, pitch classes are 0..11, and times, durations and scores are non-negative. The same ranges hold for the values returned by the individual stages.",
     ["inputs", "configurations"], "all inputs and configurations for which a result is returned",
     "Range violations need particular score constellations (near ties, degenerate denominators, boosts) that the handful of tested signals do not produce.",
     [L, "src/analysis/result.rs", "src/analysis/confidence.rs", "src/features/key/key_clarity.rs", "src/features/period"],
     [("clamping", "src/analysis/confidence.rs, src/features/period/*, src/features/key/*"), ("guarded divisions", "src/features/*")],
     [], ["AnalysisResult, AnalysisConfidence, stage return values"])
prop("C04", "The tempo is absent or inside the configured range, its candidates ranked",
     "The reported BPM is either exactly 0 with zero confidence, or lies within the configured minimum and maximum. When tempo candidates are requested they are distinct, within the range, ordered by descending score, no more than the requested number, and the ones marked as selected agree with the tempogram's tempo; when they are not requested none are attached.",
     ["inputs", "configurations"], "all inputs, tempo ranges, resolutions and candidate limits",
     "Tests assert a loose BPM window on a few synthetic tracks under the default range only.",
     [L, "src/features/period/tempogram.rs", "src/features/period/candidate_filter.rs", "src/features/period/multi_resolution.rs"],
     [("range filtering and folding", "src/features/period/tempogram.rs"), ("candidate emission", "src/lib.rs analyze_audio")],
     [("candidates", "ranked tempo hypotheses", "src/analysis/result.rs TempoCandidateDebug")], ["AnalysisResult.bpm, metadata.tempogram_candidates"])
prop("C05", "A beat grid is strictly ordered, nested and inside the audio",
     "In every beat grid the beats are finite, non-negative, strictly increasing and at least about 50 ms apart, every downbeat is one of the beats, the bar starts are exactly the downbeats, and the first beat is a downbeat; each further beat is a downbeat exactly when it lies one bar (to within a tenth) after the last downbeat. The grid of an analysis lies within the analysed audio (up to one beat), is the one the onsets and the reported tempo give, and is empty with stability 0 whenever no tempo was found.",
     ["inputs", "histories"], "all onset sequences, tempi and audio inputs, constant and varying tempo",
     "Tests use perfectly regular onsets; the duplicates and disorder arise only from overlapping segments of varying tempo or irregular onsets.",
     ["src/features/beat_tracking/mod.rs", "src/features/beat_tracking/hmm.rs", L],
     [("sorting and de-duplication", "src/features/beat_tracking/mod.rs"), ("downbeat scan", "src/features/beat_tracking/mod.rs")],
     [("last downbeat", "time of the last accepted downbeat", "src/features/beat_tracking/mod.rs")], ["BeatGrid returned by generate_beat_grid and analyze_audio"])
prop("C06", "Beats sit on the tempo lattice exactly where the onsets support them",
     "With a constant tempo every reported beat lies on the lattice of beat periods anchored at the first onset and has an onset within about 50 ms, and every lattice point with an onset that close is reported. The stability of a grid is 1/(1+v), v being the coefficient of variation of the intervals between consecutive beats: 1 for perfectly even beats, lower the more they vary, independently of the tempo itself.",
     ["inputs"], "all tempi up to 300 BPM and all onset sequences (missing, extra, jittered, unsorted)",
     "Tests feed regular onsets and only compare counts or loose bounds.",
     ["src/features/beat_tracking/hmm.rs", "src/features/beat_tracking/mod.rs"],
     [("lattice construction and emission threshold", "src/features/beat_tracking/hmm.rs"), ("stability", "src/features/beat_tracking/mod.rs")],
     [("beat lattice", "start + k * 60/bpm", "src/features/beat_tracking/hmm.rs")], ["HmmBeatTracker::track_beats, generate_beat_grid"])
prop("C07", "Silence trimming removes exactly the leading and trailing silence",
     "Trimming returns a contiguous part of the input, bit for bit, from the end of the leading silence to the start of the trailing silence; no sample between the first and the last audible frame is ever dropped, and silence in the middle is kept. The reported silent regions are ordered, disjoint, non-empty, within the input and contain only frames at or below the threshold, and a trailing silence shorter than the minimum duration is kept.",
     ["inputs", "configurations"], "all signals, thresholds, frame sizes, minimum durations and sample rates",
     "Tests trim a few clean half-second pads; boundary frames, odd frame sizes and short gaps are not reached.",
     ["src/preprocessing/silence.rs", L], [("frame scan and region merge", "src/preprocessing/silence.rs")],
     [("current silent run", "start frame of the open silent run", "src/preprocessing/silence.rs")], ["return value of detect_and_trim"])
prop("C08", "Normalization applies one gain, reaches its target and never clips",
     "For a non-negative headroom, normalizing multiplies every sample by one and the same non-negative gain and reports that gain. Peak mode brings the peak to the headroom target, RMS and loudness modes reach their level target unless that would push the peak beyond the permitted ceiling, in which case the peak sits at the ceiling; the peak never exceeds full scale, and silent input is left untouched.",
     ["inputs", "configurations"], "all signals, targets, headrooms and methods",
     "Tests check single signals per method; the interplay of limit and target is only sampled at one point.",
     ["src/preprocessing/normalization.rs", L], [("gain limiting", "src/preprocessing/normalization.rs")], [], ["samples after normalize and returned metadata"])
prop("C09", "Channel mixing is exact, symmetric and length-preserving",
     "Mixing a stereo pair yields one sample per input pair: the average in the averaging modes, and the louder of the two samples (left on a tie) in dominant mode. Channels of different length are refused and mixing two equal channels returns that channel.",
     ["inputs"], "all pairs of channels, all modes",
     "Tests use fixed four-sample vectors.",
     ["src/preprocessing/channel_mixer.rs"], [("per-sample mix", "src/preprocessing/channel_mixer.rs")], [], ["return value of stereo_to_mono"])
prop("C10", "Onset consensus clusters, counts and weighs every method's vote exactly once",
     "Every onset proposed by any method belongs to exactly one consensus onset: onsets are grouped when neighbouring ones in time are within the tolerance, never otherwise. A consensus onset lies at the mean of its members, counts the distinct methods in it, has a confidence equal to the weight of its members relative to the total weight (at most 1), and the list is ordered by descending confidence.",
     ["inputs"], "all onset lists of all four methods, all weights and tolerances, in any input order",
     "Tests use at most a few onsets per method; chained clusters, duplicates and boundary distances are not reached.",
     ["src/features/onset/consensus.rs"], [("time-sorted clustering", "src/features/onset/consensus.rs"), ("weighted vote", "src/features/onset/consensus.rs")],
     [("open cluster", "members of the cluster being grown", "src/features/onset/consensus.rs")], ["return value of vote_onsets"])
prop("C11", "Onset detectors report ordered, in-range onsets exactly at rises",
     "Each detector reports strictly increasing positions inside the signal: exactly the local maxima of its rise measure (energy flux, spectral flux, high-frequency content, percussive energy) that exceed its threshold relative to the rest of the signal. A stationary or empty signal yields none, and scaling the whole signal or spectrum does not change the reported positions. The threshold helpers return the stated percentile, or the median plus the stated multiple of the median absolute deviation.",
     ["inputs", "configurations"], "all signals and spectrograms, thresholds and hop sizes",
     "Tests place a few clicks and check that something is found nearby.",
     ["src/features/onset/energy_flux.rs", "src/features/onset/spectral_flux.rs", "src/features/onset/hfc.rs", "src/features/onset/hpss.rs", "src/features/onset/threshold.rs"],
     [("peak picking", "each detector"), ("percentile threshold", "src/features/onset/threshold.rs")], [], ["return value of the four detectors"])
prop("C12", "Harmonic/percussive separation conserves the spectrogram",
     "Separating a magnitude spectrogram yields two parts of the original's shape, both non-negative and no larger than the original, that add up to it and that follow the documented median-filter refinement. A tone held through all frames goes to the harmonic part and an isolated broadband frame goes to the percussive part; the harmonic masks used for key detection never exceed the original.",
     ["inputs"], "all spectrogram shapes, contents and margins",
     "Tests check shape and one synthetic example.",
     ["src/features/onset/hpss.rs", "src/features/chroma/extractor.rs"], [("soft masks", "src/features/onset/hpss.rs")], [], ["return value of hpss_decompose and the harmonic mask helpers"])
prop("C13", "Merging tempo estimates is faithful: agreement boosts, octave errors folded",
     "Each onset-based method returns candidates inside the tempo range, ranked by confidence: autocorrelation counts the pairs of onsets one lag apart, the comb score is the share of expected beats that meet an onset. Every merged tempo comes from the estimates that were passed in (or an octave of one within the accepted range), agreement between the two methods never lowers its confidence, merged tempi are ordered by their effective confidence, and the final estimate's confidence lies in 0..1. Guardrails only rescale confidence by the multiplier of the band a tempo falls into, so a tempo in the preferred band is never demoted in favour of an equally confident one outside it.",
     ["inputs", "configurations"], "all candidate lists of both estimators and all guardrail settings",
     "Tests merge two or three hand-written candidates.",
     ["src/features/period/candidate_filter.rs", "src/features/period/mod.rs"], [("octave correction and grouping", "src/features/period/candidate_filter.rs"), ("guardrails", "src/features/period/mod.rs")], [], ["merge_bpm_candidates, estimate_bpm, estimate_bpm_with_guardrails"])
prop("C14", "The tempogram's tempo is its best-supported candidate",
     "Candidates of the tempogram are the strongest tempi of its lag-domain and frequency-domain tempograms and their simple metrical relatives inside the range; each scores by the documented blend of both (0.55 lag, 0.45 frequency) with the documented discounts above 180 and below 60 BPM. The estimate is the highest scoring candidate, except that a best candidate above 180 BPM is replaced by its half when the evidence allows; its confidence is its relative lead over the runner-up and its agreement count says how many of the two tempograms individually support it. Requesting the candidate list never changes the estimate, and the list repeats the same tempo as selected. The novelty curves and tempograms follow their definitions, for the whole spectrum, for each band and for mel bands.",
     ["inputs", "configurations"], "all spectrograms, tempo ranges, resolutions and list sizes",
     "Tests assert a BPM window on a periodic spectrogram.",
     ["src/features/period/tempogram.rs", "src/features/period/tempogram_autocorr.rs", "src/features/period/tempogram_fft.rs"], [("candidate scoring and folding", "src/features/period/tempogram.rs")], [], ["estimate_bpm_tempogram, estimate_bpm_tempogram_with_candidates"])
prop("C15", "The reported tempo comes from the configured source and no other",
     "By default the reported tempo is the tempogram's and the onset-based estimate is used only when the tempogram yields none; forcing the onset-based estimator reports exactly its estimate; in fusion mode the tempogram's tempo is never overridden, and the onset-based estimate only raises confidence when both agree up to a simple metrical ratio and lowers it otherwise. If no source yields a tempo, the tempo, its confidence and the grid are all empty.",
     ["inputs", "configurations", "fault_sequences"], "all combinations of source availability, agreement and source switches",
     "Tests run the default path on audio where all sources succeed; failure and disagreement of sources are never combined with the switches.",
     [L], [("source selection", "src/lib.rs analyze_audio (BPM selection)")],
     [("legacy, tempogram", "estimates of the two sources, possibly absent", "src/lib.rs analyze_audio")], ["AnalysisResult.bpm, bpm_confidence"])
prop("C16", "Escalation happens only on ambiguity and only when it wins",
     "Multi-resolution analysis is entered exactly for tempo estimates inside the known confusion zones, with a competing metrical relative or weak support, and its outcome replaces the base estimate exactly if it is sufficiently more confident or consistent; it never moves a tempo of 180 BPM or less above 180. The percussive fallback is triggered only in the low confusion zone, replaces the estimate only when enabled and better, and the flags reported for triggering and use tell the truth about what happened.",
     ["inputs", "configurations"], "all base estimates, candidate score constellations and escalation outcomes",
     "Tests never reach most of the gate's branches, and none looks at the reported flags.",
     [L, "src/features/period/multi_resolution.rs"], [("ambiguity gate and acceptance rule", "src/lib.rs analyze_audio"), ("hypothesis scoring", "src/features/period/multi_resolution.rs")],
     [("triggered, used", "reported escalation flags", "src/analysis/result.rs AnalysisMetadata")], ["metadata.tempogram_multi_res_*, metadata.tempogram_percussive_*"])
prop("C17", "Key notation is a bijection on 24 keys and parsing is total",
     "The 24 keys have 24 distinct names and 24 distinct numeric codes, writing a key and parsing it back returns the same key, and steps of the numeric code are fifths with relative keys distinct in letter. Any text that is not a code of a key, whatever characters it contains, is refused without failure.",
     ["inputs"], "all keys and all strings",
     "Tests list a few codes and a few malformed strings.",
     ["src/analysis/result.rs"], [("notation tables", "src/analysis/result.rs Key")], [], ["Key::name, Key::numerical, Key::from_numerical"])
prop("C18", "Key detection is equivariant, deterministic and picks the best-matching key",
     "The detected key is the head of a ranking of all 24 keys, each appearing once, in descending score order, the scores being the documented template match of the weighted chroma. Rotating all chroma frames by n semitones rotates the detected key and the whole ranking by n and leaves confidence unchanged; scaling the chroma, reordering frames together with their weights, or adding frames of zero weight leaves the key unchanged, and a chroma equal to a key's own profile is detected as that key. Segment voting, multi-scale, median and ensemble detection combine such detections as documented, and key clarity is the documented spread of the scores, in 0..1.",
     ["inputs", "configurations"], "all chroma sequences, frame weights, template sets and detection modes",
     "Tests use one or two hand-made chroma vectors per mode.",
     ["src/features/key/detector.rs", "src/features/key/templates.rs", "src/features/key/key_clarity.rs"], [("template matching", "src/features/key/detector.rs"), ("template rotation", "src/features/key/templates.rs")], [], ["KeyDetectionResult of all detection functions, compute_key_clarity"])
prop("C19", "Key-change tracking covers the track and reports exactly the changes",
     "Segments are in time order, of the requested length and hop, as many as fit into the track; a change is reported at exactly those segment boundaries where the detected key differs and the mean confidence of the two segments exceeds 0.2, with the keys before and after. The primary key is one that the most segments carry, the same on every run.",
     ["inputs", "configurations"], "all chroma sequences and segmentations",
     "Tests use one two-key sequence.",
     ["src/features/key/key_changes.rs"], [("segmentation and change rule", "src/features/key/key_changes.rs")], [], ["return value of detect_key_changes"])
prop("C20", "Chroma vectors are unit, non-negative and follow the pitch of the sound",
     "Every chroma vector has 12 non-negative entries and is either unit length or zero; smoothing, sharpening and normalising preserve shape and length and follow their definitions. A pure tone at a note's frequency (about 165 Hz to 2.1 kHz, given enough frequency resolution) puts the most weight on that note's pitch class, shifting the tone by n semitones shifts the chroma by n, and the spectrogram has the frame count the frame and hop sizes imply and the magnitudes of the windowed transform. Harmonic masks, log-frequency conversion, harmonic pitch-class profiles, beat-synchronous averaging and tuning estimation follow their definitions.",
     ["inputs", "configurations"], "all signals, notes, octaves and chroma options",
     "Tests check A440 and a few vectors.",
     ["src/features/chroma/extractor.rs", "src/features/chroma/normalization.rs", "src/features/chroma/smoothing.rs"], [("bin to pitch-class mapping", "src/features/chroma/extractor.rs"), ("normalisation", "src/features/chroma/normalization.rs")], [], ["compute_stft, extract_chroma*, smooth_*, sharpen_chroma"])
prop("C21", "The confidence report follows its documented table",
     "The confidence report is a function of the analysis alone: tempo and key confidence are zero when the respective detection failed, are only ever lowered (by low clarity and by warnings that concern them), the overall value is the documented weighting of what is available, and as long as both a tempo and a key were found a lower input never yields a higher overall value. The flags are those of the analysis plus the ones its low values call for, and exactly one of the levels high, medium and low applies.",
     ["inputs"], "all results, warning texts and flags",
     "Tests probe a dozen points; monotonicity and the boundaries between the cases are not probed.",
     ["src/analysis/confidence.rs"], [("weighting and flagging", "src/analysis/confidence.rs")], [], ["compute_confidence, AnalysisConfidence methods"])
prop("C22", "Warnings, flags and metadata tell the truth about the result",
     "A warning or flag is attached exactly when its condition holds in the very result it is attached to: no tempo, unstable grid, low key confidence, low key clarity, and a warning that quotes a value quotes that result's. Duration is that of the audio left after trimming, the sample rate is the one passed in, the method list and version are the fixed ones, and the reported candidate and escalation details are those of this analysis.",
     ["inputs", "configurations"], "all analyses",
     "Tests look at warnings of one or two signals.",
     [L, "src/analysis/metadata.rs"], [("result assembly", "src/lib.rs analyze_audio (tail)")], [], ["AnalysisResult.metadata"])
prop("C23", "Analyses are deterministic and independent of each other",
     "Analysing the same samples with the same configuration gives the same result every time: whatever was analysed before, however many analyses run at the same time and in which order they are scheduled, and whichever thread they run on. Analysing does not modify its input.",
     ["schedules", "histories"], "all interleavings of concurrent analyses, all histories of previous analyses",
     "Tests run each analysis once, in one process history.",
     [L, "src/features", "examples/analyze_batch.rs"], [("absence of shared mutable state", "whole crate"), ("order-independent tie breaking", "src/features/key/detector.rs")], [], ["AnalysisResult of repeated and concurrent runs"])
prop("C24", "The adaptive tempo tracker stays near its evidence and never loses history",
     "Each successful update moves the tempo to the best-supported candidate between max(current - 5, 60) and min(current + 5, 180) BPM (and leaves it when that range is empty), appends exactly the new tempo to the history and sets a confidence in 0..1; a refused update (no onsets or an unusable tempo) changes nothing. Repeated updates with onsets at a steady tempo inside reach converge to that tempo and then stay there.",
     ["histories"], "all sequences of updates",
     "Tests make one or two updates.",
     ["src/features/beat_tracking/bayesian.rs"], [("posterior maximisation", "src/features/beat_tracking/bayesian.rs")],
     [("current tempo, confidence, history", "tracker state", "src/features/beat_tracking/bayesian.rs BayesianBeatTracker")], ["BayesianBeatTracker API"])
prop("C25", "Tempo segments and meter describe the beats they were given",
     "Tempo segments are windows of 4 to 8 seconds overlapping by half, in order, from the first to the last beat; every window with at least three beats yields a segment that carries the tempo and confidence of the beats inside it, and variation is reported exactly when some segment varies. Evenly spaced beats are 4/4 and never reported as varying; fewer than eight beats are 4/4, and the meter is 4/4 unless another supported one fits the beats noticeably better.",
     ["inputs"], "all beat sequences",
     "Tests use three hand-made sequences.",
     ["src/features/beat_tracking/tempo_variation.rs", "src/features/beat_tracking/time_signature.rs"], [("segmentation", "src/features/beat_tracking/tempo_variation.rs"), ("meter scoring", "src/features/beat_tracking/time_signature.rs")], [], ["detect_tempo_variations, has_tempo_variation, detect_time_signature"])
prop("C26", "Steady rhythmic audio yields its tempo and its tonic",
     "For a steady, clearly audible click track of nine seconds or more with a tempo of 70 to 170 BPM, analysed by the tempogram, the reported tempo is within 5% of the true one, its half or its double, and a sustained triad under the clicks is reported with its root as the tonic. The same holds when the overall level changes and when silence is put before and after the audio, which is trimmed away.",
     ["inputs", "configurations"], "tempi, levels, sample rates, silence padding and chords laid under the clicks",
     "Tests use 120 and 128 BPM fixtures only.",
     [L, "src/features/period", "src/features/beat_tracking", "src/features/key"], [("whole pipeline", "src/lib.rs analyze_audio")], [], ["AnalysisResult"])
prop("C27", "The reported key is the one the configured key route yields",
     "The key, its confidence and its clarity in an analysis are those of the stages the configuration selects: spectrogram (the shared one or one of its own resolution), conditioning (harmonic mask, time mask or smoothing), frequency axis, tuning compensation, chroma extraction (plain, harmonic profile, bass blend, beat-synchronous), sharpening, smoothing, edge trimming, frame weighting, and detection (single, segment voting, multi-scale, median, ensemble). Switches that a stronger one overrules have no effect, and audio shorter than one frame has no key: C major with zero confidence and clarity.",
     ["inputs", "configurations"], "all combinations of the key switches, all audio",
     "The switches are two dozen; tests run the default combination.",
     [L, "src/features/key", "src/features/chroma"], [("route selection", "src/lib.rs analyze_audio (key detection)")], [("route", "the stages chosen by the switches", "src/lib.rs analyze_audio")], ["AnalysisResult.key, key_confidence, key_clarity"])
prop("C28", "Multi-resolution fusion reports the best-supported metrical level",
     "Fusing the candidates of the three resolutions weighs, around every candidate of the middle one, the tempo, its double and its half by the documented weights and discounts, leaves the candidate only for a rival that leads by the margin, and reports the strongest hypothesis inside the range; it folds a tempo of 170 or more down, one of 80 or less up, or to a triplet relative, only with the documented support of the resolutions and alignment to the pulse. Its confidence is the relative lead over the runner-up, its agreement the number of resolutions that support the tempo, and its list is the middle resolution's with exactly the tempi near the result marked. Reading one spectrogram at three hop sizes averages agreeing tempi and otherwise reports the most confident.",
     ["inputs", "configurations"], "all audio, weights, margins, tempo ranges and candidate constellations",
     "Tests call the fusion on one spectrogram and accept any outcome.",
     ["src/features/period/multi_resolution.rs"], [("hypothesis scoring, folds, family search", "src/features/period/multi_resolution.rs")], [("hypotheses", "tempo and score per candidate", "src/features/period/multi_resolution.rs")], ["multi_resolution_tempogram_from_samples, multi_resolution_analysis"])
prop("C29", "A stored result is the result that was reported",
     "Every analysis result written as JSON and read back is the same result: no field is lost, renamed or altered.",
     ["inputs", "configurations"], "all results of all analyses",
     "Tests never store a result.",
     ["src/analysis/result.rs"], [("serde derivations", "src/analysis/result.rs")], [], ["AnalysisResult serialised and deserialised"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
