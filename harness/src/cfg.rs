//! Configuration generator: default configuration plus a list of named mutations.
use crate::rng::Rng;
use stratum_dsp::features::key::templates::TemplateSet;
use stratum_dsp::preprocessing::normalization::NormalizationMethod;
use stratum_dsp::AnalysisConfig;

type Mutator = (&'static str, fn(&mut AnalysisConfig, &mut Rng));

thread_local! { static FORCED: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) }; }
/// One of the values, or the forced one when the fields are enumerated.
fn odd_of<T: Copy>(r: &mut Rng, xs: &[T]) -> T { match FORCED.with(|f| f.get()) { Some(k) => xs[k % xs.len()], None => *r.pick(xs) } }
pub const VALUES: usize = 16;
fn odd_f(r: &mut Rng) -> f32 {
    odd_of(r, &[0.0, -0.0, -1.0, 1.0, 0.5, 2.0, 1e-9, 1e9, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 100.0, -100.0, 1e-3, f32::MAX, -1e30])
}
fn odd_u(r: &mut Rng) -> usize { odd_of(r, &[0usize, 1, 2, 3, 5, 7, 16, 64, 100, 257, 1000, 4096, 100_000, 1 << 32, usize::MAX / 2, usize::MAX]) }

macro_rules! fset { ($n:literal, $f:ident) => { ($n, |c: &mut AnalysisConfig, r: &mut Rng| c.$f = odd_f(r)) }; }
macro_rules! uset { ($n:literal, $f:ident) => { ($n, |c: &mut AnalysisConfig, r: &mut Rng| c.$f = odd_u(r)) }; }
macro_rules! flip { ($n:literal, $f:ident) => { ($n, |c: &mut AnalysisConfig, _r: &mut Rng| c.$f = !c.$f) }; }

/// Switches: any combination is meaningful.
pub fn flips() -> Vec<Mutator> {
    vec![
        flip!("enable_normalization", enable_normalization),
        flip!("enable_silence_trimming", enable_silence_trimming),
        flip!("enable_onset_consensus", enable_onset_consensus),
        flip!("enable_hpss_onsets", enable_hpss_onsets),
        flip!("force_legacy_bpm", force_legacy_bpm),
        flip!("enable_bpm_fusion", enable_bpm_fusion),
        flip!("enable_legacy_bpm_guardrails", enable_legacy_bpm_guardrails),
        flip!("enable_tempogram_multi_resolution", enable_tempogram_multi_resolution),
        flip!("tempogram_multi_res_use_human_prior", tempogram_multi_res_use_human_prior),
        flip!("enable_tempogram_percussive_fallback", enable_tempogram_percussive_fallback),
        flip!("enable_tempogram_band_fusion", enable_tempogram_band_fusion),
        flip!("tempogram_band_seed_only", tempogram_band_seed_only),
        flip!("enable_tempogram_mel_novelty", enable_tempogram_mel_novelty),
        flip!("emit_tempogram_candidates", emit_tempogram_candidates),
        flip!("soft_chroma_mapping", soft_chroma_mapping),
        flip!("enable_key_spectrogram_time_smoothing", enable_key_spectrogram_time_smoothing),
        flip!("enable_key_frame_weighting", enable_key_frame_weighting),
        flip!("enable_key_harmonic_mask", enable_key_harmonic_mask),
        flip!("enable_key_hpss_harmonic", enable_key_hpss_harmonic),
        flip!("enable_key_stft_override", enable_key_stft_override),
        flip!("enable_key_log_frequency", enable_key_log_frequency),
        flip!("enable_key_beat_synchronous", enable_key_beat_synchronous),
        flip!("enable_key_multi_scale", enable_key_multi_scale),
        flip!("enable_key_ensemble", enable_key_ensemble),
        flip!("enable_key_median", enable_key_median),
        flip!("enable_key_tuning_compensation", enable_key_tuning_compensation),
        flip!("enable_key_edge_trim", enable_key_edge_trim),
        flip!("enable_key_segment_voting", enable_key_segment_voting),
        flip!("enable_key_mode_heuristic", enable_key_mode_heuristic),
        flip!("enable_key_hpcp", enable_key_hpcp),
        flip!("enable_key_hpcp_whitening", enable_key_hpcp_whitening),
        flip!("enable_key_hpcp_bass_blend", enable_key_hpcp_bass_blend),
        flip!("enable_key_minor_harmonic_bonus", enable_key_minor_harmonic_bonus),
        ("template_temperley", |c, _| c.key_template_set = TemplateSet::Temperley),
        ("norm_rms", |c, _| c.normalization = NormalizationMethod::RMS),
        ("norm_lufs", |c, _| c.normalization = NormalizationMethod::Loudness),
        ("norm_peak", |c, _| c.normalization = NormalizationMethod::Peak),
        ("short_segments", |c, _| { c.key_segment_len_frames = 120; c.key_segment_hop_frames = 60; }),
        ("short_scales", |c, _| { c.key_multi_scale_lengths = vec![20, 60]; c.key_multi_scale_hop = 10; }),
        ("scale_weights", |c, _| c.key_multi_scale_weights = vec![0.5, 0.0]),
    ]
}

/// Numeric fields set to ordinary in-domain values.
pub fn sane() -> Vec<Mutator> {
    vec![
        ("frame_size", |c, r| { c.frame_size = *r.pick(&[256, 512, 1024, 2048, 4096, 1000]); }),
        ("hop_size", |c, r| { c.hop_size = *r.pick(&[64, 128, 256, 512, 1024, 441]); }),
        ("key_stft", |c, r| { c.key_stft_frame_size = *r.pick(&[512, 2048, 8192]); c.key_stft_hop_size = *r.pick(&[256, 512, 1024]); }),
        ("bpm_range", |c, r| { c.min_bpm = r.fr(30.0, 90.0); c.max_bpm = c.min_bpm + r.fr(20.0, 150.0); }),
        ("bpm_res", |c, r| { c.bpm_resolution = *r.pick(&[0.5, 1.0, 2.0]); }),
        ("percentile", |c, r| { c.onset_threshold_percentile = r.f(); }),
        ("tolerance", |c, r| { c.onset_consensus_tolerance_ms = r.us(1, 200) as u32; }),
        ("min_amp", |c, r| { c.min_amplitude_db = r.fr(-80.0, -10.0); }),
        ("sharpen", |c, r| { c.chroma_sharpening_power = r.fr(1.0, 3.0); }),
        ("margin", |c, r| { c.hpss_margin = r.us(1, 15); }),
        ("top_n", |c, r| { c.tempogram_candidates_top_n = r.us(0, 40); }),
        ("top_k", |c, r| { c.tempogram_multi_res_top_k = r.us(0, 40); }),
        ("weights", |c, r| { for w in c.onset_consensus_weights.iter_mut() { *w = r.f(); } }),
    ]
}

/// Every number given another ordinary value (the scale of the documented defaults).
pub fn ordinary() -> Vec<Mutator> {
    vec![
        ("amplitude", |c, r| c.min_amplitude_db = r.fr(-60.0, -25.0)),
        ("percentile", |c, r| c.onset_threshold_percentile = r.fr(0.5, 0.95)),
        ("tolerance", |c, r| c.onset_consensus_tolerance_ms = r.us(10, 120) as u32),
        ("votes", |c, r| for w in c.onset_consensus_weights.iter_mut() { *w = r.f(); }),
        ("hpss_margin", |c, r| c.hpss_margin = r.us(1, 8)),
        ("mr_weights", |c, r| { c.tempogram_multi_res_w512 = r.fr(0.1, 0.8); c.tempogram_multi_res_w256 = r.fr(0.1, 0.8); c.tempogram_multi_res_w1024 = r.fr(0.1, 0.8); }),
        ("mr_discount", |c, r| { c.tempogram_multi_res_structural_discount = r.fr(0.3, 1.0); c.tempogram_multi_res_double_time_512_factor = r.fr(0.3, 1.2); }),
        ("mr_margin", |c, r| c.tempogram_multi_res_margin_threshold = r.fr(0.0, 0.2)),
        ("mr_top_k", |c, r| c.tempogram_multi_res_top_k = *r.pick(&[1usize, 2, 4, 15, 40])),
        ("bands_hz", |c, r| { c.tempogram_band_low_max_hz = r.fr(80.0, 500.0); c.tempogram_band_mid_max_hz = r.fr(600.0, 2500.0); c.tempogram_band_high_max_hz = *r.pick(&[0.0f32, 2600.0, 3500.0, 8000.0]); }),
        ("bands_w", |c, r| { c.tempogram_band_w_full = r.f(); c.tempogram_band_w_low = r.f(); c.tempogram_band_w_mid = r.f(); c.tempogram_band_w_high = r.f(); c.tempogram_band_seed_only = false; }),
        ("band_seed", |c, _| c.tempogram_band_seed_only = !c.tempogram_band_seed_only),
        ("band_support", |c, r| { c.tempogram_band_support_threshold = r.f(); c.tempogram_band_consensus_bonus = r.fr(0.02, 0.5); }),
        ("novelty_w", |c, r| { c.tempogram_novelty_w_spectral = r.f(); c.tempogram_novelty_w_energy = r.f(); c.tempogram_novelty_w_hfc = r.f(); }),
        ("novelty_win", |c, r| { c.tempogram_novelty_local_mean_window = r.us(4, 40); c.tempogram_novelty_smooth_window = r.us(0, 9); }),
        ("mel", |c, r| { c.tempogram_mel_n_mels = r.us(12, 60); c.tempogram_mel_fmin_hz = r.fr(0.0, 200.0); c.tempogram_mel_fmax_hz = *r.pick(&[0.0f32, 2000.0, 3500.0, 8000.0]); }),
        ("mel_filter", |c, r| { c.tempogram_mel_max_filter_bins = r.us(0, 5); c.tempogram_mel_weight = r.f(); }),
        ("superflux", |c, r| c.tempogram_superflux_max_filter_bins = r.us(0, 9)),
        ("legacy_range", |c, r| { c.legacy_bpm_preferred_min = r.fr(65.0, 100.0); c.legacy_bpm_preferred_max = r.fr(110.0, 170.0); c.legacy_bpm_soft_min = r.fr(45.0, 64.0); c.legacy_bpm_soft_max = r.fr(172.0, 220.0); }),
        ("legacy_mul", |c, r| { c.legacy_bpm_conf_mul_preferred = r.fr(0.8, 1.5); c.legacy_bpm_conf_mul_soft = r.fr(0.3, 1.0); c.legacy_bpm_conf_mul_extreme = r.fr(0.0, 0.5); }),
        ("bpm_range", |c, r| { c.min_bpm = r.fr(30.0, 90.0); c.max_bpm = c.min_bpm + r.fr(20.0, 150.0); }),
        ("bpm_narrow", |c, r| { c.min_bpm = r.fr(50.0, 180.0); c.max_bpm = c.min_bpm + r.fr(1.0, 10.0); }),
        ("bpm_res", |c, r| c.bpm_resolution = *r.pick(&[0.25f32, 0.5, 2.0, 3.0])),
        ("sigma", |c, r| c.soft_mapping_sigma = r.fr(0.2, 1.0)),
        ("sharpen", |c, r| if c.chroma_sharpening_power > 1.0 { c.chroma_sharpening_power = r.fr(1.05, 3.0); }),
        ("smooth", |c, r| c.key_spectrogram_smooth_margin = r.us(1, 20)),
        ("weights", |c, r| { c.key_min_tonalness = r.fr(0.0, 0.3); c.key_tonalness_power = r.fr(0.0, 4.0); c.key_energy_power = r.fr(0.0, 2.0); }),
        ("mask", |c, r| { c.key_harmonic_mask_power = r.fr(1.0, 4.0); c.key_hpss_mask_power = r.fr(1.0, 4.0); }),
        ("key_hpss", |c, r| { c.key_hpss_frame_step = r.us(1, 8); c.key_hpss_time_margin = r.us(1, 6); c.key_hpss_freq_margin = r.us(1, 6); }),
        ("key_stft", |c, r| { c.key_stft_frame_size = *r.pick(&[100usize, 256, 512, 700, 8192]); c.key_stft_hop_size = *r.pick(&[128usize, 300, 1024]); }),
        ("ensemble", |c, r| { c.key_ensemble_kk_weight = r.f(); c.key_ensemble_temperley_weight = r.f(); }),
        ("scales", |c, r| { c.key_multi_scale_lengths = (0..r.us(1, 4)).map(|_| r.us(10, 250)).collect(); c.key_multi_scale_hop = r.us(5, 80); c.key_multi_scale_weights = if r.chance(1, 2) { vec![] } else { c.key_multi_scale_lengths.iter().map(|_| r.f()).collect() }; }),
        ("scale_clarity", |c, r| c.key_multi_scale_min_clarity = r.f()),
        ("tuning", |c, r| { c.key_tuning_max_abs_semitones = r.fr(0.02, 0.5); c.key_tuning_frame_step = r.us(1, 30); c.key_tuning_peak_rel_threshold = r.fr(0.1, 0.8); }),
        ("edge", |c, r| c.key_edge_trim_fraction = r.us(0, 55) as f32 / 100.0),
        ("segments", |c, r| { c.key_segment_len_frames = r.us(110, 300); c.key_segment_hop_frames = r.us(1, 300); c.key_segment_min_clarity = r.f(); }),
        ("mode", |c, r| { c.key_mode_third_ratio_margin = r.fr(0.0, 0.4); c.key_mode_flip_min_score_ratio = r.fr(0.2, 1.0); }),
        ("peaks", |c, r| { c.key_hpcp_peaks_per_frame = r.us(3, 40); c.key_hpcp_num_harmonics = r.us(1, 8); c.key_hpcp_harmonic_decay = r.fr(0.2, 0.95); c.key_hpcp_mag_power = r.fr(0.3, 1.5); }),
        ("whitening", |c, r| { c.enable_key_hpcp_whitening = true; c.key_hpcp_whitening_smooth_bins = r.us(3, 60); }),
        ("bass", |c, r| { c.key_hpcp_bass_fmin_hz = r.fr(30.0, 120.0); c.key_hpcp_bass_fmax_hz = r.fr(150.0, 600.0); c.key_hpcp_bass_weight = r.f(); }),
        ("leading", |c, r| c.key_minor_leading_tone_bonus_weight = r.fr(0.0, 1.0)),
        ("median", |c, r| { c.key_median_segment_length_frames = r.us(1, 200); c.key_median_segment_hop_frames = r.us(0, 120); c.key_median_min_segments = r.us(0, 8); }),
        ("templates", |c, _| c.key_template_set = TemplateSet::Temperley),
    ]
}

/// Numeric fields set to arbitrary (also meaningless) values.
pub fn odd() -> Vec<Mutator> {
    vec![
        fset!("min_amplitude_db", min_amplitude_db),
        fset!("onset_threshold_percentile", onset_threshold_percentile),
        ("onset_consensus_tolerance_ms", |c, r| c.onset_consensus_tolerance_ms = odd_of(r, &[0, 1, 1000, 100000, u32::MAX])),
        ("onset_consensus_weights", |c, r| { let i = r.us(0, 3); c.onset_consensus_weights[i] = odd_f(r); }),
        ("zero_weights", |c, _| c.onset_consensus_weights = [0.0; 4]),
        uset!("hpss_margin", hpss_margin),
        uset!("tempogram_multi_res_top_k", tempogram_multi_res_top_k),
        fset!("tempogram_multi_res_w512", tempogram_multi_res_w512),
        fset!("tempogram_multi_res_w256", tempogram_multi_res_w256),
        fset!("tempogram_multi_res_w1024", tempogram_multi_res_w1024),
        fset!("tempogram_multi_res_structural_discount", tempogram_multi_res_structural_discount),
        fset!("tempogram_multi_res_double_time_512_factor", tempogram_multi_res_double_time_512_factor),
        fset!("tempogram_multi_res_margin_threshold", tempogram_multi_res_margin_threshold),
        fset!("tempogram_band_low_max_hz", tempogram_band_low_max_hz),
        fset!("tempogram_band_mid_max_hz", tempogram_band_mid_max_hz),
        fset!("tempogram_band_high_max_hz", tempogram_band_high_max_hz),
        fset!("tempogram_band_w_full", tempogram_band_w_full),
        fset!("tempogram_band_w_low", tempogram_band_w_low),
        fset!("tempogram_band_w_mid", tempogram_band_w_mid),
        fset!("tempogram_band_w_high", tempogram_band_w_high),
        fset!("tempogram_band_support_threshold", tempogram_band_support_threshold),
        fset!("tempogram_band_consensus_bonus", tempogram_band_consensus_bonus),
        fset!("tempogram_novelty_w_spectral", tempogram_novelty_w_spectral),
        fset!("tempogram_novelty_w_energy", tempogram_novelty_w_energy),
        fset!("tempogram_novelty_w_hfc", tempogram_novelty_w_hfc),
        uset!("tempogram_novelty_local_mean_window", tempogram_novelty_local_mean_window),
        uset!("tempogram_novelty_smooth_window", tempogram_novelty_smooth_window),
        uset!("tempogram_mel_n_mels", tempogram_mel_n_mels),
        fset!("tempogram_mel_fmin_hz", tempogram_mel_fmin_hz),
        fset!("tempogram_mel_fmax_hz", tempogram_mel_fmax_hz),
        uset!("tempogram_mel_max_filter_bins", tempogram_mel_max_filter_bins),
        fset!("tempogram_mel_weight", tempogram_mel_weight),
        uset!("tempogram_superflux_max_filter_bins", tempogram_superflux_max_filter_bins),
        uset!("tempogram_candidates_top_n", tempogram_candidates_top_n),
        fset!("legacy_bpm_preferred_min", legacy_bpm_preferred_min),
        fset!("legacy_bpm_preferred_max", legacy_bpm_preferred_max),
        fset!("legacy_bpm_soft_min", legacy_bpm_soft_min),
        fset!("legacy_bpm_soft_max", legacy_bpm_soft_max),
        fset!("legacy_bpm_conf_mul_preferred", legacy_bpm_conf_mul_preferred),
        fset!("legacy_bpm_conf_mul_soft", legacy_bpm_conf_mul_soft),
        fset!("legacy_bpm_conf_mul_extreme", legacy_bpm_conf_mul_extreme),
        ("min_bpm", |c, r| c.min_bpm = odd_of(r, &[-1.0, 0.0, 10.0, 39.0, 239.0, 240.0, 300.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY])),
        ("max_bpm", |c, r| c.max_bpm = odd_of(r, &[-1.0, 0.0, 39.0, 40.0, 41.0, 300.0, 600.0, f32::NAN, f32::NEG_INFINITY])),
        ("bpm_resolution", |c, r| c.bpm_resolution = odd_of(r, &[-1.0, 0.0, 1e-9, 1e-30, 0.1, 0.25, 5.0, 100.0, 1000.0, f32::NEG_INFINITY])),
        uset!("frame_size", frame_size),
        uset!("hop_size", hop_size),
        fset!("center_frequency", center_frequency),
        fset!("soft_mapping_sigma", soft_mapping_sigma),
        fset!("chroma_sharpening_power", chroma_sharpening_power),
        uset!("key_spectrogram_smooth_margin", key_spectrogram_smooth_margin),
        fset!("key_min_tonalness", key_min_tonalness),
        fset!("key_tonalness_power", key_tonalness_power),
        fset!("key_energy_power", key_energy_power),
        fset!("key_harmonic_mask_power", key_harmonic_mask_power),
        uset!("key_hpss_frame_step", key_hpss_frame_step),
        uset!("key_hpss_time_margin", key_hpss_time_margin),
        uset!("key_hpss_freq_margin", key_hpss_freq_margin),
        fset!("key_hpss_mask_power", key_hpss_mask_power),
        uset!("key_stft_frame_size", key_stft_frame_size),
        uset!("key_stft_hop_size", key_stft_hop_size),
        fset!("key_ensemble_kk_weight", key_ensemble_kk_weight),
        fset!("key_ensemble_temperley_weight", key_ensemble_temperley_weight),
        ("key_multi_scale_lengths", |c, r| c.key_multi_scale_lengths = (0..r.us(0, 3)).map(|_| odd_u(r)).collect()),
        uset!("key_multi_scale_hop", key_multi_scale_hop),
        fset!("key_multi_scale_min_clarity", key_multi_scale_min_clarity),
        ("key_multi_scale_weights", |c, r| c.key_multi_scale_weights = (0..r.us(0, 3)).map(|_| odd_f(r)).collect()),
        fset!("key_tuning_max_abs_semitones", key_tuning_max_abs_semitones),
        uset!("key_tuning_frame_step", key_tuning_frame_step),
        fset!("key_tuning_peak_rel_threshold", key_tuning_peak_rel_threshold),
        fset!("key_edge_trim_fraction", key_edge_trim_fraction),
        uset!("key_segment_len_frames", key_segment_len_frames),
        uset!("key_segment_hop_frames", key_segment_hop_frames),
        fset!("key_segment_min_clarity", key_segment_min_clarity),
        fset!("key_mode_third_ratio_margin", key_mode_third_ratio_margin),
        fset!("key_mode_flip_min_score_ratio", key_mode_flip_min_score_ratio),
        uset!("key_hpcp_peaks_per_frame", key_hpcp_peaks_per_frame),
        uset!("key_hpcp_num_harmonics", key_hpcp_num_harmonics),
        fset!("key_hpcp_harmonic_decay", key_hpcp_harmonic_decay),
        fset!("key_hpcp_mag_power", key_hpcp_mag_power),
        uset!("key_hpcp_whitening_smooth_bins", key_hpcp_whitening_smooth_bins),
        fset!("key_hpcp_bass_fmin_hz", key_hpcp_bass_fmin_hz),
        fset!("key_hpcp_bass_fmax_hz", key_hpcp_bass_fmax_hz),
        fset!("key_hpcp_bass_weight", key_hpcp_bass_weight),
        fset!("key_minor_leading_tone_bonus_weight", key_minor_leading_tone_bonus_weight),
        uset!("key_median_segment_length_frames", key_median_segment_length_frames),
        uset!("key_median_segment_hop_frames", key_median_segment_hop_frames),
        uset!("key_median_min_segments", key_median_min_segments),
        ("debug_gt_bpm", |c, r| { c.debug_track_id = Some(7); c.debug_gt_bpm = Some(odd_f(r)); }),
        ("debug_top_n", |c, r| { c.debug_track_id = Some(7); c.debug_top_n = odd_u(r); }),
    ]
}

pub fn apply(c: &mut AnalysisConfig, pool: &[Mutator], r: &mut Rng, k: usize, names: &mut Vec<String>) {
    for _ in 0..k {
        let (n, f) = *r.pick(pool);
        f(c, r);
        names.push(n.to_string());
    }
}

/// The k-th value of one odd field.
pub fn apply_one(c: &mut AnalysisConfig, field: usize, k: usize, r: &mut Rng) -> &'static str {
    let (n, f) = odd()[field];
    FORCED.with(|x| x.set(Some(k)));
    f(c, r);
    FORCED.with(|x| x.set(None));
    n
}
/// Switch on what makes the named field matter.
pub fn arm(n: &str, c: &mut AnalysisConfig) {
    let on = |p: &str| n.starts_with(p);
    if on("key_tuning") { c.enable_key_tuning_compensation = true; }
    if on("key_hpcp") { c.enable_key_hpcp = true; }
    if on("key_hpcp_whit") { c.enable_key_hpcp_whitening = true; }
    if on("key_hpcp_bass") { c.enable_key_hpcp_bass_blend = true; }
    if on("key_segment") { c.enable_key_segment_voting = true; c.enable_key_median = false; c.enable_key_multi_scale = false; c.enable_key_ensemble = false;
        if n != "key_segment_len_frames" { c.key_segment_len_frames = 120; } if n != "key_segment_hop_frames" { c.key_segment_hop_frames = 30; } }
    if on("key_multi_scale") { c.enable_key_multi_scale = true; if n != "key_multi_scale_lengths" { c.key_multi_scale_lengths = vec![20, 60]; } if n != "key_multi_scale_hop" { c.key_multi_scale_hop = 10; } }
    if on("key_median") { c.enable_key_median = true; if n != "key_median_segment_length_frames" { c.key_median_segment_length_frames = 120; } if n != "key_median_segment_hop_frames" { c.key_median_segment_hop_frames = 30; } }
    if on("key_hpss") { c.enable_key_hpss_harmonic = true; }
    if on("key_harmonic") { c.enable_key_harmonic_mask = true; c.enable_key_hpss_harmonic = false; }
    if on("key_stft") { c.enable_key_stft_override = true; }
    if on("key_ensemble") { c.enable_key_ensemble = true; }
    if on("key_edge") { c.enable_key_edge_trim = true; }
    if on("key_mode") { c.enable_key_mode_heuristic = true; }
    if on("key_minor") { c.enable_key_minor_harmonic_bonus = true; }
    if on("key_min_tonalness") || on("key_tonalness") || on("key_energy") { c.enable_key_frame_weighting = true; }
    if on("key_spectrogram") { c.enable_key_spectrogram_time_smoothing = true; c.enable_key_hpss_harmonic = false; c.enable_key_harmonic_mask = false; }
    if on("tempogram") { c.force_legacy_bpm = false; c.enable_tempogram_multi_resolution = true; }
    if on("tempogram_band") { c.enable_tempogram_band_fusion = true; c.enable_tempogram_multi_resolution = false; }
    if on("tempogram_mel") { c.enable_tempogram_mel_novelty = true; }
    if on("tempogram_candidates") { c.emit_tempogram_candidates = true; }
    if on("legacy") { c.force_legacy_bpm = true; c.enable_legacy_bpm_guardrails = true; }
    if on("hpss_margin") { c.enable_hpss_onsets = true; c.enable_tempogram_percussive_fallback = true; }
    if on("onset") || on("zero_w") { c.enable_onset_consensus = true; }
    if on("soft") { c.soft_chroma_mapping = true; }
    if on("min_amp") { c.enable_silence_trimming = true; }
}
