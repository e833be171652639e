//! The stages of one analysis, run one by one on the same input, and the key route of a configuration.
use crate::*;
use stratum_dsp::analysis::result::*;
use stratum_dsp::features::beat_tracking::generate_beat_grid;
use stratum_dsp::features::chroma::extractor::*;
use stratum_dsp::features::chroma::normalization::sharpen_chroma;
use stratum_dsp::features::chroma::smoothing::smooth_chroma;
use stratum_dsp::features::key::*;
use stratum_dsp::features::onset::consensus::*;
use stratum_dsp::features::onset::energy_flux::detect_energy_flux_onsets;
use stratum_dsp::features::onset::hfc::detect_hfc_onsets;
use stratum_dsp::features::onset::hpss::*;
use stratum_dsp::features::onset::spectral_flux::detect_spectral_flux_onsets;
use stratum_dsp::features::period::multi_resolution::multi_resolution_tempogram_from_samples;
use stratum_dsp::features::period::tempogram::*;
use stratum_dsp::features::period::*;
use stratum_dsp::preprocessing::normalization::*;
use stratum_dsp::preprocessing::silence::*;
use stratum_dsp::AnalysisConfig;

/// 31-bit digest of a sequence of words.
pub fn digest(xs: impl IntoIterator<Item = u32>) -> i64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in xs { h ^= x as u64; h = h.wrapping_mul(0x100000001b3); h ^= h >> 29; }
    (h & 0x7fff_fffe) as i64
}
pub fn dig_f(xs: &[f32]) -> i64 { digest(xs.iter().map(|x| x.to_bits()).chain([xs.len() as u32])) }
pub fn dig_grid(g: &BeatGrid) -> i64 {
    digest(g.beats.iter().map(|x| x.to_bits()).chain([1]).chain(g.downbeats.iter().map(|x| x.to_bits())).chain([2]).chain(g.bars.iter().map(|x| x.to_bits())))
}
pub fn key_no(k: Key) -> i64 { match k { Key::Major(i) => i as i64, Key::Minor(i) => 12 + i as i64 } }

pub fn est(e: &Option<BpmEstimate>) -> Value {
    match e {
        Some(e) => json!({"ok": true, "bpm": q4(e.bpm), "conf": q6(e.confidence), "agree": e.method_agreement}),
        None => json!({"ok": false, "bpm": 0, "conf": 0, "agree": 0}),
    }
}
fn bits(e: &Option<BpmEstimate>) -> Value { json!(e.as_ref().map(|e| e.bpm.to_bits() as i32).unwrap_or(0)) }
pub fn cands(c: &[TempogramCandidateDebug]) -> Value { json!(c.iter().map(|x| json!([q4(x.bpm), q6(x.score)])).collect::<Vec<_>>()) }
pub fn dig_cands(c: &[TempogramCandidateDebug]) -> i64 {
    digest(c.iter().flat_map(|x| [x.bpm.to_bits(), x.score.to_bits(), x.fft_norm.to_bits(), x.autocorr_norm.to_bits(), x.selected as u32]))
}
pub fn dig_rcands(c: &[TempoCandidateDebug]) -> i64 {
    digest(c.iter().flat_map(|x| [x.bpm.to_bits(), x.score.to_bits(), x.fft_norm.to_bits(), x.autocorr_norm.to_bits(), x.selected as u32]))
}

pub fn band_cfg(c: &AnalysisConfig) -> TempogramBandFusionConfig {
    TempogramBandFusionConfig {
        enabled: c.enable_tempogram_band_fusion, low_max_hz: c.tempogram_band_low_max_hz, mid_max_hz: c.tempogram_band_mid_max_hz, high_max_hz: c.tempogram_band_high_max_hz,
        w_full: c.tempogram_band_w_full, w_low: c.tempogram_band_w_low, w_mid: c.tempogram_band_w_mid, w_high: c.tempogram_band_w_high,
        seed_only: c.tempogram_band_seed_only, support_threshold: c.tempogram_band_support_threshold, consensus_bonus: c.tempogram_band_consensus_bonus,
        enable_mel: c.enable_tempogram_mel_novelty, mel_n_mels: c.tempogram_mel_n_mels, mel_fmin_hz: c.tempogram_mel_fmin_hz, mel_fmax_hz: c.tempogram_mel_fmax_hz,
        mel_max_filter_bins: c.tempogram_mel_max_filter_bins, w_mel: c.tempogram_mel_weight,
        novelty_w_spectral: c.tempogram_novelty_w_spectral, novelty_w_energy: c.tempogram_novelty_w_energy, novelty_w_hfc: c.tempogram_novelty_w_hfc,
        novelty_local_mean_window: c.tempogram_novelty_local_mean_window, novelty_smooth_window: c.tempogram_novelty_smooth_window,
        debug_track_id: c.debug_track_id, debug_gt_bpm: c.debug_gt_bpm, debug_top_n: c.debug_top_n, superflux_max_filter_bins: c.tempogram_superflux_max_filter_bins,
    }
}

#[derive(Default)]
pub struct Stages {
    pub norm: String, pub trim: String, pub left: usize, pub energy: String, pub stft: String, pub frames: usize, pub vote: String,
    pub trimmed: Vec<f32>, pub spec: Vec<Vec<f32>>, pub onsets: [Vec<usize>; 3],
    pub legacy: Vec<(String, Option<BpmEstimate>)>,
}

fn to_samples(frames: Vec<usize>, hop: usize, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = frames.into_iter().map(|f| f.saturating_mul(hop)).filter(|&s| s < n).collect();
    v.sort_unstable(); v.dedup(); v
}

/// Everything up to the tempo estimates. Stages after a failed one keep their empty defaults.
pub fn front(x: &[f32], sr: u32, c: &AnalysisConfig) -> Stages {
    let mut s = Stages { norm: "ok".into(), trim: "ok".into(), energy: "ok".into(), stft: "ok".into(), vote: "ok".into(), ..Default::default() };
    if x.is_empty() || sr == 0 || x.iter().any(|v| !v.is_finite()) { return s; }
    let mut y = x.to_vec();
    if c.enable_normalization {
        let o = call(|| normalize(&mut y, NormalizationConfig { method: c.normalization, target_loudness_lufs: -14.0, max_headroom_db: 1.0 }, sr as f32));
        s.norm = o.0;
        if o.1.is_none() { return s; }
    }
    if c.enable_silence_trimming {
        let o = call(|| detect_and_trim(&y, sr, SilenceDetector { threshold_db: c.min_amplitude_db, min_duration_ms: 500, frame_size: c.frame_size }));
        s.trim = o.0;
        match o.1 { Some((t, _)) => y = t, None => return s }
    }
    s.left = y.len();
    s.trimmed = y;
    if s.left == 0 { return s; }
    let o = call(|| detect_energy_flux_onsets(&s.trimmed, c.frame_size, c.hop_size, -20.0));
    s.energy = o.0;
    match o.1 { Some(v) => s.onsets[0] = v, None => return s }
    let o = call(|| compute_stft(&s.trimmed, c.frame_size, c.hop_size));
    s.stft = o.0;
    match o.1 { Some(v) => s.spec = v, None => return s }
    s.frames = s.spec.len();
    if s.frames > 0 {
        let p = c.onset_threshold_percentile;
        let sf = to_samples(call(|| detect_spectral_flux_onsets(&s.spec, p)).1.unwrap_or_default(), c.hop_size, s.left);
        let hf = to_samples(call(|| detect_hfc_onsets(&s.spec, sr, p)).1.unwrap_or_default(), c.hop_size, s.left);
        let hp = if c.enable_hpss_onsets { to_samples(call(|| hpss_decompose(&s.spec, c.hpss_margin).and_then(|(_, q)| detect_hpss_onsets(&q, p))).1.unwrap_or_default(), c.hop_size, s.left) } else { vec![] };
        let o = call(|| vote_onsets(OnsetConsensus { energy_flux: s.onsets[0].clone(), spectral_flux: sf, hfc: hf, hpss: hp }, c.onset_consensus_weights, c.onset_consensus_tolerance_ms, sr));
        s.vote = o.0;
        if let Some(v) = o.1 {
            let mut a: Vec<usize> = v.iter().filter(|c| c.voted_by >= 2).map(|c| c.time_samples).collect();
            let mut b: Vec<usize> = v.iter().map(|c| c.time_samples).collect();
            a.sort_unstable(); a.dedup(); b.sort_unstable(); b.dedup();
            s.onsets[1] = a; s.onsets[2] = b;
        }
    }
    for k in 0..3 {
        let on = &s.onsets[k];
        s.legacy.push(if on.len() < 2 { ("ok".into(), None) } else if c.enable_legacy_bpm_guardrails {
            let g = LegacyBpmGuardrails { preferred_min: c.legacy_bpm_preferred_min, preferred_max: c.legacy_bpm_preferred_max, soft_min: c.legacy_bpm_soft_min, soft_max: c.legacy_bpm_soft_max,
                mul_preferred: c.legacy_bpm_conf_mul_preferred, mul_soft: c.legacy_bpm_conf_mul_soft, mul_extreme: c.legacy_bpm_conf_mul_extreme };
            let o = call(|| estimate_bpm_with_guardrails(on, sr, c.hop_size, c.min_bpm, c.max_bpm, c.bpm_resolution, g)); (o.0, o.1.flatten())
        } else {
            let o = call(|| estimate_bpm(on, sr, c.hop_size, c.min_bpm, c.max_bpm, c.bpm_resolution)); (o.0, o.1.flatten())
        });
    }
    s
}

type TG = (String, Option<(BpmEstimate, Vec<TempogramCandidateDebug>)>);
pub fn tempogram(spec: &[Vec<f32>], sr: u32, c: &AnalysisConfig, top: usize) -> TG {
    let aux = c.enable_tempogram_band_fusion || c.enable_tempogram_mel_novelty || c.tempogram_band_consensus_bonus > 0.0;
    if aux { call(|| estimate_bpm_tempogram_with_candidates_band_fusion(spec, sr, c.hop_size as u32, c.min_bpm, c.max_bpm, c.bpm_resolution, top, band_cfg(c))) }
    else { call(|| estimate_bpm_tempogram_with_candidates(spec, sr, c.hop_size as u32, c.min_bpm, c.max_bpm, c.bpm_resolution, top)) }
}
/// The same estimate asked for without its candidates.
pub fn tempogram_plain(spec: &[Vec<f32>], sr: u32, c: &AnalysisConfig) -> (String, Option<BpmEstimate>) {
    let aux = c.enable_tempogram_band_fusion || c.enable_tempogram_mel_novelty || c.tempogram_band_consensus_bonus > 0.0;
    if aux { call(|| estimate_bpm_tempogram_band_fusion(spec, sr, c.hop_size as u32, c.min_bpm, c.max_bpm, c.bpm_resolution, band_cfg(c))) }
    else { call(|| estimate_bpm_tempogram(spec, sr, c.hop_size as u32, c.min_bpm, c.max_bpm, c.bpm_resolution)) }
}
pub fn multires(s: &Stages, sr: u32, c: &AnalysisConfig) -> TG {
    call(|| multi_resolution_tempogram_from_samples(&s.trimmed, sr, c.frame_size, c.min_bpm, c.max_bpm, c.bpm_resolution, c.tempogram_multi_res_top_k,
        c.tempogram_multi_res_w512, c.tempogram_multi_res_w256, c.tempogram_multi_res_w1024, c.tempogram_multi_res_structural_discount,
        c.tempogram_multi_res_double_time_512_factor, c.tempogram_multi_res_margin_threshold, c.tempogram_multi_res_use_human_prior, Some(band_cfg(c))))
}
pub fn tg_json(t: &TG) -> Value {
    let e = t.1.as_ref().map(|x| x.0.clone());
    json!({"st": t.0, "est": est(&e), "bits": bits(&e), "dig": t.1.as_ref().map(|x| dig_cands(&x.1)).unwrap_or(0)})
}
pub fn flag(x: Option<bool>) -> &'static str { match x { None => "none", Some(true) => "yes", Some(false) => "no" } }
fn warn_kind(w: &str) -> &'static str {
    if w.contains("BPM detection failed") { "bpm" } else if w.contains("beat grid stability") { "grid" } else if w.contains("key detection confidence") { "key" } else if w.contains("key clarity") { "clarity" } else { "other" }
}
/// The number a warning quotes, in hundredths; -1 when it quotes none.
fn warn_value(w: &str) -> i64 {
    w.split(": ").nth(1).and_then(|t| t.split(' ').next()).and_then(|t| t.parse::<f64>().ok()).map(|v| (v * 100.0).round() as i64).unwrap_or(-1)
}
/// All that an analysis reports.
pub fn report(r: &AnalysisResult) -> Value {
    let m = &r.metadata;
    let cc = stratum_dsp::compute_confidence(r);
    json!({
        "bpm": q4(r.bpm), "bits": r.bpm.to_bits() as i32, "conf": q6(r.bpm_confidence), "key": key_no(r.key), "kconf": q6(r.key_confidence), "clarity": q6(r.key_clarity), "stab": q6(r.grid_stability),
        "beats": q4s(&r.beat_grid.beats), "downs": q4s(&r.beat_grid.downbeats), "bars": q4s(&r.beat_grid.bars), "grid": dig_grid(&r.beat_grid),
        "order": r.beat_grid.beats.windows(2).all(|w| w[0] < w[1]), "nested": r.beat_grid.downbeats.iter().all(|d| r.beat_grid.beats.iter().any(|b| b.to_bits() == d.to_bits())),
        "dur": q6(m.duration_seconds), "sr": (m.sample_rate as i64).min(2147483646), "version": m.algorithm_version, "methods": m.methods_used, "onsets": q6(m.onset_method_consensus),
        "time": m.processing_time_ms.is_finite() && m.processing_time_ms >= 0.0,
        "flags": m.flags.iter().map(|f| format!("{f:?}")).collect::<Vec<_>>(),
        "warn": m.confidence_warnings.iter().map(|w| json!([warn_kind(w), warn_value(w)])).collect::<Vec<_>>(),
        "emitted": m.tempogram_candidates.is_some(),
        "cands": m.tempogram_candidates.as_ref().map(|c| c.iter().map(|x| json!([q4(x.bpm), q6(x.score), q6(x.fft_norm), q6(x.autocorr_norm), x.selected as u8])).collect::<Vec<_>>()).unwrap_or_default(),
        "cdig": m.tempogram_candidates.as_ref().map(|c| dig_rcands(c)).unwrap_or(0),
        "trig": flag(m.tempogram_multi_res_triggered), "used": flag(m.tempogram_multi_res_used), "ptrig": flag(m.tempogram_percussive_triggered), "pused": flag(m.tempogram_percussive_used),
        "stored": serde_json::to_string(r).ok().and_then(|t| serde_json::from_str::<AnalysisResult>(&t).ok()).map(|b| format!("{b:?}") == format!("{r:?}")).unwrap_or(false),
        "overall": [q6(cc.overall_confidence), q6(cc.bpm_confidence), q6(cc.key_confidence), q6(cc.grid_stability)],
    })
}

/// Run the route (made by the specification) of a configuration. Gives key, confidence, clarity and what was kept.
pub fn run_route(route: &Value, s: &Stages, sr: u32, c: &AnalysisConfig, beats: &[f32]) -> Value {
    let none = json!({"key": 0, "conf": 0, "clarity": 0, "n": 0, "a": 0, "b": 0, "how": "none"});
    if s.left < c.frame_size { return none; }
    let own = route["spectrum"] == "own";
    let fft = if own { c.key_stft_frame_size.max(256) } else { c.frame_size };
    let hop = if own { c.key_stft_hop_size.max(1) } else { c.hop_size };
    let raw = if own { call(|| compute_stft(&s.trimmed, fft, hop)).1.unwrap_or_else(|| s.spec.clone()) } else { s.spec.clone() };
    let spec = if raw.is_empty() { raw } else {
        match route["cond"].as_str().unwrap() {
            "hpss" => call(|| harmonic_spectrogram_hpss_median_mask(&raw, sr, fft, 100.0, 5000.0, c.key_hpss_frame_step, c.key_hpss_time_margin, c.key_hpss_freq_margin, c.key_hpss_mask_power)).1.unwrap_or(raw),
            "mask" => call(|| harmonic_spectrogram_time_mask(&raw, c.key_spectrogram_smooth_margin, c.key_harmonic_mask_power)).1.unwrap_or(raw),
            "smooth" => call(|| smooth_spectrogram_time(&raw, c.key_spectrogram_smooth_margin)).1.unwrap_or(raw),
            _ => raw,
        }
    };
    let axis = if route["log"] == true && !spec.is_empty() { call(|| convert_linear_to_log_frequency_spectrogram(&spec, sr, fft, 100.0, 5000.0)).1 } else { None };
    let ai = axis.is_some() as usize;
    let tun = if route["tune"][ai] == true && !spec.is_empty() {
        let lim = c.key_tuning_max_abs_semitones.abs();
        call(|| estimate_tuning_offset_semitones_from_spectrogram(&spec, sr, fft, 80.0, 2000.0, c.key_tuning_frame_step, c.key_tuning_peak_rel_threshold)).1.map(|d| d.max(-lim).min(lim)).unwrap_or(0.0)
    } else { 0.0 };
    let (soft, sg) = (c.soft_chroma_mapping, c.soft_mapping_sigma);
    let kind = route["chroma"][ai][!beats.is_empty() as usize].as_str().unwrap().to_string();
    let got = match kind.as_str() {
        "log" => { let ls = axis.unwrap(); call(|| extract_chroma_from_log_frequency_spectrogram(&ls, 31)).1.map(|v| (v, ls.iter().map(|f| f.iter().map(|&x| x * x).sum()).collect::<Vec<f32>>())) }
        "beat" => call(|| extract_beat_synchronous_chroma(&spec, sr, fft, hop, beats, soft, sg, tun)).1,
        "bass" => call(|| extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned(&spec, sr, fft, sg, tun, c.key_hpcp_peaks_per_frame, c.key_hpcp_num_harmonics, c.key_hpcp_harmonic_decay, c.key_hpcp_mag_power,
            c.enable_key_hpcp_whitening, c.key_hpcp_whitening_smooth_bins, c.key_hpcp_bass_fmin_hz, c.key_hpcp_bass_fmax_hz, c.key_hpcp_bass_weight)).1,
        "hpcp" => call(|| extract_hpcp_from_spectrogram_with_options_and_energy_tuned(&spec, sr, fft, sg, tun, c.key_hpcp_peaks_per_frame, c.key_hpcp_num_harmonics, c.key_hpcp_harmonic_decay, c.key_hpcp_mag_power,
            c.enable_key_hpcp_whitening, c.key_hpcp_whitening_smooth_bins)).1,
        _ => call(|| extract_chroma_from_spectrogram_with_options_and_energy_tuned(&spec, sr, fft, soft, sg, tun)).1,
    };
    let Some((mut ch, en)) = got else { return none };
    if route["sharpen"] == true { ch = ch.iter().map(|v| sharpen_chroma(v, c.chroma_sharpening_power)).collect(); }
    if ch.len() > 5 { ch = smooth_chroma(&ch, 5); }
    let n = ch.len();
    let (mut a, mut b) = (0, n);
    if route["trim"] == true && n == en.len() && n >= 200 {
        let f = c.key_edge_trim_fraction.clamp(0.0, 0.49);
        let (p, q) = (((n as f32) * f).round() as usize, ((n as f32) * (1.0 - f)).round() as usize);
        if q > p + 50 && q <= n { a = p; b = q; }
    }
    let (ch, en) = (&ch[a..b], &en[a.min(en.len())..b.min(en.len())]);
    let w: Option<Vec<f32>> = if route["weight"] == true && !en.is_empty() && en.len() == ch.len() {
        let mut sorted = en.to_vec(); sorted.sort_by(|x, y| x.total_cmp(y));
        let med = sorted[sorted.len() / 2].max(1e-12);
        let w: Vec<f32> = ch.iter().zip(en).map(|(v, &e)| {
            let sum: f32 = v.iter().sum();
            let mut t = 0.0f32;
            if sum > 1e-12 { let h: f32 = v.iter().map(|&x| x / sum).filter(|&p| p > 1e-12).map(|p| -p * p.ln()).sum(); t = (1.0 - h / 12f32.ln()).clamp(0.0, 1.0); }
            if t < c.key_min_tonalness { t = 0.0; }
            (t.powf(c.key_tonalness_power.max(0.0)) * (e / med).max(0.0).powf(c.key_energy_power.max(0.0))).max(0.0)
        }).collect();
        if w.iter().sum::<f32>() > 1e-12 && w.iter().filter(|&&x| x > 0.0).count() >= 10 { Some(w) } else { None }
    } else { None };
    let scales = !c.key_multi_scale_lengths.is_empty() && ch.len() >= *c.key_multi_scale_lengths.iter().min().unwrap();
    let segs = ch.len() >= c.key_segment_len_frames.max(1) && c.key_segment_len_frames >= 120 && c.key_segment_hop_frames >= 1;
    let how = route["detect"][scales as usize][segs as usize].as_str().unwrap().to_string();
    let t = KeyTemplates::new_with_template_set(c.key_template_set);
    let flip = if c.enable_key_mode_heuristic { c.key_mode_flip_min_score_ratio } else { 0.0 };
    let single = |x: &[Vec<f32>], w: Option<&[f32]>| -> Result<KeyDetectionResult, stratum_dsp::AnalysisError> {
        if route["single"] == "mode" { detect_key_weighted_mode_heuristic(x, &t, w, c.key_mode_third_ratio_margin, flip, c.enable_key_minor_harmonic_bonus, c.key_minor_leading_tone_bonus_weight) } else { detect_key_weighted(x, &t, w) }
    };
    let res = match how.as_str() {
        "ensemble" => call(|| detect_key_ensemble(ch, w.as_deref(), c.key_ensemble_kk_weight, c.key_ensemble_temperley_weight)).1,
        "multi" => call(|| detect_key_multi_scale(ch, &t, w.as_deref(), &c.key_multi_scale_lengths, c.key_multi_scale_hop.max(1), c.key_multi_scale_min_clarity.clamp(0.0, 1.0),
            if c.key_multi_scale_weights.is_empty() { None } else { Some(&c.key_multi_scale_weights) }, c.enable_key_mode_heuristic, c.key_mode_third_ratio_margin, flip, c.enable_key_minor_harmonic_bonus, c.key_minor_leading_tone_bonus_weight)).1,
        "median" => call(|| stratum_dsp::features::key::detector::detect_key_median(ch, &t, w.as_deref(), c.key_median_segment_length_frames, c.key_median_segment_hop_frames, c.key_median_min_segments)).1,
        "vote" => {
            let (len, hop) = (c.key_segment_len_frames, c.key_segment_hop_frames.min(c.key_segment_len_frames).max(1));
            let mut acc = vec![0.0f32; 24];
            let mut any = false;
            let mut i = 0;
            while i + len <= ch.len() {
                if let Some(r) = call(|| single(&ch[i..i + len], w.as_ref().map(|w| &w[i..i + len]))).1 {
                    let cl = compute_key_clarity(&r.all_scores);
                    if cl >= c.key_segment_min_clarity.clamp(0.0, 1.0) { any = true; for (k, s) in &r.all_scores { acc[key_no(*k) as usize] += s * cl; } }
                }
                i += hop;
            }
            if any {
                let mut sc: Vec<(Key, f32)> = (0..24u32).map(|k| (if k < 12 { Key::Major(k) } else { Key::Minor(k - 12) }, acc[k as usize])).collect();
                sc.sort_by(|x, y| y.1.total_cmp(&x.1));
                let conf = if sc[0].1 > 0.0 { ((sc[0].1 - sc[1].1) / sc[0].1).clamp(0.0, 1.0) } else { 0.0 };
                Some(KeyDetectionResult { key: sc[0].0, confidence: conf, top_keys: sc[..3].to_vec(), all_scores: sc })
            } else { call(|| single(ch, w.as_deref())).1 }
        }
        _ => call(|| single(ch, w.as_deref())).1,
    };
    match res {
        None => json!({"key": 0, "conf": 0, "clarity": 0, "n": n, "a": a, "b": b, "how": "none"}),
        Some(r) => json!({"key": key_no(r.key), "conf": q6(r.confidence), "clarity": q6(compute_key_clarity(&r.all_scores)), "n": n, "a": a, "b": b, "how": format!("{kind}/{how}")}),
    }
}

/// The switches of a configuration under the names the specification uses.
pub fn set_route(c: &mut AnalysisConfig, k: &Value) {
    let b = |n: &str| k[n].as_bool().unwrap();
    c.enable_key_stft_override = b("own"); c.enable_key_hpss_harmonic = b("hpss"); c.enable_key_harmonic_mask = b("mask"); c.enable_key_spectrogram_time_smoothing = b("smooth");
    c.enable_key_log_frequency = b("log"); c.enable_key_tuning_compensation = b("tune"); c.enable_key_beat_synchronous = b("beat"); c.enable_key_hpcp = b("hpcp"); c.enable_key_hpcp_bass_blend = b("bass");
    c.chroma_sharpening_power = if b("sharpen") { 1.7 } else { 1.0 }; c.enable_key_edge_trim = b("trim"); c.enable_key_frame_weighting = b("weight"); c.enable_key_ensemble = b("ensemble");
    c.enable_key_multi_scale = b("multi"); c.enable_key_median = b("median"); c.enable_key_segment_voting = b("vote"); c.enable_key_mode_heuristic = b("mode"); c.enable_key_minor_harmonic_bonus = b("bonus");
}
pub fn grids(r: &AnalysisResult, s: &Stages, sr: u32) -> Vec<Value> {
    (0..3).map(|k| {
        let t: Vec<f32> = s.onsets[k].iter().map(|&i| i as f32 / sr as f32).collect();
        if r.bpm > 0.0 && t.len() >= 2 {
            match call(|| generate_beat_grid(r.bpm, r.bpm_confidence, &t, sr)) {
                (st, Some((g, x))) => json!({"st": st, "dig": dig_grid(&g), "stab": q6(x)}),
                (st, None) => json!({"st": st, "dig": 0, "stab": 0}),
            }
        } else { json!({"st": "none", "dig": 0, "stab": 0}) }
    }).collect()
}
