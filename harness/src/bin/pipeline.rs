//! Whole analyses next to their stages run one by one, for TracePipeline.
use stratum_dsp::features::onset::hpss::hpss_decompose;
use stratum_dsp::{analyze_audio, AnalysisConfig};
use vh::pipeline::*;
use vh::*;

fn small(r: &mut Rng, c: &mut AnalysisConfig) {
    // numbers that keep analyses small, with the same meaning as the defaults
    c.frame_size = *r.pick(&[512usize, 1024, 2048]);
    c.hop_size = *r.pick(&[128usize, 256, 512]);
    c.key_stft_frame_size = *r.pick(&[1024usize, 2048, 4096, 256, 100]);
    c.key_stft_hop_size = *r.pick(&[256usize, 512]);
    c.key_segment_len_frames = *r.pick(&[120usize, 130, 200, 1024, 60]);
    c.key_segment_hop_frames = *r.pick(&[30usize, 60, 200, 0]);
    c.key_segment_min_clarity = *r.pick(&[0.0f32, 0.2, 0.9]);
    c.key_median_segment_length_frames = *r.pick(&[60usize, 120, 150, 480]);
    c.key_median_segment_hop_frames = *r.pick(&[0usize, 7, 30, 120]);
    c.key_median_min_segments = *r.pick(&[0usize, 1, 3, 10]);
    c.key_multi_scale_lengths = r.pick(&[vec![20usize, 60], vec![40], vec![100, 200, 300], vec![], vec![300, 20], vec![250, 80, 30]]).clone();
    c.key_multi_scale_hop = *r.pick(&[10usize, 30]);
    c.key_multi_scale_weights = r.pick(&[vec![], vec![1.0f32, 0.5, 0.2], vec![0.3, 0.7]]).clone();
    c.key_edge_trim_fraction = *r.pick(&[0.1f32, 0.15, 0.25, 0.4, 0.6]);
    c.key_tuning_max_abs_semitones = *r.pick(&[0.08f32, 0.3]);
    c.key_min_tonalness = *r.pick(&[0.0f32, 0.0, 0.15]);
    c.key_spectrogram_smooth_margin = *r.pick(&[1usize, 4, 12]);
    c.key_hpss_time_margin = 3; c.key_hpss_freq_margin = 3;
    c.hpss_margin = 3;
}
fn audio(r: &mut Rng, sr: u32, secs: (usize, usize)) -> (Vec<f32>, String) {
    let n = r.us(sr as usize * secs.0, sr as usize * secs.1);
    let kind = *r.pick(&["clicks", "clicks", "clicks_chord", "clicks_chord", "clicks_chord", "am_noise", "noise", "chord", "sil_head", "sil_tail", "tempo_change", "sparse", "impulse", "square", "silence", "progression", "progression"]);
    let x = if kind == "progression" {
        // chords over clicks, in a key
        let bpm = r.fr(50.0, 210.0);
        let step = (240.0 * sr as f32 / bpm) as usize;
        let root = r.range(45, 60) as i32;
        let minor = r.chance(1, 2);
        let deg: &[(i32, bool)] = if minor { &[(0, true), (5, true), (8, false), (10, false)] } else { &[(0, false), (5, false), (9, true), (7, false)] };
        let mut x: Vec<f32> = vec![];
        let mut k = 0;
        while x.len() < n { let (d, m) = deg[k % 4]; let l = step.min(n - x.len()); x.extend(audio::chord(l, sr, &[root + d, root + d + if m { 3 } else { 4 }, root + d + 7], 0.4)); k += 1; }
        let c = audio::clicks(r, n, sr, bpm, 0.5, 4, 0).0;
        audio::mix(&mut x, &c); x
    } else { audio::by_kind(kind, r, n, sr) };
    (x, kind.to_string())
}
/// Layers at related tempi: harmonic stabs at one, clicks at another; what the escalation decisions are about.
fn layers(r: &mut Rng, sr: u32, fast: bool) -> (Vec<f32>, String) {
    let n = r.us(sr as usize * 4, sr as usize * 9);
    let b = if fast { if r.chance(1, 2) { r.fr(170.0, 200.0) } else { r.fr(180.0, 300.0) } } else if r.chance(2, 3) { r.fr(55.0, 80.0) } else { r.fr(85.0, 100.0) };
    let ratio = *r.pick(&[2.0f32, 2.0, 1.5, 4.0 / 3.0, 1.0, 3.0, 0.5]);
    let (hb, cb) = if r.chance(3, 4) { (b, b * ratio) } else { (b * ratio, b) };
    let mut x = vec![0.0f32; n];
    let root = r.range(45, 64) as i32;
    let step = (60.0 * sr as f32 / hb) as usize;
    let (att, rel, am) = (r.fr(0.002, 0.08), r.fr(0.1, 0.9), r.fr(0.1, 0.6));
    let mut at = 0usize; let mut k = 0;
    while at < n {
        let l = step.min(n - at);
        let mut y = audio::chord(l, sr, &[root + [0, 5, 9, 7][k % 4], root + 4, root + 7], am);
        for (i, v) in y.iter_mut().enumerate() { let t = i as f32 / sr as f32; *v *= (t / att).min(1.0) * (-(t / rel)).exp(); }
        for (i, v) in y.iter().enumerate() { x[at + i] += v; }
        at += step; k += 1;
    }
    let ca = r.fr(0.02, 0.7); let acc = r.us(0, 4);
    let c = audio::clicks(r, n, sr, cb, ca, acc, 0).0;
    audio::mix(&mut x, &c);
    if r.chance(1, 2) { let a = r.fr(0.001, 0.05); let z = audio::noise(r, n, a); audio::mix(&mut x, &z); }
    (x, format!("layers {hb:.1} {cb:.1}"))
}
fn config_json(c: &AnalysisConfig) -> Value {
    json!({"normalize": c.enable_normalization, "trim": c.enable_silence_trimming, "consensus": c.enable_onset_consensus, "force": c.force_legacy_bpm, "fusion": c.enable_bpm_fusion,
           "multi": c.enable_tempogram_multi_resolution, "percussive": c.enable_tempogram_percussive_fallback, "emit": c.emit_tempogram_candidates,
           "topn": c.tempogram_candidates_top_n.min(1_000_000_000), "min": q4(c.min_bpm), "max": q4(c.max_bpm), "res": q4(c.bpm_resolution), "frame": c.frame_size.min(1_000_000_000), "edge": q(c.key_edge_trim_fraction, 100.0)})
}
/// The fields of an event that do not need the result.
fn front_json(x: &[f32], sr: u32, s: &Stages) -> Value {
    json!({"o": {"n": x.len(), "sr": (sr as i64).min(2147483646), "finite": x.iter().all(|v| v.is_finite())}, "norm": s.norm, "trimmed": {"st": s.trim, "left": s.left}, "energy": s.energy, "stft": s.stft,
           "frames": s.frames, "vote": {"frames": s.frames, "st": s.vote, "strong": s.onsets[1].len(), "any": s.onsets[2].len()}, "counts": s.onsets.iter().map(|v| v.len()).collect::<Vec<_>>(),
           "legacy": s.legacy.iter().map(|(st, e)| json!({"st": st, "est": est(e), "bits": e.as_ref().map(|e| e.bpm.to_bits() as i32).unwrap_or(0)})).collect::<Vec<_>>()})
}
fn analysis_event(case: &Value, r: &mut Rng, esc: bool) -> Value {
    let mut c = AnalysisConfig::default();
    small(r, &mut c);
    set_route(&mut c, &case["k"]);
    for b in [&mut c.enable_normalization, &mut c.enable_silence_trimming, &mut c.enable_onset_consensus] { *b = r.chance(4, 5); }
    c.enable_hpss_onsets = r.chance(1, 6);
    c.force_legacy_bpm = r.chance(1, 8); c.enable_bpm_fusion = r.chance(1, 3); c.enable_legacy_bpm_guardrails = r.chance(2, 3);
    c.enable_tempogram_multi_resolution = r.chance(3, 4); c.enable_tempogram_percussive_fallback = r.chance(1, 2); c.emit_tempogram_candidates = r.chance(1, 2);
    c.enable_tempogram_band_fusion = r.chance(1, 2); c.enable_tempogram_mel_novelty = r.chance(1, 2); if r.chance(1, 2) { c.tempogram_band_consensus_bonus = 0.0; }
    c.tempogram_multi_res_use_human_prior = r.chance(1, 3);
    c.tempogram_candidates_top_n = *r.pick(&[10usize, 3, 1, 0, 30]); c.tempogram_multi_res_top_k = *r.pick(&[25usize, 5, 10]);
    c.enable_key_hpcp_whitening = r.chance(1, 3); c.soft_chroma_mapping = r.chance(3, 4);
    let mut names = vec![];
    if r.chance(1, 4) { cfg::apply(&mut c, &[cfg::sane()[3], cfg::sane()[4], cfg::sane()[5], cfg::sane()[6], cfg::sane()[12]], r, 2, &mut names); }
    if r.chance(1, 5) { cfg::apply(&mut c, &cfg::flips()[33..37], r, 1, &mut names); }
    if r.chance(3, 5) { let k = r.us(1, 14); cfg::apply(&mut c, &cfg::ordinary(), r, k, &mut names); }
    if esc && r.chance(1, 6) { c.min_bpm = r.fr(50.0, 120.0); c.max_bpm = c.min_bpm + r.fr(2.0, 30.0); c.tempogram_multi_res_top_k = *r.pick(&[1usize, 2, 25]); }
    // weights that make the three resolutions move within the tempo family
    if esc && r.chance(1, 2) {
        c.tempogram_multi_res_double_time_512_factor = r.fr(0.7, 2.5); c.tempogram_multi_res_structural_discount = r.fr(0.4, 1.3); c.tempogram_multi_res_margin_threshold = r.fr(0.0, 0.25);
        c.tempogram_multi_res_w256 = r.fr(0.0, 1.5); c.tempogram_multi_res_w512 = r.fr(0.2, 1.5); c.tempogram_multi_res_w1024 = r.fr(0.0, 1.5);
    }
    if esc && r.chance(1, 6) { c.bpm_resolution = *r.pick(&[2.5f32, 3.0, 4.0, 5.0]); }
    // short lists: whether a relative competes is still judged by ten candidates
    if esc && r.chance(1, 4) { c.tempogram_candidates_top_n = r.us(0, 3); c.tempogram_multi_res_top_k = r.us(1, 3); }
    let sr = *r.pick(&[8000u32, 11025, 16000, 22050]);
    let long = !esc && r.chance(1, 50);
    let sr = if esc || long { *r.pick(&[8000u32, 11025]) } else { sr };
    if long { c.hop_size = 512; c.frame_size = c.frame_size.min(1024); c.key_stft_hop_size = 512; c.key_stft_frame_size = 2048; c.enable_hpss_onsets = false; }
    if esc { c.hop_size = *r.pick(&[256usize, 256, 512]); c.frame_size = *r.pick(&[512usize, 1024]); c.enable_hpss_onsets = false; c.force_legacy_bpm = false; c.enable_tempogram_multi_resolution = true; c.enable_tempogram_percussive_fallback = r.chance(4, 5); c.enable_silence_trimming = false; }
    let fast = esc && r.chance(1, 5);
    if fast { c.min_bpm = r.fr(60.0, 140.0); c.max_bpm = r.fr(200.0, 420.0); }
    let (x, kind) = if esc { layers(r, sr, fast) } else { audio(r, sr, if long { (20, 120) } else { (1, 9) }) };
    // a range that leaves few tempi to choose from: great confidence, and agreement of weak estimates
    let (x, kind) = if !esc && !long && r.chance(1, 10) {
        let b = r.fr(55.0, 170.0);
        let w = *r.pick(&[0.3f32, 0.6, 5.0]); c.min_bpm = b - r.fr(0.05, w); c.max_bpm = b + r.fr(0.05, w); c.bpm_resolution = *r.pick(&[0.5f32, 1.0, 2.0]);
        c.enable_bpm_fusion = r.chance(3, 4); c.force_legacy_bpm = false; c.enable_normalization = true;
        let n = r.us(sr as usize * 4, sr as usize * 9);
        (audio::clicks(r, n, sr, b, 0.8, 4, 0).0, "sure".to_string())
    } else { (x, kind) };
    let before = dig_f(&x);
    let s = front(&x, sr, &c);
    let a = call(|| analyze_audio(&x, sr, c.clone()));
    let mut e = front_json(&x, sr, &s);
    e["ev"] = json!("analysis"); e["kind"] = json!(kind); e["c"] = config_json(&c); e["st"] = json!(a.0); e["untouched"] = json!(before == dig_f(&x));
    let Some(res) = a.1 else { return e };
    e["r"] = report(&res);
    let none: (String, Option<_>) = ("none".into(), None);
    let runs = !c.force_legacy_bpm && s.frames > 0;
    let top = if c.enable_tempogram_multi_resolution { c.tempogram_candidates_top_n.max(c.tempogram_multi_res_top_k).max(10) } else { c.tempogram_candidates_top_n };
    let mut base = if runs { tempogram(&s.spec, sr, &c, top) } else { none };
    let plain = if runs { tempogram_plain(&s.spec, sr, &c) } else { ("none".into(), None) };
    e["plain"] = json!({"st": plain.0, "est": est(&plain.1), "bits": plain.1.as_ref().map(|e| e.bpm.to_bits() as i32).unwrap_or(0)});
    e["bc"] = base.1.as_ref().map(|b| cands(&b.1)).unwrap_or(json!([]));
    let cut = |t: &mut (String, Option<(_, Vec<_>)>)| if let Some(b) = t.1.as_mut() { b.1.truncate(c.tempogram_candidates_top_n); };
    cut(&mut base);
    e["base"] = tg_json(&base);
    let mut mr = if res.metadata.tempogram_multi_res_triggered == Some(true) { multires(&s, sr, &c) } else { ("none".into(), None) };
    cut(&mut mr);
    e["mr"] = tg_json(&mr);
    let mut perc = if c.enable_tempogram_percussive_fallback && res.metadata.tempogram_percussive_triggered == Some(true) {
        match call(|| hpss_decompose(&s.spec, c.hpss_margin)) { (_, Some((_, p))) => tempogram(&p, sr, &c, top), (st, None) => (st, None) }
    } else { ("none".into(), None) };
    cut(&mut perc);
    e["perc"] = tg_json(&perc);
    e["grids"] = json!(grids(&res, &s, sr));
    e["plan"] = run_route(&case["route"], &s, sr, &c, &res.beat_grid.beats);
    e["trimsw"] = case["k"]["trim"].clone();
    e
}
/// Keep a meaningless number from asking for hours of work.
fn tame(c: &mut AnalysisConfig, n: usize) {
    if n > 16000 { c.hpss_margin = c.hpss_margin.min(40); c.key_hpss_time_margin = c.key_hpss_time_margin.min(64); c.key_hpss_freq_margin = c.key_hpss_freq_margin.min(64); }
    if c.enable_hpss_onsets && c.hop_size < 128 && n > 4000 { c.hop_size = 128; }
    if c.key_stft_hop_size < 64 { c.key_stft_hop_size = 64; }
    if c.hop_size < 32 && c.hop_size > 0 && n > 4000 { c.hop_size = 32; }
}
/// Every odd value of every field once, with the feature it belongs to switched on and music to work on.
fn field_event(i: usize, r: &mut Rng) -> Value {
    let mut c = AnalysisConfig::default();
    let mut names = vec![];
    let f = cfg::odd().len();
    c.frame_size = 1024; c.hop_size = 256; c.hpss_margin = 3; c.key_hpss_time_margin = 3; c.key_hpss_freq_margin = 3; c.key_stft_frame_size = 2048;
    if r.chance(1, 2) { cfg::apply(&mut c, &cfg::flips(), r, 2, &mut names); }
    cfg::arm(cfg::odd()[i % f].0, &mut c);
    let n = cfg::apply_one(&mut c, i % f, i / f, r);
    names.push(n.to_string());
    let sr = *r.pick(&[8000u32, 11025]);
    let (mut x, kind) = if n.starts_with("tempogram") || r.chance(1, 3) { layers(r, sr, false) } else { audio(r, sr, (1, 9)) };
    x.truncate(if n.contains("margin") { 5000 } else { sr as usize * 6 });
    tame(&mut c, x.len());
    judge(&x, sr, &c, &kind, &names, true)
}
fn judge(x: &[f32], sr: u32, c: &AnalysisConfig, kind: &str, names: &[String], odd: bool) -> Value {
    let n = x.len();
    let t0 = std::time::Instant::now();
    let before = dig_f(x);
    let a = call(|| analyze_audio(x, sr, c.clone()));
    let ms = t0.elapsed().as_millis() as i64;
    let s = front(x, sr, c);
    let mut e = front_json(x, sr, &s);
    let peak = x.iter().fold(0.0f32, |m, v| m.max(v.abs()));
    e["ev"] = json!("robust"); e["kind"] = json!(kind); e["names"] = json!(names); e["odd"] = json!(odd); e["ms"] = json!(ms); e["st"] = json!(a.0); e["c"] = config_json(c); e["untouched"] = json!(before == dig_f(x));
    e["usable"] = json!(!odd && (!c.enable_silence_trimming || c.min_amplitude_db <= -35.0) && (8000..=192000).contains(&sr) && n >= sr as usize / 2 && x.iter().all(|v| v.is_finite()) && peak > 0.05 && peak < 2.0 && ["noise", "clicks", "am_noise", "clicks_chord", "chord", "sine"].contains(&kind));
    if let Some(res) = a.1 { e["r"] = report(&res); }
    e
}

/// Any audio, any rate, any configuration: only what must hold whatever they are.
fn robust_event(i: u64, r: &mut Rng) -> Value {
    // alternately: the enumerated fields (in a scattered order), and anything
    let m = cfg::odd().len() * cfg::VALUES;
    if i % 2 == 0 && (i as usize / 2) < m { return field_event((i as usize / 2) * 577 % m, r); }
    let mut c = AnalysisConfig::default();
    let mut names = vec![];
    let k = r.us(0, 6); cfg::apply(&mut c, &cfg::flips(), r, k, &mut names);
    let k = r.us(0, 4); cfg::apply(&mut c, &cfg::sane(), r, k, &mut names);
    let easy = r.chance(1, 4);
    let odd = !easy && r.chance(3, 4);
    if odd { let k = r.us(1, 4); let at = names.len(); cfg::apply(&mut c, &cfg::odd(), r, k, &mut names); for n in &names[at..] { if r.chance(2, 3) { cfg::arm(n, &mut c); } } }
    let sr = if easy { *r.pick(&[8000u32, 11025, 22050, 44100]) } else { *r.pick(&[8000u32, 11025, 22050, 44100, 48000, 96000, 192000, 8000, 16000, 0, 1, 7, 100, 999, 4000, u32::MAX]) };
    let kind = if easy { *r.pick(&["noise", "clicks", "am_noise", "clicks_chord", "chord", "sine"]) } else { *r.pick(audio::KINDS) };
    let n = if easy { r.us(sr as usize / 2, sr as usize * 2) } else { match r.below(6) { 0 => r.us(0, 40), 1 => r.us(0, 3000), 2 => r.us(1000, 12000), _ => r.us(4000, 60000) } };
    tame(&mut c, n);
    let x = audio::by_kind(kind, r, n, sr.clamp(1, 200000));
    judge(&x, sr, &c, kind, &names, odd)
}
fn main() {
    let a = args();
    let cases = if a.cases.is_some() { read_cases(&a) } else { vec![] };
    let m = cases.len() as u64;
    match a.mode.as_str() {
        "robust" => drive(&a, a.n, 120, |i, mut r| vec![robust_event(i, &mut r)]),
        "escalate" => drive(&a, a.n, 120, |_, mut r| { let k = r.below(m); vec![analysis_event(&cases[k as usize], &mut r, true)] }),
        _ => drive(&a, a.n, 120, |i, mut r| { let k = if i < m { i } else { r.below(m) }; vec![analysis_event(&cases[k as usize], &mut r, false)] }),
    }
}
