//! Suite "conf": confidence report and key notation.
use stratum_dsp::analysis::result::*;
use stratum_dsp::compute_confidence;
use vh::*;

fn flag_name(f: &AnalysisFlag) -> &'static str {
    match f {
        AnalysisFlag::MultimodalBpm => "MultimodalBpm",
        AnalysisFlag::WeakTonality => "WeakTonality",
        AnalysisFlag::TempoVariation => "TempoVariation",
        AnalysisFlag::OnsetDetectionAmbiguous => "OnsetDetectionAmbiguous",
    }
}
fn flag(n: &str) -> AnalysisFlag {
    match n {
        "MultimodalBpm" => AnalysisFlag::MultimodalBpm,
        "WeakTonality" => AnalysisFlag::WeakTonality,
        "TempoVariation" => AnalysisFlag::TempoVariation,
        _ => AnalysisFlag::OnsetDetectionAmbiguous,
    }
}
fn text(topic: &str, r: &mut Rng) -> String {
    match topic {
        "bpm" => r.pick(&["BPM detection failed: insufficient onsets or estimation error", "low BPM agreement", "BPM"]).to_string(),
        "key" => r.pick(&["Low key detection confidence: 0.10", "Low key clarity: 0.10 (track may be atonal)", "Key uncertain", "weak tonality", "key"]).to_string(),
        _ => r.pick(&["Low beat grid stability: 0.20 (may indicate tempo variation)", "bpm", "KEY", "tempo", ""]).to_string(),
    }
}

fn conf_case(c: &Value, r: &mut Rng) -> Value {
    let f = |k: &str| (c[k].as_i64().unwrap() as f64 / 1e6) as f32;
    let strs = |k: &str| -> Vec<String> { c[k].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect() };
    let topics = strs("topics");
    let flags = strs("flags");
    let mut warnings: Vec<String> = topics.iter().map(|t| text(t, r)).collect();
    if r.chance(1, 3) { warnings.push(text("other", r)); }
    r.shuffle(&mut warnings);
    let res = AnalysisResult {
        bpm: if c["bpm"].as_bool().unwrap() { r.fr(1.0, 250.0) } else { *r.pick(&[0.0, -1.0, -120.0]) },
        bpm_confidence: f("bc"),
        key: if r.chance(1, 2) { Key::Major(r.us(0, 11) as u32) } else { Key::Minor(r.us(0, 11) as u32) },
        key_confidence: f("kc"),
        key_clarity: f("cl"),
        beat_grid: BeatGrid { downbeats: vec![], beats: vec![], bars: vec![] },
        grid_stability: f("g"),
        metadata: AnalysisMetadata {
            duration_seconds: r.fr(0.0, 300.0), sample_rate: 44100, processing_time_ms: r.fr(0.0, 100.0),
            algorithm_version: "x".into(), onset_method_consensus: r.f(), methods_used: vec![],
            flags: flags.iter().map(|s| flag(s)).collect(), confidence_warnings: warnings.clone(),
            tempogram_candidates: None, tempogram_multi_res_triggered: if r.chance(1, 2) { Some(r.chance(1, 2)) } else { None },
            tempogram_multi_res_used: None, tempogram_percussive_triggered: None, tempogram_percussive_used: None,
        },
    };
    match guard(|| compute_confidence(&res)) {
        Err(w) => json!({"ev": "panic", "what": w}),
        Ok(o) => json!({"ev": "conf", "bpm": c["bpm"], "bc": c["bc"], "kc": c["kc"], "cl": c["cl"], "g": c["g"], "topics": topics, "flags": flags,
            "rb": q6(o.bpm_confidence), "rk": q6(o.key_confidence), "rg": q6(o.grid_stability), "ro": q6(o.overall_confidence),
            "rflags": o.flags.iter().map(flag_name).collect::<Vec<_>>(), "level": o.confidence_level(),
            "high": o.is_high_confidence(), "low": o.is_low_confidence(), "medium": o.is_medium_confidence()}),
    }
}
fn random_conf(r: &mut Rng) -> Value {
    fn v(r: &mut Rng) -> i64 { if r.chance(1, 6) { *r.pick(&[-1, 0, 1, 200000, 300000, 500000, 700000, 999999, 1000000, 1000001]) } else { r.range(-200000, 1300000) } }
    let mut topics: Vec<&str> = vec![];
    for t in ["bpm", "key", "other"] { if r.chance(1, 3) { topics.push(t); } }
    let mut flags: Vec<&str> = vec![];
    for t in ["MultimodalBpm", "WeakTonality", "TempoVariation", "OnsetDetectionAmbiguous"] { if r.chance(1, 4) { flags.push(t); } }
    json!({"bpm": r.chance(5, 6), "bc": v(r), "kc": v(r), "cl": v(r), "g": v(r), "topics": topics, "flags": flags})
}

fn key_json(k: Option<Key>) -> Value {
    match k {
        None => json!({"mode": "none", "pc": 0}),
        Some(Key::Major(p)) => json!({"mode": "major", "pc": p}),
        Some(Key::Minor(p)) => json!({"mode": "minor", "pc": p}),
    }
}
fn chars(s: &str) -> Vec<String> { s.chars().map(|c| c.to_string()).collect() }
fn parse_case(t: &[String]) -> Value {
    let s: String = t.concat();
    match guard(|| Key::from_numerical(&s)) {
        Err(w) => json!({"ev": "parse", "t": t, "status": w, "key": key_json(None)}),
        Ok(k) => json!({"ev": "parse", "t": t, "status": "ok", "key": key_json(k)}),
    }
}
fn key_case(mode_minor: bool, i: u32) -> Value {
    let k = if mode_minor { Key::Minor(i) } else { Key::Major(i) };
    let norm = if mode_minor { Key::Minor(i % 12) } else { Key::Major(i % 12) };
    match guard(|| (k.name(), k.numerical(), Key::from_numerical(&k.numerical()))) {
        Err(w) => json!({"ev": "key", "key": key_json(Some(norm)), "status": w, "note": "", "minor": false, "code": [], "back": key_json(None)}),
        Ok((name, code, back)) => {
            let minor = name.ends_with('m');
            json!({"ev": "key", "key": key_json(Some(norm)), "status": "ok", "note": name.trim_end_matches('m'), "minor": minor, "code": chars(&code), "back": key_json(back)})
        }
    }
}

fn main() {
    let a = args();
    match a.mode.as_str() {
        "conf" => {
            let cases = read_cases(&a);
            let m = cases.len() as u64;
            drive(&a, m + a.n, 60, |i, mut r| {
                let c = if i < m { cases[i as usize].clone() } else { random_conf(&mut r) };
                vec![conf_case(&c, &mut r)]
            });
        }
        "notation" => {
            let cases = read_cases(&a);
            let m = cases.len() as u64;
            drive(&a, m + 120 + a.n, 60, |i, mut r| {
                if i < m {
                    let t: Vec<String> = cases[i as usize]["t"].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
                    vec![parse_case(&t)]
                } else if i < m + 120 {
                    let k = (i - m) as u32;
                    let idx = k / 2;
                    let idx = if idx < 48 { idx } else { u32::MAX - idx };
                    vec![key_case(k % 2 == 1, idx)]
                } else {
                    let alpha: Vec<char> = "0123456789ABabCM+-. \t\u{e9}\u{97f3}\u{1f3b5}\u{0}".chars().collect();
                    let mut s = String::new();
                    if r.chance(1, 2) { s.push_str(&format!("{}", r.us(0, 40))); s.push(*r.pick(&alpha)); }
                    for _ in 0..r.us(0, 5) { s.push(*r.pick(&alpha)); }
                    if r.chance(1, 5) { s = format!("{}{}", r.u(), *r.pick(&['A', 'B'])); }
                    vec![parse_case(&chars(&s))]
                }
            });
        }
        m => panic!("mode {m}"),
    }
}
