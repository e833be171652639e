//! Suites "beat" (tracking, grids, segments, meter) and "tempo" (adaptive tracker).
use stratum_dsp::features::beat_tracking::bayesian::BayesianBeatTracker;
use stratum_dsp::features::beat_tracking::generate_beat_grid;
use stratum_dsp::features::beat_tracking::hmm::HmmBeatTracker;
use stratum_dsp::features::beat_tracking::tempo_variation::*;
use stratum_dsp::features::beat_tracking::time_signature::*;
use vh::*;

fn tk(t: f32) -> i64 { q(t, 1e5) }
fn tks(t: &[f32]) -> Vec<i64> { t.iter().map(|&x| tk(x)).collect() }
fn ft(t: i64) -> f32 { (t as f64 / 1e5) as f32 }
fn fts(t: &[i64]) -> Vec<f32> { t.iter().map(|&x| ft(x)).collect() }
fn ints(v: &Value) -> Vec<i64> { v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default() }

fn hmm_ev(bpm: i64, ons: &[i64]) -> Value {
    let (status, v) = call(|| HmmBeatTracker::new((bpm as f64 / 100.0) as f32, fts(ons), 44100).track_beats());
    let b = v.unwrap_or_default();
    json!({"ev": "hmm", "status": status, "bpm": bpm, "ons": ons, "beats": b.iter().map(|x| tk(x.time_seconds)).collect::<Vec<_>>(), "conf": b.iter().map(|x| q6(x.confidence)).collect::<Vec<_>>()})
}
fn seg_json(s: &TempoSegment) -> Value { json!({"a": tk(s.start_time), "b": tk(s.end_time), "bpm": q(s.bpm, 100.0), "conf": q6(s.confidence), "var": s.is_variable}) }
fn segs_ev(beats: &[f32], bpm: i64) -> Value {
    let (status, v) = call(|| detect_tempo_variations(beats, (bpm as f64 / 100.0) as f32));
    let s = v.unwrap_or_default();
    json!({"ev": "segs", "status": status, "bpm": bpm, "beats": tks(beats), "segs": s.iter().map(seg_json).collect::<Vec<_>>(), "any": has_tempo_variation(&s)})
}
fn meter_ev(beats: &[f32], bpm: i64) -> Value {
    let (status, v) = call(|| detect_time_signature(beats, (bpm as f64 / 100.0) as f32));
    let (m, c) = v.unwrap_or((TimeSignature::FourFour, f32::NAN));
    let bpb = match m.name() { "4/4" => 4, "3/4" => 3, "6/8" => 6, _ => 0 };
    json!({"ev": "meter", "status": status, "bpm": bpm, "beats": tks(beats), "bpb": if m.beats_per_bar() == bpb { bpb } else { 0 }, "conf": q6(c)})
}
/// The grid together with what the public stages it is made of do on the same data.
fn grid_ev(bpm: i64, ons: &[i64], conf: f32) -> (Value, Vec<f32>, Vec<f32>) {
    let b = (bpm as f64 / 100.0) as f32;
    let of = fts(ons);
    let (status, v) = call(|| generate_beat_grid(b, conf, &of, 44100));
    let (mut beats, mut down, mut bars, mut stab) = (vec![], vec![], vec![], f32::NAN);
    if let Some((g, s)) = v { beats = g.beats; down = g.downbeats; bars = g.bars; stab = s; }
    let mut so = of.clone();
    so.sort_by(|a, b| a.total_cmp(b));
    let hmm: Vec<f32> = call(|| HmmBeatTracker::new(b, so.clone(), 44100).track_beats()).1.unwrap_or_default().iter().map(|x| x.time_seconds).collect();
    let segs = call(|| detect_tempo_variations(&hmm, b)).1.unwrap_or_default();
    let mut tr = BayesianBeatTracker::new(b, conf);
    let mut sj = vec![];
    for s in &segs {
        let mut re = vec![];
        if s.is_variable {
            let o: Vec<f32> = so.iter().filter(|&&o| o >= s.start_time && o <= s.end_time).copied().collect();
            if !o.is_empty() {
                if let (_, Some((nb, _))) = call(|| tr.update_with_onsets(&o, 44100)) {
                    re = call(|| HmmBeatTracker::new(nb, o.clone(), 44100).track_beats()).1.unwrap_or_default().iter().map(|x| tk(x.time_seconds)).collect();
                }
            }
        }
        sj.push(json!({"a": tk(s.start_time), "b": tk(s.end_time), "var": s.is_variable, "re": re}));
    }
    (json!({"ev": "grid", "status": status, "bpm": bpm, "ons": ons, "beats": tks(&beats), "down": tks(&down), "bars": tks(&bars), "stab": q6(stab), "hmm": tks(&hmm), "segs": sj}), beats, hmm)
}

/// Onset patterns of several kinds, in ticks.
fn onsets(r: &mut Rng, bpm: i64) -> Vec<i64> {
    let per = 600_000_000 / bpm;
    let n = if r.chance(1, 150) { r.us(80, 250) } else if r.chance(1, 250) { r.us(260, 600) } else { match r.below(6) { 0 => r.us(1, 4), 1 => r.us(30, 70), _ => r.us(4, 30) } };
    // also tracks whose first onset comes late
    let mut t = match r.below(12) { 0..=3 => 0, 4 => r.range(300_000, 20_000_000), _ => r.range(0, 300_000) };
    let kind = if n > 250 { r.below(2) * 3 } else { r.below(8) };
    let jit = *r.pick(&[0i64, 300, 2000, 5000, 6000, 12000]);
    let drop = *r.pick(&[0u64, 0, 1, 3, 6]);
    let mut v = vec![];
    let (mut p, per2) = (per, per * r.range(70, 140) / 100);
    for i in 0..n {
        if n > 250 && t > 40_000_000 { break; }
        let x = t + if jit > 0 && i > 0 { r.range(-jit, jit) } else { 0 };
        if x >= 0 && (i == 0 || !r.chance(drop, 10)) { v.push(x); }
        if kind == 1 && i == n / 2 { p = per2; }
        if kind == 2 { p = p * 1000 / 992; }
        if kind == 3 && r.chance(1, 5) { v.push(t + r.range(1000, per.max(2000))); }
        if kind == 4 && i % 4 == 3 { t += p / 4; }
        if kind == 5 && r.chance(1, 6) { t += r.range(0, 600_000); }
        if kind == 7 && r.chance(1, 8) { t += p * r.range(2, 45).min(1 + 6_000_000 / p); }
        t += p;
    }
    if kind == 6 { v = (0..n).map(|_| r.range(0, 3_000_000)).collect(); }
    v.sort();
    v.dedup();
    if v.is_empty() { v.push(0); }
    v
}

fn beat(a: &Args) {
    let cases = if a.cases.is_some() { read_cases(a) } else { vec![] };
    let m = cases.len() as u64;
    drive(a, m + a.n, 60, |i, mut r| {
        if i < m {
            let c = &cases[i as usize];
            if c.get("ons").is_some() {
                let (ons, bpm) = (ints(&c["ons"]), c["bpm"].as_i64().unwrap());
                let (g, _, _) = grid_ev(bpm, &ons, 0.5);
                return vec![hmm_ev(bpm, &ons), g];
            }
            let b = fts(&ints(&c["beats"]));
            return vec![segs_ev(&b, 12000), meter_ev(&b, 12000)];
        }
        let bpm = match r.below(12) { 0 => r.range(1000, 5000), 1 => r.range(20000, 30000), 2 => 12000, _ => r.range(5500, 19000) };
        match r.below(10) {
            0 => {
                // refusals
                let ons = if r.chance(1, 3) { vec![] } else { vec![0, 50_000, 100_000] };
                let bpm = if ons.is_empty() { 12000 } else { *r.pick(&[0i64, -1, -12000, 30001, 30100, 100_000]) };
                let mut evs = vec![hmm_ev(bpm, &ons), grid_ev(bpm, &ons, 0.5).0];
                let bad = *r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]);
                let mut o = vec![0.0f32, 0.5, 1.0, 1.5];
                o[r.us(0, 3)] = bad;
                evs.push(json!({"ev": "bad", "status": call(|| generate_beat_grid(120.0, 0.5, &o, 44100)).0}));
                let b8: Vec<f32> = (0..9).map(|i| i as f32 * 0.5).collect();
                evs.push(json!({"ev": "bad", "status": call(|| detect_time_signature(&b8, *r.pick(&[0.0f32, -3.0]))).0}));
                evs.push(json!({"ev": "bad", "status": call(|| detect_tempo_variations(&b8, *r.pick(&[0.0f32, -3.0]))).0}));
                evs
            }
            1 | 2 => {
                // beat lists given directly: accent patterns, gaps, tempo changes
                let n = if r.chance(1, 60) { r.us(40, 200) } else if r.chance(1, 150) { r.us(300, 900) } else if r.chance(1, 100) { r.us(1000, 1500) } else { r.us(0, 40) };
                let lag = *r.pick(&[1usize, 3, 4, 6]);
                let pat: Vec<i64> = (0..lag).map(|_| r.range(30_000, 80_000)).collect();
                let jit = *r.pick(&[0i64, 100, 3000]);
                let half = r.chance(1, 4);
                let mut t = if r.chance(1, 10) { r.range(500_000, 20_000_000) } else { r.range(0, 500_000) };
                let mut b = vec![];
                for i in 0..n {
                    b.push(t);
                    let mut g = pat[i % lag] + r.range(-jit, jit);
                    if half && i > n / 2 { g = g * 13 / 10; }
                    if r.chance(1, 25) { g += r.range(0, 900_000); }
                    t += g;
                }
                let f = fts(&b);
                vec![segs_ev(&f, bpm), meter_ev(&f, bpm)]
            }
            _ => {
                let ons = onsets(&mut r, bpm);
                let conf = r.f();
                let (g, beats, hmm) = grid_ev(bpm, &ons, conf);
                let mut evs = vec![hmm_ev(bpm, &ons), g];
                if !beats.is_empty() { evs.push(segs_ev(&hmm, bpm)); evs.push(meter_ev(&beats, bpm)); }
                // order of the onsets does not matter to the grid
                let mut sh = ons.clone();
                r.shuffle(&mut sh);
                let (g2, b2, _) = grid_ev(bpm, &sh, conf);
                evs.push(json!({"ev": "perm", "status": g2["status"], "same": b2 == beats && g2["down"] == evs[1]["down"] && g2["stab"] == evs[1]["stab"]}));
                evs
            }
        }
    });
}

fn tempo(a: &Args) {
    let cases = if a.cases.is_some() { read_cases(a) } else { vec![] };
    let m = cases.len() as u64;
    let c2 = |x: f32| q(x, 100.0);
    drive(a, m + a.n, 60, |i, mut r| {
        if i >= m && r.chance(1, 100) {
            // a long history: a pulse followed through hundreds of updates, some of them refused
            let target = r.range(6200, 17800);
            let init = (target + r.range(-450, 450)).clamp(6000, 18000);
            let mut tr = BayesianBeatTracker::new((init as f64 / 100.0) as f32, 0.5);
            let n = r.us(30, 1500);
            let mut rets = vec![];
            for k in 0..n {
                let drop = r.chance(1, 9);
                let ons: Vec<f32> = if drop { vec![] } else { (0..8).map(|j| (k as f64 % 50.0 + j as f64 * 6000.0 / target as f64) as f32).collect() };
                let (st, v) = call(|| tr.update_with_onsets(&ons, 44100));
                rets.push(if st == "ok" { c2(v.unwrap_or((f32::NAN, 0.0)).0) } else if st == "InvalidInput" && drop { -1 } else { -2 });
            }
            let hist: Vec<i64> = tr.get_history().iter().map(|&x| c2(x)).collect();
            let mut evs = vec![json!({"ev": "long", "init": init, "target": target, "rets": rets, "hist": hist, "bpm": c2(tr.get_bpm())})];
            // ... and the same tracker goes on with a drifting pulse, judged update by update
            let (bpm0, conf0, tail) = (c2(tr.get_bpm()), q6(tr.get_confidence()), hist.len() - 1);
            let (mut t, mut out) = (target, vec![]);
            for _ in 0..r.us(2, 8) {
                t = (t + r.range(-600, 600)).clamp(4000, 20000);
                let s: Vec<i64> = if r.chance(1, 10) { vec![] } else { let n = r.us(1, 14); (0..n).map(|k| (k as f64 * 6e7 / t as f64).round() as i64).collect() };
                let f: Vec<f32> = s.iter().map(|&x| (x as f64 / 1e4) as f32).collect();
                let (status, v) = call(|| tr.update_with_onsets(&f, 44100));
                let (rb, rc) = v.unwrap_or((f32::NAN, f32::NAN));
                let h: Vec<i64> = tr.get_history().iter().skip(tail).map(|&x| c2(x)).collect();
                out.push(json!({"ons": s, "status": status, "bpm": c2(tr.get_bpm()), "conf": q6(tr.get_confidence()), "ret": c2(rb), "retc": q6(rc), "hist": h}));
            }
            evs.push(json!({"ev": "tempo", "init": bpm0, "claim": conf0, "conf0": conf0, "target": 0, "steps": out}));
            return evs;
        }
        let (init, mut target): (i64, i64); target = 0;
        let mut steps: Vec<Vec<i64>> = vec![];
        let pulse = |t: i64, n: usize, start: i64| -> Vec<i64> { (0..n).map(|k| start + (k as f64 * 6e7 / t as f64).round() as i64).collect() };
        if i < m {
            target = cases[i as usize]["t"].as_i64().unwrap();
            init = cases[i as usize]["o"].as_i64().unwrap();
            for _ in 0..5 { let st = r.range(0, 20000); steps.push(pulse(target, 10, st)); }
        } else {
            match r.below(6) {
                0 if r.chance(1, 6) => {
                    // long lists of onsets whose tempo changes on the way
                    init = r.range(8000, 17500);
                    let most = (1.9e9 / (3e7 / (init - 1200) as f64).powi(2)) as usize;
                    for _ in 0..2 {
                        let n = r.us(50, most.clamp(60, 400));
                        let (a, b, at) = (init + r.range(-400, 400), init + r.range(-400, 400), r.us(1, n));
                        let mut t = r.range(0, 50000) as f64;
                        steps.push((0..n).map(|k| { let x = t.round() as i64; t += 6e7 / (if k < at { a } else { b }) as f64; x }).collect());
                    }
                }
                0 | 1 => {
                    target = r.range(6200, 17800);
                    init = (target + r.range(-450, 450)).clamp(6000, 18000);
                    let late = if r.chance(1, 6) { r.range(0, 2_000_000) } else { 0 };
                    for _ in 0..4 { let (n, st) = (if r.chance(1, 12) { r.us(14, 60) } else { r.us(8, 14) }, late + r.range(0, 50000)); steps.push(pulse(target, n, st)); }
                }
                2 => {
                    // a drifting pulse
                    init = r.range(5600, 18400);
                    let mut t = init;
                    for _ in 0..r.us(1, 7) { t = (t + r.range(-600, 600)).clamp(4000, 20000); let n = r.us(1, 14); steps.push(pulse(t, n, 0)); }
                }
                3 => {
                    init = r.range(4000, 22000);
                    for _ in 0..r.us(1, 5) { let n = r.us(0, 10); let mut v: Vec<i64> = (0..n).map(|_| r.range(0, 60000)).collect(); if r.chance(3, 4) { v.sort(); } steps.push(v); }
                }
                4 => {
                    init = *r.pick(&[0i64, -500, 30100, 40000, 5400, 5500, 18500, 18600, 6000, 18000, 12000]);
                    for _ in 0..3 { steps.push(if r.chance(1, 3) { vec![] } else { pulse(12000, 6, 100) }); }
                }
                _ => {
                    // jittered pulse, some updates refused
                    init = r.range(6000, 18000);
                    let t = init + r.range(-700, 700);
                    for _ in 0..r.us(2, 6) {
                        if r.chance(1, 4) { steps.push(vec![]); continue; }
                        let mut v = pulse(t.max(5000), r.us(2, 12), 0);
                        for x in v.iter_mut().skip(1) { *x += r.range(-300, 300); }
                        v.sort();
                        steps.push(v);
                    }
                }
            }
        }
        // also claims outside 0..1, which are brought into it
        let conf0 = if r.chance(1, 10) { *r.pick(&[-0.5f32, 1.0, 1.5, 40.0]) } else { r.f() };
        let mut tr = BayesianBeatTracker::new((init as f64 / 100.0) as f32, conf0);
        let (claim, conf0) = (q6(conf0), tr.get_confidence());
        let mut out = vec![];
        for s in &steps {
            let f: Vec<f32> = s.iter().map(|&x| (x as f64 / 1e4) as f32).collect();
            let (status, v) = call(|| tr.update_with_onsets(&f, 44100));
            let (rb, rc) = v.unwrap_or((f32::NAN, f32::NAN));
            let hist: Vec<i64> = tr.get_history().iter().map(|&x| c2(x)).collect();
            out.push(json!({"ons": s, "status": status, "bpm": c2(tr.get_bpm()), "conf": q6(tr.get_confidence()), "ret": c2(rb), "retc": q6(rc), "hist": hist}));
        }
        vec![json!({"ev": "tempo", "init": init, "claim": claim, "conf0": q6(conf0), "target": target, "steps": out})]
    });
}

fn main() {
    let a = args();
    match a.mode.as_str() { "beat" => beat(&a), "tempo" => tempo(&a), m => panic!("mode {m}") }
}
