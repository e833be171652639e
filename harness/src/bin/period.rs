//! Suite "legacy": onset-based tempo estimation (two methods, merging, guardrails, selection).
use stratum_dsp::features::period::*;
use vh::*;

fn c2(x: f32) -> i64 { q(x, 100.0) }
fn fb(b: i64) -> f32 { (b as f64 / 100.0) as f32 }
fn cands(v: &[BpmCandidate]) -> Vec<Value> { v.iter().map(|c| json!({"b": c2(c.bpm), "c": q6(c.confidence)})).collect() }
fn ests(v: &[BpmEstimate]) -> Vec<Value> { v.iter().map(|c| json!({"b": c2(c.bpm), "c": q6(c.confidence), "n": c.method_agreement, "k": (c.confidence.to_bits() & 0x7fff_ffff) as i64})).collect() }

fn merge_ev(ac: &[(i64, i64)], cb: &[(i64, i64)], tol: (f32, i64)) -> Value {
    let mk = |v: &[(i64, i64)]| -> Vec<BpmCandidate> { v.iter().map(|&(b, c)| BpmCandidate { bpm: fb(b), confidence: (c as f64 / 1e6) as f32 }).collect() };
    let (status, v) = call(|| merge_bpm_candidates(mk(ac), mk(cb), tol.0));
    let js = |v: &[(i64, i64)]| -> Vec<Value> { v.iter().map(|&(b, c)| json!({"b": b, "c": c})).collect() };
    json!({"ev": "merge", "status": status, "ac": js(ac), "cb": js(cb), "tol": tol.1, "few": ac.len() <= 10 && cb.len() <= 10, "out": ests(&v.unwrap_or_default())})
}

fn onsets(r: &mut Rng, sr: u32, max_s: f32) -> Vec<usize> {
    let bpm = r.fr(55.0, 200.0);
    let per = 60.0 * sr as f32 / bpm;
    let n = if r.chance(1, 60) { r.us(40, 200) } else if r.chance(1, 100) { r.us(230, 600) } else { r.us(2, ((max_s * bpm / 60.0) as usize).clamp(3, 40)) };
    let jit = *r.pick(&[0.0f32, 0.0, 0.01, 0.05, 0.2]);
    let mut v = vec![];
    for k in 0..n {
        if r.chance(1, 8) { continue; }
        let t = (k as f32 + r.fr(-jit, jit)).max(0.0) * per;
        v.push(t as usize);
        if r.chance(1, 6) { v.push((t + per / 2.0) as usize); }
    }
    if r.chance(1, 6) { v = (0..n).map(|_| r.us(0, (max_s * sr as f32) as usize)).collect(); }
    while v.len() < 2 { v.push(r.us(0, sr as usize)); }
    v.sort();
    v.dedup();
    if v.len() < 2 { v.push(v[0] + sr as usize / 2); }
    // music that starts late in the track
    if r.chance(1, 12) { let o = r.us(0, sr as usize * 120); for t in v.iter_mut() { *t += o; } }
    v
}

fn legacy(a: &Args) {
    let cases = if a.cases.is_some() { read_cases(a) } else { vec![] };
    let m = cases.len() as u64;
    let tols = [(50.0f32, 293i64), (100.0, 595), (25.0, 145)];
    drive(a, m + a.n, 60, |i, mut r| {
        if i < m {
            let g = |k: &str| -> Vec<(i64, i64)> { cases[i as usize][k].as_array().map(|a| a.iter().map(|x| (x["b"].as_i64().unwrap(), x["c"].as_i64().unwrap())).collect()).unwrap_or_default() };
            return vec![merge_ev(&g("ac"), &g("cb"), tols[0])];
        }
        match r.below(10) {
            0..=3 => {
                // two candidate lists around a common tempo and its relatives
                let t = r.range(4000, 24000);
                let list = |r: &mut Rng, max: usize| -> Vec<(i64, i64)> {
                    let n = r.us(0, max);
                    let mut c = 1_000_000i64;
                    (0..n).map(|_| {
                        let mul = *r.pick(&[(1i64, 1i64), (1, 1), (2, 1), (1, 2), (3, 2), (2, 3)]);
                        let b = if r.chance(2, 3) { t * mul.0 / mul.1 + r.range(-300, 300) } else { r.range(3000, 30000) };
                        if !r.chance(1, 4) { c = c * r.range(50, 100) / 100; }
                        (b.clamp(1000, 60000), c)
                    }).collect()
                };
                let mx = *r.pick(&[3usize, 6, 14]);
                let (x, y) = (list(&mut r, mx), list(&mut r, mx));
                let tol = if r.chance(3, 4) { tols[0] } else { *r.pick(&tols) };
                vec![merge_ev(&x, &y, tol)]
            }
            4 => {
                // autocorrelation on frames
                let sr = *r.pick(&[8000u32, 22050, 44100]);
                let hop = *r.pick(&[128usize, 512, 1000]);
                let o = onsets(&mut r, sr, 12.0);
                let (mn, mx) = (r.range(40, 90) as f32, r.range(120, 240) as f32);
                let (status, v) = call(|| estimate_bpm_from_autocorrelation(&o, sr, hop, mn, mx));
                let mut fr: Vec<usize> = o.iter().map(|x| x / hop).collect();
                fr.dedup();
                let lmin = (60.0 * sr as f64 / (mx as f64 * hop as f64)).ceil() as u64;
                let lmax = (60.0 * sr as f64 / (mn as f64 * hop as f64)).floor() as u64;
                if fr[fr.len() - 1] == 0 { return vec![]; }
                vec![json!({"ev": "ac", "status": status, "fr": fr, "sr": sr, "hop": hop, "lmin": lmin, "lmax": lmax, "min": c2(mn), "max": c2(mx), "out": cands(&v.unwrap_or_default())})]
            }
            5 => {
                let o = onsets(&mut r, 1000, 8.0);
                let mn = r.range(50, 100) * 100;
                let res = *r.pick(&[50i64, 100, 200, 250]);
                let mx = mn + res * r.range(2, 24) + if r.chance(1, 2) { 0 } else { res / 2 };
                let (status, v) = call(|| estimate_bpm_from_comb_filter(&o, 1000, 10, fb(mn), fb(mx), fb(res)));
                let mut evs = vec![json!({"ev": "comb", "status": status, "ons": o, "min": mn, "max": mx, "res": res, "out": cands(&v.unwrap_or_default())})];
                let (status, v) = call(|| coarse_to_fine_search(&o, 1000, 10, fb(mn), fb(mx), 5.0));
                evs.push(json!({"ev": "fine", "status": status, "min": mn, "max": mx, "out": cands(&v.unwrap_or_default())}));
                evs
            }
            6 | 7 => {
                let sr = *r.pick(&[8000u32, 22050, 44100]);
                let hop = *r.pick(&[128usize, 512]);
                let o = onsets(&mut r, sr, 20.0);
                let (mn, mx, res) = (r.range(30, 80) as f32, r.range(100, 300) as f32, *r.pick(&[0.5f32, 1.0, 2.0]));
                let guard = r.chance(2, 3);
                let h = |r: &mut Rng, lo: i64, hi: i64| r.range(lo, hi) as f32;
                let gr = if r.chance(1, 2) { LegacyBpmGuardrails { preferred_min: 75.0, preferred_max: 150.0, soft_min: 60.0, soft_max: 180.0, mul_preferred: 1.3, mul_soft: 0.7, mul_extreme: 0.01 } }
                    else { LegacyBpmGuardrails { preferred_min: h(&mut r, 50, 130), preferred_max: h(&mut r, 50, 200), soft_min: h(&mut r, 30, 120), soft_max: h(&mut r, 90, 250), mul_preferred: h(&mut r, 0, 200) / 100.0, mul_soft: h(&mut r, 0, 200) / 100.0, mul_extreme: h(&mut r, 0, 200) / 100.0 } };
                let (status, v) = if guard { call(|| estimate_bpm_with_guardrails(&o, sr, hop, mn, mx, res, gr)) } else { call(|| estimate_bpm(&o, sr, hop, mn, mx, res)) };
                let ac = call(|| estimate_bpm_from_autocorrelation(&o, sr, hop, mn, mx));
                let cb = call(|| estimate_bpm_from_comb_filter(&o, sr, hop, mn, mx, res));
                if ac.0 != "ok" || cb.0 != "ok" { return vec![]; }
                let (ac, cb) = (ac.1.unwrap(), cb.1.unwrap());
                let mg = call(|| merge_bpm_candidates(ac.clone(), cb.clone(), 50.0)).1.unwrap_or_default();
                let out: Vec<BpmEstimate> = v.flatten().into_iter().collect();
                vec![json!({"ev": "select", "status": status, "guard": guard, "ac": cands(&ac), "merged": ests(&mg), "out": ests(&out),
                    "g": {"pmin": c2(gr.preferred_min), "pmax": c2(gr.preferred_max), "smin": c2(gr.soft_min), "smax": c2(gr.soft_max), "mp": c2(gr.mul_preferred), "ms": c2(gr.mul_soft), "me": c2(gr.mul_extreme)}})]
            }
            8 => {
                let n = r.us(0, 24);
                let hi = *r.pick(&[1i64, 3, 8]);
                let s: Vec<i64> = (0..n).map(|_| r.range(0, hi)).collect();
                let f: Vec<f32> = s.iter().map(|&x| x as f32).collect();
                let tden = 8i64;
                let tnum = r.range(0, 24);
                let dist = r.us(0, 6);
                match guard(|| find_peaks(&f, tnum as f32 / tden as f32, dist)) {
                    Ok(p) => vec![json!({"ev": "peaks", "status": "ok", "s": s, "tnum": tnum, "tden": tden, "dist": dist, "out": p.iter().map(|&(i, v)| json!([i, v as i64])).collect::<Vec<_>>()})],
                    Err(_) => vec![json!({"ev": "peaks", "status": "panic"})],
                }
            }
            _ => {
                // refusals
                let o = vec![1000usize, 22050, 44100];
                let e: Vec<usize> = vec![];
                let (lo, hi) = *r.pick(&[(180.0f32, 60.0f32), (0.0, 120.0), (-10.0, 120.0), (100.0, 100.0), (60.0, -1.0)]);
                let z = *r.pick(&[0.0f32, -1.0]);
                vec![
                    json!({"ev": "bad", "status": call(|| estimate_bpm_from_autocorrelation(&e, 44100, 512, 60.0, 180.0)).0}),
                    json!({"ev": "bad", "status": call(|| estimate_bpm_from_autocorrelation(&o, 0, 512, 60.0, 180.0)).0}),
                    json!({"ev": "bad", "status": call(|| estimate_bpm_from_autocorrelation(&o, 44100, 0, 60.0, 180.0)).0}),
                    json!({"ev": "bad", "status": call(|| estimate_bpm_from_autocorrelation(&o, 44100, 512, lo, hi)).0}),
                    json!({"ev": "bad", "status": call(|| estimate_bpm_from_comb_filter(&e, 44100, 512, 60.0, 180.0, 1.0)).0}),
                    json!({"ev": "bad", "status": call(|| estimate_bpm_from_comb_filter(&o, 0, 512, 60.0, 180.0, 1.0)).0}),
                    json!({"ev": "bad", "status": call(|| estimate_bpm_from_comb_filter(&o, 44100, 512, lo, hi, 1.0)).0}),
                    json!({"ev": "bad", "status": call(|| estimate_bpm_from_comb_filter(&o, 44100, 512, 60.0, 180.0, z)).0}),
                    json!({"ev": "bad", "status": call(|| estimate_bpm(&o, 44100, 512, lo, hi, 1.0)).0}),
                    json!({"ev": "bad", "status": call(|| estimate_bpm(&o, 44100, 0, 60.0, 180.0, 1.0)).0}),
                    json!({"ev": "bad", "status": call(|| coarse_to_fine_search(&o, 44100, 512, lo, hi, 5.0)).0}),
                ]
            }
        }
    });
}

fn main() {
    let a = args();
    match a.mode.as_str() { "legacy" => legacy(&a), m => panic!("mode {m}") }
}
