//! Suite "onset": consensus voting, onset detectors, harmonic/percussive separation.
use stratum_dsp::features::chroma::extractor::*;
use stratum_dsp::features::onset::consensus::*;
use stratum_dsp::features::onset::energy_flux::detect_energy_flux_onsets;
use stratum_dsp::features::onset::hfc::detect_hfc_onsets;
use stratum_dsp::features::onset::hpss::*;
use stratum_dsp::features::onset::spectral_flux::detect_spectral_flux_onsets;
use vh::*;

fn ints(v: &Value) -> Vec<i64> { v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default() }

fn vote(lists: [Vec<usize>; 4], w: [i64; 4], ms: u32, sr: u32) -> Option<Value> {
    let tol = ms as u64 * sr as u64 / 1000;
    // only tolerances free of rounding doubt
    if (ms as f32 / 1000.0 * sr as f32) as u64 != tol || (ms as u64 * sr as u64) % 1000 != 0 { return None; }
    let wf = [w[0] as f32 / 16.0, w[1] as f32 / 16.0, w[2] as f32 / 16.0, w[3] as f32 / 16.0];
    let (status, v) = call(|| vote_onsets(OnsetConsensus { energy_flux: lists[0].clone(), spectral_flux: lists[1].clone(), hfc: lists[2].clone(), hpss: lists[3].clone() }, wf, ms, sr));
    // positions are logged from a common origin, so that late onsets fit the specification's integers
    let base = lists.iter().flatten().min().copied().unwrap_or(0) as i64;
    let out: Vec<Value> = v.unwrap_or_default().iter().map(|c| json!({"t": (c.time_samples as i64 - base).clamp(-1000000, 100000000), "s": q(c.time_seconds, 1e6), "ts": qd(c.time_samples as f64 / sr as f64, 1e6), "conf": q6(c.confidence), "voted": c.voted_by})).collect();
    Some(json!({"ev": "vote", "status": status, "lists": lists.iter().map(|l| json!(l.iter().map(|&t| t as i64 - base).collect::<Vec<_>>())).collect::<Vec<_>>(), "w": w, "tol": tol, "out": out}))
}

fn consensus(a: &Args) {
    let cases = read_cases(a);
    let m = cases.len() as u64;
    drive(a, m + a.n, 60, |i, mut r| {
        if i < m {
            let c = &cases[i as usize];
            let us = |k: &str| -> Vec<usize> { ints(&c[k]).iter().map(|&x| x as usize).collect() };
            let mut lists = [us("a"), us("b"), us("c"), us("d")];
            for l in lists.iter_mut() { if r.chance(1, 4) { r.shuffle(l); } }
            return vote(lists, [5, 4, 4, 3], c["tol"].as_u64().unwrap() as u32, 1000).into_iter().collect();
        }
        let sr = *r.pick(&[1000u32, 8000, 11025, 22050, 44100, 48000, 96000]);
        let ms = *r.pick(&[1u32, 2, 5, 10, 20, 40, 50, 80, 100, 200]);
        let tol = (ms as u64 * sr as u64 / 1000) as usize;
        let mut lists: [Vec<usize>; 4] = Default::default();
        let hits = if r.chance(1, 50) { r.us(10, 80) } else { r.us(0, 9) };
        let mut t = r.us(0, 3 * tol + 5) + if r.chance(1, 8) { r.us(0, sr as usize * 900) } else { 0 };
        // recordings so long that positions need more than 31 or 32 bits
        if r.chance(1, 40) { t += *r.pick(&[(1usize << 31) - 3 * tol - 3, 1 << 32, (1 << 31) + 7]); }
        for _ in 0..hits {
            for l in lists.iter_mut() {
                if r.chance(3, 5) {
                    let jit = match r.below(5) { 0 => 0, 1 => tol, 2 => tol + 1, 3 => r.us(0, 2 * tol), _ => tol.saturating_sub(1) };
                    l.push(t + jit);
                    if r.chance(1, 10) { l.push(t + jit); }
                    if r.chance(1, 8) { l.push(t + jit + r.us(0, tol)); }
                }
            }
            t += match r.below(4) { 0 => tol + 1, 1 => tol, 2 => 2 * tol + 3, _ => r.us(0, 6 * tol + 4) };
        }
        if r.chance(1, 3) { for l in lists.iter_mut() { r.shuffle(l); } }
        let w = match r.below(6) { 0 => [0, 0, 0, 0], 1 => [4, 4, 4, 4], 2 => [16, 0, 0, 0], _ => [r.range(0, 16), r.range(0, 16), r.range(0, 16), r.range(0, 16)] };
        vote(lists, w, ms, sr).into_iter().collect()
    });
}

fn spec_f(fr: &[Vec<i64>], scale: f32) -> Vec<Vec<f32>> { fr.iter().map(|f| f.iter().map(|&v| v as f32 * scale).collect()).collect() }
fn run_det(det: &str, s: &[Vec<f32>], p: f32) -> (String, Vec<usize>) {
    let (st, v) = match det {
        "hfc" => call(|| detect_hfc_onsets(s, 44100, p)),
        "hpss" => call(|| detect_hpss_onsets(s, p)),
        _ => call(|| detect_spectral_flux_onsets(s, p)),
    };
    (st, v.unwrap_or_default())
}
fn pick(det: &str, fr: &[Vec<i64>], num: u64, den: u64, scale: f32) -> Value {
    let s = spec_f(fr, scale);
    let (status, out) = run_det(det, &s, num as f32 / den as f32);
    json!({"ev": "pick", "det": det, "status": status, "fr": fr, "num": num, "den": den, "out": out})
}
/// energy detector on blocks of constant amplitude (frame = hop)
fn level(lv: &[i64], block: usize, tail: usize, db: f32, sign: bool, scale: f32) -> Option<Value> {
    let thr = 10f64.powf(db as f64 / 20.0);
    let rises: Vec<i64> = lv.windows(2).map(|w| (w[1] - w[0]).max(0)).collect();
    let mx = rises.iter().cloned().max().unwrap_or(0);
    if db != 0.0 && rises.iter().any(|&x| mx > 0 && ((x as f64 / mx as f64) - thr).abs() < 0.003) { return None; }
    let mut x: Vec<f32> = Vec::new();
    for &v in lv { for k in 0..block { let a = v as f32 * scale; x.push(if sign && k % 2 == 1 { -a } else { a }); } }
    // a partial block at the end belongs to no frame
    for _ in 0..tail { x.push(0.0); }
    let (status, v) = call(|| detect_energy_flux_onsets(&x, block, block, db));
    Some(json!({"ev": "level", "status": status, "lv": lv, "hop": block, "n": x.len(), "thr": qd(thr, 1000.0), "out": v.unwrap_or_default()}))
}

fn detectors(a: &Args) {
    let cases = read_cases(a);
    let m = cases.len() as u64;
    drive(a, m + a.n, 60, |i, mut r| {
        if i < m {
            // a sequence of frame levels enumerated by the model, realised for every detector
            let c = &cases[i as usize];
            let lv = ints(&c["lv"]);
            let num = c["num"].as_u64().unwrap();
            let fr: Vec<Vec<i64>> = lv.iter().map(|&v| vec![0, v, 0]).collect();
            let fs: Vec<Vec<i64>> = lv.iter().map(|&v| vec![2, v]).collect();
            let mut evs = vec![pick("hfc", &fr, num, 4, 1.0), pick("hpss", &fr, num, 4, 0.5), pick("spectral", &fs, num, 4, 1.0)];
            // levels linear in v, so that equal rises follow one another
            let bits: Vec<Vec<i64>> = lv.iter().map(|&v| vec![1, v & 1, v >> 1 & 1, 0, v >> 2 & 1]).collect();
            let unary: Vec<Vec<i64>> = lv.iter().map(|&v| (0..4).map(|k| (v > k) as i64).collect()).collect();
            evs.extend([pick("hfc", &bits, num, 4, 1.0), pick("hpss", &unary, num, 4, 0.5)]);
            evs.extend(level(&lv, *r.pick(&[1usize, 2, 4, 8]), 0, *r.pick(&[-20.0f32, -9.0, -3.0, 0.0]), true, 0.25));
            return evs;
        }
        if r.chance(1, 16) {
            use stratum_dsp::features::onset::threshold::*;
            let n = r.us(1, 14);
            let hi = *r.pick(&[2i64, 9, 60]);
            let v: Vec<i64> = (0..n).map(|_| r.range(-hi / 3, hi)).collect();
            let f: Vec<f32> = v.iter().map(|&x| x as f32).collect();
            let (num, k4) = (r.below(17), r.below(15));
            let (s1, t1) = call(|| percentile_threshold(&f, num as f32 / 16.0));
            let (s2, t2) = call(|| adaptive_threshold_median_mad(&f, k4 as f32 / 4.0));
            let bad = *r.pick(&[-0.01f32, 1.01, f32::NAN, f32::INFINITY]);
            return vec![json!({"ev": "pct", "status": s1, "v": v, "num": num, "out": qd(t1.unwrap_or(f32::NAN) as f64, 16.0)}), json!({"ev": "mad", "status": s2, "v": v, "k4": k4, "out": qd(t2.unwrap_or(f32::NAN) as f64, 16.0)}),
                json!({"ev": "nothr", "status": call(|| percentile_threshold(&f, bad)).0}), json!({"ev": "nothr", "status": call(|| percentile_threshold(&[], 0.5)).0}),
                json!({"ev": "nothr", "status": call(|| adaptive_threshold_median_mad(&[], 2.5)).0}), json!({"ev": "nothr", "status": call(|| adaptive_threshold_median_mad(&f, -0.5)).0})];
        }
        match r.below(4) {
            0 => {
                let det = *r.pick(&["hfc", "hpss", "spectral"]);
                let (nf, nb) = (if r.chance(1, 50) { r.us(24, 400) } else { r.us(1, 24) }, r.us(1, 6));
                let (quiet, ones) = (r.chance(1, 2), r.chance(1, 3));
                let fr: Vec<Vec<i64>> = (0..nf).map(|_| {
                    if det == "spectral" {
                        // frames with a power-of-two maximum normalise exactly
                        let mx = *r.pick(&[0i64, 1, 2, 4, 8, 16]);
                        let mut f: Vec<i64> = (0..nb).map(|_| r.range(0, mx)).collect();
                        let k = r.us(0, nb - 1); f[k] = mx; f
                    } else { let hi = if ones || quiet && r.chance(2, 3) { 1 } else { 9 }; (0..nb).map(|_| r.range(0, hi)).collect() }
                }).collect();
                let num = r.below(17);
                vec![pick(det, &fr, num, 16, *r.pick(&[1.0f32, 0.25, 1.0 / 64.0, 1.0 / 1048576.0, 8.0]))]
            }
            1 => {
                let n = if r.chance(1, 50) { r.us(30, 600) } else { r.us(2, 30) };
                let lv: Vec<i64> = (0..n).map(|_| if r.chance(1, 2) { r.range(0, 3) } else { r.range(0, 40) }).collect();
                let block = *r.pick(&[1usize, 2, 4, 16, 64, 256, if n < 40 { 2048 } else { 32 }]);
                let tail = r.us(0, block.saturating_sub(1));
                let db = if r.chance(1, 8) { 0.0 } else { r.fr(-30.0, -0.5) };
                level(&lv, block, tail, db, r.chance(1, 2), *r.pick(&[1.0 / 64.0, 1.0 / 16.0, 1.0 / 16777216.0])).into_iter().collect()
            }
            2 => {
                // real signals, overlapping frames: rise curve of the energy detector with tolerance
                let big = r.chance(1, 6);
                let sr = if big { 44100 } else { 8000u32 };
                let n = if big { r.us(20000, 90000) } else { r.us(600, 12000) };
                let kind = *r.pick(&["clicks", "noise", "sparse", "am_noise", "tempo_change", "sil_head", "const"]);
                let x = audio::by_kind(kind, &mut r, n, sr);
                let f = if big { *r.pick(&[1024usize, 2048, 4096]) } else { *r.pick(&[128usize, 256, 500]) };
                let hop = if big { *r.pick(&[256usize, 512, 1024]) } else { *r.pick(&[32usize, 64, 100, 128]) };
                // recordings at any level, down to the faintest
                let gain = *r.pick(&[1.0f32, 1.0, 1.0 / 1024.0, 1.0 / 262144.0]);
                let x: Vec<f32> = x.iter().map(|v| v * gain).collect();
                let db = r.fr(-30.0, -3.0);
                let (status, v) = call(|| detect_energy_flux_onsets(&x, f, hop, db));
                let num = if n >= f { (n - f) / hop + 1 } else { 0 };
                let lev: Vec<f64> = (0..num).map(|i| (x[i * hop..i * hop + f].iter().map(|&v| v as f64 * v as f64).sum::<f64>() / f as f64).sqrt()).collect();
                let rises: Vec<f64> = lev.windows(2).map(|w| (w[1] - w[0]).max(0.0)).collect();
                let mx = rises.iter().cloned().fold(0.0, f64::max);
                let out = v.unwrap_or_default();
                if mx < 2e-10 || mx < 1e-6 * gain as f64 { return vec![]; }
                if out.iter().any(|o| o % hop != 0) { return vec![json!({"ev": "curve", "status": "ok", "r": [], "idx": 0, "thr": 0, "eps": 0, "out": [1]})]; }
                vec![json!({"ev": "curve", "status": status, "r": rises.iter().map(|&v| qd(v / mx, 1e6)).collect::<Vec<_>>(), "idx": 0, "thr": qd(10f64.powf(db as f64 / 20.0), 1e6), "eps": 60,
                    "out": out.iter().map(|o| o / hop).collect::<Vec<_>>()})]
            }
            _ => {
                // real spectrograms
                let det = *r.pick(&["hfc", "hpss", "spectral"]);
                let (nf, nb) = if r.chance(1, 5) { (r.us(3, 12), *r.pick(&[129usize, 257, 513, 1025, 2049])) } else { (r.us(2, 60), r.us(2, 20)) };
                let eps = 20 + nb as i64 / 8;
                let s: Vec<Vec<f32>> = (0..nf).map(|_| { let g = if r.chance(1, 4) { 1.0 } else { 0.2 }; (0..nb).map(|_| g * r.f()).collect() }).collect();
                let p = r.f();
                let x = (nf - 1) as f32 * p;
                if (x - x.round()).abs() < 0.01 { return vec![]; }
                let idx = ((x as usize).min(nf - 2)) + 1;
                let (status, out) = run_det(det, &s, p);
                let rises: Vec<f64> = match det {
                    "spectral" => { let nrm: Vec<Vec<f64>> = s.iter().map(|f| { let m = f.iter().cloned().fold(0.0f32, f32::max) as f64; f.iter().map(|&v| v as f64 / m).collect() }).collect();
                        nrm.windows(2).map(|w| w[0].iter().zip(&w[1]).map(|(a, b)| (b - a).max(0.0).powi(2)).sum::<f64>().sqrt()).collect() }
                    "hfc" => { let l: Vec<f64> = s.iter().map(|f| f.iter().enumerate().map(|(k, &v)| k as f64 * v as f64 * v as f64).sum()).collect(); l.windows(2).map(|w| (w[1] - w[0]).max(0.0)).collect() }
                    _ => { let l: Vec<f64> = s.iter().map(|f| f.iter().map(|&v| v as f64 * v as f64).sum()).collect(); l.windows(2).map(|w| (w[1] - w[0]).max(0.0)).collect() }
                };
                let mx = rises.iter().cloned().fold(0.0, f64::max);
                if mx < 1e-6 { return vec![]; }
                let up = *r.pick(&[64.0f32, 1.0 / 256.0, 1.0 / 1048576.0]);
                let s2: Vec<Vec<f32>> = s.iter().map(|f| f.iter().map(|v| v * up).collect()).collect();
                let (st2, out2) = run_det(det, &s2, p);
                vec![json!({"ev": "curve", "status": status, "r": rises.iter().map(|&v| qd(v / mx, 1e6)).collect::<Vec<_>>(), "idx": idx, "thr": 0, "eps": eps, "out": out.clone()}),
                     json!({"ev": "scaled", "status": st2, "out": out, "out2": out2})]
            }
        }
    });
}

fn q4m(s: &[Vec<f32>]) -> Vec<Vec<i64>> { s.iter().map(|f| q4s(f)).collect() }
/// The decomposition of x at level `lv` (a power of two), brought back to the level of x.
fn hpss_small(x: &[Vec<f32>], g: usize, model: bool, lv: f32) -> Value {
    let at = |s: &[Vec<f32>], k: f32| -> Vec<Vec<f32>> { s.iter().map(|f| f.iter().map(|v| v * k).collect()).collect() };
    let y = at(x, lv);
    let (status, v) = call(|| hpss_decompose(&y, g));
    let (h, p) = v.unwrap_or_default();
    let (h, p) = (at(&h, 1.0 / lv), at(&p, 1.0 / lv));
    json!({"ev": "hpss", "status": status, "x": q4m(x), "h": q4m(&h), "p": q4m(&p), "g": g, "model": model})
}
fn hpss(a: &Args) {
    let cases = read_cases(a);
    let m = cases.len() as u64;
    drive(a, m + a.n, 120, |i, mut r| {
        if i < m {
            let c = &cases[i as usize];
            let x: Vec<Vec<f32>> = c["x"].as_array().unwrap().iter().map(|f| ints(f).iter().map(|&v| v as f32 / 1e4).collect()).collect();
            return vec![hpss_small(&x, c["g"].as_u64().unwrap() as usize, true, *r.pick(&[1.0f32, 1.0, 64.0, 1.0 / 64.0]))];
        }
        match r.below(8) {
            0..=3 => {
                let (nf, nb) = (r.us(1, 6), r.us(1, 6));
                // long and thin, with wide windows, now and then
                let long = r.chance(1, 12);
                let (nf, nb) = if !long { (nf, nb) } else if r.chance(1, 2) { (r.us(20, 70), r.us(1, 2)) } else { (r.us(1, 2), r.us(20, 70)) };
                let lo = *r.pick(&[0.0f32, 0.3, 0.6]);
                let x: Vec<Vec<f32>> = (0..nf).map(|_| (0..nb).map(|_| (r.fr(lo, 1.0) * 1e4).round() / 1e4).collect()).collect();
                vec![hpss_small(&x, if long { r.us(0, 40) } else { r.us(0, 4) }, true, *r.pick(&[1.0f32, 1.0, 64.0, 1.0 / 64.0]))]
            }
            4 => {
                let (nf, nb) = (r.us(1, 40), r.us(1, 30));
                let amp = *r.pick(&[1e-12f32, 1e-6, 1.0, 1000.0]);
                let x: Vec<Vec<f32>> = (0..nf).map(|_| { let z = r.chance(1, 5); (0..nb).map(|_| if z || r.chance(1, 6) { 0.0 } else { amp * r.f() }).collect() }).collect();
                let (status, v) = call(|| hpss_decompose(&x, r.us(0, 50)));
                let (h, p) = v.unwrap_or_default();
                let shape = h.len() == nf && p.len() == nf && h.iter().all(|f| f.len() == nb) && p.iter().all(|f| f.len() == nb);
                let (mut err, mut neg, mut over) = (0.0f64, 0, 0);
                if shape { for t in 0..nf { for b in 0..nb {
                    let (hh, pp, xx) = (h[t][b] as f64, p[t][b] as f64, x[t][b] as f64);
                    if !hh.is_finite() || !pp.is_finite() { err = f64::NAN; continue; }
                    err = err.max((hh + pp - xx).abs() / amp as f64);
                    if hh < 0.0 || pp < 0.0 { neg += 1; }
                    if hh > xx * 1.00001 || pp > xx * 1.00001 { over += 1; }
                } } }
                vec![json!({"ev": "big", "status": status, "shape": shape, "err": qd(err, 1e6), "neg": neg, "over": over})]
            }
            5 => {
                // a held tone in an otherwise silent spectrogram / an isolated broadband frame
                let (nf, nb, g) = (r.us(9, 40), r.us(9, 40), r.us(1, 4));
                let tone = r.chance(1, 2);
                let amp = *r.pick(&[0.01f32, 1.0, 50.0]);
                let k = if tone { r.us(0, nb - 1) } else { r.us(g, nf - 1 - g) };
                let mut x = vec![vec![0.0f32; nb]; nf];
                if tone { for f in x.iter_mut() { f[k] = amp; } } else { for v in x[k].iter_mut() { *v = amp; } }
                let (status, v) = call(|| hpss_decompose(&x, g));
                let (h, p) = v.unwrap_or_default();
                let part = if tone { &h } else { &p };
                let tot: f64 = x.iter().flatten().map(|&v| v as f64).sum();
                let got: f64 = part.iter().flatten().map(|&v| v as f64).sum();
                vec![json!({"ev": "share", "status": status, "tone": tone, "share": qd(got / tot, 1e6)})]
            }
            6 => {
                let (nf, nb) = (r.us(1, 12), r.us(1, 12));
                let x: Vec<Vec<f32>> = (0..nf).map(|_| (0..nb).map(|_| r.f()).collect()).collect();
                let (status, v) = call(|| harmonic_spectrogram_time_mask(&x, r.us(0, 6), r.fr(0.5, 4.0)));
                vec![json!({"ev": "mask", "status": status, "x": q4m(&x), "h": q4m(&v.unwrap_or_default())})]
            }
            _ => {
                let fft = *r.pick(&[16usize, 32, 64]);
                let (nf, nb) = (r.us(1, 12), fft / 2 + 1);
                let x: Vec<Vec<f32>> = (0..nf).map(|_| (0..nb).map(|_| r.f()).collect()).collect();
                let (status, v) = call(|| harmonic_spectrogram_hpss_median_mask(&x, 8000, fft, 100.0, r.fr(500.0, 5000.0), r.us(0, 4), r.us(0, 4), r.us(0, 4), r.fr(0.5, 4.0)));
                vec![json!({"ev": "mask", "status": status, "x": q4m(&x), "h": q4m(&v.unwrap_or_default())})]
            }
        }
    });
}

fn main() {
    let a = args();
    match a.mode.as_str() { "consensus" => consensus(&a), "detectors" => detectors(&a), "hpss" => hpss(&a), m => panic!("mode {m}") }
}
