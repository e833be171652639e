//! Suite "tempogram": novelty curves, the two tempograms, candidate scoring and choice.
use stratum_dsp::features::period::novelty::*;
use stratum_dsp::features::period::tempogram::*;
use stratum_dsp::features::period::tempogram_autocorr::*;
use stratum_dsp::features::period::tempogram_fft::*;
use stratum_dsp::features::period::BpmEstimate;
use vh::*;

fn b3(x: f32) -> i64 { q(x, 1e3) }
fn s8(x: f32) -> i64 { q(x, 1e8) }
type Tg = Vec<(f32, f32)>;
fn rel(t: &Tg) -> Vec<Value> {
    let m = t.first().map(|x| x.1).unwrap_or(1.0).max(1e-12);
    t.iter().map(|&(b, v)| json!([b3(b), s8((v / m).clamp(0.0, 1.0))])).collect()
}
fn cand(c: &TempogramCandidateDebug) -> Value { json!({"b": b3(c.bpm), "s": s8(c.score), "f": s8(c.fft_norm), "a": s8(c.autocorr_norm), "sel": c.selected}) }
fn est(e: &BpmEstimate) -> Value { json!({"b": b3(e.bpm), "c": q6(e.confidence), "n": e.method_agreement}) }

/// Spectrogram with pulses at one or two periods.
fn spectrogram(r: &mut Rng, frames: usize, bins: usize, fps: f32) -> Vec<Vec<f32>> {
    let bpm = r.fr(40.0, 230.0);
    let per = 60.0 * fps / bpm;
    let kind = r.us(0, 5);
    let noise = *r.pick(&[0.0f32, 0.01, 0.1, 0.4]);
    let sub = *r.pick(&[1usize, 1, 2, 3, 4]);
    let split = r.us(0, bins);
    let mut s = vec![vec![0.1f32; bins]; frames];
    for (i, f) in s.iter_mut().enumerate() {
        let ph = i as f32 / per;
        let near = |x: f32| (x - x.round()).abs() * per < 0.51;
        let on = near(ph);
        let strong = on && (ph.round() as usize) % sub == 0;
        let half = near(ph * 2.0);
        for (k, v) in f.iter_mut().enumerate() {
            let pulse = match kind {
                0 => if on { 1.0 } else { 0.0 },
                1 => if strong { 1.0 } else if on { 0.4 } else { 0.0 },
                2 => if k < split { if strong { 1.0 } else { 0.0 } } else if half { 0.7 } else { 0.0 },
                3 => 0.5 + 0.5 * (2.0 * std::f32::consts::PI * ph).cos(),
                4 => 0.0,
                _ => if on { 1.0 } else if half { 0.6 } else { 0.0 },
            };
            *v += pulse + noise * r.f();
        }
    }
    if r.chance(1, 25) { for f in s.iter_mut() { for v in f.iter_mut() { *v = 0.25; } } }
    s
}

fn tempograms(n: &[f32], sr: u32, hop: u32, mn: f32, mx: f32, res: f32) -> Option<(Tg, Tg)> {
    Some((fft_tempogram(n, sr, hop, mn, mx).ok()?, autocorrelation_tempogram(n, sr, hop, mn, mx, res).ok()?))
}

fn tg(r: &mut Rng) -> Vec<Value> {
    let (sr, hop) = *r.pick(&[(44100u32, 512u32), (22050, 512), (44100, 1024), (8000, 128), (48000, 1000)]);
    // up to several minutes of frames
    let long = r.chance(1, 60);
    let frames = if long { r.us(2000, 12000) } else { r.us(3, 500) };
    let bins = if long { *r.pick(&[2usize, 5]) } else { *r.pick(&[2usize, 5, 9, 17, 33]) };
    let s = spectrogram(r, frames, bins, sr as f32 / hop as f32);
    let (mn, mx) = match r.us(0, 4) { 0 => (40.0, 240.0), 1 => (60.0, 200.0), 2 => (100.0, 240.0), _ => { let a = r.range(35, 110) as f32; (a, a + r.range(25, 150) as f32) } };
    let res = *r.pick(&[0.5f32, 1.0, 1.0, 2.0, 3.0]);
    let topn = *r.pick(&[0usize, 1, 3, 10, 100]);
    let fused = r.chance(1, 3);
    let mut vs: Vec<Value> = vec![];
    let mut none = true;
    let mut cuts: Vec<Value> = vec![];
    let fftsize = ((bins - 1) * 2).max(2);
    let (mut seedonly, mut bonus, mut thr) = (true, 0i64, 0i64);
    let full;
    let lim;
    let plain;
    let push = |vs: &mut Vec<Value>, none: &mut bool, w: i64, n: &[f32]| -> bool {
        if n.is_empty() { return true; }
        match tempograms(n, sr, hop, mn, mx, res) {
            Some((f, a)) => { if !(f.is_empty() && a.is_empty()) { *none = false; } vs.push(json!({"w": w, "f": rel(&f), "a": rel(&a)})); true }
            None => false,
        }
    };
    if !fused {
        let n = combined_novelty(&superflux_novelty(&s, 4).unwrap(), &energy_flux_novelty(&s).unwrap(), &hfc_novelty(&s, sr).unwrap());
        if !push(&mut vs, &mut none, 100, &n) { return vec![]; }
        full = call(|| estimate_bpm_tempogram_with_candidates(&s, sr, hop, mn, mx, res, 100000));
        lim = call(|| estimate_bpm_tempogram_with_candidates(&s, sr, hop, mn, mx, res, topn));
        plain = call(|| estimate_bpm_tempogram(&s, sr, hop, mn, mx, res));
    } else {
        let nyq = sr as f32 / 2.0;
        seedonly = r.chance(1, 2);
        bonus = *r.pick(&[0i64, 8, 25]);
        let tpc = *r.pick(&[10i64, 25, 60]);
        thr = tpc * 1_000_000;
        let w = |r: &mut Rng| *r.pick(&[0i64, 5, 20, 40, 100]);
        let (wf, wl, wm, wh, we) = (*r.pick(&[10i64, 30, 100]), w(r), w(r), w(r), w(r).max(5));
        let step = sr as f32 / fftsize as f32;
        // cut frequencies in the middle of a bin's catchment so that rounding is unambiguous
        let bin_low = r.us(1, bins - 1);
        let bin_mid = r.us(1, bins - 1);
        let low_hz = bin_low as f32 * step;
        let mid_hz = bin_mid as f32 * step;
        let high_hz = if r.chance(1, 2) { 0.0 } else { r.us(1, bins - 1) as f32 * step };
        let mel = r.chance(1, 3) && bins > 2;
        let bands = r.chance(4, 5);
        let c = TempogramBandFusionConfig {
            enabled: bands, low_max_hz: low_hz, mid_max_hz: mid_hz, high_max_hz: high_hz, w_full: wf as f32 / 100.0, w_low: wl as f32 / 100.0, w_mid: wm as f32 / 100.0, w_high: wh as f32 / 100.0,
            seed_only: seedonly, support_threshold: tpc as f32 / 100.0, consensus_bonus: bonus as f32 / 100.0, enable_mel: mel, mel_n_mels: 12, mel_fmin_hz: 30.0, mel_fmax_hz: 0.8 * nyq, mel_max_filter_bins: 2, w_mel: we as f32 / 100.0,
            novelty_w_spectral: 0.4, novelty_w_energy: 0.3, novelty_w_hfc: 0.3, novelty_local_mean_window: *r.pick(&[0usize, 9, 16]), novelty_smooth_window: *r.pick(&[0usize, 3, 5]),
            debug_track_id: None, debug_gt_bpm: None, debug_top_n: 0, superflux_max_filter_bins: *r.pick(&[1usize, 3, 4]),
        };
        let k = c.superflux_max_filter_bins;
        let comb = |a: Vec<f32>, b: Vec<f32>, d: Vec<f32>| combined_novelty_with_params(&a, &b, &d, c.novelty_w_spectral, c.novelty_w_energy, c.novelty_w_hfc, c.novelty_local_mean_window, c.novelty_smooth_window);
        let n = comb(superflux_novelty(&s, k).unwrap(), energy_flux_novelty(&s).unwrap(), hfc_novelty(&s, sr).unwrap());
        if !push(&mut vs, &mut none, wf, &n) { return vec![]; }
        if bands {
            let e_low = bin_low.max(1);
            let e_mid = bin_mid.max(e_low + 1);
            let e_hi = if high_hz > 0.0 { ((high_hz / step).round() as usize).min(bins - 1).max(e_mid + 1) } else { bins }.min(bins);
            cuts = vec![json!([bin_low, low_hz.round() as i64]), json!([bin_mid, mid_hz.round() as i64])];
            for (a, b, w) in [(1usize, e_low, wl), (e_low, e_mid, wm), (e_mid, e_hi, wh)] {
                if w == 0 || b <= a + 1 { continue; }
                let n = comb(superflux_novelty_band(&s, k, a, b).unwrap(), energy_flux_novelty_band(&s, a, b).unwrap(), hfc_novelty_band(&s, a, b).unwrap());
                if !push(&mut vs, &mut none, w, &n) { return vec![]; }
            }
        }
        if mel {
            let n = mel_superflux_novelty(&s, sr, c.mel_n_mels, c.mel_fmin_hz, c.mel_fmax_hz, c.mel_max_filter_bins).unwrap();
            if !push(&mut vs, &mut none, we, &n) { return vec![]; }
        }
        if !bands && !mel { bonus = 0; }
        full = call(|| estimate_bpm_tempogram_with_candidates_band_fusion(&s, sr, hop, mn, mx, res, 100000, c.clone()));
        lim = call(|| estimate_bpm_tempogram_with_candidates_band_fusion(&s, sr, hop, mn, mx, res, topn, c.clone()));
        plain = call(|| estimate_bpm_tempogram_band_fusion(&s, sr, hop, mn, mx, res, c.clone()));
    }
    let mut ev = json!({"ev": "tg", "status": full.0, "none": none, "min": b3(mn), "max": b3(mx), "res": b3(res), "topn": topn, "seedonly": seedonly, "bonus": bonus, "thr": thr,
        "fftsize": fftsize, "sr": sr, "cuts": cuts, "vs": vs});
    if let (Some((e, c)), Some((e2, c2)), Some(e3)) = (full.1, lim.1, plain.1) {
        ev["est"] = est(&e); ev["est2"] = est(&e2); ev["est3"] = est(&e3);
        ev["all"] = json!(c.iter().map(cand).collect::<Vec<_>>());
        ev["short"] = json!(c2.iter().map(cand).collect::<Vec<_>>());
    }
    vec![ev]
}

fn nov(f: &[Vec<i64>], r: &mut Rng) -> Value {
    let nb = f[0].len();
    let fl: Vec<Vec<f32>> = f.iter().map(|x| x.iter().map(|&v| v as f32).collect()).collect();
    // levels whose logarithm is proportional to the integer
    let lg: Vec<Vec<f32>> = f.iter().map(|x| x.iter().map(|&v| (1i64 << v) as f32 - 1.0).collect()).collect();
    let k = r.us(1, 3);
    let lo = r.us(0, nb - 1);
    let hi = r.us(lo, nb + 1);
    let res = guard(|| -> Result<Vec<Vec<f32>>, stratum_dsp::AnalysisError> {
        Ok(vec![energy_flux_novelty(&fl)?, hfc_novelty(&fl, 44100)?, spectral_flux_novelty(&fl)?, superflux_novelty(&lg, k)?,
            mel_superflux_novelty(&fl, 44100, 6, 30.0, 12000.0, 1)?, energy_flux_novelty_band(&fl, lo, hi)?, hfc_novelty_band(&fl, lo, hi)?, superflux_novelty_band(&lg, k, lo, hi)?])
    });
    match res {
        Err(_) => json!({"ev": "nov", "status": "panic"}),
        Ok(Err(e)) => json!({"ev": "nov", "status": err_kind(&e)}),
        Ok(Ok(v)) => { let v: Vec<Vec<i64>> = v.iter().map(|x| q6s(x)).collect();
            json!({"ev": "nov", "status": "ok", "f": f, "k": k, "lo": lo, "hi": hi, "energy": v[0], "hfc": v[1], "flux": v[2], "super": v[3], "mel": v[4], "benergy": v[5], "bhfc": v[6], "bsuper": v[7]}) }
    }
}

fn mel(r: &mut Rng) -> Value {
    let nb = r.us(3, 24);
    let f: Vec<Vec<i64>> = (0..r.us(1, 5)).map(|_| (0..nb).map(|_| if r.chance(1, 2) { 0 } else { r.range(0, 6) }).collect()).collect();
    let lg: Vec<Vec<f32>> = f.iter().map(|x| x.iter().map(|&v| (1i64 << v) as f32 - 1.0).collect()).collect();
    let sr = *r.pick(&[8000u32, 11025, 22050, 44100, 48000]);
    let (n, k) = (r.us(0, 12), r.us(0, 3));
    let lo = *r.pick(&[0i64, 0, 30, 30, 300, 2000, -50, 30000]);
    let hi = *r.pick(&[0i64, -3, 200, 2500, 8000, 8000, 12000, 90000]);
    let (status, v) = call(|| mel_superflux_novelty(&lg, sr, n, lo as f32, hi as f32, k));
    json!({"ev": "mel", "status": status, "f": f, "sr": sr, "n": n, "k": k, "lo": lo, "hi": hi, "out": q6s(&v.unwrap_or_default())})
}

fn run(a: &Args) {
    let cases = if a.cases.is_some() { read_cases(a) } else { vec![] };
    let m = cases.len() as u64;
    drive(a, m + a.n, 30, |i, mut r| {
        if i < m {
            let f: Vec<Vec<i64>> = cases[i as usize]["f"].as_array().unwrap().iter().map(|x| x.as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).collect()).collect();
            return vec![nov(&f, &mut r)];
        }
        match (i - m) % 12 {
            0..=4 => tg(&mut r),
            5 => {
                let nb = r.us(2, 6);
                let f: Vec<Vec<i64>> = (0..r.us(2, 8)).map(|_| (0..nb).map(|_| r.range(0, 6)).collect()).collect();
                let mut evs = vec![nov(&f, &mut r)];
                for _ in 0..4 { evs.push(mel(&mut r)); }
                evs
            }
            6 | 7 => {
                // now and then a curve of minutes, with lags of more than a thousand frames
                let long = r.chance(1, 60);
                let n = if long { r.us(1100, 2600) } else { r.us(1, 40) };
                let hi = *r.pick(&[1i64, 3, 6]);
                let mut x: Vec<i64> = (0..n).map(|_| r.range(0, hi)).collect();
                if r.chance(1, 2) { let p = r.us(2, 9); for (k, v) in x.iter_mut().enumerate() { if k % p == 0 { *v += 5; } } }
                let (sr, hop) = *r.pick(&[(10u32, 1u32), (100, 7), (441, 50), (9, 2), (50, 6)]);
                let (sr, hop) = if long { *r.pick(&[(1000u32, 1u32), (700, 1), (32000, 43)]) } else { (sr, hop) };
                let mn = r.range(30, 120); let res = *r.pick(&[500i64, 1000, 2500, 7000]); let mx = mn * 1000 + res * r.range(1, 25) + if r.chance(1, 2) { 0 } else { res / 2 };
                let xf: Vec<f32> = x.iter().map(|&v| v as f32).collect();
                let (status, t) = call(|| autocorrelation_tempogram(&xf, sr, hop, mn as f32, mx as f32 / 1000.0, res as f32 / 1000.0));
                let out: Vec<Value> = t.unwrap_or_default().iter().map(|&(b, v)| json!([b3(b), q6(v)])).collect();
                vec![json!({"ev": "ac", "status": status, "x": x, "sr": sr, "hop": hop, "min": mn * 1000, "max": mx, "res": res, "out": out})]
            }
            8 | 9 => {
                if r.chance(1, 12) {
                    // long curves, sparse and balanced, seen through a narrow range of tempi
                    let n = if r.chance(1, 3) { r.us(8193, 20000) } else { r.us(300, 8192) };
                    let (sr, hop) = *r.pick(&[(10u32, 1u32), (20, 1), (43, 2)]);
                    let per = r.us(n / 40, n / 4);
                    let mut x = vec![0i64; n];
                    let (mut k, mut a) = (r.us(0, per), r.range(1, 6));
                    while k + per / 2 < n { x[k] += a; x[k + per / 2] -= a; if r.chance(1, 3) { a = r.range(1, 6); } k += per; }
                    let bin = 60.0 * sr as f64 / hop as f64 / n.next_power_of_two() as f64;
                    // near the tempo of the pulses, or anywhere
                    let mn = if r.chance(1, 2) { 60.0 * sr as f64 / hop as f64 / per as f64 * r.us(1, 3) as f64 - 6.0 * bin } else { r.fr(1.0, 40.0) as f64 };
                    let mn = (mn * 1000.0).clamp(1000.0, 40000.0) as i64;
                    let mx = mn + (bin * r.us(3, 16) as f64 * 1000.0) as i64 + 1;
                    let xf: Vec<f32> = x.iter().map(|&v| v as f32).collect();
                    let (status, t) = call(|| fft_tempogram(&xf, sr, hop, mn as f32 / 1000.0, mx as f32 / 1000.0));
                    let out: Vec<Value> = t.unwrap_or_default().iter().map(|&(b, v)| json!([b3(b), q4(v)])).collect();
                    let at: Vec<usize> = (0..n).filter(|&i| x[i] != 0).collect();
                    let v: Vec<i64> = at.iter().map(|&i| x[i]).collect();
                    return vec![json!({"ev": "sfft", "status": status, "n": n, "at": at, "v": v, "sr": sr, "hop": hop, "min": mn, "max": mx, "out": out})];
                }
                let n = r.us(1, 32);
                let hi = *r.pick(&[1i64, 3, 6]);
                let x: Vec<i64> = match r.us(0, 1) { 0 => (0..n).map(|_| r.range(0, hi)).collect(), _ => { let p = r.us(2, 7); (0..n).map(|k| if k % p == 0 { 6 } else { 0 }).collect() } };
                let (sr, hop) = *r.pick(&[(10u32, 1u32), (100, 7), (441, 50), (9, 2)]);
                let mn = r.range(1, 120); let mx = mn + r.range(30, 300);
                let xf: Vec<f32> = x.iter().map(|&v| v as f32).collect();
                let (status, t) = call(|| fft_tempogram(&xf, sr, hop, mn as f32, mx as f32));
                let out: Vec<Value> = t.unwrap_or_default().iter().map(|&(b, v)| json!([b3(b), q4(v)])).collect();
                vec![json!({"ev": "fft", "status": status, "x": x, "sr": sr, "hop": hop, "min": mn * 1000, "max": mx * 1000, "out": out})]
            }
            10 => {
                let n = r.us(0, 4);
                let mut t: Vec<(i64, i64)> = (0..n).map(|_| (r.range(40, 240), r.range(0, 9) * 1000)).collect();
                t.sort_by_key(|x| -x.1);
                let tf: Tg = t.iter().map(|&(b, v)| (b as f32, v as f32 / 1000.0)).collect();
                let tv: Vec<Value> = t.iter().map(|&(b, v)| json!([b * 1000, v])).collect();
                let o1: Vec<i64> = find_best_bpm_autocorr(&tf).map(|x| vec![b3(x.bpm), q6(x.confidence)]).unwrap_or_default();
                let o2: Vec<i64> = find_best_bpm_fft(&tf).map(|x| vec![b3(x.bpm), q6(x.confidence)]).unwrap_or_default();
                let mut evs = vec![json!({"ev": "best", "status": "ok", "tg": tv, "out": o1}), json!({"ev": "best", "status": "ok", "tg": tv, "out": o2})];
                let n = r.us(0, 30);
                let cv = |r: &mut Rng, n: usize| -> Vec<i64> { (0..n).map(|_| if r.chance(1, 3) { r.range(0, 10) * 100_000 } else { r.range(0, 3) * 10_000 }).collect() };
                let (s, e, h) = { let (a, b, c) = (n + r.us(0, 1), n + r.us(0, 1), n); (cv(&mut r, a), cv(&mut r, b), cv(&mut r, c)) };
                let (ws, we, wh) = (r.range(0, 10) * 10, r.range(0, 10) * 10, r.range(0, 10) * 10);
                let def = r.chance(1, 3);
                let (ws, we, wh, lm, sm) = if def { (50, 30, 20, 16, 5) } else { (ws, we, wh, r.us(0, 20), r.us(0, 7)) };
                let f = |v: &Vec<i64>| -> Vec<f32> { v.iter().map(|&x| (x as f64 / 1e6) as f32).collect() };
                let g = guard(|| if def { combined_novelty(&f(&s), &f(&e), &f(&h)) } else { combined_novelty_with_params(&f(&s), &f(&e), &f(&h), ws as f32 / 100.0, we as f32 / 100.0, wh as f32 / 100.0, lm, sm) });
                evs.push(match g { Ok(o) => json!({"ev": "blend", "status": "ok", "s": s, "e": e, "h": h, "ws": ws, "we": we, "wh": wh, "lm": lm, "sm": sm, "out": q6s(&o)}), Err(_) => json!({"ev": "blend", "status": "panic"}) });
                evs
            }
            _ => {
                let x = vec![0.5f32; 20];
                let e: Vec<f32> = vec![];
                let (lo, hi) = *r.pick(&[(180.0f32, 60.0f32), (0.0, 120.0), (-10.0, 120.0), (100.0, 100.0), (60.0, -1.0)]);
                let z = *r.pick(&[0.0f32, -1.0]);
                let s = vec![vec![0.3f32; 5]; 40];
                let mut rag = s.clone(); rag[7].pop();
                let none: Vec<Vec<f32>> = vec![]; let emptyf = vec![vec![]; 4];
                let st = |x: String| json!({"ev": "bad", "status": x});
                vec![
                    st(call(|| autocorrelation_tempogram(&e, 10, 1, 60.0, 120.0, 1.0)).0), st(call(|| autocorrelation_tempogram(&x, 0, 1, 60.0, 120.0, 1.0)).0),
                    st(call(|| autocorrelation_tempogram(&x, 10, 0, 60.0, 120.0, 1.0)).0), st(call(|| autocorrelation_tempogram(&x, 10, 1, lo, hi, 1.0)).0),
                    st(call(|| autocorrelation_tempogram(&x, 10, 1, 60.0, 120.0, z)).0),
                    st(call(|| fft_tempogram(&e, 10, 1, 60.0, 120.0)).0), st(call(|| fft_tempogram(&x, 0, 1, 60.0, 120.0)).0), st(call(|| fft_tempogram(&x, 10, 0, 60.0, 120.0)).0), st(call(|| fft_tempogram(&x, 10, 1, lo, hi)).0),
                    st(call(|| estimate_bpm_tempogram(&none, 44100, 512, 60.0, 120.0, 1.0)).0), st(call(|| estimate_bpm_tempogram(&emptyf, 44100, 512, 60.0, 120.0, 1.0)).0),
                    st(call(|| estimate_bpm_tempogram(&rag, 44100, 512, 60.0, 120.0, 1.0)).0), st(call(|| estimate_bpm_tempogram(&s, 0, 512, 60.0, 120.0, 1.0)).0),
                    st(call(|| estimate_bpm_tempogram(&s, 44100, 0, 60.0, 120.0, 1.0)).0), st(call(|| estimate_bpm_tempogram(&s, 44100, 512, lo, hi, 1.0)).0), st(call(|| estimate_bpm_tempogram(&s, 44100, 512, 60.0, 120.0, z)).0),
                    st(call(|| estimate_bpm_tempogram_with_candidates(&s, 44100, 512, lo, hi, 1.0, 5)).0),
                    st(call(|| spectral_flux_novelty(&rag)).0), st(call(|| superflux_novelty(&rag, 2)).0), st(call(|| energy_flux_novelty(&rag)).0), st(call(|| hfc_novelty(&rag, 44100)).0), st(call(|| hfc_novelty(&s, 0)).0),
                    st(call(|| energy_flux_novelty_band(&rag, 0, 3)).0), st(call(|| hfc_novelty_band(&rag, 0, 3)).0), st(call(|| superflux_novelty_band(&rag, 2, 0, 3)).0), st(call(|| mel_superflux_novelty(&rag, 44100, 6, 30.0, 8000.0, 1)).0),
                    st(call(|| mel_superflux_novelty(&s, 0, 6, 30.0, 8000.0, 1)).0),
                ]
            }
        }
    });
}

fn main() { let a = args(); run(&a); }
