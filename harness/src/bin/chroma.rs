//! Spectrograms, pitch-class profiles, their smoothing and masking, for TraceChroma.
use stratum_dsp::features::chroma::extractor::*;
use stratum_dsp::features::chroma::normalization::*;
use stratum_dsp::features::chroma::smoothing::*;
use vh::*;

const MAGS: [i64; 4] = [0, 1, 32, 243];
fn rates(res: i64) -> (u32, usize) {
    match res { 312500 => (8000, 256), 500000 => (12800, 256), 1000000 => (44100, 441), 110000 => (11000, 1000), 73000 => (7300, 1000), 215000 => (21500, 1000), _ => panic!() }
}
fn f(m: &[Vec<i64>]) -> Vec<Vec<f32>> { m.iter().map(|r| r.iter().map(|&x| x as f32).collect()).collect() }
fn v4(m: &[Vec<f32>]) -> Vec<Vec<i64>> { m.iter().map(|r| r.iter().map(|&x| q4(x)).collect()).collect() }
fn v3(m: &[Vec<f32>]) -> Vec<Vec<i64>> { m.iter().map(|r| r.iter().map(|&x| q3(x)).collect()).collect() }
fn eq(a: &Option<Vec<Vec<f32>>>, b: &Option<Vec<Vec<f32>>>) -> bool {
    match (a, b) { (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.to_bits() == q.to_bits())), (None, None) => true, _ => false }
}
/// sparse frame: few sounding bins
fn sparse(r: &mut Rng, nb: usize, k: usize) -> Vec<i64> {
    let mut m = vec![0i64; nb];
    for _ in 0..k { let b = r.us(1, nb - 1); m[b] = MAGS[r.us(1, 3)]; if r.chance(1, 3) && b + 1 < nb { m[b + 1] = MAGS[r.us(0, 3)]; } }
    m
}
fn profile_event(m: Vec<i64>, res: i64, soft: bool, sg: i64, tun: i64) -> Value {
    let (sr, fft) = rates(res);
    let fr = f(&[m.clone()]);
    let o = call(|| extract_chroma_from_spectrogram_with_options_and_energy_tuned(&fr, sr, fft, soft, sg as f32 / 1000.0, tun as f32 / 1e6));
    let (c, e) = match &o.1 { Some((c, e)) => (v4(c), e.iter().map(|&x| q(x, 1.0)).collect()), None => (vec![], vec![]) };
    // the untuned entry points agree with each other
    let mut same = true;
    if tun == 0 {
        let a = call(|| extract_chroma_from_spectrogram_with_options(&fr, sr, fft, soft, sg as f32 / 1000.0)).1;
        let b = call(|| extract_chroma_from_spectrogram_with_options_and_energy(&fr, sr, fft, soft, sg as f32 / 1000.0)).1.map(|x| x.0);
        same = eq(&a, &b) && eq(&a, &o.1.map(|x| x.0));
    }
    json!({"ev": "profile", "m": m, "res": res, "nyq": sr as i64 * 5000, "soft": soft, "sg": sg, "tun": tun, "st": o.0, "c": c, "en": e, "same": same})
}
fn hpcp_event(r: &mut Rng) -> Value {
    let res = *r.pick(&[312500i64, 500000, 1000000, 110000]);
    let (sr, fft) = rates(res);
    let wide = r.chance(1, 40);
    let nb = if wide { r.us(60, 400) } else { r.us(20, 60) }; let nz = if wide { r.us(6, 24) } else { r.us(0, 6) };
    let m = sparse(r, nb, nz);
    let sg = *r.pick(&[300i64, 500, 1000]);
    let tun = *r.pick(&[0i64, 0, 250000, -300000]);
    let k = if wide { r.us(6, 24) } else { r.us(0, 6) }; let h = if wide { r.us(0, 10) } else { r.us(0, 4) };
    let dec = *r.pick(&[0i64, 50, 80, 100]);
    let comp = r.chance(1, 2);
    let p = if comp { 0.6f32 } else { 1.0 };
    let (white, wb) = (r.chance(1, 2), *r.pick(&[0usize, 3, 4, 9, 15, 40]));
    let fr = f(&[m.clone()]);
    let bass = r.chance(1, 3);
    let (blo, bhi, bw) = (*r.pick(&[40i64, 55, 150]), *r.pick(&[260i64, 400, 30]), *r.pick(&[0i64, 30, 50, 100]));
    let o = if bass {
        call(|| extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned(&fr, sr, fft, sg as f32 / 1000.0, tun as f32 / 1e6, k, h, dec as f32 / 100.0, p, white, wb, blo as f32, bhi as f32, bw as f32 / 100.0))
    } else {
        call(|| extract_hpcp_from_spectrogram_with_options_and_energy_tuned(&fr, sr, fft, sg as f32 / 1000.0, tun as f32 / 1e6, k, h, dec as f32 / 100.0, p, white, wb))
    };
    let (c, e) = match &o.1 { Some((c, e)) => (v4(c), e.iter().map(|&x| q(x, 1.0)).collect()), None => (vec![], vec![]) };
    json!({"ev": "hpcp", "m": m, "res": res, "nyq": sr as i64 * 5000, "sg": sg, "tun": tun, "k": k, "h": h, "dec": dec, "comp": comp, "white": white, "wb": wb,
           "bass": bass, "blo": blo * 10000, "bhi": bhi * 10000, "bw": bw, "st": o.0, "c": c, "en": e})
}
fn log_event(r: &mut Rng) -> Value {
    let res = *r.pick(&[312500i64, 500000, 1000000, 110000]);
    let (sr, fft) = rates(res);
    let nb = r.us(20, 100); let nz = r.us(0, 8);
    let m = sparse(r, nb, nz);
    let lo = *r.pick(&[10i64, 80, 100, 300]); let hi = *r.pick(&[90i64, 1000, 5000, 20000]);
    let fr = f(&[m.clone()]);
    let o = call(|| convert_linear_to_log_frequency_spectrogram(&fr, sr, fft, lo as f32, hi as f32));
    let row = o.1.as_ref().map(|x| v3(x)[0].clone()).unwrap_or_default();
    json!({"ev": "log", "m": m, "res": res, "nyq": sr as i64 * 5000, "lo": lo * 10000, "hi": hi * 10000, "st": o.0, "row": row})
}
fn fold_event(r: &mut Rng) -> Value {
    let top = if r.chance(1, 4) { 130 } else { 40 };
    let nb = r.us(1, top);
    let m: Vec<i64> = (0..nb).map(|_| if r.chance(1, 3) { r.range(-3, 9) } else { 0 }).collect();
    let off = r.range(-40, 60);
    let fr = f(&[m.clone()]);
    let o = call(|| extract_chroma_from_log_frequency_spectrogram(&fr, off as i32));
    json!({"ev": "fold", "m": m, "off": off, "st": o.0, "c": o.1.map(|x| v4(&x)).unwrap_or_default()})
}
fn beat_event(r: &mut Rng) -> Value {
    let long = r.chance(1, 15);
    let n = if long { r.us(13, 80) } else { r.us(1, 12) };
    let (sr, fft, hop) = (8000u32, 256usize, 1000usize); // eight frames per second
    let mut fr = vec![]; for _ in 0..n { let k = r.us(0, 4); fr.push(sparse(r, 80, k)); }
    let nb = if long { r.us(7, 30) } else { r.us(0, 6) };
    let mut t: Vec<i64> = (0..nb).map(|_| r.range(0, if long { 170 } else { 30 })).collect(); // sixteenths of a second
    if r.chance(5, 6) { t.sort(); }
    let ff = f(&fr);
    let soft = r.chance(1, 2);
    let each = call(|| extract_chroma_from_spectrogram_with_options_and_energy_tuned(&ff, sr, fft, soft, 0.5, 0.0)).1.unwrap_or_default();
    let bt: Vec<f32> = t.iter().map(|&x| x as f32 / 16.0).collect();
    let o = call(|| extract_beat_synchronous_chroma(&ff, sr, fft, hop, &bt, soft, 0.5, 0.0));
    let (c, e) = match &o.1 { Some((c, e)) => (v4(c), e.iter().map(|&x| q(x, 1.0)).collect::<Vec<_>>()), None => (vec![], vec![]) };
    json!({"ev": "beat", "t": t, "n": n, "each": v4(&each.0), "en": each.1.iter().map(|&x| q(x, 1.0)).collect::<Vec<_>>(), "st": o.0, "c": c, "e": e})
}
fn grid(r: &mut Rng, n: usize, b: usize, hi: i64) -> Vec<Vec<i64>> { (0..n).map(|_| (0..b).map(|_| if r.chance(1, 3) { 0 } else { r.range(0, hi) }).collect()).collect() }
fn smooth_event(r: &mut Rng) -> Value {
    let long = r.chance(1, 15);
    let n = if long { r.us(10, 120) } else { r.us(0, 9) };
    let b = if long { 1 } else if r.chance(1, 2) { 12 } else { r.us(1, 4) };
    let x = grid(r, n, b, 9);
    let w = if long { r.us(0, 60) } else { r.us(0, 8) };
    let xf = f(&x);
    let kind = *r.pick(&["median", "mean", "time"]);
    let (st, y) = match kind {
        "median" => match guard(|| smooth_chroma(&xf, w)) { Ok(y) => ("ok".to_string(), y), Err(_) => ("panic".into(), vec![]) },
        "mean" => match guard(|| smooth_chroma_average(&xf, w)) { Ok(y) => ("ok".to_string(), y), Err(_) => ("panic".into(), vec![]) },
        _ => { let o = call(|| smooth_spectrogram_time(&xf, w)); (o.0, o.1.unwrap_or_default()) }
    };
    json!({"ev": "smooth", "kind": kind, "x": x, "w": w, "st": st, "y": v4(&y)})
}
fn mask_event(r: &mut Rng) -> Value {
    let long = r.chance(1, 15);
    let (n, b) = if !long { (r.us(1, 7), r.us(1, 7)) } else if r.chance(1, 2) { (r.us(8, 60), r.us(1, 2)) } else { (r.us(1, 2), r.us(8, 60)) };
    let top = if long { 30 } else { 3 };
    let x = grid(r, n, b, 12);
    let p = r.us(0, 3);
    let xf = f(&x);
    if r.chance(1, 2) {
        let g = r.us(0, top);
        let o = call(|| harmonic_spectrogram_time_mask(&xf, g, p as f32));
        json!({"ev": "tmask", "x": x, "g": g, "p": p.max(1), "st": o.0, "y": o.1.map(|y| v4(&y)).unwrap_or_default()})
    } else {
        // 100 Hz per bin, bounds between bins
        let lo = *r.pick(&[0i64, 50, 150, 350]); let hi = *r.pick(&[250i64, 450, 5000]);
        let (step, tm, fm) = (r.us(0, 3), r.us(0, top), r.us(0, top));
        let o = call(|| harmonic_spectrogram_hpss_median_mask(&xf, 44100, 441, lo as f32, hi as f32, step, tm, fm, p as f32));
        json!({"ev": "hmask", "x": x, "lo": lo, "hi": hi, "step": step, "tm": tm, "fm": fm, "p": p.max(1), "st": o.0, "y": o.1.map(|y| v4(&y)).unwrap_or_default()})
    }
}
fn scale_event(r: &mut Rng) -> Value {
    let n = *r.pick(&[0usize, 1, 3, 12, 12]);
    let x: Vec<i64> = (0..n).map(|_| if r.chance(1, 3) { 0 } else { r.range(0, 9) }).collect();
    let p = r.us(1, 3);
    let k = if r.chance(1, 10) { 0.0f32 } else { 1.0 };
    // the level of a profile does not matter, however faint or strong
    let lev = if r.chance(1, 3) { *r.pick(&[[1.0f32 / 1048576.0, 1.0 / 16384.0, 1.0 / 512.0][p - 1], 1.0 / 64.0, 64.0]) } else { 1.0 };
    let xf: Vec<f32> = x.iter().map(|&v| v as f32 * k * lev).collect();
    let x: Vec<i64> = x.iter().map(|&v| v * k as i64).collect();
    let (st, a, b) = match guard(|| (sharpen_chroma(&xf, p as f32), l2_normalize_chroma(&xf))) { Ok((a, b)) => ("ok", a, b), Err(_) => ("panic", vec![], vec![]) };
    json!({"ev": "scale", "x": x, "p": p, "st": st, "a": q4s(&a), "b": q4s(&b)})
}
fn stft_event(r: &mut Rng) -> Value {
    let n = *r.pick(&[1usize, 2, 3, 4, 5, 8, 12, 16]);
    let hop = *r.pick(&[1usize, 2, 3, 4, 7, 16, 40]);
    let len = r.us(0, 40);
    let x: Vec<i64> = (0..len).map(|_| r.range(-4, 4)).collect();
    let xf: Vec<f32> = x.iter().map(|&v| v as f32).collect();
    let o = call(|| compute_stft(&xf, n, hop));
    json!({"ev": "stft", "x": x, "n": n, "hop": hop, "st": o.0, "y": o.1.map(|y| v3(&y)).unwrap_or_default()})
}
/// Frame counts of ordinary sizes.
fn count_event(r: &mut Rng) -> Value {
    let (n, hop, len) = if r.chance(1, 20) { (*r.pick(&[16usize, 32, 100]), r.us(1, 2), r.us(4000, 12000)) } else { (*r.pick(&[64usize, 100, 256, 1024]), r.us(1, 600), r.us(0, 4000)) };
    let x: Vec<f32> = (0..len).map(|_| r.fr(-1.0, 1.0)).collect();
    let a = call(|| compute_stft(&x, n, hop));
    let b = call(|| extract_chroma(&x, 8000, n, hop));
    let soft = call(|| extract_chroma_with_options(&x, 8000, n, hop, true, 0.5)).1;
    let two = call(|| a.1.clone().map(|s| extract_chroma_from_spectrogram_with_options(&s, 8000, n, true, 0.5)).unwrap_or(Ok(vec![]))).1;
    let norms: Vec<i64> = b.1.clone().unwrap_or_default().iter().map(|v| q4(v.iter().map(|x| x * x).sum::<f32>())).collect();
    let neg = b.1.clone().unwrap_or_default().iter().any(|v| v.len() != 12 || v.iter().any(|&x| !(x >= 0.0)));
    let same = len == 0 || (eq(&soft, &b.1) && eq(&two, &b.1));
    json!({"ev": "count", "n": n, "hop": hop, "len": len, "sts": [a.0, b.0], "frames": a.1.as_ref().map(|x| x.len()).unwrap_or(0), "bins": a.1.as_ref().and_then(|x| x.first().map(|y| y.len())).unwrap_or(0),
           "chromas": b.1.map(|x| x.len()).unwrap_or(0), "norms": norms, "neg": neg, "same": same})
}
/// A pure tone at a note's frequency.
fn tone_event(r: &mut Rng) -> Value {
    let (sr, n) = *r.pick(&[(22050u32, 8192usize), (44100, 16384), (16000, 4096), (48000, 16384), (11025, 4096)]);
    let s = r.range(40, 84); // 165 Hz .. 2.1 kHz
    let fq = 440.0 * 2f64.powf((s as f64 - 57.0) / 12.0);
    let (amp, ph) = (*r.pick(&[0.01f64, 0.3, 1.0]), r.fr(0.0, 6.28) as f64);
    let x: Vec<f32> = (0..n * 3 / 2).map(|i| (amp * (2.0 * std::f64::consts::PI * fq * i as f64 / sr as f64 + ph).sin()) as f32).collect();
    let soft = r.chance(1, 2);
    let o = call(|| extract_chroma_with_options(&x, sr, n, n / 4, soft, 0.5));
    let tops: Vec<i64> = o.1.clone().unwrap_or_default().iter().map(|v| (0..12).max_by(|&a, &b| v[a].total_cmp(&v[b])).unwrap() as i64).collect();
    let st = compute_stft(&x, n, n / 4).unwrap_or_default();
    let hp = call(|| extract_hpcp_from_spectrogram_with_options_and_energy_tuned(&st, sr, n, 0.5, 0.0, 8, 1, 0.6, 0.6, false, 0)).1.unwrap_or_default().0;
    let htops: Vec<i64> = hp.iter().map(|v| (0..12).max_by(|&a, &b| v[a].total_cmp(&v[b])).unwrap() as i64).collect();
    json!({"ev": "tone", "s": s, "sr": sr, "n": n, "st": o.0, "tops": tops, "htops": htops})
}
fn tune_event(r: &mut Rng) -> Value {
    let res = *r.pick(&[312500i64, 110000, 73000]);
    let (sr, fft) = rates(res);
    let nb = r.us(30, 100);
    let n = r.us(1, 3);
    let sq = [0i64, 1, 4, 9, 25];
    let mut m = vec![];
    for _ in 0..n { let mut row = vec![0i64; nb]; for _ in 0..r.us(0, 3) { row[r.us(5, nb - 1)] = sq[r.us(1, 4)]; } m.push(row); }
    let (lo, hi) = (*r.pick(&[10i64, 103, 203]), *r.pick(&[905i64, 1907, 6007]));
    let step = r.us(0, 2);
    let thr = *r.pick(&[0i64, 10, 30, 100]); // percent, away from the ratios of the magnitudes
    let thr = match thr { 0 => 0, 10 => 10, 30 => 30, _ => 95 };
    // at any level
    let lev = *r.pick(&[1.0f32, 1.0, 4096.0, 1.0 / 4096.0]);
    let fr: Vec<Vec<f32>> = f(&m).iter().map(|x| x.iter().map(|v| v * lev).collect()).collect();
    let o = call(|| estimate_tuning_offset_semitones_from_spectrogram(&fr, sr, fft, lo as f32, hi as f32, step, thr as f32 / 100.0));
    json!({"ev": "tune", "m": m, "res": res, "nyq": sr as i64 * 5000, "lo": lo * 10000, "hi": hi * 10000, "step": step, "thr": thr, "st": o.0, "d": o.1.map(q6).unwrap_or(0)})
}
fn bad_event(r: &mut Rng) -> Value {
    let what = *r.pick(&["ragged", "hollow", "zero"]);
    let x: Vec<Vec<f32>> = match what { "ragged" => vec![vec![1.0; 8], vec![1.0; 7]], _ => vec![vec![]; 3] };
    let mut s = vec![];
    if what == "zero" {
        let y = vec![0.5f32; 3000];
        s.push(call(|| compute_stft(&y, 0, 10)).0); s.push(call(|| compute_stft(&y, 10, 0)).0);
        s.push(call(|| extract_chroma(&y, 8000, 0, 10)).0); s.push(call(|| extract_chroma(&y, 8000, 10, 0)).0); s.push(call(|| extract_chroma(&y, 0, 10, 10)).0); s.push(call(|| extract_chroma(&[], 8000, 10, 10)).0);
        let g = vec![vec![1.0f32; 8]; 3];
        s.push(call(|| convert_linear_to_log_frequency_spectrogram(&g, 0, 16, 100.0, 5000.0)).0);
        s.push(call(|| convert_linear_to_log_frequency_spectrogram(&g, 8000, 0, 100.0, 5000.0)).0);
        s.push(call(|| extract_beat_synchronous_chroma(&g, 8000, 16, 10, &[], true, 0.5, 0.0)).0);
    } else {
        s.push(call(|| extract_chroma_from_spectrogram_with_options(&x, 8000, 16, true, 0.5)).0);
        s.push(call(|| extract_chroma_from_spectrogram_with_options_and_energy(&x, 8000, 16, true, 0.5)).0);
        s.push(call(|| extract_chroma_from_spectrogram_with_options_and_energy_tuned(&x, 8000, 16, true, 0.5, 0.1)).0);
        s.push(call(|| extract_hpcp_from_spectrogram_with_options_and_energy_tuned(&x, 8000, 16, 0.5, 0.0, 4, 2, 0.5, 0.5, false, 0)).0);
        s.push(call(|| extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned(&x, 8000, 16, 0.5, 0.0, 4, 2, 0.5, 0.5, false, 0, 50.0, 200.0, 0.3)).0);
        s.push(call(|| estimate_tuning_offset_semitones_from_spectrogram(&x, 8000, 16, 80.0, 2000.0, 1, 0.3)).0);
        s.push(call(|| smooth_spectrogram_time(&x, 2)).0);
        s.push(call(|| harmonic_spectrogram_time_mask(&x, 2, 2.0)).0);
        s.push(call(|| harmonic_spectrogram_hpss_median_mask(&x, 8000, 16, 80.0, 2000.0, 1, 1, 1, 2.0)).0);
    }
    json!({"ev": "bad", "what": what, "sts": s})
}

fn main() {
    let a = args();
    let cases = if a.cases.is_some() { read_cases(&a) } else { vec![] };
    let m = cases.len() as u64;
    drive(&a, m + a.n, 60, |i, mut r| {
        if i < m {
            let (b, res) = (cases[i as usize]["bin"].as_u64().unwrap() as usize, cases[i as usize]["res"].as_i64().unwrap());
            let mut v = vec![0i64; b + 2]; v[b] = MAGS[r.us(1, 3)];
            return vec![profile_event(v.clone(), res, false, 500, 0), profile_event(v, res, true, *r.pick(&[300i64, 500, 1000]), *r.pick(&[0i64, 250000, -300000]))];
        }
        match i % 20 {
            0..=3 => { let res = *r.pick(&[312500i64, 500000, 1000000, 110000]); let nb = r.us(4, 120); let k = r.us(0, 6); let v = sparse(&mut r, nb, k); let soft = r.chance(2, 3); let tun = *r.pick(&[0i64, 0, 250000, -300000, 490000]); let sg = *r.pick(&[300i64, 500, 1000, 2000]); vec![profile_event(v, res, soft, sg, tun)] }
            4..=7 => vec![hpcp_event(&mut r)],
            8 => vec![log_event(&mut r)],
            9 => vec![fold_event(&mut r)],
            10 => vec![beat_event(&mut r)],
            11 | 12 => vec![smooth_event(&mut r)],
            13 | 14 => vec![mask_event(&mut r)],
            15 => vec![scale_event(&mut r)],
            16 => vec![stft_event(&mut r)],
            17 => vec![count_event(&mut r)],
            18 => if i % 40 == 18 { vec![tone_event(&mut r)] } else { vec![tune_event(&mut r)] },
            _ => if i % 200 == 19 { vec![bad_event(&mut r)] } else { vec![log_event(&mut r)] },
        }
    });
}
