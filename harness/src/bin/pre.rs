//! Suite "pre": silence trimming, normalization, channel mixing.
use stratum_dsp::preprocessing::channel_mixer::*;
use stratum_dsp::preprocessing::normalization::*;
use stratum_dsp::preprocessing::silence::*;
use vh::*;

fn ints(v: &Value) -> Vec<i64> { v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default() }

/// Call the trimmer and locate its output inside the input.
fn trim_event(x: &[f32], sr: u32, db: f32, ms: u32, f: usize) -> Value {
    let before = x.to_vec();
    let (status, v) = call(|| detect_and_trim(x, sr, SilenceDetector { threshold_db: db, min_duration_ms: ms, frame_size: f }));
    let mut e = json!({"status": status, "n": x.len(), "f": f, "ms": ms, "sr": sr, "start": 0, "len": 0, "same": true, "regs": []});
    if let Some((t, regs)) = v {
        // the start is where the reported leading silence ends; the output has to be that slice, bit for bit
        let start = match regs.first() { Some(&(0, b)) => b, _ => 0 };
        let fits = start + t.len() <= x.len() && t.iter().zip(&x[start.min(x.len())..]).all(|(a, b)| a.to_bits() == b.to_bits());
        e["start"] = json!(if t.is_empty() { 0 } else { start });
        e["len"] = json!(t.len());
        e["same"] = json!((t.is_empty() || fits) && before.iter().zip(x).all(|(a, b)| a.to_bits() == b.to_bits()));
        e["regs"] = json!(regs.iter().map(|&(a, b)| json!([a, b])).collect::<Vec<_>>());
    }
    // is floor(ms * sr / 1000) free of rounding doubt?
    let exact = (ms as u64 * sr as u64) / 1000;
    let clear = ms as u64 * sr as u64 % 1000 == 0 && (ms as f32 / 1000.0 * sr as f32) as u64 == exact;
    e["slack"] = json!(if clear || ms == 0 { 0 } else { 1 });
    e
}

fn silence(a: &Args) {
    let cases = read_cases(a);
    let m = cases.len() as u64;
    drive(a, m + a.n, 120, |i, mut r| {
        if i < m {
            // replay of a case of the model: one sample per model sample, 1 kHz so that 1 ms = 1 sample
            let c = &cases[i as usize];
            let p = ints(&c["p"]);
            let f = c["f"].as_u64().unwrap() as usize;
            let d = c["d"].as_u64().unwrap() as u32;
            let loud = *r.pick(&[64i64, -64, 40]);
            let xs: Vec<i64> = p.iter().map(|&b| if b == 1 { if r.chance(1, 2) { loud } else { -loud } } else { 0 }).collect();
            let x: Vec<f32> = xs.iter().map(|&k| k as f32 / 64.0).collect();
            let mut e = trim_event(&x, 1000, -60.0, d, f);
            e["ev"] = json!("trim"); e["xs"] = json!(xs); e["thr2"] = json!(4); e["exact"] = json!(false);
            return vec![e];
        }
        if r.chance(2, 3) {
            // small signals with integer samples: quiet, near-threshold and loud stretches
            let f = *r.pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 16, 31]);
            let n = r.us(1, 160);
            let unit = r.chance(1, 2);
            // threshold 0 dB (exactly 1.0, i.e. 64 units) or something inexact below
            let (db, thr) = if unit { (0.0f32, 64.0f64) } else { let d = r.fr(-30.0, -3.0); (d, 64.0 * 10f64.powf(d as f64 / 20.0)) };
            let mut xs: Vec<i64> = Vec::new();
            while xs.len() < n {
                let k = r.us(1, 24);
                let t = thr as i64;
                let lv = match r.below(5) { 0 => 0, 1 => t, 2 => t + 1 + r.us(0, 3) as i64, 3 => (t - 2).max(0), _ => 64 + r.us(0, 60) as i64 };
                let alt = r.chance(1, 2);
                for q in 0..k { xs.push(if alt && q % 2 == 1 { -lv } else { lv }); }
            }
            xs.truncate(n);
            let x: Vec<f32> = xs.iter().map(|&k| k as f32 / 64.0).collect();
            let sr = *r.pick(&[1000u32, 2000, 500, 441, 8000, 44100]);
            let ms = *r.pick(&[0u32, 1, 2, 5, 10, 20, 37, 100]);
            let ms = if sr > 8000 { ms.min(5) } else { ms };
            // slow clocks: pauses of seconds and minutes in few samples
            let (sr, ms) = if r.chance(1, 6) { let q = *r.pick(&[1u32, 2, 5, 10]); (q, *r.pick(&[1000u32, 3000, 10000, 40000, 66000, 100000]) / q) } else { (sr, ms) };
            let mut e = trim_event(&x, sr, db, ms, f);
            e["ev"] = json!("trim"); e["xs"] = json!(xs); e["exact"] = json!(unit);
            e["thr2"] = json!(qd(thr * thr, 1000.0));
            return vec![e];
        }
        // realistic sizes, logged as frame levels
        let sr = *r.pick(&[8000u32, 22050, 44100]);
        let f = *r.pick(&[256usize, 512, 1000, 2048, 4096, 5000, 8192, 16384]);
        // now and then a track's worth of audio, with pauses of many seconds
        let long = r.chance(1, 40);
        let n = if long { r.us(sr as usize * 10, sr as usize * 45) } else { r.us(1, (sr as usize) * 3) };
        let f = if long { f.max(512) } else { f };
        let db = r.fr(-60.0, -20.0);
        let mut x = vec![0f32; 0];
        // a talk: dozens of pauses, long and short
        let talk = r.chance(1, 12);
        let n = if talk { r.us(sr as usize * 4, sr as usize * 16) } else { n };
        let f = if talk { f.min(512) } else { f };
        let mut on = r.chance(1, 2);
        while talk && x.len() < n {
            let k = r.us(sr as usize / 20, sr as usize / 5);
            for _ in 0..k { x.push(if on { 0.5 * r.fr(-1.0, 1.0) } else { 0.0 }); }
            on = !on;
        }
        while x.len() < n {
            let k = if r.chance(1, 3) { r.us(1, 2000) } else if long { r.us(1000, sr as usize * 15) } else { r.us(1000, sr as usize) };
            let amp = *r.pick(&[0.0f32, 0.0, 0.00001, 0.3, 0.8]);
            for _ in 0..k { x.push(amp * r.fr(-1.0, 1.0)); }
        }
        x.truncate(n);
        let ms = if talk { *r.pick(&[0u32, 50, 80, 110, 150]) } else if long { *r.pick(&[0u32, 100, 500, 2000, 5000, 20000]) } else { *r.pick(&[0u32, 50, 100, 200, 500, 1000]) };
        let mut e = trim_event(&x, sr, db, ms, f);
        let hop = (f / 2).max(1);
        let num = if n >= f { (n - f) / hop + 1 } else { 1 };
        let lev: Vec<i64> = (0..num).map(|i| { let s = i * hop; let t = (s + f).min(n);
            let q: f64 = x[s..t].iter().map(|&v| v as f64 * v as f64).sum(); qd((q / (t - s) as f64).sqrt(), 1e6) }).collect();
        e["ev"] = json!("frames"); e["lev"] = json!(lev); e["thr"] = json!(qd(10f64.powf(db as f64 / 20.0), 1e6));
        vec![e]
    });
}

fn db(x: f64) -> f64 { 20.0 * x.log10() }
/// K-weighted block energies, computed independently in double precision.
fn k_blocks(x: &[f32], sr: f32) -> Vec<f64> {
    let w0 = 2.0 * std::f64::consts::PI * 1681.9745 / sr as f64;
    let (c, s) = (w0.cos(), w0.sin());
    let alpha = s / 2.0 * (1.0f64 / 0.707).sqrt();
    let a0 = 1.0 + alpha;
    let (b0, b1, b2, a1, a2) = ((1.0 + c) / 2.0 / a0, -(1.0 + c) / a0, (1.0 + c) / 2.0 / a0, -2.0 * c / a0, (1.0 - alpha) / a0);
    let (mut z1, mut z2) = (0.0, 0.0);
    let y: Vec<f64> = x.iter().map(|&v| { let v = v as f64; let o = b0 * v + z1; z1 = b1 * v + z2 - a1 * o; z2 = b2 * v - a2 * o; o }).collect();
    let bs = (sr * 400.0 / 1000.0) as usize;
    y.chunks(bs).map(|b| b.iter().map(|v| v * v).sum::<f64>() / b.len() as f64).collect()
}

fn norm(a: &Args) {
    drive(a, a.n, 120, |_i, mut r| {
        let sr = *r.pick(&[8000.0f32, 11025.0, 22050.0, 44100.0, 48000.0]);
        let n = if r.chance(1, 6) { r.us(1, 40) } else if r.chance(1, 60) { r.us((sr * 3.0) as usize, (sr * 40.0) as usize) } else { r.us(100, (sr * 2.2) as usize) };
        let amp = 10f32.powf(if r.chance(1, 6) { r.fr(-130.0, -70.0) } else { r.fr(-70.0, 12.0) } / 20.0);
        let kind = r.us(0, 6);
        let f0 = r.fr(100.0, 3500.0);
        let mut x: Vec<f32> = match kind {
            0 => audio::noise(&mut r, n, amp),
            1 => audio::sine(n, sr as u32, f0, amp),
            2 => { let mut v = vec![0.0; n]; let k = r.us(0, n - 1); v[k] = if r.chance(1, 2) { amp } else { -amp }; v }
            3 => vec![amp; n],
            4 => { let mut v = audio::noise(&mut r, n, amp); let k = r.us(0, n - 1); for s in &mut v[k..] { *s *= 0.001; } v }
            5 => vec![0.0; n],
            _ => { let h = n / 2; let mut v = audio::sine(n, sr as u32, f0, amp); for s in &mut v[..h] { *s = 0.0; } v }
        };
        let method = *r.pick(&["peak", "rms", "loud"]);
        // quarter-dB targets
        let lufs = if r.chance(1, 3) { -14.0 } else { r.range(-160, -4) as f32 / 4.0 };
        let headroom = if r.chance(1, 3) { 1.0 } else { r.range(0, 48) as f32 / 4.0 };
        let peak = x.iter().fold(0.0f64, |m, &v| m.max((v as f64).abs()));
        let rms = (x.iter().map(|&v| v as f64 * v as f64).sum::<f64>() / n as f64).sqrt();
        let blocks = if method == "loud" { k_blocks(&x, sr) } else { vec![] };
        let gate = 10f64.powf((-70.0 + 0.691) / 10.0);
        // stay clear of the gate and of the numeric floor
        if blocks.iter().any(|&b| b > gate * 0.5 && b < gate * 2.0) { return vec![]; }
        let silent = peak == 0.0;
        if !silent && (rms < 1e-7 || peak < 1e-7) { return vec![]; }
        let gated = method == "loud" && !blocks.iter().any(|&b| b > gate);
        let mean = { let g: Vec<f64> = blocks.iter().cloned().filter(|&b| b > gate).collect(); if g.is_empty() { 0.0 } else { g.iter().sum::<f64>() / g.len() as f64 } };
        let loud = if mean > 0.0 { -0.691 + 10.0 * mean.log10() } else { -100.0 };
        // energies in 1e-8; scale down if large so that sums stay small integers
        let big = blocks.iter().cloned().fold(0.0, f64::max);
        if big > 1.0 || blocks.iter().sum::<f64>() > 18.0 { return vec![]; }
        let input = x.clone();
        let m = match method { "peak" => NormalizationMethod::Peak, "rms" => NormalizationMethod::RMS, _ => NormalizationMethod::Loudness };
        let (status, v) = call(|| normalize(&mut x, NormalizationConfig { target_loudness_lufs: lufs, max_headroom_db: headroom, method: m }, sr));
        let opeak = x.iter().fold(0.0f64, |m, &v| m.max((v as f64).abs()));
        let k = input.iter().enumerate().max_by(|p, q| p.1.abs().total_cmp(&q.1.abs())).map(|p| p.0).unwrap();
        let g = if silent { 1.0 } else { x[k] as f64 / input[k] as f64 };
        let dev = if silent { 0.0 } else { input.iter().zip(&x).map(|(&a, &b)| (b as f64 - g * a as f64).abs()).fold(0.0, f64::max) / opeak.max(1e-30) };
        let same = input.iter().zip(&x).all(|(a, b)| a.to_bits() == b.to_bits());
        let mdb = |v: f64| qd(v, 1000.0);
        let (gdb, rpeak, m_e) = match &v { Some(md) => (q(md.gain_db, 1000.0), q(md.peak_db, 1000.0), md.measured_lufs.map(|l| qd(10f64.powf((l as f64 + 0.691) / 10.0), 1e8)).unwrap_or(NANV)), None => (NANV, NANV, NANV) };
        vec![json!({"ev": "norm", "status": status, "method": method, "lufs": q(lufs, 1000.0), "headroom": q(headroom, 1000.0), "silent": silent, "gated": gated,
            "peak": if silent { -200000 } else { mdb(db(peak)) }, "rms": if silent { -200000 } else { mdb(db(rms)) }, "loud": mdb(loud),
            "blocks": blocks.iter().map(|&b| qd(b, 1e8)).collect::<Vec<_>>(), "len": input.len(), "olen": x.len(), "same": same, "dev": qd(dev, 1e6),
            "agdb": if g > 0.0 { mdb(db(g)) } else { NANV }, "gdb": gdb, "opeak": if silent { 0 } else { mdb(db(opeak)) }, "rpeak": rpeak, "mE": m_e})]
    });
}

fn mix(a: &Args) {
    let cases = read_cases(a);
    let m = cases.len() as u64;
    drive(a, m + a.n, 60, |i, mut r| {
        let (x, y, mode) = if i < m { let c = &cases[i as usize]; (ints(&c["x"]), ints(&c["y"]), c["m"].as_str().unwrap().to_string()) } else {
            let n = if r.chance(1, 100) { r.us(40, 6000) } else { r.us(0, 40) };
            let n2 = if r.chance(1, 8) { r.us(0, 40) } else { n };
            let hi = *r.pick(&[3i64, 1000, 100000]);
            let x: Vec<i64> = (0..n).map(|_| r.range(-hi, hi)).collect();
            let mut y: Vec<i64> = (0..n2).map(|_| r.range(-hi, hi)).collect();
            for k in 0..n.min(n2) { match r.below(6) { 0 => y[k] = x[k], 1 => y[k] = -x[k], _ => {} } }
            (x, y, r.pick(&["mono", "midside", "dominant", "center"]).to_string())
        };
        let scale = *r.pick(&[1.0f32, 1.0 / 1024.0, 1.0 / 131072.0]);
        let f = |v: &[i64]| -> Vec<f32> { v.iter().map(|&k| k as f32 * scale).collect() };
        let mm = match mode.as_str() { "mono" => ChannelMixMode::Mono, "midside" => ChannelMixMode::MidSide, "dominant" => ChannelMixMode::Dominant, _ => ChannelMixMode::Center };
        let (status, v) = call(|| stereo_to_mono(&f(&x), &f(&y), mm));
        let out: Vec<f64> = v.unwrap_or_default().iter().map(|&o| o as f64 / scale as f64 * 2.0).collect();
        let exact = out.iter().all(|o| o.is_finite() && o.fract() == 0.0);
        vec![json!({"ev": "mix", "x": x, "y": y, "m": mode, "status": status, "out": out.iter().map(|&o| qd(o, 1.0)).collect::<Vec<_>>(), "exact": exact})]
    });
}

fn main() {
    let a = args();
    match a.mode.as_str() { "silence" => silence(&a), "norm" => norm(&a), "mix" => mix(&a), m => panic!("mode {m}") }
}
