//! Signal generators used by the scenario suites.
use crate::rng::Rng;
use std::f32::consts::PI;

pub fn silence(n: usize) -> Vec<f32> { vec![0.0; n] }

pub fn sine(n: usize, sr: u32, freq: f32, amp: f32) -> Vec<f32> {
    (0..n).map(|i| amp * (2.0 * PI * freq * i as f32 / sr as f32).sin()).collect()
}

pub fn noise(r: &mut Rng, n: usize, amp: f32) -> Vec<f32> { (0..n).map(|_| amp * r.fr(-1.0, 1.0)).collect() }

/// Add a decaying click (noise burst + low tone) at sample `at`.
pub fn add_click(x: &mut [f32], r: &mut Rng, at: usize, sr: u32, amp: f32, len_s: f32) {
    let len = ((sr as f32 * len_s) as usize).max(4);
    for k in 0..len {
        let i = at + k;
        if i >= x.len() { break; }
        let env = (-(6.0 * k as f32) / len as f32).exp();
        let tone = (2.0 * PI * 60.0 * k as f32 / sr as f32).cos();
        x[i] += amp * env * (0.6 * tone + 0.4 * r.fr(-1.0, 1.0));
    }
}

/// Click track. Returns the samples and the click positions.
pub fn clicks(r: &mut Rng, n: usize, sr: u32, bpm: f32, amp: f32, accent: usize, start: usize) -> (Vec<f32>, Vec<usize>) {
    let mut x = silence(n);
    let step = 60.0 * sr as f32 / bpm;
    let mut pos = Vec::new();
    let mut k = 0usize;
    loop {
        let at = start + (k as f32 * step).round() as usize;
        if at >= n { break; }
        let a = if accent > 0 && k % accent == 0 { amp } else { amp * 0.7 };
        add_click(&mut x, r, at, sr, a, 0.05);
        pos.push(at);
        k += 1;
    }
    (x, pos)
}

pub fn chord(n: usize, sr: u32, notes: &[i32], amp: f32) -> Vec<f32> {
    let mut x = silence(n);
    for &m in notes {
        let f = 440.0 * 2f32.powf((m as f32 - 69.0) / 12.0);
        for h in 1..=3 {
            let fh = f * h as f32;
            if fh * 2.0 >= sr as f32 { break; }
            let a = amp / (h as f32 * notes.len() as f32);
            for (i, v) in x.iter_mut().enumerate() { *v += a * (2.0 * PI * fh * i as f32 / sr as f32).sin(); }
        }
    }
    x
}

pub fn mix(a: &mut [f32], b: &[f32]) { for (x, y) in a.iter_mut().zip(b) { *x += *y; } }

pub const KINDS: &[&str] = &[
    "clicks", "clicks_chord", "noise", "sine", "chord", "silence", "quiet", "const", "impulse", "nan_one", "nan_all",
    "inf_one", "neg_inf", "huge", "subnormal", "alt", "sil_head", "sil_tail", "sil_mid", "tempo_change", "sparse", "square", "am_noise",
];

pub fn by_kind(kind: &str, r: &mut Rng, n: usize, sr: u32) -> Vec<f32> {
    let bpm = r.fr(45.0, 230.0);
    match kind {
        "clicks" => { let acc = r.us(0, 4); clicks(r, n, sr, bpm, 0.9, acc, 0).0 }
        "clicks_chord" => {
            let root = r.range(48, 70) as i32;
            let notes = if r.chance(1, 2) { [root, root + 4, root + 7] } else { [root, root + 3, root + 7] };
            let mut x = chord(n, sr, &notes, 0.4);
            let off = r.us(0, sr as usize / 2);
            let c = clicks(r, n, sr, bpm, 0.6, 4, off).0;
            mix(&mut x, &c);
            x
        }
        "noise" => noise(r, n, 0.5),
        "sine" => { let f = r.fr(50.0, 2000.0); sine(n, sr, f, 0.5) }
        "chord" => { let root = r.range(48, 70) as i32; chord(n, sr, &[root, root + 3, root + 7, root + 10], 0.6) }
        "silence" => silence(n),
        "quiet" => noise(r, n, 1e-4),
        "const" => vec![0.3; n],
        "impulse" => { let mut x = silence(n); if n > 0 { let i = r.us(0, n - 1); x[i] = 1.0; } x }
        "nan_one" => { let mut x = noise(r, n, 0.5); if n > 0 { let i = r.us(0, n - 1); x[i] = f32::NAN; } x }
        "nan_all" => vec![f32::NAN; n],
        "inf_one" => { let mut x = noise(r, n, 0.5); if n > 0 { let i = r.us(0, n - 1); x[i] = f32::INFINITY; } x }
        "neg_inf" => vec![f32::NEG_INFINITY; n],
        "huge" => noise(r, n, 3e38),
        "subnormal" => noise(r, n, 1e-40),
        "alt" => (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect(),
        "sil_head" => { let k = r.us(0, n); let mut x = silence(n); let c = clicks(r, n - k, sr, bpm, 0.9, 4, 0).0; x[k..].copy_from_slice(&c); x }
        "sil_tail" => { let k = r.us(0, n); let mut x = silence(n); let c = clicks(r, k, sr, bpm, 0.9, 4, 0).0; x[..k].copy_from_slice(&c); x }
        "sil_mid" => { let mut x = noise(r, n, 0.3); if n > 4 { let a = r.us(0, n - 1); let b = r.us(a, n); for v in &mut x[a..b] { *v = 0.0; } } x }
        "tempo_change" => {
            let h = n / 2;
            let mut x = clicks(r, h, sr, bpm, 0.9, 4, 0).0;
            let b2 = r.fr(50.0, 220.0);
            x.extend(clicks(r, n - h, sr, b2, 0.9, 3, 0).0);
            x
        }
        "sparse" => { let mut x = silence(n); for _ in 0..r.us(1, 6) { if n == 0 { break; } let at = r.us(0, n - 1); add_click(&mut x, r, at, sr, 0.9, 0.05); } x }
        "square" => { let p = r.us(2, 400); (0..n).map(|i| if (i / p) % 2 == 0 { 0.5 } else { -0.5 }).collect() }
        "am_noise" => { let step = 60.0 * sr as f32 / bpm; (0..n).map(|i| { let ph = (i as f32 % step) / step; (1.0 - ph) * 0.8 * r.fr(-1.0, 1.0) }).collect() }
        _ => silence(n),
    }
}
