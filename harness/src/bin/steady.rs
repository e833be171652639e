//! Suite "steady": whole analyses of synthetic music whose tempo, beats and key are known, and of the same music
//! at another level or with silence around it.
use stratum_dsp::{analyze_audio, AnalysisConfig};
use vh::pipeline::*;
use vh::*;

struct Music { x: Vec<f32>, clicks: Vec<usize>, bpm: f32, key: i64 }
fn music(r: &mut Rng, sr: u32) -> Music {
    let secs = if sr < 30000 && r.chance(1, 15) { r.fr(20.0, 60.0) } else { r.fr(9.0, 14.0) };
    let n = (secs * sr as f32) as usize;
    let bpm = r.fr(70.0, 170.0);
    let off = r.us(0, sr as usize / 4);
    let (mut x, clicks) = audio::clicks(r, n, sr, bpm, 0.8, 0, off);
    let root = r.range(0, 11) as i32;
    let minor = r.chance(1, 2);
    if r.chance(1, 2) {
        let notes = [48 + root, 48 + root + if minor { 3 } else { 4 }, 48 + root + 7, 60 + root];
        let c = audio::chord(n, sr, &notes, 0.25);
        audio::mix(&mut x, &c);
        return Music { x, clicks, bpm, key: root as i64 + if minor { 12 } else { 0 } };
    }
    Music { x, clicks, bpm, key: -1 }
}
fn summary(x: &[f32], sr: u32, c: &AnalysisConfig) -> (Value, Vec<f32>) {
    let a = call(|| analyze_audio(x, sr, c.clone()));
    match a.1 {
        None => (json!({"st": a.0}), vec![]),
        Some(r) => (json!({"st": "ok", "bpm": q4(r.bpm), "conf": q6(r.bpm_confidence), "key": key_no(r.key), "kconf": q6(r.key_confidence), "stab": q6(r.grid_stability), "dur": q6(r.metadata.duration_seconds), "nb": r.beat_grid.beats.len()}), r.beat_grid.beats),
    }
}
fn main() {
    let a = args();
    drive(&a, a.n, 300, |_, mut r| {
        let sr = *r.pick(&[16000u32, 22050, 22050, 32000, 44100, 48000]);
        let m = music(&mut r, sr);
        let mut c = AnalysisConfig::default();
        let variant = r.us(0, 4);
        match variant { 1 => c.enable_tempogram_multi_resolution = false, 2 => c.enable_bpm_fusion = true, 3 => { c.enable_tempogram_band_fusion = false; c.enable_tempogram_mel_novelty = false; } _ => {} }
        let (s, beats) = summary(&m.x, sr, &c);
        let g = *r.pick(&[0.5f32, 0.25, 0.8, 0.06, 1.0 / 256.0, 4.0]);
        let y: Vec<f32> = m.x.iter().map(|v| v * g).collect();
        let (s2, _) = summary(&y, sr, &c);
        let pre = r.us(1, 3) * sr as usize; let post = r.us(0, 3) * sr as usize;
        let mut z = vec![0.0; pre]; z.extend(&m.x); z.extend(vec![0.0; post]);
        let (s3, _) = summary(&z, sr, &c);
        let first = m.clicks[0] as f32 / sr as f32;
        let off: Vec<i64> = beats.iter().map(|b| { let t = m.clicks.iter().map(|&k| (k as f32 / sr as f32 - b).abs()).fold(9.0f32, f32::min); q(t, 1e4) }).collect();
        vec![json!({"ev": "steady", "variant": variant, "bpm": q4(m.bpm), "key": m.key, "sr": sr, "s": s, "level": s2, "silence": s3, "off": off, "first": q4(first), "pre": pre, "post": post})]
    });
}
