//! Suite "batch": the schedules of the batch specification, carried out by real threads. Each worker is one
//! thread that keeps living; the reference of a track is what a process of its own reports for it.
use std::sync::mpsc;
use stratum_dsp::{analyze_audio, AnalysisConfig, AnalysisResult};
use vh::pipeline::digest;
use vh::*;

#[derive(Clone)]
struct Track { x: Vec<f32>, sr: u32, c: AnalysisConfig }

/// Digest of everything that is reported, except how long it took.
fn fingerprint(t: &Track) -> i64 {
    let before = pipeline::dig_f(&t.x);
    let (st, r): (String, Option<AnalysisResult>) = call(|| analyze_audio(&t.x, t.sr, t.c.clone()));
    let mut text = st;
    if let Some(mut r) = r {
        r.metadata.processing_time_ms = 0.0;
        let cc = stratum_dsp::compute_confidence(&r);
        text += &format!("{r:?}{cc:?}");
    }
    if before != pipeline::dig_f(&t.x) { text += "changed"; }
    digest(text.bytes().map(|b| b as u32)) | 1
}

fn music(r: &mut Rng, n: usize, sr: u32) -> Vec<f32> {
    let k = *r.pick(&["clicks", "clicks_chord", "clicks_chord", "clicks_chord", "am_noise", "tempo_change", "chord"]);
    audio::by_kind(k, r, n, sr)
}
/// Two tracks that are easily taken for one another.
fn pair(seed: u64, i: u64) -> (Track, Track, &'static str) {
    let mut rng = Rng::derive(seed ^ 0xba7c4, i);
    let r = &mut rng;
    let mut c = AnalysisConfig::default();
    c.frame_size = *r.pick(&[512usize, 1024, 2048]); c.hop_size = *r.pick(&[256usize, 512]);
    c.key_segment_len_frames = 120; c.key_segment_hop_frames = 40;
    let mut names = vec![];
    let k = r.us(0, 3); cfg::apply(&mut c, &cfg::flips(), r, k, &mut names);
    let sr = *r.pick(&[8000u32, 11025, 16000]);
    let n = r.us(sr as usize, sr as usize * 4);
    let mut a = Track { x: music(r, n, sr), sr, c };
    let mut b = a.clone();
    let how = match r.us(0, 16) {
        10..=12 => {
            // the same at both ends and wherever a coarse probe would look, other sound between
            let mut y = music(r, n, sr);
            let e = *r.pick(&[16usize, 256, 2048]);
            y[..e].copy_from_slice(&a.x[..e]); y[n - e..].copy_from_slice(&a.x[n - e..]);
            for k in [8usize, 10, 16, 32, 64, 100, 128, 256] { for p in (0..n).step_by((n / k).max(1)) { y[p] = a.x[p]; } }
            for k in [1000usize, 1024, 4096] { for p in (0..n).step_by(k) { y[p] = a.x[p]; } }
            b.x = y;
            for t in [&mut a.c, &mut b.c] { t.enable_normalization = false; t.enable_silence_trimming = false; }
            "same where probed"
        }
        13 => {
            // one stretch in the middle differs
            let l = r.us(n / 8, n / 3); let at = r.us(n / 8, n / 2);
            let y = music(r, l, sr); b.x[at..at + l].copy_from_slice(&y);
            if r.chance(2, 3) { for t in [&mut a.c, &mut b.c] { t.enable_normalization = false; } }
            "other middle"
        }
        14 => { let h = n / 2; b.x = a.x[h..].iter().chain(&a.x[..h]).copied().collect(); "halves swapped" }
        15 => { let k = r.us(1, 3); cfg::apply(&mut b.c, &cfg::sane(), r, k, &mut names); "other numbers" }
        16 => { b.c.frame_size = if a.c.frame_size == 1024 { 2048 } else { 1024 }; b.c.hop_size = if a.c.hop_size == 256 { 512 } else { 256 }; "other frames" }
        0 => { b.x = music(r, n, sr); "other content" }
        1 => { let h = n / 2; let y = music(r, n - h, sr); b.x.truncate(h); b.x.extend(y); "other second half" }
        2 => { let h = n / 2; let y = music(r, h, sr); b.x[..h].copy_from_slice(&y); "other first half" }
        3 => { for v in &mut b.x { *v *= 0.5; } "half level" }
        4 => { b.sr = if sr == 8000 { 16000 } else { 8000 }; "other rate" }
        5 => { b.x.truncate(n * 2 / 3); "shorter" }
        6 => { let k = r.us(1, 3); cfg::apply(&mut b.c, &cfg::flips(), r, k, &mut names); "other switches" }
        7 => { b.x = vec![0.0; n]; "silence" }
        8 => { b.c.min_bpm = 60.0; b.c.max_bpm = 130.0; "other range" }
        _ => { b.x.reverse(); "reversed" }
    };
    (a, b, how)
}

fn main() {
    let a = args();
    if a.mode == "ref" {
        let (x, y, _) = pair(a.seed, a.only.unwrap());
        println!("{}", fingerprint(if a.n == 1 { &x } else { &y }));
        return;
    }
    let cases = read_cases(&a);
    let exe = std::env::current_exe().unwrap();
    drive(&a, a.n, 300, |i, mut r| {
        let (x, y, how) = pair(a.seed, i);
        let refs: Vec<Value> = (1..=2).map(|k| {
            let o = std::process::Command::new(&exe).args(["--mode", "ref", "--seed", &a.seed.to_string(), "--n", &k.to_string(), "--only", &i.to_string(), "--out", "-"]).output().unwrap();
            json!(String::from_utf8_lossy(&o.stdout).trim().parse::<i64>().unwrap_or(0))
        }).collect();
        let case = &cases[r.below(cases.len() as u64) as usize];
        // a long working life before the batch: many short recordings on every thread
        let life = if r.chance(1, 10) { *r.pick(&[20usize, 40, 80, 300]) } else { 0 };
        let old: Vec<Track> = (0..4).map(|_| { let sr = *r.pick(&[8000u32, 16000]); let n = r.us(600, 4000); Track { x: music(&mut r, n, sr), sr, c: x.c.clone() } }).collect();
        let workers: Vec<_> = (0..3).map(|_| {
            let old = old.clone();
            let (tx, jobs) = mpsc::channel::<Track>();
            let (out, rx) = mpsc::channel::<i64>();
            std::thread::spawn(move || { for k in 0..life { fingerprint(&old[k % old.len()]); } for t in jobs { if out.send(fingerprint(&t)).is_err() { break; } } });
            (tx, rx)
        }).collect();
        let h: Vec<Value> = case["h"].as_array().unwrap().iter().map(|s| {
            let w = s[1].as_u64().unwrap() as usize - 1;
            if s[0] == "start" { workers[w].0.send(if s[2] == 1 { x.clone() } else { y.clone() }).unwrap(); s.clone() }
            else { json!(["finish", w + 1, workers[w].1.recv().unwrap_or(0)]) }
        }).collect();
        vec![json!({"ev": "batch", "how": how, "h": h, "ref": refs})]
    });
}
