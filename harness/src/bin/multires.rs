//! Suite "multires": fusion of the tempo candidates of three time resolutions.
use stratum_dsp::features::chroma::extractor::compute_stft;
use stratum_dsp::features::period::multi_resolution::*;
use stratum_dsp::features::period::novelty::*;
use stratum_dsp::features::period::tempogram::*;
use stratum_dsp::features::period::BpmEstimate;
use vh::pipeline::band_cfg;
use vh::*;

type Cands = Vec<TempogramCandidateDebug>;
fn enc(c: &Cands) -> Value { json!(c.iter().map(|x| json!([q4(x.bpm), if x.score > 0.0 { q6(x.score).max(1) } else { q6(x.score) }])).collect::<Vec<_>>()) }
fn est(e: &BpmEstimate) -> Value { json!({"b": q4(e.bpm), "c": q6(e.confidence), "n": e.method_agreement}) }

/// A rhythm: beats, weaker subdivisions in two or three, an off-tempo layer and noise.
fn rhythm(r: &mut Rng, n: usize, sr: u32, bpm: f32) -> Vec<f32> {
    let floor = *r.pick(&[0.0f32, 0.005, 0.03]);
    let mut x = audio::noise(r, n, floor);
    let off = r.us(0, sr as usize / 4);
    let lvl = |r: &mut Rng| *r.pick(&[0.0f32, 0.0, 0.15, 0.4, 0.8]);
    let layers = [(1.0f32, 0.9f32), (2.0, lvl(r)), (3.0, lvl(r)), (0.5, lvl(r)), (1.5, lvl(r)), (4.0, if r.chance(1, 3) { 0.5 } else { 0.0 })];
    for (mul, a) in layers {
        if a == 0.0 { continue; }
        let step = 60.0 * sr as f32 / (bpm * mul);
        let mut k = 0.0f32;
        loop {
            let at = off + (k * step).round() as usize;
            if at >= n { break; }
            audio::add_click(&mut x, r, at, sr, a, 0.04);
            k += 1.0;
        }
    }
    x
}

fn fuse(r: &mut Rng) -> Vec<Value> {
    let (sr, frame) = *r.pick(&[(8000u32, 512usize), (11025, 512), (11025, 1024), (16000, 1024), (22050, 1024), (44100, 2048)]);
    let secs = if sr > 20000 { r.fr(1.5, 4.5) } else { r.fr(2.0, 9.0) };
    let n = (sr as f32 * secs) as usize;
    let bpm = match r.us(0, 3) { 0 => r.fr(55.0, 82.0), 1 => r.fr(168.0, 200.0), 2 => r.fr(80.0, 130.0), _ => r.fr(45.0, 235.0) };
    let x = if r.chance(1, 12) { let k = *r.pick(&["noise", "chord", "am_noise", "tempo_change", "sparse"]); audio::by_kind(k, r, n, sr) } else { rhythm(r, n, sr, bpm) };
    let (mn, mx) = match r.us(0, 3) { 0 | 1 => (40.0f32, 240.0f32), 2 => (60.0, 200.0), _ => { let a = r.range(40, 100) as f32; (a, (a + r.range(20, 150) as f32).min(300.0)) } };
    let res = *r.pick(&[0.5f32, 1.0, 1.0, 2.0, 4.0]);
    let topk = *r.pick(&[25usize, 25, 10, 3, 1, 0, 60]);
    let (w5, w2, w1) = *r.pick(&[(45i64, 35i64, 20i64), (45, 35, 20), (100, 0, 0), (20, 30, 50), (33, 33, 34), (0, 100, 50)]);
    let fac = *r.pick(&[92i64, 92, 50, 0, 100]);
    let thr = *r.pick(&[80_000i64, 80_000, 0, 20_000, 300_000]);
    let disc = *r.pick(&[0.85f32, 0.0]);
    let human = r.chance(1, 3);
    let mut c = stratum_dsp::AnalysisConfig::default();
    c.enable_tempogram_band_fusion = r.chance(1, 4); c.enable_tempogram_mel_novelty = r.chance(1, 4); if r.chance(3, 4) { c.tempogram_band_consensus_bonus = 0.0; }
    let band = if r.chance(3, 4) { Some(band_cfg(&c)) } else { None };
    let aux = band.clone().filter(|_| c.enable_tempogram_band_fusion || c.enable_tempogram_mel_novelty || c.tempogram_band_consensus_bonus > 0.0);
    let f = |a: i64| a as f32 / 100.0;
    let got = call(|| multi_resolution_tempogram_from_samples(&x, sr, frame, mn, mx, res, topk, f(w5), f(w2), f(w1), disc, f(fac), thr as f32 / 1e6, human, band.clone()));
    let k = topk.max(1);
    let mut specs = vec![];
    let mut lists: Vec<(String, Option<(BpmEstimate, Cands)>)> = vec![];
    for (hop, k) in [(256u32, (4 * k).clamp(25, 200)), (512, k), (1024, (4 * k).clamp(25, 200))] {
        let (st, s) = call(|| compute_stft(&x, frame, hop as usize));
        let Some(s) = s else { lists.push((st, None)); specs.push(vec![]); continue };
        lists.push(match aux.clone() {
            Some(b) => call(|| estimate_bpm_tempogram_with_candidates_band_fusion(&s, sr, hop, mn, mx, res, k, b)),
            None => call(|| estimate_bpm_tempogram_with_candidates(&s, sr, hop, mn, mx, res, k)),
        });
        specs.push(s);
    }
    let mut e = json!({"ev": "fuse", "status": got.0, "short": x.len() < frame, "hops": lists.iter().map(|l| l.0.clone()).collect::<Vec<_>>(), "min": q4(mn), "max": q4(mx), "tol": q4(res.max(2.0)),
        "w": [w2, w5, w1], "fac": fac, "thr": thr, "human": human, "fpm": qd(60.0 * sr as f64 / 512.0, 100.0), "bpm": q4(bpm)});
    if let (Some((g, list)), true) = (got.1, lists.iter().all(|l| l.1.is_some())) {
        let cs: Vec<&Cands> = lists.iter().map(|l| &l.1.as_ref().unwrap().1).collect();
        e["cs"] = json!(cs.iter().map(|c| enc(c)).collect::<Vec<_>>());
        e["est"] = est(&g);
        e["list"] = json!(list.iter().map(|c| json!([q4(c.bpm), c.selected as u8])).collect::<Vec<_>>());
        e["same"] = json!(list.len() == cs[1].len() && list.iter().zip(cs[1]).all(|(a, b)| a.bpm.to_bits() == b.bpm.to_bits() && a.score.to_bits() == b.score.to_bits() && a.fft_norm.to_bits() == b.fft_norm.to_bits() && a.autocorr_norm.to_bits() == b.autocorr_norm.to_bits()));
        let nov = match &band {
            None => vec![],
            Some(b) => {
                let s = &specs[1];
                combined_novelty_with_params(&superflux_novelty(s, b.superflux_max_filter_bins).unwrap_or_default(), &energy_flux_novelty(s).unwrap_or_default(), &hfc_novelty(s, sr).unwrap_or_default(),
                    b.novelty_w_spectral, b.novelty_w_energy, b.novelty_w_hfc, b.novelty_local_mean_window, b.novelty_smooth_window)
            }
        };
        e["family"] = json!(band.is_some() && !nov.is_empty());
        e["nov"] = json!(nov.iter().map(|&v| q(v, 1e5)).collect::<Vec<_>>());
    }
    vec![e]
}

/// The same spectrogram read at three hop sizes.
fn validate(r: &mut Rng) -> Vec<Value> {
    let sr = *r.pick(&[11025u32, 22050, 44100]);
    let frames = r.us(0, 400);
    let per = r.us(3, 60);
    let noise = *r.pick(&[0.0f32, 0.05, 0.5]);
    let s: Vec<Vec<f32>> = (0..frames).map(|i| (0..9).map(|_| 0.1 + if i % per == 0 { 1.0 } else { 0.0 } + noise * r.f()).collect()).collect();
    // a narrow range makes the three readings meet
    let (mn, mx) = if r.chance(1, 2) { let a = r.range(40, 200) as f32; (a, a + *r.pick(&[1.0f32, 2.5, 4.0])) } else { (40.0, 240.0) };
    let res = *r.pick(&[0.5f32, 1.0]);
    let g = call(|| multi_resolution_analysis(&s, sr, 512, mn, mx, res));
    let es: Vec<Value> = [256u32, 512, 1024].iter().filter_map(|&h| call(|| estimate_bpm_tempogram(&s, sr, h, mn, mx, res)).1).map(|e| est(&e)).collect();
    let mut e = json!({"ev": "validate", "status": g.0, "es": es, "min": q4(mn), "max": q4(mx)});
    if let Some(g) = g.1 { e["est"] = est(&g); }
    vec![e]
}

fn main() {
    let a = args();
    drive(&a, a.n, 120, |i, mut r| if i % 4 == 0 { validate(&mut r) } else { fuse(&mut r) });
}
