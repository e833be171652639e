//! Key detection on integer chroma material, for TraceKey.
use stratum_dsp::analysis::result::Key;
use stratum_dsp::features::key::detector::*;
use stratum_dsp::features::key::key_changes::detect_key_changes;
use stratum_dsp::features::key::key_clarity::compute_key_clarity;
use stratum_dsp::features::key::templates::{KeyTemplates, TemplateSet};
use stratum_dsp::features::key::KeyDetectionResult;
use vh::*;

const S: f64 = 1e5;
fn kn(k: Key) -> i64 { match k { Key::Major(i) => i as i64, Key::Minor(i) => 12 + i as i64 } }
fn table(sc: &[(Key, f32)]) -> Vec<i64> {
    let mut t = vec![NANV; 24];
    for (k, s) in sc { let i = kn(*k); if (0..24).contains(&i) { t[i as usize] = q(*s, S); } }
    t
}
fn res(r: &KeyDetectionResult) -> Value {
    json!({"k": kn(r.key), "c": q6(r.confidence), "order": r.all_scores.iter().map(|x| kn(x.0)).collect::<Vec<_>>(), "sc": r.all_scores.iter().map(|x| q(x.1, S)).collect::<Vec<_>>(),
           "top": r.top_keys.iter().map(|x| kn(x.0)).collect::<Vec<_>>(), "tops": r.top_keys.iter().map(|x| q(x.1, S)).collect::<Vec<_>>(), "cl": q6(compute_key_clarity(&r.all_scores))})
}
fn none() -> Value { json!({"k": -1, "c": 0, "order": [], "sc": [], "top": [], "tops": [], "cl": 0}) }
fn out(o: (String, Option<KeyDetectionResult>)) -> (String, Value) { let v = o.1.as_ref().map(res).unwrap_or_else(none); (o.0, v) }
fn bits(r: &Option<KeyDetectionResult>) -> Vec<u32> {
    match r { None => vec![], Some(r) => { let mut v = vec![kn(r.key) as u32, r.confidence.to_bits()]; for (k, s) in &r.all_scores { v.push(kn(*k) as u32); v.push(s.to_bits()); } v } }
}

struct Material { fr: Vec<Vec<i64>>, w: Vec<i64>, wd: i64, set: &'static str, tm: Vec<Vec<i64>> }
impl Material {
    fn frames(&self) -> Vec<Vec<f32>> { self.fr.iter().map(|f| f.iter().map(|&x| x as f32).collect()).collect() }
    fn weights(&self) -> Option<Vec<f32>> { if self.w.is_empty() { None } else { Some(self.w.iter().map(|&x| x as f32 / self.wd as f32).collect()) } }
    fn templates(&self) -> KeyTemplates {
        match self.set {
            "kk" => KeyTemplates::new_with_template_set(TemplateSet::KrumhanslKessler),
            "temp" => KeyTemplates::new_with_template_set(TemplateSet::Temperley),
            _ => {
                let mut t = KeyTemplates::new();
                for k in 0..12 { for p in 0..12 { t.major[k][p] = self.tm[k][p] as f32; t.minor[k][p] = self.tm[k + 12][p] as f32; } }
                t
            }
        }
    }
    fn json(&self) -> Value { json!({"fr": self.fr, "w": self.w, "set": self.set, "tm": self.tm}) }
}
fn merge(mut a: Value, b: Value) -> Value { for (k, v) in b.as_object().unwrap() { a[k] = v.clone(); } a }

fn own_templates(r: &mut Rng) -> Vec<Vec<i64>> {
    // profiles of a test detector: rotations of sparse integer profiles; the minor side may be silent
    let mk = |r: &mut Rng, silent: bool| -> Vec<i64> { (0..12).map(|p| if silent { 0 } else if p == 0 { 2 } else if r.chance(1, 3) { r.range(0, 2) } else { 0 }).collect() };
    let which = r.us(0, 3);
    let a = mk(r, which == 1); let b = mk(r, which >= 2);
    let mut t = vec![];
    for prof in [&a, &b] { for k in 0..12usize { t.push((0..12usize).map(|p| prof[(p + 12 - k) % 12]).collect()); } }
    t
}
fn frame(r: &mut Rng) -> Vec<i64> {
    match r.us(0, 5) {
        0 => vec![0; 12],
        1 => { let mut f = vec![0; 12]; f[r.us(0, 11)] = r.range(1, 4); f }
        2 => { // a triad
            let t = r.us(0, 11); let minor = r.chance(1, 2);
            let mut f = vec![0; 12]; f[t] = 4; f[(t + if minor { 3 } else { 4 }) % 12] = 3; f[(t + 7) % 12] = r.range(2, 4); f }
        3 => { // a scale
            let t = r.us(0, 11); let sc: [usize; 7] = if r.chance(1, 2) { [0, 2, 4, 5, 7, 9, 11] } else { [0, 2, 3, 5, 7, 8, 10] };
            let mut f = vec![0; 12]; for d in sc { f[(t + d) % 12] = r.range(1, 4); } f }
        _ => (0..12).map(|_| r.range(0, 4)).collect(),
    }
}
fn material(r: &mut Rng, n: usize, set: Option<&'static str>) -> Material {
    let set = set.unwrap_or_else(|| *r.pick(&["kk", "temp", "own"]));
    let home = frame(r);
    let fr: Vec<Vec<i64>> = (0..n).map(|_| if r.chance(1, 2) { home.clone() } else { frame(r) }).collect();
    let w = if r.chance(1, 2) { vec![] } else { (0..n).map(|_| r.range(-1, 2)).collect() };
    let tm = if set == "own" { own_templates(r) } else { vec![] };
    // the measure of the weights does not matter
    let wd = if set == "own" { 1 } else { *r.pick(&[1, 1, 1, 8, 1024]) };
    Material { fr, w, wd, set, tm }
}
/// One or two frames outweigh all others by far, which together still count.
fn heavy(r: &mut Rng) -> Material {
    let set = *r.pick(&["kk", "temp"]);
    let n = r.us(4, 14);
    let mut m = material(r, n, Some(set));
    m.w = (0..n).map(|_| r.range(0, 4)).collect();
    for _ in 0..r.us(1, 2) { let i = r.us(0, n - 1); m.w[i] = *r.pick(&[60i64, 250, 900]); if r.chance(1, 3) { m.fr[i] = vec![0; 12]; } }
    m
}
fn detect(m: &Material) -> (String, Option<KeyDetectionResult>) {
    let (f, w, t) = (m.frames(), m.weights(), m.templates());
    if w.is_none() { call(|| detect_key(&f, &t)) } else { call(|| detect_key_weighted(&f, &t, w.as_deref())) }
}
fn key_event(m: &Material) -> Value {
    let d = detect(m);
    let again = detect(m);
    let same = bits(&d.1) == bits(&again.1);
    let (st, v) = out(d);
    merge(m.json(), json!({"ev": "key", "st": st, "r": v, "same": same}))
}
/// The same music, transformed: rotated, scaled, reordered, padded with weightless frames.
fn relation_event(m: &Material, r: &mut Rng) -> Value {
    let n = m.fr.len();
    let kind = *r.pick(&["rot", "scale", "order", "pad"]);
    let t = m.templates();
    let (f0, w0) = (m.frames(), m.weights());
    let by = r.us(0, 11);
    let sc = *r.pick(&[0.01f32, 0.3, 7.0, 1000.0]);
    let (f1, w1): (Vec<Vec<f32>>, Option<Vec<f32>>) = match kind {
        "rot" => (f0.iter().map(|f| (0..12).map(|p| f[(p + 12 - by) % 12]).collect()).collect(), w0.clone()),
        "scale" => (f0.iter().map(|f| f.iter().map(|x| x * sc).collect()).collect(), w0.clone()),
        "order" => {
            let mut ix: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() { let j = r.us(0, i); ix.swap(i, j); }
            (ix.iter().map(|&i| f0[i].clone()).collect(), w0.as_ref().map(|w| ix.iter().map(|&i| w[i]).collect()))
        }
        _ => {
            let mut f = f0.clone(); let mut w = w0.clone().unwrap_or_else(|| vec![1.0; n]);
            let at = r.us(0, n); f.insert(at, frame(r).iter().map(|&x| x as f32).collect()); w.insert(at, 0.0);
            (f, Some(w))
        }
    };
    let a = call(|| detect_key_weighted(&f0, &t, w0.as_deref()));
    let b = call(|| detect_key_weighted(&f1, &t, w1.as_deref()));
    let g = |o: (String, Option<KeyDetectionResult>)| match o.1 { None => json!({"st": o.0, "k": -1, "c": 0, "t": []}), Some(x) => json!({"st": o.0, "k": kn(x.key), "c": q6(x.confidence), "t": table(&x.all_scores)}) };
    merge(m.json(), json!({"ev": "rel", "kind": kind, "by": if kind == "rot" { by } else { 0 }, "a": g(a), "b": g(b)}))
}
fn own_event(set: &'static str, k: usize, sc: f32) -> Value {
    let t = KeyTemplates::new_with_template_set(if set == "kk" { TemplateSet::KrumhanslKessler } else { TemplateSet::Temperley });
    let c: Vec<f32> = t.get_template(k as u32).iter().map(|x| x * sc).collect();
    let row: Vec<i64> = t.get_template(k as u32).iter().map(|&x| q6(x)).collect();
    let row2: Vec<i64> = if k < 12 { t.get_major_template(k as u32) } else { t.get_minor_template(k as u32 - 12) }.iter().map(|&x| q6(x)).collect();
    let (st, v) = out(call(|| detect_key(&[c.clone()], &t)));
    json!({"ev": "own", "set": set, "key": k, "row": row, "row2": row2, "st": st, "r": v})
}
#[derive(Clone, Copy)]
struct Heur { m: i64, flip: i64, hb: bool, lt: i64 }
fn heur(r: &mut Rng) -> Heur { Heur { m: *r.pick(&[0, 5, 10, 20, 50]), flip: *r.pick(&[0, 50, 60, 80, 90, 100]), hb: r.chance(1, 2), lt: *r.pick(&[0, 5, 20, 100, 300]) } }
fn run_heur(f: &[Vec<f32>], t: &KeyTemplates, w: Option<&[f32]>, h: Heur) -> (String, Option<KeyDetectionResult>) {
    call(|| detect_key_weighted_mode_heuristic(f, t, w, h.m as f32 / 100.0, h.flip as f32 / 100.0, h.hb, h.lt as f32 / 1000.0))
}
fn heur_event(m: &Material, mut h: Heur) -> Value {
    if m.wd != 1 { h.hb = false; }
    let (f, w, t) = (m.frames(), m.weights(), m.templates());
    let base = call(|| detect_key_weighted(&f, &t, w.as_deref()));
    let (st, v) = out(run_heur(&f, &t, w.as_deref(), h));
    let b = base.1.as_ref().map(res).unwrap_or_else(none);
    merge(m.json(), json!({"ev": "heur", "m": h.m, "flip": h.flip, "hb": h.hb, "lt": h.lt, "base": b, "st": st, "r": v}))
}
fn seg_rows(m: &Material, lens: &[usize], f: impl Fn(&[Vec<f32>], Option<&[f32]>) -> Option<KeyDetectionResult>) -> Vec<Value> {
    let (fr, w) = (m.frames(), m.weights());
    let mut rows = vec![];
    let mut ls: Vec<usize> = lens.to_vec(); ls.sort(); ls.dedup();
    for l in ls {
        if l == 0 || l > fr.len() { continue; }
        for s in 0..=(fr.len() - l) {
            if let Some(x) = f(&fr[s..s + l], w.as_ref().map(|w| &w[s..s + l])) {
                rows.push(json!({"len": l, "at": s, "k": kn(x.key), "c": q6(x.confidence), "z": x.confidence == 0.0, "cl": q6(compute_key_clarity(&x.all_scores)), "t": table(&x.all_scores)}));
            }
        }
    }
    rows
}
fn multi_event(r: &mut Rng) -> Value {
    let long = r.chance(1, 40);
    let n = if long { r.us(20, 90) } else { r.us(1, 9) };
    let m = material(r, n, None);
    let lens: Vec<usize> = (0..r.us(1, 3)).map(|_| r.us(0, n + 1)).collect();
    let hop = if long { r.us(0, 40) } else { r.us(0, 3) };
    let minc = *r.pick(&[0i64, 200, 400, 500, 600, 800]);
    let sw: Vec<i64> = if r.chance(1, 2) { vec![] } else { (0..r.us(0, 3)).map(|_| r.range(-1, 4)).collect() };
    let h = heur(r);
    let eh = r.chance(1, 2);
    let t = m.templates();
    let one = |f: &[Vec<f32>], w: Option<&[f32]>| if eh || h.hb { run_heur(f, &t, w, Heur { flip: if eh { h.flip } else { 0 }, ..h }).1 } else { call(|| detect_key_weighted(f, &t, w)).1 };
    let rows = seg_rows(&m, &lens, &one);
    let (fr, w) = (m.frames(), m.weights());
    let global = one(&fr, w.as_deref());
    let swf: Option<Vec<f32>> = if sw.is_empty() { None } else { Some(sw.iter().map(|&x| x as f32 / 2.0).collect()) };
    let o = call(|| detect_key_multi_scale(&fr, &t, w.as_deref(), &lens, hop, minc as f32 / 1000.0, swf.as_deref(), eh, h.m as f32 / 100.0, h.flip as f32 / 100.0, h.hb, h.lt as f32 / 1000.0));
    let (st, v) = out(o);
    json!({"ev": "multi", "n": n, "lens": lens, "hop": hop, "minc": minc * 1000, "sw": sw, "rows": rows, "g": global.as_ref().map(res).unwrap_or_else(none), "st": st, "r": v})
}
fn median_event(r: &mut Rng) -> Value {
    let n = if r.chance(1, 3) { r.us(1, 119) } else if r.chance(1, 3) { r.us(130, 420) } else { r.us(120, 130) };
    let mut m = material(r, 1, None);
    // a few blocks of constant harmony
    let mut fr: Vec<Vec<i64>> = vec![];
    while fr.len() < n { let f = frame(r); for _ in 0..r.us(1, 60) { if fr.len() < n { fr.push(f.clone()); } } }
    if m.set == "own" { for f in fr.iter_mut() { for x in f.iter_mut() { *x = (*x).min(1); } } }
    let top = if m.set == "own" { 1 } else { 2 };
    m.w = if r.chance(1, 2) { vec![] } else { (0..n).map(|_| r.range(0, top)).collect() };
    m.fr = fr;
    let len = *r.pick(&[1usize, 60, 120, 121, 125, 200]);
    let hop = if n > 130 { r.us(15, 90) } else { r.us(0, 4) };
    let mins = r.us(0, 4);
    let t = m.templates();
    let seg = len.min(n).max(120);
    let rows = seg_rows(&m, &[seg], |f, w| call(|| detect_key_weighted(f, &t, w)).1);
    let (frf, w) = (m.frames(), m.weights());
    let global = call(|| detect_key_weighted(&frf, &t, w.as_deref())).1;
    let (st, v) = out(call(|| detect_key_median(&frf, &t, w.as_deref(), len, hop, mins)));
    json!({"ev": "median", "n": n, "len": len, "hop": hop, "mins": mins, "rows": rows, "g": global.as_ref().map(res).unwrap_or_else(none), "st": st, "r": v})
}
fn ens_event(m: &Material, r: &mut Rng) -> Value {
    let (f, w) = (m.frames(), m.weights());
    let (a, b) = (r.range(0, 10), r.range(0, 10));
    let kk = KeyTemplates::new_with_template_set(TemplateSet::KrumhanslKessler);
    let tt = KeyTemplates::new_with_template_set(TemplateSet::Temperley);
    let x = call(|| detect_key_weighted(&f, &kk, w.as_deref())).1.map(|x| table(&x.all_scores)).unwrap_or_default();
    let y = call(|| detect_key_weighted(&f, &tt, w.as_deref())).1.map(|x| table(&x.all_scores)).unwrap_or_default();
    let (st, v) = out(call(|| detect_key_ensemble(&f, w.as_deref(), a as f32 / 10.0, b as f32 / 10.0)));
    json!({"ev": "ens", "a": a, "b": b, "x": x, "y": y, "st": st, "r": v})
}
fn clarity_event(r: &mut Rng) -> Value {
    let n = *r.pick(&[0usize, 1, 2, 3, 24, 24]);
    let same = r.chance(1, 6);
    let c = r.range(-5, 40);
    let v: Vec<i64> = (0..n).map(|_| if same { c } else { r.range(-10, 60) }).collect();
    let mut v2 = v.clone();
    if r.chance(3, 4) { v2.sort_by(|a, b| b.cmp(a)); }
    let sc: Vec<(Key, f32)> = v2.iter().enumerate().map(|(i, &x)| (if i < 12 { Key::Major(i as u32) } else { Key::Minor(i as u32 - 12) }, x as f32)).collect();
    let (st, cl) = match guard(|| compute_key_clarity(&sc)) { Ok(x) => ("ok".to_string(), q6(x)), Err(_) => ("panic".into(), 0) };
    json!({"ev": "clarity", "s": v2, "st": st, "cl": cl})
}
fn bad_event(r: &mut Rng) -> Value {
    let t = KeyTemplates::new();
    let n = r.us(1, 4);
    let mut m = material(r, n, Some("kk"));
    let what = *r.pick(&["empty", "size", "one", "weights", "nolens"]);
    let mut f = m.frames();
    match what {
        "empty" => f.clear(),
        "size" => { let k = *r.pick(&[0usize, 1, 11, 13, 24]); for x in f.iter_mut() { x.resize(k, 1.0); } }
        "one" => { let k = *r.pick(&[0usize, 11, 13]); let j = r.us(0, f.len() - 1); f[j].resize(k, 1.0); }
        _ => { m.w = vec![1; f.len() + 1]; }
    }
    let w: Option<Vec<f32>> = if what == "weights" { Some(vec![1.0; f.len() + 1]) } else { None };
    let mut st = vec![];
    if what != "nolens" {
        if w.is_none() { st.push(call(|| detect_key(&f, &t)).0); }
        st.push(call(|| detect_key_weighted(&f, &t, w.as_deref())).0);
        st.push(call(|| detect_key_weighted_mode_heuristic(&f, &t, w.as_deref(), 0.1, 0.8, true, 0.1)).0);
        st.push(call(|| detect_key_ensemble(&f, w.as_deref(), 0.5, 0.5)).0);
        if what != "weights" {
            let l = f.len().max(1);
            st.push(call(|| detect_key_multi_scale(&f, &t, None, &[l], 1, 0.0, None, false, 0.1, 0.8, false, 0.1)).0);
            st.push(call(|| detect_key_median(&f, &t, None, 10, 2, 3)).0);
        }
    } else {
        st.push(call(|| detect_key_multi_scale(&f, &t, None, &[], 1, 0.0, None, false, 0.1, 0.8, false, 0.1)).0);
    }
    json!({"ev": "bad", "what": what, "sts": st})
}
/// One frame per segment, as the model heard them.
fn replay_changes(h: &[Value]) -> Value {
    let mut fr = vec![];
    for s in h {
        let k = s["k"].as_i64().unwrap() as usize;
        let mut f = vec![0i64; 12];
        f[k] = 16;
        if s["c"].as_i64().unwrap() < 200 { f[(k + 7) % 12] = 15; }
        fr.push(f);
    }
    let mut tm = vec![vec![0i64; 12]; 24];
    for k in 0..12 { tm[k][k] = 1; }
    let m = Material { fr, w: vec![], wd: 1, set: "own", tm };
    let n = m.fr.len();
    changes_run(&m, n, 1000, 1000, 1000, 0)
}
fn changes_event(r: &mut Rng, own_only: bool) -> Value {
    let bad = r.chance(1, 12);
    let n = if bad && r.chance(1, 3) { 0 } else if r.chance(1, 40) { r.us(48, 400) } else { r.us(1, 48) };
    // a whole track, now and then
    let long = !bad && r.chance(1, 150);
    let n = if long { r.us(1000, 6000) } else { n };
    let set = if own_only || r.chance(3, 4) { Some("own") } else { None };
    let mut m = material(r, 1, set);
    let mut fr: Vec<Vec<i64>> = vec![];
    while fr.len() < n { let f = if r.chance(1, 5) { frame(r) } else { let mut f = vec![0; 12]; f[r.us(0, 11)] = 3; f[r.us(0, 11)] += 1; f }; for _ in 0..r.us(1, if long { 300 } else { 12 }) { if fr.len() < n { fr.push(f.clone()); } } }
    m.fr = fr; m.w = vec![];
    // frame rate, in frames per second * 1000
    let (sr, hop) = if bad { *r.pick(&[(0u32, 512usize), (8000, 0), (8000, 1000)]) } else { *r.pick(&[(8000u32, 1000usize), (44100, 11025), (1000, 250), (48000, 4800), (3000, 1000)]) };
    let (dur, ov) = if bad { *r.pick(&[(0i64, 0i64), (1000, 1000), (1000, 2000), (1000, 0), (900000, 0)]) } else { let d = r.range(1, 24) * 125; (d, *r.pick(&[0, d / 2, d / 4, 125])) };
    let (dur, ov) = if long { (dur * 8, ov * 8) } else { (dur, ov) };
    changes_run(&m, n, sr, hop, dur, ov)
}
fn changes_run(m: &Material, n: usize, sr: u32, hop: usize, dur: i64, ov: i64) -> Value {
    let fps = if hop == 0 { 0 } else { sr as i64 / hop as i64 };
    let seg = (dur * fps / 1000) as usize;
    let t = m.templates();
    let rows = if seg > 0 { seg_rows(m, &[seg], |f, _| call(|| detect_key(f, &t)).1) } else { vec![] };
    let gap = (seg as i64 - ov * fps / 1000).max(1);
    let rows: Vec<Value> = rows.iter().filter(|x| x["at"].as_i64().unwrap() % gap == 0).map(|x| json!({"len": x["len"], "at": x["at"], "k": x["k"], "c": x["c"]})).collect();
    let fr = m.frames();
    let o = call(|| detect_key_changes(&fr, sr, hop, &t, dur as f32 / 1000.0, ov as f32 / 1000.0));
    let o2 = call(|| detect_key_changes(&fr, sr, hop, &t, dur as f32 / 1000.0, ov as f32 / 1000.0));
    let same = match (&o.1, &o2.1) { (Some(a), Some(b)) => kn(a.primary_key) == kn(b.primary_key) && a.primary_confidence.to_bits() == b.primary_confidence.to_bits() && a.key_changes.len() == b.key_changes.len(), (None, None) => true, _ => false };
    let (p, pc, ch, segs) = match &o.1 {
        None => (-1, 0, vec![], vec![]),
        Some(x) => (kn(x.primary_key), q6(x.primary_confidence),
            x.key_changes.iter().map(|c| json!({"t": qd(c.timestamp as f64, 1e6), "from": kn(c.from_key), "to": kn(c.to_key), "c": q6(c.confidence)})).collect(),
            x.segment_keys.iter().map(|s| json!({"t": qd(s.0 as f64, 1e6), "k": kn(s.1), "c": q6(s.2)})).collect()),
    };
    json!({"ev": "changes", "n": n, "fps": fps, "dur": dur, "ov": ov, "zero": hop == 0, "rows": rows, "st": o.0, "same": same, "p": p, "pc": pc, "ch": ch, "segs": segs})
}

fn main() {
    let a = args();
    if a.mode == "changes" {
        let cases = if a.cases.is_some() { read_cases(&a) } else { vec![] };
        let m = cases.len() as u64;
        drive(&a, m + a.n, 60, |i, mut r| vec![if i < m { replay_changes(cases[i as usize]["h"].as_array().unwrap()) } else { changes_event(&mut r, false) }]);
        return;
    }
    let cases = if a.cases.is_some() { read_cases(&a) } else { vec![] };
    let stride = if a.thorough { 1 } else { 4 };
    let m = (cases.len() / stride) as u64;
    drive(&a, m + 48 + a.n, 60, |i, mut r| {
        if i < m {
            let k = (i as usize * stride + (a.seed as usize % stride)) % cases.len();
            let h: Vec<i64> = cases[k]["h"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
            let set = if (i / 2) % 2 == 0 { "kk" } else { "temp" };
            let mat = Material { fr: vec![h], w: vec![], wd: 1, set, tm: vec![] };
            let h = heur(&mut r);
            return vec![key_event(&mat), heur_event(&mat, h)];
        }
        if i < m + 48 {
            let k = (i - m) as usize;
            return vec![own_event(if k < 24 { "kk" } else { "temp" }, k % 24, *r.pick(&[1.0, 0.1, 30.0]))];
        }
        match i % 16 {
            0 => { let mt = heavy(&mut r); vec![key_event(&mt), relation_event(&mt, &mut r)] }
            1..=3 => { let n = if r.chance(1, 50) { r.us(20, 300) } else { r.us(1, 6) }; let mt = material(&mut r, n, None); vec![key_event(&mt)] }
            4 | 5 => { let n = if r.chance(1, 50) { r.us(20, 300) } else { r.us(1, 5) }; let mt = material(&mut r, n, None); vec![relation_event(&mt, &mut r)] }
            6..=8 => { let n = r.us(1, 6); let mt = material(&mut r, n, None); let h = heur(&mut r); vec![heur_event(&mt, h)] }
            9..=11 => vec![multi_event(&mut r)],
            12 => vec![median_event(&mut r)],
            13 => { let n = r.us(1, 5); let mt = material(&mut r, n, Some("kk")); vec![ens_event(&mt, &mut r)] }
            14 => vec![clarity_event(&mut r)],
            _ => vec![bad_event(&mut r)],
        }
    });
}
