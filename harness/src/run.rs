//! Guarded, parallel, deterministic execution of scenario suites.
use crate::rng::Rng;
use rayon::prelude::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::Write;
use std::panic::{catch_unwind, set_hook, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn quiet_panics() {
    set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = loc);
    }));
}

/// Run `f`, turning a panic into data (its source location).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}

/// Outcome of a fallible library call: status string and value.
pub fn call<T>(f: impl FnOnce() -> Result<T, stratum_dsp::AnalysisError>) -> (String, Option<T>) {
    match guard(f) {
        Err(_) => ("panic".into(), None),
        Ok(Err(e)) => (crate::err_kind(&e).into(), None),
        Ok(Ok(v)) => ("ok".into(), Some(v)),
    }
}

pub struct Args { pub seed: u64, pub n: u64, pub out: String, pub cases: Option<String>, pub only: Option<u64>, pub mode: String, pub thorough: bool }

pub fn args() -> Args {
    let mut a = Args { seed: 1, n: 100, out: String::new(), cases: None, only: None, mode: String::new(), thorough: false };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i + 1 < v.len() {
        let x = v[i + 1].clone();
        match v[i].as_str() {
            "--seed" => a.seed = x.parse().unwrap(),
            "--n" => a.n = x.parse().unwrap(),
            "--out" => a.out = x,
            "--cases" => a.cases = Some(x),
            "--only" => a.only = Some(x.parse().unwrap()),
            "--mode" => a.mode = x,
            "--tier" => a.thorough = x == "thorough",
            other => panic!("unknown argument {other}"),
        }
        i += 2;
    }
    quiet_panics();
    a
}

pub fn read_cases(a: &Args) -> Vec<Value> {
    let p = a.cases.as_ref().expect("--cases");
    std::fs::read_to_string(p).unwrap().lines().filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(l).unwrap()).collect()
}

/// Run `f` for every case index in parallel and write one JSON line per event, ordered by case.
/// A case that exceeds the limit is recorded as a "timeout" event and ends the run.
pub fn drive<F>(a: &Args, n: u64, limit_s: u64, f: F)
where F: Fn(u64, Rng) -> Vec<Value> + Sync {
    let done: Arc<Mutex<Vec<(u64, Vec<Value>)>>> = Arc::new(Mutex::new(Vec::new()));
    let live: Arc<Mutex<HashMap<u64, Instant>>> = Arc::new(Mutex::new(HashMap::new()));
    let (d2, l2, out) = (done.clone(), live.clone(), a.out.clone());
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let stuck: Vec<u64> = l2.lock().unwrap().iter().filter(|(_, t)| t.elapsed().as_secs() > limit_s).map(|(k, _)| *k).collect();
        if !stuck.is_empty() {
            let mut all = std::mem::take(&mut *d2.lock().unwrap());
            for k in stuck { all.push((k, vec![json!({"ev": "timeout", "what": format!("case {k}")})])); }
            write_out(&out, all);
            std::process::exit(0);
        }
    });
    let idx: Vec<u64> = match a.only { Some(k) => vec![k], None => (0..n).collect() };
    idx.into_par_iter().for_each(|i| {
        live.lock().unwrap().insert(i, Instant::now());
        let evs = match guard(|| f(i, Rng::derive(a.seed, i))) {
            Ok(e) => e,
            Err(loc) => vec![json!({"ev": "panic", "what": loc})],
        };
        live.lock().unwrap().remove(&i);
        done.lock().unwrap().push((i, evs));
    });
    let all = std::mem::take(&mut *done.lock().unwrap());
    write_out(&a.out, all);
}

fn write_out(path: &str, mut all: Vec<(u64, Vec<Value>)>) {
    all.sort_by_key(|x| x.0);
    let mut w = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for (i, evs) in all {
        for mut e in evs {
            e["id"] = json!(i);
            writeln!(w, "{}", e).unwrap();
        }
    }
    w.flush().unwrap();
}
