//! Shared parts of the conformance harness: deterministic generators, encoding of
//! observations as the integers the TLA+ specifications work on, and a guarded runner.
pub mod audio;
pub mod cfg;
pub mod rng;
pub mod run;
pub use rng::Rng;
pub use run::*;
pub use serde_json::{json, Value};

/// Encoding of a number that is not finite (the specifications' `NaN`).
pub const NANV: i64 = 2_147_483_647;
const CAP: f64 = 2_000_000_000.0;

/// Fixed-point encoding with the given scale; saturating, non-finite maps to `NANV`.
pub fn q(x: f32, scale: f64) -> i64 { qd(x as f64, scale) }
pub fn qd(x: f64, scale: f64) -> i64 {
    if !x.is_finite() { return NANV; }
    (x * scale).round().clamp(-CAP, CAP) as i64
}
/// millionths
pub fn q6(x: f32) -> i64 { q(x, 1e6) }
/// ten-thousandths
pub fn q4(x: f32) -> i64 { q(x, 1e4) }
pub fn q3(x: f32) -> i64 { q(x, 1e3) }
pub fn q6s(xs: &[f32]) -> Vec<i64> { xs.iter().map(|&x| q6(x)).collect() }
pub fn q4s(xs: &[f32]) -> Vec<i64> { xs.iter().map(|&x| q4(x)).collect() }

pub fn err_kind(e: &stratum_dsp::AnalysisError) -> &'static str {
    use stratum_dsp::AnalysisError::*;
    match e {
        InvalidInput(_) => "InvalidInput",
        DecodingError(_) => "DecodingError",
        ProcessingError(_) => "ProcessingError",
        NotImplemented(_) => "NotImplemented",
        NumericalError(_) => "NumericalError",
    }
}
pub mod pipeline;
