use crate::core::*;
use crate::oracle::R;

pub mod beta;
pub mod cache;
pub mod bessel;
pub mod erf;
pub mod gamma;
pub mod memory;
pub mod misc;
pub mod purity;
pub mod relations;
pub mod time;
pub mod w;

pub const EPS: f64 = f64::EPSILON;
pub const TINY: f64 = f64::MIN_POSITIVE;

/// |got - ref| <= rel*|ref| + abs, with the natural reading at the ends of the double range:
/// a reference beyond the largest double must come back as +-inf (or at least within `rel` of it).
pub fn close(class: &'static str, what: &str, got: f64, r: R, rel: f64, abs: f64) -> Verdict {
    let ratio = if r.hi.is_infinite() {
        if got == r.hi || (got.signum() == r.hi.signum() && got.abs() >= f64::MAX * (1.0 - rel.min(0.5))) {
            0.0
        } else {
            f64::INFINITY
        }
    } else if got.is_infinite() {
        // rounding may overflow just below the top of the range
        if got.signum() == r.hi.signum() && r.abs() * (1.0 + rel) >= f64::MAX {
            0.0
        } else {
            f64::INFINITY
        }
    } else if got.is_nan() {
        f64::INFINITY
    } else {
        // one subnormal ulp of slack: results there carry fewer bits
        r.err(got) / (rel * r.abs() + abs + 1e-323)
    };
    Verdict::ratio(class, ratio).note(|| format!("{what}: got {got:?}, reference {:?} (tol rel {rel:.1e} abs {abs:.1e})", r.hi))
}

pub fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(gamma::props());
    v.extend(beta::props());
    v.extend(erf::props());
    v.extend(w::props());
    v.extend(bessel::props());
    v.extend(relations::props());
    v.extend(misc::props());
    v.extend(cache::props());
    v.extend(purity::props());
    v.extend(memory::props());
    v.extend(time::props());
    v
}

/// How many times the base case counts a check runs: chosen so that each takes about the same time.
pub fn weight(id: &str) -> u64 {
    match id {
        "C17" => 1,
        "C05" | "C21" | "C22" => 2,
        "C24" => 3,
        "C01" | "C33" => 4,
        "C23" | "C31" => 5,
        "C07" | "C19" | "C20" | "C09" => 6,
        "C04" | "C29" => 20,
        "C10" | "C13" | "C15" | "C30" | "C32" => 12,
        _ => 8,
    }
}
