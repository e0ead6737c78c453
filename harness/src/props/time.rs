//! C33 bounded work: the CPU time of a call, and of a look-up in a large cache.
use super::cache::Cache;
use super::*;
use crate::gen::*;
use proptest::prelude::*;
use puruspe::*;

#[repr(C)]
struct Timespec(i64, i64);
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
/// CPU seconds this thread has used.
fn cpu() -> f64 {
    const CLOCK_THREAD_CPUTIME_ID: i32 = 3;
    let mut t = Timespec(0, 0);
    // SAFETY: t is a valid timespec (two 64-bit fields on every 64-bit Linux target).
    if unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &mut t) } != 0 {
        fatal("no thread CPU clock");
    }
    t.0 as f64 + t.1 as f64 * 1e-9
}
/// The least CPU time of up to `tries` runs; stops at the first one within `enough`.
fn least(enough: f64, tries: u32, mut f: impl FnMut()) -> f64 {
    let mut best = f64::INFINITY;
    for _ in 0..tries {
        let b = cpu();
        f();
        best = best.min(cpu() - b);
        if best <= enough {
            break;
        }
    }
    best
}

/// (function, order or first argument, second argument, third argument)
fn bounded(c: &(f64, f64, f64, f64)) -> Verdict {
    let f = c.0 as u8 % purity::N;
    let name = purity::NAMES[f as usize];
    let (mut a, mut b, d) = (c.1, c.2, c.3);
    // the domains of C19 to C24; elsewhere any bit pattern
    let mut size = 0.0;
    match f {
        15..=18 => {
            a = a.abs().min(20_000.0).floor();
            a = if a.is_nan() { 0.0 } else { a };
            size = a + b.abs().min(2e4);
        }
        6 | 7 => {
            a = a.abs().min(1e8);
            b = b.abs().min(1e8);
        }
        19..=22 | 32..=35 => {
            a = a.abs().min(1000.0);
            b = b.abs().clamp(1e-200, if matches!(f, 19 | 21 | 32 | 34) { 5000.0 } else { 1400.0 });
            size = a + b;
        }
        _ => {}
    }
    let bound = 0.03 + 2e-6 * if size > 0.0 { size } else { 0.0 };
    let t = least(bound, 5, || match f {
        15 => drop(std::hint::black_box(catch(|| Jn(a as u32, b)))),
        16 => drop(std::hint::black_box(catch(|| Yn(a as u32, b)))),
        17 => drop(std::hint::black_box(catch(|| In(a as u32, b)))),
        18 => drop(std::hint::black_box(catch(|| Kn(a as u32, b)))),
        28 => drop(std::hint::black_box(catch(|| utils::factorial(a.abs().min(1e5) as usize)))),
        _ => {
            std::hint::black_box(purity::call(&(f, a, b, d)));
        }
    });
    Verdict::ratio(name, t / bound).note(|| format!("{name} with arguments from ({a:?}, {b:?}, {d:?}) used {:.1} ms of CPU (at most {:.1} ms)", t * 1e3, bound * 1e3))
}

/// Look-ups, insertions and clears do not get slower with the number of entries.
fn lookups(c: &(u32, f64)) -> Verdict {
    fn go<C: Cache>(n: usize, salt: u32) -> (f64, f64) {
        let key = |i: usize| ((i % 3) as f64 * 0.5, 3.0 + (salt % 97) as f64 + i as f64 * [1e-7, 1e-9, 1e-4][salt as usize / 97 % 3]);
        let mut k = C::new_();
        // time of the insertions beyond that of the uncached calls
        let mut ins = f64::INFINITY;
        for _ in 0..3 {
            k.clear_();
            let b = cpu();
            for i in 0..n {
                let (nu, x) = key(i);
                std::hint::black_box(k.call(nu, x));
            }
            let m = cpu();
            for i in 0..n {
                let (nu, x) = key(i);
                std::hint::black_box(C::direct(nu, x));
            }
            ins = ins.min((m - b) - (cpu() - m));
            if ins < 0.02 + n as f64 * 5e-6 {
                break;
            }
        }
        let look = least(0.01, 5, || {
            for j in 0..1000 {
                let (nu, x) = key(j * (n / 1000).max(1) % n);
                std::hint::black_box((k.call(nu, x), k.contains_(nu, x), k.get_(nu, -x), k.len_()));
            }
        });
        (look / 0.03, ins / (0.05 + n as f64 * 10e-6))
    }
    let n = c.1 as usize;
    let (look, ins) = match c.0 % 4 {
        0 => go::<CachedBesselJY>(n, c.0 / 4),
        1 => go::<CachedBesselIK>(n, c.0 / 4),
        2 => go::<CachedJnuYnu>(n, c.0 / 4),
        _ => go::<CachedInuKnu>(n, c.0 / 4),
    };
    let class = ["CachedBesselJY", "CachedBesselIK", "CachedJnuYnu", "CachedInuKnu"][c.0 as usize % 4];
    Verdict::ratio(class, look).note(|| format!("{class}: 1000 look-ups in a cache of {n} entries used {:.1} ms of CPU", look * 30.0)).and(Verdict::ratio(class, ins).note(|| format!("{class}: {n} insertions used {:.3} s of CPU more than the uncached calls", ins * (0.05 + n as f64 * 10e-6))))
}

pub fn props() -> Vec<Property> {
    let arg = || prop_oneof![3 => any_f64(), 3 => real(1e-10, 2e4, &[1.0, 2.0, 8.0, 100.0, 3000.0]), 1 => uni(0.0, 1.0)].boxed();
    let near = move || prop_oneof![3 => (arg(), arg()), 1 => (arg(), uni(0.5, 2.0)).prop_map(|(a, r)| (a, a * r)), 1 => (arg(), logu(1e-12, 1.0)).prop_map(|(a, r)| (a, a * (1.0 + r)))].boxed();
    vec![Property {
        id: "C33",
        rule: "CPU time of the calling thread, the least of up to five runs. Every public function over any bit pattern (Bessel functions: orders and arguments in the domains of C19 to C24). Caches of up to 300 000 entries. Non-trivial: every call.",
        laws: vec![
            law("a call takes bounded time", 1_000_000, move || (0u32..36, near(), prop_oneof![4 => uni(0.0, 1.0), 1 => any_f64()]).prop_map(|(f, (a, b), d)| (f as f64, a, b, d)).boxed(), bounded),
            law("look-ups take constant time", 48, || (0u32..4000, logu(1000.0, 300_000.0)).boxed(), lookups),
        ],
    }]
}
