//! Generators. All randomness comes from proptest strategies.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

pub type B<T> = BoxedStrategy<T>;

/// log-uniform on [lo, hi] (lo > 0)
pub fn logu(lo: f64, hi: f64) -> B<f64> {
    (lo.ln()..hi.ln()).prop_map(move |e| e.exp().clamp(lo, hi)).boxed()
}

pub fn uni(lo: f64, hi: f64) -> B<f64> {
    (lo..hi).boxed()
}

/// move by k units in the last place
pub fn ulps(x: f64, k: i64) -> f64 {
    if !x.is_finite() {
        return x;
    }
    // map to a monotone integer line
    let to = |f: f64| {
        let b = f.to_bits() as i64;
        if b < 0 {
            i64::MIN - b
        } else {
            b
        }
    };
    let from = |i: i64| f64::from_bits(if i < 0 { (i64::MIN - i) as u64 } else { i as u64 });
    from(to(x).saturating_add(k))
}

/// Numbers from the source files of the code under test (outside coefficient tables and comments), with simple
/// combinations (a << b, a / b, squares, square roots). Positive, ascending. They only steer the generators towards places
/// where the code may switch method; no verdict depends on them.
pub struct Dict {
    /// every number
    all: Vec<f64>,
    /// those on, or within two lines of, lines that were not there when `lines.txt` was written (`pcheck lines`),
    /// and the values of the constants named on such lines; empty on the unchanged tree
    focus: Vec<f64>,
}
fn line_hash(file: &str, code: &str) -> u32 {
    let h = file.bytes().chain(code.bytes().filter(|b| !b.is_ascii_whitespace())).fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    (h ^ (h >> 32)) as u32
}
/// (file, code without comment) of every line of the code under test
fn source() -> Vec<(String, String)> {
    let mut files: Vec<_> = std::fs::read_dir("/repo/src").into_iter().flatten().flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|e| e == "rs")).collect();
    files.sort();
    let mut v = vec![];
    for f in files {
        let n = f.file_name().unwrap_or_default().to_string_lossy().into_owned();
        for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
            v.push((n.clone(), l.split("//").next().unwrap_or("").trim().to_string()));
        }
    }
    v
}
/// what the source might look up in the environment: the identifiers among its string literals
pub fn names_in_strings() -> Vec<String> {
    let mut v: Vec<String> = source()
        .iter()
        .flat_map(|(_, c)| c.split('"').skip(1).step_by(2).map(String::from).collect::<Vec<_>>())
        .filter(|s| !s.is_empty() && s.len() < 64 && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_'))
        .collect();
    v.sort();
    v.dedup();
    v
}
pub fn print_lines() {
    let mut h: Vec<u32> = source().iter().filter(|(_, c)| !c.is_empty()).map(|(f, c)| line_hash(f, c)).collect();
    h.sort();
    h.dedup();
    for h in h {
        println!("{h:08x}");
    }
}
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let known: std::collections::HashSet<u32> = include_str!("../lines.txt").lines().filter_map(|l| u32::from_str_radix(l, 16).ok()).collect();
        let src = source();
        let fresh: Vec<bool> = src.iter().map(|(f, c)| !c.is_empty() && !known.contains(&line_hash(f, c))).collect();
        let table = |code: &str, nums: &[f64]| !code.chars().any(|c| c.is_ascii_alphabetic() && c != 'e' && c != 'f') && code.ends_with(',') && nums.len() + 1 >= code.split(',').count();
        // const NAME: type = number;
        let mut consts: Vec<(&str, &str, f64)> = vec![];
        for (f, c) in &src {
            if let Some((_, d)) = c.split_once("const ") {
                if let (Some((name, _)), Some((_, val))) = (d.split_once(':'), d.split_once('=')) {
                    if let [x] = numbers(val)[..] {
                        consts.push((f, name.trim(), x));
                    }
                }
            }
        }
        let combine = |code: &str, nums: &[f64], v: &mut Vec<f64>| {
            for w in nums.windows(2) {
                if code.contains("<<") && w[1] < 64.0 {
                    v.push(w[0] * w[1].exp2());
                } else if w[1] != 0.0 {
                    v.push(w[0] / w[1]);
                    v.push(w[0] * w[1]);
                }
            }
            for &x in nums {
                v.extend([x, x * x, x.sqrt(), x - 1.0]);
            }
        };
        let (mut all, mut focus): (Vec<f64>, Vec<f64>) = (vec![1.0, 2.0], vec![]);
        for (i, (f, code)) in src.iter().enumerate() {
            let nums = numbers(code);
            if table(code, &nums) {
                continue;
            }
            combine(code, &nums, &mut all);
            let close = (i.saturating_sub(2)..(i + 3).min(src.len())).any(|j| fresh[j] && src[j].0 == *f);
            if fresh[i] {
                let mut n = nums;
                for w in code.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
                    n.extend(consts.iter().filter(|(g, name, _)| g == f && *name == w).map(|c| c.2));
                }
                combine(code, &n, &mut focus);
                focus.extend(n.iter().filter(|x| **x > 0.0).map(|x| 1.0 / x));
            } else if close {
                focus.extend(nums);
            }
        }
        for v in [&mut all, &mut focus] {
            v.retain(|x| x.is_finite() && *x > 0.0);
            v.sort_by(f64::total_cmp);
            v.dedup();
        }
        // a rewritten file: nothing in particular is new
        if focus.len() > 400 {
            focus.clear();
        }
        Dict { all, focus }
    })
}
/// numbers of the dictionary that satisfy `keep`; half of the draws are from the focus, if there is one
fn pick(keep: impl Fn(f64) -> bool) -> Option<B<f64>> {
    let [a, f] = [&dict().all, &dict().focus].map(|v| v.iter().copied().filter(|x| keep(*x)).collect::<Vec<f64>>());
    Some(match (a.is_empty(), f.is_empty()) {
        (true, true) => return None,
        (false, true) => proptest::sample::select(a).boxed(),
        (true, false) => proptest::sample::select(f).boxed(),
        (false, false) => prop_oneof![proptest::sample::select(a), proptest::sample::select(f)].boxed(),
    })
}
fn dict_weight() -> u32 {
    if dict().focus.is_empty() {
        4
    } else {
        10
    }
}
/// number literals of a piece of Rust source
pub fn numbers(code: &str) -> Vec<f64> {
    let c: Vec<char> = code.chars().collect();
    let (mut i, mut out) = (0, vec![]);
    while i < c.len() {
        if c[i].is_ascii_alphabetic() || c[i] == '_' {
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
        } else if c[i].is_ascii_digit() {
            let s = i;
            if c[i] == '0' && c.get(i + 1) == Some(&'x') {
                i += 2;
                while i < c.len() && (c[i].is_ascii_hexdigit() || c[i] == '_') {
                    i += 1;
                }
                let h: String = c[s + 2..i].iter().filter(|c| **c != '_').collect();
                out.extend(u64::from_str_radix(&h, 16).ok().map(|x| x as f64));
                continue;
            }
            let digits = |i: &mut usize| {
                while *i < c.len() && (c[*i].is_ascii_digit() || c[*i] == '_') {
                    *i += 1;
                }
            };
            digits(&mut i);
            // not a method call on an integer, nor a range
            if c.get(i) == Some(&'.') && !c.get(i + 1).is_some_and(|x| *x == '.' || x.is_ascii_alphabetic()) {
                i += 1;
                digits(&mut i);
            }
            if matches!(c.get(i), Some('e' | 'E')) && c.get(i + 1).is_some_and(|x| *x == '-' || *x == '+' || x.is_ascii_digit()) {
                i += 2;
                digits(&mut i);
            }
            let n: String = c[s..i].iter().filter(|c| **c != '_').collect();
            out.extend(n.parse::<f64>().ok());
            // type suffix
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    out
}
/// around or just beyond a dictionary number within [lo, hi]
pub fn dict_near(lo: f64, hi: f64) -> B<f64> {
    let Some(d) = pick(|x| (lo..=hi).contains(&x)) else {
        return Just(lo).boxed();
    };
    (d, 0u8..4, -6i64..=6, -15.0..0.3f64, any::<bool>())
        .prop_map(move |(p, k, u, e, s)| {
            let f = 1.0 + 10f64.powf(e);
            match k {
                0 => ulps(p, u),
                _ if s => p * f,
                _ => p / f,
            }
            .clamp(lo, hi)
        })
        .boxed()
}
/// a new number of the source (see `Dict`) within [lo, hi], exactly, next to it or near it
pub fn fresh(lo: f64, hi: f64) -> Option<B<f64>> {
    let f: Vec<f64> = dict().focus.iter().copied().filter(|x| (lo..=hi).contains(x)).collect();
    if f.is_empty() {
        return None;
    }
    Some(
        (proptest::sample::select(f), 0u8..3, -6i64..=6, -9.0..-0.5f64, any::<bool>())
            .prop_map(move |(p, k, u, e, s)| {
                let x = match k {
                    0 => ulps(p, u),
                    1 => p * if s { 1.0 - 10f64.powf(e) } else { 1.0 + 10f64.powf(e) },
                    _ => p + if s { -1.0 } else { 1.0 } * 10f64.powf(e),
                };
                x.clamp(lo, hi)
            })
            .boxed(),
    )
}
pub fn fresh_int(lo: u32, hi: u32) -> Option<B<u32>> {
    let f: Vec<u32> = dict().focus.iter().filter(|x| **x >= lo as f64 && **x <= hi as f64).map(|x| *x as u32).collect();
    if f.is_empty() {
        return None;
    }
    Some((proptest::sample::select(f), -2i64..=3).prop_map(move |(p, k)| (p as i64 + k).clamp(lo as i64, hi as i64) as u32).boxed())
}
/// `s`, and every fourth time `f` instead if there is anything new
pub fn or_fresh<T: std::fmt::Debug + 'static>(s: B<T>, f: Option<B<T>>) -> B<T> {
    match f {
        Some(f) => prop_oneof![3 => s, 1 => f].boxed(),
        None => s,
    }
}
pub fn fresh2<A: std::fmt::Debug + 'static, C: std::fmt::Debug + 'static>(a: Option<B<A>>, b: Option<B<C>>) -> Option<B<(A, C)>> {
    Some((a?, b?).boxed())
}

/// dictionary integers in [lo, hi], give or take one
pub fn dict_int(lo: u32, hi: u32) -> B<u32> {
    let Some(d) = pick(|x| x.fract() == 0.0 && x >= lo as f64 && x <= hi as f64) else {
        return Just(lo).boxed();
    };
    (d, -2i64..=3).prop_map(move |(p, k)| (p as i64 + k).clamp(lo as i64, hi as i64) as u32).boxed()
}

/// points close to any of `pts`: a few ulps away, or a relative distance 1e-15 .. 1e-1
pub fn near(pts: &'static [f64]) -> B<f64> {
    let sel = proptest::sample::select(pts);
    prop_oneof![
        (sel.clone(), -6i64..=6).prop_map(|(p, k)| ulps(p, k)),
        (sel, -15.0..-1.0f64, any::<bool>()).prop_map(|(p, e, s)| {
            let d = 10f64.powf(e) * p.abs().max(1e-3);
            if s {
                p + d
            } else {
                p - d
            }
        }),
    ]
    .boxed()
}

/// short decimals and small rationals: the values people type
pub fn nice(lo: f64, hi: f64) -> B<f64> {
    let span = |d: f64| ((lo * d).ceil() as i64, (hi * d).floor() as i64);
    let mk = move |d: f64| {
        let (a, b) = span(d);
        let (a, b) = (a.max(-2_000_000_000_000), b.min(2_000_000_000_000));
        if a > b {
            Just(lo).boxed()
        } else {
            (a..=b).prop_map(move |k| (k as f64 / d).clamp(lo, hi)).boxed()
        }
    };
    prop_oneof![
        4 => mk(1.0), 3 => mk(2.0), 1 => mk(3.0), 2 => mk(4.0), 1 => mk(8.0), 3 => mk(10.0), 2 => mk(100.0), 1 => mk(1000.0),
        1 => mk(64.0)
    ]
    .boxed()
}

/// integers with a tiny offset on either side
pub fn near_int(lo: i64, hi: i64) -> B<f64> {
    (lo..=hi, prop_oneof![4 => (-16.0..-1.0f64).prop_map(|e| 10f64.powf(e)), 1 => dict_near(1e-17, 0.5)], any::<bool>())
        .prop_map(|(k, d, s)| k as f64 + if s { d } else { -d })
        .boxed()
}

/// powers of two and ten, a few ulps off, within [lo, hi], lo > 0
pub fn powers(lo: f64, hi: f64) -> B<f64> {
    let l2 = (lo.log2().ceil() as i32, hi.log2().floor() as i32);
    let l10 = (lo.log10().ceil() as i32, hi.log10().floor() as i32);
    prop_oneof![
        (l2.0..=l2.1.max(l2.0), -3i64..=3).prop_map(move |(e, k)| ulps(2f64.powi(e), k).clamp(lo, hi)),
        (l10.0..=l10.1.max(l10.0), -3i64..=3, 1i32..10).prop_map(move |(e, k, m)| ulps(m as f64 * 10f64.powi(e), k).clamp(lo, hi)),
    ]
    .boxed()
}

/// A positive argument on [lo, hi]: every magnitude, every typical range, typed values, powers, break points.
pub fn pos(lo: f64, hi: f64, brk: &'static [f64]) -> B<f64> {
    assert!(lo > 0.0 && hi > lo);
    let mut v: Vec<(u32, B<f64>)> = vec![(6, logu(lo, hi)), (1, powers(lo, hi))];
    for top in [1.0, 4.0, 12.0, 60.0, 400.0, 5000.0] {
        if top > lo {
            v.push((2, uni(lo, f64::min(top, hi))));
            if top >= hi {
                break;
            }
        }
    }
    if hi > 1.0 {
        v.push((3, nice(lo, hi.min(400.0))));
        v.push((2, near_int(1.max(lo.ceil() as i64), hi.min(300.0) as i64)));
    } else {
        v.push((2, nice(lo, hi)));
    }
    if lo < 1e-3 {
        v.push((3, logu(1e-3_f64.min(hi / 2.0).max(lo), hi.min(1e3))));
    }
    if !brk.is_empty() {
        v.push((4, near(brk)));
    }
    v.push((dict_weight(), dict_near(lo, hi)));
    v.push((1, low_bits(logu(lo, hi))));
    v.push((1, low_bits(uni(lo, hi.min(50.0)))));
    proptest::strategy::Union::new_weighted(v)
        .prop_map(move |x| if x.is_finite() { x.abs().clamp(lo, hi) } else { lo })
        .boxed()
}

/// Low mantissa bits that are all zero, all one, or a number of the source.
pub fn low_bits(s: B<f64>) -> B<f64> {
    let d = pick(|x| x.fract() == 0.0 && x < 2f64.powi(53)).map_or(Just(1u64).boxed(), |d| d.prop_map(|x| x as u64).boxed());
    (s, 3u32..44, 0u8..4, d)
        .prop_map(|(x, k, how, v)| {
            let k = if how < 2 { k } else { k.max(64 - v.leading_zeros()).min(53) };
            let m = (1u64 << k) - 1;
            f64::from_bits((x.to_bits() & !m) | match how { 0 => 0, 1 => m, _ => v & m })
        })
        .boxed()
}

/// symmetric version of `pos`, plus signed zeros
pub fn real(lo: f64, hi: f64, brk: &'static [f64]) -> B<f64> {
    prop_oneof![
        60 => (pos(lo, hi, brk), any::<bool>()).prop_map(|(x, s)| if s { -x } else { x }),
        1 => prop_oneof![Just(0.0), Just(-0.0)],
    ]
    .boxed()
}

/// any bit pattern, biased towards the special ones
pub fn any_f64() -> B<f64> {
    prop_oneof![
        6 => any::<u64>().prop_map(f64::from_bits),
        3 => proptest::sample::select(&[
            0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE,
            5e-324, -5e-324, f64::MAX, f64::MIN, 1.0, -1.0, f64::EPSILON, 2.2250738585072009e-308,
            9007199254740992.0, -9007199254740992.0, 4503599627370495.5, -4503599627370495.5, 1e154, -1e154, 1e155, 1.7e308
        ][..]),
        4 => real(1e-300, 1e300, &[]),
        2 => (0u64..(1u64 << 52), any::<bool>()).prop_map(|(m, s)| f64::from_bits(m | ((s as u64) << 63))),
        2 => (-400i64..=400).prop_map(|k| k as f64),
        2 => sign_flip(dict_near(1e-300, 1e300)),
        1 => low_bits(any::<u64>().prop_map(f64::from_bits).boxed()),
    ]
    .boxed()
}

pub fn sign_flip(s: B<f64>) -> B<f64> {
    (s, any::<bool>()).prop_map(|(x, n)| if n { -x } else { x }).boxed()
}
