//! C28 argument contracts, C29 floating-point utilities, C30 Lambert W.
use super::*;
use crate::gen::*;
use crate::oracle;
use proptest::prelude::*;
use puruspe::utils::{factorial, frexp, ldexp, sign};
use puruspe::*;

// ------------------------------------------------------------------ C28
fn expect(class: &'static str, should_panic: bool, r: Result<String, String>, what: impl Fn() -> String) -> Verdict {
    match (should_panic, r) {
        (true, Ok(v)) => Verdict::fail(class, format!("{} returned {v} instead of panicking", what())),
        (false, Err(m)) => Verdict::fail(class, format!("{} panicked: {m}", what())),
        (p, _) => Verdict::ok(if p { "rejected" } else { class }),
    }
}
fn s<T: std::fmt::Debug>(f: impl FnOnce() -> T) -> Result<String, String> {
    catch(f).map(|v| format!("{v:?}"))
}
/// arguments around the edge of a domain
fn edge() -> B<f64> {
    prop_oneof![
        4 => any_f64(),
        3 => real(1e-300, 1e3, &[1.0]),
        2 => proptest::sample::select(&[0.0, -0.0, 1.0, 5e-324, -5e-324, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.5, 2.0, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, -1e-300][..]),
    ]
    .boxed()
}
fn contract2(c: &(f64, f64)) -> Verdict {
    let (a, x) = *c;
    let w = |n: &'static str| move || format!("{n}({a:?}, {x:?})");
    // NaN in a domain-checked argument is outside the domain
    let bad_pq = !(x >= 0.0 && a > 0.0);
    let v = Verdict::ok("accepted");
    // a huge shape makes the series long but never wrong; keep to shapes below 1e15
    let v = if a < 1e15 || bad_pq {
        v.and(expect("gammp", bad_pq, s(|| gammp(a, x)), w("gammp"))).and(expect("gammq", bad_pq, s(|| gammq(a, x)), w("gammq")))
    } else {
        v
    };
    v.and(expect("beta", !(a > 0.0 && x > 0.0), s(|| beta(a, x)), w("beta")))
}
fn contract_inv(c: &(f64, f64)) -> Verdict {
    let (p, a) = *c;
    if !(a <= 0.0 || a.is_nan() || a >= 1e-4 && a <= 1e6) {
        return Verdict::trivial("outside");
    }
    if p.is_nan() && a > 0.0 {
        return Verdict::trivial("outside");
    }
    expect("invgammp", !(a > 0.0), s(|| invgammp(p, a)), || format!("invgammp({p:?}, {a:?})"))
}
fn contract3(c: &(f64, f64, f64)) -> Verdict {
    let (a, b, x) = *c;
    if a > 1e9 || b > 1e9 {
        return Verdict::trivial("outside");
    }
    let bad = !(a > 0.0 && b > 0.0 && x >= 0.0 && x <= 1.0);
    expect("betai", bad, s(|| betai(a, b, x)), || format!("betai({a:?}, {b:?}, {x:?})"))
}
fn contract_bessel(c: &(f64, f64)) -> Verdict {
    let (nu, x) = *c;
    if nu.is_nan() || x.is_nan() || nu > 200.0 || x > 5000.0 || nu >= 0.0 && x > 0.0 && x < 1e-10 {
        return Verdict::trivial("outside");
    }
    let bad = x <= 0.0 || nu < 0.0;
    let w = |n: &'static str| move || format!("{n}({nu:?}, {x:?})");
    expect("besseljy", bad, s(|| besseljy(nu, x)), w("besseljy"))
        .and(expect("besselik", bad, s(|| besselik(nu, x)), w("besselik")))
        .and(expect("Jnu_Ynu", bad, s(|| Jnu_Ynu(nu, x)), w("Jnu_Ynu")))
        .and(expect("Inu_Knu", bad, s(|| Inu_Knu(nu, x)), w("Inu_Knu")))
}
/// functions without a panic section accept every bit pattern
fn never_panics(c: &(f64, f64)) -> Verdict {
    let (x, y) = *c;
    let w = |n: &'static str| move || format!("{n} of {x:?}, {y:?}");
    let mut v = Verdict::ok("accepted");
    macro_rules! np {
        ($($n:literal => $e:expr),* $(,)?) => { $( v = v.and(expect("accepted", false, s(|| $e), w($n))); )* };
    }
    np! {
        "erf" => erf(x), "erfc" => erfc(x), "erfcx" => erfcx(x), "inverf" => inverf(x), "inverfc" => inverfc(x),
        "gamma" => gamma(x), "ln_gamma" => ln_gamma(x), "dawson" => dawson(x), "faddeeva" => faddeeva(x, y),
        "lambert_w0" => lambert_w0(x), "lambert_wm1" => lambert_wm1(x), "sp_lambert_w0" => sp_lambert_w0(x), "sp_lambert_wm1" => sp_lambert_wm1(x),
        "frexp" => frexp(x), "ldexp" => ldexp(x, (y.to_bits() >> 32) as i32), "sign" => sign(x, y),
        "factorial" => factorial((y.to_bits() & 0x3ff) as usize),
    }
    v
}
fn never_panics_n(c: &(u32, f64)) -> Verdict {
    let (n, x) = *c;
    if n > 2000 {
        return Verdict::trivial("outside");
    }
    let w = |f: &'static str| move || format!("{f}({n}, {x:?})");
    expect("accepted", false, s(|| Jn(n, x)), w("Jn"))
        .and(expect("accepted", false, s(|| Yn(n, x)), w("Yn")))
        .and(expect("accepted", false, s(|| In(n, x)), w("In")))
        .and(expect("accepted", false, s(|| Kn(n, x)), w("Kn")))
}

// ------------------------------------------------------------------ C29
extern "C" {
    #[link_name = "ldexp"]
    fn c_ldexp(x: f64, e: std::os::raw::c_int) -> f64;
    #[link_name = "frexp"]
    fn c_frexp(x: f64, e: *mut std::os::raw::c_int) -> f64;
}
fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}
fn fcls(x: f64) -> &'static str {
    use std::num::FpCategory::*;
    match x.classify() {
        Nan => "nan",
        Infinite => "infinite",
        Zero => "zero",
        Subnormal => "subnormal",
        Normal => "normal",
    }
}
fn frexp_law(x: &f64) -> Verdict {
    let x = *x;
    let (m, e) = frexp(x);
    let mut ce = 0;
    let cm = unsafe { c_frexp(x, &mut ce) };
    let d = || format!("frexp({x:?}) = ({m:?}, {e}), C: ({cm:?}, {ce})");
    let ok = if x == 0.0 {
        m == 0.0 && e == 0
    } else if !x.is_finite() {
        same(m, x)
    } else {
        same(m, cm) && e == ce && m.abs() >= 0.5 && m.abs() < 1.0 && same(ldexp(m, e), x)
    };
    Verdict::check(fcls(x), ok, d)
}
fn ldexp_law(c: &(f64, i32)) -> Verdict {
    let (x, e) = *c;
    let (g, w) = (ldexp(x, e), unsafe { c_ldexp(x, e) });
    let cl = if !x.is_finite() || x == 0.0 {
        "special"
    } else if w.is_infinite() {
        "overflow"
    } else if w == 0.0 {
        "underflow"
    } else if w.abs() < TINY || x.abs() < TINY {
        "subnormal"
    } else {
        "normal"
    };
    Verdict::check(cl, same(g, w), || format!("ldexp({x:?}, {e}) = {g:?}, C: {w:?}"))
}
fn sign_law(c: &(f64, f64)) -> Verdict {
    let (a, b) = *c;
    if b.is_nan() {
        return Verdict::trivial("nan");
    }
    let g = sign(a, b);
    Verdict::check(if b == 0.0 { "b=0" } else { "b!=0" }, same(g, a.abs().copysign(b)), || format!("sign({a:?}, {b:?}) = {g:?}"))
}

// ------------------------------------------------------------------ C30
const BR: f64 = -0.367_879_441_171_442_33;
fn w_real(z: f64, w: f64, m1: bool, tol: f64, class: &'static str) -> Verdict {
    let d = || format!("z={z:?} w={w:?}");
    if z.is_nan() || z < BR || m1 && z > 0.0 {
        return Verdict::check("outside the real branch", w.is_nan(), d);
    }
    if m1 && z == 0.0 {
        return Verdict::check("zero", w == f64::NEG_INFINITY, d);
    }
    if z == 0.0 {
        return Verdict::check("zero", w == 0.0, d);
    }
    if z == f64::INFINITY {
        return Verdict::check("infinite", w == z, d);
    }
    if w.is_nan() || w.is_infinite() {
        return Verdict::fail(class, d());
    }
    if m1 && !(w <= -1.0 + 1e-6) || !m1 && !(w >= -1.0 - 1e-6) {
        return Verdict::fail("wrong branch", d());
    }
    if !m1 && z.abs() < 1e-9 {
        // the principal branch is accurate in the absolute sense next to its zero
        return Verdict::ratio("W0 next to 0", (w - z).abs() / (4e-16 + tol * z.abs())).note(d);
    }
    // backward error of w in w e^w = z, plus the change of z caused by a relative error tol in w
    let r = oracle::lambert(z, 0.0, w, 0.0)[0];
    let floor = if m1 { 0.0 } else { 4e-16 / z.abs() };
    Verdict::ratio(class, r / (tol * (1.0 + (1.0 + w).abs()) + floor)).note(d)
}
fn lambert_real(z: &f64) -> Verdict {
    let z = *z;
    w_real(z, lambert_w0(z), false, 1e-14, "W0")
        .and(w_real(z, lambert_wm1(z), true, 1e-14, "W-1"))
        .and(w_real(z, sp_lambert_w0(z), false, 3e-7, "sp W0"))
        .and(w_real(z, sp_lambert_wm1(z), true, 3e-7, "sp W-1"))
}
/// KF-1: the branch number also next to zero, where the library is known to miss it.
fn lambert_branch_everywhere(c: &(i32, f64, f64)) -> Verdict {
    let (k, x, y) = *c;
    let (wr, wi) = lambert_w(k, x, y);
    let o = oracle::lambert(x, y, wr, wi);
    Verdict::check("branch number", o[2] == k as f64, || format!("lambert_w({k}, {x:?}, {y:?}) = ({wr:?}, {wi:?}) lies on branch {}", o[2]))
}
fn lambert_complex(c: &(i32, f64, f64)) -> Verdict {
    let (k, x, y) = *c;
    if !(-100_000..=100_000).contains(&k) {
        return Verdict::trivial("outside");
    }
    let (wr, wi) = lambert_w(k, x, y);
    let d = || format!("lambert_w({k}, {x:?}, {y:?}) = ({wr:?}, {wi:?})");
    if !(x.is_finite() && y.is_finite()) {
        return Verdict::check("not finite", wr.is_nan() && wi.is_nan(), d);
    }
    let m = x.hypot(y);
    // close to the branch cut and (other branches) close to zero less accuracy is promised
    let near_cut = x <= 0.0 && y.abs() <= 1e-3 * x.abs() || (x - BR).hypot(y) < 1e-2;
    if !(m >= 1e-8 && m <= 1e80) || near_cut {
        return Verdict::trivial("outside");
    }
    let o = oracle::lambert(x, y, wr, wi);
    let t = 1e-15 * (2.0 + wr.hypot(wi));
    let v = Verdict::ratio(if m < 2.0 { "some branch, |z|<2" } else if k == 0 { "k=0" } else if k.abs() < 10 { "|k|<10" } else { "|k|>=10" }, o[0] / t).note(d);
    if m < 2.0 && (k.abs() == 1 || k == 0 && m > 0.25) {
        return v; // KF-1: the branch itself is not reliable there
    }
    v.and(Verdict::check("branch number", o[2] == k as f64, || format!("{} lies on branch {}", d(), o[2])))
}

/// On and right next to the branch cut, far from the branch point and from zero.
fn lambert_cut(c: &(i32, f64, f64)) -> Verdict {
    let (k, x, y) = *c;
    if !(x <= if k.abs() < 2 { -2.0 } else { -1e-8 } && x >= -1e80 && y.abs() <= 1e-3 * x.abs()) || !(-100_000..=100_000).contains(&k) {
        return Verdict::trivial("outside");
    }
    // the cut itself belongs to the upper side
    let y = if y == 0.0 { 0.0 } else { y };
    let (wr, wi) = lambert_w(k, x, y);
    let d = || format!("lambert_w({k}, {x:?}, {y:?}) = ({wr:?}, {wi:?})");
    let o = oracle::lambert(x, y, wr, wi);
    let t = 1e-15 * (2.0 + wr.hypot(wi));
    Verdict::ratio(if y == 0.0 { "on the cut" } else if y > 0.0 { "above the cut" } else { "below the cut" }, o[0] / t)
        .note(d)
        .and(Verdict::check("branch number", o[2] == k as f64, || format!("{} lies on branch {}", d(), o[2])))
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C28",
            rule: "arguments on, next to and far across the edge of each documented domain (zeros of both signs, subnormals, infinities, NaN, any bit pattern). Non-trivial: the contract of at least one function is decided by the case.",
            laws: vec![
                law("gammp, gammq, beta", 300_000, || (edge(), edge()).boxed(), contract2),
                law("invgammp", 200_000, || (prop_oneof![edge(), uni(0.0, 1.0)], prop_oneof![1 => edge(), 2 => pos(1e-4, 1e6, &[1.0, 100.0])]).boxed(), contract_inv),
                law("betai", 300_000, || (prop_oneof![1 => edge(), 3 => pos(1e-3, 1e4, &[1.0])], prop_oneof![1 => edge(), 3 => pos(1e-3, 1e4, &[1.0])], prop_oneof![1 => edge(), 1 => uni(0.0, 1.0)]).boxed(), contract3),
                law("besseljy, besselik and wrappers", 200_000, || (prop_oneof![2 => edge(), 1 => uni(0.0, 100.0)], prop_oneof![2 => edge(), 1 => uni(0.0, 200.0)]).boxed(), contract_bessel),
                law("functions without a panic contract", 300_000, || (any_f64(), any_f64()).boxed(), never_panics),
                law("Jn, Yn, In, Kn accept every argument", 100_000, || (prop_oneof![3 => 0u32..50, 1 => 0u32..2000], any_f64()).boxed(), never_panics_n),
            ],
        },
        Property {
            id: "C29",
            rule: "any bit pattern (biased to subnormals, zeros, infinities, NaN) and any exponent, biased to results around both ends of the range. Non-trivial: every case.",
            laws: vec![
                law("frexp against C", 600_000, any_f64, frexp_law),
                law("ldexp against C", 1_200_000, || (any_f64(), 0u8..4, any::<i32>(), -2200i32..2200, -60i32..60).prop_map(|(x, k, a, b, c)| {
                    // aim at the two ends of the range
                    let e = ((x.to_bits() >> 52) & 0x7ff) as i32;
                    (x, match k { 0 => a, 1 => b, 2 => c - e, _ => 2046 - e + c })
                }).boxed(), ldexp_law),
                law("sign", 200_000, || (any_f64(), any_f64()).boxed(), sign_law),
            ],
        },
        Property {
            id: "C30",
            rule: "real z: every magnitude, distances 1e-17..1 from -1/e and from 0, outside the branch, special values; complex z of modulus 1e-8..1e8 (branch number: from 2 up, below 2 only for |k| >= 2 and next to zero for k = 0) at least 1e-3 away (relatively) from the cut, |k| <= 1000. Non-trivial: inside the stated domain.",
            laws: vec![
                law("real branches", 400_000, || prop_oneof![
                    4 => uni(BR, 0.0), 2 => logu(1e-17, 0.36).prop_map(|d| BR + d), 2 => logu(5e-324, 0.36).prop_map(|d| -d), 4 => pos(5e-324, 1e300, &[0.5]), 1 => any_f64()
                ].boxed(), lambert_real),
                law("complex branches", 100_000, || (prop_oneof![4 => -6i32..=6, 1 => -1000i32..=1000, 1 => -100_000i32..=100_000], prop_oneof![4 => logu(1e-8, 1e8), 1 => logu(1e8, 1e80)], -3.2f64..3.2, 0u8..20).prop_map(|(k, r, t, s)| match s {
                    0 => (k, f64::INFINITY, t),
                    1 => (k, r, 0.0),
                    _ => (k, r * t.cos(), r * t.sin()),
                }).boxed(), lambert_complex),
                law("at the branch cut", 60_000, || (prop_oneof![2 => -2i32..=2, 2 => -8i32..=8, 1 => -1000i32..=1000, 1 => -100_000i32..=100_000], prop_oneof![3 => logu(2.0, 1e8), 1 => logu(1e8, 1e80), 1 => nice(2.0, 1e4), 2 => logu(1e-8, 2.0)], prop_oneof![1 => Just(0.0f64), 2 => logu(1e-18, 1e-3), 1 => logu(5e-324, 1e-18)], any::<bool>())
                    .prop_map(|(k, x, t, s)| (k, -x, if s { x * t } else { -x * t })).boxed(), lambert_cut),
                law("branch number everywhere (listed findings only)", 0, || Just((0, 1.0, 0.0)).boxed(), lambert_branch_everywhere),
            ],
        },
    ]
}
