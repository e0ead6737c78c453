use super::*;
use crate::gen::*;
use crate::oracle;
use proptest::prelude::*;
use puruspe::{dawson, erf, erfc, erfcx, inverf, inverfc};

static ERF_BRK: [f64; 6] = [0.5, 1.0, 2.0, 6.0, 26.5, 5.9];

fn erf_value(x: &f64) -> Verdict {
    if !(x.abs() <= 1e300) {
        return Verdict::trivial("outside");
    }
    close(if x.abs() < 0.5 { "small" } else if x.abs() < 6.0 { "mid" } else { "saturated" }, "erf", erf(*x), oracle::erf(*x), 0.0, 2e-15).with_nontrivial(x.abs() < 6.0)
}
fn erfc_value(x: &f64) -> Verdict {
    if !(x.abs() <= 1e300) {
        return Verdict::trivial("outside");
    }
    let cl = if *x < 0.0 { "neg" } else if *x < 2.0 { "0..2" } else if *x < 10.0 { "2..10" } else if *x < 26.5 { ">10" } else { "underflow" };
    if *x > 26.5 {
        let g = erfc(*x);
        return Verdict::check(cl, (0.0..1e-306).contains(&g), || format!("erfc={g:?}"));
    }
    close(cl, "erfc", erfc(*x), oracle::erfc(*x), 3e-15 * (1.0 + if *x > 0.0 { x * x } else { 0.0 }), 0.0).with_nontrivial(*x > -6.0)
}
fn erf_struct(x: &f64) -> Verdict {
    let x = *x;
    let (f, c) = (erf(x), erfc(x));
    if x.is_nan() {
        return Verdict::check("nan", f.is_nan() && c.is_nan(), || format!("erf={f:?} erfc={c:?}"));
    }
    let d = || format!("erf={f:?} erf(-x)={:?} erfc={c:?} erfc(-x)={:?}", erf(-x), erfc(-x));
    let ok = (-1.0..=1.0).contains(&f) && (0.0..=2.0).contains(&c);
    let mut v = Verdict::check("range", ok, d);
    if x.abs() > 30.0 {
        let s = if x > 0.0 { f == 1.0 && c == 0.0 } else { f == -1.0 && c == 2.0 };
        return v.and(Verdict::check("saturation", s, d));
    }
    // erf is odd, erfc(-x) = 2 - erfc(x), erf + erfc = 1
    v = v.and(Verdict::ratio("odd", (f + erf(-x)).abs() / 1e-15).note(d));
    v = v.and(Verdict::ratio("reflection", (c + erfc(-x) - 2.0).abs() / 2e-15).note(d));
    v.and(Verdict::ratio("complement", (f + c - 1.0).abs() / 2e-15).note(d))
}
fn erf_mono(c: &(f64, f64)) -> Verdict {
    let (x, d) = *c;
    let y = x + d;
    if !(x.abs() < 30.0) || !(d > 0.0) || !(y < 30.0) {
        return Verdict::trivial("outside");
    }
    let (a, b, ca, cb) = (erf(x), erf(y), erfc(x), erfc(y));
    let tc = 6e-15 * (1.0 + if x > 0.0 { x * x } else { 0.0 }) * ca + 1e-300;
    Verdict::ratio("erf", ((a - b) / 4e-15).max(0.0)).note(|| format!("erf {a:?} {b:?}")).and(Verdict::ratio("erfc", ((cb - ca) / tc).max(0.0)).note(|| format!("erfc {ca:?} {cb:?}")))
}

// ---------------------------------------------------------------- inverses

fn ps() -> B<f64> {
    prop_oneof![3 => uni(0.0, 2.0), 2 => nice(0.0, 2.0), 3 => logu(5e-324, 1.0), 2 => logu(1e-16, 1.0).prop_map(|x| 2.0 - x), 2 => near(&[1.0]), 2 => dict_near(5e-324, 2.0), 1 => dict_near(1e-16, 1.0).prop_map(|x| 2.0 - x), 1 => sign_flip(dict_near(1e-16, 1.0)).prop_map(|x| 1.0 - x), 1 => prop_oneof![nice(-6.0, 26.0), dict_near(1e-3, 26.0)].prop_map(|x| oracle::erfc(x).hi)].boxed()
}
fn inverfc_value(p: &f64) -> Verdict {
    let p = *p;
    if !(1e-300..2.0).contains(&p) {
        return Verdict::trivial("ends");
    }
    let x = inverfc(p);
    let cl = if p < 1e-100 { "far tail" } else if p < 1e-3 { "tail" } else if p < 1.0 { "mid" } else { "upper" };
    if !x.is_finite() {
        return Verdict::fail(cl, format!("x={x:?}"));
    }
    let e = oracle::erfc(x);
    // backward error in p relative to min(p, 1), the error of rounding x, and of rounding p near 2
    let dens = 1.1283791670955126 * (-x * x).exp();
    let tol = 4e-15 * (1.0 + x * x) * p.min(2.0 - p) + 4e-16 * x.abs() * dens + if p > 1.0 { 4e-16 } else { 0.0 };
    Verdict::ratio(cl, e.err(p) / tol).note(|| format!("x={x:?} erfc={:?}", e.hi))
}
fn inverf_value(p: &f64) -> Verdict {
    let p = *p;
    if !(p.abs() < 1.0) {
        return Verdict::trivial("ends");
    }
    let x = inverf(p);
    if 1.0 - p == 2.0 {
        // p rounds to -1 on the way
        return Verdict::check("rounds to the end", x < -5.0, || format!("x={x:?}"));
    }
    let e = oracle::erf(x);
    Verdict::ratio(if p.abs() < 1e-3 { "small" } else if p.abs() < 0.9 { "mid" } else { "tail" }, e.err(p) / 4e-15).note(|| format!("x={x:?} erf={:?}", e.hi))
}
fn inv_struct(p: &f64) -> Verdict {
    let p = *p;
    let (x, y) = (inverfc(p), inverf(p));
    if p.is_nan() {
        return Verdict::check("nan", x.is_nan() && y.is_nan(), || format!("inverfc={x:?} inverf={y:?}"));
    }
    let d = || format!("inverfc={x:?} inverf={y:?}");
    // outside the open interval: a sentinel where erfc is 0 or 2 (erf is +-1) to double precision
    let cx = if p >= 2.0 { x == -100.0 } else if p <= 0.0 { x == 100.0 } else { x.is_finite() && x.abs() < 40.0 };
    let cy = if p >= 1.0 { y == 100.0 } else if p <= -1.0 { y == -100.0 } else { y.is_finite() && (y.abs() < 40.0 || y == -100.0 && 1.0 - p == 2.0) };
    let mut v = Verdict::check("ends", cx && cy, d);
    if p > 0.0 && p < 2.0 && 2.0 - (2.0 - p) == p {
        // antisymmetry about p = 1, where the mirrored argument is exact
        let m = inverfc(2.0 - p);
        v = v.and(Verdict::ratio("antisymmetry", (x + m).abs() / (2e-14 * x.abs() + 4e-15)).note(|| format!("inverfc(p)={x:?} inverfc(2-p)={m:?}")));
    }
    if p.abs() < 1.0 && 1.0 - (1.0 - p) == p && (1.0 + p) - 1.0 == p {
        let m = inverf(-p);
        let dens = 1.1283791670955126 * (-y * y).exp();
        v = v.and(Verdict::ratio("inverf odd", (y + m).abs() * dens / 8e-15).note(|| format!("inverf(p)={y:?} inverf(-p)={m:?}")));
    }
    v
}
fn inv_mono(c: &(f64, f64)) -> Verdict {
    let (p, d) = *c;
    let q = p + d;
    if !(1e-300..2.0).contains(&p) || !(q < 2.0) || !(d > 0.0) {
        return Verdict::trivial("outside");
    }
    let x0 = inverfc(p);
    let need = 10e-15 * (1.0 + x0 * x0) * p.min(1.0) + 1e-15 * (p > 1.0) as i32 as f64;
    if d <= need || 2.0 - q < 1e-13 {
        return Verdict::trivial("closer than the accuracy");
    }
    let x1 = inverfc(q);
    Verdict::check("decreasing", x1 < x0, || format!("inverfc({p:?})={x0:?} inverfc({q:?})={x1:?}"))
}

// ---------------------------------------------------------------- erfcx

/// one of the subranges of the piecewise approximation, uniformly, and anywhere inside it
fn erfcx_sub() -> B<f64> {
    (-3i32..4, 0u32..64, prop_oneof![4 => 0f64..1.0, 1 => logu(1e-15, 1.0), 1 => logu(1e-15, 1.0).prop_map(|x| 1.0 - x), 1 => Just(0.0)], any::<bool>())
        .prop_map(|(e, i, t, s)| {
            let x = 2f64.powi(e) * (1.0 + (i as f64 + t) / 64.0);
            if s && x < 8.0 {
                -x
            } else {
                x
            }
        })
        .boxed()
}
fn erfcx_value(x: &f64) -> Verdict {
    let x = *x;
    if !(-26.7..=1e300).contains(&x) {
        return Verdict::trivial("outside");
    }
    let cl = if x < -6.1 { "<-6.1" } else if x < -0.125 { "-6.1..-.125" } else if x < 0.125 { "near 0" } else if x <= 12.0 { ".125..12" } else if x < 150.0 { "12..150" } else { ">150" };
    close(cl, "erfcx", erfcx(x), oracle::erfcx(x), if x < -0.125 { 2e-15 * (1.0 + x * x) } else { 1.5e-15 }, 0.0)
}
fn erfcx_total(x: &f64) -> Verdict {
    let x = *x;
    let g = erfcx(x);
    let d = || format!("erfcx={g:?}");
    if x.is_nan() {
        return Verdict::check("nan", g.is_nan(), d);
    }
    if x < -26.7 {
        return Verdict::check("overflow", g == f64::INFINITY, d);
    }
    if x == f64::INFINITY {
        return Verdict::check("+inf", g == 0.0, d);
    }
    if x >= 0.0 {
        return Verdict::check("positive", g > 0.0 && g <= 1.0, d);
    }
    Verdict::check("negative", g >= 1.0, d)
}
fn erfcx_identities(x: &f64) -> Verdict {
    let x = *x;
    if !(x.abs() < 26.0) {
        return Verdict::trivial("outside");
    }
    let e = (-x * x).exp();
    let (l, c) = (erfcx(x) * e, erfc(x));
    // exp(-x^2) itself carries a relative error of x^2 ulps
    let t = 6e-15 * (1.0 + x * x);
    let mut v = Verdict::ratio("erfcx exp(-x^2) = erfc", (l - c).abs() / (t * c)).note(|| format!("erfcx*exp={l:?} erfc={c:?}"));
    if x > 0.0 {
        let s = (erfcx(x) + erfcx(-x)) * e;
        v = v.and(Verdict::ratio("reflection", (s - 2.0).abs() / (2.0 * t)).note(|| format!("(erfcx(x)+erfcx(-x))exp(-x^2)={s:?}")));
    }
    v
}
fn erfcx_mono(c: &(f64, f64)) -> Verdict {
    let (x, d) = *c;
    let y = x + d;
    if !(-26.0..1e300).contains(&x) || !(d > 0.0) || !(y <= 1e300) {
        return Verdict::trivial("outside");
    }
    let (a, b) = (erfcx(x), erfcx(y));
    let t = if x < -0.125 { 4e-15 * (1.0 + x * x) } else { 3e-15 };
    Verdict::ratio("decreasing", ((b - a) / (t * a)).max(0.0)).note(|| format!("erfcx(x)={a:?} erfcx(y)={b:?}"))
}

// ---------------------------------------------------------------- Dawson

fn dawson_value(x: &f64) -> Verdict {
    let a = x.abs();
    if !(a <= 1e300) {
        return Verdict::trivial("outside");
    }
    let cl = if a < 0.2 { "<.2" } else if a < 10.0 { ".2..10" } else if a < 1e4 { "10..1e4" } else { ">1e4" };
    close(cl, "dawson", dawson(*x), oracle::dawson(*x), 1e-6, 0.0).with_nontrivial(a > 0.0)
}
fn dawson_struct(x: &f64) -> Verdict {
    let x = *x;
    let f = dawson(x);
    let d = || format!("D(x)={f:?} D(-x)={:?}", dawson(-x));
    if x.is_nan() {
        return Verdict::check("nan", f.is_nan(), d);
    }
    let odd = dawson(-x) == -f;
    let ok = if x == 0.0 { f == 0.0 } else if x.abs() < 1e-300 { f.abs() <= x.abs() } else if x.abs() > 1e300 { f.abs() < 1e-299 } else { f.signum() == x.signum() && f != 0.0 };
    // the maximum 0.5410442... and the two bounds D(x) <= x and D(x) <= 1/x
    let b = f.abs() <= 0.541_044_5 && f.abs() <= x.abs() * (1.0 + 1e-6) && (x.abs() < 1.0 || f.abs() <= 0.65 / x.abs());
    Verdict::check("odd", odd, d).and(Verdict::check("sign", ok, d)).and(Verdict::check("bounds", b, d))
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C12",
            rule: "proptest draws x (log-uniform from 1e-300, uniform to 30, typed decimals, break points; any bit pattern for the structural law) and pairs (x, x+d). Non-trivial: erf not saturated (|x|<6) in the accuracy law for erf, x>-6 for erfc, inside the domain otherwise.",
            laws: vec![
                law_screened("erf vs quad", 800_000, || prop_oneof![6 => real(5e-324, 30.0, &ERF_BRK), 6 => sign_flip(uni(0.0, 6.0)), 1 => real(1.0, 1e300, &[])].boxed(), erf_value, crate::probe!(8.0, |x| [m::erf(x)])),
                law_screened("erfc vs quad", 800_000, || prop_oneof![6 => real(5e-324, 27.3, &ERF_BRK), 4 => uni(-6.0, 27.0), 1 => real(1.0, 1e300, &[])].boxed(), erfc_value, crate::probe!(8.0, |x| [m::erfc(x)])),
                law("odd, complement, range, saturation", 800_000, || prop_oneof![2 => any_f64(), 3 => real(5e-324, 40.0, &ERF_BRK)].boxed(), erf_struct),
                law("monotone", 400_000, || (real(5e-324, 28.0, &ERF_BRK), logu(1e-17, 1.0)).boxed(), erf_mono),
            ],
        },
        Property {
            id: "C13",
            rule: "proptest draws p (uniform, both tails down to 1e-300 and to within 1e-16 of the ends, around the centre, typed decimals; any bit pattern for the structural law). Non-trivial: inside the open interval; ordering needs the two p to differ by more than the accuracy.",
            laws: vec![
                law_screened("erfc(inverfc(p)) = p vs quad", 400_000, ps, inverfc_value, crate::probe!(8.0, |x| [m::inverfc(x)])),
                law_screened("erf(inverf(p)) = p vs quad", 400_000, || sign_flip(prop_oneof![3 => uni(0.0, 1.0), 2 => nice(0.0, 0.999), 2 => logu(5e-324, 0.99), 2 => logu(1e-16, 1.0).prop_map(|x| 1.0 - x * 0.99), 1 => dict_near(1e-300, 0.999), 1 => dict_near(1e-16, 1.0).prop_map(|x| (1.0 - x).max(0.0))].boxed()), inverf_value, crate::probe!(8.0, |x| [m::inverf(x)])),
                law("ends, sentinels, antisymmetry, NaN", 800_000, || prop_oneof![2 => any_f64(), 3 => ps(), 1 => near(&[0.0, 1.0, 2.0, -1.0]), 1 => uni(-3.0, 3.0)].boxed(), inv_struct),
                law("inverfc is decreasing", 300_000, || (ps(), logu(1e-14, 1.0)).prop_map(|(p, d)| (p, d * p.min(1.0))).boxed(), inv_mono),
            ],
        },
        Property {
            id: "C14",
            rule: "proptest draws x over every subrange of the piecewise approximation (uniformly by subrange, with their boundaries), the expansions on either side, log-uniform to 1e300, and any bit pattern for totality. Non-trivial: inside the domain.",
            laws: vec![
                law_screened("erfcx vs quad, by subrange", 800_000, erfcx_sub, erfcx_value, crate::probe!(8.0, |x| [m::erfcx(x)])),
                law_screened(
                    "erfcx vs quad",
                    800_000,
                    || {
                        prop_oneof![
                            3 => real(5e-324, 26.6, &[0.125, 6.1, 12.0, 23.2]),
                            1 => pos(1e-3, 13.0, &[0.125, 0.25, 0.5, 1.0, 2.0, 4.0, 8.0, 12.0]),
                            1 => pos(10.0, 1e300, &[150.0, 23.2, 12.0, 6.9e7]),
                            1 => uni(10.0, 200.0),
                            1 => uni(-26.7, -5.0)
                        ]
                        .boxed()
                    },
                    erfcx_value, crate::probe!(8.0, |x| [m::erfcx(x)])),
                law("limits, range, NaN", 800_000, || prop_oneof![2 => any_f64(), 1 => near(&[-26.7, 0.0, 0.125, 12.0, 150.0]), 1 => real(5e-324, 30.0, &[])].boxed(), erfcx_total),
                law("erfc identity and reflection", 400_000, || real(5e-324, 26.0, &[0.125, 6.1, 12.0]), erfcx_identities),
                law("monotone", 400_000, || (prop_oneof![erfcx_sub(), real(5e-324, 26.0, &[0.125, 6.1, 12.0, 23.2]), pos(10.0, 1e10, &[150.0, 6.9e7])], logu(1e-17, 1.0), any::<bool>()).prop_map(|(x, d, r)| (x, if r { d * x.abs() } else { d })).boxed(), erfcx_mono),
            ],
        },
        Property {
            id: "C16",
            rule: "proptest draws x of either sign, log-uniform in [1e-300,1e300], uniform to 30, typed decimals and method switch points; any bit pattern for the structural law. Non-trivial: x is not zero (accuracy), every case (structure).",
            laws: vec![
                law_screened("dawson vs quad", 800_000, || prop_oneof![3=>real(5e-324, 30.0, &[0.2, 0.4, 0.8]), 1=>sign_flip(uni(0.0, 40.0)), 1 => near(&[0.2, -0.2, 1e4, -1e4]), 1=>real(1.0, 1e300, &[1e4])].boxed(), dawson_value, crate::probe!(8.0, |x| [m::dawson(x)])),
                law("odd, sign, bounds, NaN", 800_000, || prop_oneof![2 => any_f64(), 3 => real(5e-324, 100.0, &[0.2])].boxed(), dawson_struct),
            ],
        },
    ]
}
