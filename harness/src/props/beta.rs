use super::*;
use crate::gen::*;
use crate::oracle;
use proptest::prelude::*;
use puruspe::{beta, betai, invbetai};

fn param() -> B<f64> {
    prop_oneof![4 => pos(1e-6, 1e4, &[1.0, 0.5, 2.0]), 2 => nice(0.01, 200.0), 1 => logu(1e4, 1e6), 1 => logu(5e-324, 1e-5)].boxed()
}
fn ab() -> B<(f64, f64)> {
    or_fresh(ab_any(), fresh2(fresh(1e-6, 1e6), fresh(1e-6, 1e6)))
}
fn ab_any() -> B<(f64, f64)> {
    prop_oneof![4 => (param(), param()), 1 => (param(), logu(1e-12, 1.0)).prop_map(|(a, d)| (a, a * (1.0 + d))), 1 => (param(), dict_near(1e-6, 1e6)).prop_map(|(a, d)| (a, (a * d).clamp(5e-324, 1e6))), 1 => (param(), 0usize..6).prop_map(|(a, k)| (a, [a, a + 1.0, 1.0 / a, (1.0 - a).abs().max(1e-3), 2.0 * a, a + 0.5][k].clamp(5e-324, 1e6)))].boxed()
}
/// rounding of logarithms of size m ln m
fn mlnm(a: f64, b: f64) -> f64 {
    let m = a.max(b);
    m * (std::f64::consts::E + m).ln()
}
fn beta_tol(a: f64, b: f64) -> f64 {
    1e-9 + 4e-15 * mlnm(a, b)
}
fn beta_domain(a: f64, b: f64) -> bool {
    (5e-324..=1e6).contains(&a) && (5e-324..=1e6).contains(&b)
}
fn beta_value(c: &(f64, f64)) -> Verdict {
    let (a, b) = *c;
    if !beta_domain(a, b) {
        return Verdict::trivial("outside");
    }
    let l = oracle::lbeta(a, b).hi;
    let g = beta(a, b);
    if l < -700.0 {
        return Verdict::check("underflow", (0.0..1e-300).contains(&g), || format!("beta={g:?}"));
    }
    if l > 705.0 {
        return Verdict::check("overflow", g > 1e300, || format!("beta={g:?}"));
    }
    close(if a.min(b) < 1e-6 { "tiny" } else if a.max(b) > 1e4 { "huge" } else { "mid" }, "beta", g, oracle::beta(a, b), beta_tol(a, b), 0.0)
}
fn beta_laws(c: &(f64, f64)) -> Verdict {
    let (a, b) = *c;
    if !(1e-290..=1e6).contains(&a) || !(1e-290..=1e6).contains(&b) {
        return Verdict::trivial("outside");
    }
    let t = beta_tol(a + 1.0, b + 1.0);
    let (x, y) = (beta(a, b), beta(b, a));
    if !(x > 1e-300 && x < 1e300) {
        return Verdict::trivial("extreme");
    }
    let mut v = Verdict::ratio("symmetry", ((x - y) / x).abs() / (1e-12 + 4e-15 * mlnm(a, b))).note(|| format!("B(a,b)={x:?} B(b,a)={y:?}"));
    let o = beta(1.0, b) * b;
    v = v.and(Verdict::ratio("B(1,b)=1/b", (o - 1.0).abs() / beta_tol(1.0, b)).note(|| format!("b B(1,b)={o:?}")));
    if (a + 1.0) - 1.0 == a && (b + 1.0) - 1.0 == b {
        let s = beta(a + 1.0, b) + beta(a, b + 1.0);
        if s > 1e-300 {
            v = v.and(Verdict::ratio("B(a,b)=B(a+1,b)+B(a,b+1)", ((s - x) / x).abs() / (2.0 * t)).note(|| format!("sum={s:?} B={x:?}")));
        }
    }
    v
}

// ---------------------------------------------------------------- incomplete beta

fn shape() -> B<f64> {
    prop_oneof![4 => pos(1e-3, 1e4, &[1.0, 0.5, 2.0, 3000.0]), 2 => nice(0.01, 200.0), 2 => logu(2000.0, 1e5), 1 => uni(2900.0, 3100.0), 1 => logu(1e4, 1e6)].boxed()
}
fn abx() -> B<(f64, f64, f64)> {
    or_fresh(abx_any(), fresh2(fresh2(fresh(1e-3, 1e6), fresh(1e-3, 1e6)), fresh(1e-12, 1.0)).map(|f| (f, shape(), 0u8..3).prop_map(|(((a, b), x), c, k)| if k == 0 { (a, c, x) } else if k == 1 { (c, a, x) } else { (a, b, x) }).boxed()))
}
fn abx_any() -> B<(f64, f64, f64)> {
    (shape(), shape(), (any::<bool>(), dict_near(1e-6, 1e4)), 0u8..12, -8f64..8.0, 0f64..1.0, logu(5e-324, 1.0), logu(1e-16, 1.0), nice(0.0, 1.0), near(&[1.0]))
        .prop_map(|(a, b, (eq, d), k, s, u, l, l2, n, e)| {
            let b = if eq && k % 3 == 0 { a } else { b };
            let mu = a / (a + b);
            let sd = (a * b / (a + b).powi(2) / (a + b + 1.0)).sqrt();
            let x = match k {
                0 => u,
                1 => l,
                2 => 1.0 - l2,
                3 => mu + s * sd,
                4 => n,
                5 => (a + 1.0) / (a + b + 2.0) * e,
                7 => d,
                8 => 1.0 - d,
                9 => mu + d * sd * s.signum(),
                10 => [mu, a / b, b / a, (a - 1.0) / (a + b - 2.0), (a + 1.0) / (a + b + 2.0), 0.5, 1.0 - mu][(u * 1000.0) as usize % 7],
                11 => mu * d,
                _ => mu * (1.0 + s * l2),
            };
            (a, b, if x.is_nan() { 0.5 } else { x.clamp(0.0, 1.0) })
        })
        .boxed()
}
fn bi_domain(a: f64, b: f64, x: f64) -> bool {
    (1e-3..=1e6).contains(&a) && (1e-3..=1e6).contains(&b) && (0.0..=1.0).contains(&x)
}
pub fn bi_tol(a: f64, b: f64) -> f64 {
    1e-9 + 2e-15 * mlnm(a, b)
}
fn bi_class(a: f64, b: f64, x: f64) -> &'static str {
    if x == 0.0 || x == 1.0 {
        "ends"
    } else if a > 3000.0 && b > 3000.0 {
        if x > a / (a + b) {
            "quad upper"
        } else {
            "quad lower"
        }
    } else if x < (a + 1.0) / (a + b + 2.0) {
        "direct"
    } else {
        "complement"
    }
}
fn betai_value(c: &(f64, f64, f64)) -> Verdict {
    let (a, b, x) = *c;
    if !bi_domain(a, b, x) {
        return Verdict::trivial("outside");
    }
    let (i, j, _) = oracle::betai(a, b, x);
    if i.hi.is_nan() {
        return Verdict::trivial("oracle-nan");
    }
    close(bi_class(a, b, x), "I", betai(a, b, x), i, 0.0, bi_tol(a, b)).with_nontrivial(i.hi > 1e-9 && j.hi > 1e-9)
}
/// Below the switch point the value itself is computed: relative accuracy.
fn betai_relative(c: &(f64, f64, f64)) -> Verdict {
    let (a, b, x) = *c;
    if !bi_domain(a, b, x) || a > 3000.0 || b > 3000.0 || !(x > 0.0 && x < (a + 1.0) / (a + b + 2.0) * (1.0 - 1e-9)) {
        return Verdict::trivial("outside");
    }
    let (i, _, _) = oracle::betai(a, b, x);
    if !(i.hi > 1e-290) {
        return Verdict::trivial("below 1e-290");
    }
    close("lower tail", "I", betai(a, b, x), i, 3e-9 + 1e-14 * mlnm(a, b), 0.0)
}
fn betai_struct(c: &(f64, f64, f64)) -> Verdict {
    let (a, b, x) = *c;
    if !bi_domain(a, b, x) {
        return Verdict::trivial("outside");
    }
    let i = betai(a, b, x);
    let cl = bi_class(a, b, x);
    let t = bi_tol(a, b);
    let mut v = Verdict::check(cl, (0.0..=1.0).contains(&i), || format!("I={i:?} outside [0,1]"));
    v = v.and(Verdict::check("ends", betai(a, b, 0.0) == 0.0 && betai(a, b, 1.0) == 1.0, || format!("I(0)={:?} I(1)={:?}", betai(a, b, 0.0), betai(a, b, 1.0))));
    // symmetry, where 1 - x is exact
    let y = 1.0 - x;
    if 1.0 - y == x {
        let j = betai(b, a, y);
        v = v.and(Verdict::ratio(cl, (i + j - 1.0).abs() / (2.0 * t)).note(|| format!("I_x(a,b)={i:?} I_1-x(b,a)={j:?} sum-1={:?}", i + j - 1.0)));
    }
    // uniform and one-sided closed forms
    let u = betai(1.0, 1.0, x);
    v = v.and(Verdict::ratio("a=b=1", (u - x).abs() / 1e-9).note(|| format!("I_x(1,1)={u:?}")));
    let pa = betai(a, 1.0, x);
    v = v.and(Verdict::ratio("b=1", (pa - x.powf(a)).abs() / (t + 1e-15 * a)).note(|| format!("I_x(a,1)={pa:?} x^a={:?}", x.powf(a))));
    v.with_nontrivial(i > 1e-9 && i < 1.0 - 1e-9)
}
fn betai_mono(c: &(f64, f64, f64, f64)) -> Verdict {
    let (a, b, x, d) = *c;
    let y = x + d;
    if !bi_domain(a, b, x) || !(d > 0.0 && y <= 1.0) {
        return Verdict::trivial("outside");
    }
    let (i, j) = (betai(a, b, x), betai(a, b, y));
    Verdict::ratio(if bi_class(a, b, x) == bi_class(a, b, y) { "same method" } else { "across methods" }, ((i - j) / (2.0 * bi_tol(a, b))).max(0.0))
        .note(|| format!("I(x)={i:?} I(x+d)={j:?}"))
        .with_nontrivial(j > 1e-9 && i < 1.0 - 1e-9)
}
fn betai_recurrence(c: &(f64, f64, f64)) -> Verdict {
    // I_x(a+1,b) = I_x(a,b) - x^a (1-x)^b / (a B(a,b))
    let (a, b, x) = *c;
    if !bi_domain(a, b, x) || a > 1e5 || b > 1e5 || !(x > 0.0 && x < 1.0) || (a + 1.0) - 1.0 != a {
        return Verdict::trivial("inexact");
    }
    let term = (a * x.ln() + b * (-x).ln_1p() - a.ln() - oracle::lbeta(a, b).hi).exp();
    let (i0, i1) = (betai(a, b, x), betai(a + 1.0, b, x));
    Verdict::ratio("recurrence", (i1 - (i0 - term)).abs() / (2.0 * bi_tol(a, b) + 1e-14 * mlnm(a, b) * term.min(1.0)))
        .note(|| format!("I(a+1)={i1:?} I(a)={i0:?} term={term:?}"))
        .with_nontrivial(term > 1e-9)
}

// ---------------------------------------------------------------- inverse

fn pab() -> B<(f64, f64, f64)> {
    or_fresh(pab_any(), fresh2(fresh2(fresh(1e-2, 1e4), fresh(1e-2, 1e4)), fresh(1e-17, 1.0 - 1e-16)).map(|f| (f, shape(), 0u8..3).prop_map(|(((a, b), p), c, k)| { let c = c.clamp(1e-2, 1e4); if k == 0 { (p, a, c) } else if k == 1 { (p, c, a) } else { (p, a, b) } }).boxed()))
}
fn pab_any() -> B<(f64, f64, f64)> {
    let a = || prop_oneof![4 => pos(1e-2, 1e4, &[1.0, 0.5, 2.0, 3000.0]), 2 => nice(0.01, 200.0)];
    let p = prop_oneof![3 => uni(0.0, 1.0), 2 => nice(0.0, 1.0), 2 => logu(5e-324, 1.0), 2 => logu(1e-15, 0.5).prop_map(|x| 1.0 - x), 1 => near(&[0.5]), 1 => dict_near(1e-17, 1.0), 1 => dict_near(1e-17, 1.0).prop_map(|x| 1.0 - x)];
    // shapes that stand in some relation to each other, and the answer first: p = I_x(a, b) for a special x
    let related = (p.clone(), a(), 0usize..8).prop_map(|(p, a, k)| (p, a, [a, 1.0 / a, a + 1.0, (1.0 - a).abs(), 2.0 * a, a + 0.5, 0.5 * a, a * a][k].clamp(1e-2, 1e4)));
    let answer = abx().prop_map(|(a, b, x)| {
        let (a, b) = (a.clamp(1e-2, 1e4), b.clamp(1e-2, 1e4));
        (oracle::betai(a, b, x).0.hi, a, b)
    });
    prop_oneof![7 => (p, a(), a()), 1 => related, 2 => answer].boxed()
}
fn inv_domain(p: f64, a: f64, b: f64) -> bool {
    (5e-324..1.0).contains(&p) && (1e-2..=1e4).contains(&a) && (1e-2..=1e4).contains(&b)
}
fn inv_tol(a: f64, b: f64) -> f64 {
    1e-9 + 2e-15 * mlnm(a, b)
}
fn invbetai_value(c: &(f64, f64, f64)) -> Verdict {
    let (p, a, b) = *c;
    if !inv_domain(p, a, b) {
        return Verdict::trivial("ends");
    }
    let cl = if a > 3000.0 && b > 3000.0 { "quad" } else if a >= 1.0 && b >= 1.0 { "a,b>=1" } else if a.min(b) > 0.1 { "small" } else { "tiny" };
    let x = invbetai(p, a, b);
    if !(0.0..=1.0).contains(&x) {
        return Verdict::fail(cl, format!("x={x:?}"));
    }
    if x == 0.0 {
        // the inverse underflows: 0 is right iff I at the smallest number already reaches p
        let (i0, _, _) = oracle::betai(a, b, 5e-324);
        return Verdict::check("underflow", i0.hi >= p - 1e-9, || format!("x={x:?}"));
    }
    let cl = if x < 1e-300 { "x<1e-300" } else { cl };
    let (i, _, _) = oracle::betai(a, b, x);
    let xp = ulps(x, 1).min(1.0);
    let xm = ulps(x, -1).max(0.0);
    // the best representable answer may be a whole ulp of x away
    let (ip, _, _) = oracle::betai(a, b, xp);
    let (im, _, _) = oracle::betai(a, b, xm);
    let e = if im.hi <= p && p <= ip.hi { 0.0 } else { i.err(p).min(ip.err(p)).min(im.err(p)) };
    Verdict::ratio(cl, e / inv_tol(a, b)).note(|| format!("x={x:?} I={:?}", i.hi))
}
fn invbetai_ends(c: &(f64, f64, f64)) -> Verdict {
    let (p, a, b) = *c;
    if !(1e-2..=1e4).contains(&a) || !(1e-2..=1e4).contains(&b) || p.is_nan() {
        return Verdict::trivial("outside");
    }
    let x = invbetai(p, a, b);
    if p <= 0.0 {
        return Verdict::check("p<=0", x == 0.0, || format!("x={x:?}"));
    }
    if p >= 1.0 {
        return Verdict::check("p>=1", x == 1.0, || format!("x={x:?}"));
    }
    Verdict::check("range", (0.0..=1.0).contains(&x), || format!("x={x:?}"))
}
fn invbetai_mono(c: &(f64, f64, f64, f64)) -> Verdict {
    let (p, a, b, d) = *c;
    let p2 = p + d;
    if !inv_domain(p, a, b) || !(p2 < 1.0) || d <= 2.5 * inv_tol(a, b) {
        return Verdict::trivial("closer than the accuracy");
    }
    let (x, y) = (invbetai(p, a, b), invbetai(p2, a, b));
    // both may round to the same double (next to 1, or underflown), and each is only accurate to an ulp there
    Verdict::check("ordered", x <= ulps(y, 2), || format!("x({p:?})={x:?} x({p2:?})={y:?}"))
}
fn invbetai_sym(c: &(f64, f64, f64)) -> Verdict {
    // the inverse for (1-p, b, a) is 1 - x: judged through the library's own incomplete beta
    let (p, a, b) = *c;
    let q = 1.0 - p;
    if !inv_domain(p, a, b) || 1.0 - q != p {
        return Verdict::trivial("inexact");
    }
    let y = invbetai(q, b, a);
    let x = 1.0 - y;
    // a density so steep that the rounding of 1 - y matters says nothing
    let (i, _, dens) = oracle::betai(b, a, y);
    if !(dens * 4e-16 < 1e-10) || !(1e-6..0.999_999).contains(&y) {
        return Verdict::trivial("steep");
    }
    let e = (betai(a, b, x) - p).abs();
    Verdict::ratio("mirror", e / (2.0 * inv_tol(a, b) + bi_tol(a, b))).note(|| format!("y={y:?} I_y(b,a)={:?} I_1-y(a,b)={:?}", i.hi, betai(a, b, x)))
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C08",
            rule: "proptest draws both parameters in (0,1e6] (log-uniform, uniform, typed decimals, near each other). Non-trivial: inside the domain; the functional equations need B in (1e-300,1e300).",
            laws: vec![law_screened("beta vs quad", 500_000, ab, beta_value, crate::probe!(8.0, |(a, b)| [m::beta(a, b)])), law("beta functional equations", 400_000, ab, beta_laws)],
        },
        Property {
            id: "C09",
            rule: "proptest draws a, b in [1e-3,1e6] and x around the mean, at both ends down to 1e-300 / 1-1e-16, at the method switch, or anywhere. Non-trivial: I and 1-I exceed 1e-9 (absolute law); I in (1e-290, ..) in the directly computed regime (relative law).",
            laws: vec![law_screened("I vs quad", 120_000, abx, betai_value, crate::probe!(20.0, |(a, b, x)| [m::betai(a, b, x)])), law_screened("lower tail, relative", 200_000, abx, betai_relative, crate::probe!(20.0, |(a, b, x)| [m::betai(a, b, x)]))],
        },
        Property {
            id: "C10",
            rule: "as for the accuracy law, plus pairs (x, x+d), d from ulps to 1. Non-trivial: I not saturated to within 1e-9 of 0 or 1; symmetry needs 1-x exact; the recurrence needs a+1 exact and a difference term above 1e-9.",
            laws: vec![
                law("range, ends, symmetry, closed forms", 300_000, abx, betai_struct),
                law("I monotone in x", 200_000, || (abx(), logu(1e-16, 1.0)).prop_map(|((a, b, x), d)| (a, b, x, if d > 1e-4 { d * (1.0 - x) } else { d })).boxed(), betai_mono),
                law("recurrence in a", 200_000, abx, betai_recurrence),
            ],
        },
        Property {
            id: "C11",
            rule: "proptest draws p in (0,1) (uniform, both tails, typed decimals) and a, b in [1e-2,1e4]; the end law also draws p outside (0,1). Non-trivial: inside the domain; ordering needs the two p to differ by more than the accuracy; the mirror law needs 1-p exact.",
            laws: vec![
                law_screened("I(inverse(p)) = p vs quad", 60_000, pab, invbetai_value, crate::probe!(10.0, |(p, a, b)| [m::invbetai(p, a, b)])),
                law("ends and range", 100_000, || prop_oneof![1 => pab(), 1 => (prop_oneof![any_f64(), Just(0.0), Just(1.0), near(&[1.0])], pos(1e-2, 1e4, &[1.0]), pos(1e-2, 1e4, &[1.0]))].boxed(), invbetai_ends),
                law("inverse is increasing", 60_000, || (pab(), logu(1e-8, 1.0)).prop_map(|((p, a, b), d)| (p, a, b, d)).boxed(), invbetai_mono),
                law("mirror", 60_000, pab, invbetai_sym),
            ],
        },
    ]
}
