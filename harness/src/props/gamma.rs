use super::*;
use crate::gen::*;
use crate::oracle;
use proptest::prelude::*;
use puruspe::utils::factorial;
use puruspe::{erf, gamma, gammp, gammq, invgammp, ln_gamma};

static GAMMA_BRK: [f64; 10] = [2.5, 3.0, 3.5, 2.75, 3.25, 1.0, 2.0, 171.62437695630272, 170.0, 0.5];
/// the argument at which gamma reaches the largest double
const GAMMA_MAX: f64 = 171.624_376_956_302_7;

fn gamma_neg() -> B<f64> {
    prop_oneof![
        4 => uni(-186.0, 0.0),
        2 => dict_near(1e-300, 1e12).prop_map(|x| -x),
        2 => near_int(-186, 0),
        3 => nice(-186.0, 0.0),
        2 => uni(-8.0, 0.0),
        2 => logu(5e-324, 1.0).prop_map(|x| -x),
        1 => logu(170.0, 1e12).prop_map(|x| -x),
    ]
    .boxed()
}

fn is_pole(x: f64) -> bool {
    x <= 0.0 && x.fract() == 0.0
}

fn gamma_class(x: f64) -> &'static str {
    if x > 3.5 {
        if x.fract() == 0.0 {
            "integer"
        } else {
            "x>3.5"
        }
    } else if x > 2.5 {
        "2.5..3.5"
    } else if x > 0.0 {
        "0..2.5"
    } else if x > -20.0 {
        "-20..0"
    } else {
        "x<-20"
    }
}

fn gamma_value(x: &f64) -> Verdict {
    let x = *x;
    if is_pole(x) || !x.is_finite() {
        return Verdict::trivial("pole");
    }
    if x < -190.0 {
        let g = gamma(x);
        return Verdict::check("deep-negative", g.abs() <= 1e-323, || format!("gamma={g:?}"));
    }
    close(gamma_class(x), "gamma", gamma(x), oracle::gamma(x), 1e-14, 1e-307)
}

fn gamma_recurrence(x: &f64) -> Verdict {
    let x = *x;
    // only where x + 1 is exact, so that both sides have the same argument
    if is_pole(x) || is_pole(x + 1.0) || !x.is_finite() || (x + 1.0) - 1.0 != x || x.abs() < 1e-300 || x < -165.0 || x > 170.0 {
        return Verdict::trivial("inexact");
    }
    let (l, r) = (gamma(x + 1.0), x * gamma(x));
    if !(r.abs() < 1e307) {
        return Verdict::trivial("overflow");
    }
    Verdict::ratio(gamma_class(x), (l - r).abs() / (3e-14 * r.abs() + 1e-306)).note(|| format!("gamma(x+1)={l:?} x*gamma(x)={r:?}"))
}

/// Every bit pattern: the special values, the sign and totality.
fn gamma_total(x: &f64) -> Verdict {
    let x = *x;
    let g = gamma(x);
    let d = || format!("gamma({x:?})={g:?}");
    if x.is_nan() || x == f64::NEG_INFINITY {
        return Verdict::check("nan", g.is_nan(), d);
    }
    if x == 0.0 {
        return Verdict::check("zero", g.is_infinite() && g.is_sign_negative() == x.is_sign_negative(), d);
    }
    if x < 0.0 && x.fract() == 0.0 {
        return Verdict::check("negative integer", g.is_nan(), d);
    }
    if x > GAMMA_MAX {
        return Verdict::check("overflow", g == f64::INFINITY, d);
    }
    if x > 0.0 {
        if x.fract() == 0.0 {
            let e = oracle::gamma(x);
            let exact = x <= 23.0;
            return Verdict::check("positive integer", if exact { g == e.hi } else { e.err(g) <= 1e-14 * e.hi }, d);
        }
        // 1/x overflows only below 2^-1024
        let fin = g.is_finite() || x < 5.6e-309 || x > GAMMA_MAX - 2e-13;
        return Verdict::check("positive", g > 0.8856 && fin, d);
    }
    // between the poles the sign alternates; the result may underflow to a zero of either sign
    let neg = (-x).floor() % 2.0 == 0.0;
    let fin = g.is_finite() || x > -5.6e-309;
    Verdict::check("negative", !g.is_nan() && fin && if g == 0.0 { x < -170.0 && (x < -190.0 || oracle::gamma(x).abs() < 1e-307) } else { (g < 0.0) == neg }, d)
}

fn gamma_any() -> B<f64> {
    prop_oneof![
        6 => any_f64(),
        2 => (-200i64..200).prop_map(|k| k as f64),
        2 => near(&[GAMMA_MAX, 171.0, 172.0]),
        1 => (-40i64..=4).prop_map(|k| ulps(GAMMA_MAX, k)),
        2 => (-185i64..0, -15.0..-0.3f64, any::<bool>()).prop_map(|(k, e, s)| { let d = 10f64.powf(e); k as f64 + if s { d } else { -d } }),
        1 => uni(-190.0, 180.0),
        1 => logu(1e-310, 1e-290),
        1 => sign_flip(logu(1e15, 1e18)).prop_map(|x| x + 0.5),
    ]
    .boxed()
}

const LN_REL: f64 = 4e-15;
const LN_ABS: f64 = 6e-10;
fn lngamma_value(x: &f64) -> Verdict {
    let x = *x;
    if !(5e-324..=f64::MAX).contains(&x) {
        return Verdict::trivial("outside");
    }
    let class = if x > 1e305 { "next to overflow" } else if x > 1e6 { ">1e6" } else if x > 100.0 { "100..1e6" } else if x > 3.0 { "3..100" } else if x > 0.5 { "0.5..3" } else if x > 1e-8 { "1e-8..0.5" } else { "<1e-8" };
    close(class, "ln_gamma", ln_gamma(x), oracle::lgamma(x), LN_REL, LN_ABS)
}
fn lngamma_rec(x: &f64) -> Verdict {
    let x = *x;
    if !(1e-3..=1e8).contains(&x) || (x + 1.0) - 1.0 != x {
        return Verdict::trivial("inexact");
    }
    let (a, b) = (ln_gamma(x + 1.0), ln_gamma(x));
    let tol = 2.0 * LN_ABS + LN_REL * (a.abs() + b.abs());
    Verdict::ratio("recurrence", (a - b - x.ln()).abs() / tol).note(|| format!("lnG(x+1)={a:?} lnG(x)={b:?} ln x={:?}", x.ln()))
}
fn lngamma_gamma(x: &f64) -> Verdict {
    let x = *x;
    if !(1e-290..=171.0).contains(&x) {
        return Verdict::trivial("outside");
    }
    let (l, g) = (ln_gamma(x), gamma(x));
    Verdict::ratio("exp(ln_gamma)=gamma", (l - g.ln()).abs() / (LN_ABS + LN_REL * l.abs() + 2e-14)).note(|| format!("ln_gamma={l:?} ln(gamma)={:?}", g.ln()))
}

fn factorial_value(n: &u32) -> Verdict {
    let n = *n;
    let f = factorial(n as usize);
    if n > 170 {
        return Verdict::check("overflow", f == f64::INFINITY, || format!("{n}! = {f:?}"));
    }
    let r = oracle::factorial(n as i32);
    if n <= 22 {
        return Verdict::check("exact", f == r.hi, || format!("{n}! = {f:?}, exactly {:?}", r.hi));
    }
    let v = close("rounded", "factorial", f, r, 1e-14, 0.0);
    let p = factorial(n as usize - 1) * n as f64;
    v.and(Verdict::ratio("rounded", (f - p).abs() / (2e-14 * p)).note(|| format!("{n}! = {f:?} but n (n-1)! = {p:?}")))
        .and(Verdict::ratio("rounded", (gamma(n as f64 + 1.0) - f).abs() / (2e-14 * p)).note(|| format!("{n}! = {f:?} but gamma(n+1) = {:?}", gamma(n as f64 + 1.0))))
}

// ---------------------------------------------------------------- incomplete gamma

fn shape() -> B<f64> {
    prop_oneof![
        4 => pos(1e-6, 1e5, &[1.0, 100.0, 99.0, 101.0, 0.5, 2.0]),
        2 => uni(90.0, 130.0),
        2 => nice(0.001, 200.0),
        1 => logu(1e5, 1e7),
        1 => logu(5e-324, 1e-5),
    ]
    .boxed()
}

fn ax() -> B<(f64, f64)> {
    or_fresh(ax_any(), fresh2(fresh(1e-6, 1e7), fresh(1e-6, 1e7)))
}
fn ax_any() -> B<(f64, f64)> {
    (shape(), 0u8..17, logu(5e-324, 1e6), -8.0f64..8.0, 0f64..3.0, logu(1e-20, 1.0), nice(0.001, 200.0), near(&[0.0, 1.0]), dict_near(1e-6, 1e4))
        .prop_map(|(a, k, xl, s, r, sm, nx, e, d)| {
            let x = match k {
                0 => xl,
                1 => a + s * a.sqrt(),
                2 => a * r,
                3 => a * sm,
                4 => nx,
                5 => a + e,
                6 => 0.2 * a * (1.0 + (e - 1.0) * 0.01),
                7 => a + 20.0 * (a.sqrt() + 1.0) * e,
                8 => (a + 20.0 * (a.sqrt() + 1.0)) * (1.0 + (e - 1.0) * 0.01),
                9 => a + (s + 8.0) * 1.2 * (a.sqrt() + 1.0),
                11 => d,
                12 => a * d,
                13 => a + d * (a.sqrt() + 1.0),
                14 => a - d * a.sqrt(),
                15 => a + d,
                16 => [a, a - 1.0, a + 1.0, a + 2.0, a.sqrt(), 2.0 * a, 0.5 * a, a * a][(r * 1000.0) as usize % 8],
                _ => a + s.abs() * 3.0 * (a.sqrt() + 1.0),
            };
            (a, if x.is_finite() { x.abs() } else { a })
        })
        .boxed()
}

fn pq_class(a: f64, x: f64) -> &'static str {
    if x < a * EPS {
        "x<a*eps"
    } else if x > a + 20.0 * (a.sqrt() + 1.0) {
        "x>>a"
    } else if a >= 100.0 {
        if x < 0.2 * a {
            "big-a series"
        } else if x <= a - 1.0 {
            "big-a quad low"
        } else {
            "big-a quad high"
        }
    } else if x < a + 1.0 {
        "series"
    } else {
        "cf"
    }
}
fn pq_domain(a: f64, x: f64) -> bool {
    (5e-324..=1e7).contains(&a) && (0.0..=1e300).contains(&x)
}
pub fn pq_tol(a: f64) -> f64 {
    1e-9 + 1e-14 * a.max(1.0)
}

fn gammp_value(c: &(f64, f64)) -> Verdict {
    let (a, x) = *c;
    if !pq_domain(a, x) {
        return Verdict::trivial("outside");
    }
    let (p, q, _) = oracle::gammapq(a, x);
    close(pq_class(a, x), "P", gammp(a, x), p, 0.0, pq_tol(a)).with_nontrivial(p.hi > 1e-9 && q.hi > 1e-9)
}
fn gammq_value(c: &(f64, f64)) -> Verdict {
    let (a, x) = *c;
    if !pq_domain(a, x) {
        return Verdict::trivial("outside");
    }
    let (p, q, _) = oracle::gammapq(a, x);
    close(pq_class(a, x), "Q", gammq(a, x), q, 0.0, pq_tol(a)).with_nontrivial(p.hi > 1e-9 && q.hi > 1e-9)
}
/// The tail that is computed directly keeps its relative accuracy.
fn pq_relative(c: &(f64, f64)) -> Verdict {
    let (a, x) = *c;
    // not next to the ends of the regimes, where rounding decides
    if !pq_domain(a, x) || a >= 100.0 || x > (a + 20.0 * (a.sqrt() + 1.0)) * (1.0 - 1e-9) || (x - (a + 1.0)).abs() < 1e-9 * (a + 1.0) {
        return Verdict::trivial("outside");
    }
    let (p, q, _) = oracle::gammapq(a, x);
    let (r, g, cl, w) = if x < a + 1.0 { (p, gammp(a, x), "lower tail", "P") } else { (q, gammq(a, x), "upper tail", "Q") };
    if r.hi < 1e-290 {
        return Verdict::trivial("below 1e-290");
    }
    close(cl, w, g, r, 3e-9, 0.0)
}
fn pq_forms(c: &(f64, f64)) -> Verdict {
    let (n, x) = *c;
    if !(x > 0.0 && x < 700.0) {
        return Verdict::trivial("outside");
    }
    // a = 1: 1 - e^-x; a = 1/2: erf(sqrt x); a = n: 1 - the Poisson sum
    let e = (gammp(1.0, x) + (-x).exp_m1()).abs() / 1e-9;
    let h = (gammp(0.5, x) - erf(x.sqrt())).abs() / 1e-9;
    let k = (n as u32).clamp(1, 150);
    let (mut t, mut s) = ((-x).exp(), (-x).exp());
    for j in 1..k {
        t *= x / j as f64;
        s += t;
    }
    let q = gammq(k as f64, x);
    let po = if s > 1e-300 { (q - s).abs() / 1.1e-9 } else { 0.0 };
    Verdict::ratio("a=1", e)
        .note(|| format!("P(1,x)={:?}", gammp(1.0, x)))
        .and(Verdict::ratio("a=1/2", h).note(|| format!("P(1/2,x)={:?} erf(sqrt x)={:?}", gammp(0.5, x), erf(x.sqrt()))))
        .and(Verdict::ratio("a=n", po).note(|| format!("Q({k},x)={q:?} Poisson sum {s:?}")))
}
fn pq_struct(c: &(f64, f64)) -> Verdict {
    let (a, x) = *c;
    if !pq_domain(a, x) {
        return Verdict::trivial("outside");
    }
    let (p, q) = (gammp(a, x), gammq(a, x));
    let cl = pq_class(a, x);
    let inr = (0.0..=1.0).contains(&p) && (0.0..=1.0).contains(&q);
    Verdict::check(cl, inr, || format!("P={p:?} Q={q:?} outside [0,1]"))
        .and(Verdict::ratio(cl, (p + q - 1.0).abs() / 1e-12).note(|| format!("P={p:?} Q={q:?} sum-1={:?}", p + q - 1.0)))
}
/// Every positive shape and every non-negative limit, infinity included.
fn pq_total(c: &(f64, f64)) -> Verdict {
    let (a, x) = (c.0.abs(), c.1.abs());
    if !(5e-324..=1e300).contains(&a) || x.is_nan() {
        return Verdict::trivial("outside");
    }
    let (p, q) = (gammp(a, x), gammq(a, x));
    let ok = (0.0..=1.0).contains(&p) && (0.0..=1.0).contains(&q) && (p + q - 1.0).abs() <= 1e-12;
    if x == 0.0 {
        return Verdict::check("x=0", p == 0.0 && q == 1.0, || format!("P={p:?} Q={q:?}"));
    }
    if x == f64::INFINITY || x > 1e9 && x / 4.0 > a {
        return Verdict::check("x->inf", ok && p == 1.0 && q == 0.0, || format!("P={p:?} Q={q:?}"));
    }
    Verdict::check(if a > 1e7 { "huge a" } else { "range" }, ok, || format!("P={p:?} Q={q:?}"))
}
fn pq_mono(c: &(f64, f64, f64)) -> Verdict {
    let (a, x, d) = *c;
    if !pq_domain(a, x) || !(d > 0.0) || !(x + d <= 1e300) {
        return Verdict::trivial("outside");
    }
    let y = x + d;
    let (p1, p2, q1, q2) = (gammp(a, x), gammp(a, y), gammq(a, x), gammq(a, y));
    let tol = 2.0 * pq_tol(a);
    let v = (p1 - p2).max(q2 - q1) / tol;
    let crossing = pq_class(a, x) != pq_class(a, y);
    Verdict::ratio(if crossing { "across methods" } else { "same method" }, v.max(0.0)).note(|| format!("P({x:?})={p1:?} P({y:?})={p2:?} Q {q1:?} {q2:?}")).with_nontrivial(p2 > 1e-9 && p1 < 1.0 - 1e-9)
}
fn pq_shape_mono(c: &(f64, f64, f64)) -> Verdict {
    // P decreases in the shape
    let (a, x, d) = *c;
    if !pq_domain(a, x) || !(d > 0.0) || !(a + d <= 1e7) {
        return Verdict::trivial("outside");
    }
    let (p1, p2) = (gammp(a, x), gammp(a + d, x));
    Verdict::ratio("shape", ((p2 - p1) / (2.0 * pq_tol(a + d))).max(0.0)).note(|| format!("P(a)={p1:?} P(a+d)={p2:?}")).with_nontrivial(p1 > 1e-9 && p2 < 1.0 - 1e-9)
}
fn pq_recurrence(c: &(f64, f64)) -> Verdict {
    let (a, x) = *c;
    if !(1e-6..=1e4).contains(&a) || !(1e-300..=1e6).contains(&x) || (a + 1.0) - 1.0 != a {
        return Verdict::trivial("inexact");
    }
    let l = oracle::lgamma(a + 1.0).hi;
    let term = (a * x.ln() - x - l).exp();
    let (p1, p0) = (gammp(a + 1.0, x), gammp(a, x));
    let e = (p1 - (p0 - term)).abs() / (2.0 * pq_tol(a) + 1e-14 * a * (1.0 + x.ln().abs()));
    Verdict::ratio(if a >= 99.0 && a < 100.0 { "across a=100" } else { pq_class(a, x) }, e).note(|| format!("P(a+1)={p1:?} P(a)={p0:?} term={term:?}")).with_nontrivial(term > 1e-9)
}

fn axd() -> B<(f64, f64, f64)> {
    (ax(), logu(1e-16, 1.0), any::<bool>()).prop_map(|((a, x), d, s)| (a, x, if s { d * x.max(1e-300) } else { d * (a.sqrt() + 1.0) })).boxed()
}

// ---------------------------------------------------------------- inverse

fn pa() -> B<(f64, f64)> {
    or_fresh(pa_any(), fresh2(fresh(1e-17, 1.0 - 1e-16), fresh(1e-3, 1e6)))
}
fn pa_any() -> B<(f64, f64)> {
    let a = prop_oneof![
        4 => pos(1e-3, 1e4, &[1.0, 100.0, 0.5, 2.0]),
        2 => nice(0.01, 200.0),
        1 => logu(1e4, 1e6),
    ];
    let p = prop_oneof![3 => uni(0.0, 1.0), 2 => nice(0.0, 1.0), 2 => logu(5e-324, 1.0), 2 => logu(1e-15, 0.5).prop_map(|x| 1.0 - x), 1 => near(&[0.5]), 1 => dict_near(1e-17, 1.0), 1 => dict_near(1e-17, 1.0).prop_map(|x| 1.0 - x)];
    // the answer first: p = P(a, x) for an x that stands in some relation to a
    let answer = ax().prop_map(|(a, x)| {
        let a = a.clamp(1e-3, 1e6);
        (oracle::gammapq(a, x).0.hi, a)
    });
    prop_oneof![5 => (p, a), 1 => answer].boxed()
}
fn invgammp_value(c: &(f64, f64)) -> Verdict {
    let (p, a) = *c;
    if !(1e-300..1.0).contains(&p) || !(1e-3..=1e6).contains(&a) {
        return Verdict::trivial("ends");
    }
    let x = invgammp(p, a);
    let cl = if a > 100.0 { "a>100" } else if a > 1.0 { "1..100" } else if a > 0.05 { "0.05..1" } else { "a<0.05" };
    if !(x >= 0.0 && x.is_finite()) {
        return Verdict::fail(cl, format!("x={x:?}"));
    }
    let (pp, _, _) = oracle::gammapq(a, x);
    if x == 0.0 {
        // the inverse underflows: 0 is right iff P at the smallest number already reaches p
        let (p0, _, _) = oracle::gammapq(a, 5e-324);
        return Verdict::check("underflow", p0.hi >= p * (1.0 - 1e-9), || format!("x={x:?}"));
    }
    // below the normal range x itself is rounded to multiples of 5e-324
    if x < 1e-300 {
        let tol = p * (1e-9 + 4.0 * a * (5e-324 / x));
        return Verdict::ratio("x<1e-300", pp.err(p) / tol).note(|| format!("x={x:?} P(a,x)={:?}", pp.hi));
    }
    let tol = if a <= 100.0 { 1e-9 * p } else { pq_tol(a) };
    Verdict::ratio(cl, pp.err(p) / tol).note(|| format!("x={x:?} P(a,x)={:?}", pp.hi))
}
/// The upper tail: Q(a, inverse(p)) against 1 - p, which is exact for p >= 1/2.
fn invgammp_upper(c: &(f64, f64)) -> Verdict {
    let (p, a) = *c;
    if !(0.5..1.0).contains(&p) || !(1e-3..=1e6).contains(&a) {
        return Verdict::trivial("lower half");
    }
    let q = 1.0 - p;
    let x = invgammp(p, a);
    let (_, qq, _) = oracle::gammapq(a, x);
    // where gammp computes the lower tail, or integrates, its accuracy is that of p
    let (cl, tol) = if a > 100.0 { ("a>100", pq_tol(a)) } else if x < (a + 1.0) * (1.0 + 1e-9) { ("series", 1e-9) } else { ("a<=100", 1e-9 * q + 1e-12) };
    Verdict::ratio(cl, qq.err(q) / tol)
        .note(|| format!("x={x:?} Q(a,x)={:?} 1-p={q:?}", qq.hi))
        // and however close p is to 1, the answer does not run away
        .and(Verdict::ratio("farthest", 1e-20 / qq.hi).note(|| format!("x={x:?} Q(a,x)={:?} 1-p={q:?}", qq.hi)))
}
fn invgammp_ends(c: &(f64, f64)) -> Verdict {
    let (p, a) = *c;
    if !(1e-3..=1e6).contains(&a) || p.is_nan() {
        return Verdict::trivial("outside");
    }
    let x = invgammp(p, a);
    if p <= 0.0 {
        return Verdict::check("p<=0", x == 0.0, || format!("x={x:?}"));
    }
    if p >= 1.0 {
        // a finite point beyond all of the mass
        let (_, q, _) = oracle::gammapq(a, x);
        return Verdict::check("p>=1", x.is_finite() && q.hi < 1e-16 && gammp(a, x) == 1.0, || format!("x={x:?} Q={:?}", q.hi));
    }
    // the round trip through the library itself
    let back = gammp(a, x);
    let under = x < 1e-300;
    Verdict::ratio("round trip", if under { 0.0 } else { (back - p).abs() / pq_tol(a) }).note(|| format!("x={x:?} P={back:?}"))
}
fn invgammp_mono(c: &(f64, f64, f64)) -> Verdict {
    let (p, a, d) = *c;
    let p2 = p + d;
    if !(1e-300..1.0).contains(&p) || !(p2 < 1.0 && p2 > p) || !(1e-3..=1e6).contains(&a) {
        return Verdict::trivial("outside");
    }
    // apart by more than the accuracy of the inverse in p
    if d <= 2.5 * if a <= 100.0 { 1e-9 * p2 } else { pq_tol(a) } {
        return Verdict::trivial("closer than the accuracy");
    }
    let (x, y) = (invgammp(p, a), invgammp(p2, a));
    Verdict::check("ordered", x < y || y < 1e-315 && x <= y, || format!("x({p:?})={x:?} x({p2:?})={y:?}"))
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "proptest draws x over the positive axis up to overflow and the negative axis down to underflow (log-uniform, uniform, typed decimals, near-integers, method break points +- ulps). Non-trivial: not a pole and inside the stated domain; the recurrence law also needs x+1 exact.",
            laws: vec![
                law_screened("gamma positive vs quad", 1_500_000, || pos(5e-324, 171.7, &GAMMA_BRK), gamma_value, crate::probe!(4.0, |x| [m::gamma(x)])),
                law_screened("gamma negative vs quad", 1_500_000, gamma_neg, gamma_value, crate::probe!(4.0, |x| [m::gamma(x)])),
                law("gamma recurrence", 1_000_000, || prop_oneof![pos(1e-3, 170.0, &GAMMA_BRK), nice(-165.0, 170.0), gamma_neg()].boxed(), gamma_recurrence),
            ],
        },
        Property {
            id: "C02",
            rule: "proptest draws any 64-bit pattern as x, biased to special values, integers, neighbourhoods of integers and of the overflow point. Every case is non-trivial: each must produce its stated special value, sign or finiteness.",
            laws: vec![law("gamma special values, sign, totality", 4_000_000, gamma_any, gamma_total)],
        },
        Property {
            id: "C03",
            rule: "proptest draws x in (0,1e300] (log-uniform, uniform, typed decimals, near-integers, powers). Non-trivial: inside the domain (and x+1 exact for the recurrence).",
            laws: vec![
                law_screened("ln_gamma vs quad", 1_500_000, || prop_oneof![20 => pos(5e-324, 1e300, &GAMMA_BRK), 20 => pos(1e-12, 1e6, &GAMMA_BRK), 1 => uni(2.55e305, 2.565e305), 1 => logu(1e300, f64::MAX)].boxed(), lngamma_value, crate::probe!(4.0, |x| [m::ln_gamma(x)])),
                law("ln_gamma recurrence", 800_000, || pos(1e-3, 1e8, &GAMMA_BRK), lngamma_rec),
                law("ln_gamma = ln gamma", 800_000, || pos(1e-290, 171.0, &GAMMA_BRK), lngamma_gamma),
            ],
        },
        Property {
            id: "C04",
            rule: "n drawn from 0..=400 (every value is hit many times) and log-uniformly up to 100000. Every case is non-trivial.",
            laws: vec![
                law("factorial", 60_000, || (0u32..=400).boxed(), factorial_value),
                law("factorial large n", 4_000, || logu(1.0, 1e5).prop_map(|x| x as u32).boxed(), factorial_value),
            ],
        },
        Property {
            id: "C05",
            rule: "proptest draws the shape a in (0,1e7] and x relative to a (bulk, both tails, method switch points) or independently. Non-trivial: both tails exceed 1e-9 (absolute laws), or the tail exceeds 1e-290 and is in the directly computed regime (relative law).",
            laws: vec![
                law_screened("P vs quad", 120_000, ax, gammp_value, crate::probe!(20.0, |(a, x)| [m::gammp(a, x)])),
                law_screened("Q vs quad", 120_000, ax, gammq_value, crate::probe!(20.0, |(a, x)| [m::gammq(a, x)])),
                law_screened("directly computed tail, relative", 250_000, ax, pq_relative, crate::probe!(20.0, |(a, x)| [m::gammp(a, x), m::gammq(a, x)])),
                law("closed forms", 100_000, || (uni(1.0, 150.0), prop_oneof![uni(0.0, 200.0), logu(1e-12, 700.0), nice(0.01, 60.0)]).boxed(), pq_forms),
            ],
        },
        Property {
            id: "C06",
            rule: "proptest draws (a,x) as for the accuracy law, pairs (x, x+d) with d from ulps to the standard deviation, and arbitrary positive bit patterns. Non-trivial: inside the domain; for the ordering laws the values are not both saturated; for the recurrence a+1 is exact and the difference term exceeds 1e-9.",
            laws: vec![
                law("P+Q=1 and range", 400_000, ax, pq_struct),
                law("range for all positive arguments", 400_000, || (prop_oneof![2 => any_f64(), 1 => pos(1e-300, 1e300, &[]).boxed(), 1 => shape()], prop_oneof![any_f64(), pos(1e-300, 1e300, &[])]).boxed(), pq_total),
                law("P monotone in x", 250_000, axd, pq_mono),
                law("P monotone in a", 250_000, || (ax(), logu(1e-12, 1.0)).prop_map(|((a, x), d)| (a, x, d * a)).boxed(), pq_shape_mono),
                law("recurrence in a", 250_000, || prop_oneof![4 => ax(), 1 => (uni(98.0, 102.0), uni(20.0, 200.0))].boxed(), pq_recurrence),
            ],
        },
        Property {
            id: "C07",
            rule: "proptest draws p in (0,1) (uniform, both tails down to 1e-300 and 1-1e-15, typed decimals) and a in [1e-3,1e6]; the end law also draws p outside (0,1). Non-trivial: inside the domain; for the ordering law the two p differ by more than the stated accuracy.",
            laws: vec![
                law_screened("P(a, inverse(p)) = p vs quad", 150_000, pa, invgammp_value, crate::probe!(8.0, |(p, a)| [m::invgammp(p, a)])),
                law_screened("upper tail", 150_000, || (prop_oneof![1 => uni(0.5, 1.0), 1 => nice(0.5, 1.0), 3 => logu(1e-16, 0.5).prop_map(|q| 1.0 - q)], pos(1e-3, 1e6, &[1.0, 100.0, 0.5])).boxed(), invgammp_upper, crate::probe!(8.0, |(p, a)| [m::invgammp(p, a)])),
                law("ends and round trip", 150_000, || prop_oneof![3 => pa(), 1 => (prop_oneof![any_f64(), Just(0.0), Just(1.0), near(&[1.0])], shape()).boxed()].boxed(), invgammp_ends),
                law("inverse is increasing", 100_000, || (pa(), logu(1e-9, 1.0)).prop_map(|((p, a), d)| (p, a, d * p)).boxed(), invgammp_mono),
            ],
        },
    ]
}
