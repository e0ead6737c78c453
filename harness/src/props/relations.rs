//! Relations between the functions of the crate themselves (no external oracle).
use super::bessel::{amp, nux, nx, zeros};
use super::*;
use crate::gen::*;
use proptest::prelude::*;
use puruspe::*;
use std::f64::consts::PI;

/// |got - want| against the summed error bounds of the terms
fn rel_check(class: &'static str, got: f64, want: f64, tol: f64, what: impl FnOnce() -> String) -> Verdict {
    Verdict::ratio(class, (got - want).abs() / (tol + 1e-305)).note(|| format!("{}: {got:?} vs {want:?}", what()))
}

// ------------------------------------------------------------------ C25
/// error bounds promised for besseljy (J, Y, J', Y')
fn ej(nu: f64, x: f64, v: f64, second: bool) -> f64 {
    let a = if !second && nu > x { 0.0 } else { amp(x) * (1e-13 + 1.2e-15 * x * x) };
    1e-13 * (1.0 + nu) * v.abs() + a
}
fn ei(nu: f64, v: f64) -> f64 {
    1e-13 * (1.0 + nu) * v.abs()
}
fn wronskian_jy(c: &(f64, f64)) -> Verdict {
    let (nu, x) = *c;
    if !(nu >= 0.0 && nu <= 150.0 && x >= 1e-10 && x <= 5000.0) {
        return Verdict::trivial("outside");
    }
    let (j, y, jp, yp) = besseljy(nu, x);
    if y.abs() > 1e280 || yp.abs() > 1e300 || j.abs() < 1e-280 && nu > x {
        return Verdict::trivial("end of range");
    }
    let w = 2.0 / (PI * x);
    let t = |a: f64, sa: bool, b: f64, sb: bool| ej(nu, x, a, sa) * b.abs() + ej(nu, x, b, sb) * a.abs();
    let tol = t(j, false, yp, true) + t(jp, false, y, true) + 1e-14 * w;
    rel_check("J Y' - J' Y = 2/(pi x)", j * yp - jp * y, w, tol, || "Wronskian".into())
}
fn wronskian_ik(c: &(f64, f64)) -> Verdict {
    let (nu, x) = *c;
    if !(nu >= 0.0 && nu <= 150.0 && x >= 1e-10 && x <= 1400.0) {
        return Verdict::trivial("outside");
    }
    let (i, k, ip, kp) = besselik(nu, x);
    if k > 1e280 || kp.abs() > 1e300 || i < 1e-280 || i > 1e290 || ip > 1e290 || k < 1e-290 {
        return Verdict::trivial("end of range");
    }
    let tol = 1e-13 * (1.0 + nu) * ((i * kp).abs() + (ip * k).abs()) + 1e-14 / x;
    rel_check("I' K - I K' = 1/x", ip * k - i * kp, 1.0 / x, tol, || "Wronskian".into())
}
fn wronskian_int(c: &(u32, f64)) -> Verdict {
    let (n, x) = *c;
    if !(n <= 1000 && x >= 1e-100 && x <= 2e4) {
        return Verdict::trivial("outside");
    }
    let (j, j1, y, y1) = (Jn(n, x), Jn(n + 1, x), Yn(n, x), Yn(n + 1, x));
    let mut v = Verdict::trivial("end of range");
    let e = 2e-14 + 2e-15 * n as f64;
    if y1.abs() < 1e290 && (j1.abs() > 1e-290 || x > n as f64) {
        let ab = |v: f64, osc: bool| e * v.abs() + if osc { (1e-14 + 3e-15 * x) * amp(x) } else { 0.0 };
        let oj = x > 0.5 * n as f64;
        let tol = ab(j1, oj) * y.abs() + ab(y, true) * j1.abs() + ab(j, oj) * y1.abs() + ab(y1, true) * j.abs();
        let w = 2.0 / (PI * x);
        v = rel_check("J(n+1) Y(n) - J(n) Y(n+1) = 2/(pi x)", j1 * y - j * y1, w, tol + 1e-14 * w, || "Wronskian".into());
    }
    if x <= 1400.0 {
        let (i, i1, k, k1) = (In(n, x), In(n + 1, x), Kn(n, x), Kn(n + 1, x));
        if k1 < 1e290 && i1 > 1e-290 && i < 1e290 && k > 1e-290 {
            let tol = (5e-14 + 4e-15 * n as f64) * (i * k1 + i1 * k);
            v = v.and(rel_check("I(n) K(n+1) + I(n+1) K(n) = 1/x", i * k1 + i1 * k, 1.0 / x, tol, || "Wronskian".into())).with_nontrivial(true);
        }
    }
    v
}
/// f(nu-1) + s f(nu+1) = (2 nu / x) f(nu), and the derivative from the neighbouring order
fn recur_jy(c: &(f64, f64)) -> Verdict {
    let (nu, x) = *c;
    if !(nu >= 1.0 && nu <= 149.0 && x >= 1e-3 && x <= 5000.0) {
        return Verdict::trivial("outside");
    }
    let (a, b, d) = (besseljy(nu - 1.0, x), besseljy(nu, x), besseljy(nu + 1.0, x));
    if d.1.abs() > 1e290 || d.0.abs() < 1e-290 && nu > x {
        return Verdict::trivial("end of range");
    }
    let f = 2.0 * nu / x;
    // rounding of nu +- 1 moves the order by up to an ulp: |d/dnu| <= a few |log| factors
    let e = |n: f64, v: f64, s: bool| ej(n, x, v, s) + 1e-14 * v.abs() * (1.0 + (nu / x).ln().abs()) * (1.0 + nu);
    let tj = 0.2 * (e(nu - 1.0, a.0, false) + e(nu + 1.0, d.0, false) + f * e(nu, b.0, false) + if nu > x { e(nu, a.0, false) } else { 0.0 });
    let ty = 0.2 * (e(nu - 1.0, a.1, true) + e(nu + 1.0, d.1, true) + f * e(nu, b.1, true));
    let v = rel_check("J recurrence", a.0 + d.0, f * b.0, tj, || "J(nu-1)+J(nu+1)".into());
    let v = v.and(rel_check("Y recurrence", a.1 + d.1, f * b.1, ty, || "Y(nu-1)+Y(nu+1)".into()));
    let v = v.and(rel_check("J' relation", b.2, a.0 - nu / x * b.0, tj + ej(nu, x, b.2, false), || "J'".into()));
    v.and(rel_check("Y' relation", b.3, a.1 - nu / x * b.1, ty + ej(nu, x, b.3, true), || "Y'".into()))
}
fn recur_ik(c: &(f64, f64)) -> Verdict {
    let (nu, x) = *c;
    if !(nu >= 1.0 && nu <= 149.0 && x >= 1e-3 && x <= 1400.0) {
        return Verdict::trivial("outside");
    }
    let (a, b, d) = (besselik(nu - 1.0, x), besselik(nu, x), besselik(nu + 1.0, x));
    if d.1 > 1e290 || d.0 < 1e-290 || a.0 > 1e290 || a.1 < 1e-290 {
        return Verdict::trivial("end of range");
    }
    let f = 2.0 * nu / x;
    let e = |n: f64, v: f64| ei(n, v) + 1e-14 * v.abs() * (1.0 + (nu / x).ln().abs()) * (1.0 + nu);
    let ti = 0.2 * (e(nu - 1.0, a.0) + e(nu + 1.0, d.0) + f * e(nu, b.0));
    let tk = 0.2 * (e(nu - 1.0, a.1) + e(nu + 1.0, d.1) + f * e(nu, b.1));
    let v = rel_check("I recurrence", a.0 - d.0, f * b.0, ti, || "I(nu-1)-I(nu+1)".into());
    let v = v.and(rel_check("K recurrence", d.1 - a.1, f * b.1, tk, || "K(nu+1)-K(nu-1)".into()));
    let v = v.and(rel_check("I' relation", b.2, a.0 - nu / x * b.0, ti, || "I'".into()));
    v.and(rel_check("K' relation", b.3, -a.1 - nu / x * b.1, tk, || "K'".into()))
}

// ------------------------------------------------------------------ C26
fn int_vs_frac(c: &(u32, f64)) -> Verdict {
    let (n, x) = *c;
    let nu = n as f64;
    if !(n <= 150 && x >= 1e-10 && x <= 5000.0) {
        return Verdict::trivial("outside");
    }
    let (j, y) = (Jn(n, x), Yn(n, x));
    let (fj, fy) = Jnu_Ynu(nu, x);
    let mut v = Verdict::trivial("end of range");
    if y.abs() < 1e300 {
        let t = |a: f64, s| ej(nu, x, a, s) + (2e-14 + 2e-15 * nu) * a.abs() + if s || x > 0.5 * nu { (1e-14 + 3e-15 * x) * amp(x) } else { 0.0 };
        v = rel_check("Jn vs Jnu", j, fj, t(fj, false), || format!("n={n} x={x:?}"));
        v = v.and(rel_check("Yn vs Ynu", y, fy, t(fy, true), || format!("n={n} x={x:?}")));
    }
    if x <= 1400.0 {
        let (i, k) = (In(n, x), Kn(n, x));
        let (fi, fk) = Inu_Knu(nu, x);
        if k < 1e300 && k > 1e-290 && i < 1e290 {
            v = v.and(rel_check("In vs Inu", i, fi, 1.2e-13 * (1.0 + nu) * fi.abs(), || format!("n={n} x={x:?}")));
            v = v.and(rel_check("Kn vs Knu", k, fk, 1.2e-13 * (1.0 + nu) * fk.abs(), || format!("n={n} x={x:?}"))).with_nontrivial(true);
        }
    }
    v
}
/// closed forms at half-integer order up to 5/2
fn half_integer(x: &f64) -> Verdict {
    let x = *x;
    if !(x >= 0.05 && x <= 5000.0) {
        return Verdict::trivial("outside");
    }
    let s = (2.0 / (PI * x)).sqrt();
    let (sn, cs) = x.sin_cos();
    let js = [s * sn, s * (sn / x - cs), s * ((3.0 / (x * x) - 1.0) * sn - 3.0 / x * cs)];
    let ys = [-s * cs, -s * (cs / x + sn), -s * ((3.0 / (x * x) - 1.0) * cs + 3.0 / x * sn)];
    let mut v = Verdict::ok("half-integer");
    for k in 0..3 {
        let nu = k as f64 + 0.5;
        let (j, y) = Jnu_Ynu(nu, x);
        // the closed form of J cancels for small x: its terms are as large as s/x^k
        let cancel = 4e-16 * s * (1.0 + 3.0 / (x * x)) * if k > 0 { 4.0 } else { 1.0 };
        v = v.and(rel_check("half-integer J", j, js[k], 5e-13 * js[k].abs() + ej(nu, x, j, true) + cancel, || format!("J_{nu}({x:?})")));
        v = v.and(rel_check("half-integer Y", y, ys[k], 5e-13 * ys[k].abs() + ej(nu, x, y, true) + cancel, || format!("Y_{nu}({x:?})")));
    }
    if x <= 700.0 {
        let k0 = (PI / (2.0 * x)).sqrt() * (-x).exp();
        let ks = [k0, k0 * (1.0 + 1.0 / x), k0 * (1.0 + 3.0 / x + 3.0 / (x * x))];
        let (sh, ch) = (x.sinh(), x.cosh());
        let is = [s * sh, s * (ch - sh / x), s * ((1.0 + 3.0 / (x * x)) * sh - 3.0 / x * ch)];
        for k in 0..3 {
            let nu = k as f64 + 0.5;
            let (i, kk) = Inu_Knu(nu, x);
            let cancel = 8e-16 * s * ch * (1.0 + 3.0 / (x * x)) * if k > 0 { 4.0 } else { 1.0 };
            v = v.and(rel_check("half-integer I", i, is[k], 5e-13 * is[k] + cancel, || format!("I_{nu}({x:?})")));
            v = v.and(rel_check("half-integer K", kk, ks[k], 5e-13 * ks[k], || format!("K_{nu}({x:?})")));
        }
    }
    v
}
fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}
fn wrappers(c: &(f64, f64)) -> Verdict {
    let (nu, x) = *c;
    if !(nu >= 0.0 && nu <= 150.0 && x >= 1e-200 && x <= 5000.0) {
        return Verdict::trivial("outside");
    }
    let (a, b) = (besseljy(nu, x), Jnu_Ynu(nu, x));
    let (p, q) = (besselik(nu, x), Inu_Knu(nu, x));
    Verdict::check("wrappers", same(a.0, b.0) && same(a.1, b.1) && same(p.0, q.0) && same(p.1, q.1), || format!("besseljy={a:?} Jnu_Ynu={b:?} besselik={p:?} Inu_Knu={q:?}"))
}

// ------------------------------------------------------------------ C15
fn erf_gamma(x: &f64) -> Verdict {
    let x = *x;
    if !(x > 1e-150 && x < 27.0) {
        return Verdict::trivial("outside");
    }
    let (p, q) = (gammp(0.5, x * x), gammq(0.5, x * x));
    let (e, c) = (erf(x), erfc(x));
    let cx = erfcx(x);
    let v = rel_check("P(1/2,x^2) = erf x", p, e, 4e-15 + 1e-10 * e.abs(), || format!("x={x:?}"));
    let v = v.and(rel_check("Q(1/2,x^2) = erfc x", q, c, 1e-10, || format!("x={x:?}")));
    v.and(rel_check("erfcx = exp(x^2) erfc", cx * (-x * x).exp(), c, c * 4e-15 * (1.0 + x * x), || format!("x={x:?}")))
}
/// Q(n, x) = exp(-x) sum_{k<n} x^k/k!
fn poisson(c: &(u32, f64)) -> Verdict {
    let (n, x) = *c;
    if !(n >= 1 && n <= 400 && x >= 0.0 && x <= 600.0) {
        return Verdict::trivial("outside");
    }
    let mut t = (-x).exp();
    let mut s = 0.0;
    for k in 0..n {
        s += t;
        t *= x / (k + 1) as f64;
    }
    let q = gammq(n as f64, x);
    let p = gammp(n as f64, x);
    let tol = 2e-9 + 1e-12 * n as f64;
    rel_check(if n < 100 { "Poisson sum, n<100" } else { "Poisson sum, n>=100" }, q, s, tol, || format!("Q({n},{x:?})")).and(rel_check("Poisson sum (P)", p, 1.0 - s, tol, || format!("P({n},{x:?})")))
}
/// I_x(a, n-a+1) = P(Bin(n, x) >= a)
fn binomial(c: &(i32, f64, f64)) -> Verdict {
    let (n, f, x) = *c;
    if !(n >= 1 && n <= 300 && f >= 0.0 && f < 1.0 && x > 0.0 && x < 1.0) {
        return Verdict::trivial("outside");
    }
    let a = 1 + (f * n as f64) as i32;
    // log of each term: ln C(n,k) by summation
    let mut lc = 0.0f64;
    let mut s = 0.0;
    for k in 0..=n {
        if k >= a {
            s += (lc + k as f64 * x.ln() + (n - k) as f64 * (-x).ln_1p()).exp();
        }
        lc += ((n - k) as f64 / (k + 1) as f64).ln();
    }
    let got = betai(a as f64, (n - a + 1) as f64, x);
    rel_check("binomial tail", got, s, 1e-8, || format!("I_{x:?}({a},{})", n - a + 1))
}
fn gamma_family(c: &(f64, f64)) -> Verdict {
    let (z, w) = *c;
    if !(z > 1e-3 && w > 1e-3 && z + w < 170.0) {
        return Verdict::trivial("outside");
    }
    let (gz, gw, gs, b) = (gamma(z), gamma(w), gamma(z + w), beta(z, w));
    let v = rel_check("beta = G G / G", b * gs, gz * gw, 3e-9 * gz * gw, || format!("z={z:?} w={w:?}"));
    let v = v.and(rel_check("beta symmetric", b, beta(w, z), 1e-13 * b * (1.0 + z + w), || format!("z={z:?} w={w:?}")));
    v.and(rel_check("ln gamma", ln_gamma(z), gz.ln(), 3e-9 * (1.0 + gz.ln().abs()), || format!("z={z:?}")))
}
fn dawson_w(x: &f64) -> Verdict {
    let x = *x;
    if !(x.abs() <= 1e150) {
        return Verdict::trivial("outside");
    }
    let d = dawson(x);
    let (re, im) = faddeeva(x, 0.0);
    let want = std::f64::consts::FRAC_2_SQRT_PI * d;
    let v = rel_check("Im w(x) = 2 D(x)/sqrt pi", im, want, 3e-6 * want.abs(), || format!("x={x:?}"));
    // a point one part in 1e8 above the axis is computed by another method
    let near = faddeeva(x, 1.1e-8 * x.abs());
    let lip = 1.3 * 1.1e-8 * x.abs() * 1f64.min(2.0 / (1.0 + x * x)) + 3e-6 * (re.hypot(im));
    v.and(rel_check("continuous off the axis", near.1, im, lip, || format!("x={x:?}")))
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C15",
            rule: "arguments by magnitude, typed values and break points, integer n up to 400 for the finite sums. Non-trivial: inside the domain of the relation.",
            laws: vec![
                law("erf, erfc, erfcx against P, Q(1/2)", 400_000, || pos(1e-150, 27.0, &[0.5, 1.0, 2.0, 5.8]), erf_gamma),
                law("Q(n,x) is a Poisson sum", 200_000, || (1u32..400, 0u8..3, 0.0f64..600.0, -6.0f64..6.0).prop_map(|(n, k, x, s)| (n, match k { 0 => x, 1 => (n as f64 + s * (n as f64).sqrt()).max(0.0), _ => x / 600.0 * n as f64 })).boxed(), poisson),
                law("betai is a binomial tail", 200_000, || (1i32..300, 0.0f64..1.0, 0u8..2, 0.0f64..1.0, -6.0f64..6.0).prop_map(|(n, f, k, x, s)| (n, f, if k == 0 { x } else { (f + s * (f * (1.0 - f) / n as f64).sqrt()).clamp(1e-6, 1.0 - 1e-6) })).boxed(), binomial),
                law("beta, gamma, ln_gamma", 400_000, || (pos(1e-3, 160.0, &[1.0, 2.0]), pos(1e-3, 160.0, &[1.0, 2.0])).boxed(), gamma_family),
                law("dawson and faddeeva", 400_000, || real(1e-150, 1e150, &[0.2, 7.0, 150.0]), dawson_w),
            ],
        },
        Property {
            id: "C25",
            rule: "orders and arguments as for C19-C24. Non-trivial: every term of the relation is inside the double range.",
            laws: vec![
                law("Wronskian of J, Y", 400_000, || prop_oneof![7 => nux(), 1 => zeros()].boxed(), wronskian_jy),
                law("Wronskian of I, K", 400_000, nux, wronskian_ik),
                law("Wronskians of integer order", 300_000, nx, wronskian_int),
                law("recurrence and derivative of J, Y", 300_000, || prop_oneof![7 => nux(), 1 => zeros()].boxed(), recur_jy),
                law("recurrence and derivative of I, K", 300_000, nux, recur_ik),
            ],
        },
        Property {
            id: "C26",
            rule: "orders and arguments as for C19-C24; half-integers 1/2, 3/2, 5/2 with x in 0.05..5000. Non-trivial: inside the double range.",
            laws: vec![
                law("integer against fractional order", 300_000, nx, int_vs_frac),
                law("half-integer closed forms", 300_000, || pos(0.05, 5000.0, &[2.0]), half_integer),
                law("Jnu_Ynu and Inu_Knu are the values of besseljy and besselik", 300_000, nux, wrappers),
            ],
        },
    ]
}
