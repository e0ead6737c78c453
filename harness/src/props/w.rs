use super::*;
use crate::gen::*;
use crate::oracle;
use proptest::prelude::*;
use puruspe::{erfcx, faddeeva};

fn comp() -> B<f64> {
    prop_oneof![
        4 => uni(0.0, 7.2), 2 => uni(0.0, 30.0), 2 => logu(1e-12, 10.0), 1 => logu(1.0, 1e8), 1 => nice(0.0, 30.0), 1 => logu(5e-324, 1e-5), 1 => logu(1e8, 1e300), 1 => Just(0.0), 2 => dict_near(1e-12, 1e9)
    ]
    .boxed()
}
pub fn zs() -> B<(f64, f64)> {
    or_fresh(zs_any(), fresh2(fresh(1e-12, 1e9).map(sign_flip), fresh(1e-12, 1e9).map(sign_flip)))
}
fn zs_any() -> B<(f64, f64)> {
    let cart = (sign_flip(comp()), sign_flip(comp()));
    let polar = (
        prop_oneof![
            2 => near(&[0.23021728866442678, 0.0830060239, 6.324555320336759e-4, 7.0, 23.2379, 150.0, 6.928203e7]),
            1 => uni(0.0, 8.0), 1 => uni(7.0, 160.0), 1 => logu(1e2, 1e9), 2 => dict_near(1e-6, 1e9)
        ],
        0f64..std::f64::consts::TAU,
    )
        .prop_map(|(r, t)| (r * t.cos(), r * t.sin()));
    let aniso = (sign_flip(comp()), prop_oneof![4 => -11.0f64..-5.0, 1 => -17.0f64..-1.0, 1 => dict_near(1e-17, 0.5).prop_map(f64::log10)], any::<bool>(), any::<bool>()).prop_map(|(x, e, s, f)| {
        let y = x * 10f64.powf(e) * if s { 1.0 } else { -1.0 };
        if f {
            (x, y)
        } else {
            (y, x)
        }
    });
    prop_oneof![4 => cart, 2 => polar, 1 => aniso].boxed()
}
/// a cell of the 1/7-spaced grid covering |z| < 7, uniformly, in any quadrant
fn cells() -> B<(f64, f64)> {
    let f = || prop_oneof![4 => 0f64..1.0, 1 => logu(1e-15, 1.0), 1 => logu(1e-15, 1.0).prop_map(|x| 1.0 - x)];
    (0u32..50, 0u32..50, f(), f(), 0u8..4)
        .prop_map(|(i, j, u, v, q)| {
            let (x, y) = ((i as f64 + u) / 7.0, (j as f64 + v) / 7.0);
            (if q & 1 == 1 { -x } else { x }, if q == 2 || q == 3 { -y } else { y })
        })
        .boxed()
}
pub fn w_class(x: f64, y: f64) -> &'static str {
    let (xa, ya) = (x.abs(), y.abs());
    let z2 = xa * xa + ya * ya;
    if ya < 1e-8 * xa {
        "near-real"
    } else if xa < 1e-8 * ya {
        "near-imag"
    } else if z2 < 0.053 {
        "|z|<.23"
    } else if z2 >= 49.0 {
        if y < 0.0 {
            "|z|>7 lower"
        } else if z2 > 22500.0 {
            "|z|>150"
        } else {
            "7<|z|<150"
        }
    } else if y < 0.0 {
        "|z|<7 lower"
    } else {
        "|z|<7"
    }
}
/// normwise tolerance for a value of modulus `norm`, `e` = |exp(-z^2)|
fn w_tol(x: f64, y: f64, norm: f64, e: f64) -> f64 {
    let mut tol = 1e-14 * norm;
    if y < 0.0 && e > 0.0 {
        tol += 8.0 * e * EPS * (x * x + y * y + 1.0);
    }
    if y.abs() <= 1.0001e-8 * x.abs() {
        tol = tol.max(1.2e-6 * norm);
    }
    if x.abs() <= 1.0001e-8 * y.abs() && y < 0.0 {
        tol += 1e-9 * norm;
    }
    tol
}
fn w_value(c: &(f64, f64)) -> Verdict {
    let (x, y) = *c;
    if !(x.abs() <= 1e300 && y.abs() <= 1e300) {
        return Verdict::trivial("outside");
    }
    let cl = w_class(x, y);
    if y < 0.0 && (y - x) * (y + x) > 700.0 || phase_lost(x, y) {
        return Verdict::trivial("overflow");
    }
    let (re, im, e) = oracle::w(x, y);
    let (gr, gi) = faddeeva(x, y);
    let norm = re.hi.hypot(im.hi);
    if norm < 1e-300 {
        return Verdict::check("underflow", gr.hypot(gi) < 1e-299, || format!("got ({gr:?},{gi:?})"));
    }
    let err = re.err(gr).hypot(im.err(gi));
    Verdict::ratio(cl, err / w_tol(x, y, norm, e)).note(|| format!("got ({gr:?},{gi:?}) want ({:?},{:?})", re.hi, im.hi))
}

/// Each component by itself, where neither cancels: the upper half plane.
fn w_parts(c: &(f64, f64)) -> Verdict {
    let (x, y) = (c.0, c.1.abs());
    if !(x.abs() <= 1e140 && y <= 1e140) {
        return Verdict::trivial("outside");
    }
    let (re, im, _) = oracle::w(x, y);
    let (gr, gi) = faddeeva(x, y);
    let cl = w_class(x, y);
    let norm = re.hi.hypot(im.hi);
    // relative tolerances of Re and Im, and an absolute one
    let tol = |x: f64, y: f64, xa: f64| match w_class(x, y) {
        // Dawson's integral, and its cancellation in Re w = exp(-x^2) + 2 y (x D - 1/2) 2/sqrt(pi) for large x
        "near-real" if xa < 150.0 || y == 0.0 => (1e-12 + 3e-6 * (1.0 + xa.min(150.0).powi(2)), 1.2e-6, 0.0),
        // x (1/sqrt(pi) - y erfcx(y))
        "near-imag" if y < 150.0 => (1e-13, 1e-13 + 4e-15 * y * y, 0.0),
        "|z|<.23" => (1e-12, 1e-12, 0.0),
        "|z|<7" => (1e-12, 1e-12, 1e-15 * norm),
        // the expansion for large |z| has no exp(-x^2)
        _ => (1e-13, 1e-13, 4.0 * (-xa * xa).exp()),
    };
    // next to a limit of a method either side may apply
    const E: f64 = 1e-9;
    let (tr, ti, t) = [(1.0, 1.0), (1.0 + E, 1.0), (1.0 - E, 1.0), (1.0, 1.0 + E), (1.0, 1.0 - E), (1.0 + E, 1.0 + E), (1.0 - E, 1.0 - E)]
        .map(|(u, v)| tol(u * x, v * y, u * x.abs()))
        .into_iter()
        .fold((0.0, 0.0, 0.0), |a: (f64, f64, f64), b| (a.0.max(b.0), a.1.max(b.1), a.2.max(b.2)));
    // a component below 1e-13 of the other is not known to the oracle much better than in the norm
    let f = |r: oracle::R, g: f64, tol: f64| if r.abs() < 1e-290 || r.abs() < 1e-13 * norm { 0.0 } else { r.err(g) / (tol * r.abs() + t) };
    Verdict::ratio(cl, f(re, gr, tr).max(f(im, gi, ti))).note(|| format!("got ({gr:?},{gi:?}) want ({:?},{:?})", re.hi, im.hi))
}

/// |exp(-z^2)| for the lower half plane, in double precision
fn expz2(x: f64, y: f64) -> f64 {
    ((y - x) * (y + x)).exp()
}
/// lower half plane, exp(-z^2) does not vanish, and its phase 2xy is not representable
fn phase_lost(x: f64, y: f64) -> bool {
    y < 0.0 && (y - x) * (y + x) > -800.0 && (x * y).abs() > 1e300
}
fn w_sym(c: &(f64, f64)) -> Verdict {
    let (x, y) = *c;
    if !(x.abs() <= 1e300 && y.abs() <= 1e300) || y < 0.0 && (y - x) * (y + x) > 690.0 || phase_lost(x, y) {
        return Verdict::trivial("outside");
    }
    let (a, b) = (faddeeva(x, y), faddeeva(-x, y));
    let norm = a.0.hypot(a.1);
    let e = if y < 0.0 { expz2(x, y) } else { 0.0 };
    let t = 2.0 * w_tol(x, y, norm, e) + 1e-300;
    let err = (a.0 - b.0).hypot(a.1 + b.1);
    let mut v = Verdict::ratio("w(-conj z) = conj w", err / t).note(|| format!("w(x,y)={a:?} w(-x,y)={b:?}"));
    if y > 0.0 && (y - x) * (y + x) < 690.0 && x.abs() < 1e7 && y < 1e7 {
        // w(z) + w(-z) = 2 exp(-z^2)
        let m = faddeeva(-x, -y);
        let e = expz2(x, y);
        let (pr, pi) = (2.0 * e * (2.0 * x * y).cos(), -2.0 * e * (2.0 * x * y).sin());
        let t = w_tol(x, y, norm, 0.0) + w_tol(-x, -y, m.0.hypot(m.1), e) + 8.0 * e * EPS * (1.0 + x * x + y * y) + 1e-300;
        let err = (a.0 + m.0 - pr).hypot(a.1 + m.1 - pi);
        v = v.and(Verdict::ratio("w(z)+w(-z)=2exp(-z^2)", err / t).note(|| format!("w(z)={a:?} w(-z)={m:?} 2exp(-z^2)=({pr:?},{pi:?})")));
    }
    v
}
fn w_axes(x: &f64) -> Verdict {
    let x = *x;
    if !(x.abs() <= 1e300) {
        return Verdict::trivial("outside");
    }
    // imaginary axis: w(iy) = erfcx(y), real
    let (r, i) = faddeeva(0.0, x);
    let ex = erfcx(x);
    let mut v = if ex.is_infinite() || r.is_infinite() {
        Verdict::check("imaginary axis", r == ex && i == 0.0, || format!("w(0,y)=({r:?},{i:?}) erfcx={ex:?}"))
    } else {
        Verdict::ratio("imaginary axis", (r - ex).abs() / (1e-14 * (1.0 + if x < 0.0 { x * x } else { 0.0 }) * ex + 1e-300)).and(Verdict::check("imaginary axis", i == 0.0, || "".into())).note(|| format!("w(0,y)=({r:?},{i:?}) erfcx={ex:?}"))
    };
    // real axis: Re w(x) = exp(-x^2), Im w(x) is odd
    let (r, i) = faddeeva(x, 0.0);
    let (e, o) = ((-x * x).exp(), faddeeva(-x, 0.0).1);
    let t = if x.abs() < 40.0 { 1e-14 * (1.0 + x * x) * e } else { 0.0 };
    v = v.and(Verdict::ratio("real axis", (r - e).abs() / (t + 1e-300)).note(|| format!("w(x,0)=({r:?},{i:?}) exp(-x^2)={e:?}")));
    v.and(Verdict::check("real axis", (i + o).abs() <= 3e-6 * i.abs(), || format!("Im w(x)={i:?} Im w(-x)={o:?}")))
}
fn w_total(c: &(f64, f64)) -> Verdict {
    let (x, y) = *c;
    let (r, i) = faddeeva(x, y);
    let d = || format!("w=({r:?},{i:?})");
    if x.is_nan() || y.is_nan() {
        return Verdict::check("nan", r.is_nan() || i.is_nan(), d);
    }
    if x == 0.0 && y == 0.0 {
        return Verdict::check("w(0)=1", r == 1.0 && i == 0.0, d);
    }
    if x.is_infinite() || y.is_infinite() {
        // only required not to panic, and to vanish towards +i infinity
        return Verdict::check("infinite", !(y == f64::INFINITY && x.is_finite()) || r == 0.0 && i == 0.0, d);
    }
    if y >= 0.0 {
        // in the closed upper half plane |w| <= 1, Re w >= 0, and Im w has the sign of Re z
        let ok = r >= 0.0 && r.hypot(i) <= 1.0 + 1e-6 && (i == 0.0 || (i > 0.0) == (x > 0.0)) && (x != 0.0 || i == 0.0);
        return Verdict::check("upper half plane", ok, d);
    }
    let ex = (y - x) * (y + x);
    if ex > 711.0 && ex.is_finite() {
        return Verdict::check("overflow", !(r.abs() < 1e300 && i.abs() < 1e300), d);
    }
    Verdict::check("lower half plane", !(ex < 690.0) || phase_lost(x, y) || r.is_finite() && i.is_finite(), d)
}
fn w_continuous(c: &(f64, f64, f64)) -> Verdict {
    // |w(z') - w(z)| <= |z' - z| max|w'|, w' = -2 z w + 2i/sqrt(pi): no jump where the method changes
    let (x, y, t) = *c;
    if !(x.abs() <= 1e8 && y >= 0.0 && y <= 1e8) {
        return Verdict::trivial("outside");
    }
    let s = (x.hypot(y) + 1e-3) * 1e-9;
    let (x2, y2) = (x + s * t.cos(), (y + s * t.sin()).abs());
    let (a, b) = (faddeeva(x, y), faddeeva(x2, y2));
    let norm = a.0.hypot(a.1);
    let d = (x2 - x).hypot(y2 - y);
    // |w'| <= 2/sqrt(pi) everywhere in the upper half plane, and decays like |z|^-2
    let lip = 1.2f64.min(1.2 / (x * x + y * y - 4.0).max(1.0)) * 2.0;
    let err = (a.0 - b.0).hypot(a.1 - b.1);
    let tol = 2.0 * d * lip + w_tol(x, y, norm, 0.0) + w_tol(x2, y2, norm, 0.0) + 1e-300;
    Verdict::ratio(if w_class(x, y) == w_class(x2, y2) { "same method" } else { "across methods" }, err / tol).note(|| format!("w{:?}={a:?} w{:?}={b:?}", (x, y), (x2, y2)))
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C17",
            rule: "proptest draws z by grid cell of |z|<7 (uniform over cells and quadrants), by polar coordinates around every method boundary, by independent components from 1e-300 to 1e300, and with |Im/Re| or |Re/Im| in 1e-11..1e-5. Non-trivial: w(z) is representable (no overflow in the lower half plane).",
            laws: vec![law_screened("w vs quad", 500_000, zs, w_value, crate::probe!(30.0, |(x, y)| { let w = m::faddeeva(x, y); [w.0, w.1] })), law_screened("w vs quad, by grid cell", 500_000, cells, w_value, crate::probe!(30.0, |(x, y)| { let w = m::faddeeva(x, y); [w.0, w.1] })), law_screened("components", 500_000, || prop_oneof![zs(), cells()].boxed(), w_parts, crate::probe!(30.0, |(x, y)| { let w = m::faddeeva(x, y); [w.0, w.1] }))],
        },
        Property {
            id: "C18",
            rule: "as for the accuracy law plus any pair of bit patterns and pairs of points 1e-9 apart. Non-trivial: inside the domain of the law (identities need exp(-z^2) representable).",
            laws: vec![
                law("mirror and reflection", 600_000, || prop_oneof![zs(), cells()].boxed(), w_sym),
                law("axes", 600_000, || real(5e-324, 1e300, &[0.125, 12.0, 6.1]), w_axes),
                law("range, NaN, totality", 1_200_000, || prop_oneof![2 => (any_f64(), any_f64()).boxed(), 1 => zs()].boxed(), w_total),
                law("no jump between methods", 600_000, || (prop_oneof![zs(), cells()], 0f64..std::f64::consts::TAU).prop_map(|((x, y), t)| (x, y.abs(), t)).boxed(), w_continuous),
            ],
        },
    ]
}
