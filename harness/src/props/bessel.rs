use super::*;
use crate::gen::*;
use crate::oracle;
use proptest::prelude::*;
use puruspe::*;

/// amplitude of J and Y in the oscillating region
pub fn amp(x: f64) -> f64 {
    (2.0 / (std::f64::consts::PI * x)).sqrt().min(1.0)
}
fn order() -> B<u32> {
    prop_oneof![4 => 0u32..3, 4 => 2u32..30, 3 => 20u32..200, 1 => 200u32..1000, 2 => dict_int(0, 1000)].boxed()
}
/// integer order and positive argument: every regime of x against n, and the method break points
pub fn nx() -> B<(u32, f64)> {
    or_fresh(prop_oneof![16 => nx_any(), 1 => edge_int(2, 1000, false), 1 => edge_int(2, 1000, true)].boxed(), fresh2(fresh_int(0, 1000), fresh(1e-8, 2e4)))
}
fn nx_any() -> B<(u32, f64)> {
    (order(), 0u8..10, pos(1e-8, 2e4, &[8.0, 1.0, 15.0, 2.0]), 0.2f64..3.0, near(&[1.0]), prop_oneof![3 => logu(5e-324, 1e-3), 1 => logu(1e-155, 1e-145), 1 => near(&[1e-120])], prop_oneof![5 => pos(1e-3, 745.0, &[8.0, 1.0, 15.0]), 1 => uni(690.0, 760.0), 1 => uni(700.0, 1400.0)], dict_near(1e-3, 1e3))
        .prop_map(|(n, k, x, r, e, tiny, mid, d)| {
            let x = match k {
                0 => (n as f64 * r).max(1e-3),
                1 => n.max(1) as f64 * e,
                8 => n.max(1) as f64 * d,
                9 => [n as f64, n as f64 + 1.0, (n as f64).sqrt(), (n as f64).powi(2), n as f64 + d, n as f64 + 0.5][(r * 1e3) as usize % 6].max(1e-3),
                2 if n < 8 || r < 1.0 => tiny,
                3 | 4 => mid,
                _ => x,
            };
            (n, x)
        })
        .boxed()
}
/// Below the turning point: x such that Y_nu (J_nu: target < 0; `modified`: K_nu, I_nu) is about exp(target), by the leading
/// term of the uniform expansion. Where results leave the double range.
fn edge_x(nu: f64, target: f64, modified: bool) -> f64 {
    let big = |z: f64| {
        if modified {
            let s = (1.0 + z * z).sqrt();
            let e = nu * (z.ln() - (1.0 + s).ln() + s);
            let l = 0.25 * (1.0 + z * z).ln();
            if target > 0.0 { -e - l + 0.5 * (std::f64::consts::FRAC_PI_2 / nu).ln() } else { -(e - l - 0.5 * (std::f64::consts::TAU * nu).ln()) }
        } else {
            let t = (1.0 - z * z).sqrt();
            let e = nu * (((1.0 + t) / z).ln() - t);
            let l = 0.5 * (nu * t * std::f64::consts::FRAC_PI_2).ln();
            if target > 0.0 { e - l } else { e + l + 2f64.ln() }
        }
    };
    let (mut lo, mut hi) = (-700.0f64, if modified { 7.0 } else { -1e-6 });
    for _ in 0..60 {
        let m = 0.5 * (lo + hi);
        if big(m.exp()) > target.abs() {
            lo = m;
        } else {
            hi = m;
        }
    }
    nu * lo.exp()
}
/// (order, argument) with a result next to either end of the double range
fn edge(lo: f64, top: f64, modified: bool) -> B<(f64, f64)> {
    (prop_oneof![uni(lo, top), logu(lo, top)], any::<bool>(), prop_oneof![3 => uni(-1.0, 4.0), 1 => uni(-4.0, 100.0)])
        .prop_map(move |(nu, up, d)| (nu, edge_x(nu, if up { 709.78 - d } else { d - 708.4 }, modified)))
        .boxed()
}
fn edge_int(lo: u32, top: u32, modified: bool) -> B<(u32, f64)> {
    (lo..top, any::<bool>(), prop_oneof![3 => uni(-1.0, 4.0), 1 => uni(-4.0, 100.0)])
        .prop_map(move |(n, up, d)| (n, edge_x(n as f64, if up { 709.78 - d } else { d - 708.4 }, modified)))
        .boxed()
}
fn nx_signed() -> B<(u32, f64)> {
    prop_oneof![3 => nx(), 1 => nx().prop_map(|(n, x)| (n, -x))].boxed()
}
/// near the zeros of J_n, Y_n: x of size n + c n^(1/3) + k pi
fn nx_osc() -> B<(u32, f64)> {
    (0u32..60, 1.0f64..1.0 + 1e-9, 0.0f64..200.0)
        .prop_map(|(n, e, d)| (n, (n as f64 + d) * e + 1e-3))
        .boxed()
}
fn cls(n: u32, x: f64) -> &'static str {
    let ax = x.abs();
    if x < 0.0 {
        "x<0"
    } else if n < 2 {
        if ax < 8.0 {
            "n<2 x<8"
        } else {
            "n<2 x>8"
        }
    } else if ax > n as f64 {
        if n < 30 {
            "2<=n<30 x>n"
        } else {
            "n>=30 x>n"
        }
    } else if n < 30 {
        "2<=n<30 x<=n"
    } else {
        "n>=30 x<=n"
    }
}
fn in_jy(n: u32, x: f64) -> bool {
    n <= 1000 && x.abs() >= 5e-324 && x.abs() <= 2e4
}
fn jn_value(c: &(u32, f64)) -> Verdict {
    let (n, x) = *c;
    if !in_jy(n, x) {
        return Verdict::trivial("outside");
    }
    let r = oracle::jn(n as i32, x);
    let ax = x.abs();
    let abs = if ax > 0.5 * n as f64 { 1.5e-15 * (1.0 + ax) * amp(ax) } else { 0.0 };
    close(cls(n, x), "Jn", Jn(n, x), r, 1e-14 + 1e-15 * n as f64, abs + 1e-305)
}
fn yn_value(c: &(u32, f64)) -> Verdict {
    let (n, x) = *c;
    if !in_jy(n, x) || x < 1e-300 {
        return Verdict::trivial("outside");
    }
    let r = oracle::yn(n as i32, x);
    close(cls(n, x), "Yn", Yn(n, x), r, 1e-14 + 1e-15 * n as f64, (6e-15 + 1.5e-15 * x) * amp(x))
}
/// orders beyond 1000, and arguments beyond 2e4 for small orders
fn big_jy() -> B<(u32, f64)> {
    let n = prop_oneof![3 => logu(1000.0, 20_000.0).prop_map(|n| n as u32), 1 => dict_int(1000, 20_000)];
    prop_oneof![
        3 => (n, prop_oneof![4 => uni(0.3, 2.0), 1 => near(&[1.0]), 1 => logu(1e-6, 1.0), 1 => dict_near(0.3, 4.0)]).prop_map(|(n, r)| (n, (n as f64 * r).min(4e4))),
        1 => edge_int(1000, 20_000, false),
        2 => (prop_oneof![1 => 0u32..3, 1 => 0u32..60], prop_oneof![3 => logu(2e4, 1e9), 1 => dict_near(2e4, 1e9)]),
    ]
    .boxed()
}
fn in_big(n: u32, x: f64) -> bool {
    n <= 20_000 && x >= 1e-3 && (x <= 4e4 || n <= 60 && x <= 1e9)
}
fn jn_big(c: &(u32, f64)) -> Verdict {
    let (n, x) = *c;
    if !in_big(n, x) {
        return Verdict::trivial("outside");
    }
    let abs = if x > 0.5 * n as f64 { 1.5e-15 * (1.0 + x) * amp(x) } else { 0.0 };
    close(if n < 100 { "large x" } else { "large n" }, "Jn", Jn(n, x), oracle::jn(n as i32, x), 1e-14 + 1e-15 * n as f64, abs + 1e-305)
}
fn yn_big(c: &(u32, f64)) -> Verdict {
    let (n, x) = *c;
    if !in_big(n, x) {
        return Verdict::trivial("outside");
    }
    close(if n < 100 { "large x" } else { "large n" }, "Yn", Yn(n, x), oracle::yn(n as i32, x), 1e-14 + 1e-15 * n as f64, (6e-15 + 1.5e-15 * x) * amp(x))
}
fn big_ik() -> B<(u32, f64)> {
    let any = (prop_oneof![3 => logu(1000.0, 20_000.0).prop_map(|n| n as u32), 1 => dict_int(1000, 20_000)], prop_oneof![3 => uni(1.0, IK_TOP), 1 => logu(1e-3, 700.0), 1 => dict_near(1.0, 700.0)]);
    prop_oneof![4 => any, 1 => edge_int(1000, 20_000, true)].boxed()
}
fn in_big_law(c: &(u32, f64)) -> Verdict {
    let (n, x) = *c;
    if !(n <= 20_000 && x <= IK_TOP && x >= 1e-3) {
        return Verdict::trivial("outside");
    }
    close("large n", "In", In(n, x), oracle::ik(n as f64, x)[0], 1e-14 + 1e-15 * n as f64, 1e-305)
}
fn kn_big_law(c: &(u32, f64)) -> Verdict {
    let (n, x) = *c;
    if !(n <= 20_000 && x <= IK_TOP && x >= 1e-3) {
        return Verdict::trivial("outside");
    }
    close("large n", "Kn", Kn(n, x), oracle::ik(n as f64, x)[1], 1e-14 + 1e-15 * n as f64, 0.0)
}
/// fractional orders beyond 150
fn big_nux() -> B<(f64, f64)> {
    let any = (prop_oneof![3 => uni(150.0, 1000.0), 1 => near_int(150, 1000), 1 => dict_near(150.0, 1000.0)], prop_oneof![4 => uni(0.1, 2.0), 1 => near(&[1.0]), 1 => logu(1e-3, 1.0), 1 => dict_near(0.3, 4.0)]);
    prop_oneof![6 => any.prop_map(|(n, r)| (n, n * r)), 1 => edge(150.0, 1000.0, false), 1 => edge(150.0, 1000.0, true)].boxed()
}
fn jn_range(c: &(u32, f64)) -> Verdict {
    let (n, x) = *c;
    if !(n <= 1000 && x.abs() <= 1e5) {
        return Verdict::trivial("outside");
    }
    let v = Jn(n, x);
    let s = if n % 2 == 1 { -1.0 } else { 1.0 };
    let m = Jn(n, -x);
    // |J_0| <= 1, |J_n| <= 1/sqrt 2, and J_n(-x) = (-1)^n J_n(x)
    let top = if n == 0 { 1.0 } else { std::f64::consts::FRAC_1_SQRT_2 };
    let t = 1e-14 + 1.5e-15 * x.abs();
    Verdict::check("range", v.abs() <= top + t, || format!("Jn={v:?}"))
        .and(Verdict::ratio("parity", (m - s * v).abs() / (1e-13 * v.abs() + 1e-305)).note(|| format!("Jn(n,x)={v:?} Jn(n,-x)={m:?}")))
        .and(if x == 0.0 { Verdict::check("x=0", v == if n == 0 { 1.0 } else { 0.0 } || n == 0 && (v - 1.0).abs() < 1e-15, || format!("Jn(n,0)={v:?}")) } else { Verdict::ok("range") })
}
fn ik_cls(n: u32, x: f64) -> &'static str {
    if x < 0.0 {
        "x<0"
    } else if n < 2 {
        if x < 1.0 {
            "n<2 x<1"
        } else if x < 15.0 {
            "n<2 x<15"
        } else {
            "n<2 x>15"
        }
    } else if x < 40.0 {
        if n < 30 { "2<=n<30 x<40" } else { "n>=30 x<40" }
    } else if n < 30 {
        "2<=n<30 x>40"
    } else {
        "n>=30 x>40"
    }
}
/// beyond, no order up to 1000 has an I in the double range
const IK_TOP: f64 = 1400.0;
fn in_value(c: &(u32, f64)) -> Verdict {
    let (n, x) = *c;
    if !(x.abs() <= IK_TOP && x.abs() >= 5e-324 && n <= 1000) {
        return Verdict::trivial("outside");
    }
    let mut r = oracle::ik(n as f64, x.abs())[0];
    if x < 0.0 && n % 2 == 1 {
        r = oracle::R { hi: -r.hi, lo: -r.lo };
    }
    close(ik_cls(n, x), "In", In(n, x), r, 1e-14 + 1e-15 * n as f64, 1e-305)
}
fn in_range(c: &(u32, f64)) -> Verdict {
    let (n, x) = *c;
    if !(x.abs() <= IK_TOP && n <= 1000) {
        return Verdict::trivial("outside");
    }
    let (a, b, m) = (In(n, x), In(n + 1, x), In(n, -x));
    let s = if n % 2 == 1 { -1.0 } else { 1.0 };
    let mut v = Verdict::ratio("parity", if m == s * a { 0.0 } else { (m - s * a).abs() / (1e-13 * a.abs() + 1e-305) }).note(|| format!("In(n,x)={a:?} In(n,-x)={m:?}"));
    if x > 0.0 {
        v = v.and(Verdict::check("decreasing in n", a >= 0.0 && b >= 0.0 && b <= a * (1.0 + 1e-13), || format!("In={a:?} In+1={b:?}")));
    } else if x == 0.0 {
        v = v.and(Verdict::check("x=0", if n == 0 { (a - 1.0).abs() < 1e-15 } else { a == 0.0 }, || format!("In(n,0)={a:?}")));
    }
    v
}
fn kn_value(c: &(u32, f64)) -> Verdict {
    let (n, x) = *c;
    if !(x <= IK_TOP && x >= 5e-324 && n <= 1000) {
        return Verdict::trivial("outside");
    }
    let r = oracle::ik(n as f64, x)[1];
    close(ik_cls(n, x), "Kn", Kn(n, x), r, 1e-14 + 1e-15 * n as f64, 0.0)
}
fn kn_range(c: &(u32, f64)) -> Verdict {
    let (n, x, y) = (c.0, c.1, c.1 * 1.0001);
    if !(x <= 690.0 && x >= 5e-324 && n <= 1000) {
        return Verdict::trivial("outside");
    }
    let (a, b, d) = (Kn(n, x), Kn(n + 1, x), Kn(n, y));
    Verdict::check("increasing in n", a > 0.0 && b >= a * (1.0 - 1e-13), || format!("Kn={a:?} Kn+1={b:?}"))
        .and(Verdict::check("decreasing in x", d <= a * (1.0 + 1e-13 + 2e-15 * n as f64), || format!("Kn(x)={a:?} Kn(1.0001x)={d:?}")))
}

pub fn nux() -> B<(f64, f64)> {
    or_fresh(prop_oneof![20 => nux_any(), 1 => edge(1.0, 150.0, false), 1 => edge(1.0, 150.0, true)].boxed(), fresh2(fresh(1e-15, 150.0), fresh(1e-6, 5e3)))
}
fn nux_any() -> B<(f64, f64)> {
    let nu = prop_oneof![
        4 => uni(0.0, 12.0), 3 => uni(0.0, 150.0), 3 => nice(0.0, 50.0), 3 => near_int(0, 50), 1 => logu(1e-15, 1.0), 1 => logu(5e-324, 1e-10), 1 => Just(0.0)
    ];
    let nu = prop_oneof![17 => nu, 2 => dict_near(1e-16, 150.0)];
    (nu, 0u8..10, prop_oneof![9 => pos(1e-6, 5e3, &[2.0]), 1 => uni(690.0, 1400.0)], 0.2f64..3.0, uni(0.0, 80.0), logu(1e-200, 1e-4), dict_near(1e-3, 1e4))
        .prop_map(|(nu, k, x, r, m, tiny, d)| {
            let nu = nu.abs();
            let x = match k {
                0 => (nu * r).max(1e-3),
                1 => m.max(1e-6),
                2 if nu < 12.0 => tiny,
                3 => m * 8.0 + 1e-3,
                8 => ((nu + (m < 40.0) as u8 as f64) * d).max(1e-6),
                9 => [nu, nu + 1.0, nu - 1.5, nu * nu, nu.sqrt(), nu + d, nu + 0.5, nu + 1.5][(r * 1e3) as usize % 8].abs().max(1e-6),
                _ => x,
            };
            (nu, x)
        })
        .boxed()
}
fn nux_cls(nu: f64, x: f64) -> &'static str {
    if x < 2.0 {
        if nu < 0.5 {
            "x<2 nu<1/2"
        } else {
            "x<2"
        }
    } else if nu > x {
        "nu>x>2"
    } else if x < 100.0 {
        "nu<x<100"
    } else {
        "x>100"
    }
}
fn in_frac(nu: f64, x: f64, top: f64, order: f64) -> bool {
    nu >= 0.0 && nu <= order && x <= top && (x >= 1e-10 || x >= 1e-200 && nu <= 12.0)
}
fn jy_value(c: &(f64, f64)) -> Verdict {
    jy_in(c, 150.0)
}
fn jy_in(c: &(f64, f64), order: f64) -> Verdict {
    let (nu, x) = *c;
    if !in_frac(nu, x, 5000.0, order) {
        return Verdict::trivial("outside");
    }
    jy_compare(nu, x, x, &oracle::jy(nu, x))
}
/// besseljy at `at`, within a few doubles of `x`, against the reference `r` for `x`
fn jy_compare(nu: f64, x: f64, at: f64, r: &[oracle::R; 4]) -> Verdict {
    let g = besseljy(nu, at);
    let g = [g.0, g.1, g.2, g.3];
    let cl = nux_cls(nu, x);
    let mut v = Verdict::ok(cl);
    let names = ["J", "Y", "J'", "Y'"];
    let end = r[1].abs() > 1e300;
    for i in 0..4 {
        if end && i % 2 == 0 {
            v = v.and(Verdict::check("end of range", g[i].abs() <= 1e-290 * (1.0 + nu / x), || format!("{}={:?}", names[i], g[i])));
            continue;
        }
        let rel = 1e-13 * (1.0 + nu);
        // J and J' are tiny, and relatively accurate, below the turning point
        let abs = if i % 2 == 0 && nu > x { 1e-300 } else { amp(x) * (1e-13 + 1.2e-15 * x * x) };
        let slope = if i < 2 { r[i + 2].abs() } else { (r[i].hi / x + (1.0 - nu * nu / (x * x)) * r[i - 2].hi).abs() };
        v = v.and(close(cl, names[i], g[i], r[i], rel, abs + if at == x { 0.0 } else { 1.01 * (at - x).abs() * slope }));
    }
    v
}
/// Orders and arguments next to a point where J, Y, J' or Y' vanishes at an order that differs by an integer: there quantities
/// inside the computation vanish too, for some doubles exactly. (The points are looked for with the frozen copy of the crate.)
pub fn zeros() -> B<(f64, f64)> {
    let nu = prop_oneof![3 => uni(0.0, 4.0), 1 => (0u32..8).prop_map(|n| n as f64 / 2.0), 1 => uni(0.0, 60.0), 1 => near_int(0, 6)];
    let d = prop_oneof![4 => uni(0.0, 8.0), 3 => uni(0.0, 60.0), 1 => logu(1.0, 4000.0)];
    (nu, d, 0usize..4, prop_oneof![2 => Just(0u32), 1 => Just(1u32), 2 => 0u32..90], any::<bool>())
        .prop_map(|(nu, d, i, k, low)| {
            let nu = nu.abs();
            let f = |x: f64| {
                let v = puruspe_baseline::besseljy(nu, x);
                [v.0, v.1, v.2, v.3][i]
            };
            let mut a = if low { 0.4 + d } else { nu.max(1.9) + d };
            let s = f(a) > 0.0;
            let mut b = a;
            for _ in 0..400 {
                b += 0.1;
                if (f(b) > 0.0) != s {
                    break;
                }
                a = b;
            }
            loop {
                let m = 0.5 * (a + b);
                if m <= a || m >= b {
                    break;
                }
                if (f(m) > 0.0) == s {
                    a = m
                } else {
                    b = m
                }
            }
            (nu + k as f64, a)
        })
        .boxed()
}
/// the doubles around such a point
fn jy_near_zero(c: &(f64, f64)) -> Verdict {
    let (nu, x) = *c;
    if !in_frac(nu, x, 5000.0, 150.0) || x < 0.1 {
        return Verdict::trivial("outside");
    }
    let r = oracle::jy(nu, x);
    let mut v = jy_compare(nu, x, x, &r);
    for k in 1..=4u64 {
        v = v.and(jy_compare(nu, x, f64::from_bits(x.to_bits() + k), &r));
        v = v.and(jy_compare(nu, x, f64::from_bits(x.to_bits() - k), &r));
    }
    v
}
fn ik_value(c: &(f64, f64)) -> Verdict {
    ik_in(c, 150.0)
}
fn ik_in(c: &(f64, f64), order: f64) -> Verdict {
    let (nu, x) = *c;
    if !in_frac(nu, x, IK_TOP, order) {
        return Verdict::trivial("outside");
    }
    let r = oracle::ik(nu, x);
    let g = besselik(nu, x);
    let g = [g.0, g.1, g.2, g.3];
    let cl = nux_cls(nu, x);
    let mut v = Verdict::ok(cl);
    let names = ["I", "K", "I'", "K'"];
    let end = r[1].abs() > 1e300;
    for i in 0..4 {
        if end && i % 2 == 0 {
            v = v.and(Verdict::check("end of range", g[i].abs() <= 1e-290 * (1.0 + nu / x), || format!("{}={:?}", names[i], g[i])));
            continue;
        }
        v = v.and(close(cl, names[i], g[i], r[i], 1e-13 * (1.0 + nu), 1e-307));
    }
    v
}
pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C19",
            rule: "n 0..1000 with |x| from 5e-324 to 2e4: every magnitude, x/n in 0.2..3, x = n within 1e-15..1e-1, the break point 8, dense oscillation up to n+200, negative x. Non-trivial: inside the stated domain.",
            laws: vec![
                law_screened("Jn vs quad", 400_000, nx_signed, jn_value, crate::probe!(10.0, |(n, x)| [m::Jn(n, x)])),
                law_screened("Jn vs quad, oscillating", 200_000, nx_osc, jn_value, crate::probe!(5.0, |(n, x)| [m::Jn(n, x)])),
                law_screened("Jn vs quad, large orders and arguments", 3_000, big_jy, jn_big, crate::probe!(5.0, |(n, x)| [m::Jn(n, x)])),
                law("Jn range, parity, x=0", 300_000, || prop_oneof![12 => nx_signed().boxed(), 1 => (order(), Just(0.0)).boxed(), 1 => (order(), uni(0.0, 1e5)).boxed()].boxed(), jn_range),
            ],
        },
        Property {
            id: "C20",
            rule: "n 0..1000 with x from 1e-300 to 2e4: every magnitude, x/n in 0.2..3, x = n within 1e-15..1e-1, the break point 8, dense oscillation up to n+200. Non-trivial: inside the stated domain.",
            laws: vec![law_screened("Yn vs quad", 300_000, nx, yn_value, crate::probe!(10.0, |(n, x)| [m::Yn(n, x)])), law_screened("Yn vs quad, oscillating", 200_000, nx_osc, yn_value, crate::probe!(5.0, |(n, x)| [m::Yn(n, x)])), law_screened("Yn vs quad, large orders and arguments", 3_000, big_jy, yn_big, crate::probe!(5.0, |(n, x)| [m::Yn(n, x)]))],
        },
        Property {
            id: "C21",
            rule: "n 0..1000 with |x| from 5e-324 to 1400: every magnitude, x/n in 0.2..3, the break point 15, negative x. Non-trivial: inside the stated domain.",
            laws: vec![
                law_screened("In vs quad", 200_000, nx_signed, in_value, crate::probe!(30.0, |(n, x)| [m::In(n, x)])),
                law_screened("In vs quad, large orders", 2_000, big_ik, in_big_law, crate::probe!(10.0, |(n, x)| [m::In(n, x)])),
                law("In parity, monotone in n, x=0", 300_000, || prop_oneof![12 => nx_signed().boxed(), 1 => (order(), Just(0.0)).boxed()].boxed(), in_range),
            ],
        },
        Property {
            id: "C22",
            rule: "n 0..1000 with x from 1e-300 to 1400: every magnitude, x/n in 0.2..3, the break point 1. Non-trivial: inside the stated domain.",
            laws: vec![law_screened("Kn vs quad", 200_000, nx, kn_value, crate::probe!(30.0, |(n, x)| [m::Kn(n, x)])), law("Kn monotone", 300_000, nx, kn_range), law_screened("Kn vs quad, large orders", 2_000, big_ik, kn_big_law, crate::probe!(10.0, |(n, x)| [m::Kn(n, x)]))],
        },
        Property {
            id: "C23",
            rule: "nu in 0..150 (uniform, typed values, integers and half-integers with offsets 1e-16..1e-1, tiny), x in 1e-200..5000 (every magnitude, x/nu in 0.2..3, the break point 2). Non-trivial: inside the stated domain.",
            laws: vec![law_screened("besseljy vs quad", 120_000, nux, jy_value, crate::probe!(10.0, |(nu, x)| { let v = m::besseljy(nu, x); [v.0, v.1, v.2, v.3] })), law("besseljy vs quad, around zeros", 40_000, zeros, jy_near_zero), law_screened("besseljy vs quad, large orders", 6_000, big_nux, |c| jy_in(c, 1000.0), crate::probe!(10.0, |(nu, x)| { let v = m::besseljy(nu, x); [v.0, v.1, v.2, v.3] }))],
        },
        Property {
            id: "C24",
            rule: "nu in 0..150 (uniform, typed values, integers and half-integers with offsets 1e-16..1e-1, tiny), x in 1e-200..1400 (every magnitude, x/nu in 0.2..3, the break point 2). Non-trivial: inside the stated domain.",
            laws: vec![law_screened("besselik vs quad", 120_000, nux, ik_value, crate::probe!(10.0, |(nu, x)| { let v = m::besselik(nu, x); [v.0, v.1, v.2, v.3] })), law_screened("besselik vs quad, large orders", 6_000, big_nux, |c| ik_in(c, 1000.0), crate::probe!(10.0, |(nu, x)| { let v = m::besselik(nu, x); [v.0, v.1, v.2, v.3] }))],
        },
    ]
}
