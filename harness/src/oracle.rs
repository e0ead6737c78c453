//! FFI to the quad-precision oracle. A reference value is an unevaluated sum hi + lo.

mod ffi {
    use std::os::raw::c_int;
    extern "C" {
        pub fn ref_gamma(x: f64, o: *mut f64);
        pub fn ref_lgamma(x: f64, o: *mut f64);
        pub fn ref_factorial(n: c_int, o: *mut f64);
        pub fn ref_gammapq(a: f64, x: f64, o: *mut f64);
        pub fn ref_beta(a: f64, b: f64, o: *mut f64);
        pub fn ref_lbeta(a: f64, b: f64, o: *mut f64);
        pub fn ref_betai(a: f64, b: f64, x: f64, o: *mut f64);
        pub fn ref_erf(x: f64, o: *mut f64);
        pub fn ref_erfc(x: f64, o: *mut f64);
        pub fn ref_erfcx(x: f64, o: *mut f64);
        pub fn ref_dawson(x: f64, o: *mut f64);
        pub fn ref_w(x: f64, y: f64, o: *mut f64);
        pub fn ref_jn(n: c_int, x: f64, o: *mut f64);
        pub fn ref_yn(n: c_int, x: f64, o: *mut f64);
        pub fn ref_jy(nu: f64, x: f64, o: *mut f64) -> c_int;
        pub fn ref_ik(nu: f64, x: f64, o: *mut f64);
        pub fn ref_lambert(zr: f64, zi: f64, wr: f64, wi: f64, o: *mut f64);
    }
}

/// Reference value hi + lo.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct R {
    pub hi: f64,
    pub lo: f64,
}

impl R {
    /// |v - reference|, computed without cancellation error.
    pub fn err(self, v: f64) -> f64 {
        if v == self.hi && v.is_infinite() {
            return 0.0;
        }
        ((v - self.hi) - self.lo).abs()
    }
    pub fn abs(self) -> f64 {
        self.hi.abs()
    }
}

fn r(o: &[f64; 8], i: usize) -> R {
    R { hi: o[2 * i], lo: o[2 * i + 1] }
}

macro_rules! one {
    ($name:ident, $f:ident, $($a:ident : $t:ty),*) => {
        pub fn $name($($a: $t),*) -> R {
            let mut o = [0f64; 8];
            unsafe { ffi::$f($($a),*, o.as_mut_ptr()) };
            r(&o, 0)
        }
    };
}

one!(gamma, ref_gamma, x: f64);
one!(lgamma, ref_lgamma, x: f64);
one!(factorial, ref_factorial, n: i32);
one!(beta, ref_beta, a: f64, b: f64);
one!(lbeta, ref_lbeta, a: f64, b: f64);
one!(erf, ref_erf, x: f64);
one!(erfc, ref_erfc, x: f64);
one!(erfcx, ref_erfcx, x: f64);
one!(dawson, ref_dawson, x: f64);
one!(jn, ref_jn, n: i32, x: f64);
one!(yn, ref_yn, n: i32, x: f64);

/// (P, Q, dP/dx)
pub fn gammapq(a: f64, x: f64) -> (R, R, f64) {
    let mut o = [0f64; 8];
    unsafe { ffi::ref_gammapq(a, x, o.as_mut_ptr()) };
    (r(&o, 0), r(&o, 1), o[4])
}

/// (I, 1 - I, dI/dx)
pub fn betai(a: f64, b: f64, x: f64) -> (R, R, f64) {
    let mut o = [0f64; 8];
    unsafe { ffi::ref_betai(a, b, x, o.as_mut_ptr()) };
    (r(&o, 0), r(&o, 1), o[4])
}

/// (Re w, Im w, |exp(-z^2)|)
pub fn w(x: f64, y: f64) -> (R, R, f64) {
    let mut o = [0f64; 8];
    unsafe { ffi::ref_w(x, y, o.as_mut_ptr()) };
    (r(&o, 0), r(&o, 1), o[4])
}

/// J, Y, J', Y'
pub fn jy(nu: f64, x: f64) -> [R; 4] {
    let mut o = [0f64; 8];
    let rc = unsafe { ffi::ref_jy(nu, x, o.as_mut_ptr()) };
    if rc != 0 {
        crate::core::fatal(&format!("oracle jy({nu:?},{x:?}) did not converge"));
    }
    [r(&o, 0), r(&o, 1), r(&o, 2), r(&o, 3)]
}

/// I, K, I', K'
pub fn ik(nu: f64, x: f64) -> [R; 4] {
    let mut o = [0f64; 8];
    unsafe { ffi::ref_ik(nu, x, o.as_mut_ptr()) };
    [r(&o, 0), r(&o, 1), r(&o, 2), r(&o, 3)]
}

/// (|w e^w - z|/|z|, |w + log w - log z - 2 pi i k|, k, real part of that)
pub fn lambert(zr: f64, zi: f64, wr: f64, wi: f64) -> [f64; 4] {
    let mut o = [0f64; 8];
    unsafe { ffi::ref_lambert(zr, zi, wr, wi, o.as_mut_ptr()) };
    [o[0], o[1], o[2], o[3]]
}

/// Replay golden.txt (values computed with mpmath): (values compared, values that differ by more than 1e-18).
pub fn selftest(text: &str) -> (u64, u64) {
    let hex = |s: &str| f64::from_bits(u64::from_str_radix(s, 16).unwrap_or_else(|_| crate::core::fatal("golden.txt: bad number")));
    let (mut n, mut bad) = (0, 0);
    for line in text.lines() {
        let Some((l, want)) = line.split_once(" | ") else { continue };
        let f: Vec<&str> = l.split(' ').collect();
        let int = || f[1].parse::<i32>().unwrap_or_else(|_| crate::core::fatal("golden.txt: bad integer"));
        let d = |i: usize| hex(f[i]);
        let got: Vec<R> = match f[0] {
            "gamma" => vec![gamma(d(1))],
            "lgamma" => vec![lgamma(d(1))],
            "pq" => {
                let (p, q, _) = gammapq(d(1), d(2));
                vec![p, q]
            }
            "beta" => vec![beta(d(1), d(2))],
            "betai" => {
                let (p, q, _) = betai(d(1), d(2), d(3));
                vec![p, q]
            }
            "erf" => vec![erf(d(1))],
            "erfc" => vec![erfc(d(1))],
            "erfcx" => vec![erfcx(d(1))],
            "dawson" => vec![dawson(d(1))],
            "w" => {
                let (a, b, _) = w(d(1), d(2));
                vec![a, b]
            }
            "jn" => vec![jn(int(), d(2))],
            "yn" => vec![yn(int(), d(2))],
            "jy" => jy(d(1), d(2)).to_vec(),
            "ik" => ik(d(1), d(2)).to_vec(),
            _ => crate::core::fatal("golden.txt: unknown function"),
        };
        let ws: Vec<&str> = want.split(' ').collect();
        let scale = (f[0] == "w").then(|| ws.chunks(2).filter(|c| c[0] != "-").map(|c| hex(c[0]).abs()).fold(0.0, f64::max));
        for (c, g) in ws.chunks(2).zip(&got) {
            if c[0] == "-" {
                continue;
            }
            let (hi, lo) = (hex(c[0]), hex(c[1]));
            let e = ((g.hi - hi) + (g.lo - lo)).abs();
            n += 1;
            if !(e <= 1e-18 * scale.unwrap_or(hi.abs())) {
                bad += 1;
                if bad < 4 {
                    eprintln!("oracle differs: {line}: got {:e} + {:e}", g.hi, g.lo);
                }
            }
        }
    }
    (n, bad)
}
