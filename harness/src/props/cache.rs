//! C27 the four caches against a model: a map from the exact argument bits to the
//! value the uncached function returns.
use super::*;
use crate::gen::*;
use proptest::prelude::*;
use puruspe::*;
use std::collections::HashMap;

pub type Key = (u64, u64);
pub type Val = Vec<u64>;

fn canon(x: f64) -> u64 {
    if x.is_nan() {
        f64::NAN.to_bits()
    } else {
        x.to_bits()
    }
}

/// What the four caches have in common.
pub trait Cache: Clone + PartialEq + Default + std::fmt::Debug {
    const NAME: &'static str;
    fn new_() -> Self;
    fn with_cap(n: usize) -> Self;
    fn call(&mut self, nu: f64, x: f64) -> Val;
    fn direct(nu: f64, x: f64) -> Val;
    fn get_(&self, nu: f64, x: f64) -> Option<Val>;
    fn contains_(&self, nu: f64, x: f64) -> bool;
    fn len_(&self) -> usize;
    fn is_empty_(&self) -> bool;
    fn clear_(&mut self);
    fn shrink_(&mut self);
    fn reserve_(&mut self, n: usize);
    fn retain_(&mut self, f: &mut dyn FnMut(Key, Val) -> bool);
}
macro_rules! cache_impl {
    ($t:ty, $f:ident, $v:ident => $e:expr) => {
        impl Cache for $t {
            const NAME: &'static str = stringify!($t);
            fn new_() -> Self {
                <$t>::new()
            }
            fn with_cap(n: usize) -> Self {
                <$t>::with_capacity(n)
            }
            fn call(&mut self, nu: f64, x: f64) -> Val {
                let $v = self.$f(nu, x);
                $e
            }
            fn direct(nu: f64, x: f64) -> Val {
                let $v = $f(nu, x);
                $e
            }
            fn get_(&self, nu: f64, x: f64) -> Option<Val> {
                self.get(nu, x).map(|$v| $e)
            }
            fn contains_(&self, nu: f64, x: f64) -> bool {
                self.contains(nu, x)
            }
            fn len_(&self) -> usize {
                self.len()
            }
            fn is_empty_(&self) -> bool {
                self.is_empty()
            }
            fn clear_(&mut self) {
                self.clear()
            }
            fn shrink_(&mut self) {
                self.shrink_to_fit()
            }
            fn reserve_(&mut self, n: usize) {
                self.reserve(n)
            }
            fn retain_(&mut self, f: &mut dyn FnMut(Key, Val) -> bool) {
                self.retain(|(nu, x), $v| f((nu.to_bits(), x.to_bits()), $e))
            }
        }
    };
}
cache_impl!(CachedBesselJY, besseljy, v => vec![canon(v.0), canon(v.1), canon(v.2), canon(v.3)]);
cache_impl!(CachedBesselIK, besselik, v => vec![canon(v.0), canon(v.1), canon(v.2), canon(v.3)]);
cache_impl!(CachedJnuYnu, Jnu_Ynu, v => vec![canon(v.0), canon(v.1)]);
cache_impl!(CachedInuKnu, Inu_Knu, v => vec![canon(v.0), canon(v.1)]);

/// One history: which cache type, the pool of keys, the operations (code, argument).
#[derive(Clone, PartialEq)]
pub struct Hist {
    which: u8,
    pool: Vec<(f64, f64)>,
    ops: Vec<(u8, u16)>,
}
const OPS: [&str; 17] = [
    "call", "call", "call", "contains", "get", "len", "clear", "shrink_to_fit", "reserve", "retain", "clone into the other", "compare with the other", "switch handle", "invalid call", "replace by new/with_capacity/default", "call many", "rebuild in another order and compare",
];
impl std::fmt::Debug for Hist {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "cache {} ops [", ["JY", "IK", "JnuYnu", "InuKnu"][self.which as usize % 4])?;
        for (o, a) in &self.ops {
            let k = self.pool[*a as usize % self.pool.len()];
            match o % 17 {
                0..=4 => write!(f, "{}{:?} ", OPS[*o as usize % 17], k)?,
                _ => write!(f, "{}#{a} ", OPS[*o as usize % 17])?,
            }
        }
        write!(f, "]")
    }
}
impl Case for Hist {
    fn words(&self) -> Vec<u64> {
        let mut w = vec![self.which as u64, self.pool.len() as u64];
        for (a, b) in &self.pool {
            w.push(a.to_bits());
            w.push(b.to_bits());
        }
        w.extend(self.ops.iter().map(|(o, a)| (*o as u64) << 32 | *a as u64));
        w
    }
    fn from_words(w: &[u64]) -> Option<Self> {
        let n = *w.get(1)? as usize;
        if n == 0 || n > 10_000 || w.len() < 2 + 2 * n {
            return None;
        }
        Some(Hist {
            which: w[0] as u8,
            pool: w[2..2 + 2 * n].chunks(2).map(|c| (f64::from_bits(c[0]), f64::from_bits(c[1]))).collect(),
            ops: w[2 + 2 * n..].iter().map(|v| ((v >> 32) as u8, *v as u16)).collect(),
        })
    }
    fn show(&self) -> String {
        let mut s = format!("{self:?}");
        if s.len() > 700 {
            s.truncate(s.char_indices().take_while(|(i, _)| *i < 690).last().map(|(i, _)| i).unwrap_or(0));
            s.push_str("...");
        }
        s
    }
}

pub fn keep(k: &Key, salt: u64) -> bool {
    let mut m = Mix(k.0 ^ k.1.rotate_left(17) ^ salt);
    m.next() % 3 != 0
}
fn bulk_key(i: u64, salt: u64) -> (f64, f64) {
    // distinct, cheap, close together and far apart
    let nu = ((i % 7) as f64) * 0.5 + (salt % 11) as f64 * 1e-9 + if salt % 4 == 3 { (i % 5 * 37) as f64 } else { 0.0 };
    let x = if salt & 1 == 0 { 2.5 + i as f64 * 1e-9 } else { 0.5 + (i % 97) as f64 * 0.25 + (i / 97) as f64 * 1e-6 };
    (nu, x)
}

struct Pair<C: Cache> {
    c: C,
    m: HashMap<Key, Val>,
}
impl<C: Cache> Clone for Pair<C> {
    fn clone(&self) -> Self {
        Pair { c: self.c.clone(), m: self.m.clone() }
    }
}
impl<C: Cache> Pair<C> {
    /// everything observable agrees with the model
    fn audit(&self, pool: &[(f64, f64)]) -> Result<(), String> {
        if self.c.len_() != self.m.len() || self.c.is_empty_() != self.m.is_empty() {
            return Err(format!("len {} / is_empty {} but {} distinct arguments were cached", self.c.len_(), self.c.is_empty_(), self.m.len()));
        }
        for (nu, x) in pool {
            let want = self.m.get(&(nu.to_bits(), x.to_bits()));
            if self.c.contains_(*nu, *x) != want.is_some() {
                return Err(format!("contains({nu:?}, {x:?}) = {}", want.is_none()));
            }
            if self.c.get_(*nu, *x).as_ref() != want {
                return Err(format!("get({nu:?}, {x:?}) = {:?}, expected {:?}", self.c.get_(*nu, *x).map(fl), want.cloned().map(fl)));
            }
            // arguments that were never computed, or never can be
            for (a, b) in [(-*nu, *x), (*nu, -*x), (-*nu, -*x), (*x, *nu), (*nu + 1.0, *x), (*nu, 0.0), (f64::NAN, *x), (*nu, f64::NAN), (*nu, f64::INFINITY)] {
                let want = self.m.get(&(a.to_bits(), b.to_bits()));
                if (a != 0.0 || a.is_sign_positive()) && (self.c.contains_(a, b) != want.is_some() || self.c.get_(a, b).as_ref() != want) {
                    return Err(format!("contains({a:?}, {b:?}) = {}, get = {:?}, expected {:?}", self.c.contains_(a, b), self.c.get_(a, b).map(fl), want.cloned().map(fl)));
                }
            }
        }
        Ok(())
    }
    /// the full content, through a retain that keeps everything
    fn content(&mut self) -> Result<(), String> {
        let mut seen: HashMap<Key, Val> = HashMap::new();
        let mut dup = false;
        self.c.retain_(&mut |k, v| {
            dup |= seen.insert(k, v).is_some();
            true
        });
        if dup || seen != self.m {
            return Err("the entries visited are not exactly the cached ones".into());
        }
        if self.c.len_() != self.m.len() {
            return Err("retain(true) removed entries".into());
        }
        Ok(())
    }
}
fn fl(v: Val) -> Vec<f64> {
    v.into_iter().map(f64::from_bits).collect()
}

fn drive<C: Cache>(h: &Hist) -> Result<u64, String> {
    let fresh = |a: u16| match a % 3 {
        0 => C::new_(),
        1 => C::with_cap(a as usize % 200),
        _ => C::default(),
    };
    let mut p = [Pair { c: C::new_(), m: HashMap::new() }, Pair { c: C::default(), m: HashMap::new() }];
    let mut cur = 0usize;
    let mut hits = 0u64;
    let call = |p: &mut Pair<C>, nu: f64, x: f64, hits: &mut u64| -> Result<(), String> {
        let k = (nu.to_bits(), x.to_bits());
        let want = match p.m.get(&k) {
            Some(v) => {
                *hits += 1;
                v.clone()
            }
            None => C::direct(nu, x),
        };
        let got = p.c.call(nu, x);
        if got != want {
            return Err(format!("cached({nu:?}, {x:?}) = {:?}, uncached {:?}", fl(got), fl(want)));
        }
        p.m.insert(k, want);
        Ok(())
    };
    for (i, (op, a)) in h.ops.iter().enumerate() {
        let (nu, x) = h.pool[*a as usize % h.pool.len()];
        let k = (nu.to_bits(), x.to_bits());
        let r: Result<(), String> = (|| {
            match op % 17 {
                0..=2 => call(&mut p[cur], nu, x, &mut hits)?,
                3 | 4 => {
                    let q = &p[cur];
                    if q.c.contains_(nu, x) != q.m.contains_key(&k) || q.c.get_(nu, x).as_ref() != q.m.get(&k) {
                        return Err(format!("contains/get({nu:?}, {x:?}) = {} {:?}", q.c.contains_(nu, x), q.c.get_(nu, x).map(fl)));
                    }
                }
                5 => {}
                6 => {
                    p[cur].c.clear_();
                    p[cur].m.clear();
                }
                7 => p[cur].c.shrink_(),
                8 => p[cur].c.reserve_(*a as usize % 3000),
                9 => {
                    let salt = *a as u64;
                    let q = &mut p[cur];
                    let mut seen: HashMap<Key, Val> = HashMap::new();
                    let mut dup = false;
                    q.c.retain_(&mut |k, v| {
                        dup |= seen.insert(k, v).is_some();
                        keep(&k, salt)
                    });
                    if dup || seen != q.m {
                        return Err("retain did not visit every entry exactly once with its arguments and value".into());
                    }
                    q.m.retain(|k, _| keep(k, salt));
                }
                10 => p[1 - cur] = p[cur].clone(),
                11 => {
                    if (p[0].c == p[1].c) != (p[0].m == p[1].m) || (p[0].c != p[1].c) == (p[0].m == p[1].m) {
                        return Err(format!("equality of two caches is {} but their contents are {}", p[0].c == p[1].c, if p[0].m == p[1].m { "equal" } else { "different" }));
                    }
                }
                12 => cur = 1 - cur,
                13 => {
                    let (bn, bx) = [(nu, 0.0), (nu, -x), (-1.0 - nu, x), (-0.5, -1.0)][*a as usize % 4];
                    let before = p[cur].c.len_();
                    let r = catch(|| p[cur].c.call(bn, bx));
                    if let Ok(v) = r {
                        return Err(format!("cached({bn:?}, {bx:?}) returned {:?} instead of panicking", fl(v)));
                    }
                    if p[cur].c.contains_(bn, bx) || p[cur].c.get_(bn, bx).is_some() || p[cur].c.len_() != before {
                        return Err(format!("a rejected call ({bn:?}, {bx:?}) left an entry behind"));
                    }
                }
                14 => {
                    p[cur].c = fresh(*a);
                    p[cur].m.clear();
                }
                15 => {
                    let n = 20 + (*a as u64 % 61) * (*a as u64 % 61) / 4;
                    for j in 0..n {
                        let (nu, x) = bulk_key(j, *a as u64 / 61);
                        call(&mut p[cur], nu, x, &mut hits)?;
                    }
                }
                _ => {
                    // the same content inserted in another order into another cache compares equal
                    let mut ks: Vec<Key> = p[cur].m.keys().copied().collect();
                    ks.sort_unstable();
                    if a % 2 == 0 {
                        ks.reverse();
                    }
                    let mut o = fresh(*a / 2);
                    for k in &ks {
                        o.call(f64::from_bits(k.0), f64::from_bits(k.1));
                    }
                    if !(o == p[cur].c) || !(p[cur].c == o) {
                        return Err("two caches with the same content compare unequal".into());
                    }
                    if let Some(k) = ks.first() {
                        o.retain_(&mut |q, _| q != *k);
                        if o == p[cur].c || p[cur].c == o {
                            return Err("two caches compare equal although one lacks an entry".into());
                        }
                    }
                }
            }
            Ok(())
        })();
        r.and_then(|_| p[0].audit(&h.pool)).and_then(|_| p[1].audit(&h.pool)).map_err(|e| format!("{} op {i} ({}#{a}, handle {cur}): {e}", C::NAME, OPS[*op as usize % 17]))?;
    }
    for q in p.iter_mut() {
        q.content().map_err(|e| format!("{} at the end: {e}", C::NAME))?;
        let _ = format!("{:?}", q.c);
    }
    Ok(hits)
}
fn history(h: &Hist) -> Verdict {
    let r = match h.which % 4 {
        0 => drive::<CachedBesselJY>(h),
        1 => drive::<CachedBesselIK>(h),
        2 => drive::<CachedJnuYnu>(h),
        _ => drive::<CachedInuKnu>(h),
    };
    let class = ["CachedBesselJY", "CachedBesselIK", "CachedJnuYnu", "CachedInuKnu"][h.which as usize % 4];
    match r {
        Ok(hits) => Verdict::ok(class).with_nontrivial(hits > 0 && h.ops.len() >= 5).note(|| format!("{hits} calls answered from the cache")),
        Err(e) => Verdict::fail(class, e),
    }
}

fn big<C: Cache>(n: u64, salt: u64) -> Result<(), String> {
    let mut c = C::with_cap((salt % 5 * 1000) as usize);
    // mostly cheap arguments, one in 61 of any order and magnitude (underflowing and overflowing values included)
    let key = |i: u64| {
        if i % 61 == 7 {
            let u = (i / 61) as f64 * 0.618_033_988_749_894_9 % 1.0;
            ((u * 400.0 * 8.0).floor() / 8.0, 10f64.powf(-6.0 + 8.0 * ((i / 61) as f64 * 0.754_877_666_246_693 % 1.0)))
        } else {
            (((i % 3) as f64) * 0.5, 3.0 + i as f64 * 1e-7 + (salt % 1000) as f64 * 0.01)
        }
    };
    for i in 0..n {
        let (nu, x) = key(i);
        c.call(nu, x);
    }
    if c.len_() as u64 != n {
        return Err(format!("{}: {n} distinct arguments cached but len() = {}", C::NAME, c.len_()));
    }
    let step = (n / 2000).max(1);
    for i in (0..n).step_by(step as usize) {
        let (nu, x) = key(i);
        if !c.contains_(nu, x) || c.get_(nu, x) != Some(C::direct(nu, x)) || c.call(nu, x) != C::direct(nu, x) {
            return Err(format!("{}: entry {i} of {n} ({nu:?}, {x:?}) is gone or changed", C::NAME));
        }
    }
    if c.len_() as u64 != n {
        return Err(format!("{}: hits changed len() to {}", C::NAME, c.len_()));
    }
    // a large cache goes on behaving as a map
    let mut o = c.clone();
    if o != c {
        return Err(format!("{}: a clone with {n} entries is not equal to the original", C::NAME));
    }
    o.reserve_((salt % 100) as usize * 50);
    if salt % 2 == 0 {
        o.shrink_();
    }
    if o.len_() as u64 != n || o != c {
        return Err(format!("{}: reserve or shrink_to_fit changed the content of a cache of {n} entries", C::NAME));
    }
    let kept = |k: &Key| keep(k, salt);
    let mut left = 0u64;
    let mut visited = 0u64;
    o.retain_(&mut |k, _| {
        visited += 1;
        let r = kept(&k);
        left += r as u64;
        r
    });
    if visited != n || o.len_() as u64 != left || c.len_() as u64 != n {
        return Err(format!("{}: retain on {n} entries visited {visited}, should leave {left}, left {}; its origin has {}", C::NAME, o.len_(), c.len_()));
    }
    if (o == c) != (left == n) {
        return Err(format!("{}: a cache with {left} entries and one with {n}: equal is {}", C::NAME, o == c));
    }
    o.shrink_();
    for i in (0..n).step_by(step as usize) {
        let (nu, x) = key(i);
        if o.contains_(nu, x) != kept(&(nu.to_bits(), x.to_bits())) {
            return Err(format!("{}: entry {i} of {n} ({nu:?}, {x:?}): contains is {} after retain", C::NAME, o.contains_(nu, x)));
        }
    }
    for i in (0..n).step_by((n / 40 + 1) as usize) {
        let (nu, x) = key(i);
        if o.call(nu, x) != C::direct(nu, x) || o.get_(nu, x) != Some(C::direct(nu, x)) {
            return Err(format!("{}: entry {i} of {n} ({nu:?}, {x:?}) is wrong after retain", C::NAME));
        }
    }
    c.clear_();
    let (nu, x) = key(n / 2);
    if !c.is_empty_() || c.len_() != 0 || c.contains_(nu, x) || c.call(nu, x) != C::direct(nu, x) || c.len_() != 1 {
        return Err(format!("{}: wrong after clear() of {n} entries", C::NAME));
    }
    Ok(())
}
fn big_law(c: &(u32, f64)) -> Verdict {
    let n = c.1 as u64;
    let s = c.0 as u64;
    let r = match c.0 % 4 {
        0 => big::<CachedBesselJY>(n, s),
        1 => big::<CachedBesselIK>(n, s),
        2 => big::<CachedJnuYnu>(n, s),
        _ => big::<CachedInuKnu>(n, s),
    };
    match r {
        Ok(()) => Verdict::ok("large cache").with_nontrivial(n > 1000),
        Err(e) => Verdict::fail("large cache", e),
    }
}

/// All four types with the same very large number of entries.
fn huge_law(c: &(u32, f64)) -> Verdict {
    (0..4u32).map(|k| big_law(&(c.0 / 4 * 4 + k, c.1))).fold(Verdict::ok("very large cache"), |a, b| a.and(b))
}

fn key() -> B<(f64, f64)> {
    (prop_oneof![6 => uni(0.0, 20.0), 4 => nice(0.0, 12.0), 2 => uni(0.0, 0.5), 1 => uni(20.0, 400.0), 1 => logu(1e-300, 1.0)].prop_map(|v: f64| v.max(0.0) + 0.0), prop_oneof![6 => uni(0.05, 60.0), 4 => nice(0.1, 40.0), 2 => logu(1e-3, 2.0), 1 => logu(1e-200, 1e-3), 1 => uni(60.0, 900.0)].prop_map(|v: f64| v.max(1e-200))).boxed()
}
/// keys that resemble each other in every way a wrong cache key could confuse
fn pool() -> B<Vec<(f64, f64)>> {
    let derived = (key(), 0u8..10, -3i64..=3, 0.0..1.0f64).prop_map(|((nu, x), how, k, u)| {
        let other = match how {
            0 => (x.max(0.0), nu.max(0.01)),                                    // swapped
            1 => (nu, ulps(x, if k == 0 { 1 } else { k })),                     // last bits
            2 => (ulps(nu.max(0.1), if k == 0 { 1 } else { k }), x),
            3 => (nu as f32 as f64, x as f32 as f64),                           // single precision
            4 => (nu + u, (x - u).max(0.01)),                                   // same sum
            5 => ((nu * 1e6).round() / 1e6, (x * 1e6).round() / 1e6),           // six decimals
            6 => (nu.floor(), x),                                               // integer order
            7 => (nu, x.floor().max(1.0)),
            8 => (f64::from_bits(nu.max(0.1).to_bits() ^ (1 << (k + 3))), f64::from_bits(x.to_bits() ^ (1 << (k + 3)))), // same xor
            _ => (nu, x * (1.0 + u * 1e-9)),
        };
        // rounding may have produced x = 0, which is rejected
        vec![(nu, x), if other.1 > 0.0 { other } else { (x, x) }]
    });
    proptest::collection::vec(derived, 1..7).prop_map(|v| v.into_iter().flatten().collect()).boxed()
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C27",
        rule: "histories of up to 60 operations on two handles of one of the four cache types over a pool of keys that resemble each other (neighbouring doubles, swapped, same sum, same xor, rounded to single precision or six decimals, integer orders); after every operation len, is_empty, contains and get of both handles are compared with the model. Non-trivial: at least 5 operations and at least one call answered from the cache. Large caches: more than 1000 entries.",
        laws: vec![
            law("histories against a map model", 24_000, || (0u8..4, pool(), proptest::collection::vec(
                (prop_oneof![20 => Just(0u8), 4 => Just(3u8), 2 => Just(5u8), 1 => Just(6u8), 2 => Just(7u8), 2 => Just(8u8), 2 => Just(9u8), 3 => Just(10u8), 3 => Just(11u8), 4 => Just(12u8), 2 => Just(13u8), 1 => Just(14u8), 1 => Just(15u8), 1 => Just(16u8)], any::<u16>()), 1..60))
                .prop_map(|(which, pool, ops)| Hist { which, pool, ops }).boxed(), history),
            law("large caches keep every entry", 64, || (0u32..4000, prop_oneof![20 => logu(10.0, 3000.0), 20 => logu(3000.0, 100_000.0), 6 => dict_int(10, 300_000).prop_map(|n| n as f64), 1 => dict_int(300_000, 1_000_000).prop_map(|n| n as f64)]).boxed(), big_law),
            law("very large caches keep every entry", 6, || (0u32..4000, prop_oneof![1 => uni(1_100_000.0, 2_200_000.0), 2 => uni(2_110_000.0, 2_400_000.0)]).boxed(), huge_law),
        ],
    }]
}
