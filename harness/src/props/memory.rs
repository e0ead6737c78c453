//! C32 memory: the numeric functions retain none, and the caches keep what they promise about capacity.
use super::cache::{keep, Cache, Key, Val};
use super::*;
use crate::gen::*;
use crate::mem::live;
use proptest::prelude::*;
use puruspe::*;
use std::collections::HashMap;

/// Which cache, and the operations (code, argument).
#[derive(Clone, PartialEq)]
pub struct Hist(u8, Vec<(u8, u32)>);
const OPS: [&str; 10] = ["call x", "with_capacity", "reserve", "clear", "shrink_to_fit", "retain", "repeat calls", "look up", "clone", "new or default"];
impl std::fmt::Debug for Hist {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "cache {}:", ["JY", "IK", "JnuYnu", "InuKnu"][self.0 as usize % 4])?;
        for (o, a) in self.1.iter().take(40) {
            write!(f, " {}({a});", OPS[*o as usize % OPS.len()])?;
        }
        Ok(())
    }
}
impl Case for Hist {
    fn words(&self) -> Vec<u64> {
        std::iter::once(self.0 as u64).chain(self.1.iter().map(|(o, a)| (*o as u64) << 32 | *a as u64)).collect()
    }
    fn from_words(w: &[u64]) -> Option<Self> {
        Some(Hist(*w.first()? as u8, w[1..].iter().map(|v| ((v >> 32) as u8, *v as u32)).collect()))
    }
}

struct Tracked<C: Cache> {
    c: C,
    m: HashMap<Key, ()>,
    /// further insertions that must not allocate
    free: usize,
    /// the largest number of elements it had to have room for since it was last shrunk
    room: usize,
    /// bytes it holds
    bytes: i64,
}
/// Run `f`, return its result and by how much the memory of this thread grew.
fn grew<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let b = live();
    let r = f();
    (r, live() - b)
}
fn drive<C: Cache>(h: &Hist) -> Result<u64, String> {
    let start = |c: C, bytes: i64, n: usize| Tracked { c, m: HashMap::new(), free: n, room: n, bytes };
    let mut next = 0u64;
    let mut inserted = 0u64;
    let (c, b) = grew(C::new_);
    let mut t = start(c, b, 0);
    if b > 4096 {
        return Err(format!("an empty cache holds {b} bytes"));
    }
    for (i, (op, a)) in h.1.iter().enumerate() {
        let a = *a as usize;
        let r: Result<(), String> = (|| {
            match op % 10 {
                0 => {
                    for _ in 0..a % 70 + 1 {
                        let (nu, x) = ((next % 5) as f64 * 0.5, 2.0 + next as f64 * 1e-4);
                        next += 1;
                        inserted += 1;
                        let (_, g) = grew(|| drop(t.c.call(nu, x)));
                        t.m.insert((nu.to_bits(), x.to_bits()), ());
                        t.room = t.room.max(t.m.len());
                        t.bytes += g;
                        if g != 0 && t.free > 0 {
                            return Err(format!("entry {} took {g} bytes although room for {} more was promised", t.m.len(), t.free));
                        }
                        t.free = t.free.saturating_sub(1);
                    }
                }
                1 => {
                    let n = if a % 4 == 0 { a / 4 % 9 } else { a % 3000 };
                    let (c, g) = grew(|| C::with_cap(n));
                    if n == 0 && g != 0 {
                        return Err(format!("with_capacity(0) allocated {g} bytes"));
                    }
                    t = start(c, g, n);
                }
                2 => {
                    let n = if a % 4 == 0 { a / 4 % 9 } else { a % 3000 };
                    let ((), g) = grew(|| t.c.reserve_(n));
                    t.bytes += g;
                    if g != 0 && n <= t.free {
                        return Err(format!("reserve({n}) took {g} bytes although room for {} more was promised", t.free));
                    }
                    t.free = t.free.max(n);
                    t.room = t.room.max(t.m.len() + n);
                }
                3 => {
                    let ((), g) = grew(|| t.c.clear_());
                    if g != 0 {
                        return Err(format!("clear() changed the memory held by {g} bytes"));
                    }
                    t.free += t.m.len();
                    t.m.clear();
                }
                4 => {
                    let ((), g) = grew(|| t.c.shrink_());
                    t.bytes += g;
                    t.free = 0;
                    t.room = t.m.len();
                    let n = t.m.len();
                    let (fresh, need) = grew(|| C::with_cap(n));
                    drop(fresh);
                    if t.bytes > 2 * need + 1024 {
                        return Err(format!("{} bytes are held after shrink_to_fit, {need} are enough for {n} entries", t.bytes));
                    }
                }
                5 => {
                    let salt = a as u64;
                    let ((), g) = grew(|| t.c.retain_(&mut |k: Key, _: Val| keep(&k, salt)));
                    t.bytes += g;
                    t.m.retain(|k, _| keep(k, salt));
                    t.free = 0;
                }
                6 | 7 => {
                    let ks: Vec<(f64, f64)> = t.m.keys().take(20).map(|k| (f64::from_bits(k.0), f64::from_bits(k.1))).collect();
                    for (nu, x) in ks {
                        let (_, g) = grew(|| {
                            if op % 10 == 6 {
                                drop(t.c.call(nu, x))
                            } else {
                                drop((t.c.get_(nu, x), t.c.contains_(nu, x + 1.0), t.c.len_(), t.c.is_empty_(), t.c.get_(nu, x + 1.0)))
                            }
                        });
                        if g != 0 {
                            return Err(format!("{}({nu:?}, {x:?}) of a cached entry took {g} bytes", OPS[*op as usize % 10]));
                        }
                    }
                }
                8 => {
                    let (c, g) = grew(|| t.c.clone());
                    let old = std::mem::replace(&mut t.c, c);
                    let ((), d) = grew(|| drop(old));
                    if d != -t.bytes {
                        return Err(format!("dropping a cache that held {} bytes released {}", t.bytes, -d));
                    }
                    t.bytes = g;
                    t.free = 0;
                }
                _ => {
                    let (c, g) = grew(|| if a % 2 == 0 { C::new_() } else { C::default() });
                    if g > 4096 {
                        return Err(format!("an empty cache allocated {g} bytes"));
                    }
                    t = start(c, g, 0);
                }
            }
            if t.bytes < 0 || t.bytes > 4096 + 200 * t.room as i64 {
                return Err(format!("{} bytes are held for at most {} entries", t.bytes, t.room));
            }
            Ok(())
        })();
        r.map_err(|e| format!("{} op {i} {}({a}): {e}", C::NAME, OPS[*op as usize % 10]))?;
    }
    let held = t.bytes;
    let ((), g) = grew(|| drop(t.c));
    if g != -held {
        return Err(format!("{}: dropping a cache that held {held} bytes released {}", C::NAME, -g));
    }
    Ok(inserted)
}
fn history(h: &Hist) -> Verdict {
    let (class, r) = match h.0 % 4 {
        0 => ("CachedBesselJY", drive::<CachedBesselJY>(h)),
        1 => ("CachedBesselIK", drive::<CachedBesselIK>(h)),
        2 => ("CachedJnuYnu", drive::<CachedJnuYnu>(h)),
        _ => ("CachedInuKnu", drive::<CachedInuKnu>(h)),
    };
    match r {
        Ok(n) => Verdict::ok(class).with_nontrivial(n >= 5 && h.1.len() >= 3),
        Err(e) => Verdict::fail(class, e),
    }
}

/// (cache, 0: with_capacity, 1: reserve, 2: clear and fill again, 3: shrink and reserve; number of entries, fill before)
fn large(c: &(u8, u8, u32, u32)) -> Verdict {
    fn go<C: Cache>(c: &(u8, u8, u32, u32)) -> Result<(), String> {
        let (n, pre) = (c.2 as usize, c.3 as usize);
        let mut next = 0u64;
        let mut fill = |k: &mut C, n: usize| -> i64 {
            grew(|| {
                for _ in 0..n {
                    k.call((next % 3) as f64 * 0.5, 3.0 + next as f64 * 1e-4);
                    next += 1;
                }
            })
            .1
        };
        let mut k = if c.1 % 4 == 0 { C::with_cap(n) } else { C::new_() };
        if c.1 % 4 != 0 {
            fill(&mut k, pre);
        }
        match c.1 % 4 {
            0 => {}
            1 => k.reserve_(n),
            2 => {
                fill(&mut k, n);
                k.clear_();
            }
            _ => {
                k.shrink_();
                k.reserve_(n);
            }
        }
        let g = fill(&mut k, n);
        if g != 0 {
            return Err(format!("{} ({}, {pre} entries before): the {n} entries there was to be room for changed the memory held by {g} bytes", C::NAME, ["with_capacity", "reserve", "clear", "shrink_to_fit and reserve"][c.1 as usize % 4]));
        }
        Ok(())
    }
    let (class, r) = match c.0 % 4 {
        0 => ("CachedBesselJY", go::<CachedBesselJY>(c)),
        1 => ("CachedBesselIK", go::<CachedBesselIK>(c)),
        2 => ("CachedJnuYnu", go::<CachedJnuYnu>(c)),
        _ => ("CachedInuKnu", go::<CachedInuKnu>(c)),
    };
    match r {
        Ok(()) => Verdict::ok(class).with_nontrivial(c.2 >= 100),
        Err(e) => Verdict::fail(class, e),
    }
}

/// Many calls of one function with distinct arguments leave nothing behind.
fn retains(c: &(u32, f64)) -> Verdict {
    let f = (c.0 % purity::N as u32) as u8;
    let name = purity::NAMES[f as usize];
    let mut r = Mix(c.1.to_bits());
    // half of the runs keep to one narrow band of magnitudes for each argument
    let bands = (r.next() % 2 == 0).then(|| [(r.unit() * 2.0 - 1.0) * 300f64.powf(r.unit()), (r.unit() * 2.0 - 1.0) * 20.0]);
    let mut calls = |n: u32| {
        for _ in 0..n {
            // ordinary values, half-integers, every magnitude, and second arguments close to the first
            let one = |r: &mut Mix| match r.next() % 5 {
                0 => 0.5 + (r.next() % 40) as f64 * 0.5,
                1 => r.unit() * 30.0,
                2 => (r.unit() * 14.0 - 7.0).exp(),
                3 => 1.0 + (r.next() % 60) as f64,
                _ => (r.unit() * 24.0 - 12.0).exp(),
            };
            let (a, b) = if let Some(e) = bands {
                (10f64.powf(e[0] + r.unit()), 10f64.powf(e[1] + r.unit()))
            } else {
            let a = one(&mut r);
            let b = if r.next() % 2 == 0 { one(&mut r) } else { a * (1.0 + (r.unit() - 0.5) * r.unit()) };
            (a, b)
            };
            // the Bessel functions of large argument are slow or outside their domain
            let (a, b) = if (15..=22).contains(&f) || f >= 32 { (a.min(80.0), b.clamp(1e-12, 600.0)) } else { (a, b) };
            purity::call(&(f, a, b, r.unit()));
        }
    };
    let ((), warm) = grew(|| calls(300));
    let n = if bands.is_some() { 5_000 } else { 12_000 };
    let ((), g) = grew(|| calls(n));
    // a bounded amount is a table, not a leak
    if warm + g > 65_536 || g > 16_384 {
        Verdict::fail(name, format!("{n} calls of {name} with distinct arguments left {g} bytes allocated (the first 300: {warm})"))
    } else {
        Verdict::ok(name)
    }
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C32",
        rule: "every allocation of the checking thread is counted. Histories of up to 40 operations on one cache (calls with new and with cached arguments, with_capacity, reserve, clear, shrink_to_fit, retain, clone, look-ups, drop) against the number of insertions that were promised room; and 12300 calls of one public function with distinct arguments. Non-trivial: at least 5 insertions and 3 operations, or a run of calls.",
        laws: vec![
            law("memory of a cache", 6_000, || (0u8..4, proptest::collection::vec(
                (prop_oneof![10 => Just(0u8), 3 => Just(1u8), 3 => Just(2u8), 3 => Just(3u8), 3 => Just(4u8), 3 => Just(5u8), 1 => Just(6u8), 1 => Just(7u8), 1 => Just(8u8), 1 => Just(9u8)], any::<u32>()), 1..40))
                .prop_map(|(w, o)| Hist(w, o)).boxed(), history),
            law("large capacities", 1_000, || (0u8..4, 0u8..4, 0.0f64..11.0, 0.0f64..8.0).prop_map(|(w, k, n, p)| (w, k, n.exp() as u32, p.exp() as u32 - 1)).boxed(), large),
            law("numeric functions retain nothing", 1_000, || (0u32..36, uni(0.0, 1.0)).boxed(), retains),
        ],
    }]
}
