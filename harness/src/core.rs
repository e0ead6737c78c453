//! Laws, the campaign runner, evidence, and replay.
//!
//! A *law* is an executable statement over one generated case. A *property* is a
//! list of laws. Every random choice is made by proptest's TestRunner, seeded
//! from (VERIF_SEED, property, law, worker), so a run is a pure function of the
//! code under test and the seed.

use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::rc::Rc;

/// Harness or oracle malfunction: neither "held" nor "violated".
pub fn fatal(msg: &str) -> ! {
    eprintln!("CHECK-ERROR: {msg}");
    std::process::exit(3)
}

/// Outcome of evaluating one law on one case.
pub struct Verdict {
    /// error / tolerance; > 1 (or NaN) is a violation
    pub ratio: f64,
    /// which regime of the property the case falls in
    pub class: &'static str,
    pub nontrivial: bool,
    /// rendered lazily: observed / expected / tolerance
    pub detail: String,
}

impl Verdict {
    pub fn ok(class: &'static str) -> Self {
        Verdict { ratio: 0.0, class, nontrivial: true, detail: String::new() }
    }
    pub fn trivial(class: &'static str) -> Self {
        Verdict { ratio: 0.0, class, nontrivial: false, detail: String::new() }
    }
    pub fn ratio(class: &'static str, ratio: f64) -> Self {
        Verdict { ratio, class, nontrivial: true, detail: String::new() }
    }
    pub fn fail(class: &'static str, detail: String) -> Self {
        Verdict { ratio: f64::INFINITY, class, nontrivial: true, detail }
    }
    pub fn check(class: &'static str, ok: bool, detail: impl FnOnce() -> String) -> Self {
        if ok {
            Verdict::ok(class)
        } else {
            Verdict::fail(class, detail())
        }
    }
    pub fn note(mut self, detail: impl FnOnce() -> String) -> Self {
        if self.bad() || DETAIL.with(|d| *d.borrow()) {
            self.detail = detail();
        }
        self
    }
    pub fn with_nontrivial(mut self, nt: bool) -> Self {
        self.nontrivial = nt;
        self
    }
    pub fn bad(&self) -> bool {
        !(self.ratio <= 1.0)
    }
    /// keep the worse of two
    pub fn and(self, o: Verdict) -> Verdict {
        let worse = if self.bad() {
            false
        } else {
            o.bad() || o.ratio > self.ratio
        };
        if worse {
            o
        } else {
            self
        }
    }
}

thread_local! {
    pub static DETAIL: RefCell<bool> = const { RefCell::new(false) };
}

/// A case that can be written into a replay file and read back exactly.
pub trait Case: Clone + std::fmt::Debug + Send + 'static {
    fn words(&self) -> Vec<u64>;
    fn from_words(w: &[u64]) -> Option<Self>;
    fn show(&self) -> String {
        format!("{self:?}")
    }
    /// A neighbouring case, for the error-maximising search; None if the type has no useful neighbourhood.
    fn mutate(&self, _r: &mut Mix) -> Option<Self> {
        None
    }
    /// A simpler candidate that might still fail (`k` selects the simplification); None when exhausted.
    fn simpler(&self, _k: u32) -> Option<Self> {
        None
    }
}

/// splitmix64 over the worker's seed: only steers the neighbourhood search.
pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f64_near(&mut self, x: f64) -> f64 {
        match self.below(6) {
            0 => crate::gen::ulps(x, self.below(9) as i64 - 4),
            1 => crate::gen::ulps(x, self.below(2001) as i64 - 1000),
            5 => f64::from_bits(x.to_bits() & !((1u64 << self.below(50)) - 1)),
            _ => {
                let d = 10f64.powf(-14.0 * self.unit());
                if self.below(2) == 0 {
                    x * (1.0 + d)
                } else {
                    x * (1.0 - d)
                }
            }
        }
    }
}
fn short_f64(x: f64, k: u32) -> Option<f64> {
    // fewer and fewer mantissa bits: 2, 6, 10, ... bits kept
    if k >= 12 || !x.is_finite() {
        return None;
    }
    let keep = 2 + 4 * k;
    Some(f64::from_bits(x.to_bits() & !((1u64 << (52 - keep)) - 1)))
}
impl Case for f64 {
    fn words(&self) -> Vec<u64> {
        vec![self.to_bits()]
    }
    fn from_words(w: &[u64]) -> Option<Self> {
        (w.len() == 1).then(|| f64::from_bits(w[0]))
    }
    fn mutate(&self, r: &mut Mix) -> Option<Self> {
        Some(r.f64_near(*self))
    }
    fn simpler(&self, k: u32) -> Option<Self> {
        short_f64(*self, k)
    }
}
impl Case for (f64, f64) {
    fn words(&self) -> Vec<u64> {
        vec![self.0.to_bits(), self.1.to_bits()]
    }
    fn from_words(w: &[u64]) -> Option<Self> {
        (w.len() == 2).then(|| (f64::from_bits(w[0]), f64::from_bits(w[1])))
    }
    fn mutate(&self, r: &mut Mix) -> Option<Self> {
        let k = r.below(2);
        Some((if k == 0 { r.f64_near(self.0) } else { self.0 }, if k == 1 { r.f64_near(self.1) } else { self.1 }))
    }
    fn simpler(&self, k: u32) -> Option<Self> {
        let w = k % 2;
        Some((if w == 0 { short_f64(self.0, k / 2)? } else { self.0 }, if w == 1 { short_f64(self.1, k / 2)? } else { self.1 }))
    }
}
impl Case for (f64, f64, f64) {
    fn words(&self) -> Vec<u64> {
        vec![self.0.to_bits(), self.1.to_bits(), self.2.to_bits()]
    }
    fn from_words(w: &[u64]) -> Option<Self> {
        (w.len() == 3).then(|| (f64::from_bits(w[0]), f64::from_bits(w[1]), f64::from_bits(w[2])))
    }
    fn mutate(&self, r: &mut Mix) -> Option<Self> {
        let k = r.below(3);
        Some((if k == 0 { r.f64_near(self.0) } else { self.0 }, if k == 1 { r.f64_near(self.1) } else { self.1 }, if k == 2 { r.f64_near(self.2) } else { self.2 }))
    }
    fn simpler(&self, k: u32) -> Option<Self> {
        let w = k % 3;
        Some((if w == 0 { short_f64(self.0, k / 3)? } else { self.0 }, if w == 1 { short_f64(self.1, k / 3)? } else { self.1 }, if w == 2 { short_f64(self.2, k / 3)? } else { self.2 }))
    }
}
impl Case for (f64, f64, f64, f64) {
    fn words(&self) -> Vec<u64> {
        vec![self.0.to_bits(), self.1.to_bits(), self.2.to_bits(), self.3.to_bits()]
    }
    fn from_words(w: &[u64]) -> Option<Self> {
        (w.len() == 4).then(|| {
            (f64::from_bits(w[0]), f64::from_bits(w[1]), f64::from_bits(w[2]), f64::from_bits(w[3]))
        })
    }
    fn mutate(&self, r: &mut Mix) -> Option<Self> {
        let k = r.below(4);
        Some((if k == 0 { r.f64_near(self.0) } else { self.0 }, if k == 1 { r.f64_near(self.1) } else { self.1 }, if k == 2 { r.f64_near(self.2) } else { self.2 }, if k == 3 { r.f64_near(self.3) } else { self.3 }))
    }
    fn simpler(&self, k: u32) -> Option<Self> {
        let w = k % 4;
        Some((if w == 0 { short_f64(self.0, k / 4)? } else { self.0 }, if w == 1 { short_f64(self.1, k / 4)? } else { self.1 }, if w == 2 { short_f64(self.2, k / 4)? } else { self.2 }, if w == 3 { short_f64(self.3, k / 4)? } else { self.3 }))
    }
}
impl Case for u32 {
    fn words(&self) -> Vec<u64> {
        vec![*self as u64]
    }
    fn from_words(w: &[u64]) -> Option<Self> {
        (w.len() == 1).then(|| w[0] as u32)
    }
}
impl Case for (u8, u8, u32, u32) {
    fn words(&self) -> Vec<u64> {
        vec![self.0 as u64, self.1 as u64, self.2 as u64, self.3 as u64]
    }
    fn from_words(w: &[u64]) -> Option<Self> {
        Some((*w.first()? as u8, *w.get(1)? as u8, *w.get(2)? as u32, *w.get(3)? as u32))
    }
}
impl Case for (u32, f64) {
    fn words(&self) -> Vec<u64> {
        vec![self.0 as u64, self.1.to_bits()]
    }
    fn from_words(w: &[u64]) -> Option<Self> {
        (w.len() == 2).then(|| (w[0] as u32, f64::from_bits(w[1])))
    }
    fn mutate(&self, r: &mut Mix) -> Option<Self> {
        Some(if r.below(5) == 0 {
            ((self.0 + r.below(3) as u32).saturating_sub(1), self.1)
        } else {
            (self.0, r.f64_near(self.1))
        })
    }
    fn simpler(&self, k: u32) -> Option<Self> {
        Some((self.0, short_f64(self.1, k)?))
    }
}
impl Case for (f64, i32) {
    fn words(&self) -> Vec<u64> {
        vec![self.0.to_bits(), self.1 as i64 as u64]
    }
    fn from_words(w: &[u64]) -> Option<Self> {
        (w.len() == 2).then(|| (f64::from_bits(w[0]), w[1] as i64 as i32))
    }
}
impl Case for (i32, f64, f64) {
    fn words(&self) -> Vec<u64> {
        vec![self.0 as i64 as u64, self.1.to_bits(), self.2.to_bits()]
    }
    fn from_words(w: &[u64]) -> Option<Self> {
        (w.len() == 3).then(|| (w[0] as i64 as i32, f64::from_bits(w[1]), f64::from_bits(w[2])))
    }
}

/// Type-erased law.
pub trait DynLaw: Sync + Send {
    fn name(&self) -> &'static str;
    fn cases(&self, tier: Tier) -> u64;
    fn run(&self, law_idx: u64, seed: [u8; 32], cases: u64, climb: u64, stop_on_fail: bool) -> WorkerReport;
    fn replay(&self, words: &[u64]) -> Option<(String, Verdict)>;
}

static DEADLINE: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
/// On a machine so slow that the planned cases do not fit, the rest is skipped; the evidence counts what was evaluated.
pub fn set_deadline(d: std::time::Duration) {
    let _ = DEADLINE.set(std::time::Instant::now() + d);
}
fn past_deadline() -> bool {
    DEADLINE.get().is_some_and(|d| std::time::Instant::now() > *d)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Law<C: Case, G: Fn() -> BoxedStrategy<C> + Sync + Send, E: Fn(&C) -> Verdict + Sync + Send> {
    pub name: &'static str,
    pub quick: u64,
    pub thorough_factor: u64,
    pub gen: G,
    pub eval: E,
    pub screen: Option<Screen<C>>,
}

/// What the code under test, and the frozen copy of it in /verif/baseline, return for a case. Where the two differ is where
/// the code has changed: a hint which cases to put to the law. The law alone decides; the copy is no oracle.
pub struct Screen<C> {
    /// cheap comparisons per planned case
    pub per_case: f64,
    pub now: fn(&C) -> Values,
    pub base: fn(&C) -> Values,
}
pub type Values = [f64; 4];
/// (relative, absolute) difference; infinite if only one of the two is finite, or only one panics
fn difference(a: &Values, b: &Values) -> (f64, f64) {
    let mut d = (0.0f64, 0.0f64);
    for (x, y) in a.iter().zip(b) {
        if x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan() {
            continue;
        }
        let abs = (x - y).abs();
        let (r, a) = if abs.is_finite() { (abs / x.abs().max(y.abs()).max(1e-300), abs) } else { (f64::INFINITY, f64::INFINITY) };
        // +0 against -0 also counts
        d = (d.0.max(r).max(1e-300), d.1.max(a).max(1e-300));
    }
    d
}
/// `probe!(per case, |case pattern| array)`, the functions under test written `m::name`
#[macro_export]
macro_rules! probe {
    ($k:expr, |$p:pat_param| $e:expr) => {
        $crate::core::Screen {
            per_case: $k,
            now: |c| {
                use puruspe as m;
                let $p = *c;
                $crate::core::values(&$e)
            },
            base: |c| {
                use puruspe_baseline as m;
                let $p = *c;
                $crate::core::values(&$e)
            },
        }
    };
}
pub fn values(v: &[f64]) -> Values {
    let mut o = [0.0; 4];
    o[..v.len()].copy_from_slice(v);
    o
}
/// Differing cases worth a verdict: the largest relative and absolute differences, the largest of each region, and some at random.
struct Differing<C> {
    rel: Vec<(f64, C)>,
    abs: Vec<(f64, C)>,
    region: BTreeMap<u64, (f64, C)>,
    any: Vec<C>,
    seen: u64,
}
impl<C: Case> Differing<C> {
    fn add(&mut self, d: (f64, f64), c: &C, mix: &mut Mix) {
        const TOP: usize = 32;
        self.seen += 1;
        for (l, s) in [(&mut self.rel, d.0), (&mut self.abs, d.1)] {
            if l.len() < TOP || l[l.len() - 1].0 < s {
                let at = l.partition_point(|e| e.0 >= s);
                l.insert(at, (s, c.clone()));
                l.truncate(TOP);
            }
        }
        // binary order of magnitude of each component
        let k = c.words().iter().fold(0u64, |h, w| (h ^ (w >> 52 ^ if *w < 1 << 32 { *w / 8 } else { 0 })).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(7)) % 96;
        let e = self.region.entry(k).or_insert((-1.0, c.clone()));
        if d.0 > e.0 {
            *e = (d.0, c.clone());
        }
        if self.any.len() < 64 {
            self.any.push(c.clone());
        } else {
            let i = mix.below(self.seen) as usize;
            if i < 64 {
                self.any[i] = c.clone();
            }
        }
    }
    fn pick(&self, mix: &mut Mix) -> &C {
        let i = |n: usize, mix: &mut Mix| mix.below(n as u64) as usize;
        match mix.below(4) {
            0 => &self.rel[i(self.rel.len(), mix)].1,
            1 => &self.abs[i(self.abs.len(), mix)].1,
            2 => &self.region.values().nth(i(self.region.len(), mix)).unwrap().1,
            _ => &self.any[i(self.any.len(), mix)],
        }
    }
    fn all(self) -> impl Iterator<Item = C> {
        self.rel.into_iter().chain(self.abs).chain(self.region.into_values()).map(|e| e.1).chain(self.any)
    }
}

#[derive(Default, Clone)]
pub struct ClassStat {
    pub n: u64,
    pub nontrivial: u64,
    pub max_ratio: f64,
    pub worst: String,
}

#[derive(Default)]
pub struct WorkerReport {
    pub evals: u64,
    pub climbed: u64,
    /// compared with the frozen copy, and how many of these differed
    pub screened: u64,
    pub differed: u64,
    pub classes: BTreeMap<&'static str, ClassStat>,
    pub hashes: Vec<u64>,
    pub samples: Vec<String>,
    pub failure: Option<(Vec<u64>, String, String)>, // words, shown case, detail
}

fn fnv(words: &[u64], salt: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ salt;
    for w in words {
        h ^= *w;
        h = h.wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h
}

impl<C: Case, G: Fn() -> BoxedStrategy<C> + Sync + Send, E: Fn(&C) -> Verdict + Sync + Send> DynLaw
    for Law<C, G, E>
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.quick * self.thorough_factor,
        }
    }
    fn run(&self, law_idx: u64, seed: [u8; 32], cases: u64, climb: u64, stop_on_fail: bool) -> WorkerReport {
        let rep = Rc::new(RefCell::new(WorkerReport::default()));
        let strat = (self.gen)();
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
        let cfg = Config {
            cases: cases.min(u32::MAX as u64) as u32,
            failure_persistence: None,
            max_shrink_iters: 4000,
            max_shrink_time: 30_000,
            max_global_rejects: 1_000_000,
            source_file: None,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let salt = fnv(&self.name.bytes().map(|b| b as u64).collect::<Vec<_>>(), 1);
        let r2 = rep.clone();
        let failed = std::cell::Cell::new(false);
        // the cases with the largest error per class: starting points of the climb
        let top: RefCell<BTreeMap<&'static str, Vec<(f64, C)>>> = Default::default();
        let keep = |v: &Verdict, c: &C| {
            if climb == 0 || !(v.ratio > 0.0) {
                return;
            }
            let mut t = top.borrow_mut();
            let l = t.entry(v.class).or_default();
            if l.len() < 6 || l[l.len() - 1].0 < v.ratio {
                l.push((v.ratio, c.clone()));
                l.sort_by(|a, b| b.0.total_cmp(&a.0));
                l.truncate(6);
            }
        };
        let book = |r: &mut WorkerReport, v: &Verdict, c: &C| {
            r.evals += 1;
            if v.nontrivial {
                r.hashes.push(fnv(&c.words(), salt));
                if r.samples.len() < 2 && r.evals % 7 == 3 {
                    DETAIL.with(|d| *d.borrow_mut() = true);
                    let v2 = self.guarded(law_idx, c);
                    DETAIL.with(|d| *d.borrow_mut() = false);
                    r.samples.push(format!("{} {} [{}] {}", self.name, c.show(), v2.class, v2.detail));
                }
            }
            let cs = r.classes.entry(v.class).or_default();
            cs.n += 1;
            cs.nontrivial += v.nontrivial as u64;
            if !(v.ratio <= cs.max_ratio) && !(cs.max_ratio.is_infinite()) {
                cs.max_ratio = if v.ratio.is_nan() { f64::INFINITY } else { v.ratio };
                cs.worst = c.show();
            }
        };
        let res = runner.run(&strat.prop_map(|c: C| c), |c: C| {
            if past_deadline() && !failed.get() {
                return Ok(());
            }
            let v = self.guarded(law_idx, &c);
            if !failed.get() {
                book(&mut r2.borrow_mut(), &v, &c);
                keep(&v, &c);
            }
            if v.bad() && stop_on_fail {
                failed.set(true);
                return Err(TestCaseError::fail("violated"));
            }
            Ok(())
        });
        let mut failing: Option<C> = None;
        match res {
            Ok(()) => {}
            Err(TestError::Fail(_, c)) => failing = Some(c),
            Err(TestError::Abort(r)) => fatal(&format!("law {} aborted: {r}", self.name)),
        }
        let drawn = failing.is_some();
        // Cases where the code no longer returns what it did: a verdict on the most different ones.
        let screen = self.screen.as_ref().filter(|_| failing.is_none() && climb > 0);
        if let Some(s) = screen {
            let mut mix = Mix(u64::from_le_bytes(seed[16..24].try_into().unwrap()));
            let mut runner = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &screen_seed(&seed)));
            let strat = (self.gen)();
            let mut found: Differing<C> = Differing { rel: vec![], abs: vec![], region: BTreeMap::new(), any: vec![], seen: 0 };
            let n = (cases as f64 * s.per_case) as u64;
            let mut from: Option<C> = None;
            for i in 0..n {
                if i % 256 == 0 && past_deadline() {
                    break;
                }
                // a draw, seven neighbours; in the second half, if anything differs, neighbours of what does
                let c = if i > n / 2 && found.seen > 0 {
                    found.pick(&mut mix).mutate(&mut mix)
                } else if i % 8 == 0 || from.is_none() {
                    let t = strat.new_tree(&mut runner).unwrap_or_else(|e| fatal(&format!("law {}: {e}", self.name)));
                    from = Some(t.current());
                    from.clone()
                } else {
                    from.as_ref().unwrap().mutate(&mut mix)
                };
                let Some(c) = c else { continue };
                crate::slots::begin(law_idx, &c.words());
                let [a, b] = [s.now, s.base].map(|f| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&c))));
                crate::slots::end();
                let d = match (&a, &b) {
                    (Ok(a), Ok(b)) => difference(a, b),
                    (Err(_), Err(_)) => (0.0, 0.0),
                    _ => (f64::INFINITY, f64::INFINITY),
                };
                r2.borrow_mut().screened += 1;
                if d.0 > 0.0 {
                    found.add(d, &c, &mut mix);
                }
            }
            r2.borrow_mut().differed = found.seen;
            for c in found.all() {
                if past_deadline() {
                    break;
                }
                let v = self.guarded(law_idx, &c);
                book(&mut r2.borrow_mut(), &v, &c);
                keep(&v, &c);
                if v.bad() && stop_on_fail {
                    failing = Some(c);
                    break;
                }
            }
        }
        // Error-maximising neighbourhood search from the worst cases found so far.
        if failing.is_none() && climb > 0 {
            let mut mix = Mix(u64::from_le_bytes(seed[8..16].try_into().unwrap()));
            let names: Vec<&'static str> = top.borrow().keys().copied().collect();
            if !names.is_empty() {
                for i in 0..climb {
                    if past_deadline() {
                        break;
                    }
                    let l = names[(i % names.len() as u64) as usize];
                    let from = {
                        let t = top.borrow();
                        let v = &t[l];
                        v[(mix.below(v.len() as u64) as usize).min(mix.below(v.len() as u64) as usize)].1.clone()
                    };
                    let Some(c) = from.mutate(&mut mix) else { break };
                    let v = self.guarded(law_idx, &c);
                    let mut r = r2.borrow_mut();
                    r.climbed += 1;
                    book(&mut r, &v, &c);
                    drop(r);
                    keep(&v, &c);
                    if v.bad() && stop_on_fail {
                        failing = Some(c);
                        break;
                    }
                }
            }
        }
        if !drawn {
            // greedy shrink: keep any simpler case that still fails
            if let Some(mut best) = failing.take() {
                let mut k = 0;
                let t0 = std::time::Instant::now();
                while let Some(n) = best.simpler(k).filter(|_| t0.elapsed().as_secs() < 30) {
                    if n.words() != best.words() && self.guarded(law_idx, &n).bad() {
                        best = n;
                        k = 0;
                    } else {
                        k += 1;
                    }
                }
                failing = Some(best);
            }
        }
        if let Some(c) = failing {
            DETAIL.with(|d| *d.borrow_mut() = true);
            let v = self.guarded(law_idx, &c);
            DETAIL.with(|d| *d.borrow_mut() = false);
            rep.borrow_mut().failure = Some((c.words(), c.show(), format!("[{}] ratio={:.3e} {}", v.class, v.ratio, v.detail)));
        }
        drop(runner);
        drop(r2);
        Rc::try_unwrap(rep).map(|c| c.into_inner()).unwrap_or_else(|_| fatal("report still shared"))
    }
    fn replay(&self, words: &[u64]) -> Option<(String, Verdict)> {
        let c = C::from_words(words)?;
        DETAIL.with(|d| *d.borrow_mut() = true);
        let v = self.guarded(0, &c);
        DETAIL.with(|d| *d.borrow_mut() = false);
        Some((c.show(), v))
    }
}

impl<C: Case, G: Fn() -> BoxedStrategy<C> + Sync + Send, E: Fn(&C) -> Verdict + Sync + Send> Law<C, G, E> {
    /// A panic that escapes a law comes from the code under test (laws that expect
    /// panics catch them themselves), so it violates the law.
    fn guarded(&self, law_idx: u64, c: &C) -> Verdict {
        crate::slots::begin(law_idx, &c.words());
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (self.eval)(c))) {
            Ok(v) => v,
            Err(e) => Verdict::fail("panic", format!("unexpected panic: {}", panic_msg(&e))),
        };
        crate::slots::end();
        r
    }
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Run `f`, returning Err(message) if it panicked.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| panic_msg(&e))
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub laws: Vec<Box<dyn DynLaw>>,
}

pub fn law<C: Case>(
    name: &'static str,
    quick: u64,
    gen: impl Fn() -> BoxedStrategy<C> + Sync + Send + 'static,
    eval: impl Fn(&C) -> Verdict + Sync + Send + 'static,
) -> Box<dyn DynLaw> {
    Box::new(Law { name, quick, thorough_factor: 12, gen, eval, screen: None })
}
/// a law whose cases are also chosen by comparison with the frozen copy
pub fn law_screened<C: Case>(
    name: &'static str,
    quick: u64,
    gen: impl Fn() -> BoxedStrategy<C> + Sync + Send + 'static,
    eval: impl Fn(&C) -> Verdict + Sync + Send + 'static,
    screen: Screen<C>,
) -> Box<dyn DynLaw> {
    Box::new(Law { name, quick, thorough_factor: 12, gen, eval, screen: Some(screen) })
}

pub struct LawReport {
    pub name: &'static str,
    pub evals: u64,
    pub climbed: u64,
    pub screened: u64,
    pub differed: u64,
    pub distinct_nontrivial: u64,
    pub classes: BTreeMap<&'static str, ClassStat>,
    pub samples: Vec<String>,
    pub failure: Option<(Vec<u64>, String, String)>,
    pub wall: f64,
}

/// the screening draws other cases than the run proper
fn screen_seed(seed: &[u8; 32]) -> [u8; 32] {
    let mut s = *seed;
    for b in &mut s {
        *b = b.rotate_left(3) ^ 0x5a;
    }
    s
}
fn seed_for(seed: u64, prop: &str, law: &str, worker: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    let base = fnv(
        &prop.bytes().chain(law.bytes()).map(|b| b as u64).collect::<Vec<_>>(),
        seed.wrapping_mul(0xD1B54A32D192ED03),
    );
    for i in 0..4u64 {
        let v = fnv(&[base, worker, i, seed], 0xABCD);
        out[i as usize * 8..i as usize * 8 + 8].copy_from_slice(&v.to_le_bytes());
    }
    out
}

pub fn run_law(prop: &str, law_idx: u64, law: &dyn DynLaw, seed: u64, cases: u64, climb: u64, stop: bool) -> LawReport {
    // Fixed worker count: the partition (hence every generated case) does not depend on the machine.
    const WORKERS: u64 = crate::slots::WORKERS as u64;
    let t0 = std::time::Instant::now();
    let next = std::sync::atomic::AtomicU64::new(0);
    let results: std::sync::Mutex<Vec<(u64, WorkerReport)>> = Default::default();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(WORKERS as usize);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let w = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if w >= WORKERS {
                    break;
                }
                let n = cases / WORKERS + (w < cases % WORKERS) as u64;
                crate::slots::bind(w as usize);
                let rep = law.run(law_idx, seed_for(seed, prop, law.name(), w), n, climb / WORKERS, stop);
                results.lock().unwrap().push((w, rep));
            });
        }
    });
    let mut rs = results.into_inner().unwrap();
    rs.sort_by_key(|r| r.0);
    let mut out = LawReport {
        name: law.name(),
        evals: 0,
        climbed: 0,
        screened: 0,
        differed: 0,
        distinct_nontrivial: 0,
        classes: BTreeMap::new(),
        samples: vec![],
        failure: None,
        wall: 0.0,
    };
    let mut hashes = vec![];
    for (_, mut r) in rs {
        out.evals += r.evals;
        out.climbed += r.climbed;
        out.screened += r.screened;
        out.differed += r.differed;
        hashes.append(&mut r.hashes);
        for (k, v) in r.classes {
            let c = out.classes.entry(k).or_default();
            c.n += v.n;
            c.nontrivial += v.nontrivial;
            if v.max_ratio > c.max_ratio || c.worst.is_empty() {
                c.max_ratio = v.max_ratio;
                c.worst = v.worst;
            }
        }
        if out.samples.len() < 2 {
            out.samples.extend(r.samples.into_iter().take(1));
        }
        if out.failure.is_none() {
            out.failure = r.failure;
        }
    }
    hashes.sort_unstable();
    hashes.dedup();
    out.distinct_nontrivial = hashes.len() as u64;
    out.wall = t0.elapsed().as_secs_f64();
    out
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
