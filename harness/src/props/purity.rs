//! C31 every function is a function of its arguments: no result depends on earlier
//! calls, on their order, on other threads, or on the process that asks.
use super::*;
use crate::gen::*;
use proptest::prelude::*;
use puruspe::utils::{factorial, frexp, ldexp, sign};
use puruspe::*;
use std::io::{Read, Write};

pub type Call = (u8, f64, f64, f64);
pub const N: u8 = 36;
pub const NAMES: [&str; N as usize] = [
    "gamma", "ln_gamma", "gammp", "gammq", "invgammp", "beta", "betai", "invbetai", "erf", "erfc", "erfcx", "inverf", "inverfc", "dawson", "faddeeva", "Jn", "Yn", "In", "Kn", "besseljy", "besselik", "Jnu_Ynu", "Inu_Knu", "lambert_w0", "lambert_wm1", "sp_lambert_w0", "sp_lambert_wm1", "lambert_w", "factorial", "frexp", "ldexp", "sign", "CachedBesselJY", "CachedBesselIK", "CachedJnuYnu", "CachedInuKnu",
];

/// One call: the bits of its result, or a marker for a panic.
pub fn call(c: &Call) -> u64 {
    let (f, a, b, d) = *c;
    let mut h = 0x9E37u64;
    let mut push = |x: f64| {
        let v = if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() };
        h = (h.rotate_left(23) ^ v).wrapping_mul(0xD1B54A32D192ED03);
    };
    let n = a.abs().min(60.0) as u32;
    let r = catch(|| match f % N {
        0 => push(gamma(a)),
        1 => push(ln_gamma(a)),
        2 => push(gammp(a, b)),
        3 => push(gammq(a, b)),
        4 => push(invgammp(d, a)),
        5 => push(beta(a, b)),
        6 => push(betai(a, b, d)),
        7 => push(invbetai(d, a, b)),
        8 => push(erf(a)),
        9 => push(erfc(a)),
        10 => push(erfcx(a)),
        11 => push(inverf(d)),
        12 => push(inverfc(d)),
        13 => push(dawson(a)),
        14 => {
            let (x, y) = faddeeva(a, b);
            push(x);
            push(y)
        }
        15 => push(Jn(n, b)),
        16 => push(Yn(n, b)),
        17 => push(In(n, b)),
        18 => push(Kn(n, b)),
        19 | 32 => {
            let v = if f % N == 19 { besseljy(a, b) } else { CachedBesselJY::new().besseljy(a, b) };
            push(v.0);
            push(v.1);
            push(v.2);
            push(v.3)
        }
        20 | 33 => {
            let v = if f % N == 20 { besselik(a, b) } else { CachedBesselIK::new().besselik(a, b) };
            push(v.0);
            push(v.1);
            push(v.2);
            push(v.3)
        }
        21 | 34 => {
            let v = if f % N == 21 { Jnu_Ynu(a, b) } else { CachedJnuYnu::new().Jnu_Ynu(a, b) };
            push(v.0);
            push(v.1)
        }
        22 | 35 => {
            let v = if f % N == 22 { Inu_Knu(a, b) } else { CachedInuKnu::new().Inu_Knu(a, b) };
            push(v.0);
            push(v.1)
        }
        23 => push(lambert_w0(a)),
        24 => push(lambert_wm1(-d / 3.0)),
        25 => push(sp_lambert_w0(a)),
        26 => push(sp_lambert_wm1(-d / 3.0)),
        27 => {
            let (x, y) = lambert_w(n as i32 % 5 - 2, b, d);
            push(x);
            push(y)
        }
        28 => push(factorial(a.abs().min(200.0) as usize)),
        29 => {
            let (m, e) = frexp(a);
            push(m);
            push(e as f64)
        }
        30 => push(ldexp(a, b as i32)),
        _ => push(sign(a, b)),
    });
    match r {
        Ok(()) => h,
        Err(_) => 0xDEAD_0000_0000_0000,
    }
}

/// `pcheck eval MODE`: the calls arrive on stdin, the results leave on stdout.
/// Everything this process does before a call comes from the list itself.
pub fn eval_child(mode: &str) {
    let mut b = vec![];
    std::io::stdin().read_to_end(&mut b).unwrap();
    let w: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let Some(Calls(calls)) = Calls::from_words(&w) else { fatal("eval: bad input") };
    let n = calls.len();
    let mut out = vec![0u64; n];
    match mode {
        "forward" => out.iter_mut().zip(&calls).for_each(|(o, c)| *o = call(c)),
        "reverse" => (0..n).rev().for_each(|i| out[i] = call(&calls[i])),
        "repeat" => {
            // the last of several evaluations; a first pass has warmed whatever there is to warm
            for c in &calls {
                call(c);
            }
            for i in 0..n {
                let first = call(&calls[i]);
                out[i] = if call(&calls[i]) == first { first } else { 0xBAD0_0000_0000_0000 | i as u64 };
            }
        }
        _ => {
            let barrier = std::sync::Barrier::new(8);
            let all: Vec<Vec<u64>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..8usize)
                    .map(|t| {
                        let (calls, barrier) = (&calls, &barrier);
                        s.spawn(move || {
                            let mut o = vec![0u64; n];
                            barrier.wait();
                            for j in 0..n {
                                // half of the threads start together, the others are spread over the list
                                let i = (j + if t % 2 == 0 { 0 } else { t * n / 8 }) % n;
                                o[i] = call(&calls[i]);
                            }
                            o
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for i in 0..n {
                let v = all[0][i];
                out[i] = if all.iter().all(|o| o[i] == v) { v } else { 0xBAD0_0000_0000_0000 | i as u64 };
            }
        }
    }
    let mut o = Vec::with_capacity(8 * n);
    for v in out {
        o.extend_from_slice(&v.to_le_bytes());
    }
    std::io::stdout().write_all(&o).unwrap();
}

extern "C" {
    fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
}
fn ask(mode: &str, words: &[u64]) -> Vec<u64> {
    use std::process::{Command, Stdio};
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["eval", mode]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    if mode == "reverse" {
        // as different a surrounding as possible: no environment but any variable the code may know, another directory, one CPU
        static NAMES: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
        c.env_clear().current_dir("/").envs(NAMES.get_or_init(names_in_strings).iter().map(|n| (n, "1")));
        use std::os::unix::process::CommandExt;
        unsafe {
            c.pre_exec(|| {
                sched_setaffinity(0, 8, &1);
                Ok(())
            });
        }
    }
    let mut ch = c.spawn().unwrap_or_else(|e| fatal(&format!("cannot start the evaluating process: {e}")));
    let mut si = ch.stdin.take().unwrap();
    let mut b = Vec::with_capacity(8 * words.len());
    for w in words {
        b.extend_from_slice(&w.to_le_bytes());
    }
    // the child reads everything before it writes anything
    si.write_all(&b).unwrap_or_else(|e| fatal(&format!("evaluating process: {e}")));
    drop(si);
    let o = ch.wait_with_output().unwrap_or_else(|e| fatal(&format!("evaluating process: {e}")));
    o.stdout.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

#[derive(Clone)]
pub struct Calls(pub Vec<Call>);
impl std::fmt::Debug for Calls {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for c in self.0.iter().take(12) {
            write!(f, "{}({:?},{:?},{:?}) ", NAMES[(c.0 % N) as usize], c.1, c.2, c.3)?;
        }
        write!(f, "[{} calls]", self.0.len())
    }
}
impl Case for Calls {
    fn words(&self) -> Vec<u64> {
        self.0.iter().flat_map(|c| [c.0 as u64, c.1.to_bits(), c.2.to_bits(), c.3.to_bits()]).collect()
    }
    fn from_words(w: &[u64]) -> Option<Self> {
        (w.len() % 4 == 0).then(|| Calls(w.chunks(4).map(|c| (c[0] as u8, f64::from_bits(c[1]), f64::from_bits(c[2]), f64::from_bits(c[3]))).collect()))
    }
}

fn pure(c: &Calls) -> Verdict {
    let w = c.words();
    let n = c.0.len();
    let fwd = ask("forward", &w);
    if fwd.len() != n {
        return Verdict::fail("process", format!("the process evaluating the list died after {} of {n} results", fwd.len()));
    }
    let here: Vec<u64> = c.0.iter().map(call).collect();
    let mut cmp = vec![("a process with a longer history", here)];
    for m in ["reverse", "repeat", "threads"] {
        let o = ask(m, &w);
        if o.len() != n {
            return Verdict::fail("process", format!("mode {m}: the process died"));
        }
        cmp.push((m, o));
    }
    for (m, o) in &cmp {
        if let Some(i) = (0..n).find(|&i| o[i] != fwd[i]) {
            let k = &c.0[i];
            return Verdict::fail("differs", format!("{}({:?}, {:?}, {:?}), call {i} of {n}: not the same result in order and in `{m}`", NAMES[(k.0 % N) as usize], k.1, k.2, k.3));
        }
    }
    let distinct: std::collections::HashSet<_> = c.0.iter().map(|k| k.0).collect();
    Verdict::ok(if n < 100 { "short" } else { "long" }).with_nontrivial(n >= 10 && distinct.len() >= 2)
}

fn calls(max: usize) -> B<Calls> {
    let base = (
        prop_oneof![3 => 0u8..N, 2 => proptest::sample::select(&[0u8, 1, 2, 3, 5, 6, 15, 16, 17, 18, 19, 20, 21, 22][..])],
        prop_oneof![4 => uni(0.01, 30.0), 2 => nice(0.0, 20.0), 2 => logu(1e-3, 300.0), 1 => uni(-30.0, 0.0)],
        prop_oneof![4 => uni(0.01, 40.0), 2 => nice(0.1, 20.0), 2 => logu(1e-3, 150.0), 1 => uni(-30.0, 0.0)],
        prop_oneof![4 => uni(0.0, 1.0), 1 => logu(1e-12, 1.0), 1 => nice(0.0, 1.0)],
        // relatives of the call: the same function, arguments that nearly coincide
        proptest::collection::vec((-4i64..=4, -12.0..-1.0f64, 0u8..9), 0..4),
        any::<u32>(),
    )
        .prop_map(|(f, a, b, d, rel, at)| {
            let mut v = vec![(at, (f, a, b, d))];
            for (i, (k, e, how)) in rel.into_iter().enumerate() {
                let q = 10f64.powf(e);
                let c = match how {
                    0 => (f, ulps(a, k), b, d),
                    1 => (f, a, ulps(b, k), d),
                    2 => (f, a, b, ulps(d, k).clamp(0.0, 1.0)),
                    3 => (f, a * (1.0 + q), b, d),
                    4 => (f, a, b * (1.0 + q), d),
                    5 => (f, a, b, (d * (1.0 - q)).clamp(0.0, 1.0)),
                    6 => (f, b, a, d),
                    7 => (f, -a, b, d),
                    _ => (f ^ 1, a, b, d),
                };
                v.push((at.wrapping_add((i as u32 + 1) * if k < 0 { 1 } else { 0x1357_9bdf }), c));
            }
            v
        });
    proptest::collection::vec(base, 2..max)
        .prop_map(|v| {
            let mut v: Vec<_> = v.into_iter().flatten().collect();
            v.sort_by_key(|c| c.0);
            Calls(v.into_iter().map(|c| c.1).collect())
        })
        .boxed()
}

/// A very long run of calls of one function: every result of a fixed set of calls stays what it was at first.
fn endurance(c: &(u32, f64)) -> Verdict {
    let f = (c.0 % N as u32) as u8;
    let name = NAMES[f as usize];
    let mut r = Mix(c.1.to_bits());
    let arg = |r: &mut Mix| {
        let one = |r: &mut Mix| match r.next() % 4 {
            0 => (r.next() % 40) as f64 * 0.5,
            1 => r.unit() * 30.0,
            2 => (r.unit() * 10.0 - 7.0).exp(),
            _ => (r.next() % 20) as f64 + 0.25,
        };
        (f, one(r), one(r), r.unit())
    };
    let fixed: Vec<Call> = (0..61).map(|_| arg(&mut r)).collect();
    let first: Vec<u64> = fixed.iter().map(call).collect();
    let total = if (15..=22).contains(&f) || f >= 32 || [4, 7].contains(&f) { 200_000 } else { 500_000 };
    let t0 = std::time::Instant::now();
    for i in 0..total {
        let j = i % fixed.len();
        let v = call(&fixed[j]);
        if v != first[j] {
            let k = &fixed[j];
            return Verdict::fail(name, format!("{name}({:?}, {:?}, {:?}) changed after {} calls", k.1, k.2, k.3, 2 * i));
        }
        // interleaved with calls not made before
        call(&arg(&mut r));
        if i % 1024 == 0 && t0.elapsed().as_secs() >= 20 {
            break;
        }
    }
    Verdict::ok(name)
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C31",
        rule: "lists of up to several hundred calls over all public functions, with clusters of calls of one function whose arguments nearly coincide and calls that panic; each list is evaluated in fresh processes forwards, backwards (another environment and directory, one CPU), repeatedly, by 8 threads at once, and in the long-lived checking process, and all results are compared bit by bit. Non-trivial: at least 10 calls of at least 2 functions.",
        laws: vec![
            law("short histories", 1_200, || calls(12), pure),
            law("long histories", 600, || calls(120), pure),
            law("very long runs of one function", 160, || (0u32..N as u32, uni(0.0, 1.0)).boxed(), endurance),
        ],
    }]
}
