mod core;
mod gen;
mod mem;
mod oracle;
mod props;
mod slots;

use crate::core::{json_str, LawReport, Property, Tier};
use std::fmt::Write as _;
use std::process::{exit, Command};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

/// Where the framework lives: check.sh says; otherwise where it was built.
fn root() -> String {
    std::env::var("PCHECK_ROOT").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/..").into())
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}
fn seed() -> u64 {
    env_u64("VERIF_SEED", 1)
}
fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}
fn find(id: &str) -> Property {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| core::fatal(&format!("no property {id}")))
}
/// The code under test is built twice: `checked` (debug assertions and overflow checks, the build that runs all cases) and
/// `plain` (neither, as users ship it, and with fused multiply-add where the CPU has it), which runs a share of them first.
const PLAIN_SHARE: f64 = 0.25;
fn plain() -> bool {
    !cfg!(debug_assertions)
}
fn build_name() -> &'static str {
    if plain() {
        "plain"
    } else {
        "checked"
    }
}

/// How many further cases the error-maximising search may evaluate.
fn climb(cases: u64) -> u64 {
    cases / 4
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_else(|| core::fatal("usage: pcheck run|work|replay|explore|selftest|list ..."));
    match arg(1).as_str() {
        "eval" => props::purity::eval_child(&arg(2)),
        "run" => supervise(&arg(2)),
        "work" => work(&arg(2), &arg(3)),
        "one" => one(&arg(2), &arg(3), a[4..].iter().map(|w| u64::from_str_radix(w, 16).unwrap()).collect()),
        "replay" => replay(&arg(2)),
        "selftest" => selftest(),
        "lines" => gen::print_lines(),
        "list" => {
            for p in props::all() {
                for l in p.laws {
                    println!("{} {} quick={} thorough={}", p.id, l.name(), l.cases(Tier::Quick) * props::weight(p.id), l.cases(Tier::Thorough) * props::weight(p.id));
                }
            }
        }
        "explore" => explore(&arg(2), a.get(3).map(|s| s.parse().unwrap()).unwrap_or(1.0)),
        _ => core::fatal("unknown command"),
    }
}

/// Development aid: run the laws without stopping, print the error profile.
fn explore(id: &str, scale: f64) {
    for p in props::all() {
        if id != "all" && id != p.id {
            continue;
        }
        for (i, l) in p.laws.iter().enumerate() {
            let n = (l.cases(Tier::Quick) as f64 * scale) as u64;
            let r = core::run_law(p.id, i as u64, l.as_ref(), seed(), n, climb(n), false);
            println!("== {} {} evals={} climbed={} screened={} differed={} distinct_nontrivial={} {:.1}s", p.id, r.name, r.evals, r.climbed, r.screened, r.differed, r.distinct_nontrivial, r.wall);
            for (k, c) in &r.classes {
                println!("   {:18} n={:8} nt={:8} max_ratio={:10.3e} worst={}", k, c.n, c.nontrivial, c.max_ratio, c.worst);
            }
        }
    }
}

// ------------------------------------------------------------------ known findings
/// Lines `finding: property=<id> law="<law>" case=<hex words> <text>`; `fixed:` lines suppress nothing.
struct Finding {
    law: String,
    words: Vec<u64>,
    text: String,
}
fn findings(id: &str) -> Vec<Finding> {
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines().filter_map(|l| l.strip_prefix(&format!("finding: property={id} law=\""))) {
        let Some((law, rest)) = l.split_once("\" case=") else { core::fatal("known-findings.txt: bad line") };
        let (w, text) = rest.split_once(' ').unwrap_or((rest, ""));
        v.push(Finding { law: law.into(), words: w.split(',').map(|x| u64::from_str_radix(x, 16).unwrap()).collect(), text: text.into() });
    }
    v
}

// ------------------------------------------------------------------ the working process
fn work(id: &str, slot_file: &str) {
    let t0 = Instant::now();
    let (seed, tier) = (seed(), tier());
    let p = find(id);
    core::set_deadline(Duration::from_secs(match tier {
        Tier::Quick if plain() => 100,
        Tier::Quick => 300,
        Tier::Thorough if plain() => 3600,
        Tier::Thorough => 5 * 3600,
    }));
    if !slots::open(slot_file) {
        core::fatal("cannot map the slot file");
    }
    let known = findings(id);
    for k in &known {
        let Some(l) = p.laws.iter().find(|l| l.name() == k.law) else { core::fatal("known-findings.txt names no law") };
        match l.replay(&k.words) {
            _ if plain() => {}
            Some((shown, v)) if v.bad() => println!("KNOWN-FINDING: property={id} {} [{shown}: {}]", k.text, v.detail),
            Some(_) => println!("note: property={id} listed finding no longer fails: {}", k.text),
            None => core::fatal("known-findings.txt: bad case"),
        }
    }
    let mut reps: Vec<LawReport> = vec![];
    let mut fail: Option<String> = None;
    let mut violations = 0;
    for (i, l) in p.laws.iter().enumerate() {
        let n = (l.cases(tier) as f64 * props::weight(id) as f64 * if plain() { PLAIN_SHARE } else { 1.0 }) as u64;
        if n == 0 {
            continue;
        }
        let r = core::run_law(p.id, i as u64, l.as_ref(), seed, n, climb(n), true);
        println!("{id} [{}] {}: {} cases ({} by error climbing; {} more compared with the frozen copy, {} differed), {} distinct non-trivial, worst error/tolerance {:.3}, {:.1}s", build_name(), r.name, r.evals, r.climbed, r.screened, r.differed, r.distinct_nontrivial, r.classes.values().map(|c| c.max_ratio).fold(0.0, f64::max), r.wall);
        if let Some((words, shown, detail)) = &r.failure {
            if known.iter().any(|k| k.law == r.name && k.words == *words) {
                // already reported above, exactly this case
            } else {
                violations += 1;
                let path = write_replay(id, i, r.name, words, shown, detail);
                println!("  {shown}\n  {detail}");
                fail.get_or_insert(path);
            }
        }
        reps.push(r);
        if fail.is_some() {
            break;
        }
    }
    let (evals, nt) = reps.iter().fold((0, 0), |a, r| (a.0 + r.evals, a.1 + r.distinct_nontrivial));
    if plain() && fail.is_none() {
        let note = format!("before, {evals} evaluations ({nt} distinct non-trivial cases) in the build without debug assertions and overflow checks, in {:.1} s", t0.elapsed().as_secs_f64());
        if let Ok(f) = std::env::var("PCHECK_NOTE") {
            let _ = std::fs::write(f, note);
        }
        return;
    }
    let note = std::fs::read_to_string(format!("{slot_file}.plain")).unwrap_or_default();
    write_evidence(&p, seed, tier, &reps, t0.elapsed().as_secs_f64(), violations, if plain() { "violated in the build without debug assertions and overflow checks" } else { &note });
    if let Some(path) = fail {
        println!("VIOLATION property={id} replay={path}");
        exit(1);
    }
}

fn write_replay(id: &str, law: usize, name: &str, words: &[u64], shown: &str, detail: &str) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let h = words.iter().fold(law as u64, |h, w| (h.rotate_left(9) ^ w).wrapping_mul(0x9E3779B97F4A7C15));
    let path = format!("{}/{id}-{law}-{h:016x}.replay", std::fs::canonicalize(&dir).map(|p| p.display().to_string()).unwrap_or(dir));
    let w: Vec<String> = words.iter().map(|w| format!("{w:x}")).collect();
    let s = format!("property {id}\nbuild {}\nlaw {law} {name}\nwords {}\ncase {shown}\ndetail {}\n# replay with: /verif/check.sh replay <this file>\n", build_name(), w.join(","), detail.replace('\n', " "));
    if std::fs::write(&path, s).is_err() {
        core::fatal("cannot write the replay file");
    }
    path
}

fn write_evidence(p: &Property, seed: u64, tier: Tier, reps: &[LawReport], wall: f64, violations: u32, note: &str) {
    let evals: u64 = reps.iter().map(|r| r.evals).sum();
    let nt: u64 = reps.iter().map(|r| r.distinct_nontrivial).sum();
    let samples: Vec<String> = reps.iter().flat_map(|r| r.samples.iter().map(|s| json_str(&s.chars().take(600).collect::<String>()))).collect();
    let mut laws = vec![];
    for r in reps {
        let mut cl = vec![];
        for (k, c) in &r.classes {
            let mr = if c.max_ratio.is_finite() { format!("{:.4}", c.max_ratio) } else { "\"inf\"".into() };
            cl.push(format!("{}: {{\"cases\": {}, \"nontrivial\": {}, \"worst_error_over_tolerance\": {mr}, \"worst_case\": {}}}", json_str(k), c.n, c.nontrivial, json_str(&c.worst.chars().take(200).collect::<String>())));
        }
        laws.push(format!(
            "{{\"law\": {}, \"evaluations\": {}, \"by_error_climbing\": {}, \"screened_only\": {}, \"screened_differing\": {}, \"distinct_nontrivial\": {}, \"wall_s\": {:.2}, \"violated\": {}, \"classes\": {{{}}}}}",
            json_str(r.name), r.evals, r.climbed, r.screened, r.differed, r.distinct_nontrivial, r.wall, r.failure.is_some(), cl.join(", ")
        ));
    }
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {nt},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"note\": {},\n  \"laws\": [\n   {}\n  ]\n }},\n \"assumptions\": [\"the quad-precision oracle (harness/oracle/oracle.c, validated against mpmath) and the reference relations are right\", \"the sampled cases represent the rest of the stated domain\"],\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n",
        json_str(p.id),
        json_str(if tier == Tier::Quick { "quick" } else { "thorough" }),
        json_str(p.rule),
        samples.join(", "),
        json_str(note),
        laws.join(",\n   ")
    );
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{dir}/{}.json", p.id), s).is_err() {
        core::fatal("cannot write the evidence file");
    }
}

// ------------------------------------------------------------------ the supervising process
#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(r: i32, l: *const Rlimit) -> i32;
}
const REPLAY_CPU: u64 = 90;
const STALL: Duration = Duration::from_secs(100);

fn limited(c: &mut Command) -> &mut Command {
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(|| {
            setrlimit(0, &Rlimit { cur: REPLAY_CPU, max: REPLAY_CPU + 5 });
            setrlimit(9, &Rlimit { cur: 8 << 30, max: 8 << 30 });
            Ok(())
        })
    }
}

fn supervise(id: &str) {
    let t0 = Instant::now();
    let p = find(id);
    let tier = tier();
    let limit = Duration::from_secs(match tier {
        Tier::Quick if plain() => 300,
        Tier::Quick => 700,
        Tier::Thorough => 6 * 3600,
    });
    let exe = std::env::current_exe().unwrap();
    let sf = std::env::temp_dir().join(format!("pcheck-{}-{id}.slots", std::process::id()));
    let _ = std::fs::remove_file(&sf);
    let sfs = sf.display().to_string();
    if !slots::open(&sfs) {
        core::fatal("cannot create the slot file");
    }
    // the other build first; it supervises itself
    if let Some(other) = std::env::var_os("PCHECK_PLAIN") {
        let st = Command::new(&other).args(["run", id]).env_remove("PCHECK_PLAIN").env("PCHECK_NOTE", format!("{sfs}.plain")).status();
        match st.ok().and_then(|s| s.code()) {
            Some(0) => {}
            Some(c) => {
                let _ = std::fs::remove_file(&sf);
                exit(c)
            }
            None => core::fatal("the plain build died"),
        }
    }
    let mut ch = Command::new(&exe).args(["work", id, &sfs]).spawn().unwrap_or_else(|e| core::fatal(&format!("cannot start the working process: {e}")));
    let mut since: Vec<(u64, Instant)> = vec![(0, Instant::now()); slots::WORKERS];
    let finish = |code: i32| -> ! {
        let _ = std::fs::remove_file(&sf);
        let _ = std::fs::remove_file(format!("{sfs}.plain"));
        exit(code)
    };
    let stopped = loop {
        if let Some(st) = ch.try_wait().unwrap() {
            match st.code() {
                Some(c) => finish(c),
                None => break format!("died: {st}"),
            }
        }
        std::thread::sleep(Duration::from_millis(20));
        let mut stalled = false;
        for (i, s) in since.iter_mut().enumerate() {
            match slots::busy(i) {
                Some((q, ..)) if q == s.0 => stalled |= s.1.elapsed() > STALL,
                Some((q, ..)) => *s = (q, Instant::now()),
                None => *s = (0, Instant::now()),
            }
        }
        if stalled {
            let _ = ch.kill();
            let _ = ch.wait();
            break "does not terminate".to_string();
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            eprintln!("CHECK-ERROR: out of time");
            finish(3);
        }
    };
    // Which in-flight case does that? Each one again, alone, in a fresh process.
    let mut cands: Vec<(bool, u64, Vec<u64>)> = (0..slots::WORKERS)
        .filter_map(|i| slots::busy(i).map(|(q, l, w)| (!(q == since[i].0 && since[i].1.elapsed() > STALL / 2), l, w)))
        .collect();
    cands.sort();
    for (_, law, words) in cands {
        if t0.elapsed() > limit + Duration::from_secs(90) {
            break;
        }
        let ws: Vec<String> = words.iter().map(|w| format!("{w:x}")).collect();
        let st = limited(Command::new(&exe).args(["one", id, &law.to_string()]).args(&ws)).status();
        let what = match st {
            Ok(s) if s.code() == Some(0) || s.code() == Some(3) => continue,
            Ok(s) if s.code().is_some() => "violated".to_string(),
            Ok(s) => {
                use std::os::unix::process::ExitStatusExt;
                match s.signal() {
                    Some(24) => format!("does not terminate within {REPLAY_CPU} s of CPU time"),
                    other => format!("kills the process (signal {other:?})"),
                }
            }
            Err(_) => continue,
        };
        let name = p.laws[law as usize].name();
        let path = write_replay(id, law as usize, name, &words, "(see words)", &what);
        write_evidence(&p, seed(), tier, &[], t0.elapsed().as_secs_f64(), 1, &format!("the run stopped early: {stopped}; one case of law `{name}` {what}"));
        println!("{id} {name}: a case {what}\nVIOLATION property={id} replay={path}");
        finish(1);
    }
    eprintln!("CHECK-ERROR: the working process {stopped}, and no in-flight case reproduces it");
    finish(3)
}

/// One case, by words: exit 1 if it violates its law.
fn one(id: &str, law: &str, words: Vec<u64>) {
    let p = find(id);
    let l = law.parse().ok().and_then(|i: usize| p.laws.get(i)).unwrap_or_else(|| core::fatal("no such law"));
    let Some((shown, v)) = l.replay(&words) else { core::fatal("bad words") };
    println!("{id} {}: {shown}\n  [{}] error/tolerance = {:.3e} {}", l.name(), v.class, v.ratio, v.detail);
    if v.bad() {
        println!("  VIOLATED");
        exit(1);
    }
    println!("  holds");
}

fn replay(file: &str) {
    let t = std::fs::read_to_string(file).unwrap_or_else(|e| core::fatal(&format!("{file}: {e}")));
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(str::trim).unwrap_or_else(|| core::fatal("bad replay file")).to_string();
    let (id, law) = (get("property "), get("law "));
    let words: Vec<String> = get("words ").split(',').map(String::from).collect();
    let st = limited(Command::new(std::env::current_exe().unwrap()).args(["one", &id, law.split(' ').next().unwrap()]).args(&words)).status();
    match st.ok().map(|s| s.code()) {
        Some(Some(0)) => {}
        Some(Some(3)) | None => exit(3),
        _ => {
            println!("VIOLATION property={id} replay={file}");
            exit(1)
        }
    }
}

/// The oracle still produces the values that were validated against mpmath.
fn selftest() {
    let t = std::fs::read_to_string(format!("{}/harness/oracle/golden.txt", root())).unwrap_or_else(|e| core::fatal(&format!("golden.txt: {e}")));
    let (n, bad) = oracle::selftest(&t);
    println!("oracle self-test: {n} values, {bad} differ");
    if bad > 0 || n < 500 {
        core::fatal("the oracle does not reproduce its validated values");
    }
}
