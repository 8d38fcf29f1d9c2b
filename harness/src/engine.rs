//! The explorer: a check is a list of *families*, each a finite indexable space of cases.
//! Every case of every family is executed; a case is one model-checking problem (a history, a
//! schedule, a program to explore exhaustively). The first violated family stops the run, and the
//! lowest violating index of that family is reported, so the counterexample is deterministic and
//! the simplest (families are ordered and indexed simplest first).

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type CaseResult = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    /// Picks a bound by tier
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        if self == Tier::Quick { quick } else { thorough }
    }
}

/// Counters of one worker. Every number is measured while exploring.
#[derive(Default)]
pub struct Ctx {
    /// fingerprints of distinct model states
    pub states: HashSet<u64>,
    /// model transitions taken (edges of products, operations of histories)
    pub transitions: u64,
    /// complete executions of the real implementation compared with the model
    pub traces: u64,
    /// distinct observed outcomes with how often each was seen
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub want_sample: bool,
    pub state_cap_hit: bool,
}

const STATE_CAP: usize = 3_000_000;

pub fn fp<T: Hash + ?Sized>(t: &T) -> u64 {
    // Fixed keys: the fingerprint is the same on every run.
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Ctx {
    #[inline]
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.states.len() < STATE_CAP {
            self.states.insert(fp(t));
        } else {
            self.state_cap_hit = true;
        }
    }
    #[inline]
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    #[inline]
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn outcome(&mut self, o: &str) {
        if let Some(c) = self.outcomes.get_mut(o) {
            *c += 1;
        } else if self.outcomes.len() < 60 {
            self.outcomes.insert(o.to_string(), 1);
        }
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_sample && self.samples.len() < 3 {
            let s = f();
            // whole cases can be large (70000 states): keep the beginning
            self.samples.push(if s.chars().count() > 600 { s.chars().take(600).chain(" ...".chars()).collect() } else { s });
        }
    }
}

pub struct Family {
    pub name: String,
    /// what the indices range over, in words, with the bounds
    pub rule: String,
    pub count: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> CaseResult + Sync + Send>,
}

pub fn family<F>(name: &str, rule: String, count: u64, run: F) -> Family
where
    F: Fn(u64, &mut Ctx) -> CaseResult + Sync + Send + 'static,
{
    Family { name: name.to_string(), rule, count, run: Box::new(run) }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Runs `f`, turning a panic into `Err(message)`. Used where a panic is one of the behaviours the
/// property talks about.
pub fn panics<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

fn guarded(fam: &Family, idx: u64, ctx: &mut Ctx) -> CaseResult {
    match catch_unwind(AssertUnwindSafe(|| (fam.run)(idx, ctx))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

pub struct Check {
    pub property: &'static str,
    pub level: &'static str,
    pub assumptions: Vec<String>,
    pub families: fn(Tier) -> Vec<Family>,
}

struct Slot {
    fam: AtomicU64,
    idx: AtomicU64,
    /// milliseconds since start, +1; 0 = idle
    since: AtomicU64,
    /// the worker's CPU clock, and what it showed (in milliseconds) when the case was begun
    clock: AtomicU64,
    cpu_since: AtomicU64,
}

#[repr(C)]
struct TimeSpec { sec: i64, nsec: i64 }
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, time: *mut TimeSpec) -> i32;
}

/// The clock of the CPU time of the calling thread (0 if there is none)
fn own_cpu_clock() -> i32 {
    let mut c = 0;
    if unsafe { pthread_getcpuclockid(pthread_self(), &mut c) } == 0 { c } else { 0 }
}

/// Milliseconds on a thread's CPU clock (0 if it can't be read)
fn cpu_ms(clock: i32) -> u64 {
    let mut t = TimeSpec { sec: 0, nsec: 0 };
    if clock != 0 && unsafe { clock_gettime(clock, &mut t) } == 0 { t.sec as u64 * 1000 + t.nsec as u64 / 1_000_000 } else { 0 }
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()))
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || (0xd7ff..=0xe000).contains(&(c as u32)) || (c as u32) >= 0xfffe => {
                o.push_str(&format!("\\\\u{{{:x}}}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Report {
    families: Vec<(String, String, u64, u64, f64)>, // name, rule, count, executed, secs
    ctx: Ctx,
    violations: Vec<(String, u64, String)>,
    known: Vec<String>,
}

fn write_evidence(check: &Check, tier: Tier, rep: &Report, wall: f64, note: Option<&str>) {
    let c = &rep.ctx;
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!(" \"property\": {},\n", json_str(check.property)));
    s.push_str(&format!(" \"tier\": {},\n", json_str(if tier == Tier::Quick { "quick" } else { "thorough" })));
    s.push_str(&format!(" \"seed\": {},\n", env_u64("VERIF_SEED", 1)));
    s.push_str(&format!(" \"level\": {},\n", json_str(check.level)));
    s.push_str(" \"coverage\": {\n");
    let executed: u64 = rep.families.iter().map(|f| f.3).sum();
    let complete = rep.families.iter().all(|f| f.2 == f.3) && rep.violations.is_empty();
    s.push_str(&format!("  \"states\": {},\n", c.states.len()));
    if c.state_cap_hit {
        s.push_str("  \"states_note\": \"lower bound: fingerprint table of a worker was full; exploration itself was not cut\",\n");
    }
    s.push_str(&format!("  \"transitions\": {},\n", c.transitions));
    s.push_str(&format!("  \"traces_validated_against_impl\": {},\n", c.traces));
    s.push_str(&format!("  \"evaluations\": {},\n", executed));
    s.push_str(&format!("  \"distinct_nontrivial\": {},\n", c.states.len().min(c.traces as usize)));
    s.push_str(&format!("  \"rule\": {},\n", json_str("every index of every family below is executed against the real library and compared with the reference model; states are distinct model states (by fingerprint), transitions are model steps, traces are complete executions of the real code that were compared")));
    s.push_str(&format!("  \"exhaustive\": {},\n", complete));
    s.push_str("  \"families\": [\n");
    for (i, f) in rep.families.iter().enumerate() {
        s.push_str(&format!(
            "   {{\"name\": {}, \"space\": {}, \"cases\": {}, \"executed\": {}, \"wall_s\": {:.2}}}{}\n",
            json_str(&f.0), json_str(&f.1), f.2, f.3, f.4,
            if i + 1 < rep.families.len() { "," } else { "" }
        ));
    }
    s.push_str("  ],\n");
    s.push_str("  \"distinct_outcomes\": {");
    s.push_str(&c.outcomes.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    s.push_str("},\n");
    s.push_str("  \"samples\": [");
    s.push_str(&c.samples.iter().take(30).map(|x| json_str(x)).collect::<Vec<_>>().join(", "));
    s.push_str("]");
    if let Some(n) = note {
        s.push_str(&format!(",\n  \"note\": {}", json_str(n)));
    }
    s.push_str("\n },\n");
    s.push_str(" \"assumptions\": [");
    s.push_str(&check.assumptions.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", "));
    s.push_str("],\n");
    s.push_str(&format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, rep.violations.len()));
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let tmp = dir.join(format!(".{}.tmp", check.property));
    std::fs::write(&tmp, s).expect("cannot write evidence");
    std::fs::rename(&tmp, dir.join(format!("{}.json", check.property))).expect("cannot write evidence");
}

fn report_violation(check: &Check, tier: Tier, fam: &str, idx: u64, msg: &str) -> PathBuf {
    let dir = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.txt", check.property, fam.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), idx));
    let t = if tier == Tier::Quick { "quick" } else { "thorough" };
    let _ = std::fs::write(
        &path,
        format!(
            "property {}\ntier {}\nfamily {}\nindex {}\n\n{}\n\nReplay with: ./check.sh {} --replay {}\n",
            check.property, t, fam, idx, msg, check.property, path.display()
        ),
    );
    println!("--- {} {}#{}\n{}", check.property, fam, idx, msg);
    println!("VIOLATION property={} replay={}", check.property, path.display());
    path
}

/// Known findings: lines `finding: property=<id> case=<family>#<index> <what fails>` of the
/// committed file. `fixed:` lines suppress nothing.
fn known_findings(property: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("KNOWN_FINDINGS.txt");
    let mut out = vec![];
    if let Ok(text) = std::fs::read_to_string(p) {
        for l in text.lines() {
            if let Some(rest) = l.strip_prefix("finding: ") {
                let mut it = rest.splitn(3, ' ');
                let a = it.next().unwrap_or("");
                let b = it.next().unwrap_or("");
                let c = it.next().unwrap_or("");
                if a == format!("property={}", property) {
                    if let Some(case) = b.strip_prefix("case=") {
                        out.push((case.to_string(), c.to_string()));
                    }
                }
            }
        }
    }
    out
}

pub fn main(check: Check) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let mut tier = if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { Tier::Thorough } else { Tier::Quick };
    let mut only: Option<(String, u64)> = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--thorough" => tier = Tier::Thorough,
            "--quick" => tier = Tier::Quick,
            "--replay" => {
                i += 1;
                let t = std::fs::read_to_string(&args[i]).expect("cannot read the replay file");
                let mut fam = String::new();
                let mut idx = 0;
                for l in t.lines() {
                    if let Some(x) = l.strip_prefix("family ") { fam = x.to_string(); }
                    if let Some(x) = l.strip_prefix("index ") { idx = x.parse().unwrap(); }
                    if let Some(x) = l.strip_prefix("tier ") { tier = if x == "thorough" { Tier::Thorough } else { Tier::Quick }; }
                    if l.is_empty() { break; }
                }
                only = Some((fam, idx));
            }
            a => {
                eprintln!("unknown argument {}", a);
                std::process::exit(2);
            }
        }
        i += 1;
    }
    if let Ok(o) = std::env::var("MC_ONLY") {
        let mut it = o.rsplitn(2, '#');
        let idx = it.next().unwrap().parse().unwrap();
        only = Some((it.next().unwrap().to_string(), idx));
    }
    if std::env::var("MC_CHILD").is_ok() {
        child(check, tier, only)
    } else {
        parent(check, tier, only, &args)
    }
}

// ---------------------------------------------------------------------------------------------
// Parent: runs the exploration in a child process, so that a stack overflow, an abort or memory
// exhaustion of the code under test is attributed to the case that caused it.

fn spawn(args: &[String], tier: Tier, journal: &PathBuf, only: Option<&str>, mem_kb: u64) -> std::process::ExitStatus {
    let exe = std::env::current_exe().unwrap();
    let mut cmd = std::process::Command::new("/bin/sh");
    cmd.arg("-c").arg(format!("ulimit -c 0; ulimit -v {}; exec \"$0\" \"$@\"", mem_kb)).arg(exe);
    cmd.args(&args[1..]);
    cmd.env("MC_CHILD", "1");
    cmd.env("MC_JOURNAL", journal);
    cmd.env("VERIF_TIER", if tier == Tier::Quick { "quick" } else { "thorough" });
    if let Some(o) = only {
        cmd.env("MC_ONLY", o);
    }
    cmd.status().expect("cannot start the explorer")
}

fn parent(check: Check, tier: Tier, only: Option<(String, u64)>, args: &[String]) -> ! {
    let start = Instant::now();
    let journal = std::env::temp_dir().join(format!("mc-journal-{}-{}", check.property, std::process::id()));
    let _ = std::fs::write(&journal, vec![0xffu8; 16 * 64]);
    let only_s = only.as_ref().map(|(f, i)| format!("{}#{}", f, i));
    let mem = env_u64("MC_MEM_KB", 20 * 1024 * 1024);
    let st = spawn(args, tier, &journal, only_s.as_deref(), mem);
    let code = st.code();
    if let Some(c) = code {
        if c == 0 || c == 1 || c == 2 {
            let _ = std::fs::remove_file(&journal);
            std::process::exit(c);
        }
    }
    // The explorer died. Re-run the cases that were in progress, one at a time and alone.
    eprintln!("explorer ended abnormally ({:?}); isolating the case", st);
    let data = std::fs::read(&journal).unwrap_or_default();
    let _ = std::fs::remove_file(&journal);
    // Spaces may be made with the library's help: if even that does not work, it is what to report
    let st = spawn(args, tier, &journal, Some(&format!("{}#0", SETUP)), mem);
    let _ = std::fs::remove_file(&journal);
    match st.code() {
        Some(0) => {}
        Some(1) => std::process::exit(1),
        _ => setup_failed(&check, tier, &format!("the process making the spaces to explore died: {:?} (stack overflow, abort or memory)", st), start),
    }
    let fams = (check.families)(tier);
    let mut cands: Vec<(usize, u64)> = vec![];
    for s in data.chunks(16) {
        if s.len() == 16 {
            let f = u64::from_le_bytes(s[0..8].try_into().unwrap());
            let x = u64::from_le_bytes(s[8..16].try_into().unwrap());
            if (f as usize) < fams.len() {
                cands.push((f as usize, x));
            }
        }
    }
    cands.sort();
    cands.dedup();
    let mut rep = Report { families: vec![], ctx: Ctx::default(), violations: vec![], known: vec![] };
    for (f, x) in &cands {
        let name = &fams[*f].name;
        let j2 = std::env::temp_dir().join(format!("mc-journal2-{}-{}", check.property, std::process::id()));
        let _ = std::fs::write(&j2, vec![0xffu8; 16 * 64]);
        let st = spawn(args, tier, &j2, Some(&format!("{}#{}", name, x)), 6 * 1024 * 1024);
        let _ = std::fs::remove_file(&j2);
        match st.code() {
            Some(0) | Some(2) => {}
            Some(1) => std::process::exit(1), // the child has reported it
            _ => {
                let msg = format!("the process running this case alone died: {:?} (stack overflow, abort or more than 6 GB of memory)", st);
                report_violation(&check, tier, name, *x, &msg);
                rep.violations.push((name.clone(), *x, msg));
                rep.families.push((name.clone(), fams[*f].rule.clone(), fams[*f].count, 1, 0.0));
                rep.ctx.samples.push(format!("{}#{}", name, x));
                write_evidence(&check, tier, &rep, start.elapsed().as_secs_f64(), Some("exploration ended at a crashing case"));
                std::process::exit(1);
            }
        }
    }
    eprintln!("the crash did not recur when its cases were run alone: {:?}", cands);
    std::process::exit(2);
}

/// The making of the spaces to explore, as a case
const SETUP: &str = "setup";

fn setup_failed(check: &Check, tier: Tier, msg: &str, start: Instant) -> ! {
    report_violation(check, tier, SETUP, 0, msg);
    let mut rep = Report { families: vec![], ctx: Ctx::default(), violations: vec![(SETUP.into(), 0, msg.into())], known: vec![] };
    rep.families.push((SETUP.into(), "making the spaces to explore, as far as it needs the library".into(), 1, 1, 0.0));
    rep.ctx.samples.push(format!("{}#0", SETUP));
    write_evidence(check, tier, &rep, start.elapsed().as_secs_f64(), Some("the spaces to explore could not be made"));
    std::process::exit(1)
}

/// Makes the spaces on a thread of its own, which may panic or not come back
fn setup(check: &Check, tier: Tier) -> Result<Vec<Family>, String> {
    let (send, recv) = std::sync::mpsc::channel();
    let families = check.families;
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let r = std::panic::catch_unwind(move || families(tier)).map_err(|_| format!("making the spaces to explore panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())));
        let _ = send.send(r);
    }).expect("cannot start a thread");
    let limit = env_u64("MC_SETUP_S", 300);
    recv.recv_timeout(std::time::Duration::from_secs(limit)).unwrap_or_else(|_| Err(format!("making the spaces to explore did not end within {} s", limit)))
}

// ---------------------------------------------------------------------------------------------
// Child: explores.

fn child(check: Check, tier: Tier, only: Option<(String, u64)>) -> ! {
    std::panic::set_hook(Box::new(|info| {
        let m = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, loc));
    }));
    let start = Instant::now();
    let fams = match setup(&check, tier) { Ok(f) => Arc::new(f), Err(msg) => setup_failed(&check, tier, &msg, start) };
    if only.as_ref().map_or(false, |o| o.0 == SETUP) {
        println!("{}: the spaces to explore can be made", check.property);
        std::process::exit(0);
    }
    let known = known_findings(check.property);
    let mut rep = Report { families: vec![], ctx: Ctx::default(), violations: vec![], known: vec![] };
    // A case does not finish when it has computed for this long, or has been at it (however busy the machine) ten times as long
    let hang_ms = env_u64("MC_HANG_S", tier.pick(40, 150)) * 1000;
    let wall_cap = env_u64("MC_WALL_S", tier.pick(780, 6 * 3600));
    let threads = if only.is_some() { 1 } else { env_u64("MC_THREADS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4)) as usize };
    let journal: Option<Arc<File>> = std::env::var("MC_JOURNAL").ok().and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok()).map(Arc::new);

    let show_slow = std::env::var("MC_SLOW").is_ok();
    let names: HashSet<&String> = fams.iter().map(|f| &f.name).collect();
    assert!(names.len() == fams.len(), "duplicate family names");
    if let Some((ref f, _)) = only {
        if !names.contains(f) {
            eprintln!("no family {}", f);
            std::process::exit(2);
        }
    }

    for (fi, fam) in fams.iter().enumerate() {
        if let Some((ref f, _)) = only {
            if *f != fam.name { continue; }
        }
        let fstart = Instant::now();
        let skip: HashSet<u64> = known.iter().filter_map(|(c, _)| {
            let mut it = c.rsplitn(2, '#');
            let idx = it.next()?.parse::<u64>().ok()?;
            if it.next()? == fam.name { Some(idx) } else { None }
        }).collect();
        let next = Arc::new(AtomicU64::new(only.as_ref().map(|o| o.1).unwrap_or(0)));
        let limit = only.as_ref().map(|o| o.1 + 1).unwrap_or(fam.count);
        let stop_at = Arc::new(AtomicU64::new(u64::MAX));
        let executed = Arc::new(AtomicU64::new(0));
        let found: Arc<Mutex<Vec<(u64, String)>>> = Arc::new(Mutex::new(vec![]));
        let merged: Arc<Mutex<Vec<Ctx>>> = Arc::new(Mutex::new(vec![]));
        let slots: Arc<Vec<Slot>> = Arc::new((0..threads).map(|_| Slot { fam: AtomicU64::new(0), idx: AtomicU64::new(0), since: AtomicU64::new(0), clock: AtomicU64::new(0), cpu_since: AtomicU64::new(0) }).collect());
        let running = Arc::new(AtomicUsize::new(threads));
        let slowest_of: Arc<Mutex<Vec<(u64, u64)>>> = Arc::new(Mutex::new(vec![]));
        let timed_out = Arc::new(AtomicBool::new(false));
        let block = (fam.count / (threads as u64 * 128)).clamp(1, 2048);
        let sample_every = (fam.count / 3).max(1);
        for t in 0..threads {
            let (slowest_of, fams, next, stop_at, executed, found, merged, slots, running, timed_out, journal, skip) =
                (slowest_of.clone(), fams.clone(), next.clone(), stop_at.clone(), executed.clone(), found.clone(), merged.clone(), slots.clone(), running.clone(), timed_out.clone(), journal.clone(), skip.clone());
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let fam = &fams[fi];
                let mut ctx = Ctx::default();
                let mut slowest = (0u64, 0u64);
                let clock = own_cpu_clock();
                slots[t].clock.store(clock as i64 as u64, Ordering::Relaxed);
                'outer: loop {
                    let lo = next.fetch_add(block, Ordering::Relaxed);
                    if lo >= limit { break; }
                    for idx in lo..(lo + block).min(limit) {
                        if idx >= stop_at.load(Ordering::Relaxed) || timed_out.load(Ordering::Relaxed) { break 'outer; }
                        if let Some(ref j) = journal {
                            let mut b = [0u8; 16];
                            b[0..8].copy_from_slice(&(fi as u64).to_le_bytes());
                            b[8..16].copy_from_slice(&idx.to_le_bytes());
                            let _ = j.write_all_at(&b, 16 * t as u64);
                        }
                        slots[t].fam.store(fi as u64, Ordering::Relaxed);
                        slots[t].idx.store(idx, Ordering::Relaxed);
                        let cpu_since = if show_slow || idx % 16 == 0 || fam.count < 100_000 { cpu_ms(clock) } else { slots[t].cpu_since.load(Ordering::Relaxed) };
                        slots[t].cpu_since.store(cpu_since, Ordering::Relaxed);
                        slots[t].since.store(start.elapsed().as_millis() as u64 + 1, Ordering::Release);
                        ctx.want_sample = idx % sample_every == sample_every / 2;
                        let r = guarded(fam, idx, &mut ctx);
                        slots[t].since.store(0, Ordering::Release);
                        if show_slow { slowest = slowest.max((cpu_ms(clock) - cpu_since, idx)); }
                        executed.fetch_add(1, Ordering::Relaxed);
                        if let Err(m) = r {
                            if skip.contains(&idx) { continue; }
                            found.lock().unwrap().push((idx, m));
                            stop_at.fetch_min(idx, Ordering::Relaxed);
                        }
                    }
                }
                merged.lock().unwrap().push(ctx);
                if show_slow { slowest_of.lock().unwrap().push(slowest); }
                running.fetch_sub(1, Ordering::Release);
            }).expect("cannot start a worker");
        }
        // Watchdog
        let mut hang: Option<u64> = None;
        let mut naps = 0u64;
        while running.load(Ordering::Acquire) > 0 {
            naps += 1;
            std::thread::sleep(Duration::from_millis(if naps < 200 { 1 } else { 50 }));
            let now = start.elapsed().as_millis() as u64 + 1;
            for s in slots.iter() {
                let since = s.since.load(Ordering::Acquire);
                if since == 0 || now <= since + hang_ms { continue; }
                let cpu = cpu_ms(s.clock.load(Ordering::Relaxed) as i64 as i32).saturating_sub(s.cpu_since.load(Ordering::Relaxed));
                if cpu > hang_ms || now > since + hang_ms * 10 {
                    let idx = s.idx.load(Ordering::Relaxed);
                    if s.since.load(Ordering::Acquire) == since {
                        hang = Some(hang.map_or(idx, |h: u64| h.min(idx)));
                    }
                }
            }
            if hang.is_some() { break; }
            if start.elapsed().as_secs() > wall_cap {
                timed_out.store(true, Ordering::Relaxed);
                eprintln!("wall cap of {} s reached in family {}: not a verdict", wall_cap, fam.name);
                std::process::exit(2);
            }
        }
        for c in merged.lock().unwrap().drain(..) {
            rep.ctx.states.extend(c.states);
            rep.ctx.transitions += c.transitions;
            rep.ctx.traces += c.traces;
            rep.ctx.state_cap_hit |= c.state_cap_hit;
            for (k, v) in c.outcomes { if rep.ctx.outcomes.len() < 120 || rep.ctx.outcomes.contains_key(&k) { *rep.ctx.outcomes.entry(k).or_insert(0) += v; } }
            for s in c.samples { if rep.ctx.samples.len() < 30 { rep.ctx.samples.push(format!("{}: {}", fam.name, s)); } }
        }
        let ex = executed.load(Ordering::Relaxed);
        if show_slow {
            let s = slowest_of.lock().unwrap().iter().cloned().max().unwrap_or((0, 0));
            eprintln!("{} {}: {} cases, {:.1} s, slowest case #{} {} ms", check.property, fam.name, ex, fstart.elapsed().as_secs_f64(), s.1, s.0);
        }
        rep.families.push((fam.name.clone(), fam.rule.clone(), fam.count, ex, fstart.elapsed().as_secs_f64()));
        let mut f = found.lock().unwrap().clone();
        f.sort();
        if let Some((idx, msg)) = f.into_iter().next() {
            // Same case again: a violation is expected to recur.
            let again = match hang { Some(_) => String::new(), None => match guarded(fam, idx, &mut Ctx::default()) {
                Err(m2) if m2 == msg => "\n(reproduced identically on an immediate second run)".to_string(),
                Err(m2) => format!("\n(a second run of the same case also failed, differently: {})", m2),
                Ok(()) => "\n(a second run of the same case passed: the implementation is nondeterministic on this case)".to_string(),
            }};
            report_violation(&check, tier, &fam.name, idx, &format!("{}{}", msg, again));
            rep.violations.push((fam.name.clone(), idx, msg));
            write_evidence(&check, tier, &rep, start.elapsed().as_secs_f64(), Some("stopped at the first violated family"));
            std::process::exit(1);
        }
        if let Some(idx) = hang {
            if !skip.contains(&idx) {
                let msg = format!("does not finish: this case has computed for more than {} s (cases of this family take well under a second)", hang_ms / 1000);
                report_violation(&check, tier, &fam.name, idx, &msg);
                rep.violations.push((fam.name.clone(), idx, msg));
            }
            write_evidence(&check, tier, &rep, start.elapsed().as_secs_f64(), Some("stopped at a case that does not finish"));
            std::process::exit(1);
        }
        for (c, what) in &known {
            let mut it = c.rsplitn(2, '#');
            it.next();
            if it.next() == Some(&fam.name) {
                rep.known.push(what.clone());
            }
        }
    }
    for k in &rep.known {
        println!("KNOWN-FINDING: property={} {}", check.property, k);
    }
    if only.is_none() {
        write_evidence(&check, tier, &rep, start.elapsed().as_secs_f64(), None);
    }
    let ex: u64 = rep.families.iter().map(|f| f.3).sum();
    println!(
        "{}: held on everything explored: {} cases in {} families, {} states, {} transitions, {} executions compared, {} distinct outcomes, {:.1} s",
        check.property, ex, rep.families.len(), rep.ctx.states.len(), rep.ctx.transitions, rep.ctx.traces, rep.ctx.outcomes.len(), start.elapsed().as_secs_f64()
    );
    if std::env::var("MC_VERBOSE").is_ok() {
        for f in &rep.families { println!("  {:28} {:>10} cases {:>8.2} s", f.0, f.3, f.4); }
        println!("  {} outcomes: {:?}", rep.ctx.outcomes.len(), rep.ctx.outcomes.iter().take(8).collect::<Vec<_>>());
    }
    std::process::exit(0)
}

// ---------------------------------------------------------------------------------------------
// Stateless exploration: every sequence of choices of a program that asks for them one at a time.

pub struct Chooser {
    script: Vec<usize>,
    taken: Vec<(usize, usize)>,
}

impl Chooser {
    /// One of 0..n
    pub fn choose(&mut self, n: usize) -> usize {
        let at = self.taken.len();
        let c = if at < self.script.len() { self.script[at] } else { 0 };
        self.taken.push((c, n));
        assert!(c < n, "the choices available changed between two runs of the same schedule");
        c
    }
}

/// Runs `f` once for every sequence of choices that starts with `prefix`. A prefix that names a
/// choice that is not available explores nothing.
pub fn explore<F: FnMut(&mut Chooser) -> CaseResult>(prefix: &[usize], mut f: F) -> CaseResult {
    let mut script = prefix.to_vec();
    // does the prefix exist?
    {
        let mut c = Chooser { script: vec![], taken: vec![] };
        c.script = prefix.to_vec();
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
        for (i, (v, n)) in c.taken.iter().enumerate() {
            if i < prefix.len() && v >= n { return Ok(()); }
        }
        match r {
            Err(_) => return Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
            Ok(r) => r?,
        }
        // shorter runs than the prefix belong to the prefix padded with zeros
        if c.taken.len() < prefix.len() {
            return Ok(());
        }
        if !advance(&mut script, &c.taken, prefix.len()) { return Ok(()); }
    }
    loop {
        let mut c = Chooser { script: script.clone(), taken: vec![] };
        f(&mut c)?;
        if !advance(&mut script, &c.taken, prefix.len()) { return Ok(()); }
    }
}

fn advance(script: &mut Vec<usize>, taken: &[(usize, usize)], keep: usize) -> bool {
    let mut i = taken.len();
    while i > keep {
        i -= 1;
        if taken[i].0 + 1 < taken[i].1 {
            *script = taken[..i].iter().map(|x| x.0).collect();
            script.push(taken[i].0 + 1);
            return true;
        }
    }
    false
}
