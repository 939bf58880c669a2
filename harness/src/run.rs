//! Case runner, watchdog, supervision, evidence.
use crate::dict::Dict;
use crate::rng::{mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn hexs(d: &[u8]) -> String {
    let n = d.len().min(12);
    let mut s: String = d[..n].iter().map(|b| format!("{:02x}", b)).collect();
    if d.len() > n {
        s.push_str("..");
    }
    s
}
pub fn hexall(d: &[u8]) -> String {
    d.iter().map(|b| format!("{:02x}", b)).collect()
}

// ------------------------------------------------------------------ per-thread record of one case
#[derive(Default)]
struct Rec {
    head: Vec<String>,
    tail: VecDeque<String>,
    n: u64,
    fp: u64,
    counts: BTreeMap<&'static str, u64>,
    slot: Option<Arc<Slot>>,
}
thread_local! { static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// while quiet, events are not kept (memory measurements, bulk traffic)
pub fn quiet(q: bool) {
    QUIET.with(|c| c.set(q))
}
thread_local! { static REC: RefCell<Rec> = RefCell::new(Rec::default()); }
const HEAD: usize = 160;
const TAIL: usize = 160;

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
/// where the last panic of this thread came from
pub fn panic_at() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// record one event of the execution
pub fn log(f: impl FnOnce() -> String) {
    if QUIET.with(|q| q.get()) {
        return;
    }
    crate::alloc::exempt(|| {
        let s = f();
        REC.with(|r| {
            let mut r = r.borrow_mut();
            r.n += 1;
            if r.head.len() < HEAD {
                r.head.push(s);
            } else {
                if r.tail.len() >= TAIL {
                    r.tail.pop_front();
                }
                r.tail.push_back(s);
            }
        })
    })
}
/// mix a fact into the fingerprint that tells distinct cases apart
pub fn fp(x: u64) {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.fp = mix(r.fp ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    })
}
pub fn count(k: &'static str, n: u64) {
    REC.with(|r| *r.borrow_mut().counts.entry(k).or_insert(0) += n)
}
pub fn op_tick() {
    REC.with(|r| {
        if let Some(s) = &r.borrow().slot {
            s.tick.fetch_add(1, SeqCst);
        }
    })
}
/// events recorded so far by helper threads can be merged through this
pub fn take_log() -> Vec<String> {
    REC.with(|r| {
        let r = r.borrow();
        let mut v = r.head.clone();
        let skipped = r.n as usize - r.head.len() - r.tail.len();
        if skipped > 0 {
            v.push(format!("... {} events not kept ...", skipped));
        }
        v.extend(r.tail.iter().cloned());
        v
    })
}
/// fingerprint so far
pub fn cur_fp() -> u64 {
    REC.with(|r| r.borrow().fp)
}
/// counters of this (helper) thread
pub fn take_counts() -> Vec<(&'static str, u64)> {
    REC.with(|r| std::mem::take(&mut r.borrow_mut().counts).into_iter().collect())
}
pub fn reset_rec() {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.head.clear();
        r.tail.clear();
        r.n = 0;
        r.fp = 0;
    })
}

// ------------------------------------------------------------------ what the library prints and says
use std::sync::atomic::AtomicI32;
static OUT: [AtomicI32; 3] = [AtomicI32::new(-1), AtomicI32::new(-1), AtomicI32::new(-1)];
/// from now on standard output and error go to memory
fn capture() {
    unsafe {
        let m = libc::syscall(libc::SYS_memfd_create, b"printed\0".as_ptr(), 0) as i32;
        if m < 0 {
            return;
        }
        for fd in 1..=2 {
            OUT[fd].store(libc::dup(fd as i32), SeqCst);
            libc::dup2(m, fd as i32);
        }
        OUT[0].store(m, SeqCst);
    }
}
fn release() {
    let _ = std::io::stdout().flush();
    for fd in 1..=2 {
        let o = OUT[fd].swap(-1, SeqCst);
        if o >= 0 {
            unsafe { libc::dup2(o, fd as i32) };
        }
    }
}
/// how much was printed so far
pub fn printed() -> usize {
    let _ = std::io::stdout().flush();
    let m = OUT[0].load(SeqCst);
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    if m < 0 || unsafe { libc::fstat(m, &mut st) } != 0 {
        return 0;
    }
    st.st_size as usize
}
/// what was printed since (by any thread)
pub fn printed_since(at: usize) -> Vec<u8> {
    let n = printed().saturating_sub(at).min(4 << 20);
    let mut v = vec![0u8; n];
    let m = OUT[0].load(SeqCst);
    let k = unsafe { libc::pread(m, v.as_mut_ptr() as *mut libc::c_void, n, at as i64) };
    v.truncate(k.max(0) as usize);
    v
}
thread_local! { static SAID: RefCell<Option<String>> = const { RefCell::new(None) }; }
/// keep the texts of errors and panics
pub fn listen() {
    SAID.with(|s| *s.borrow_mut() = Some(String::new()));
}
pub fn said() -> String {
    SAID.with(|s| s.borrow_mut().take()).unwrap_or_default()
}
/// the application's logger: every level is on, whatever is logged is made into text, and searched like an error
struct Ear;
impl log::Log for Ear {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        hear(&format!("{} {}", r.target(), r.args()));
    }
    fn flush(&self) {}
}
static EAR: Ear = Ear;

pub fn hear(t: &str) {
    let _ = SAID.try_with(|s| {
        if let Some(s) = s.borrow_mut().as_mut() {
            if s.len() < 1 << 20 {
                s.push_str(t);
                s.push('\n');
            }
        }
    });
}

// ------------------------------------------------------------------ cases
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
pub enum Fail {
    /// the property is broken; `sig` identifies what broke independently of random values
    Bad { sig: String, msg: String },
    /// the situation the property is about could not be set up
    Setup(String),
}
pub type CaseR = Result<(), Fail>;

pub fn bad<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Bad { sig: sig.into(), msg: msg.into() })
}
pub fn setup<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Setup(msg.into()))
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !$c {
            return $crate::run::bad($sig, format!($($a)*));
        }
    };
}

pub struct Ctx<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub tier: Tier,
    pub dict: &'a Dict,
    pub nontrivial: bool,
    /// further problems of the same case (used where a case goes on after a known finding)
    pub also: Vec<Fail>,
    pub seed: u64,
    /// payloads may now and then be much larger than asked for
    pub lift: bool,
    /// the next payload is much larger still
    pub giant: bool,
}

pub struct Prop {
    pub id: &'static str,
    pub f: fn(&mut Ctx) -> CaseR,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// an honest setup that does not work is itself a breach of this property
    pub setup_is_bad: bool,
    /// counters that must be at least this large, or the run is inconclusive
    pub floors: &'static [(&'static str, u64)],
    pub level: &'static str,
}

// ------------------------------------------------------------------ runner
#[derive(Default)]
pub struct Slot {
    tick: AtomicU64,
    busy: AtomicBool,
    idx: AtomicU64,
    tid: AtomicU64,
    /// the kernel's number of the thread
    lwp: AtomicU64,
}

#[derive(Clone)]
struct Viol {
    idx: u64,
    sig: String,
    msg: String,
    log: Vec<String>,
}

pub struct Opts {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub out: String,
    pub replay_dir: String,
    pub repo: String,
    pub cases: Option<u64>,
    pub cap: u64,
    pub only: Option<u64>,
    pub child: bool,
    pub threads: usize,
    pub label: String,
    pub known: String,
}

fn case_seed(prop: &str, seed: u64, idx: u64) -> u64 {
    let mut h = mix(seed);
    for b in prop.bytes() {
        h = mix(h ^ u64::from(b));
    }
    mix(h ^ idx)
}

extern "C" {
    fn pthread_getcpuclockid(t: libc::pthread_t, clk: *mut libc::clockid_t) -> libc::c_int;
}
fn thread_cpu_ns(pt: u64) -> Option<u64> {
    unsafe {
        let mut clk: libc::clockid_t = 0;
        if pthread_getcpuclockid(pt as libc::pthread_t, &mut clk) != 0 {
            return None;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clk, &mut ts) != 0 {
            return None;
        }
        Some(ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64)
    }
}

/// is the thread waiting for something (and not for the processor)?
fn sleeps(lwp: u64) -> bool {
    match std::fs::read_to_string(format!("/proc/self/task/{}/stat", lwp)) {
        Ok(s) => s.rsplit(')').next().map_or(false, |r| r.trim_start().starts_with('S')),
        Err(_) => false,
    }
}

fn js(s: &str) -> String {
    serde_json::to_string(s).unwrap_or_else(|_| "\"?\"".into())
}

fn write_replay(o: &Opts, v: &Viol) -> String {
    let _ = std::fs::create_dir_all(&o.replay_dir);
    let p = format!("{}/{}-{}-{}.json", o.replay_dir, o.prop, o.seed, v.idx);
    let body = format!(
        "{{\n\"property\": {},\n\"seed\": {},\n\"case\": {},\n\"tier\": {},\n\"build\": {},\n\"signature\": {},\n\"what\": {},\n\"rerun\": {},\n\"events\": [\n{}\n]}}\n",
        js(&o.prop),
        o.seed,
        v.idx,
        js(tier_name(o.tier)),
        js(&o.label),
        js(&v.sig),
        js(&v.msg),
        js(&format!("cd /verif && ./check {} --tier {} --seed {} --case {}", o.prop, tier_name(o.tier), o.seed, v.idx)),
        v.log.iter().map(|l| format!("  {}", js(l))).collect::<Vec<_>>().join(",\n")
    );
    let _ = std::fs::write(&p, body);
    p
}
pub fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

static KNOWN_FILE: std::sync::OnceLock<String> = std::sync::OnceLock::new();
/// is that a recorded finding of that (other) property?
pub fn known_there(prop: &str, sig: &str) -> bool {
    let w = format!("property={} sig={} ", prop, sig);
    KNOWN_FILE.get().map_or(false, |s| s.lines().any(|l| l.starts_with("KNOWN-FINDING:") && l.contains(&w)))
}

fn known_sigs(o: &Opts) -> Vec<(String, String)> {
    // lines "KNOWN-FINDING: property=<id> sig=<signature> <what fails>"
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(&o.known) {
        let _ = KNOWN_FILE.set(s.clone());
        for l in s.lines() {
            let l = l.trim();
            if let Some(r) = l.strip_prefix("KNOWN-FINDING:") {
                let mut it = r.trim().splitn(3, ' ');
                let p = it.next().unwrap_or("");
                let g = it.next().unwrap_or("");
                let w = it.next().unwrap_or("").to_string();
                if p == format!("property={}", o.prop) {
                    if let Some(g) = g.strip_prefix("sig=") {
                        v.push((g.to_string(), w));
                    }
                }
            }
        }
    }
    v
}

/// Parent: run the cases in a child process; a child killed by a signal is a finding about the
/// library if one of the cases in flight does it again alone.
pub fn supervise(p: &Prop, o: &Opts) -> i32 {
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(e) => {
            println!("ERROR cannot find own executable: {}", e);
            return 3;
        }
    };
    let crumb = std::env::temp_dir().join(format!("pkstl-mon-{}-{}", o.prop, std::process::id()));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let run = |only: Option<u64>| {
        let mut c = std::process::Command::new(&exe);
        c.args(&args).arg("--child").env("PKSTL_MON_CRUMB", &crumb);
        if let Some(i) = only {
            c.arg("--case").arg(i.to_string());
        }
        c.status()
    };
    let st = run(None);
    let code = match st {
        Err(e) => {
            println!("ERROR cannot start child: {}", e);
            3
        }
        Ok(s) => match (s.code(), s.signal()) {
            (Some(c), _) => c,
            (None, Some(sig)) => {
                println!("child ended by signal {}", sig);
                let mut b = vec![0u8; 8 * 64];
                let n = std::fs::File::open(&crumb).and_then(|f| f.read_at(&mut b, 0)).unwrap_or(0);
                let mut verdict = 3;
                for k in 0..n / 8 {
                    let mut a = [0u8; 8];
                    a.copy_from_slice(&b[8 * k..8 * k + 8]);
                    let i = u64::from_le_bytes(a);
                    if i == 0 {
                        continue;
                    }
                    let i = i - 1;
                    if let Ok(s) = run(Some(i)) {
                        let g = s.signal().unwrap_or(0);
                        // memory faults, aborts, illegal instructions: the library, not a lack of
                        // memory on this machine (SIGKILL)
                        if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(&g) {
                            let v = Viol {
                                idx: i,
                                sig: "process-killed".into(),
                                msg: format!("case {} ends the process with signal {}, twice", i, g),
                                log: vec![],
                            };
                            let path = write_replay(o, &v);
                            println!("{}", v.msg);
                            println!("VIOLATION property={} replay={}", o.prop, path);
                            write_evidence(p, o, &Totals { viols: 1, evals: i, ..Totals::default() });
                            verdict = 1;
                            break;
                        } else if s.code() == Some(1) {
                            verdict = 1;
                            break;
                        }
                    }
                }
                verdict
            }
            _ => 3,
        },
    };
    let _ = std::fs::remove_file(&crumb);
    code
}

#[derive(Default)]
struct Totals {
    evals: u64,
    distinct: u64,
    samples: Vec<String>,
    counts: BTreeMap<&'static str, u64>,
    setup: u64,
    viols: u64,
    known: Vec<String>,
    wall: f64,
    capped: bool,
}

fn write_evidence(p: &Prop, o: &Opts, t: &Totals) {
    let counters: Vec<String> =
        t.counts.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let samples: Vec<String> = t.samples.iter().map(|s| js(s)).collect();
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| js(s)).collect();
    let known: Vec<String> = t.known.iter().map(|s| js(s)).collect();
    let s = format!(
        "{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {},\n\"level\": {},\n\"coverage\": {{\n \"evaluations\": {},\n \"distinct_nontrivial\": {},\n \"rule\": {},\n \"samples\": [\n  {}\n ],\n \"observed\": {{ {} }},\n \"setups_that_failed\": {},\n \"stopped_by_time_cap\": {},\n \"known_findings_seen\": [{}],\n \"build\": {}\n}},\n\"assumptions\": [{}],\n\"wall_s\": {:.3},\n\"violations\": {}\n}}\n",
        js(&o.prop),
        js(tier_name(o.tier)),
        o.seed,
        js(p.level),
        t.evals,
        t.distinct,
        js(p.rule),
        samples.join(",\n  "),
        counters.join(", "),
        t.setup,
        t.capped,
        known.join(", "),
        js(&o.label),
        assumptions.join(", "),
        t.wall,
        t.viols
    );
    if let Some(d) = std::path::Path::new(&o.out).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if let Err(e) = std::fs::write(&o.out, s) {
        println!("ERROR cannot write evidence {}: {}", o.out, e);
    }
}

pub fn run(p: &'static Prop, o: Arc<Opts>) -> i32 {
    let t0 = crate::clock::now();
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        // (the thread may be ending)
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = l);
    }));
    let dict = Arc::new(Dict::load(&o.repo));
    let full = if o.tier == Tier::Quick { p.quick } else { p.thorough };
    let total = match o.cases {
        Some(c) => c,
        None => match o.tier {
            Tier::Quick => p.quick,
            Tier::Thorough => p.thorough,
        },
    };
    if p.id == "C18" {
        capture();
    }
    if o.label != "plain" && log::set_logger(&EAR).is_ok() {
        log::set_max_level(log::LevelFilter::Trace);
    }
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let viols: Arc<Mutex<Vec<Viol>>> = Arc::new(Mutex::new(Vec::new()));
    let setups: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(Vec::new()));
    let n_setup = Arc::new(AtomicU64::new(0));
    let evals = Arc::new(AtomicU64::new(0));
    let fps: Arc<Mutex<HashSet<u64>>> = Arc::new(Mutex::new(HashSet::new()));
    let samples: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(Vec::new()));
    let counts: Arc<Mutex<BTreeMap<&'static str, u64>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let known = Arc::new(known_sigs(&o));
    let known_seen: Arc<Mutex<BTreeMap<String, String>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let crumb = std::env::var("PKSTL_MON_CRUMB").ok().and_then(|c| {
        std::fs::OpenOptions::new().create(true).write(true).open(c).ok()
    });
    let crumb = Arc::new(crumb);
    let nthreads = if o.only.is_some() { 1 } else { o.threads };
    let live = Arc::new(AtomicUsize::new(nthreads));
    let capped = Arc::new(AtomicBool::new(false));
    let slots: Vec<Arc<Slot>> = (0..nthreads).map(|_| Arc::new(Slot::default())).collect();
    let mut hs = Vec::new();
    for w in 0..nthreads {
        let (next, stop, viols, evals, fps, samples, counts) = (
            next.clone(),
            stop.clone(),
            viols.clone(),
            evals.clone(),
            fps.clone(),
            samples.clone(),
            counts.clone(),
        );
        let (setups, n_setup, known, known_seen, crumb, live, capped) = (
            setups.clone(),
            n_setup.clone(),
            known.clone(),
            known_seen.clone(),
            crumb.clone(),
            live.clone(),
            capped.clone(),
        );
        let slot = slots[w].clone();
        let (o, dict) = (o.clone(), dict.clone());
        let b = std::thread::Builder::new().stack_size(16 << 20);
        let h = b.spawn(move || {
            slot.tid.store(unsafe { libc::pthread_self() } as u64, SeqCst);
            slot.lwp.store(unsafe { libc::syscall(libc::SYS_gettid) } as u64, SeqCst);
            REC.with(|r| r.borrow_mut().slot = Some(slot.clone()));
            loop {
                if stop.load(SeqCst) {
                    break;
                }
                if crate::clock::now() - t0 >= o.cap as f64 {
                    capped.store(true, SeqCst);
                    break;
                }
                let i = next.fetch_add(1, SeqCst);
                let idx = match o.only {
                    Some(k) if i == 0 => k,
                    Some(_) => break,
                    None if i >= total => break,
                    None => i,
                };
                if let Some(f) = crumb.as_ref() {
                    let _ = f.write_at(&(idx + 1).to_le_bytes(), 8 * w as u64);
                }
                slot.idx.store(idx, SeqCst);
                slot.tick.fetch_add(1, SeqCst);
                slot.busy.store(true, SeqCst);
                reset_rec();
                quiet(false);
                crate::clock::begin(case_seed(&o.prop, o.seed ^ 0xC10C, idx));
                let mut c = Ctx {
                    rng: Rng::new(case_seed(&o.prop, o.seed, idx)),
                    idx,
                    tier: o.tier,
                    dict: &dict,
                    nontrivial: false,
                    also: Vec::new(),
                    seed: o.seed,
                    lift: p.id != "C18" && p.id != "C20",
                    giant: p.id != "C18" && p.id != "C20" && idx % (full / 12).max(1) == 17,
                };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.f)(&mut c)));
                slot.busy.store(false, SeqCst);
                evals.fetch_add(1, SeqCst);
                let mut fails: Vec<Fail> = std::mem::take(&mut c.also);
                match r {
                    Ok(Ok(())) => (),
                    Ok(Err(f)) => fails.push(f),
                    Err(e) => {
                        let m = e
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        fails.push(Fail::Setup(format!("harness panic: {} at {}", m, panic_at())));
                    }
                }
                if c.nontrivial {
                    let f = REC.with(|r| r.borrow().fp);
                    let new = fps.lock().unwrap().insert(f);
                    if new && idx % 7 == 0 {
                        let mut s = samples.lock().unwrap();
                        if s.len() < 4 {
                            let mut l = take_log();
                            l.truncate(24);
                            s.push(format!("case {}: {}", idx, l.join(" | ")));
                        }
                    }
                }
                for f in fails {
                    let f = match f {
                        Fail::Bad { sig, msg } if sig == "model" => Fail::Setup(format!("harness: {}", msg)),
                        f => f,
                    };
                    match f {
                        Fail::Bad { sig, msg } => {
                            if let Some((_, w)) = known.iter().find(|(g, _)| *g == sig) {
                                known_seen.lock().unwrap().insert(sig, w.clone());
                                continue;
                            }
                            let mut v = viols.lock().unwrap();
                            if v.len() < 3 {
                                v.push(Viol { idx, sig, msg, log: take_log() });
                            }
                            stop.store(true, SeqCst);
                        }
                        Fail::Setup(m) => {
                            n_setup.fetch_add(1, SeqCst);
                            let mut s = setups.lock().unwrap();
                            if p.setup_is_bad {
                                let mut v = viols.lock().unwrap();
                                if v.len() < 3 && !m.starts_with("harness") {
                                    v.push(Viol {
                                        idx,
                                        sig: "setup".into(),
                                        msg: m.clone(),
                                        log: take_log(),
                                    });
                                    stop.store(true, SeqCst);
                                }
                            }
                            if s.len() < 3 {
                                s.push(format!("case {}: {}", idx, m));
                            }
                        }
                    }
                }
            }
            REC.with(|r| {
                let r = r.borrow();
                let mut c = counts.lock().unwrap();
                for (k, v) in &r.counts {
                    *c.entry(k).or_insert(0) += v;
                }
            });
            live.fetch_sub(1, SeqCst);
        });
        match h {
            Ok(h) => hs.push(h),
            Err(e) => {
                println!("ERROR cannot start worker: {}", e);
                return 3;
            }
        }
    }
    // watchdog: a single library call that burns more than LIMIT of thread CPU time
    let limit = 25_000_000_000u64 * if o.label.contains("san") { 6 } else { 1 };
    let patience = 4_000 * if o.label.contains("san") { 3 } else { 1 };
    let mut seen: Vec<(u64, u64)> = vec![(u64::MAX, 0); nthreads];
    let mut asleep: Vec<(u64, u64)> = vec![(0, 0); nthreads];
    while live.load(SeqCst) > 0 {
        std::thread::sleep(Duration::from_millis(15));
        for w in 0..nthreads {
            if !slots[w].busy.load(SeqCst) {
                continue;
            }
            let t = slots[w].tick.load(SeqCst);
            let pt = slots[w].tid.load(SeqCst);
            let cpu = match thread_cpu_ns(pt) {
                Some(c) => c,
                None => continue,
            };
            if seen[w].0 != t {
                seen[w] = (t, cpu);
                asleep[w] = (0, cpu);
                continue;
            }
            // asleep without a moment of work in between: it waits for something
            if cpu == asleep[w].1 && sleeps(slots[w].lwp.load(SeqCst)) {
                asleep[w].0 += 1;
            } else {
                asleep[w] = (0, cpu);
            }
            let why = if cpu.saturating_sub(seen[w].1) > limit {
                format!("a call did not return after {} s of CPU time", limit / 1_000_000_000)
            } else if asleep[w].0 > patience {
                "a call has been blocked for a minute without doing anything".to_string()
            } else {
                continue;
            };
            let idx = slots[w].idx.load(SeqCst);
            let v = Viol {
                idx,
                sig: "does-not-return".into(),
                msg: why,
                log: vec![],
            };
            let path = write_replay(&o, &v);
            release();
            println!("{}: {}", v.sig, v.msg);
            println!("VIOLATION property={} replay={}", o.prop, path);
            write_evidence(p, &o, &Totals { viols: 1, evals: evals.load(SeqCst), wall: (crate::clock::now() - t0), ..Totals::default() });
            let _ = std::io::stdout().flush();
            unsafe { libc::_exit(1) };
        }
    }
    for h in hs {
        let _ = h.join();
    }
    release();
    counts.lock().unwrap().insert("time-leaps", crate::clock::leaps());
    let viols = viols.lock().unwrap().clone();
    let t = Totals {
        evals: evals.load(SeqCst),
        distinct: fps.lock().unwrap().len() as u64,
        samples: samples.lock().unwrap().clone(),
        counts: counts.lock().unwrap().clone(),
        setup: n_setup.load(SeqCst),
        viols: viols.len() as u64,
        known: known_seen.lock().unwrap().iter().map(|(k, v)| format!("{} {}", k, v)).collect(),
        wall: (crate::clock::now() - t0),
        capped: capped.load(SeqCst),
    };
    write_evidence(p, &o, &t);
    println!(
        "{} [{}] seed={} cases={} distinct={} setup-failures={} wall={:.1}s{}",
        o.prop,
        o.label,
        o.seed,
        t.evals,
        t.distinct,
        t.setup,
        t.wall,
        if t.capped { " (time cap)" } else { "" }
    );
    println!(
        "observed: {}",
        t.counts.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" ")
    );
    for (k, w) in known_seen.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} sig={} {}", o.prop, k, w);
    }
    for s in setups.lock().unwrap().iter() {
        println!("setup failure: {}", s);
    }
    if !viols.is_empty() {
        for v in viols.iter() {
            let path = write_replay(&o, v);
            println!("case {}: {}: {}", v.idx, v.sig, v.msg);
            for l in v.log.iter().rev().take(12).rev() {
                println!("    {}", l);
            }
            println!("VIOLATION property={} replay={}", o.prop, path);
        }
        return 1;
    }
    if t.setup > 0 {
        println!("INCONCLUSIVE: the situation the property is about could not be set up");
        return 4;
    }
    if o.only.is_none() && o.cases.is_none() && !t.capped {
        for (k, m) in p.floors {
            if t.counts.get(k).copied().unwrap_or(0) < *m {
                println!("INCONCLUSIVE: too little observed: {} < {}", k, m);
                return 5;
            }
        }
    }
    0
}
