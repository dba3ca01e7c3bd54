//! Search engine: random choice sequences, parallel workers, crash attribution, shrinking,
//! replay files and evidence.
use crate::vm::OutOfSteps;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

// ---------------------------------------------------------------- choices

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

/// Source of all random choices of a case.
pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub log: Vec<u64>,
    /// Larger in the thorough tier: generators may build larger cases.
    pub scale: u64,
}

impl Src {
    pub fn new(seed: u64, scale: u64) -> Src {
        Src { state: seed, replay: None, pos: 0, log: Vec::new(), scale }
    }
    pub fn from_log(log: Vec<u64>, scale: u64) -> Src {
        Src { state: 0, replay: Some(log), pos: 0, log: Vec::new(), scale }
    }
    fn raw(&mut self) -> u64 {
        match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v
            }
            None => {
                self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
                mix(self.state)
            }
        }
    }
    pub fn u64(&mut self) -> u64 {
        let v = self.raw();
        self.log.push(v);
        v
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = self.raw() % n;
        self.log.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo.wrapping_add(self.below((hi.wrapping_sub(lo) as u64).wrapping_add(1).max(1)) as i64)
    }
    /// True with probability num/den.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total as u64) as u32;
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }
    /// Interesting 64-bit cell.
    pub fn cell(&mut self) -> i64 {
        match self.weighted(&[6, 5, 3, 3, 2, 2, 2]) {
            0 => self.range(0, 10),
            1 => -self.range(0, 20) + 4,
            2 => {
                let k = self.below(64);
                (1u64 << k) as i64
            }
            3 => {
                let k = self.below(64);
                ((1u64 << k) as i64).wrapping_add(self.range(-2, 2))
            }
            4 => *self.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, -1, u32::MAX as i64, i32::MIN as i64, i32::MAX as i64]),
            5 => {
                let k = self.below(63) + 1;
                (self.u64() >> k) as i64
            }
            _ => self.u64() as i64,
        }
    }
    pub fn small(&mut self) -> i64 {
        self.range(-9, 99)
    }
    pub fn float(&mut self) -> f64 {
        match self.weighted(&[5, 4, 3, 2, 2, 2]) {
            0 => self.range(-9, 20) as f64,
            1 => self.range(-4000, 4000) as f64 / *self.pick(&[2.0, 4.0, 8.0, 10.0, 3.0, 1000.0]),
            2 => self.cell() as f64,
            3 => *self.pick(&[
                0.0, -0.0, 0.5, -0.5, 1.5, 2.5, -2.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN,
                f64::MIN_POSITIVE, 5e-324, 0.49999999999999994, 4503599627370497.5, 9007199254740993.0, 9.3e18, -9.3e18, 1e300,
            ]),
            4 => f64::from_bits(self.u64()),
            _ => {
                let m = self.range(-1 << 52, 1 << 52) as f64;
                let e = self.range(-120, 20) as i32;
                m * 2f64.powi(e)
            }
        }
    }
}

// ---------------------------------------------------------------- results

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) { return $crate::engine::fail($sig, format!($($arg)*)); }
    };
}

/// Record the input of the case, only when somebody will read it.
#[macro_export]
macro_rules! note {
    ($ctx:expr, $($arg:tt)*) => {
        if $ctx.verbose { let s = format!($($arg)*); $ctx.add_note(&s); }
    };
}

pub struct Ctx {
    pub verbose: bool,
    pub notes: String,
    labels: Vec<&'static str>,
    nontrivial: bool,
    pub dir: PathBuf,
    pub thorough: bool,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    /// The case is non-trivial by the property's rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn add_note(&mut self, s: &str) {
        self.notes.push_str(s);
        if !s.ends_with('\n') {
            self.notes.push('\n');
        }
        shared_note(s);
    }
    /// A scratch directory of this process which exists.
    pub fn scratch(&self) -> &PathBuf {
        &self.dir
    }
}

pub struct Family {
    pub name: &'static str,
    /// Cases in the quick tier.
    pub quick: u64,
    /// Cases in the thorough tier.
    pub thorough: u64,
    pub run: fn(&mut Src, &mut Ctx) -> R,
}

pub struct Probe {
    /// Must fail with this signature while the finding is open.
    pub sig: &'static str,
    pub what: &'static str,
    pub run: fn(&mut Ctx) -> R,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub families: Vec<Family>,
    pub probes: Vec<Probe>,
    pub assumptions: Vec<&'static str>,
}

// ---------------------------------------------------------------- shared memory

const NOTE: usize = 48 * 1024;
const MSG: usize = 6 * 1024;
const MAXW: usize = 64;

#[repr(C)]
struct Slot {
    fam: AtomicU64,
    idx: AtomicU64,
    beat: AtomicU64,
    /// 0 running, 1 finished, 2 failed, 3 harness error
    state: AtomicU64,
    sig_len: AtomicU64,
    msg_len: AtomicU64,
    note_len: AtomicU64,
    sig: [u8; 512],
    msg: [u8; MSG],
    note: [u8; NOTE],
}

static SHM: AtomicU64 = AtomicU64::new(0);
static ME: AtomicU64 = AtomicU64::new(0);

fn slot(i: usize) -> &'static mut Slot {
    unsafe { &mut *((SHM.load(SeqCst) as *mut Slot).add(i)) }
}

fn init_shm() {
    let size = std::mem::size_of::<Slot>() * MAXW;
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
    };
    assert!(p as isize != -1);
    SHM.store(p as u64, SeqCst);
}

fn put(buf: &mut [u8], len: &AtomicU64, s: &str) {
    let n = s.len().min(buf.len());
    buf[..n].copy_from_slice(&s.as_bytes()[..n]);
    len.store(n as u64, SeqCst);
}

fn get(buf: &[u8], len: &AtomicU64) -> String {
    let n = (len.load(SeqCst) as usize).min(buf.len());
    String::from_utf8_lossy(&buf[..n]).into_owned()
}

fn shared_note(s: &str) {
    if SHM.load(SeqCst) == 0 {
        return;
    }
    let me = slot(ME.load(SeqCst) as usize);
    let at = me.note_len.load(SeqCst) as usize;
    let mut t = s.to_string();
    if !t.ends_with('\n') {
        t.push('\n');
    }
    let n = t.len().min(NOTE - at.min(NOTE));
    me.note[at..at + n].copy_from_slice(&t.as_bytes()[..n]);
    me.note_len.store((at + n) as u64, SeqCst);
}

// ---------------------------------------------------------------- one case

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub enum Outcome {
    Pass,
    Fail(Fail),
    Harness(String),
}

fn short_loc(loc: &str) -> &str {
    match loc.rfind("/src/") {
        Some(i) => &loc[i + 1..],
        None => loc,
    }
}

/// Is the location in the harness (not its host machine, whose accessors run on behalf of rtforth)?
fn is_harness_loc(loc: &str) -> bool {
    (loc.starts_with("src/") || loc.contains("/harness/src/")) && !loc.contains("src/vm.rs")
}

pub fn run_case(f: fn(&mut Src, &mut Ctx) -> R, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    guarded(|| f(src, ctx))
}

fn guarded(f: impl FnOnce() -> R) -> Outcome {
    crate::vm::AWAKE.with(|a| a.set(0));
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(e)) => Outcome::Fail(e),
        Err(payload) => {
            if payload.downcast_ref::<OutOfSteps>().is_some() {
                return Outcome::Fail(Fail {
                    sig: "endless".into(),
                    msg: "evaluation did not end within the step budget of a program that must terminate".into(),
                });
            }
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if is_harness_loc(&loc) && msg.contains("Os {") {
                // The environment (a full disk, no process): no verdict.
                Outcome::Harness(format!("{msg} at {loc}"))
            } else if is_harness_loc(&loc) {
                // What the code under test did cannot even be compared, such as a preparation which fails.
                Outcome::Fail(Fail { sig: "cannot go on".into(), msg: format!("{msg} at {loc}") })
            } else {
                let mut m: String = msg.lines().next().unwrap_or("").chars().take(100).collect();
                m = m.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
                let file = short_loc(&loc).split(':').next().unwrap_or("").to_string();
                let sig = if file.ends_with("memory.rs") && msg.ends_with("while space is full.") { "data space exhausted".to_string() } else { format!("panic {file} {m}") };
                Outcome::Fail(Fail { sig, msg: format!("panic: {msg} at {loc}") })
            }
        }
    }
}

// ---------------------------------------------------------------- driver

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub workers: usize,
    pub root: PathBuf,
    pub scale_cases: f64,
    pub only: Option<String>,
}

fn case_seed(seed: u64, prop: &str, fam: &str, idx: u64) -> u64 {
    mix(mix(seed ^ hash_str(prop)) ^ hash_str(fam).rotate_left(17) ^ mix(idx.wrapping_mul(0xD1342543DE82EF95)))
}

struct Known {
    prop: String,
    sig: String,
    what: String,
}

fn load_known(root: &PathBuf) -> Vec<Known> {
    let mut v = Vec::new();
    if let Ok(t) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for l in t.lines() {
            let Some(rest) = l.strip_prefix("finding: property=") else { continue };
            let Some((prop, rest)) = rest.split_once(" sig=[") else { continue };
            let Some((sig, what)) = rest.split_once("] ") else { continue };
            v.push(Known { prop: prop.trim().to_string(), sig: sig.to_string(), what: what.to_string() });
        }
    }
    v
}

fn families<'a>(p: &'a Property, o: &Opts) -> Vec<(&'a Family, u64)> {
    p.families
        .iter()
        .filter(|f| o.only.as_ref().map_or(true, |x| f.name == x))
        .map(|f| {
            let n = if o.thorough { f.thorough } else { f.quick };
            (f, ((n as f64 * o.scale_cases).ceil() as u64).max(1))
        })
        .collect()
}

fn now_ms() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

#[derive(Default)]
struct Stats {
    evals: HashMap<String, u64>,
    labels: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
}

fn make_ctx(dir: PathBuf, thorough: bool) -> Ctx {
    Ctx { verbose: false, notes: String::new(), labels: Vec::new(), nontrivial: false, dir, thorough }
}

/// Directory for files of process `tag`; created empty.
fn fresh_dir(tmp: &PathBuf, tag: &str) -> PathBuf {
    let d = tmp.join(tag);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch dir");
    d
}

fn log_hash(fam: &str, log: &[u64]) -> u64 {
    let mut h = hash_str(fam);
    for &v in log {
        h = mix(h ^ v).wrapping_add(h.rotate_left(7));
    }
    h
}

fn worker(p: &Property, o: &Opts, w: usize, tmp: &PathBuf, known: &[Known]) -> i32 {
    ME.store(w as u64, SeqCst);
    limit_memory();
    let me = slot(w);
    let dir = fresh_dir(tmp, &format!("w{w}"));
    std::env::set_current_dir(&dir).expect("chdir");
    crate::capture::start();
    install_hook();
    let mut st = Stats::default();
    let scale = if o.thorough { 2 } else { 1 };
    for (fi, (fam, n)) in families(p, o).iter().enumerate() {
        let mut idx = w as u64;
        me.fam.store(fi as u64, SeqCst);
        while idx < *n {
            me.idx.store(idx, SeqCst);
            me.beat.store(now_ms(), SeqCst);
            me.note_len.store(0, SeqCst);
            let mut src = Src::new(case_seed(o.seed, p.id, fam.name, idx), scale);
            let mut ctx = make_ctx(dir.clone(), o.thorough);
            ctx.verbose = idx == 3 || idx == n / 2;
            match run_case(fam.run, &mut src, &mut ctx) {
                Outcome::Pass => {
                    *st.evals.entry(fam.name.to_string()).or_default() += 1;
                    for l in &ctx.labels {
                        *st.labels.entry(format!("{}/{}", fam.name, l)).or_default() += 1;
                    }
                    if ctx.nontrivial {
                        st.hashes.insert(log_hash(fam.name, &src.log));
                    }
                    if ctx.verbose {
                        let mut s: String = ctx.notes.chars().take(1200).collect();
                        if s.len() < ctx.notes.len() {
                            s.push_str(" ...");
                        }
                        st.samples.push(format!("{} #{}: {}", fam.name, idx, s));
                    }
                }
                Outcome::Fail(f) => {
                    if let Some(k) = known.iter().find(|k| k.prop == p.id && k.sig == f.sig) {
                        *st.known.entry(k.sig.clone()).or_default() += 1;
                        *st.evals.entry(fam.name.to_string()).or_default() += 1;
                    } else {
                        put(&mut me.sig, &me.sig_len, &f.sig);
                        put(&mut me.msg, &me.msg_len, &f.msg);
                        me.state.store(2, SeqCst);
                        return 0;
                    }
                }
                Outcome::Harness(m) => {
                    put(&mut me.msg, &me.msg_len, &m);
                    me.state.store(3, SeqCst);
                    return 0;
                }
            }
            idx += o.workers as u64;
        }
    }
    // Results for the parent.
    let mut out = String::new();
    for (k, v) in &st.evals {
        let _ = writeln!(out, "E {v} {k}");
    }
    for (k, v) in &st.labels {
        let _ = writeln!(out, "L {v} {k}");
    }
    for (k, v) in &st.known {
        let _ = writeln!(out, "K {v} {k}");
    }
    for s in &st.samples {
        let _ = writeln!(out, "S {}", s.replace('\\', "\\\\").replace('\n', "\\n"));
    }
    std::fs::write(tmp.join(format!("res{w}")), out).expect("result");
    let mut bytes = Vec::with_capacity(st.hashes.len() * 8);
    for h in &st.hashes {
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(tmp.join(format!("hash{w}")), bytes).expect("hashes");
    me.state.store(1, SeqCst);
    0
}

/// Result of running one case in a child process.
#[derive(Clone)]
struct Trial {
    sig: Option<String>,
    msg: String,
    note: String,
    harness: bool,
    log: Vec<u64>,
}

fn signal_name(s: i32) -> &'static str {
    match s {
        libc::SIGSEGV => "SIGSEGV",
        libc::SIGBUS => "SIGBUS",
        libc::SIGABRT => "SIGABRT",
        libc::SIGILL => "SIGILL",
        libc::SIGFPE => "SIGFPE",
        libc::SIGKILL => "SIGKILL",
        libc::SIGALRM => "SIGALRM",
        _ => "signal",
    }
}

/// A case which asks for more than 3 GB fails by itself instead of ending other processes.
fn limit_memory() {
    let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}

/// Signature of a case which does not come to its end.
const HANG: &str = "hang";
/// Seconds after which a case (which takes some milliseconds) counts as hanging.
const HANG_S: u64 = 60;

fn child_trial(f: &dyn Fn(&mut Src, &mut Ctx) -> R, log: Option<Vec<u64>>, seed: u64, thorough: bool, tmp: &PathBuf, verbose: bool) -> Trial {
    timed_trial(f, log, seed, thorough, tmp, verbose, 20)
}

fn timed_trial(f: &dyn Fn(&mut Src, &mut Ctx) -> R, log: Option<Vec<u64>>, seed: u64, thorough: bool, tmp: &PathBuf, verbose: bool, seconds: u64) -> Trial {
    let me = slot(MAXW - 1);
    me.sig_len.store(0, SeqCst);
    me.msg_len.store(0, SeqCst);
    me.note_len.store(0, SeqCst);
    me.state.store(0, SeqCst);
    let logfile = tmp.join("triallog");
    let _ = std::fs::remove_file(&logfile);
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        ME.store((MAXW - 1) as u64, SeqCst);
        limit_memory();
        unsafe { libc::alarm(seconds as u32) };
        let dir = fresh_dir(tmp, "trial");
        std::env::set_current_dir(&dir).expect("chdir");
        crate::capture::start();
        install_hook();
        let scale = if thorough { 2 } else { 1 };
        let mut src = match log {
            Some(l) => Src::from_log(l, scale),
            None => Src::new(seed, scale),
        };
        let mut ctx = make_ctx(dir, thorough);
        ctx.verbose = verbose;
        let me = slot(MAXW - 1);
        match guarded(|| f(&mut src, &mut ctx)) {
            Outcome::Pass => me.state.store(1, SeqCst),
            Outcome::Fail(x) => {
                put(&mut me.sig, &me.sig_len, &x.sig);
                put(&mut me.msg, &me.msg_len, &x.msg);
                me.state.store(2, SeqCst);
            }
            Outcome::Harness(m) => {
                put(&mut me.msg, &me.msg_len, &m);
                me.state.store(3, SeqCst);
            }
        }
        let b: Vec<u8> = src.log.iter().flat_map(|v| v.to_le_bytes()).collect();
        let _ = std::fs::write(&logfile, b);
        unsafe { libc::_exit(0) };
    }
    let mut status = 0;
    unsafe { libc::waitpid(pid, &mut status, 0) };
    let note = get(&me.note, &me.note_len);
    let log = std::fs::read(&logfile)
        .map(|b| b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
        .unwrap_or_default();
    if libc::WIFSIGNALED(status) {
        let s = libc::WTERMSIG(status);
        if s == libc::SIGALRM {
            return Trial { sig: Some(HANG.into()), msg: format!("the case did not come to its end within {seconds} s"), note, harness: false, log };
        }
        if s == libc::SIGKILL {
            return Trial { sig: None, msg: "trial was killed".into(), note, harness: true, log };
        }
        return Trial {
            sig: Some(format!("crash {}", signal_name(s))),
            msg: format!("the host process died of {}", signal_name(s)),
            note,
            harness: false,
            log,
        };
    }
    match me.state.load(SeqCst) {
        2 => Trial { sig: Some(get(&me.sig, &me.sig_len)), msg: get(&me.msg, &me.msg_len), note, harness: false, log },
        3 => Trial { sig: None, msg: get(&me.msg, &me.msg_len), note, harness: true, log },
        _ => Trial { sig: None, msg: String::new(), note, harness: false, log },
    }
}

/// Choices of a case without running the code under test to its end (the log written before a crash
/// is lost, so it is regenerated by replaying with growing prefixes of the random sequence).
fn seed_log(seed: u64, n: usize) -> Vec<u64> {
    let mut s = Src::new(seed, 1);
    (0..n).map(|_| s.raw()).collect()
}

fn shrink(f: &dyn Fn(&mut Src, &mut Ctx) -> R, start: Vec<u64>, sig: &str, thorough: bool, tmp: &PathBuf) -> Vec<u64> {
    let t0 = Instant::now();
    let mut budget = 1500;
    let mut best = start;
    let mut ok = |cand: &Vec<u64>| -> Option<Vec<u64>> {
        if budget == 0 || t0.elapsed().as_secs() > 60 {
            return None;
        }
        budget -= 1;
        let t = timed_trial(f, Some(cand.clone()), 0, thorough, tmp, false, if sig == HANG { 4 } else { 20 });
        if t.sig.as_deref() == Some(sig) {
            // The choices actually used.
            if t.log.is_empty() {
                Some(cand.clone())
            } else {
                Some(if t.log.len() <= cand.len() { t.log } else { cand.clone() })
            }
        } else {
            None
        }
    };
    loop {
        let before = best.clone();
        // Remove chunks.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                c.drain(i..(i + size).min(c.len()));
                match ok(&c) {
                    Some(b) if b.len() < best.len() => best = b,
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero chunks, then lower single values.
        for size in [8usize, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|&v| v != 0) {
                    let mut c = best.clone();
                    for v in &mut c[i..e] {
                        *v = 0;
                    }
                    if let Some(b) = ok(&c) {
                        best = b;
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 1 {
                let (mut lo, mut hi) = (0u64, v); // lo fails to reproduce (or is untried), hi reproduces
                for _ in 0..8 {
                    if hi - lo <= 1 {
                        break;
                    }
                    let m = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    if i >= c.len() {
                        break;
                    }
                    c[i] = m;
                    match ok(&c) {
                        Some(b) => {
                            best = b;
                            hi = m;
                        }
                        None => lo = m,
                    }
                }
            }
            i += 1;
        }
        if best == before || t0.elapsed().as_secs() > 60 {
            break;
        }
    }
    best
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn check(p: &Property, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let tmp = std::env::temp_dir().join(format!("rtforth-verif-{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&tmp);
    std::fs::create_dir_all(&tmp).expect("scratch");
    let code = check_in(p, o, &tmp, t0);
    let _ = std::fs::remove_dir_all(&tmp);
    code
}

fn check_in(p: &Property, o: &Opts, tmp: &PathBuf, t0: Instant) -> i32 {
    init_shm();
    let known = load_known(&o.root);
    let fams = families(p, o);
    let mut pids = Vec::new();
    for w in 0..o.workers {
        slot(w).state.store(0, SeqCst);
        slot(w).beat.store(now_ms(), SeqCst);
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            // The parent is only reading; leave without running its destructors.
            let c = worker(p, o, w, tmp, &known);
            unsafe { libc::_exit(c) };
        }
        pids.push(Some(pid));
    }
    // Wait for the workers.
    let mut crashed: Vec<(usize, i32)> = Vec::new();
    let mut hung: Vec<usize> = Vec::new();
    while pids.iter().any(|p| p.is_some()) {
        let mut progressed = false;
        for w in 0..o.workers {
            if let Some(pid) = pids[w] {
                let mut status = 0;
                let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
                if r == pid {
                    pids[w] = None;
                    progressed = true;
                    if libc::WIFSIGNALED(status) {
                        crashed.push((w, libc::WTERMSIG(status)));
                    }
                } else if now_ms().saturating_sub(slot(w).beat.load(SeqCst)) > HANG_S * 1000 && !hung.contains(&w) {
                    hung.push(w);
                    unsafe { libc::kill(pid, libc::SIGKILL) };
                }
            }
        }
        if !progressed {
            std::thread::sleep(std::time::Duration::from_millis(20));
        }
    }
    for &w in &hung {
        eprintln!(
            "case {} #{} of {} did not finish within {HANG_S} s",
            fams[slot(w).fam.load(SeqCst) as usize].0.name,
            slot(w).idx.load(SeqCst),
            p.id
        );
    }
    for w in 0..o.workers {
        if slot(w).state.load(SeqCst) == 3 {
            eprintln!("error: harness failure in {} #{}: {}", fams[slot(w).fam.load(SeqCst) as usize].0.name, slot(w).idx.load(SeqCst), get(&slot(w).msg, &slot(w).msg_len));
        }
    }
    // The first failing case.
    let mut first: Option<(u64, u64, String, String)> = None;
    for w in 0..o.workers {
        let s = slot(w);
        let crash = crashed.iter().find(|c| c.0 == w);
        let (sig, msg) = if s.state.load(SeqCst) == 2 {
            (get(&s.sig, &s.sig_len), get(&s.msg, &s.msg_len))
        } else if let Some((_, sg)) = crash {
            if *sg == libc::SIGKILL {
                if !hung.contains(&w) {
                    eprintln!("error: worker {w} was killed");
                }
                continue;
            }
            (format!("crash {}", signal_name(*sg)), format!("the host process died of {}", signal_name(*sg)))
        } else {
            continue;
        };
        let c = (s.fam.load(SeqCst), s.idx.load(SeqCst), sig, msg);
        if first.as_ref().map_or(true, |f| (c.0, c.1) < (f.0, f.1)) {
            first = Some(c);
        }
    }
    // A case which hangs again when it runs alone.
    let mut seconds = 20;
    if first.is_none() {
        if let Some(&w) = hung.iter().min_by_key(|&&w| (slot(w).fam.load(SeqCst), slot(w).idx.load(SeqCst))) {
            let s = slot(w);
            first = Some((s.fam.load(SeqCst), s.idx.load(SeqCst), HANG.into(), format!("the case did not come to its end within {HANG_S} s")));
            seconds = HANG_S;
        }
    }
    let mut code = 0;
    let bad = slot_states(o.workers).contains(&3) || !hung.is_empty() || crashed.iter().any(|c| c.1 == libc::SIGKILL);
    let mut violations = 0;
    let first = first.and_then(|(fi, idx, sig, msg)| {
        let fam = fams[fi as usize].0;
        let seed = case_seed(o.seed, p.id, fam.name, idx);
        let f = |s: &mut Src, c: &mut Ctx| (fam.run)(s, c);
        let t = timed_trial(&f, None, seed, o.thorough, tmp, false, seconds);
        if sig == HANG && t.sig.is_none() {
            eprintln!("error: the case finishes when it runs alone");
            return None;
        }
        Some((fi, idx, sig, msg, t))
    });
    if let Some((fi, idx, sig, msg, t)) = first {
        let fam = fams[fi as usize].0;
        let seed = case_seed(o.seed, p.id, fam.name, idx);
        let f = |s: &mut Src, c: &mut Ctx| (fam.run)(s, c);
        let start = if !t.log.is_empty() { t.log.clone() } else { seed_log(seed, 4000) };
        let mut sig = sig;
        let mut final_log = start.clone();
        let mut reproduced = t.sig.is_some();
        if let Some(s) = &t.sig {
            sig = s.clone();
        }
        if reproduced {
            let t2 = timed_trial(&f, Some(start.clone()), 0, o.thorough, tmp, false, if sig == HANG { 4 } else { 20 });
            if t2.sig.as_deref() == Some(sig.as_str()) {
                final_log = shrink(&f, start, &sig, o.thorough, tmp);
            } else {
                reproduced = t2.sig.is_some();
            }
        }
        let last = child_trial(&f, Some(final_log.clone()), 0, o.thorough, tmp, true);
        let dir = o.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.replay", p.id, fam.name, idx));
        let mut text = String::new();
        let _ = writeln!(text, "property={}", p.id);
        let _ = writeln!(text, "family={}", fam.name);
        let _ = writeln!(text, "seed={} index={} tier={}", o.seed, idx, if o.thorough { "thorough" } else { "quick" });
        let _ = writeln!(text, "sig={sig}");
        let _ = writeln!(text, "choices={}", final_log.iter().map(|v| format!("{v:x}")).collect::<Vec<_>>().join(","));
        let _ = writeln!(text, "reproduced={reproduced}");
        let _ = writeln!(text, "--- first failure\n{msg}");
        let _ = writeln!(text, "--- shrunk failure\n{}", last.msg);
        let _ = writeln!(text, "--- shrunk case\n{}", last.note);
        let _ = std::fs::write(&path, text);
        let shown = |s: &str| s.chars().take(1500).collect::<String>();
        println!("{} {} case {}: {}", p.id, fam.name, idx, shown(&sig));
        println!("{}", shown(&last.msg));
        println!("{}", shown(&last.note));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        violations = 1;
        code = 1;
    } else if bad {
        code = 2;
    }
    // Known findings.
    for k in known.iter().filter(|k| k.prop == p.id) {
        let Some(pr) = p.probes.iter().find(|x| x.sig == k.sig) else { continue };
        let f = |_: &mut Src, c: &mut Ctx| (pr.run)(c);
        let t = child_trial(&f, None, 0, o.thorough, tmp, true);
        if t.sig.as_deref() == Some(k.sig.as_str()) {
            println!("KNOWN-FINDING: property={} {}", p.id, k.what);
        } else if t.harness {
            eprintln!("error: probe: {}", t.msg);
        } else if let Some(s) = t.sig {
            println!("{} probe of a known finding fails otherwise: {s}: {}", p.id, t.msg);
        }
    }
    // Evidence.
    let mut evals: BTreeMap<String, u64> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    for w in 0..o.workers {
        if let Ok(t) = std::fs::read_to_string(tmp.join(format!("res{w}"))) {
            for l in t.lines() {
                let (k, rest) = l.split_at(2);
                if k == "S " {
                    samples.push(rest.replace("\\n", "\n").replace("\\\\", "\\"));
                    continue;
                }
                let (n, name) = rest.split_once(' ').unwrap_or(("0", ""));
                let n: u64 = n.parse().unwrap_or(0);
                match k {
                    "E " => *evals.entry(name.into()).or_default() += n,
                    "L " => *labels.entry(name.into()).or_default() += n,
                    "K " => *knowns.entry(name.into()).or_default() += n,
                    _ => {}
                }
            }
        }
        if let Ok(b) = std::fs::read(tmp.join(format!("hash{w}"))) {
            for c in b.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let total: u64 = evals.values().sum();
    samples.truncate(12);
    let map = |m: &BTreeMap<String, u64>| {
        format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "))
    };
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"families\": {},\n    \"distribution\": {},\n    \"excluded_known_findings\": {},\n    \"samples\": [\n      {}\n    ]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        json_str(p.id),
        if o.thorough { "thorough" } else { "quick" },
        o.seed,
        total,
        hashes.len(),
        json_str(p.rule),
        map(&evals),
        map(&labels),
        map(&knowns),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n      "),
        p.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        violations
    );
    let dir = o.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{}.json", p.id)), ev).is_err() {
        eprintln!("error: cannot write evidence");
        return 2;
    }
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {:.1} s",
        p.id,
        if code == 0 { "ok" } else { "FAILED" },
        total,
        hashes.len(),
        t0.elapsed().as_secs_f64()
    );
    code
}

fn slot_states(n: usize) -> Vec<u64> {
    (0..n).map(|w| slot(w).state.load(SeqCst)).collect()
}

pub fn replay(props: &[Property], path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("error: {path}: {e}");
            return 2;
        }
    };
    let field = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
    let (pid, fname) = (field("property"), field("family"));
    let Some(p) = props.iter().find(|p| p.id == pid) else { return 2 };
    let Some(fam) = p.families.iter().find(|f| f.name == fname) else { return 2 };
    let log: Vec<u64> = field("choices").split(',').filter_map(|s| u64::from_str_radix(s, 16).ok()).collect();
    let thorough = field("seed").contains("tier=thorough");
    init_shm();
    let tmp = std::env::temp_dir().join(format!("rtforth-replay-{}", std::process::id()));
    std::fs::create_dir_all(&tmp).expect("scratch");
    let f = |s: &mut Src, c: &mut Ctx| (fam.run)(s, c);
    let r = child_trial(&f, Some(log), 0, thorough, &tmp, true);
    let _ = std::fs::remove_dir_all(&tmp);
    println!("{}", r.note);
    match r.sig {
        Some(s) => {
            println!("{s}\n{}", r.msg);
            println!("VIOLATION property={pid} replay={path}");
            1
        }
        None if r.harness => {
            eprintln!("error: {}", r.msg);
            2
        }
        None => {
            println!("{pid} {fname}: passes");
            0
        }
    }
}
