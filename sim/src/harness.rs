//! Everything that is independent of the simulated system: statistics, run reports, the worker
//! pool, minimisation, replay files, known findings and the evidence file.
use crate::rng::{hash_str, mix};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- entropy seam
pub static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
static ENTROPY: AtomicU64 = AtomicU64::new(0);

/// std's HashMap seeds come from here instead of the kernel: iteration order of the hash maps in
/// the code under test is a function of the simulation seed.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = ENTROPY.load(Ordering::SeqCst);
    for i in 0..len {
        s = mix(s.wrapping_add(i as u64));
        *buf.add(i) = s as u8;
    }
    len as isize
}

thread_local! {
    /// (code under test is running, its clock in ns since 1970, its monotonic clock in ns, reads)
    static SIM_CLOCK: std::cell::Cell<(bool, i64, i64, u64)> = const { std::cell::Cell::new((false, 0, 0, 0)) };
}
extern "C" {
    fn syscall(n: std::os::raw::c_long, ...) -> std::os::raw::c_long;
}
/// `std::time` inside the code under test reads this clock: it differs from run to run and from one
/// execution of a request to its re-execution, leaps ahead and steps back now and then. Everything
/// else in the process (time limits, watchdog) keeps the kernel's.
#[allow(suspicious_runtime_symbol_definitions)]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, tp: *mut [i64; 2]) -> i32 {
    let (on, wall, mono, n) = SIM_CLOCK.with(|c| c.get());
    if !on || id > 1 {
        return syscall(if cfg!(target_arch = "x86_64") { 228 } else { 113 }, id, tp) as i32;
    }
    let step = 1_000 + (mix(wall as u64) % 50_000) as i64;
    SIM_CLOCK.with(|c| c.set((on, wall + step, mono + step, n + 1)));
    let t = if id == 0 { wall } else { mono };
    *tp = [t / 1_000_000_000, t % 1_000_000_000];
    0
}
/// One call into the code under test under the simulated clock.
pub fn clocked<T>(f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            SIM_CLOCK.with(|c| {
                let (_, w, m, n) = c.get();
                c.set((false, w, m, n))
            });
        }
    }
    SIM_CLOCK.with(|c| {
        let (_, mut w, m, n) = c.get();
        if w == 0 {
            w = (1_600_000_000 + (mix(ENTROPY.load(Ordering::SeqCst)) % 200_000_000) as i64) * 1_000_000_000;
        }
        let h = mix(w as u64 ^ m as u64);
        let d = (h >> 8) as i64 & 0xf_ffff_ffff; // up to 69 s
        let jump = match h % 16 {
            0 => -d * 60,
            1 => d * 5_000,
            _ => d / 16,
        };
        c.set((true, w + jump, m + d / 16, n));
    });
    let _off = Off;
    f()
}
pub fn clock_reads() -> u64 {
    SIM_CLOCK.with(|c| c.get().3)
}

/// Runs `f` on a fresh thread whose hash maps are keyed by `entropy`.
pub fn with_entropy<T: Send + 'static>(entropy: u64, f: impl FnOnce() -> T + Send + 'static) -> T {
    ENTROPY.store(entropy, Ordering::SeqCst);
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(f)
        .expect("spawn")
        .join()
        .unwrap_or_else(|_| {
            eprintln!("simulator panic (entropy {:#x}): {}", entropy, LAST_PANIC.lock().map(|s| s.clone()).unwrap_or_default());
            std::process::exit(4)
        })
}

// ---------------------------------------------------------------- statistics
#[derive(Clone, Default, Serialize, Deserialize)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    pub mx: BTreeMap<String, f64>,
    pub states: BTreeSet<u64>,
    pub orders: BTreeSet<u64>,
    pub sim_ms: u64,
    pub events: u64,
}
impl Stats {
    pub fn hit(&mut self, k: &str) {
        beat();
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, v: u64) {
        if let Some(e) = self.n.get_mut(k) {
            *e += v
        } else {
            self.n.insert(k.to_string(), v);
        }
    }
    pub fn max(&mut self, k: &str, v: f64) {
        let v = if v.is_finite() { v } else { 1e300 };
        if let Some(e) = self.mx.get_mut(k) {
            if v > *e {
                *e = v
            }
        } else {
            self.mx.insert(k.to_string(), v);
        }
    }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.n {
            *self.n.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.mx {
            self.max(&k, v);
        }
        self.states.extend(o.states);
        self.orders.extend(o.orders);
        self.sim_ms += o.sim_ms;
        self.events += o.events;
    }
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Violation {
    pub tag: String,
    /// Stable class of the violation (no run-specific numbers): what minimisation preserves.
    pub class: String,
    pub detail: String,
    pub at_event: usize,
}

pub struct Report<T> {
    pub viol: Option<Violation>,
    pub foreign: BTreeMap<String, u64>,
    pub trace: T,
    pub stats: Stats,
    /// Hash of everything observed during the run.
    pub log: u64,
}

/// One simulated system.
pub trait Sim: 'static {
    type Trace: Clone + Send + Serialize + for<'a> Deserialize<'a> + 'static;
    const SYSTEM: &'static str;
    /// Generate and execute the run of `seed`.
    fn run(prop: &str, seed: u64, deep: bool) -> Report<Self::Trace>;
    /// Execute a recorded trace.
    fn replay(prop: &str, t: &Self::Trace) -> Report<Self::Trace>;
    fn len(t: &Self::Trace) -> usize;
    /// The trace without events `a..b`.
    fn without(t: &Self::Trace, a: usize, b: usize) -> Self::Trace;
    /// Simpler variants of event `i`.
    fn simpler(t: &Self::Trace, i: usize) -> Vec<Self::Trace>;
    fn components() -> serde_json::Value;
    fn assumptions() -> Vec<String>;
    fn rule() -> String;
    fn describe(t: &Self::Trace, i: usize) -> String;
    /// Identity of the failing history, for the known-findings file.
    fn identity(v: &Violation) -> String {
        v.class.clone()
    }
}

#[derive(Serialize, Deserialize)]
pub struct ReplayFile<T> {
    pub property: String,
    pub system: String,
    pub seed: u64,
    pub class: String,
    pub detail: String,
    pub at_event: usize,
    /// "trace": replay the events below; "seed": re-run `seed`; "hang": re-run `seed` and expect it
    /// not to finish; "crash": re-run `seed` and expect the process to die.
    pub mode: String,
    pub deep: bool,
    pub trace: Option<T>,
    pub readable: Vec<String>,
}

pub fn run_seed(base: u64, prop: &str, i: u64) -> u64 {
    mix(base ^ mix(hash_str(prop)) ^ mix(i.wrapping_mul(0x2545F4914F6CDD1D)))
}

fn run_one<S: Sim>(prop: &str, seed: u64, deep: bool) -> Report<S::Trace>
where
    Report<S::Trace>: Send,
{
    let p = prop.to_string();
    with_entropy(seed, move || S::run(&p, seed, deep))
}
pub fn replay_one<S: Sim>(prop: &str, seed: u64, t: &S::Trace) -> Report<S::Trace>
where
    Report<S::Trace>: Send,
{
    let p = prop.to_string();
    let t = t.clone();
    with_entropy(seed, move || S::replay(&p, &t))
}

// ---------------------------------------------------------------- process isolation
// Every run, and every candidate of the minimiser, executes in a process of its own, forked from a
// parent that never touches the code under test: no static, cache or leaked lock of one run can
// reach another, and a run that dies or never ends takes nothing with it.
mod os {
    extern "C" {
        pub fn fork() -> i32;
        pub fn pipe(fds: *mut i32) -> i32;
        pub fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
        pub fn kill(pid: i32, sig: i32) -> i32;
        pub fn close(fd: i32) -> i32;
        pub fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
        pub fn write(fd: i32, buf: *const u8, n: usize) -> isize;
        pub fn poll(fds: *mut PollFd, n: u64, ms: i32) -> i32;
        pub fn _exit(code: i32) -> !;
        pub fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
        pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
        pub fn mmap(at: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    }
    #[repr(C)]
    pub struct PollFd {
        pub fd: i32,
        pub events: i16,
        pub revents: i16,
    }
}
pub enum End<R> {
    Done(R),
    /// No result within the time allowed.
    Hang,
    /// Exit status of a process that died without a result.
    Died(String),
    /// Ended from outside (memory guard): says nothing about the code under test.
    Killed,
}
/// One page shared with the forked process: it counts the operations that have completed.
fn pulse() -> Option<&'static AtomicU64> {
    static PAGE: OnceLock<usize> = OnceLock::new();
    let p = *PAGE.get_or_init(|| unsafe { os::mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as usize });
    (p != usize::MAX && p != 0).then(|| unsafe { &*(p as *const AtomicU64) })
}
/// Called whenever an operation of the code under test has returned.
pub fn beat() {
    if let Some(p) = pulse() {
        p.fetch_add(1, Ordering::Relaxed);
    }
}
/// Executes `f` in a forked process and returns what it sends back. The process hangs when no
/// operation completes for `limit_s` seconds.
pub fn isolated<R: Serialize + for<'a> Deserialize<'a>>(limit_s: u64, f: impl FnOnce() -> R) -> End<R> {
    let mut fds = [0i32; 2];
    let (start, mut t0) = (Instant::now(), Instant::now());
    let mut last = u64::MAX;
    let pulse = pulse();
    unsafe {
        if os::pipe(fds.as_mut_ptr()) != 0 {
            return End::Killed;
        }
        let pid = os::fork();
        if pid < 0 {
            os::close(fds[0]);
            os::close(fds[1]);
            return End::Killed;
        }
        if pid == 0 {
            os::close(fds[0]);
            os::prctl(1, 9, 0, 0, 0); // not outliving the parent
            os::setrlimit(9, &[6 << 30, 6 << 30]); // address space
            os::setrlimit(4, &[0, 0]); // no core files
            let b = serde_json::to_vec(&f()).expect("json");
            let mut at = 0;
            while at < b.len() {
                let k = os::write(fds[1], b.as_ptr().add(at), b.len() - at);
                if k <= 0 {
                    break;
                }
                at += k as usize;
            }
            os::_exit(0);
        }
        os::close(fds[1]);
        let mut data = vec![];
        let mut buf = vec![0u8; 1 << 16];
        let mut hang = false;
        loop {
            let mut p = os::PollFd { fd: fds[0], events: 1, revents: 0 };
            let k = os::poll(&mut p, 1, 500);
            if k > 0 {
                let n = os::read(fds[0], buf.as_mut_ptr(), buf.len());
                if n <= 0 {
                    break;
                }
                data.extend_from_slice(&buf[..n as usize]);
            } else if start.elapsed() > Duration::from_secs(RUN_S) {
                os::kill(pid, 9); // making progress, but too slowly to wait for
                break;
            } else if pulse.map_or(0, |p| p.load(Ordering::Relaxed)) != last {
                last = pulse.map_or(0, |p| p.load(Ordering::Relaxed));
                t0 = Instant::now();
            } else if t0.elapsed() > Duration::from_secs(limit_s) {
                hang = true;
                os::kill(pid, 9);
                break;
            }
        }
        os::close(fds[0]);
        let mut st = 0;
        os::waitpid(pid, &mut st, 0);
        if hang {
            return End::Hang;
        }
        if st != 0 {
            return match st & 0x7f {
                9 => End::Killed,
                0 => End::Died(format!("exit status {}", (st >> 8) & 0xff)),
                s => End::Died(format!("signal {}", s)),
            };
        }
        match serde_json::from_slice(&data) {
            Ok(r) => End::Done(r),
            Err(_) => End::Died("no result".into()),
        }
    }
}

// ---------------------------------------------------------------- worker
/// Seconds after which an operation counts as one that never completes (it takes milliseconds).
pub const HANG_S: u64 = 60;
/// Seconds after which a run is given up without a verdict.
const RUN_S: u64 = 400;

#[derive(Serialize, Deserialize)]
struct RunOut<T> {
    viol: Option<Violation>,
    foreign: BTreeMap<String, u64>,
    trace: Option<T>,
    sample: Vec<String>,
    stats: Stats,
    log: u64,
}
#[derive(Serialize, Deserialize)]
pub struct WorkerOut<T> {
    pub stats: Stats,
    pub foreign: BTreeMap<String, u64>,
    /// run index, seed, violation, trace (none: the run hangs or dies)
    pub found: Option<(u64, u64, Violation, Option<T>)>,
    pub lost: u64,
    pub known: BTreeMap<String, u64>,
    pub runs: u64,
    pub log: u64,
    pub samples: Vec<Vec<String>>,
}

pub struct Job {
    pub prop: String,
    pub seed: u64,
    pub deep: bool,
    pub runs: u64,
    pub cap_s: u64,
}

/// Runs indices w, w+n, w+2n, ... ; writes progress and the result under `dir`.
pub fn worker<S: Sim>(job: &Job, w: u64, n: u64, dir: &Path, known: &[String])
where
    Report<S::Trace>: Send,
{
    let t0 = Instant::now();
    let mut out: WorkerOut<S::Trace> = WorkerOut {
        stats: Stats::default(),
        foreign: BTreeMap::new(),
        found: None,
        lost: 0,
        known: BTreeMap::new(),
        runs: 0,
        log: 0,
        samples: vec![],
    };
    let prog = dir.join(format!("p{}", w));
    let stop = dir.join("stop");
    let mut i = w;
    while i < job.runs {
        if t0.elapsed() > Duration::from_secs(job.cap_s) {
            break;
        }
        // a lower run index that already failed elsewhere ends the search deterministically
        if out.runs % 16 == 0 {
            if let Ok(s) = std::fs::read_to_string(&stop) {
                if s.trim().parse::<u64>().map(|k| k < i).unwrap_or(false) {
                    break;
                }
            }
        }
        let _ = std::fs::write(&prog, format!("{}", i));
        let seed = run_seed(job.seed, &job.prop, i);
        let want = w < 2 && out.samples.is_empty();
        let go = || {
            isolated(HANG_S, || {
                let r = run_one::<S>(&job.prop, seed, job.deep);
                let mut sample = vec![];
                if want {
                    sample.push(format!("run {} seed {:#018x}", i, seed));
                    sample.extend((0..S::len(&r.trace)).map(|j| S::describe(&r.trace, j)));
                }
                let trace = r.viol.is_some().then(|| r.trace.clone());
                RunOut { viol: r.viol, foreign: r.foreign, trace, sample, stats: r.stats, log: r.log }
            })
        };
        let t = Instant::now();
        let mut e = go();
        if std::env::var("SIM_SLOW").is_ok() && t.elapsed().as_millis() > 1500 {
            eprintln!("SLOW run {} took {} ms", i, t.elapsed().as_millis());
        }
        if matches!(e, End::Died(_)) {
            e = go(); // only what happens again counts
        }
        let r = match e {
            End::Done(r) => r,
            End::Killed => {
                out.lost += 1;
                i += n;
                continue;
            }
            x => {
                let (class, detail) = match x {
                    End::Hang => ("hang", format!("an operation of run {} does not complete within {} s", i, HANG_S)),
                    End::Died(how) => ("crash", format!("run {} kills its process ({})", i, how)),
                    _ => unreachable!(),
                };
                let v = Violation { tag: job.prop.clone(), class: class.into(), detail, at_event: 0 };
                out.found = Some((i, seed, v, None));
                let _ = std::fs::write(&stop, format!("{}", i));
                break;
            }
        };
        out.runs += 1;
        if want {
            out.samples.push(r.sample);
        }
        out.stats.merge(r.stats);
        out.log ^= mix(r.log ^ mix(i));
        for (k, v) in r.foreign {
            *out.foreign.entry(k).or_insert(0) += v;
        }
        if let Some(v) = r.viol {
            let id = S::identity(&v);
            if known.iter().any(|k| *k == id) {
                *out.known.entry(id).or_insert(0) += 1;
            } else {
                out.found = Some((i, seed, v, r.trace));
                let _ = std::fs::write(&stop, format!("{}", i));
                break;
            }
        }
        i += n;
    }
    let _ = std::fs::write(&prog, "done");
    let tmp = dir.join(format!("r{}.tmp", w));
    std::fs::write(&tmp, serde_json::to_vec(&out).expect("json")).expect("write result");
    std::fs::rename(&tmp, dir.join(format!("r{}", w))).expect("rename result");
}

// ---------------------------------------------------------------- minimise
pub fn minimise<S: Sim>(prop: &str, seed: u64, t: S::Trace, v: Violation) -> (S::Trace, Violation)
where
    Report<S::Trace>: Send,
{
    let t0 = Instant::now();
    let mut best = t;
    let mut bv = v;
    let mut budget = 1500;
    let mut try_ = |cand: &S::Trace, class: &str| -> Option<Violation> {
        if budget == 0 || t0.elapsed() > Duration::from_secs(60) {
            return None;
        }
        budget -= 1;
        match isolated(20, || replay_one::<S>(prop, seed, cand).viol) {
            End::Done(v) => v.filter(|x| x.class == class),
            _ => None,
        }
    };
    // nothing after the failing event matters
    let l = S::len(&best);
    if bv.at_event + 1 < l {
        let c = S::without(&best, bv.at_event + 1, l);
        if let Some(x) = try_(&c, &bv.class) {
            best = c;
            bv = x;
        }
    }
    loop {
        let before = (S::len(&best), serde_json::to_string(&best).unwrap().len());
        let mut chunk = (S::len(&best) / 2).max(1);
        loop {
            let mut i = S::len(&best);
            while i > 0 {
                let a = i.saturating_sub(chunk);
                if i <= S::len(&best) && a < i {
                    let c = S::without(&best, a, i);
                    if let Some(x) = try_(&c, &bv.class) {
                        best = c;
                        bv = x;
                    }
                }
                i = a;
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        for i in 0..S::len(&best) {
            'again: loop {
                if i >= S::len(&best) {
                    break;
                }
                for c in S::simpler(&best, i) {
                    if let Some(x) = try_(&c, &bv.class) {
                        best = c;
                        bv = x;
                        continue 'again;
                    }
                }
                break;
            }
        }
        if (S::len(&best), serde_json::to_string(&best).unwrap().len()) >= before {
            break;
        }
    }
    (best, bv)
}

fn new_file<S: Sim>(prop: &str, seed: u64, trace: Option<S::Trace>, v: &Violation, deep: bool) -> ReplayFile<S::Trace> {
    let mode = if trace.is_some() { "trace" } else { v.class.as_str() };
    ReplayFile {
        property: prop.into(),
        system: S::SYSTEM.into(),
        seed,
        class: v.class.clone(),
        detail: v.detail.clone(),
        at_event: v.at_event,
        mode: mode.into(),
        deep,
        readable: trace.as_ref().map_or(vec![], |t| (0..S::len(t)).map(|i| S::describe(t, i)).collect()),
        trace,
    }
}

// ---------------------------------------------------------------- known findings
/// Lines "open: property=<id> identity=<class> | <what fails>" are findings; "fixed: ..." lines
/// suppress nothing.
pub fn known_findings(verif: &Path, prop: &str) -> Vec<(String, String)> {
    let txt = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in txt.lines() {
        let l = l.trim();
        if let Some(r) = l.strip_prefix(&format!("open: property={} identity=", prop)) {
            if let Some((id, what)) = r.split_once(" | ") {
                v.push((id.trim().to_string(), what.trim().to_string()));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- driver
pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub workers: u64,
    pub runs: u64,
    pub cap_s: u64,
    pub verif: PathBuf,
    pub evidence: bool,
    pub print_log: bool,
}

pub fn drive<S: Sim>(o: &Opts) -> i32
where
    Report<S::Trace>: Send,
{
    let t0 = Instant::now();
    let deep = o.tier == "thorough";
    let dir = std::env::temp_dir().join(format!("hmmcl-sim-{}-{}", o.prop, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    if std::fs::create_dir_all(&dir).is_err() {
        eprintln!("cannot create scratch directory");
        return 2;
    }
    let exe = std::env::current_exe().expect("exe");
    let known = known_findings(&o.verif, &o.prop);
    println!("property {} tier {} seed {} runs {} workers {}", o.prop, o.tier, o.seed, o.runs, o.workers);
    let mut kids = vec![];
    for w in 0..o.workers {
        let k = std::process::Command::new(&exe)
            .args(["worker", &o.prop, &o.tier])
            .args([o.seed.to_string(), o.runs.to_string(), o.cap_s.to_string()])
            .args([w.to_string(), o.workers.to_string()])
            .arg(&dir)
            .arg(&o.verif)
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::inherit())
            .spawn();
        match k {
            Ok(k) => kids.push((w, k)),
            Err(e) => {
                eprintln!("cannot start worker: {}", e);
                return 2;
            }
        }
    }
    for (_, k) in kids.iter_mut() {
        let _ = k.wait();
    }
    let mut stats = Stats::default();
    let mut foreign: BTreeMap<String, u64> = BTreeMap::new();
    let mut knownhit: BTreeMap<String, u64> = BTreeMap::new();
    let mut found: Option<(u64, u64, Violation, Option<S::Trace>)> = None;
    let (mut runs, mut lost, mut log) = (0, 0, 0u64);
    let mut samples: Vec<Vec<String>> = vec![];
    let mut harness_error = false;
    for w in 0..o.workers {
        match std::fs::read(dir.join(format!("r{}", w))).ok().and_then(|b| serde_json::from_slice::<WorkerOut<S::Trace>>(&b).ok()) {
            Some(r) => {
                stats.merge(r.stats);
                for (k, v) in r.foreign {
                    *foreign.entry(k).or_insert(0) += v;
                }
                for (k, v) in r.known {
                    *knownhit.entry(k).or_insert(0) += v;
                }
                samples.extend(r.samples);
                runs += r.runs;
                lost += r.lost;
                log ^= r.log;
                if let Some(f) = r.found {
                    if found.as_ref().map_or(true, |b| f.0 < b.0) {
                        found = Some(f);
                    }
                }
            }
            None => {
                eprintln!("worker {} left no readable result", w);
                harness_error = true;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let wall = t0.elapsed().as_secs_f64();
    let rdir = o.verif.join("replays");
    let mut code = 0;
    let mut vio: Vec<serde_json::Value> = vec![];
    if let Some((i, seed, v, t)) = found {
        println!("run {} (seed {:#018x}) violates {}: {}", i, seed, o.prop, v.detail);
        let l0 = t.as_ref().map_or(0, |t| S::len(t));
        let f = new_file::<S>(&o.prop, seed, t, &v, deep);
        let f = if f.mode == "trace" { minimise_in_child::<S>(o, f) } else { f };
        let p = rdir.join(format!("{}-{:016x}.json", o.prop, seed));
        let _ = std::fs::create_dir_all(&rdir);
        std::fs::write(&p, serde_json::to_string_pretty(&f).expect("json")).expect("write replay");
        if let Some(t) = &f.trace {
            println!("minimised {} -> {} events: {}", l0, S::len(t), f.detail);
        }
        println!("VIOLATION property={} replay={}", o.prop, p.display());
        vio.push(serde_json::json!({"seed": format!("{:#018x}", seed), "class": f.class, "detail": f.detail, "replay": p.display().to_string()}));
        code = 1;
    } else if harness_error || runs == 0 || lost * 10 > runs {
        eprintln!("HARNESS ERROR: a worker ended without a result, or runs were ended from outside ({})", lost);
        code = 2;
    }
    for (id, what) in &known {
        if code == 0 {
            println!("KNOWN-FINDING: property={} {} ({} runs hit it)", o.prop, what, knownhit.get(id).copied().unwrap_or(0));
        }
    }
    if o.print_log {
        println!("LOG {:016x}", log);
    }
    if o.evidence {
        write_evidence::<S>(o, &stats, &foreign, runs, wall, &vio, log, &samples);
    }
    println!(
        "{} runs, {} events, {} distinct states, {} distinct delivery orders, {:.1} s",
        runs,
        stats.events,
        stats.states.len(),
        stats.orders.len(),
        wall
    );
    if std::env::var("SIM_VERBOSE").is_ok() {
        for (k, v) in &stats.n {
            println!("  {:40} {}", k, v);
        }
        for (k, v) in &stats.mx {
            println!("  max {:36} {:.3e}", k, v);
        }
        println!("  other properties' oracles fired: {:?}", foreign);
    }
    code
}


/// The engines print to stdout: minimisation runs in a child with stdout closed.
fn minimise_in_child<S: Sim>(o: &Opts, f: ReplayFile<S::Trace>) -> ReplayFile<S::Trace>
where
    Report<S::Trace>: Send,
{
    let dir = std::env::temp_dir().join(format!("hmmcl-min-{}-{}", o.prop, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let (inp, outp) = (dir.join("in.json"), dir.join("out.json"));
    let _ = std::fs::write(&inp, serde_json::to_string(&f).expect("json"));
    let _ = std::process::Command::new(std::env::current_exe().expect("exe"))
        .arg("minimise")
        .arg(&inp)
        .arg(&outp)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .status();
    let r = std::fs::read_to_string(&outp).ok().and_then(|s| serde_json::from_str::<ReplayFile<S::Trace>>(&s).ok());
    let _ = std::fs::remove_dir_all(&dir);
    r.unwrap_or(f)
}

pub fn minimise_file<S: Sim>(inp: &Path, outp: &Path) -> i32
where
    Report<S::Trace>: Send,
{
    let f: ReplayFile<S::Trace> = match std::fs::read_to_string(inp).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(f) => f,
        None => return 2,
    };
    let t = f.trace.unwrap();
    let v = Violation { tag: f.property.clone(), class: f.class, detail: f.detail, at_event: f.at_event };
    let again = matches!(isolated(HANG_S, || replay_one::<S>(&f.property, f.seed, &t).viol), End::Done(Some(x)) if x.class == v.class);
    let g = if again {
        let (t, v) = minimise::<S>(&f.property, f.seed, t, v);
        new_file::<S>(&f.property, f.seed, Some(t), &v, f.deep)
    } else {
        // the events alone do not bring it back: the replay repeats the whole run from its seed
        let mut g = new_file::<S>(&f.property, f.seed, Some(t), &v, f.deep);
        g.mode = "seed".into();
        g
    };
    std::fs::write(outp, serde_json::to_string(&g).unwrap()).map(|_| 0).unwrap_or(2)
}

/// Re-executes a replay file in this (fresh) process.
pub fn replay_file<S: Sim>(path: &Path) -> i32
where
    Report<S::Trace>: Send,
{
    let f: ReplayFile<S::Trace> = match std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(f) => f,
        None => {
            eprintln!("cannot read replay file");
            return 2;
        }
    };
    if f.mode == "hang" || f.mode == "crash" {
        eprintln!("re-running seed {:#018x}; the violation is that this {}", f.seed, if f.mode == "hang" { "does not finish" } else { "kills its process" });
        let e = isolated(HANG_S, || run_one::<S>(&f.property, f.seed, f.deep).viol);
        let yes = matches!((&e, f.mode.as_str()), (End::Hang, "hang") | (End::Died(_), "crash"));
        if yes {
            eprintln!("VIOLATION property={} replay={}", f.property, path.display());
        } else {
            eprintln!("not reproduced: the run ends normally");
        }
        return yes as i32;
    }
    let r = match &f.trace {
        Some(t) if f.mode == "trace" => replay_one::<S>(&f.property, f.seed, t),
        _ => run_one::<S>(&f.property, f.seed, f.deep),
    };
    match r.viol {
        Some(v) => {
            eprintln!("event {}: {}", v.at_event, v.detail);
            eprintln!("exact reproduction: {}", v.class == f.class && v.detail == f.detail && v.at_event == f.at_event);
            eprintln!("VIOLATION property={} replay={}", f.property, path.display());
            1
        }
        None => {
            eprintln!("not reproduced: property {} held on this trace", f.property);
            0
        }
    }
}

fn write_evidence<S: Sim>(
    o: &Opts,
    st: &Stats,
    foreign: &BTreeMap<String, u64>,
    runs: u64,
    wall: f64,
    vio: &[serde_json::Value],
    log: u64,
    samples: &[Vec<String>],
) {
    let pick = |p: &str| -> BTreeMap<String, u64> {
        st.n.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k[p.len()..].to_string(), *v)).collect()
    };
    let e = serde_json::json!({
        "property": o.prop,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": st.orders.len(),
            "rule": S::rule(),
            "samples": samples,
            "seeds_per_hour": (runs as f64 / wall.max(0.001) * 3600.0).round(),
            "simulated_seconds": st.sim_ms / 1000,
            "simulated_events": st.events,
            "distinct_states": st.states.len(),
            "faults_fired": pick("fault."),
            "operations": pick("op."),
            "oracle_checks": pick("chk."),
            "probes": pick("probe."),
            "exempted_refusals": pick("exempt."),
            "largest_error_over_tolerance": st.mx,
            "other_oracles_that_fired": foreign,
            "components": S::components(),
            "run_log_hash": format!("{:016x}", log),
        },
        "assumptions": S::assumptions(),
        "wall_s": wall,
        "violations": vio.len(),
        "violation_list": vio,
    });
    let d = o.verif.join("evidence");
    let _ = std::fs::create_dir_all(&d);
    if let Err(e) = std::fs::write(d.join(format!("{}.json", o.prop)), serde_json::to_string_pretty(&e).unwrap()) {
        eprintln!("cannot write evidence: {}", e);
    }
}

#[allow(dead_code)]
pub fn distinct(v: &[u64]) -> usize {
    v.iter().collect::<HashSet<_>>().len()
}
pub fn flush() {
    let _ = std::io::stdout().flush();
}

/// Every oracle's complaints about the run of `seed`, and about `fuzz` random reductions of it
/// (what the minimiser would try): a development aid, on stderr.
pub fn survey<S: Sim>(prop: &str, seed: u64, fuzz: u64)
where
    Report<S::Trace>: Send,
{
    let say = |r: &Report<S::Trace>| -> BTreeMap<String, u64> {
        let mut f = r.foreign.clone();
        if let Some(v) = &r.viol {
            *f.entry(format!("{} {}", v.tag, v.detail)).or_insert(0) += 1;
        }
        f
    };
    let e = isolated(HANG_S, || {
        let r = run_one::<S>(prop, seed, false);
        let mut all = say(&r);
        let first = r.trace.clone();
        let mut rng = crate::rng::Rng::new(seed ^ 77);
        for _ in 0..fuzz {
            let mut t = r.trace.clone();
            for _ in 0..rng.range(1, 6) {
                let l = S::len(&t);
                if l < 2 {
                    break;
                }
                let i = rng.idx(l);
                let vs = S::simpler(&t, i);
                if !vs.is_empty() && rng.chance(50) {
                    t = vs[rng.idx(vs.len())].clone();
                } else {
                    let b = (i + 1 + rng.idx(l / 3 + 1)).min(l);
                    t = S::without(&t, i, b);
                }
            }
            let q = replay_one::<S>(prop, seed, &t);
            for (k, v) in say(&q) {
                *all.entry(k).or_insert(0) += v;
            }
        }
        (all, first)
    });
    match e {
        End::Done((f, _)) if f.is_empty() => {}
        End::Done((f, t)) => {
            eprintln!("SEED {:#x} {:?}", seed, f);
            if let Ok(dir) = std::env::var("SIM_DUMP") {
                for tag in f.keys() {
                    if let End::Done(Some(v)) = isolated(HANG_S, || replay_one::<S>(tag, seed, &t).viol) {
                        let (t, v) = minimise::<S>(tag, seed, t.clone(), v);
                        let g = new_file::<S>(tag, seed, Some(t), &v, false);
                        let _ = std::fs::write(format!("{}/{}-{:016x}.json", dir, tag, seed), serde_json::to_string_pretty(&g).unwrap());
                    }
                }
            }
        }
        End::Hang => eprintln!("SEED {:#x} {{\"HANG\": 1}}", seed),
        End::Died(s) => eprintln!("SEED {:#x} {{\"DIED {}\": 1}}", seed, s),
        End::Killed => eprintln!("SEED {:#x} {{\"KILLED\": 1}}", seed),
    }
}
