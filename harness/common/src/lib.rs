//! Shared runner of the monitors: seeded cases in parallel, panic/fault/stall capture,
//! counters of what was observed, evidence output and violation reports.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- PRNG
#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ b.len() as u64;
    let mut it = b.chunks_exact(8);
    for x in it.by_ref() {
        h = (h.rotate_left(23) ^ u64::from_le_bytes(x.try_into().unwrap())).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    for x in it.remainder() {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn range64(&mut self, lo: u64, hi: u64) -> u64 {
        let span = (hi - lo) as u128 + 1;
        lo + ((self.next() as u128 * span) >> 64) as u64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn fill(&mut self, out: &mut [u8]) {
        for x in out {
            *x = self.next() as u8;
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    /// magnitude-skewed integer: all bit widths up to `bits` equally likely
    pub fn skewed(&mut self, bits: u32) -> u64 {
        let b = self.below(bits as usize + 1) as u32;
        if b == 0 {
            return 0;
        }
        let v = self.next() >> (64 - b);
        v | (1 << (b - 1))
    }
}

// ---------------------------------------------------------------- JSON
pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- case
/// One execution: its own PRNG, a trace of what was done, counters of what was observed.
pub struct Case {
    pub rng: Rng,
    pub phase: String,
    pub index: usize,
    pub seed: u64,
    pub thorough: bool,
    trace: Vec<String>,
    counts: BTreeMap<String, u64>,
    maxes: BTreeMap<String, u64>,
    distinct: Vec<u64>,
    evals: u64,
    known: Vec<(String, String)>,
    sample: Option<String>,
}

impl Case {
    pub fn t(&mut self, s: impl Into<String>) {
        if self.trace.len() < 4000 {
            self.trace.push(s.into());
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.maxes.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// registers an execution as non-trivial; `h` identifies it for distinct counting
    pub fn distinct(&mut self, h: u64) {
        self.distinct.push(h);
    }
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        self.sample = Some(s.into());
    }
    pub fn trace_text(&self) -> String {
        self.trace.join("\n")
    }
    pub fn trace_hash(&self) -> u64 {
        let mut h = 0;
        for t in &self.trace {
            h = mix(h ^ hash_str(t));
        }
        h
    }
    /// A failure with this exact signature is a recorded finding, not an alarm.
    pub fn known(&mut self, sig: &str, what: &str) {
        self.known.push((sig.to_string(), what.to_string()));
    }
    /// a case of its own for a thread of a workload; what it counts is not reported
    pub fn scratch(seed: u64, thorough: bool, index: usize) -> Case {
        Case {
            rng: Rng::new(seed),
            phase: String::new(),
            index,
            seed,
            thorough,
            trace: vec![],
            counts: BTreeMap::new(),
            maxes: BTreeMap::new(),
            distinct: vec![],
            evals: 0,
            known: vec![],
            sample: None,
        }
    }
    pub fn beat(&self) {
        BEAT.fetch_add(1, SeqCst);
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($l:expr, $r:expr, $($a:tt)*) => {{
        let (l, r) = (&$l, &$r);
        if l != r { return Err(format!("{}: got {:?}, expected {:?}", format!($($a)*), l, r)); }
    }};
}

pub type R = Result<(), String>;

// ---------------------------------------------------------------- panic capture
thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs code under test; a panic becomes Err.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("{what}: {}", last_panic()))
}

// ---------------------------------------------------------------- runner
static BEAT: AtomicU64 = AtomicU64::new(0);
static DONE: AtomicBool = AtomicBool::new(false);
static FAULT_FD: AtomicI32 = AtomicI32::new(-1);
static mut FAULT_LINE: [u8; 512] = [0; 512];
static FAULT_LEN: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static CUR: RefCell<(String, usize)> = const { RefCell::new((String::new(), 0)) };
}

#[derive(Default)]
struct Acc {
    counts: BTreeMap<String, u64>,
    maxes: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    evals: u64,
    cases: u64,
    samples: Vec<(String, String)>,
    known: BTreeMap<String, String>,
    inconclusive: Vec<String>,
}

pub struct Runner {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    out: String,
    replay_dir: String,
    replay: Option<(String, usize)>,
    acc: Mutex<Acc>,
    rule: Mutex<String>,
    assumptions: Mutex<Vec<String>>,
    extra: Mutex<BTreeMap<String, String>>,
    start: Instant,
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

extern "C" fn on_fault(sig: i32) {
    unsafe {
        let fd = FAULT_FD.load(SeqCst);
        let n = FAULT_LEN.load(SeqCst);
        let p = std::ptr::addr_of!(FAULT_LINE) as *const u8;
        if fd >= 0 {
            let m = b"fatal signal while running the code under test; see the file name for the signal\n";
            libc::write(fd, m.as_ptr() as *const _, m.len());
            let d = [b'0' + (sig / 10) as u8, b'0' + (sig % 10) as u8, b'\n'];
            libc::write(fd, d.as_ptr() as *const _, 3);
        }
        libc::write(1, p as *const _, n);
        std::process::exit(1);
    }
}

/// Far above what any workload holds (see `peak_memory_mb` in the evidence), far below the machine's.
const MEMORY_LIMIT: u64 = 14 << 30;
static PEAK: AtomicU64 = AtomicU64::new(0);

/// bytes of memory of this process that no file stands behind
fn anonymous_memory() -> u64 {
    let s = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    let kb = s.lines().find_map(|l| l.strip_prefix("RssAnon:")).and_then(|l| l.trim().trim_end_matches("kB").trim().parse::<u64>().ok());
    kb.unwrap_or(0) << 10
}

impl Runner {
    pub fn new(id: &str, default_rule: &str) -> Runner {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let out = arg("--out").unwrap_or_else(|| format!("/tmp/{id}.json"));
        let replay_dir = arg("--replays").unwrap_or_else(|| "/tmp".into());
        let replay = arg("--only").and_then(|s| {
            let (p, i) = s.rsplit_once(':')?;
            Some((p.to_string(), i.parse().ok()?))
        });
        let _ = std::fs::create_dir_all(&replay_dir);
        install_panic_hook();
        let r = Runner {
            id: id.into(),
            seed,
            thorough,
            out,
            replay_dir,
            replay,
            acc: Mutex::new(Acc::default()),
            rule: Mutex::new(default_rule.into()),
            assumptions: Mutex::new(vec![]),
            extra: Mutex::new(BTreeMap::new()),
            start: Instant::now(),
        };
        r.install_faults();
        r.watchdog();
        r
    }

    fn install_faults(&self) {
        if std::env::var("VERIF_SANITIZER").is_ok() {
            return; // the sanitizer reports faults itself
        }
        let path = format!("{}/{}-fault.txt", self.replay_dir, self.id);
        let line = format!("\nVIOLATION property={} replay={}\n", self.id, path);
        unsafe {
            let c = std::ffi::CString::new(path).unwrap();
            let fd = libc::open(c.as_ptr(), libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY | libc::O_CLOEXEC, 0o644);
            FAULT_FD.store(fd, SeqCst);
            let b = line.as_bytes();
            let p = std::ptr::addr_of_mut!(FAULT_LINE) as *mut u8;
            for (i, x) in b.iter().take(512).enumerate() {
                *p.add(i) = *x;
            }
            FAULT_LEN.store(b.len().min(512), SeqCst);
            let stack = Box::leak(vec![0u8; 1 << 16].into_boxed_slice());
            let ss = libc::stack_t { ss_sp: stack.as_mut_ptr() as *mut _, ss_flags: 0, ss_size: 1 << 16 };
            libc::sigaltstack(&ss, std::ptr::null_mut());
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
                let mut sa: libc::sigaction = std::mem::zeroed();
                sa.sa_sigaction = on_fault as *const () as usize;
                sa.sa_flags = libc::SA_ONSTACK;
                libc::sigaction(s, &sa, std::ptr::null_mut());
            }
        }
    }

    /// Every operation of the workloads takes milliseconds; several minutes without one single
    /// completed step means the code under test does not return.
    fn watchdog(&self) {
        let id = self.id.clone();
        let dir = self.replay_dir.clone();
        std::thread::spawn(move || {
            let mut last = u64::MAX;
            let mut since = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(250));
                if DONE.load(SeqCst) {
                    return;
                }
                let held = anonymous_memory();
                PEAK.fetch_max(held, SeqCst);
                if held > MEMORY_LIMIT {
                    let path = format!("{dir}/{id}-memory.txt");
                    let _ = std::fs::write(&path, format!("the process holds {} MB, hundreds of times what the workload needs: an operation takes memory without end\n", held >> 20));
                    println!("\nVIOLATION property={id} replay={path}");
                    std::process::exit(1)
                }
                let b = BEAT.load(SeqCst);
                if b != last {
                    last = b;
                    since = Instant::now();
                } else if since.elapsed() > Duration::from_secs(240) {
                    let path = format!("{dir}/{id}-stall.txt");
                    let _ = std::fs::write(&path, "no step of the workload completed for 240 s: an operation does not return (deadlock or endless loop)\n");
                    println!("\nVIOLATION property={id} replay={path}");
                    std::process::exit(1)
                }
            }
        });
    }

    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn extra(&self, k: &str, json: String) {
        self.extra.lock().unwrap().insert(k.into(), json);
    }
    pub fn elapsed(&self) -> Duration {
        self.start.elapsed()
    }

    /// quick/thorough count
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }

    /// Runs `n` cases on `threads` threads, each with its own PRNG derived from (seed, phase,
    /// index). Stops starting new cases after `cap` seconds.
    pub fn phase<F>(&self, phase: &str, n: usize, threads: usize, cap: f64, f: F)
    where
        F: Fn(&mut Case) -> R + Sync,
    {
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let skipped = AtomicUsize::new(0);
        let fail: Mutex<Option<(Case, String)>> = Mutex::new(None);
        if let Some((p, _)) = &self.replay {
            if p != phase {
                return;
            }
        }
        std::thread::scope(|s| {
            for _ in 0..threads.max(1) {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || {
                        let mut acc = Acc::default();
                        loop {
                            let i = next.fetch_add(1, SeqCst);
                            if i >= n || fail.lock().unwrap().is_some() {
                                break;
                            }
                            if let Some((_, k)) = &self.replay {
                                if *k != i {
                                    continue;
                                }
                            }
                            if t0.elapsed().as_secs_f64() > cap && self.replay.is_none() {
                                skipped.fetch_add(1, SeqCst);
                                continue;
                            }
                            let seed = mix(self.seed ^ mix(hash_str(phase) ^ mix(i as u64)));
                            let mut c = Case {
                                rng: Rng::new(seed),
                                phase: phase.into(),
                                index: i,
                                seed,
                                thorough: self.thorough,
                                trace: vec![],
                                counts: BTreeMap::new(),
                                maxes: BTreeMap::new(),
                                distinct: vec![],
                                evals: 0,
                                known: vec![],
                                sample: None,
                            };
                            CUR.with(|x| *x.borrow_mut() = (phase.to_string(), i));
                            let r = match catch_unwind(AssertUnwindSafe(|| f(&mut c))) {
                                Ok(r) => r,
                                Err(_) => Err(format!("code under test panicked: {}", last_panic())),
                            };
                            BEAT.fetch_add(1, SeqCst);
                            match r {
                                Ok(()) => {
                                    acc.cases += 1;
                                    acc.evals += c.evals.max(1);
                                    for (k, v) in c.counts {
                                        *acc.counts.entry(k).or_insert(0) += v;
                                    }
                                    for (k, v) in c.maxes {
                                        let e = acc.maxes.entry(k).or_insert(0);
                                        *e = (*e).max(v);
                                    }
                                    acc.distinct.extend(c.distinct);
                                    for (k, v) in c.known {
                                        acc.known.insert(k, v);
                                    }
                                    if let Some(s) = c.sample {
                                        if acc.samples.len() < 1 {
                                            acc.samples.push((phase.to_string(), s));
                                        }
                                    }
                                }
                                Err(e) => {
                                    let mut g = fail.lock().unwrap();
                                    if g.is_none() {
                                        *g = Some((c, e));
                                    }
                                    break;
                                }
                            }
                        }
                        let mut a = self.acc.lock().unwrap();
                        a.cases += acc.cases;
                        a.evals += acc.evals;
                        a.distinct.extend(acc.distinct);
                        for (k, v) in acc.counts {
                            *a.counts.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in acc.maxes {
                            let e = a.maxes.entry(k).or_insert(0);
                            *e = (*e).max(v);
                        }
                        a.known.extend(acc.known);
                        for s in acc.samples {
                            if a.samples.iter().filter(|x| x.0 == s.0).count() < 2 && a.samples.len() < 16 {
                                a.samples.push(s);
                            }
                        }
                    })
                    .unwrap();
            }
        });
        if let Some((c, e)) = fail.into_inner().unwrap() {
            self.violation(&c, &e);
        }
        let sk = skipped.load(SeqCst) as u64;
        let mut a = self.acc.lock().unwrap();
        a.counts.insert(format!("cases_{phase}"), (n as u64).saturating_sub(sk));
        if sk > 0 {
            a.counts.insert(format!("cases_not_started_time_cap_{phase}"), sk);
        }
        let ms = t0.elapsed().as_millis() as u64;
        a.counts.insert(format!("ms_{phase}"), ms);
    }

    pub fn violation(&self, c: &Case, e: &str) -> ! {
        let path = format!("{}/{}-{}-{}.txt", self.replay_dir, self.id, c.phase, c.index);
        let tail = if c.trace.len() > 400 { &c.trace[c.trace.len() - 400..] } else { &c.trace[..] };
        let text = format!(
            "property: {}\nfailure: {}\nphase: {}\ncase: {}\ncase_seed: {}\nVERIF_SEED: {}\nVERIF_TIER: {}\nreplay: python3 tools/check.py {} --only {}:{} (with VERIF_SEED and VERIF_TIER as above)\n--- trace (last {} of {} steps) ---\n{}\n",
            self.id, e, c.phase, c.index, c.seed, self.seed,
            if self.thorough { "thorough" } else { "quick" },
            self.id, c.phase, c.index, tail.len(), c.trace.len(), tail.join("\n")
        );
        let _ = std::fs::write(&path, text);
        let short: String = e.chars().take(600).collect();
        println!("{}: {} [{} case {}]", self.id, short, c.phase, c.index);
        println!("VIOLATION property={} replay={}", self.id, path);
        self.write_out(1);
        DONE.store(true, SeqCst);
        std::process::exit(1)
    }

    /// violation outside a case
    pub fn violation_msg(&self, e: &str) -> ! {
        let c = Case {
            rng: Rng::new(0), phase: "final".into(), index: 0, seed: 0, thorough: self.thorough,
            trace: vec![], counts: BTreeMap::new(), maxes: BTreeMap::new(), distinct: vec![],
            evals: 0, known: vec![], sample: None,
        };
        self.violation(&c, e)
    }

    pub fn counter(&self, k: &str) -> u64 {
        self.acc.lock().unwrap().counts.get(k).copied().unwrap_or(0)
    }

    fn write_out(&self, violations: u64) {
        let a = self.acc.lock().unwrap();
        let mut s = String::new();
        let _ = write!(s, "{{\"violations\":{violations},\"assumptions\":[");
        let asm = self.assumptions.lock().unwrap();
        s += &asm.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",");
        let _ = write!(
            s,
            "],\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"executions\":{},\"rule\":{},\"samples\":[",
            a.evals, a.distinct.len(), a.cases, jstr(&self.rule.lock().unwrap())
        );
        s += &a.samples.iter().map(|(p, x)| jstr(&format!("[{p}] {x}"))).collect::<Vec<_>>().join(",");
        s += "],\"observed\":{";
        let mut parts: Vec<String> = a.counts.iter().filter(|(k, _)| !k.starts_with("ms_")).map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
        parts.extend(a.maxes.iter().map(|(k, v)| format!("{}:{}", jstr(&format!("max_{k}")), v)));
        parts.push(format!("\"max_process_memory_mb\":{}", PEAK.load(SeqCst) >> 20));
        s += &parts.join(",");
        s += "}";
        for (k, v) in self.extra.lock().unwrap().iter() {
            let _ = write!(s, ",{}:{}", jstr(k), v);
        }
        s += ",\"known_findings\":[";
        s += &a.known.iter().map(|(k, v)| jstr(&format!("{k}: {v}"))).collect::<Vec<_>>().join(",");
        s += "]}}";
        let _ = std::fs::write(&self.out, s);
    }

    /// `required`: counters that must be positive, or the run observed nothing (inconclusive).
    pub fn finish(self, required: &[&str]) -> ! {
        DONE.store(true, SeqCst);
        self.write_out(0);
        let a = self.acc.lock().unwrap();
        if self.replay.is_none() {
            for k in required {
                if a.counts.get(*k).copied().unwrap_or(0) == 0 {
                    println!("INCONCLUSIVE property={}: nothing observed for {k}", self.id);
                    std::process::exit(3);
                }
            }
        }
        for (k, v) in &a.known {
            println!("KNOWN-FINDING: property={} {}: {}", self.id, k, v);
        }
        println!(
            "{}: held on {} executions, {} distinct non-trivial, {:.1}s",
            self.id, a.cases, a.distinct.len(), self.start.elapsed().as_secs_f64()
        );
        let _ = &a.inconclusive;
        drop(a);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(0)
    }
}

// ---------------------------------------------------------------- scratch directories
pub struct Scratch(pub std::path::PathBuf);

static SCRATCH_N: AtomicUsize = AtomicUsize::new(0);

impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/dev/shm".into());
        let p = std::path::PathBuf::from(base).join(format!(
            "verif-{}-{}-{}",
            std::process::id(),
            tag,
            SCRATCH_N.fetch_add(1, SeqCst)
        ));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn join(&self, s: &str) -> std::path::PathBuf {
        self.0.join(s)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
