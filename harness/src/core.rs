//! Shared machinery: context, violation reporting, known findings, evidence,
//! exhaustive choice-tree explorer, static work partitioning.

use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    pub start: Instant,
    known: Vec<(String, String)>,
    found: Mutex<BTreeMap<String, (String, Value)>>,
    known_hit: Mutex<BTreeMap<String, String>>,
    stop: AtomicBool,
    alarms: AtomicU64,
    pub evaluations: AtomicU64,
    pub nontrivial: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub extra: Mutex<BTreeMap<String, Value>>,
    samples: Mutex<Vec<Value>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    distinct: Mutex<HashSet<u64>>,
}

pub fn hash64<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new_with_keys(11, 22);
    t.hash(&mut h);
    h.finish()
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, seed: u64) -> Self {
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", VERIF)) {
            for l in s.lines() {
                // known: property=<id> key=<key> <what fails>
                if let Some(r) = l.strip_prefix("known: property=") {
                    let mut it = r.splitn(3, ' ');
                    let p = it.next().unwrap_or("");
                    let k = it.next().unwrap_or("");
                    let what = it.next().unwrap_or("");
                    if p == id {
                        if let Some(k) = k.strip_prefix("key=") {
                            known.push((k.to_string(), what.to_string()));
                        }
                    }
                }
            }
        }
        let threads = std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(4)
            .min(8);
        Ctx {
            id: id.to_string(),
            tier,
            seed,
            threads,
            start: Instant::now(),
            known,
            found: Default::default(),
            known_hit: Default::default(),
            stop: AtomicBool::new(false),
            alarms: AtomicU64::new(0),
            evaluations: AtomicU64::new(0),
            nontrivial: AtomicU64::new(0),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            extra: Default::default(),
            samples: Default::default(),
            outcomes: Default::default(),
            distinct: Default::default(),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    /// `key` names the specific failing input class; `what` is for people;
    /// `case` is enough to replay it.
    pub fn violation(&self, key: &str, what: &str, case: Value) {
        if let Some((k, w)) = self.known.iter().find(|(k, _)| k == key) {
            self.known_hit.lock().unwrap().insert(k.clone(), w.clone());
            return;
        }
        let mut f = self.found.lock().unwrap();
        if f.len() < 20 && !f.contains_key(key) {
            f.insert(key.to_string(), (what.to_string(), case));
        }
        if f.len() >= 5 || self.alarms.fetch_add(1, Ordering::Relaxed) >= 40 {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    pub fn violated(&self) -> bool {
        !self.found.lock().unwrap().is_empty()
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v);
        }
    }
    pub fn wants_sample(&self) -> bool {
        self.samples.lock().unwrap().len() < 12
    }
    pub fn outcome(&self, k: &str) {
        *self.outcomes.lock().unwrap().entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn outcome_n(&self, k: &str, n: u64) {
        *self.outcomes.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    /// Count a case as distinct (by hash of its description).
    pub fn distinct(&self, h: u64) -> bool {
        self.distinct.lock().unwrap().insert(h)
    }
    pub fn distinct_count(&self) -> u64 {
        self.distinct.lock().unwrap().len() as u64
    }
    pub fn note(&self, k: &str, v: impl Into<Value>) {
        self.extra.lock().unwrap().insert(k.into(), v.into());
    }
    pub fn eval(&self) {
        self.evaluations.fetch_add(1, Ordering::Relaxed);
    }
    pub fn elapsed(&self) -> Duration {
        self.start.elapsed()
    }

    /// Write evidence and print verdict; returns the process exit code.
    pub fn finish(&self, level: &str, rule: &str, exhaustive: bool, assumptions: &[&str]) -> i32 {
        no_case();
        let found = self.found.lock().unwrap();
        let mut cov = serde_json::Map::new();
        let ev = self.evaluations.load(Ordering::Relaxed);
        let nt = self.nontrivial.load(Ordering::Relaxed);
        let dn = self.distinct_count();
        if level == "model_checking" {
            cov.insert("states".into(), json!(self.states.load(Ordering::Relaxed)));
            cov.insert("transitions".into(), json!(self.transitions.load(Ordering::Relaxed)));
            cov.insert(
                "traces_validated_against_impl".into(),
                json!(self.traces.load(Ordering::Relaxed)),
            );
        }
        if level != "model_checking" || ev > 0 {
            cov.insert("evaluations".into(), json!(ev));
            cov.insert("distinct_nontrivial".into(), json!(if nt > 0 { nt } else { dn }));
        }
        cov.insert("rule".into(), json!(rule));
        cov.insert("exhaustive".into(), json!(exhaustive && !self.stopped()));
        cov.insert("samples".into(), Value::Array(self.samples.lock().unwrap().clone()));
        cov.insert("outcomes".into(), json!(*self.outcomes.lock().unwrap()));
        for (k, v) in self.extra.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone());
        }
        let ev = json!({
            "property": self.id,
            "tier": match self.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": self.elapsed().as_secs_f64(),
            "violations": found.len(),
        });
        let dir = format!("{}/evidence", VERIF);
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            format!("{}/{}.json", dir, self.id),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("cannot write evidence");
        let out = std::io::stdout();
        let mut out = out.lock();
        for (k, w) in self.known_hit.lock().unwrap().iter() {
            let _ = writeln!(out, "KNOWN-FINDING: property={} key={} {}", self.id, k, w);
        }
        let mut code = 0;
        let rdir = format!("{}/out", VERIF);
        for (k, (what, case)) in found.iter() {
            let _ = std::fs::create_dir_all(&rdir);
            let safe: String = k
                .chars()
                .map(|c| if c.is_ascii_alphanumeric() || c == '-' { c } else { '_' })
                .take(80)
                .collect();
            let path = format!("{}/{}-{}.json", rdir, self.id, safe);
            let _ = std::fs::write(
                &path,
                serde_json::to_string_pretty(&json!({
                    "property": self.id, "key": k, "what": what, "case": case,
                }))
                .unwrap(),
            );
            let _ = writeln!(out, "VIOLATION property={} replay={}", self.id, path);
            let _ = writeln!(out, "  key={} : {}", k, what);
            code = 1;
        }
        let _ = writeln!(
            out,
            "{} {:?}: {} ({:.1}s) states={} transitions={} traces={} evaluations={} outcomes={:?}",
            self.id,
            self.tier,
            if code == 0 { "held" } else { "VIOLATED" },
            self.elapsed().as_secs_f64(),
            self.states.load(Ordering::Relaxed),
            self.transitions.load(Ordering::Relaxed),
            self.traces.load(Ordering::Relaxed),
            self.evaluations.load(Ordering::Relaxed),
            self.outcomes.lock().unwrap().iter().take(30).collect::<Vec<_>>(),
        );
        code
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}
/// Panics of the code under test are verdicts, panics of the harness are not.
pub fn install_panic_hook() {
    struct L;
    impl log::Log for L {
        fn enabled(&self, m: &log::Metadata) -> bool {
            m.target().starts_with("over_there")
        }
        fn log(&self, r: &log::Record) {
            if self.enabled(r.metadata()) {
                eprintln!("{} {}", r.level(), r.args());
            }
        }
        fn flush(&self) {}
    }
    if let Ok(l) = std::env::var("OTV_LOG") {
        log::set_max_level(l.parse().unwrap());
        log::set_logger(&L).unwrap();
    }
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if (!from_repo(&loc) || std::env::var("OTV_PANICS").is_ok()) && !msg.contains(QUIET) {
            eprintln!("panic at {}: {}", loc, msg);
            if std::env::var("OTV_BT").is_ok() {
                eprintln!("{}", std::backtrace::Backtrace::force_capture());
            }
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}
/// Marker for panics the harness causes on purpose.
pub const QUIET: &str = "otv-intended-panic";
fn from_repo(loc: &str) -> bool {
    loc.starts_with("/repo/src/") || loc.contains("/.cargo/registry/")
}
pub fn take_panic() -> Option<(String, String)> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}
/// Run `f`; a panic raised by code in /repo becomes a violation.
pub fn guarded(ctx: &Ctx, f: impl FnOnce()) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if let Err(e) = r {
        match take_panic() {
            Some((loc, msg)) if from_repo(&loc) => {
                let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(&loc).to_string();
                ctx.violation(&format!("panic:{}", file), &format!("the code under test panicked at {}: {}", loc, msg), json!({"panic": loc, "message": msg}));
            }
            _ => std::panic::resume_unwind(e),
        }
    }
}

/// Run `f(worker, item)` for every item; items are dealt round-robin so the
/// partition does not depend on timing.
pub fn par_items<T: Sync>(ctx: &Ctx, items: &[T], f: impl Fn(&Ctx, usize, &T) + Sync) {
    let n = ctx.threads;
    no_case();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|w| {
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        crate::interpose::seed_thread(w as u64 + 1);
                        let mut i = w;
                        while i < items.len() {
                            if ctx.stopped() {
                                break;
                            }
                            guarded(ctx, || f(ctx, i, &items[i]));
                            no_case();
                            i += n;
                        }
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                eprintln!("harness worker panicked");
                if !ctx.violated() {
                    std::process::exit(2);
                }
            }
        }
    });
}

/// One execution's choices: replays a prefix, then takes 0 everywhere.
pub struct Chooser {
    prefix: Vec<usize>,
    /// (number of alternatives, choice taken, cost of a non-zero choice)
    pub points: Vec<(usize, usize, usize)>,
}
impl Chooser {
    pub fn new(prefix: Vec<usize>) -> Self {
        Chooser { prefix, points: vec![] }
    }
    /// choose one of `n` alternatives; non-zero costs one deviation
    pub fn dev(&mut self, n: usize) -> usize {
        self.pick(n, 1)
    }
    /// choose one of `n` alternatives, free of charge
    pub fn any(&mut self, n: usize) -> usize {
        self.pick(n, 0)
    }
    pub fn pick(&mut self, n: usize, cost: usize) -> usize {
        assert!(n > 0);
        let i = self.points.len();
        let c = if i < self.prefix.len() {
            let c = self.prefix[i];
            assert!(c < n, "divergence while replaying a prefix: {} of {}", c, n);
            c
        } else {
            0
        };
        self.points.push((n, c, cost));
        c
    }
    pub fn choices(&self) -> Vec<usize> {
        self.points.iter().map(|p| p.1).collect()
    }
}

/// Exhaustive depth-first exploration of all choice sequences whose deviation
/// cost stays within `bound`, starting from `root`.  Returns executions run.
pub fn explore_from(
    root: Vec<usize>,
    bound: usize,
    stop: &dyn Fn() -> bool,
    run: &mut dyn FnMut(&mut Chooser),
) -> u64 {
    let mut stack = vec![root];
    let mut n = 0;
    while let Some(prefix) = stack.pop() {
        if stop() {
            break;
        }
        let plen = prefix.len();
        let mut c = Chooser::new(prefix);
        run(&mut c);
        n += 1;
        assert!(c.points.len() >= plen, "divergence: execution shorter than its prefix");
        let mut cost: usize = c.points[..plen].iter().map(|p| if p.1 > 0 { p.2 } else { 0 }).sum();
        let choices = c.choices();
        let mut add = vec![];
        for i in plen..c.points.len() {
            let (alts, taken, k) = c.points[i];
            debug_assert_eq!(taken, 0);
            if cost + k <= bound {
                for a in 1..alts {
                    let mut p = choices[..i].to_vec();
                    p.push(a);
                    add.push(p);
                }
            }
            cost += if taken > 0 { k } else { 0 };
        }
        add.reverse();
        stack.extend(add);
    }
    n
}

/// All permutations of 0..n.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// A scratch directory owned by one check run; removed on drop.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let p = std::path::PathBuf::from(format!(
            "{}/otv-{}-{}-{}",
            base,
            std::process::id(),
            tag,
            N.fetch_add(1, Ordering::Relaxed)
        ));
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(std::fs::canonicalize(p).unwrap())
    }
    pub fn path(&self) -> &std::path::Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}


// ---------------------------------------------------------------- crash guard
thread_local! { static SLOT: usize = { static N: AtomicU64 = AtomicU64::new(0); (N.fetch_add(1, Ordering::Relaxed) as usize) % SLOTS } }
/// Remember what this thread is about to do, in case the process dies or
/// hangs.  Kept in memory that the supervising process can read.
pub fn last_case(f: impl FnOnce() -> String) {
    if let Some(m) = crash_slots() {
        let s = f();
        let b = s.as_bytes();
        let n = b.len().min(SLOT_LEN - HEAD);
        unsafe {
            let p = m.add(SLOT.with(|s| *s) * SLOT_LEN);
            std::ptr::copy_nonoverlapping((n as u32).to_le_bytes().as_ptr(), p, 4);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(HEAD), n);
            stamp(p).store(crate::rig::real_now().as_secs().max(1), Ordering::SeqCst);
        }
    }
}
/// This thread is between cases.
pub fn no_case() {
    if let Some(m) = crash_slots() {
        let _ = SLOT.try_with(|s| unsafe { stamp(m.add(*s * SLOT_LEN)).store(0, Ordering::SeqCst) });
    }
}
unsafe fn stamp<'a>(slot: *mut u8) -> &'a AtomicU64 {
    &*(slot.add(8) as *const AtomicU64)
}
const HEAD: usize = 16;
/// A single case that takes longer hangs.
const HANG: u64 = 120;
const SLOTS: usize = 64;
const SLOT_LEN: usize = 4096;
static SLOTS_AT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn crash_slots() -> Option<*mut u8> {
    match SLOTS_AT.load(Ordering::Relaxed) {
        0 => None,
        p => Some(p as *mut u8),
    }
}
/// Fork: the child runs the check; if a signal kills it, the code under test
/// crashed the process, which the parent reports.
pub fn supervise(id: &str) {
    unsafe {
        let m = libc::mmap(std::ptr::null_mut(), SLOTS * SLOT_LEN, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(m != libc::MAP_FAILED);
        SLOTS_AT.store(m as usize, Ordering::Relaxed);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            return;
        }
        let mut st = 0;
        loop {
            match libc::waitpid(pid, &mut st, libc::WNOHANG) {
                r if r == pid => break,
                _ => std::thread::sleep(Duration::from_millis(100)),
            }
            let now = crate::rig::real_now().as_secs();
            let stuck: Vec<String> = (0..SLOTS)
                .filter(|i| {
                    let t = stamp(m.cast::<u8>().add(i * SLOT_LEN)).load(Ordering::SeqCst);
                    t > 0 && now > t + HANG
                })
                .filter_map(|i| slot_text(m.cast(), i))
                .collect();
            if !stuck.is_empty() {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
                report(id, "hang", "the code under test does not come to an end", json!({"property": id, "stuck": stuck}));
                libc::_exit(1);
            }
        }
        if libc::WIFEXITED(st) {
            libc::_exit(libc::WEXITSTATUS(st));
        }
        let sig = libc::WTERMSIG(st);
        if sig == libc::SIGSEGV || sig == libc::SIGABRT || sig == libc::SIGBUS || sig == libc::SIGILL || sig == libc::SIGFPE {
            let cases: Vec<String> = (0..SLOTS).filter_map(|i| slot_text(m.cast(), i)).collect();
            report(id, "crash", &format!("the code under test crashed the process (signal {})", sig), json!({"property": id, "signal": sig, "in_progress": cases}));
            libc::_exit(1);
        }
        eprintln!("check process ended by signal {}", sig);
        libc::_exit(3);
    }
}

unsafe fn slot_text(m: *mut u8, i: usize) -> Option<String> {
    let p = m.add(i * SLOT_LEN);
    let mut n = [0u8; 4];
    std::ptr::copy_nonoverlapping(p, n.as_mut_ptr(), 4);
    let n = u32::from_le_bytes(n) as usize;
    if n == 0 {
        return None;
    }
    Some(String::from_utf8_lossy(std::slice::from_raw_parts(p.add(HEAD), n)).to_string())
}
fn report(id: &str, key: &str, what: &str, case: Value) {
    let path = format!("{}/out/{}-{}.json", VERIF, id, key);
    let _ = std::fs::create_dir_all(format!("{}/out", VERIF));
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&case).unwrap());
    println!("VIOLATION property={} replay={}", id, path);
    println!("  key={} : {}", key, what);
}
