//! Exploration framework: exhaustive, parallel, replayable case enumeration with crash, hang
//! and memory monitoring, and evidence reporting.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

// ---------------------------------------------------------------- allocator

pub struct CountingAlloc;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static CAP: Cell<i64> = const { Cell::new(i64::MAX) };
}

fn account(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = CAP.try_with(|c| {
                if v > c.get() {
                    c.set(i64::MAX);
                    let msg = b"XMC: memory limit of a case exceeded\n";
                    unsafe {
                        libc::write(2, msg.as_ptr() as *const _, msg.len());
                        libc::abort();
                    }
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
    // Zeroed memory is mapped lazily, so large zeroed buffers are not counted as growth
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64 - if l.size() > 64 << 20 { l.size() as i64 } else { 0 });
        if l.size() > 64 << 20 {
            // balanced by dealloc, which subtracts the full size
            let _ = LIVE.try_with(|v| v.set(v.get() + l.size() as i64));
            let _ = CAP.try_with(|c| {
                if c.get() != i64::MAX {
                    c.set(c.get().saturating_add(l.size() as i64))
                }
            });
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------- hashing

#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn write(&mut self, bytes: &[u8]) {
        let mut c = bytes.chunks_exact(8);
        for w in &mut c {
            self.0 = (self.0 ^ u64::from_le_bytes(w.try_into().unwrap()))
                .wrapping_mul(0x9e3779b97f4a7c15)
                .rotate_left(29);
        }
        for b in c.remainder() {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- observation of one case

#[derive(Default)]
pub struct Obs {
    pub transitions: u64,
    pub validated: u64,
    pub fired: u64,
    pub states: Vec<u64>,
    pub outcomes: Vec<String>,
}

impl Obs {
    /// `n` implementation operations were executed
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    /// A state (input, or result) was reached; deduplicated by hash
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.push(hash(t));
    }
    /// One execution of the implementation was compared with the model
    pub fn valid(&mut self) {
        self.validated += 1;
    }
    /// The injected fault was actually delivered
    pub fn fired(&mut self) {
        self.fired += 1;
    }
    pub fn outcome(&mut self, s: impl Into<String>) {
        self.outcomes.push(s.into());
    }
}

#[derive(Default)]
struct Agg {
    cases: u64,
    transitions: u64,
    validated: u64,
    fired: u64,
    states: HashSet<u64>,
    outcomes: BTreeMap<String, u64>,
}

impl Agg {
    fn add(&mut self, o: Obs) {
        self.cases += 1;
        self.transitions += o.transitions;
        self.validated += o.validated;
        self.fired += o.fired;
        self.states.extend(o.states);
        for k in o.outcomes {
            *self.outcomes.entry(k).or_default() += 1;
        }
    }
    fn merge(&mut self, o: Agg) {
        self.cases += o.cases;
        self.transitions += o.transitions;
        self.validated += o.validated;
        self.fired += o.fired;
        self.states.extend(o.states);
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_default() += v;
        }
    }
}

pub struct Violation {
    pub group: String,
    pub index: usize,
    pub case: String,
    pub msg: String,
}

const SLOTS: usize = 64;
const SLOT_WORDS: usize = 4; // active, group hash, index, start ms

struct Slots(*mut AtomicU64);
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}

impl Slots {
    fn map(path: &Path) -> Slots {
        let f = std::fs::File::options()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("slots file");
        let len = SLOTS * SLOT_WORDS * 8;
        f.set_len(len as u64).unwrap();
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Slots(p as *mut AtomicU64)
    }
    fn word(&self, slot: usize, w: usize) -> &AtomicU64 {
        unsafe { &*self.0.add(slot * SLOT_WORDS + w) }
    }
}

fn now_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    only: Option<(String, usize)>,
    slots: Option<Slots>,
    agg: Mutex<Agg>,
    groups: Mutex<Vec<Value>>,
    samples: Mutex<Vec<Value>>,
    violations: Mutex<Vec<Violation>>,
    known: Mutex<Vec<String>>,
    stop: AtomicBool,
    start: Instant,
    budget: Duration,
    capped: AtomicBool,
    pub threads: usize,
    pub case_memory: AtomicI64,
    notes: Mutex<Vec<String>>,
    scratch: PathBuf,
    scratch_n: AtomicUsize,
}

impl Ctx {
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }

    /// A fresh scratch directory, removed when dropped
    pub fn scratch(&self) -> Scratch {
        let n = self.scratch_n.fetch_add(1, Ordering::Relaxed);
        let p = self.scratch.join(format!("s{n}"));
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p)
    }

    /// Runs `f` on every case. The number and order of the cases must be deterministic.
    pub fn group<T, F>(&self, name: &str, cases: Vec<T>, f: F)
    where
        T: Debug + Sync,
        F: Fn(&T, &mut Obs) -> Result<(), String> + Sync,
    {
        self.group_threads(name, self.threads, cases, f)
    }

    pub fn group_threads<T, F>(&self, name: &str, threads: usize, cases: Vec<T>, f: F)
    where
        T: Debug + Sync,
        F: Fn(&T, &mut Obs) -> Result<(), String> + Sync,
    {
        if LIST.load(Ordering::SeqCst) {
            println!("{name}");
            return;
        }
        if self.stop.load(Ordering::Relaxed) || only_group().is_some_and(|g| g != name) {
            return;
        }
        let total = cases.len();
        if let Some((g, i)) = &self.only {
            if g != name {
                return;
            }
            if *i >= total {
                eprintln!("no case {i} in group {name}");
                std::process::exit(2);
            }
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let done = AtomicUsize::new(0);
        let gh = hash(name);
        let total_agg = Mutex::new(Agg::default());
        let nthreads = if self.only.is_some() { 1 } else { threads.min(total.max(1)) };
        std::thread::scope(|s| {
            for t in 0..nthreads {
                let (cases, next, done, total_agg, f) = (&cases, &next, &done, &total_agg, &f);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        let mut agg = Agg::default();
                        loop {
                            if self.stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if self.start.elapsed() > self.budget {
                                self.capped.store(true, Ordering::Relaxed);
                                break;
                            }
                            let mut i = next.fetch_add(1, Ordering::Relaxed);
                            if let Some((_, only)) = &self.only {
                                if i > 0 {
                                    break;
                                }
                                i = *only;
                            }
                            if i >= total {
                                break;
                            }
                            if let Some(sl) = &self.slots {
                                sl.word(t, 1).store(gh, Ordering::Relaxed);
                                sl.word(t, 2).store(i as u64, Ordering::Relaxed);
                                sl.word(t, 3).store(now_ms(), Ordering::Relaxed);
                                sl.word(t, 0).store(1, Ordering::SeqCst);
                            }
                            let mut obs = Obs::default();
                            LIVE.with(|l| l.set(0));
                            CAP.with(|c| c.set(self.case_memory.load(Ordering::Relaxed)));
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                f(&cases[i], &mut obs)
                            }));
                            CAP.with(|c| c.set(i64::MAX));
                            if let Some(sl) = &self.slots {
                                sl.word(t, 0).store(0, Ordering::SeqCst);
                            }
                            let msg = match r {
                                Ok(Ok(())) => None,
                                Ok(Err(m)) => Some(m),
                                Err(p) => Some(format!("panic: {}", panic_text(p.as_ref()))),
                            };
                            done.fetch_add(1, Ordering::Relaxed);
                            agg.add(obs);
                            if let Some(msg) = msg {
                                self.violations.lock().unwrap().push(Violation {
                                    group: name.into(),
                                    index: i,
                                    case: clip(&format!("{:?}", cases[i]), 4000),
                                    msg,
                                });
                                self.stop.store(true, Ordering::Relaxed);
                            }
                        }
                        total_agg.lock().unwrap().merge(agg);
                    })
                    .expect("spawn");
            }
        });
        let agg = total_agg.into_inner().unwrap();
        let d = done.load(Ordering::Relaxed);
        {
            let mut s = self.samples.lock().unwrap();
            for k in [0, total / 2] {
                if k < total && s.len() < 24 && !(k == 0 && total / 2 == 0 && s.len() > 20) {
                    s.push(json!({"group": name, "index": k, "case": clip(&format!("{:?}", cases[k]), 400)}));
                    if total / 2 == 0 {
                        break;
                    }
                }
            }
        }
        self.groups.lock().unwrap().push(json!({
            "group": name, "cases": d, "of": total, "complete": d == total,
            "states": agg.states.len(), "transitions": agg.transitions,
            "validated": agg.validated, "outcomes": clip_map(&agg.outcomes),
            "wall_s": (t0.elapsed().as_secs_f64()*100.0).round()/100.0,
        }));
        if std::env::var_os("XMC_VERBOSE").is_some() || self.only.is_some() {
            eprintln!(
                "group {name}: {d}/{total} cases, {} states, {} transitions, {} validated, {:?}, {:.2}s",
                agg.states.len(), agg.transitions, agg.validated, clip_map(&agg.outcomes), t0.elapsed().as_secs_f64()
            );
        }
        self.agg.lock().unwrap().merge(agg);
    }
}

fn clip_map(m: &BTreeMap<String, u64>) -> Value {
    let mut o = serde_json::Map::new();
    for (k, v) in m.iter().take(40) {
        o.insert(clip(k, 100), json!(v));
    }
    if m.len() > 40 {
        o.insert("...".into(), json!(m.len() - 40));
    }
    Value::Object(o)
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.into()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn path(&self) -> &Path {
        &self.0
    }
    pub fn join(&self, p: &str) -> PathBuf {
        self.0.join(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---------------------------------------------------------------- parent and worker

pub struct CheckDef {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&Ctx),
}

pub fn verif_root() -> PathBuf {
    std::env::var_os("XMC_VERIF").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn run_dir() -> PathBuf {
    let p = verif_root().join("target/run");
    std::fs::create_dir_all(&p).unwrap();
    p
}

pub fn scratch_root(id: &str) -> PathBuf {
    // /dev/shm is memory backed, but may be tiny: fall back to the target directory
    let base = std::env::var_os("XMC_SCRATCH").map(PathBuf::from).unwrap_or_else(|| verif_root().join("target/scratch"));
    base.join(format!("{id}.{}", std::process::id()))
}

pub fn worker(def: &CheckDef, thorough: bool, only: Option<(String, usize)>, slots: Option<PathBuf>, out: &Path) -> i32 {
    // Quiet panics: they are reported as violations with their case
    static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
    std::panic::set_hook(Box::new(|i| {
        *LAST_PANIC.lock().unwrap() = format!("{i}");
        if std::env::var_os("XMC_PANIC").is_some() {
            eprintln!("{i}");
        }
    }));
    let scratch = scratch_root(def.id);
    std::fs::create_dir_all(&scratch).expect("scratch root");
    let budget = std::env::var("XMC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3.0 * 3600.0 } else { 420.0 });
    let ctx = Ctx {
        id: def.id.into(),
        thorough,
        only,
        slots: slots.map(|p| Slots::map(&p)),
        agg: Default::default(),
        groups: Default::default(),
        samples: Default::default(),
        violations: Default::default(),
        known: Default::default(),
        stop: AtomicBool::new(false),
        start: Instant::now(),
        budget: Duration::from_secs_f64(budget),
        capped: AtomicBool::new(false),
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16),
        case_memory: AtomicI64::new(3 << 30),
        notes: Default::default(),
        scratch: scratch.clone(),
        scratch_n: AtomicUsize::new(0),
    };
    (def.run)(&ctx);
    let _ = std::fs::remove_dir_all(&scratch);

    let v = ctx.violations.into_inner().unwrap();
    let agg = ctx.agg.into_inner().unwrap();
    let exhaustive = !ctx.capped.load(Ordering::Relaxed) && v.is_empty();
    let groups = ctx.groups.into_inner().unwrap();
    let samples = ctx.samples.into_inner().unwrap();
    let mut cov = json!({
        "samples": samples, "groups": groups, "exhaustive": exhaustive, "rule": def.rule,
    });
    let m = cov.as_object_mut().unwrap();
    if def.level == "fault_enumeration" {
        m.insert("evaluations".into(), json!(agg.cases));
        m.insert("distinct_nontrivial".into(), json!(agg.states.len()));
        m.insert("faults_delivered".into(), json!(agg.fired));
        m.insert("calls_executed".into(), json!(agg.transitions));
        m.insert("compared_with_model".into(), json!(agg.validated));
    } else {
        m.insert("cases".into(), json!(agg.cases));
        m.insert("states".into(), json!(agg.states.len()));
        m.insert("transitions".into(), json!(agg.transitions));
        m.insert("traces_validated_against_impl".into(), json!(agg.validated));
    }
    if !exhaustive && v.is_empty() {
        m.insert("cap_hit".into(), json!(format!("time budget of {budget} s; groups marked complete=false were cut")));
    }
    let notes = ctx.notes.into_inner().unwrap();
    if !notes.is_empty() {
        m.insert("notes".into(), json!(notes));
    }
    let mut vs: Vec<&Violation> = v.iter().collect();
    vs.sort_by_key(|v| (v.group.clone(), v.index));
    let res = json!({
        "coverage": cov,
        "known": ctx.known.into_inner().unwrap(),
        "violations": vs.iter().map(|v| json!({"group": v.group, "index": v.index, "case": v.case, "msg": v.msg})).collect::<Vec<_>>(),
    });
    std::fs::write(out, serde_json::to_vec_pretty(&res).unwrap()).expect("result file");
    0
}

fn spawn_worker(def: &CheckDef, tier: &str, only: Option<(&str, usize)>, slots: &Path, out: &Path) -> std::process::Child {
    use std::os::unix::process::CommandExt;
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("worker").arg(def.id).arg(tier).arg(slots).arg(out);
    if let Some((g, i)) = only {
        c.arg(g).arg(i.to_string());
    }
    unsafe {
        c.pre_exec(|| {
            libc::setpgid(0, 0);
            // no core files, and die with the parent
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c.spawn().expect("spawn worker")
}

fn kill_group(c: &mut std::process::Child) {
    unsafe { libc::kill(-(c.id() as i32), libc::SIGKILL) };
    let _ = c.kill();
    let _ = c.wait();
}

/// XMC_ONLY=group, while developing: such a run gives no verdict
fn only_group() -> Option<String> {
    std::env::var("XMC_ONLY").ok()
}

pub fn parent(def: &CheckDef, tier: &str) -> i32 {
    let r = parent_whole(def, tier);
    if r == 0 && only_group().is_some() {
        return 4;
    }
    r
}

fn parent_whole(def: &CheckDef, tier: &str) -> i32 {
    let hang_ms: u64 = std::env::var("XMC_HANG_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(60_000);
    match parent_with(def, tier, hang_ms) {
        // a slow case that is not a hang: start over with more patience
        3 => match parent_with(def, tier, hang_ms * 8) {
            3 => 2,
            r => r,
        },
        r => r,
    }
}

fn parent_with(def: &CheckDef, tier: &str, hang_ms: u64) -> i32 {
    let t0 = Instant::now();
    let rd = run_dir();
    let pid = std::process::id();
    let slots_p = rd.join(format!("{}.{pid}.slots", def.id));
    let out_p = rd.join(format!("{}.{pid}.json", def.id));
    let slots = Slots::map(&slots_p);
    let mut w = spawn_worker(def, tier, None, &slots_p, &out_p);
    let mut suspects: Vec<(u64, usize, &str)> = Vec::new();
    let status = loop {
        if let Some(s) = w.try_wait().expect("wait") {
            break Some(s);
        }
        let n = now_ms();
        for t in 0..SLOTS {
            if slots.word(t, 0).load(Ordering::SeqCst) == 1 {
                let age = n.saturating_sub(slots.word(t, 3).load(Ordering::Relaxed));
                if age > hang_ms {
                    suspects.push((slots.word(t, 1).load(Ordering::Relaxed), slots.word(t, 2).load(Ordering::Relaxed) as usize, "hang"));
                }
            }
        }
        if !suspects.is_empty() {
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let mut result: Option<Value> = None;
    let mut extra: Vec<Value> = Vec::new();
    match status {
        Some(s) if s.success() => {
            result = std::fs::read(&out_p).ok().and_then(|b| serde_json::from_slice(&b).ok());
        }
        Some(s) => {
            use std::os::unix::process::ExitStatusExt;
            if s.signal().is_none() {
                eprintln!("worker failed: {s}");
            } else {
                for t in 0..SLOTS {
                    if slots.word(t, 0).load(Ordering::SeqCst) == 1 {
                        suspects.push((slots.word(t, 1).load(Ordering::Relaxed), slots.word(t, 2).load(Ordering::Relaxed) as usize, "crash"));
                    }
                }
                eprintln!("worker died ({s}); {} cases in flight", suspects.len());
            }
        }
        None => {
            kill_group(&mut w);
        }
    }
    let _ = std::fs::remove_dir_all(scratch_for(def.id, w.id()));
    // Confirm each suspect on its own
    if result.is_none() {
        let names = group_names(def, tier);
        for (gh, idx, kind) in suspects {
            let Some(g) = names.iter().find(|n| hash(n.as_str()) == gh) else { continue };
            let mut c = spawn_worker(def, tier, Some((g, idx)), &rd.join(format!("{}.{pid}.slots2", def.id)), &out_p);
            let t = Instant::now();
            let limit = Duration::from_millis(hang_ms * 2);
            let mut msg = None;
            loop {
                if let Some(s) = c.try_wait().unwrap() {
                    use std::os::unix::process::ExitStatusExt;
                    if let Some(sig) = s.signal() {
                        msg = Some(format!("process killed by signal {sig} (stack overflow, abort or memory limit)"));
                    } else if s.success() {
                        if let Some(v) = std::fs::read(&out_p).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()) {
                            if let Some(x) = v["violations"].as_array().and_then(|a| a.first()) {
                                msg = Some(x["msg"].as_str().unwrap_or("?").to_string());
                            }
                        }
                    }
                    break;
                }
                if t.elapsed() > limit {
                    kill_group(&mut c);
                    msg = Some(format!("does not terminate within {} s", limit.as_secs()));
                    break;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            let _ = std::fs::remove_dir_all(scratch_for(def.id, c.id()));
            if let Some(m) = msg {
                extra.push(json!({"group": g, "index": idx, "case": format!("{kind}"), "msg": m}));
                break;
            }
        }
    }
    let mut violations: Vec<Value> = result.as_ref().and_then(|r| r["violations"].as_array().cloned()).unwrap_or_default();
    violations.extend(extra);
    let _ = std::fs::remove_file(&slots_p);
    let _ = std::fs::remove_file(rd.join(format!("{}.{pid}.slots2", def.id)));
    let _ = std::fs::remove_file(&out_p);
    if result.is_none() && violations.is_empty() {
        if status.is_none() {
            eprintln!("a case of {} was slow but terminated", def.id);
            return 3;
        }
        eprintln!("check {} failed to produce a result", def.id);
        return 2;
    }
    let coverage = result.as_ref().map(|r| r["coverage"].clone()).unwrap_or_else(|| json!({
        "evaluations": 1, "distinct_nontrivial": 1, "states": 1, "transitions": 1, "traces_validated_against_impl": 1,
        "rule": def.rule, "samples": violations.clone(), "aborted": true,
    }));
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = json!({
        "property": def.id, "tier": tier, "seed": seed, "level": def.level,
        "coverage": coverage, "assumptions": def.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64()*100.0).round()/100.0,
        "violations": violations.len(),
    });
    let evd = verif_root().join("evidence");
    std::fs::create_dir_all(&evd).unwrap();
    std::fs::write(evd.join(format!("{}.json", def.id)), serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");
    if let Some(r) = &result {
        for k in r["known"].as_array().cloned().unwrap_or_default() {
            println!("KNOWN-FINDING: property={} {}", def.id, k.as_str().unwrap_or(""));
        }
    }
    if violations.is_empty() {
        let c = &ev["coverage"];
        println!(
            "OK property={} tier={tier} cases={} states={} transitions={} validated={} wall={}s",
            def.id,
            c.get("cases").or(c.get("evaluations")).unwrap_or(&Value::Null),
            c.get("states").or(c.get("distinct_nontrivial")).unwrap_or(&Value::Null),
            c.get("transitions").or(c.get("calls_executed")).unwrap_or(&Value::Null),
            c.get("traces_validated_against_impl").or(c.get("compared_with_model")).unwrap_or(&Value::Null),
            ev["wall_s"]
        );
        return 0;
    }
    let rp = verif_root().join("target/replay");
    std::fs::create_dir_all(&rp).unwrap();
    let v = &violations[0];
    let path = rp.join(format!("{}-{}-{}.json", def.id, v["group"].as_str().unwrap_or("g").replace(|c: char| !c.is_ascii_alphanumeric(), "_"), v["index"]));
    let replay = json!({
        "property": def.id, "tier": tier, "group": v["group"], "index": v["index"], "case": v["case"], "msg": v["msg"],
        "how": format!("{} replay {}", std::env::current_exe().unwrap().display(), path.display()),
        "all": violations,
    });
    std::fs::write(&path, serde_json::to_vec_pretty(&replay).unwrap()).unwrap();
    println!("case: group={} index={} {}", v["group"], v["index"], clip(v["case"].as_str().unwrap_or(""), 1500));
    println!("what: {}", clip(v["msg"].as_str().unwrap_or(""), 3000));
    println!("VIOLATION property={} replay={}", def.id, path.display());
    1
}

fn scratch_for(id: &str, pid: u32) -> PathBuf {
    let mut p = scratch_root(id);
    p.set_file_name(format!("{id}.{pid}"));
    p
}

/// Group names are discovered by a dry run of the check in a child (no cases are executed).
fn group_names(def: &CheckDef, tier: &str) -> Vec<String> {
    let o = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("groups").arg(def.id).arg(tier).output().expect("groups");
    String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect()
}

pub fn list_groups(def: &CheckDef, thorough: bool) -> i32 {
    let scratch = scratch_root(def.id);
    std::fs::create_dir_all(&scratch).expect("scratch root");
    let ctx = Ctx {
        id: def.id.into(), thorough, only: Some(("\0none".into(), 0)), slots: None,
        agg: Default::default(), groups: Default::default(), samples: Default::default(),
        violations: Default::default(), known: Default::default(), stop: AtomicBool::new(false),
        start: Instant::now(), budget: Duration::from_secs(3600), capped: AtomicBool::new(false),
        threads: 1, case_memory: AtomicI64::new(i64::MAX), notes: Default::default(), scratch: scratch.clone(), scratch_n: AtomicUsize::new(0),
    };
    LIST.store(true, Ordering::SeqCst);
    (def.run)(&ctx);
    let _ = std::fs::remove_dir_all(&scratch);
    0
}
pub static LIST: AtomicBool = AtomicBool::new(false);
