//! Stateless, exhaustive exploration of choice trees on the implementation.
//!
//! A scenario is a deterministic function of the answers it gets from `Ctx::choose`.
//! The explorer runs it once for every sequence of answers (depth first, split over
//! worker threads), so every execution within the scenario's bounds is visited.
//! A supervising parent process watches the exploring child through shared memory:
//! if the child is killed by a signal or stops making progress, the executions that were
//! in flight are replayed one by one to find the culprit.

use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- hashing

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Fx {
    #[inline]
    fn add(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}
impl Hasher for Fx {
    #[inline]
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(v));
        }
        self.add(b.len() as u64);
    }
    #[inline]
    fn write_u8(&mut self, x: u8) {
        self.add(x as u64)
    }
    #[inline]
    fn write_u32(&mut self, x: u32) {
        self.add(x as u64)
    }
    #[inline]
    fn write_u64(&mut self, x: u64) {
        self.add(x)
    }
    #[inline]
    fn write_usize(&mut self, x: usize) {
        self.add(x as u64)
    }
    #[inline]
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}
pub type FxSet = HashSet<u64, BuildHasherDefault<Fx>>;
pub fn hash_of<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = Fx::default();
    x.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- context

/// Payload of a property violation.
pub struct Fail(pub String);

const SLOT_CAP: usize = 4096;
/// Per-worker area shared with the supervising parent.
#[repr(C)]
struct Slot {
    scenario: AtomicU32, // index + 1, 0 = idle
    len: AtomicU32,
    beat: AtomicU64,
    choice: [AtomicU32; SLOT_CAP],
}

pub struct Ctx<'a> {
    prefix: &'a [u32],
    trail: Vec<(u32, u32)>,
    slot: Option<&'a Slot>,
    thorough: bool,
    recording: bool,
    notes: Vec<String>,
    transitions: u64,
    scen_hash: u64,
    states: &'a mut FxSet,
    states_capped: bool,
    known: &'a HashMap<String, String>,
    known_hit: &'a mut HashMap<String, String>,
    prop: &'a str,
}

const STATE_CAP: usize = 3_000_000;

impl<'a> Ctx<'a> {
    /// One of `0..n`, every value on some execution.
    #[inline]
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "choose(0)");
        let d = self.trail.len();
        let v = if d < self.prefix.len() { self.prefix[d] } else { 0 };
        if v as usize >= n {
            panic!("machinery: replayed choice {} out of range {} at depth {}", v, n, d);
        }
        self.trail.push((v, n as u32));
        if let Some(s) = self.slot {
            if d < SLOT_CAP {
                s.choice[d].store(v, Relaxed);
                s.len.store(d as u32 + 1, Relaxed);
            }
        }
        v as usize
    }
    #[inline]
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.choose(xs.len())]
    }
    #[inline]
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    #[inline]
    pub fn thorough(&self) -> bool {
        self.thorough
    }
    /// Says that an execution that takes long is still making progress.
    pub fn alive(&self) {
        if let Some(s) = self.slot {
            s.beat.fetch_add(1, Relaxed);
        }
    }
    /// Human-readable trace line, kept only for replays and samples.
    #[inline]
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.recording {
            self.notes.push(f());
        }
    }
    /// Count `n` operations of the implementation that were compared with the oracle.
    #[inline]
    pub fn ops(&mut self, n: u64) {
        self.transitions += n;
    }
    /// Count an observed state.
    #[inline]
    pub fn state<T: Hash + ?Sized>(&mut self, x: &T) {
        let mut h = Fx(self.scen_hash);
        x.hash(&mut h);
        if self.states.len() < STATE_CAP {
            self.states.insert(h.finish());
        } else {
            self.states_capped = true;
        }
    }
    /// Report a violation.
    pub fn fail(&self, m: String) -> ! {
        panic_any(Fail(m))
    }
    /// Report a violation that the known-findings file may list under `key`.
    pub fn fail_known(&mut self, key: &str, m: String) {
        if let Some(d) = self.known.get(&format!("{}|{}", self.prop, key)) {
            self.known_hit.insert(key.to_string(), d.clone());
        } else {
            panic_any(Fail(format!("[{}] {}", key, m)))
        }
    }
}

/// `ensure!(ctx, condition, "format", args..)`: violation unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $e:expr, $($m:tt)+) => {
        if !($e) { $c.fail(format!($($m)+)) }
    };
}
/// `same!(ctx, got, want, "format", args..)`
#[macro_export]
macro_rules! same {
    ($c:expr, $g:expr, $w:expr, $($m:tt)+) => {{
        let (g, w) = (&$g, &$w);
        if !(*g == *w) { $c.fail(format!("{}: got {:?}, expected {:?}", format!($($m)+), g, w)) }
    }};
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: Cell<bool> = Cell::new(true);
}

fn install_hook() {
    let loud = std::env::var("MC_LOUD").is_ok();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(f) = info.payload().downcast_ref::<Fail>() {
            f.0.clone()
        } else if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<panic>".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if loud {
            eprintln!("panic: {}{}", msg, loc);
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{}{}", msg, loc));
    }));
}

/// Payload of a panic that a scenario injects on purpose.
pub struct Injected;

/// What a closure that may panic did.
#[derive(Debug, PartialEq, Clone)]
pub enum Outcome<T> {
    Value(T),
    /// The panic that the scenario injected came out.
    Injected,
    /// The implementation itself panicked.
    Panicked(String),
}
impl<T> Outcome<T> {
    pub fn panicked(&self) -> bool {
        matches!(self, Outcome::Panicked(_))
    }
    pub fn value(self) -> Option<T> {
        match self {
            Outcome::Value(x) => Some(x),
            _ => None,
        }
    }
}
pub fn attempt<T>(f: impl FnOnce() -> T) -> Outcome<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Outcome::Value(x),
        Err(e) => {
            if e.is::<Injected>() {
                Outcome::Injected
            } else if e.is::<Fail>() {
                std::panic::resume_unwind(e)
            } else {
                Outcome::Panicked(LAST_PANIC.with(|p| p.borrow().clone()))
            }
        }
    }
}
pub fn inject() -> ! {
    panic_any(Injected)
}

// ---------------------------------------------------------------- registry

pub type Body = Box<dyn Fn(&mut Ctx) + Send + Sync>;
pub struct Scenario {
    pub name: String,
    pub body: Body,
}
#[derive(Default)]
pub struct Reg {
    pub list: Vec<Scenario>,
    thorough: bool,
}
impl Reg {
    pub fn add(&mut self, name: impl Into<String>, body: impl Fn(&mut Ctx) + Send + Sync + 'static) {
        self.list.push(Scenario { name: name.into(), body: Box::new(body) });
    }
    pub fn thorough(&self) -> bool {
        self.thorough
    }
}

/// `each_n!(reg, "name", func, [0, 1, 2])` registers `func::<N>` for every listed dimension;
/// `func[Ty]` passes a type first, `(0, 1)` passes two dimensions.
#[macro_export]
macro_rules! each_n {
    ($r:expr, $name:expr, $f:ident, [$($n:literal),* $(,)?]) => {
        $( $r.add(format!("{}/{}", $name, $n), $f::<$n>); )*
    };
    ($r:expr, $name:expr, $f:ident<$t:ty>, [$($n:literal),* $(,)?]) => {
        $( $r.add(format!("{}<{}>/{}", $name, stringify!($t), $n), $f::<$t, $n>); )*
    };
}
#[macro_export]
macro_rules! each_mn {
    ($r:expr, $name:expr, $f:ident, [$($m:literal x $n:literal),* $(,)?]) => {
        $( $r.add(format!("{}/{}x{}", $name, $m, $n), $f::<$m, $n>); )*
    };
    ($r:expr, $name:expr, $f:ident<$t:ty>, [$($m:literal x $n:literal),* $(,)?]) => {
        $( $r.add(format!("{}<{}>/{}x{}", $name, stringify!($t), $m, $n), $f::<$t, $m, $n>); )*
    };
}

// ---------------------------------------------------------------- exploration

#[derive(Clone)]
struct Task {
    scen: usize,
    prefix: Vec<u32>,
}
struct Violation {
    scen: usize,
    choices: Vec<u32>,
    message: String,
    notes: Vec<String>,
}
struct Shared<'a> {
    scens: &'a [Scenario],
    queue: Mutex<Vec<Task>>,
    pending: AtomicUsize, // tasks queued or running
    hungry: AtomicUsize,
    stop: AtomicBool,
    deadline: Instant,
    timed_out: AtomicBool,
    violation: Mutex<Option<Violation>>,
    per_scen: Vec<AtomicU64>,
    per_scen_us: Vec<AtomicU64>,
}
#[derive(Default)]
struct WorkerStats {
    states: FxSet,
    transitions: u64,
    executions: u64,
    max_depth: usize,
    capped: bool,
    known_hit: HashMap<String, String>,
}

fn run_once(
    sc: &Scenario,
    prefix: &[u32],
    slot: Option<&Slot>,
    cfg: &Config,
    recording: bool,
    st: &mut WorkerStats,
    trail_buf: Vec<(u32, u32)>,
) -> (Vec<(u32, u32)>, Vec<String>, Option<String>) {
    let mut trail = trail_buf;
    trail.clear();
    if let Some(s) = slot {
        s.len.store(0, Relaxed);
        s.beat.fetch_add(1, Relaxed);
    }
    let mut ctx = Ctx {
        prefix,
        trail,
        slot,
        thorough: cfg.thorough,
        recording,
        notes: Vec::new(),
        transitions: 0,
        scen_hash: hash_of(&sc.name),
        states: &mut st.states,
        states_capped: false,
        known: &cfg.known,
        known_hit: &mut st.known_hit,
        prop: &cfg.prop,
    };
    crate::tok::reset();
    let r = catch_unwind(AssertUnwindSafe(|| (sc.body)(&mut ctx)));
    let Ctx { trail, notes, transitions, states_capped, .. } = ctx;
    st.capped |= states_capped;
    st.transitions += transitions;
    st.executions += 1;
    st.max_depth = st.max_depth.max(trail.len());
    let msg = match r {
        Ok(()) => None,
        Err(e) => Some(match e.downcast::<Fail>() {
            Ok(f) => f.0,
            Err(_) => format!("unexpected panic: {}", LAST_PANIC.with(|p| p.borrow().clone())),
        }),
    };
    (trail, notes, msg)
}

fn worker(sh: &Shared, cfg: &Config, slot: Option<&Slot>) -> WorkerStats {
    let mut st = WorkerStats::default();
    // executions between two looks at the clock: few where one of them starts a process
    let (mut looked, often) = (0u64, if cfg.prop == "C24" { 0u64 } else { 63 });
    'outer: loop {
        let task = {
            let t = sh.queue.lock().unwrap().pop();
            match t {
                Some(t) => t,
                None => {
                    if sh.pending.load(SeqCst) == 0 || sh.stop.load(Relaxed) {
                        break;
                    }
                    sh.hungry.fetch_add(1, SeqCst);
                    loop {
                        std::thread::sleep(Duration::from_micros(200));
                        if sh.stop.load(Relaxed) || sh.pending.load(SeqCst) == 0 {
                            sh.hungry.fetch_sub(1, SeqCst);
                            break 'outer;
                        }
                        if !sh.queue.lock().unwrap().is_empty() {
                            break;
                        }
                    }
                    sh.hungry.fetch_sub(1, SeqCst);
                    continue;
                }
            }
        };
        let sc = &sh.scens[task.scen];
        if let Some(s) = slot {
            s.scenario.store(task.scen as u32 + 1, Relaxed);
        }
        let mut base = task.prefix.len();
        let mut prefix = task.prefix.clone();
        let mut buf = Vec::new();
        let t0 = Instant::now();
        let mut execs = 0u64;
        loop {
            let (mut trail, _, msg) = run_once(sc, &prefix, slot, cfg, false, &mut st, buf);
            execs += 1;
            if let Some(message) = msg {
                let choices: Vec<u32> = trail.iter().map(|c| c.0).collect();
                let mut v = sh.violation.lock().unwrap();
                if v.is_none() {
                    *v = Some(Violation { scen: task.scen, choices, message, notes: vec![] });
                }
                sh.stop.store(true, SeqCst);
            }
            if sh.stop.load(Relaxed) {
                break;
            }
            looked += 1;
            if looked & often == 0 && Instant::now() > sh.deadline {
                sh.timed_out.store(true, SeqCst);
                sh.stop.store(true, SeqCst);
                break;
            }
            // give part of the remaining subtree away
            if sh.hungry.load(Relaxed) > 0 {
                for d in base..trail.len() {
                    if trail[d].0 + 1 < trail[d].1 {
                        let mut q = sh.queue.lock().unwrap();
                        let pre: Vec<u32> = trail[..d].iter().map(|c| c.0).collect();
                        for v in (trail[d].0 + 1..trail[d].1).rev() {
                            let mut p = pre.clone();
                            p.push(v);
                            q.push(Task { scen: task.scen, prefix: p });
                            sh.pending.fetch_add(1, SeqCst);
                        }
                        base = d + 1;
                        break;
                    }
                }
            }
            // next execution of this subtree
            while trail.len() > base {
                let l = trail.len() - 1;
                if trail[l].0 + 1 < trail[l].1 {
                    break;
                }
                trail.pop();
            }
            if trail.len() <= base {
                break;
            }
            let l = trail.len() - 1;
            prefix.clear();
            prefix.extend(trail[..l].iter().map(|c| c.0));
            prefix.push(trail[l].0 + 1);
            buf = trail;
        }
        sh.per_scen[task.scen].fetch_add(execs, Relaxed);
        sh.per_scen_us[task.scen].fetch_add(t0.elapsed().as_micros() as u64, Relaxed);
        if let Some(s) = slot {
            s.scenario.store(0, Relaxed);
        }
        sh.pending.fetch_sub(1, SeqCst);
    }
    st
}

// ---------------------------------------------------------------- configuration

pub struct Config {
    pub prop: String,
    pub thorough: bool,
    pub known: HashMap<String, String>,
    pub verif: PathBuf,
    pub seed: i64,
    pub deadline_s: u64,
    pub filter: Option<String>,
    pub threads: usize,
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

/// Lines `known: property=<id> key=<key> <text>` of the committed known-findings file.
fn load_known(dir: &Path) -> HashMap<String, String> {
    let mut m = HashMap::new();
    if let Ok(s) = std::fs::read_to_string(dir.join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut it = r.splitn(3, ' ');
                if let (Some(p), Some(k), d) = (it.next(), it.next(), it.next()) {
                    if let (Some(p), Some(k)) = (p.strip_prefix("property="), k.strip_prefix("key=")) {
                        m.insert(format!("{}|{}", p, k), d.unwrap_or("").to_string());
                    }
                }
            }
        }
    }
    m
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", "))
}

/// Static description of a check.
pub struct Check {
    pub prop: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub build: fn(&mut Reg),
}

const HANG_S: u64 = 60;

pub fn main(check: Check) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut filter = std::env::var("MC_FILTER").ok();
    let mut replay = None;
    let mut list = false;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "quick" | "thorough" => tier = args[i].clone(),
            "--filter" => {
                i += 1;
                filter = Some(args[i].clone());
            }
            "--replay" => {
                i += 1;
                replay = Some(args[i].clone());
            }
            "--list" => list = true,
            x => {
                eprintln!("unknown argument {}", x);
                std::process::exit(2)
            }
        }
        i += 1;
    }
    let thorough = tier == "thorough";
    let dir = verif_dir();
    let cfg = Config {
        prop: check.prop.into(),
        thorough,
        known: load_known(&dir),
        verif: dir,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0),
        deadline_s: std::env::var("MC_DEADLINE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { 3000 } else { 500 }),
        filter,
        threads: std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
        }),
    };
    if let Some(f) = replay {
        std::process::exit(do_replay(&check, cfg, &f));
    }
    let mut reg = Reg { list: vec![], thorough };
    (check.build)(&mut reg);
    if let Some(f) = &cfg.filter {
        reg.list.retain(|s| s.name.contains(f.as_str()));
    }
    {
        let mut seen = HashSet::new();
        for s in &reg.list {
            assert!(seen.insert(s.name.clone()), "duplicate scenario {}", s.name);
        }
    }
    if list {
        for s in &reg.list {
            println!("{}", s.name);
        }
        return;
    }
    match std::env::var("MC_SHM") {
        Ok(p) => std::process::exit(child(&check, cfg, reg, Some(&p))),
        Err(_) if std::env::var("MC_INLINE").is_ok() => std::process::exit(child(&check, cfg, reg, None)),
        Err(_) => std::process::exit(parent(&check, cfg, reg)),
    }
}

fn map_slots(path: &str, n: usize) -> &'static [Slot] {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).expect("shm file");
    let len = n * std::mem::size_of::<Slot>();
    f.set_len(len as u64).expect("shm size");
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        std::slice::from_raw_parts(p as *const Slot, n)
    }
}

fn child(check: &Check, cfg: Config, reg: Reg, shm: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let slots = shm.map(|p| map_slots(p, cfg.threads));
    let n = reg.list.len();
    let sh = Shared {
        scens: &reg.list,
        queue: Mutex::new((0..n).rev().map(|s| Task { scen: s, prefix: vec![] }).collect()),
        pending: AtomicUsize::new(n),
        hungry: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        deadline: t0 + Duration::from_secs(cfg.deadline_s),
        timed_out: AtomicBool::new(false),
        violation: Mutex::new(None),
        per_scen: (0..n).map(|_| AtomicU64::new(0)).collect(),
        per_scen_us: (0..n).map(|_| AtomicU64::new(0)).collect(),
    };
    let stats: Vec<WorkerStats> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..cfg.threads)
            .map(|i| {
                let (sh, cfg) = (&sh, &cfg);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || worker(sh, cfg, slots.map(|s| &s[i])))
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker")).collect()
    });
    let mut all = WorkerStats::default();
    for s in stats {
        if all.states.is_empty() {
            all.states = s.states;
        } else {
            all.states.extend(s.states);
        }
        all.transitions += s.transitions;
        all.executions += s.executions;
        all.max_depth = all.max_depth.max(s.max_depth);
        all.capped |= s.capped;
        all.known_hit.extend(s.known_hit);
    }
    let timed_out = sh.timed_out.load(SeqCst);
    let viol = sh.violation.lock().unwrap().take();
    // samples: the first execution of scenarios spread over the list, written out
    let mut samples = vec![];
    if viol.is_none() {
        let k = 6.min(n);
        for j in 0..k {
            let sc = &reg.list[j * n / k];
            let mut st = WorkerStats::default();
            let (trail, notes, _) = run_once(sc, &[], None, &cfg, true, &mut st, vec![]);
            // a later execution: bump the deepest choice that can be bumped
            let mut pre: Vec<u32> = vec![];
            if let Some(d) = trail.iter().rposition(|c| c.0 + 1 < c.1) {
                pre = trail[..d].iter().map(|c| c.0).collect();
                pre.push(trail[d].1 - 1);
            }
            let (trail2, notes2, _) = run_once(sc, &pre, None, &cfg, true, &mut st, vec![]);
            let (t, no) = if notes2.is_empty() { (trail, notes) } else { (trail2, notes2) };
            let mut s = format!(
                "{} choices={:?}",
                sc.name,
                t.iter().map(|c| c.0).take(24).collect::<Vec<_>>()
            );
            for x in no.iter().take(6) {
                s.push_str(" | ");
                s.push_str(&x.chars().take(200).collect::<String>());
            }
            samples.push(s);
        }
    }
    let execs_per: Vec<(String, u64, u64)> = reg
        .list
        .iter()
        .enumerate()
        .map(|(i, s)| (s.name.clone(), sh.per_scen[i].load(SeqCst), sh.per_scen_us[i].load(SeqCst)))
        .collect();
    if std::env::var("MC_STATS").is_ok() {
        let mut v = execs_per.clone();
        v.sort_by_key(|x| std::cmp::Reverse(x.2));
        for (nm, e, us) in v.iter().take(40) {
            eprintln!("{:>10} execs {:>9.3}s  {}", e, *us as f64 / 1e6, nm);
        }
    }
    let exhaustive = viol.is_none() && !timed_out && cfg.filter.is_none();
    let violations = viol.is_some() as u32;
    let mut code = 0;
    if let Some(mut v) = viol {
        // confirm and write out
        let sc = &reg.list[v.scen];
        let mut st = WorkerStats::default();
        let (_, notes, msg) = run_once(sc, &v.choices, None, &cfg, true, &mut st, vec![]);
        v.notes = notes;
        let reproduced = msg.is_some();
        let path = write_replay(&cfg, &sc.name, &v.choices, &v.message, &v.notes, reproduced);
        println!("violation in scenario {}: {}", sc.name, v.message);
        for l in v.notes.iter().take(12) {
            println!("    {}", l);
        }
        println!("VIOLATION property={} replay={}", cfg.prop, path.display());
        code = 1;
    }
    for (k, d) in &all.known_hit {
        println!("KNOWN-FINDING: property={} {} ({})", cfg.prop, d, k);
    }
    let wall = t0.elapsed().as_secs_f64();
    let tier = if cfg.thorough { "thorough" } else { "quick" };
    let mut groups: HashMap<String, (u64, u64)> = HashMap::new();
    for (nm, e, _) in &execs_per {
        let g = nm.split('/').next().unwrap_or("").to_string();
        let x = groups.entry(g).or_default();
        x.0 += 1;
        x.1 += e;
    }
    let mut gs: Vec<_> = groups.into_iter().collect();
    gs.sort();
    let gtxt = gs
        .iter()
        .map(|(g, (c, e))| format!("\"{}\": {{\"scenarios\": {}, \"executions\": {}}}", esc(g), c, e))
        .collect::<Vec<_>>()
        .join(", ");
    let this = format!(
        "{{\"debug_assertions\": {}, \"states\": {}, \"transitions\": {}, \"executions\": {}, \"exhaustive\": {}, \"wall_s\": {:.3}}}",
        cfg!(debug_assertions), all.states.len(), all.transitions, all.executions, exhaustive, wall
    );
    // an earlier exploration of the same property in the other build, if there was one
    let builds = match std::env::var("MC_SUMMARY") {
        Ok(f) => {
            let prior = std::fs::read_to_string(&f).unwrap_or_default();
            let _ = std::fs::write(&f, format!("{}{}\n", prior, this));
            prior.lines().map(String::from).chain([this]).collect::<Vec<_>>()
        }
        Err(_) => vec![this],
    };
    let ev = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"rule\": \"{}\",\n  \"exhaustive\": {},\n  \"states_count_capped\": {},\n  \"scenarios\": {},\n  \"max_choice_depth\": {},\n  \"groups\": {{{}}},\n  \"builds\": [{}],\n  \"samples\": {}\n }},\n \"assumptions\": {},\n \"violations\": {},\n \"known_findings\": {},\n \"wall_s\": {:.3}\n}}\n",
        cfg.prop,
        tier,
        cfg.seed,
        check.level,
        all.states.len(),
        all.transitions,
        all.executions,
        esc(check.rule),
        exhaustive,
        all.capped,
        n,
        all.max_depth,
        gtxt,
        builds.join(", "),
        jlist(&samples),
        jlist(&check.assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        violations,
        jlist(&all.known_hit.keys().cloned().collect::<Vec<_>>()),
        wall
    );
    write_evidence(&cfg, &ev);
    println!(
        "{} {} ({} debug assertions): {} scenarios, {} executions, {} states, {} transitions, exhaustive={} in {:.1}s",
        cfg.prop, tier, if cfg!(debug_assertions) { "with" } else { "without" }, n, all.executions, all.states.len(), all.transitions, exhaustive, wall
    );
    if all.executions == 0 {
        println!("nothing explored");
        return 2;
    }
    let _ = std::io::stdout().flush();
    code
}

pub fn write_evidence(cfg: &Config, text: &str) {
    if cfg.filter.is_some() {
        return;
    }
    let d = cfg.verif.join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(d.join(format!("{}.json", cfg.prop)), text);
}

fn write_replay(cfg: &Config, scen: &str, choices: &[u32], msg: &str, notes: &[String], reproduced: bool) -> PathBuf {
    let d = cfg.verif.join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&d);
    let p = d.join(format!("{}-{:016x}.json", cfg.prop, hash_of(&(scen, choices))));
    let cs = choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
    let t = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"scenario\": \"{}\",\n \"choices\": \"{}\",\n \"message\": \"{}\",\n \"reproduced_alone\": {},\n \"trace\": {}\n}}\n",
        cfg.prop,
        if cfg.thorough { "thorough" } else { "quick" },
        esc(scen),
        cs,
        esc(msg),
        reproduced,
        jlist(notes)
    );
    let _ = std::fs::write(&p, t);
    p
}

fn jfield(s: &str, k: &str) -> Option<String> {
    let i = s.find(&format!("\"{}\": \"", k))? + k.len() + 5;
    let mut o = String::new();
    let mut it = s[i..].chars();
    while let Some(c) = it.next() {
        match c {
            '"' => return Some(o),
            '\\' => o.push(it.next()?),
            c => o.push(c),
        }
    }
    None
}

fn do_replay(check: &Check, mut cfg: Config, file: &str) -> i32 {
    let s = match std::fs::read_to_string(file) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let scen = jfield(&s, "scenario").unwrap_or_default();
    let ch: Vec<u32> =
        jfield(&s, "choices").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect();
    cfg.thorough = jfield(&s, "tier").as_deref() == Some("thorough");
    let mut reg = Reg { list: vec![], thorough: cfg.thorough };
    (check.build)(&mut reg);
    let sc = match reg.list.iter().find(|x| x.name == scen) {
        Some(s) => s,
        None => {
            eprintln!("no scenario {}", scen);
            return 2;
        }
    };
    let mut st = WorkerStats::default();
    let (_, notes, msg) = run_once(sc, &ch, None, &cfg, true, &mut st, vec![]);
    for l in &notes {
        println!("    {}", l);
    }
    match msg {
        None => {
            println!("replay: property held");
            0
        }
        Some(m) => {
            println!("replay: {}", m);
            println!("VIOLATION property={} replay={}", cfg.prop, file);
            1
        }
    }
}

fn parent(_check: &Check, cfg: Config, reg: Reg) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let tmp = std::env::temp_dir().join(format!("mc-{}-{}", cfg.prop, std::process::id()));
    let _ = std::fs::create_dir_all(&tmp);
    let shm = tmp.join("slots");
    let shm_s = shm.to_string_lossy().to_string();
    let slots = map_slots(&shm_s, cfg.threads);
    let mut c = Command::new(&exe)
        .args(std::env::args().skip(1))
        .env("MC_SHM", &shm_s)
        .env("MC_THREADS", cfg.threads.to_string())
        .spawn()
        .expect("spawn worker");
    let mut last: Vec<(u64, Instant)> = slots.iter().map(|s| (s.beat.load(Relaxed), Instant::now())).collect();
    let start = Instant::now();
    let mut hung: Option<usize> = None;
    let code = loop {
        if let Ok(Some(st)) = c.try_wait() {
            break st.code();
        }
        for (i, s) in slots.iter().enumerate() {
            let b = s.beat.load(Relaxed);
            if b != last[i].0 || s.scenario.load(Relaxed) == 0 {
                last[i] = (b, Instant::now());
            } else if last[i].1.elapsed() > Duration::from_secs(HANG_S) {
                hung = Some(i);
            }
        }
        if hung.is_some() {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(if start.elapsed().as_secs() < 2 { 5 } else { 50 }));
    };
    let ret = match code {
        Some(k) if k == 0 || k == 1 => k,
        Some(k) => {
            println!("worker ended with code {}", k);
            2
        }
        None => {
            // killed by a signal, or hung: find the execution that does it
            let mut cands = vec![];
            for (i, s) in slots.iter().enumerate() {
                if let Some(h) = hung {
                    if h != i {
                        continue;
                    }
                }
                let sc = s.scenario.load(Relaxed);
                if sc > 0 && (sc as usize) <= reg.list.len() {
                    let l = (s.len.load(Relaxed) as usize).min(SLOT_CAP);
                    let ch: Vec<u32> = (0..l).map(|k| s.choice[k].load(Relaxed)).collect();
                    cands.push((sc as usize - 1, ch));
                }
            }
            let mut found = None;
            for (sc, ch) in cands {
                let name = &reg.list[sc].name;
                let what = if hung.is_some() {
                    "execution does not end"
                } else {
                    "execution is killed by a signal (abort, invalid memory access or stack exhaustion)"
                };
                let p = write_replay(&cfg, name, &ch, what, &[], true);
                let mut r = Command::new(&exe)
                    .arg(if cfg.thorough { "thorough" } else { "quick" })
                    .arg("--replay")
                    .arg(&p)
                    .env_remove("MC_SHM")
                    .stdout(Stdio::null())
                    .stderr(Stdio::null())
                    .spawn()
                    .expect("spawn replay");
                let t = Instant::now();
                let bad = loop {
                    match r.try_wait() {
                        Ok(Some(st)) => break st.code() != Some(0),
                        _ => {}
                    }
                    if t.elapsed() > Duration::from_secs(HANG_S) {
                        let _ = r.kill();
                        let _ = r.wait();
                        break true;
                    }
                    std::thread::sleep(Duration::from_millis(20));
                };
                if bad {
                    found = Some((name.clone(), what, p));
                    break;
                } else {
                    let _ = std::fs::remove_file(&p);
                }
            }
            match found {
                Some((name, what, p)) => {
                    println!("violation in scenario {}: {}", name, what);
                    println!("VIOLATION property={} replay={}", cfg.prop, p.display());
                    let ev = format!(
                        "{{\"property\": \"{}\", \"tier\": \"{}\", \"seed\": {}, \"level\": \"{}\", \"coverage\": {{\"states\": 0, \"transitions\": 0, \"traces_validated_against_impl\": 1, \"rule\": \"exploration ended by a crash or hang of the implementation\", \"samples\": [\"{}\"]}}, \"violations\": 1, \"wall_s\": {:.3}}}\n",
                        cfg.prop, if cfg.thorough { "thorough" } else { "quick" }, cfg.seed, _check.level, esc(&name), start.elapsed().as_secs_f64());
                    write_evidence(&cfg, &ev);
                    1
                }
                None => {
                    println!("worker was killed and no execution in flight reproduces it: no answer");
                    2
                }
            }
        }
    };
    let _ = std::fs::remove_file(&shm);
    let _ = std::fs::remove_dir(&tmp);
    ret
}
