//! The monitor's machinery: worker threads over deterministic shards, panic
//! and hang monitors, a black box that survives a crash, counters for the
//! evidence, verdicts.

use crate::rng::{hash, mix, Rng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Violation {
    pub what: String,
    pub case: Value,
    pub shard: usize,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub dir: String,
    pub only: Option<usize>,
    pub deadline: Instant,
    pub op_cpu: u64,
    pub evals: AtomicU64,
    pub stop: AtomicBool,
    pub truncated: AtomicBool,
    pub distinct: Mutex<HashSet<u64>>,
    pub samples: Mutex<Vec<Value>>,
    pub counters: Mutex<BTreeMap<String, u64>>,
    pub violations: Mutex<Vec<Violation>>,
    pub rule: Mutex<String>,
    pub slots: Mutex<Vec<std::sync::Arc<Slot>>>,
    /// The monitor itself failed, and where.
    pub died: Mutex<Option<String>>,
    pub shard_base: AtomicUsize,
}

/// What a worker thread is doing right now.
pub struct Slot {
    tid: i32,
    op: AtomicU64,
    shard: AtomicUsize,
    file: std::fs::File,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    let trace = std::env::var_os("VMON_TRACE").is_some();
    std::panic::set_hook(Box::new(move |info| {
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        // A panic that leaves no trace here happened in a thread of the
        // monitor's own; those are reported and end the run as an error.
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {at}")));
        if trace {
            eprintln!("panic: {msg} at {at}");
        }
    }));
}

/// Run one operation of the code under test, turning a panic into an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

pub struct W<'c> {
    pub ctx: &'c Ctx,
    pub r: Rng,
    pub shard: usize,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub evals: u64,
    fresh: bool,
    slot: std::sync::Arc<Slot>,
}

impl<'c> W<'c> {
    pub fn count(&mut self, what: &'static str) {
        *self.counters.entry(what).or_default() += 1;
    }
    pub fn add(&mut self, what: &'static str, n: u64) {
        *self.counters.entry(what).or_default() += n;
    }
    /// Note that a case was evaluated; `key` tells distinct cases apart, and
    /// is empty for a trivial one.
    pub fn eval(&mut self, key: &str) {
        self.evals += 1;
        if !key.is_empty() && self.distinct.len() < 400_000 {
            self.distinct.insert(hash(key.as_bytes()));
        }
    }
    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        // The first case of a shard and a few more, kept for the evidence.
        if std::mem::replace(&mut self.fresh, false) || self.evals % 997 == 1 {
            let mut s = self.ctx.samples.lock().unwrap();
            if s.len() < 12 {
                s.push(v());
            }
        }
    }
    /// Announce the operation about to run, for the hang monitor and for the
    /// case the process dies in it.
    pub fn begin(&self, what: &str) {
        let n = what.len().min(8000);
        let mut n = n;
        while !what.is_char_boundary(n) {
            n -= 1;
        }
        let mut buf = Vec::with_capacity(n + 16);
        let _ = write!(buf, "{} {}\n", self.shard, n);
        buf.extend_from_slice(&what.as_bytes()[..n]);
        let _ = self.slot.file.write_at(&buf, 0);
        self.slot.op.fetch_add(1, SeqCst);
    }
    /// Run one operation under the panic monitor; a panic is a violation.
    pub fn op<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.begin(what);
        match guarded(f) {
            Ok(v) => Some(v),
            Err(p) => {
                self.fail(format!("the operation panicked: {p}"), json!({ "operation": what }));
                None
            }
        }
    }
    pub fn fail(&mut self, what: String, case: Value) {
        let mut v = self.ctx.violations.lock().unwrap();
        if v.len() < 200 {
            v.push(Violation { what, case, shard: self.shard });
        }
        if v.len() >= 40 {
            self.ctx.stop.store(true, SeqCst);
        }
    }
    pub fn check(&mut self, ok: bool, what: impl FnOnce() -> (String, Value)) -> bool {
        if !ok {
            let (w, c) = what();
            self.fail(w, c);
        }
        ok
    }
    pub fn over(&self) -> bool {
        self.ctx.stop.load(SeqCst)
    }
}

/// CPU time a thread has used, and whether it is waiting for something.
fn thread_state(tid: i32) -> Option<(u64, bool)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let ticks: u64 = f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
    Some((ticks * 10, f[0] == "S"))
}

impl Ctx {
    pub fn quick_or(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            (quick * self.breadth()).min(thorough)
        }
    }
    /// How many times its basic workload a check runs: the cheap ones more,
    /// so that each takes its ten seconds or so.
    fn breadth(&self) -> usize {
        match self.id.as_str() {
            "C20" | "C21" | "C22" | "C27" => 10,
            "C14" | "C15" | "C16" | "C19" | "C26" | "C31" => 8,
            "C13" | "C30" => 5,
            "C03" | "C10" | "C11" | "C12" | "C18" | "C28" | "C29" => 3,
            "C04" | "C05" | "C17" | "C23" => 2,
            _ => 1,
        }
    }

    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.into();
    }

    /// Run `shards` shards over worker threads. What a shard does depends only
    /// on the seed, the property and its number.
    pub fn par(&self, shards: usize, f: impl Fn(&mut W, usize) + Sync) {
        self.par_threads(shards, threads(), f)
    }

    pub fn par_threads(&self, shards: usize, threads: usize, f: impl Fn(&mut W, usize) + Sync) {
        let base = self.shard_base.fetch_add(shards, SeqCst);
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..threads.min(shards) {
                s.spawn(|| {
                    let slot = self.new_slot();
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= shards || self.stop.load(SeqCst) {
                            break;
                        }
                        if Instant::now() > self.deadline {
                            self.truncated.store(true, SeqCst);
                            break;
                        }
                        let shard = base + i;
                        if self.only.is_some_and(|o| o != shard) {
                            continue;
                        }
                        slot.shard.store(shard, SeqCst);
                        let seed = mix(self.seed) ^ hash(self.id.as_bytes()) ^ mix(shard as u64 + 1);
                        let mut w = W {
                            ctx: self,
                            r: Rng::new(seed),
                            shard,
                            distinct: HashSet::new(),
                            counters: BTreeMap::new(),
                            evals: 0,
                            fresh: true,
                            slot: slot.clone(),
                        };
                        if let Err(p) = guarded(|| f(&mut w, i)) {
                            // Not an announced operation: the harness itself,
                            // or the library where the harness uses it.
                            if self.of_library(&p) {
                                w.fail(format!("the library panicked: {p}"), json!({ "shard": shard }));
                            } else {
                                eprintln!("harness error in shard {shard}: {p}");
                                *self.died.lock().unwrap() = Some(format!("shard {shard}: {p}"));
                            }
                        }
                        self.merge(w);
                    }
                    slot.op.fetch_add(1, SeqCst);
                    slot.shard.store(usize::MAX, SeqCst);
                });
            }
        });
    }

    /// Whether a panic came out of the library's own sources.
    fn of_library(&self, panic: &str) -> bool {
        let repo = std::env::var("VMON_REPO").unwrap_or_else(|_| "/repo".into());
        panic.rsplit_once(" at ").is_some_and(|(_, at)| at.starts_with(&format!("{repo}/src/")))
    }

    fn new_slot(&self) -> std::sync::Arc<Slot> {
        let mut slots = self.slots.lock().unwrap();
        let path = format!("{}/blackbox.{}", self.dir, slots.len());
        let slot = std::sync::Arc::new(Slot {
            tid: unsafe { libc::syscall(libc::SYS_gettid) } as i32,
            op: AtomicU64::new(0),
            shard: AtomicUsize::new(usize::MAX),
            file: std::fs::File::create(path).unwrap(),
        });
        slots.push(slot.clone());
        slot
    }

    fn merge(&self, w: W) {
        self.evals.fetch_add(w.evals, SeqCst);
        let mut d = self.distinct.lock().unwrap();
        if d.len() < 4_000_000 {
            d.extend(w.distinct);
        }
        let mut c = self.counters.lock().unwrap();
        for (k, v) in w.counters {
            *c.entry(k.to_string()).or_default() += v;
        }
    }

    /// Watch for an operation that consumes CPU without end, and for all
    /// workers waiting for ever.
    pub fn watchdog(&'static self) {
        std::thread::spawn(move || {
            let mut seen: BTreeMap<usize, (u64, u64, u64)> = BTreeMap::new();
            let quit = |i: usize, shard: usize, code: i32| -> ! {
                let _ = std::fs::write(format!("{}/hang", self.dir), format!("{i} {shard}"));
                unsafe { libc::_exit(code) }
            };
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let slots = self.slots.lock().unwrap();
                let (mut active, mut blocked) = (0, vec![]);
                for (i, s) in slots.iter().enumerate() {
                    let shard = s.shard.load(SeqCst);
                    if shard == usize::MAX {
                        continue;
                    }
                    let Some((cpu, waits)) = thread_state(s.tid) else { continue };
                    active += 1;
                    let op = s.op.load(SeqCst);
                    let e = seen.entry(i).or_insert((op, cpu, 0));
                    if e.0 != op {
                        *e = (op, cpu, 0);
                    } else if cpu - e.1 > self.op_cpu * 1000 {
                        quit(i, shard, 77);
                    }
                    // A minute and a half in one operation, found waiting every time.
                    e.2 = if waits { e.2 + 1 } else { 0 };
                    if e.2 > 180 {
                        blocked.push((i, shard));
                    }
                }
                if active > 0 && blocked.len() == active {
                    quit(blocked[0].0, blocked[0].1, 78);
                }
            }
        });
    }
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).min(8)
}
