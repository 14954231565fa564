//! Effects beyond the answer: system calls and the environment.

use super::num::{hash_of, print};
use crate::gen::*;
use crate::mon::{guarded, Ctx, W};
use crate::util::*;
use crate::work::*;
use phonenumber::country::Id;
use phonenumber::metadata::{loader, Database, DATABASE};
use phonenumber::PhoneNumber;
use serde_json::json;
use std::cell::Cell;
use std::ffi::{c_char, CStr};
use std::hint::black_box;

thread_local! {
    /// System calls refused on this thread, and the last of them.
    static REFUSED: Cell<(u64, i64)> = const { Cell::new((0, 0)) };
    /// Whether this thread may not look at the environment, and how often it did.
    static LOOKS: Cell<Option<u64>> = const { Cell::new(None) };
}

extern "C" {
    static environ: *const *const c_char;
}

/// Every look at the environment goes through here: the one of the C library
/// gives way to it.
///
/// # Safety
/// As the one of the C library.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let _ = LOOKS.try_with(|l| l.set(l.get().map(|n| n + 1)));
    let name = CStr::from_ptr(name).to_bytes();
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = CStr::from_ptr(*p).to_bytes();
        if e.len() > name.len() && e.starts_with(name) && e[name.len()] == b'=' {
            return (*p).add(name.len() + 1) as *mut c_char;
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}

#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
mod filter {
    use super::{c_char, CStr, REFUSED};

    /// What memory, locks, randomness and the end of a thread need.
    const ALLOWED: [i64; 22] = [
        libc::SYS_mmap,
        libc::SYS_munmap,
        libc::SYS_mremap,
        libc::SYS_mprotect,
        libc::SYS_madvise,
        libc::SYS_brk,
        libc::SYS_futex,
        libc::SYS_sched_yield,
        libc::SYS_sched_getaffinity,
        libc::SYS_rt_sigprocmask,
        libc::SYS_rt_sigreturn,
        libc::SYS_sigaltstack,
        libc::SYS_set_robust_list,
        libc::SYS_rseq,
        libc::SYS_gettid,
        libc::SYS_getpid,
        libc::SYS_getrandom,
        libc::SYS_clock_gettime,
        libc::SYS_gettimeofday,
        libc::SYS_exit,
        libc::SYS_exit_group,
        libc::SYS_tgkill,
    ];

    extern "C" fn refused(_: i32, info: *mut libc::siginfo_t, context: *mut libc::c_void) {
        unsafe {
            let c = &mut *(context as *mut libc::ucontext_t);
            let all = &mut c.uc_mcontext.gregs;
            // The number of the call stands behind its address.
            let nr = *((info as *const u8).add(24) as *const i32) as i64;
            // What is written is taken to be written, so that all goes on as it would.
            all[libc::REG_RAX as usize] = match nr {
                libc::SYS_write => all[libc::REG_RDX as usize],
                _ => -(libc::EPERM as i64),
            };
            // What the C library and the runtime look up about the machine.
            if nr == libc::SYS_openat {
                let path = CStr::from_ptr(c.uc_mcontext.gregs[libc::REG_RSI as usize] as *const c_char).to_bytes();
                if path.starts_with(b"/proc/") || path.starts_with(b"/sys/") {
                    return;
                }
            }
            let _ = REFUSED.try_with(|r| r.set((r.get().0 + 1, nr)));
        }
    }

    pub fn handler() -> bool {
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = refused as extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) as usize;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
            libc::sigaction(libc::SIGSYS, &a, std::ptr::null_mut()) == 0
        }
    }

    /// From here on this thread can do nothing but compute.
    pub fn install() -> bool {
        let op = |code: u32, jt: u8, jf: u8, k: u32| libc::sock_filter { code: code as u16, jt, jf, k };
        let load = libc::BPF_LD | libc::BPF_W | libc::BPF_ABS;
        let same = libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K;
        let ret = libc::BPF_RET | libc::BPF_K;
        let mut p = vec![op(load, 0, 0, 0)];
        for (i, nr) in ALLOWED.iter().enumerate() {
            p.push(op(same, (ALLOWED.len() - i) as u8, 0, *nr as u32));
        }
        p.push(op(ret, 0, 0, libc::SECCOMP_RET_TRAP));
        p.push(op(ret, 0, 0, libc::SECCOMP_RET_ALLOW));
        let prog = libc::sock_fprog { len: p.len() as u16, filter: p.as_mut_ptr() };
        unsafe {
            libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0
                && libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &prog as *const libc::sock_fprog, 0, 0) == 0
        }
    }
}
#[cfg(not(all(target_os = "linux", target_arch = "x86_64")))]
mod filter {
    pub fn handler() -> bool {
        false
    }
    pub fn install() -> bool {
        false
    }
}

/// Something to compute, ready to be done where nothing else can be.
enum Task {
    Parse(Option<Id>, String),
    Ask(PhoneNumber),
    Load(Vec<u8>),
}

impl Task {
    fn show(&self) -> String {
        match self {
            Task::Parse(h, s) => format!("parse({:?}, {s:?})", h.map(|h| h.as_ref().to_string())),
            Task::Ask(p) => format!("operations of {p:?}"),
            Task::Load(b) => format!("load {:?}", String::from_utf8_lossy(b).chars().take(3000).collect::<String>()),
        }
    }
    fn run(&self, db: &Database) {
        match self {
            Task::Parse(h, s) => {
                black_box(phonenumber::is_viable(s));
                for r in [phonenumber::parse(*h, s), phonenumber::parse_with(db, *h, s)] {
                    match r {
                        Ok(p) => {
                            black_box((p.is_valid(), p.number_type(), p.to_string()));
                        }
                        Err(e) => drop(black_box((e.to_string(), format!("{e:?}")))),
                    }
                }
                black_box(s.parse::<PhoneNumber>().is_ok());
            }
            Task::Ask(p) => {
                for d in [&DATABASE, db] {
                    for (_, m) in MODES {
                        black_box(print(p.format_with(d).mode(m)));
                    }
                    black_box((p.is_valid_with(d), p.number_type_with(d), p.metadata(d).map(|m| format!("{m:?}"))));
                }
                black_box((p.is_valid(), p.number_type(), p.country().id().is_ok(), format!("{p:?} {p}"), p.clone() == *p, hash_of(p)));
                black_box(serde_json::to_string(p).ok().and_then(|s| serde_json::from_str::<PhoneNumber>(&s).ok()));
                black_box(serde_json::to_string(p).ok().and_then(|s| serde_json::from_str::<PhoneNumber>(&s.replace("value", "velue")).ok()));
                black_box(postcard::to_stdvec(p).ok().and_then(|b| postcard::from_bytes::<PhoneNumber>(&b).ok()));
                black_box((d_of(p), db.by_id("US").is_some(), db.iter().count()));
            }
            Task::Load(b) => {
                match loader::load(&b[..]) {
                    Ok(r) => match Database::from(r) {
                        Ok(d) => drop(black_box((d.clone(), format!("{d:?}")))),
                        Err(e) => drop(black_box(format!("{e} {e:?}"))),
                    },
                    Err(e) => drop(black_box(format!("{e} {e:?}"))),
                }
                if let Ok(s) = std::str::from_utf8(b) {
                    drop(black_box(Database::parse(s)));
                }
            }
        }
    }
}

fn d_of(p: &PhoneNumber) -> usize {
    DATABASE.by_code(&p.code().value()).map_or(0, |l| l.len()) + DATABASE.region(&p.code().value()).map_or(0, |l| l.len())
}

fn tasks(w: &mut W, ti: usize, n: usize) -> Vec<Task> {
    let e = env();
    let mut v = vec![];
    for k in 0..n {
        match w.r.below(10) {
            0..=4 => {
                let h = if w.r.chance(1, 4) { None } else { hint(&mut w.r).map(|h| h.1) };
                let s = if w.r.chance(1, 5) { garbage(&mut w.r) } else { text(e, ti, Some(ti), &mut w.r) };
                v.push(Task::Parse(h, s));
            }
            5..=8 => {
                let code = if w.r.chance(4, 5) { e.m.terrs[ti].code } else { w.r.u64() as u16 };
                let p = if w.r.chance(1, 2) {
                    super::num::serialised(&mut w.r, code)
                } else {
                    let n = national(e, ti, &mut w.r);
                    phonenumber::parse(None, format!("+{code}{n}")).ok()
                };
                v.extend(p.map(Task::Ask));
            }
            _ if k % 4 == 0 => {
                let m = custom(bundled(), &mut w.r, 3);
                let mut x = to_xml(&m, &mut w.r, true).into_bytes();
                match w.r.below(4) {
                    0 => {
                        let n = w.r.below(x.len());
                        x.truncate(n);
                    }
                    1 => {
                        for _ in 0..w.r.range(1, 4) {
                            let n = w.r.below(x.len());
                            x[n] = *w.r.pick(b"<>\"=&0a (\xFF");
                        }
                    }
                    _ => {}
                }
                v.push(Task::Load(x));
            }
            _ => {}
        }
    }
    v
}

pub fn c35(ctx: &Ctx) {
    ctx.rule(
        "texts, numbers and documents of every kind, right, wrong and damaged, handled on threads that the kernel lets do nothing \
         but use memory and locks: every other system call (writing, opening files but those about the machine, connecting, starting, sleeping) is refused and \
         reported, and so is every look at the environment; the first use of the bundled database is among them. Files loaded, \
         also ones that are damaged or missing: whether they are the same afterwards, and closed. Distinct by task.",
    );
    // To give memory back, the C library looks at a file of the kernel.
    unsafe {
        libc::mallopt(libc::M_TRIM_THRESHOLD, 1 << 30);
        libc::mallopt(libc::M_MMAP_THRESHOLD, 1 << 25);
    }
    // The regular expressions ask once for the number of processors.
    black_box(regex::Regex::new("a").is_ok_and(|r| r.is_match("a")));
    let filter = filter::handler();
    // What the monitor itself needs is there before.
    env();
    ids();
    let watched = |w: &mut W, what: &str, db: Option<&Database>, tasks: &[Task]| {
        w.begin(what);
        let seen = std::thread::scope(|s| {
            let t = s.spawn(|| {
                let mut seen: Vec<(usize, Option<i64>, u64)> = vec![];
                let on = filter && filter::install();
                seen.reserve(64);
                for (i, t) in tasks.iter().enumerate() {
                    let before = REFUSED.with(|r| r.get().0);
                    LOOKS.with(|l| l.set(Some(0)));
                    let done = guarded(|| t.run(db.unwrap_or_else(|| &DATABASE)));
                    let looks = LOOKS.with(|l| l.replace(None)).unwrap_or(0);
                    let (n, nr) = REFUSED.with(|r| r.get());
                    // A panic may look at what the process wants to know of it.
                    let looks = if done.is_ok() { looks } else { 0 };
                    if (n > before || looks > 0) && seen.len() < 60 {
                        seen.push((i, (n > before).then_some(nr), looks));
                    }
                }
                // What still waits to be written is written now.
                let before = REFUSED.with(|r| r.get().0);
                let _ = std::io::Write::flush(&mut std::io::stdout());
                let (n, nr) = REFUSED.with(|r| r.get());
                if n > before {
                    seen.push((tasks.len(), Some(nr), 0));
                }
                (on, seen)
            });
            t.join().ok()
        });
        let Some((on, seen)) = seen else { return };
        w.count(if on { "batches that could only compute" } else { "batches without a filter of system calls" });
        for t in tasks {
            w.eval(&t.show());
        }
        for (i, call, looks) in seen {
            let task = tasks.get(i).map_or("output that waits".into(), Task::show);
            if let Some(nr) = call {
                w.fail("an operation does more than compute: it makes a system call".into(), json!({ "operation": task, "number of the call": nr }));
            }
            if looks > 0 {
                w.fail("an operation looks at the environment".into(), json!({ "operation": task, "times": looks }));
            }
        }
    };
    // The first use of all, in this process: nothing has touched the database.
    ctx.par(1, |w, _| {
        let first = vec![Task::Parse(None, "+1 650 253 0000".into()), Task::Parse(id("GB"), "020 7031 3000".into()), Task::Load(vec![])];
        watched(w, "first use", None, &first);
        w.count("first uses watched");
    });
    let e = env();
    ctx.par(e.m.terrs.len(), |w, ti| {
        let t = tasks(w, ti, ctx.quick_or(160, 2000));
        let show: Vec<String> = t.iter().map(Task::show).collect();
        w.sample(|| json!(show[0]));
        watched(w, &format!("{show:?}"), None, &t);
        let Some(db) = plan(w, 6) else { return };
        let t = tasks(w, ti, ctx.quick_or(10, 400));
        watched(w, "with a made-up database", Some(&db.db), &t);
    });
    // Files.
    ctx.par_threads(ctx.quick_or(40, 400), 1, |w, i| {
        let m = custom(bundled(), &mut w.r, 3);
        let mut x = to_xml(&m, &mut w.r, true).into_bytes();
        let mut kind = ["right", "cut off", "damaged", "not text", "empty"][i % 5];
        match i % 5 {
            1 => {
                let n = w.r.below(x.len());
                x.truncate(n);
            }
            2 => {
                let n = w.r.below(x.len());
                x[n] = b'<';
            }
            3 => {
                let n = w.r.below(x.len());
                x[n] = 0xFF;
            }
            4 => x.clear(),
            _ => {}
        }
        let dir = format!("{}/files.{}", ctx.dir, w.shard);
        let (path, mut target) = (format!("{dir}/doc.xml"), format!("{dir}/doc.xml"));
        let _ = std::fs::create_dir_all(&dir);
        if std::fs::write(&path, &x).is_err() {
            return;
        }
        if i % 7 == 5 {
            target = dir.clone();
            kind = "a directory";
        } else if i % 7 == 6 {
            target = format!("{dir}/none.xml");
            kind = "missing";
        }
        let when = |p: &str| std::fs::metadata(p).and_then(|m| m.modified()).ok();
        let before = (when(&path), when(&dir), std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count()));
        let times = 100;
        for _ in 0..times {
            w.op(&format!("load the file {kind}"), || drop(black_box(Database::load(&target).is_ok())));
        }
        let after = (when(&path), when(&dir), std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count()));
        w.eval(&format!("{kind}/{}", String::from_utf8_lossy(&x)));
        w.count("files loaded");
        let case = || json!({ "file": kind, "content": String::from_utf8_lossy(&x) });
        w.check(std::fs::read(&path).is_ok_and(|y| y == x) && before.0 == after.0, || ("loading a file changes it".into(), case()));
        w.check(before.1 == after.1 && std::fs::read_dir(&dir).map_or(0, |d| d.count()) == 1, || {
            ("loading a file leaves other files behind".into(), case())
        });
        w.check(after.2 < before.2 + times / 2, || ("files loaded are not closed".into(), case()));
        let _ = std::fs::remove_dir_all(&dir);
    });
}
