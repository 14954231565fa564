//! Several databases, several threads, growing inputs.

use super::num::print;
use crate::gen::*;
use crate::model::*;
use crate::mon::{guarded, threads, Ctx, W};
use crate::rng::{hash, mix, Rng};
use crate::util::*;
use crate::work::*;
use phonenumber::country::Id;
use phonenumber::metadata::{Database, DATABASE};
use phonenumber::{Mode, PhoneNumber};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Barrier, OnceLock};

/// The shipped metadata, loaded at run time.
fn fresh() -> Option<&'static Database> {
    static D: OnceLock<Option<Database>> = OnceLock::new();
    D.get_or_init(|| guarded(|| Database::load(xml_path()).ok()).ok().flatten()).as_ref()
}

/// Everything a database decides about one number.
fn facts(p: &PhoneNumber, db: &Database) -> Vec<String> {
    let mut v: Vec<String> = MODES.iter().map(|(_, m)| format!("{:?}", print(p.format_with(db).mode(*m)))).collect();
    v.push(format!("{:?}", print(phonenumber::format(p).database(db).mode(Mode::National))));
    v.push(format!("{}", p.is_valid_with(db)));
    v.push(format!("{}", phonenumber::is_valid_with(db, p)));
    v.push(format!("{:?}", p.number_type_with(db)));
    v.push(format!("{:?}", p.metadata(db).map(|m| (m.id(), m.country_code()))));
    v
}

fn default_facts(p: &PhoneNumber) -> Vec<String> {
    let mut v: Vec<String> = MODES.iter().map(|(_, m)| format!("{:?}", print(p.format().mode(*m)))).collect();
    v.push(format!("{:?}", print(phonenumber::format(p).mode(Mode::National))));
    v.push(format!("{}", p.is_valid()));
    v.push(format!("{}", phonenumber::is_valid(p)));
    v.push(format!("{:?}", p.number_type()));
    v.push(format!("{:?}", p.metadata(&DATABASE).map(|m| (m.id(), m.country_code()))));
    v
}

fn model_facts(m: &Model, n: &Num) -> Vec<String> {
    let mut v: Vec<String> = MODES.iter().map(|(x, _)| format!("{:?}", m.format(n, x))).collect();
    v.push(format!("{:?}", m.format(n, "National")));
    v.push(m.valid(n.code, &n.nsn).to_string());
    v.push(m.valid(n.code, &n.nsn).to_string());
    v.push(m.kind(n.code, &n.nsn).to_string());
    v.push(format!("{:?}", m.region(n.code, &n.nsn).map(|t| (t.id.as_str(), t.code))));
    v
}

/// The shipped plan with territories removed, renumbered or given others'
/// rules.
fn derived(r: &mut Rng) -> Model {
    let base = bundled();
    let keep = r.range(3, 40);
    let mut idx: Vec<usize> = (0..base.terrs.len()).collect();
    r.shuffle(&mut idx);
    let mut terrs: Vec<Terr> = idx[..keep].iter().map(|&i| base.terrs[i].clone()).collect();
    // Swap the calling codes of some, the rules of others.
    for _ in 0..r.range(1, keep) {
        let (a, b) = (r.below(keep), r.below(keep));
        match r.below(3) {
            0 if a != b && terrs[a].id != "001" && terrs[b].id != "001" => {
                let c = terrs[a].code;
                terrs[a].code = terrs[b].code;
                terrs[b].code = c;
            }
            1 => {
                let x = terrs[b].clone();
                terrs[a].np = x.np;
                terrs[a].np_parse = x.np_parse;
                terrs[a].np_transform = x.np_transform;
                terrs[a].raw_fmts = x.raw_fmts;
            }
            _ => terrs[a].idd = Some(Rx::new(*r.pick(&["99", "0", "1234"]))),
        }
    }
    // One main region at most for each code.
    let mut seen = std::collections::HashSet::new();
    for t in &mut terrs {
        t.main = t.main && seen.insert(t.code);
    }
    Model::new(terrs)
}

pub fn c09(ctx: &Ctx) {
    ctx.rule(
        "the same calls on the default database, the shipped metadata loaded afresh, and databases derived by removing, \
         renumbering and replacing territories; each answer against the model of that database alone, with calls on all \
         databases interleaved at random in every thread. Distinct by (database, hint, text).",
    );
    let e = env();
    let Some(fresh) = fresh() else {
        ctx.par(1, |w, _| w.fail("the shipped metadata does not load".into(), json!(xml_path())));
        return;
    };
    ctx.par(e.m.terrs.len(), |w, ti| {
        for _ in 0..ctx.quick_or(60, 1500) {
            if w.over() {
                return;
            }
            let h = own(&e.m.terrs[ti]).filter(|_| w.r.chance(3, 4)).or_else(|| hint(&mut w.r).filter(|_| w.r.chance(1, 2)));
            let s = text(e, ti, Some(ti), &mut w.r);
            let hn = h.map_or("none", |h| h.0);
            w.eval(&format!("fresh/{hn}/{s}"));
            let call = format!("parse({hn}, {s:?}) with the default and the fresh database");
            let Some((a, b)) = w.op(&call, || {
                (phonenumber::parse(h.map(|h| h.1), &s), phonenumber::parse_with(fresh, h.map(|h| h.1), &s))
            }) else {
                return;
            };
            w.count("default against fresh");
            w.check(a.as_ref().ok().map(num) == b.as_ref().ok().map(num), || {
                ("the default and the freshly loaded database parse differently".into(), json!({ "call": call, "default": show(&a), "fresh": show(&b) }))
            });
            let (Ok(a), Ok(b)) = (a, b) else { continue };
            let Some((x, y)) = w.op(&format!("facts of {:?}", num(&a)), || (default_facts(&a), facts(&b, fresh))) else { return };
            w.sample(|| json!({ "call": call, "facts": x }));
            w.check(x == y, || {
                ("the default and the freshly loaded database disagree".into(), json!({ "number": format!("{:?}", num(&a)), "default": x, "fresh": y }))
            });
        }
    });
    ctx.par(ctx.quick_or(96, 1500), |w, i| {
        let mut plans: Vec<Plan> = vec![];
        for k in 0..3 {
            let m: &'static Model = if (i + k) % 2 == 0 {
                Box::leak(Box::new(derived(&mut w.r)))
            } else {
                Box::leak(Box::new(custom(bundled(), &mut w.r, 6)))
            };
            // Neither of two codes can be told from the other if one begins it.
            let codes: Vec<String> = m.by_code.keys().map(|c| c.to_string()).collect();
            if codes.iter().any(|a| codes.iter().any(|b| a != b && a.starts_with(b.as_str()))) {
                continue;
            }
            let xml = to_xml(m, &mut w.r, false);
            if let Ok(Ok(db)) = guarded(|| Database::parse(&xml)) {
                plans.push(Plan { env: Env::new(m), db });
                w.count("derived databases");
            }
        }
        if plans.is_empty() {
            return;
        }
        let mut earlier: Vec<(usize, Option<(&'static str, Id)>, String, Value)> = vec![];
        for _ in 0..ctx.quick_or(90, 120) {
            if w.over() {
                return;
            }
            // A text of one plan, read in any of them.
            let src = &plans[w.r.below(plans.len())];
            let ti = w.r.below(src.m().terrs.len());
            let s = text(&src.env, ti, Some(ti), &mut w.r);
            let k = w.r.below(plans.len());
            let p = &plans[k];
            let h = plan_hint(p.m(), &mut w.r);
            w.eval(&format!("{i}/{k}/{}/{s}", h.map_or("none", |h| h.0)));
            let Some(got) = same(w, p.m(), Some(&p.db), h, &s) else { continue };
            if let Ok(x) = &got {
                // Also seen through the other databases, its own last.
                for q in plans.iter().chain([p]) {
                    let n = num(x);
                    let want = model_facts(q.m(), &n);
                    let Some(f) = w.op(&format!("facts of {n:?}"), || facts(x, &q.db)) else { return };
                    w.count("facts under a derived database");
                    w.check(f == want, || {
                        (
                            "an answer does not follow the database given".into(),
                            json!({ "number": format!("{n:?}"), "got": f, "expected": want,
                                    "database": format!("{:?}", q.m().terrs.iter().map(|t| (&t.id, t.code)).collect::<Vec<_>>()) }),
                        )
                    });
                }
            }
            let v = show(&got);
            // The default database in between.
            same(w, e.m, None, h, &s);
            earlier.push((k, h, s, v));
            let back = w.r.below(earlier.len());
            let (k, h, s, v) = &earlier[back];
            let again = w.op(&format!("parse again {s:?}"), || show(&phonenumber::parse_with(&plans[*k].db, h.map(|h| h.1), s)));
            w.count("repeated after other calls");
            w.check(again.as_ref().is_none_or(|a| a == v), || {
                ("the same call gives another result later".into(), json!({ "text": s, "first": v, "again": again }))
            });
        }
    });
}

/// One call of the public interface and its answer as text.
#[derive(Clone)]
pub struct Op {
    kind: u8,
    hint: Option<(String, Id)>,
    text: String,
}

impl Op {
    fn make(r: &mut Rng) -> Op {
        let e = env();
        let mut ti = r.below(e.m.terrs.len());
        if r.chance(1, 6) {
            // Codes whose regions are told apart by the number, or that keep zeros.
            let id = *r.pick(&["IT", "VA", "RU", "KZ", "GB", "GG", "US", "CA", "DO", "NO", "FI", "AX", "MA", "AU", "RE", "CI", "GA"]);
            ti = e.m.terrs.iter().position(|t| t.id == id).unwrap_or(ti);
        }
        if r.chance(1, 8) {
            // The plainest form of a number.
            let text = format!("+{}{}", e.m.terrs[ti].code, national(e, ti, r));
            return Op { kind: r.below(10) as u8, hint: None, text };
        }
        let hint = own(&e.m.terrs[ti]).filter(|_| r.chance(2, 3)).map(|h| (h.0.to_string(), h.1));
        Op { kind: r.below(9) as u8, hint, text: text(e, ti, Some(ti), r) }
    }
    /// A call that is almost this one.
    fn near(&self, r: &mut Rng) -> Op {
        let mut o = self.clone();
        let mut t: Vec<char> = o.text.chars().collect();
        let digits: Vec<usize> = (0..t.len()).filter(|&i| t[i].is_ascii_digit()).collect();
        let marks: Vec<usize> = (0..t.len()).filter(|&i| !t[i].is_ascii_digit()).collect();
        match r.below(13) {
            0 | 1 if !digits.is_empty() => t[*digits.last().unwrap()] = *r.pick(&['0', '1', '2', '3', '4', '5', '6', '7', '8', '9']),
            2 if !digits.is_empty() => t[*r.pick(&digits)] = *r.pick(&['0', '1', '5', '7', '9']),
            3 if !digits.is_empty() => drop(t.remove(*r.pick(&digits))),
            4 => t.push(*r.pick(&['0', '1', '5', '9'])),
            5 if !marks.is_empty() => t[*r.pick(&marks)] = *r.pick(&[' ', '-', '.', '/', '+', 'x']),
            6 => t.extend(format!("{}{}", r.pick(&[" ext. ", ";ext=", " x", "#"]), r.below(9999)).chars()),
            7 => {
                let e = env();
                let ti = r.below(e.m.terrs.len());
                o.hint = own(&e.m.terrs[ti]).filter(|_| r.chance(4, 5)).map(|h| (h.0.to_string(), h.1));
            }
            8 => o.kind = r.below(9) as u8,
            // One zero more in front, or behind the calling code.
            9 | 10 => {
                let all: String = t.iter().filter(|c| c.is_ascii_digit()).collect();
                let code = (1..=3usize.min(all.len())).find(|&k| all[..k].parse().is_ok_and(|c: u16| env().m.by_code.contains_key(&c)));
                let k = if t.contains(&'+') { code.unwrap_or(0) } else { 0 };
                let at = digits.get(k).copied().unwrap_or(t.len());
                t.insert(at, '0');
                if r.chance(1, 2) {
                    o.kind = *r.pick(&[3, 5, 9]);
                }
            }
            11 if digits.len() > 1 => {
                let k = r.below(digits.len() - 1);
                t.swap(digits[k], digits[k + 1]);
            }
            _ => t = t.into_iter().filter(|c| c.is_ascii_digit() || *c == '+').collect(),
        }
        o.text = t.into_iter().collect();
        o
    }
    pub fn run(&self) -> String {
        let parsed = || phonenumber::parse(self.hint.as_ref().map(|h| h.1), &self.text);
        match self.kind {
            0 => phonenumber::is_viable(&self.text).to_string(),
            1 => show(&parsed()).to_string(),
            2 => match parsed() {
                Ok(p) => format!("{:?}", MODES.map(|(_, m)| print(p.format().mode(m)))),
                Err(e) => e.to_string(),
            },
            3 => match parsed() {
                Ok(p) => format!("{:?} {} {:?}", p.number_type(), p.is_valid(), p.country().id().ok()),
                Err(e) => e.to_string(),
            },
            4 => format!("{:?}", self.hint.as_ref().and_then(|h| DATABASE.by_id(h.0.as_str())).map(|m| (m.id(), m.country_code(), m.formats().len()))),
            6 => show(&self.text.parse()).to_string(),
            // What the database says about a region, and about the text there.
            7 => {
                let Some(m) = self.hint.as_ref().and_then(|h| DATABASE.by_id(h.0.as_str())) else { return "none".into() };
                let d: Vec<_> = super::more::TYPES
                    .iter()
                    .map(|&t| m.descriptors().get(t).map(|d| (d.is_match(&self.text), d.possible_length(), d.example())))
                    .collect();
                let f: Vec<_> = m.formats().iter().chain(m.international_formats()).map(|f| (f.format(), f.pattern().is_match(&self.text))).collect();
                let others = DATABASE.region(&m.country_code());
                format!("{d:?} {f:?} {others:?} {:?}", m.national_prefix_for_parsing().map(|p| p.find(&self.text).map(|m| m.range())))
            }
            8 => match fresh() {
                None => "none".into(),
                Some(db) => match phonenumber::parse_with(db, self.hint.as_ref().map(|h| h.1), &self.text) {
                    Ok(p) => facts(&p, db).join("|"),
                    Err(e) => e.to_string(),
                },
            },
            _ => match parsed() {
                Ok(p) => default_facts(&p).join("|"),
                Err(e) => e.to_string(),
            },
        }
    }
}

pub fn ops(seed: u64, n: usize) -> Vec<Op> {
    let mut r = Rng::new(seed);
    let mut v: Vec<Op> = vec![];
    while v.len() < n {
        let o = if v.is_empty() || r.chance(2, 5) {
            Op::make(&mut r)
        } else {
            let k = if r.chance(2, 3) { v.len() - 1 } else { r.below(v.len()) };
            v[k].near(&mut r)
        };
        v.push(o);
    }
    v
}

/// In a fresh process: threads that all start with the first use of
/// everything, each with its own order of the same calls; prints one hash per
/// call, or the first call two threads disagree on.
pub fn first_use(seed: u64, nthreads: usize, n: usize) -> i32 {
    let list = ops(seed, n);
    let barrier = Barrier::new(nthreads);
    let all: Vec<Vec<(usize, u64)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..nthreads)
            .map(|t| {
                let (list, barrier) = (&list, &barrier);
                s.spawn(move || {
                    let mut r = Rng::new(seed ^ mix(t as u64));
                    let mut order: Vec<usize> = (0..list.len()).collect();
                    r.shuffle(&mut order);
                    // Different threads first touch different things.
                    let first = order.iter().position(|&i| list[i].kind as usize == t % 9).unwrap_or(0);
                    order.swap(0, first);
                    barrier.wait();
                    if r.chance(1, 2) {
                        std::thread::sleep(std::time::Duration::from_micros(r.below(2000) as u64));
                    }
                    order
                        .into_iter()
                        .map(|i| {
                            if r.chance(1, 20) {
                                std::thread::yield_now();
                            }
                            (i, hash(list[i].run().as_bytes()))
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut table = vec![None; n];
    for v in &all {
        for &(i, h) in v {
            match table[i] {
                None => table[i] = Some(h),
                Some(x) if x == h => (),
                _ => {
                    println!("DISAGREE {i}");
                    return 0;
                }
            }
        }
    }
    println!("{}", table.iter().map(|h| format!("{:x}", h.unwrap())).collect::<Vec<_>>().join(" "));
    0
}

/// Run a fresh process whose threads race for the first use; its status and
/// output, unless it was stuck, which is a violation if it stood still.
fn first_use_process(w: &mut W, what: &str, exe: &std::path::Path, seed: u64, nthreads: usize, n: usize) -> Option<(std::process::ExitStatus, String, String)> {
    use std::io::Read;
    use std::os::unix::process::CommandExt;
    let mut command = std::process::Command::new(exe);
    command
        .args(["first-use", &seed.to_string(), &nthreads.to_string(), &n.to_string()])
        .env("TSAN_OPTIONS", "exitcode=66:halt_on_error=1:history_size=4:report_signal_unsafe=0:report_thread_leaks=0")
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped());
    unsafe {
        command.pre_exec(|| {
            let mut lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::getrlimit(libc::RLIMIT_AS, &mut lim);
            lim.rlim_cur = lim.rlim_max;
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            Ok(())
        });
    }
    let mut child = command.spawn().unwrap();
    let (mut o, mut e) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
    let read = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = o.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let read_err = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = e.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let start = std::time::Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break Some(s);
        }
        w.begin(what);
        if start.elapsed().as_secs() > 60 {
            // Stuck only if it makes no progress: no CPU used for 20 s.
            let cpu = |pid: u32| {
                std::fs::read_to_string(format!("/proc/{pid}/stat")).ok().and_then(|s| {
                    let f: Vec<String> = s[s.rfind(')')? + 2..].split(' ').map(str::to_string).collect();
                    Some(f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?)
                })
            };
            let a = cpu(child.id());
            std::thread::sleep(std::time::Duration::from_secs(20));
            let b = cpu(child.id());
            if child.try_wait().unwrap().is_some() {
                continue;
            }
            if a == b || start.elapsed().as_secs() > 400 {
                let _ = child.kill();
                let _ = child.wait();
                if a == b {
                    w.ctx.stop.store(true, SeqCst);
                    w.fail("threads racing for the first use deadlock".into(), json!({ "threads": nthreads, "seed": seed }));
                }
                break None;
            }
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
    };
    let (out, err) = (read.join().unwrap_or_default(), read_err.join().unwrap_or_default());
    status.map(|s| (s, out, err))
}

/// What a sink or a text does in the middle of the call it is passed to.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mid {
    Plain,
    Fail,
    Panic,
    Back,
}

/// A sink that takes some pieces and then does something.
struct Sink<'a> {
    mid: Mid,
    left: usize,
    text: String,
    back: &'a dyn Fn(),
}

impl std::fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        match self.mid {
            Mid::Back => (self.back)(),
            Mid::Fail if self.left == 0 => return Err(std::fmt::Error),
            Mid::Panic if self.left == 0 => panic!("the caller's own"),
            _ => self.left = self.left.saturating_sub(1),
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// A text that does something when it is read.
struct Asked<'a> {
    mid: Mid,
    text: &'a str,
    back: &'a dyn Fn(),
}

impl AsRef<str> for Asked<'_> {
    fn as_ref(&self) -> &str {
        match self.mid {
            Mid::Back => (self.back)(),
            Mid::Panic => panic!("the caller's own"),
            _ => (),
        }
        self.text
    }
}

fn callers(w: &mut W, i: usize) {
    use std::fmt::Write;
    let list = ops(w.r.u64(), 60);
    let Some(want) = w.op("the calls alone", || list.iter().map(|o| o.run()).collect::<Vec<_>>()) else { return };
    let numbers: Vec<(usize, PhoneNumber)> =
        list.iter().enumerate().filter_map(|(k, o)| Some((k, phonenumber::parse(o.hint.as_ref().map(|h| h.1), &o.text).ok()?))).collect();
    if numbers.is_empty() {
        return;
    }
    let texts: Vec<[Option<String>; 4]> = numbers.iter().map(|(_, p)| MODES.map(|(_, m)| print(p.format().mode(m)))).collect();
    let wrong: std::cell::RefCell<Option<Value>> = Default::default();
    let turn = std::cell::Cell::new(w.r.below(1000));
    for n in 0..200 {
        if w.over() {
            return;
        }
        let back = || {
            // A few calls of other kinds, each with its known answer.
            let k = turn.get();
            turn.set(k + 7);
            let op = &list[k % list.len()];
            let got = op.run();
            if got != want[k % list.len()] {
                wrong.replace(Some(json!({ "call": format!("{:?} {:?}", op.hint, op.text), "got": got, "expected": want[k % list.len()] })));
            }
            let (j, m) = (k % numbers.len(), k % 4);
            if print(numbers[j].1.format().mode(MODES[m].1)) != texts[j][m] {
                wrong.replace(Some(json!({ "number": format!("{:?}", numbers[j].1), "mode": MODES[m].0 })));
            }
        };
        let mid = *w.r.pick(&[Mid::Plain, Mid::Fail, Mid::Fail, Mid::Panic, Mid::Back]);
        let (j, m) = (w.r.below(numbers.len()), w.r.below(4));
        let p = &numbers[j].1;
        let left = w.r.below(4);
        w.eval(&format!("callers/{i}/{n}"));
        w.count(match mid {
            Mid::Plain => "plain callers",
            Mid::Fail => "callers that fail",
            Mid::Panic => "callers that panic",
            Mid::Back => "callers that call back",
        });
        w.begin(&format!("format {} of {p:?} for a caller: {mid:?} after {left}", MODES[m].0));
        if w.r.chance(2, 3) {
            let mut s = Sink { mid, left, text: String::new(), back: &back };
            let got = guarded(|| write!(s, "{}", p.format().mode(MODES[m].1)).is_ok());
            // It may take more or fewer pieces, but what it took is right.
            let full = texts[j][m].clone().unwrap_or_default();
            let ok = match (mid, &got) {
                (_, Ok(true)) => Some(&s.text) == texts[j][m].as_ref(),
                (Mid::Plain | Mid::Back, Ok(false)) => texts[j][m].is_none(),
                (Mid::Plain | Mid::Back, Err(_)) => false,
                (Mid::Fail, Ok(false)) => full.starts_with(&s.text),
                (Mid::Fail, Err(_)) => false,
                (Mid::Panic, Ok(false)) => texts[j][m].is_none(),
                (Mid::Panic, Err(_)) => full.starts_with(&s.text),
            };
            w.check(ok, || {
                ("a caller is served wrongly".into(), json!({ "number": format!("{p:?}"), "mode": MODES[m].0, "caller": format!("{mid:?}"), "result": format!("{got:?}"), "got": s.text, "expected": texts[j][m] }))
            });
        } else {
            let op = &list[numbers[j].0];
            let hint = op.hint.as_ref().map(|h| h.1);
            let text = || Asked { mid, text: &op.text, back: &back };
            let got = guarded(|| if n % 2 == 0 { Some(phonenumber::parse(hint, text()).is_ok_and(|q| q == *p)) } else { phonenumber::is_viable(text()).then_some(true) });
            let ok = match got {
                Ok(g) => n % 2 == 1 || g == Some(true),
                Err(_) => mid == Mid::Panic,
            };
            w.check(ok, || {
                ("a text is read wrongly".into(), json!({ "text": op.text, "hint": op.hint.as_ref().map(|h| &h.0), "caller": format!("{mid:?}") }))
            });
        }
        w.check(wrong.borrow().is_none(), || ("a call from within another call answers differently".into(), wrong.take().unwrap()));
        // And whoever is next.
        let k = w.r.below(list.len());
        let Some(got) = w.op(&format!("{:?} {:?} after a caller: {mid:?}", list[k].hint, list[k].text), || list[k].run()) else { return };
        w.check(got == want[k], || {
            ("a call answers differently after a caller failed".into(), json!({ "call": format!("{:?} {:?}", list[k].hint, list[k].text), "before it": format!("{mid:?}"), "got": got, "expected": want[k] }))
        });
    }
}

pub fn c24(ctx: &Ctx) {
    ctx.rule(
        "calls of every kind, answered once alone and then again in other orders, by several threads at once, and by \
         fresh processes whose threads race for the first use of the library, and between callers whose sinks and texts \
         fail, panic or call back into the library; every answer is compared with the first, and \
         ThreadSanitizer watches some of the fresh processes. \
         Evaluations are answers compared; distinct by (call, schedule).",
    );
    let n = 400;
    // Fresh processes, concurrent first use.
    let procs = ctx.quick_or(10, 120);
    ctx.par_threads(procs, 4, |w, i| {
        let seed = w.r.u64();
        let nthreads = [2, 3, 5, 8, 16, 32][i % 6];
        let what = format!("{nthreads} threads of a fresh process, seed {seed}");
        w.begin(&what);
        let list = ops(seed, n);
        let exe = std::env::current_exe().unwrap();
        let Some((status, out, _)) = first_use_process(w, &what, &exe, seed, nthreads, n) else { return };
        w.count("fresh processes");
        w.add("threads racing for the first use", nthreads as u64);
        let got: Vec<&str> = out.split_whitespace().collect();
        if !status.success() || got.len() != n {
            let i = out.strip_prefix("DISAGREE ").and_then(|i| i.trim().parse::<usize>().ok());
            w.fail(
                if i.is_some() { "two threads get different answers" } else { "threads racing for the first use failed" }.into(),
                json!({ "threads": nthreads, "seed": seed, "status": status.to_string(), "call": i.map(|i| format!("{:?} {:?}", list[i].hint, list[i].text)) }),
            );
            return;
        }
        for (k, op) in list.iter().enumerate() {
            w.eval(&format!("fresh/{i}/{k}"));
            let Some(here) = w.op(&format!("{:?} {:?}", op.hint, op.text), || op.run()) else { return };
            w.check(format!("{:x}", hash(here.as_bytes())) == got[k], || {
                ("a fresh process answers differently".into(), json!({ "kind": op.kind, "hint": op.hint.as_ref().map(|h| &h.0), "text": op.text, "here": here, "threads": nthreads }))
            });
        }
    });
    // The same under ThreadSanitizer, which sees a race even if no answer
    // shows it.
    if let Some(exe) = std::env::var_os("VMON_TSAN").map(std::path::PathBuf::from) {
        ctx.par_threads(ctx.quick_or(6, 60), 3, |w, i| {
            let seed = w.r.u64();
            let nthreads = [4, 8, 3, 16][i % 4];
            let what = format!("{nthreads} threads of a fresh process under ThreadSanitizer, seed {seed}");
            w.begin(&what);
            let Some((status, out, err)) = first_use_process(w, &what, &exe, seed, nthreads, 250) else { return };
            w.eval(&format!("tsan/{seed}/{nthreads}"));
            if let Some(p) = err.find("WARNING: ThreadSanitizer: data race") {
                w.count("processes under ThreadSanitizer");
                w.fail("two threads race for the same memory".into(), json!({ "threads": nthreads, "seed": seed, "report": err[p..].chars().take(3000).collect::<String>() }));
            } else if status.success() && !out.is_empty() {
                w.count("processes under ThreadSanitizer");
                w.add("calls under ThreadSanitizer", 250 * nthreads as u64);
            } else {
                // Where the sanitizer cannot run nothing is learnt.
                w.count("processes the sanitizer could not run");
            }
        });
    }
    // History: the same calls in other orders.
    ctx.par(ctx.quick_or(48, 800), |w, i| {
        let list = ops(w.r.u64(), 300);
        let mut first: Vec<Option<String>> = vec![None; list.len()];
        for round in 0..4 {
            let mut order: Vec<usize> = (0..list.len()).collect();
            if round > 0 {
                w.r.shuffle(&mut order);
            }
            for k in order {
                if w.over() {
                    return;
                }
                let op = &list[k];
                w.eval(&format!("order/{i}/{round}/{k}"));
                let Some(got) = w.op(&format!("{:?} {:?}", op.hint, op.text), || op.run()) else { return };
                w.sample(|| json!({ "kind": op.kind, "hint": op.hint.as_ref().map(|h| &h.0), "text": op.text, "answer": got }));
                match &first[k] {
                    None => first[k] = Some(got),
                    Some(f) => {
                        w.count("repeated in another order");
                        w.check(*f == got, || {
                            ("the same call gives another answer later".into(), json!({ "kind": op.kind, "hint": op.hint.as_ref().map(|h| &h.0), "text": op.text, "first": f, "later": got }))
                        });
                    }
                }
            }
        }
    });
    // A long life: more calls than a small counter, cache or table holds.
    ctx.par(8, |w, i| {
        let list = ops(w.r.u64(), 60);
        let Some(first) = w.op("the calls, at first", || list.iter().map(|o| o.run()).collect::<Vec<_>>()) else { return };
        for n in 0..w.ctx.quick_or(30_000, 600_000) {
            if w.over() {
                return;
            }
            let k = n % list.len();
            let op = &list[k];
            w.evals += 1;
            w.count("repeated in a long life");
            match guarded(|| op.run()) {
                Ok(g) if g == first[k] => (),
                got => {
                    w.eval(&format!("life/{i}/{n}"));
                    w.fail(
                        "the same call gives another answer much later".into(),
                        json!({ "kind": op.kind, "hint": op.hint.as_ref().map(|h| &h.0), "text": op.text, "first": first[k], "later": got.unwrap_or_else(|e| e), "calls": n }),
                    );
                    return;
                }
            }
        }
        for k in 0..list.len() {
            w.distinct.insert(hash(format!("life/{i}/{k}").as_bytes()));
        }
    });
    // Callers that fail, panic or call back while they are being served.
    ctx.par(ctx.quick_or(48, 800), |w, i| callers(w, i));
    // Threads: all of them on the same calls at the same time.
    let rounds = ctx.quick_or(12, 250);
    ctx.par_threads(rounds, 1, |w, i| {
        let list = ops(w.r.u64(), 120);
        let Some(want) = w.op("the calls alone", || list.iter().map(|o| o.run()).collect::<Vec<_>>()) else { return };
        let nthreads = [2, 4, 8, 16][i % 4];
        let barrier = Barrier::new(nthreads);
        let done = AtomicUsize::new(0);
        let seed = w.r.u64();
        let bad: Vec<(usize, String)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..nthreads)
                .map(|t| {
                    let (list, want, barrier, done) = (&list, &want, &barrier, &done);
                    s.spawn(move || {
                        let mut r = Rng::new(seed ^ mix(t as u64));
                        let mut bad = vec![];
                        for _ in 0..4 {
                            barrier.wait();
                            let shift = if r.chance(1, 2) { 0 } else { r.below(list.len()) };
                            for k in 0..list.len() {
                                let k = (k + shift) % list.len();
                                match guarded(|| list[k].run()) {
                                    Ok(g) if g == want[k] => (),
                                    Ok(g) => bad.push((k, g)),
                                    Err(e) => bad.push((k, e)),
                                }
                                done.fetch_add(1, SeqCst);
                            }
                        }
                        bad
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        w.evals += done.load(SeqCst) as u64;
        w.add("answers under concurrency", done.load(SeqCst) as u64);
        for k in 0..list.len() {
            w.distinct.insert(hash(format!("threads/{i}/{k}").as_bytes()));
        }
        for (k, got) in bad.into_iter().take(3) {
            w.fail(
                "a call answers differently when other threads call too".into(),
                json!({ "threads": nthreads, "kind": list[k].kind, "text": list[k].text, "alone": want[k], "got": got }),
            );
        }
    });
}

/// Bytes allocated by this thread so far.
pub struct Counting;
thread_local! {
    static BYTES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get() + l.size() as u64));
        in_use(l.size() as i64);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        in_use(-(l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get() + n.saturating_sub(l.size()) as u64));
        in_use(n as i64 - l.size() as i64);
        std::alloc::System.realloc(p, l, n)
    }
}

/// Whether the bytes in use are counted, over all threads: that takes time.
pub static COUNTED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static IN_USE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
fn in_use(n: i64) {
    if COUNTED.load(std::sync::atomic::Ordering::Relaxed) {
        IN_USE.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
    }
}
pub fn live_bytes() -> i64 {
    IN_USE.load(std::sync::atomic::Ordering::SeqCst)
}

fn cpu_ns() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

/// The least CPU time and memory some runs of an operation take.
pub fn cost_of(w: &mut W, runs: usize, what: &str, f: &mut dyn FnMut()) -> Option<(u64, u64)> {
    let mut best = (u64::MAX, u64::MAX);
    for _ in 0..runs {
        let (t, b) = (cpu_ns(), BYTES.with(|b| b.get()));
        w.op(what, &mut *f)?;
        best = (best.0.min(cpu_ns() - t), best.1.min(BYTES.with(|b| b.get()) - b));
    }
    Some(best)
}

/// Compare the cost of ever greater sizes: each four times the one before.
pub fn growth(w: &mut W, key: &str, about: &dyn Fn() -> Value, sizes: (usize, usize), mut cost: impl FnMut(&mut W, usize, usize) -> Option<(u64, u64)>) {
    let (mut small, top) = sizes;
    if cost(w, small, 1).is_none() {
        return;
    }
    let mut before = None;
    while small * 4 <= top {
        if w.over() {
            return;
        }
        let big = small * 4;
        w.eval(&format!("{key}/{big}"));
        let a = match before {
            Some(a) => a,
            None => match cost(w, small, 4) {
                Some(a) => a,
                None => return,
            },
        };
        let Some(b) = cost(w, big, 2) else { return };
        before = Some(b);
        w.sample(|| json!({ "text": about(), "bytes": big, "cpu_us": b.0 / 1000, "cpu_us of a quarter": a.0 / 1000, "allocated": b.1 }));
        w.count("growth ratios");
        w.check(b.1 <= 9 * a.1.max(4096), || {
            ("the memory allocated grows faster than the text".into(), json!({ "text": about(), "bytes": [small, big], "allocated": [a.1, b.1] }))
        });
        // Times below a millisecond say nothing; a slow one is measured
        // again before it counts, so that other load cannot decide.
        if b.0 > 1_000_000 && b.0 > 10 * a.0 {
            let mut worst = true;
            w.count("steep steps measured again");
            for _ in 0..4 {
                let (Some(p), Some(a), Some(b)) = (cost(w, small / 4, 6), cost(w, small, 6), cost(w, big, 4)) else { return };
                before = Some(b);
                // A step where memory no longer fits a cache is steep once;
                // what grows faster than the text is steep before, too.
                if b.0 <= 10 * a.0 || a.0 <= 6 * p.0 {
                    worst = false;
                    break;
                }
            }
            w.check(!worst, || {
                (
                    "the time taken grows faster than the text".into(),
                    json!({ "text": about(), "bytes": [small, big], "cpu_us": [a.0 / 1000, b.0 / 1000] }),
                )
            });
            if worst {
                return;
            }
        }
        small = big;
    }
}

pub fn c25(ctx: &Ctx) {
    ctx.rule(
        "families of growing texts: fixed ones each hostile to one part of the parser, and ones made up at random (a \
         beginning, repeated pieces that may each carry a running number, an end), parsed with several hints and tested for \
         viability; the CPU time (least of several runs) and the bytes allocated for a text four times as long may be at \
         most ten times (no step over ten behind one over six) and nine times as much. Distinct by (family, operation, size).",
    );
    let top = ctx.quick_or(1 << 18, 1 << 21);
    let hints = [None, Some("US"), Some("BR"), Some("AR"), Some("IT"), Some("FI")];
    let _ = DATABASE.iter().count();
    let run = |w: &mut W, op: usize, h: Option<phonenumber::country::Id>, what: &str, s: &str, runs: usize| {
        cost_of(w, runs, what, &mut || {
            if op == 2 {
                std::hint::black_box(phonenumber::is_viable(s));
            } else {
                let _ = std::hint::black_box(phonenumber::parse(h, s));
            }
        })
    };
    ctx.par_threads(FAMILIES.len() * 4, threads().min(4), |w, i| {
        let (fam, op) = (i / 4, i % 4);
        let hint = if op == 3 { hints[2 + fam % 4] } else { hints[op % 2] };
        let h = hint.and_then(id);
        let name = FAMILIES[fam].0;
        let what = if op == 2 { "is_viable".to_string() } else { format!("parse with {}", hint.unwrap_or("no hint")) };
        growth(w, &format!("{name}/{what}"), &|| json!([name, what]), (1 << 12, top), |w, bytes, runs| {
            let s = family(fam, bytes);
            run(w, op, h, &format!("{what} of {bytes} bytes of {name}"), &s, runs)
        });
    });
    ctx.par_threads(ctx.quick_or(900, 8000), threads().min(4), |w, i| {
        let g = Grow::new(&mut w.r);
        let op = i % 4;
        let hint = if op == 2 { None } else { *w.r.pick(&hints) };
        let h = hint.and_then(id);
        let what = if op == 2 { "is_viable".to_string() } else { format!("parse with {}", hint.unwrap_or("no hint")) };
        growth(w, &format!("{g:?}/{what}"), &|| json!([format!("{g:?}"), what]), (1 << 13, top / 2), |w, bytes, runs| {
            let s = g.text(bytes);
            run(w, op, h, &format!("{what} of {bytes} bytes of {g:?}"), &s, runs)
        });
    });
}
