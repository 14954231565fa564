mod gen;
mod model;
mod mon;
mod props;
mod rng;
mod util;
mod work;
mod xml;

#[global_allocator]
static ALLOC: props::multi::Counting = props::multi::Counting;

use mon::{Ctx, Violation};
use serde_json::{json, Value};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{exit, Command};
use std::time::{Duration, Instant};

struct Args {
    id: String,
    tier: String,
    seed: u64,
    only: Option<usize>,
    /// Whether the library is built as its users build it: without the checks
    /// of the compiler and without debug assertions.
    plain: bool,
}

/// The other build of the monitors.
fn plain() -> Option<String> {
    std::env::var("VMON_PLAIN").ok()
}

fn verif() -> String {
    std::env::var("VMON_VERIF").unwrap_or_else(|_| "/verif".into())
}

fn child(a: &Args, dir: &str, op_cpu: u64) -> ! {
    mon::install_hook();
    props::multi::COUNTED.store(a.id == "C34", std::sync::atomic::Ordering::SeqCst);
    let thorough = a.tier == "thorough";
    let budget = if thorough { 600 } else { 240 };
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx {
        id: a.id.clone(),
        thorough,
        seed: a.seed,
        dir: dir.into(),
        only: a.only,
        deadline: Instant::now() + Duration::from_secs(budget),
        op_cpu,
        evals: Default::default(),
        stop: Default::default(),
        truncated: Default::default(),
        distinct: Default::default(),
        samples: Default::default(),
        counters: Default::default(),
        violations: Default::default(),
        rule: Default::default(),
        slots: Default::default(),
        died: Default::default(),
        shard_base: Default::default(),
    }));
    ctx.watchdog();
    // The quick tier goes through its workload several times, with other
    // numbers each time, as far as that takes seconds.
    let rounds = match a.id.as_str() {
        _ if thorough || !cfg!(debug_assertions) => 1,
        "C08" | "C24" | "C32" | "C33" | "C34" | "C35" => 1,
        "C03" | "C04" | "C17" | "C23" | "C25" | "C30" => 2,
        "C13" | "C15" | "C19" | "C20" | "C28" => 4,
        "C05" | "C21" | "C22" | "C27" | "C31" => 5,
        _ => 3,
    };
    for _ in 0..rounds {
        if !props::run(ctx) {
            eprintln!("no check for {}", a.id);
            exit(3);
        }
    }
    let violations: Vec<Value> = ctx
        .violations
        .lock()
        .unwrap()
        .iter()
        .map(|v| json!({ "what": v.what, "case": v.case, "shard": v.shard }))
        .collect();
    if violations.is_empty() && ctx.died.lock().unwrap().is_some() {
        exit(3);
    }
    let out = json!({
        "evaluations": ctx.evals,
        "distinct": ctx.distinct.lock().unwrap().len(),
        "samples": *ctx.samples.lock().unwrap(),
        "counters": *ctx.counters.lock().unwrap(),
        "rule": *ctx.rule.lock().unwrap(),
        "truncated": ctx.truncated,
        "violations": violations,
    });
    std::fs::write(format!("{dir}/result.json"), out.to_string()).unwrap();
    // Skip destructors and exit handlers: the verdict is on disk.
    unsafe { libc::_exit(0) }
}

enum Outcome {
    Done(Value),
    /// An operation that does not end; whether it waits rather than works.
    Hang(usize, String, bool),
    Crash(i32, Vec<(usize, String)>),
    Broken(String),
}

fn black_box(dir: &str) -> Vec<(usize, String)> {
    let mut v = vec![];
    for i in 0.. {
        let Ok(raw) = std::fs::read(format!("{dir}/blackbox.{i}")) else { break };
        let text = String::from_utf8_lossy(&raw).into_owned();
        let Some((head, rest)) = text.split_once('\n') else { continue };
        let Some((shard, len)) = head.split_once(' ') else { continue };
        if let (Ok(s), Ok(n)) = (shard.parse(), len.parse::<usize>()) {
            let mut n = n.min(rest.len());
            while !rest.is_char_boundary(n) {
                n -= 1;
            }
            v.push((s, rest[..n].to_string()));
        }
    }
    v
}

fn spawn(a: &Args, only: Option<usize>, op_cpu: u64, limit: Duration) -> Outcome {
    let dir = format!(
        "{}/target/run/{}-{}-{}{}",
        verif(),
        a.id,
        std::process::id(),
        only.map_or("all".into(), |o| o.to_string()),
        if a.plain { "-plain" } else { "" }
    );
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let exe = plain().filter(|_| a.plain).map_or_else(|| std::env::current_exe().unwrap(), Into::into);
    let mut c = Command::new(exe);
    c.args(["child", &a.id, &a.tier, &a.seed.to_string(), &dir, &op_cpu.to_string()]);
    if let Some(o) = only {
        c.arg(o.to_string());
    }
    unsafe {
        c.pre_exec(|| {
            // Only the soft limit: a child under a sanitizer needs more.
            let mut lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::getrlimit(libc::RLIMIT_AS, &mut lim);
            lim.rlim_cur = (12 << 30).min(lim.rlim_max);
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            Ok(())
        });
    }
    let start = Instant::now();
    let mut p = c.spawn().unwrap();
    let status = loop {
        if let Some(s) = p.try_wait().unwrap() {
            break Some(s);
        }
        if start.elapsed() > limit {
            let _ = p.kill();
            let _ = p.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let out = match status {
        None => Outcome::Broken("the run did not finish in time".into()),
        Some(s) if s.success() => match std::fs::read(format!("{dir}/result.json")) {
            Ok(b) => Outcome::Done(serde_json::from_slice(&b).unwrap()),
            Err(e) => Outcome::Broken(format!("no result: {e}")),
        },
        Some(s) => match (s.code(), s.signal()) {
            (Some(77 | 78), _) => {
                let stuck = s.code() == Some(78);
                let h = std::fs::read_to_string(format!("{dir}/hang")).unwrap_or_default();
                let f: Vec<usize> = h.split(' ').filter_map(|x| x.parse().ok()).collect();
                if f.len() == 2 {
                    let case = black_box(&dir).into_iter().find(|(s, _)| *s == f[1]).map_or(String::new(), |x| x.1);
                    Outcome::Hang(f[1], case, stuck)
                } else {
                    Outcome::Broken("hang without a record".into())
                }
            }
            (_, Some(sig)) if matches!(sig, libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL | libc::SIGFPE | libc::SIGTRAP | libc::SIGSYS) => {
                Outcome::Crash(sig, black_box(&dir))
            }
            _ => Outcome::Broken(format!("the run ended with {s}")),
        },
    };
    let _ = std::fs::remove_dir_all(&dir);
    out
}

/// The lines of the known-findings file that apply to this property.
fn known(id: &str) -> Vec<String> {
    std::fs::read_to_string(format!("{}/known_findings.txt", verif()))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={id} match=")).map(str::to_string))
        .collect()
}

/// Run the workload; what it saw, or why that is no verdict.
fn observe(a: &Args, start: Instant, limit: Duration) -> Result<(Vec<Violation>, Value), String> {
    let mut violations: Vec<Violation> = vec![];
    let mut result = json!({});
    match spawn(a, a.only, 30, limit.saturating_sub(start.elapsed())) {
        Outcome::Done(v) => {
            for x in v["violations"].as_array().unwrap() {
                violations.push(Violation {
                    what: x["what"].as_str().unwrap().into(),
                    case: x["case"].clone(),
                    shard: x["shard"].as_u64().unwrap() as usize,
                });
            }
            result = v;
        }
        // Only a hang or crash that happens again in a fresh process, alone or
        // failing that in the whole run, is one; anything else is no verdict.
        first @ (Outcome::Hang(..) | Outcome::Crash(..)) => {
            let shards: Vec<usize> = match &first {
                Outcome::Hang(s, ..) => vec![*s],
                Outcome::Crash(_, boxes) => boxes.iter().map(|b| b.0).collect::<std::collections::BTreeSet<_>>().into_iter().collect(),
                _ => vec![],
            };
            for only in shards.into_iter().map(Some).chain([a.only]) {
                if start.elapsed() > limit * 7 / 10 {
                    break;
                }
                let left = limit.saturating_sub(start.elapsed());
                match spawn(a, only, 45, left) {
                    Outcome::Hang(shard, again, stuck) => violations.push(Violation {
                        what: if stuck { "an operation waits for ever (twice)" } else { "an operation used over 45 s of CPU without returning (twice)" }.into(),
                        case: json!({ "operation": again }),
                        shard,
                    }),
                    Outcome::Crash(sig, b) => {
                        let x = b.iter().find(|x| only.is_none_or(|o| o == x.0));
                        violations.push(Violation {
                            what: format!("the process died of signal {sig} (twice)"),
                            case: json!({ "operation": x.map(|x| x.1.clone()) }),
                            shard: x.map_or(0, |x| x.0),
                        })
                    }
                    // It may go wrong in another way this time.
                    Outcome::Done(v) => {
                        for x in v["violations"].as_array().unwrap() {
                            violations.push(Violation {
                                what: x["what"].as_str().unwrap().into(),
                                case: x["case"].clone(),
                                shard: x["shard"].as_u64().unwrap() as usize,
                            });
                        }
                        if violations.is_empty() {
                            continue;
                        }
                    }
                    _ => continue,
                }
                break;
            }
            if violations.is_empty() {
                return Err(match first {
                    Outcome::Crash(sig, _) => format!("died of signal {sig}, which did not happen again"),
                    Outcome::Hang(_, case, _) => format!("a hang that did not happen again: {case}"),
                    _ => String::new(),
                });
            }
        }
        Outcome::Broken(why) => return Err(why),
    }
    Ok((violations, result))
}

fn run(mut a: Args) -> i32 {
    let start = Instant::now();
    let limit = Duration::from_secs(if a.tier == "thorough" { 840 } else { 600 });
    let seen = observe(&a, start, limit);
    let (mut violations, result) = match seen {
        Ok(x) => x,
        Err(why) => {
            eprintln!("inconclusive: {why}");
            return 2;
        }
    };
    // Then as its users build it, once and with other numbers, except where
    // the cost of things is what counts.
    let mut as_built = json!("not run");
    let costs = matches!(a.id.as_str(), "C24" | "C25" | "C32" | "C33" | "C34");
    if violations.is_empty() && !a.plain && !costs && a.only.is_none() && plain().is_some() {
        let b = Args { id: a.id.clone(), tier: "quick".into(), seed: a.seed + 1_000_000, only: None, plain: true };
        match observe(&b, start, limit + Duration::from_secs(60)) {
            Ok((v, r)) => {
                as_built = r["evaluations"].clone();
                if !v.is_empty() {
                    violations = v;
                    a = b;
                }
            }
            Err(why) => {
                eprintln!("inconclusive (built plainly): {why}");
                return 2;
            }
        }
    }

    let evals = result["evaluations"].as_u64().unwrap_or(0);
    if violations.is_empty() && evals == 0 && a.only.is_none() {
        eprintln!("inconclusive: nothing was observed");
        return 2;
    }

    let known = known(&a.id);
    let mut listed = vec![];
    violations.retain(|v| {
        let text = format!("{} {}", v.what, v.case);
        match known.iter().find(|k| text.contains(k.as_str())) {
            Some(k) => {
                listed.push(k.clone());
                false
            }
            None => true,
        }
    });
    listed.sort();
    listed.dedup();
    for k in &listed {
        println!("KNOWN-FINDING: property={} {}", a.id, k);
    }

    let mut cov = json!({
        "evaluations": evals,
        "distinct_nontrivial": result["distinct"].as_u64().unwrap_or(0),
        "rule": result["rule"],
        "samples": result["samples"],
        "observed": result["counters"],
        "evaluations of the library built without checks": as_built,
    });
    if result["truncated"] == json!(true) {
        cov["truncated"] = json!("the wall-clock budget ended before all shards ran");
    }
    let evidence = json!({
        "property": a.id,
        "tier": a.tier,
        "seed": a.seed,
        "level": if matches!(a.id.as_str(), "C08") { "fault_enumeration" } else { "exploration" },
        "coverage": cov,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    if a.only.is_none() {
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
        std::fs::write(
            format!("{}/evidence/{}.json", verif(), a.id),
            serde_json::to_string_pretty(&evidence).unwrap() + "\n",
        )
        .unwrap();
    }

    if violations.is_empty() {
        println!(
            "held property={} evaluations={} distinct={} wall_s={:.1}",
            a.id,
            evals,
            result["distinct"],
            start.elapsed().as_secs_f64()
        );
        return 0;
    }
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    for (i, v) in violations.iter().take(5).enumerate() {
        let path = format!("{dir}/{}-{i}.json", a.id);
        let replay = json!({
            "property": a.id, "tier": a.tier, "seed": a.seed, "shard": v.shard, "plain": a.plain,
            "what": v.what, "case": v.case,
            "how": format!("./check.sh --replay {path}"),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap() + "\n").unwrap();
        println!("VIOLATION property={} replay={}", a.id, path);
        println!("  {}", v.what);
        println!("  {}", v.case);
    }
    if violations.len() > 5 {
        println!("  ... and {} more", violations.len() - 5);
    }
    1
}

fn main() {
    let v: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: vmon run ID quick|thorough SEED [SHARD] | vmon replay FILE");
        exit(2)
    };
    match v.get(1).map(String::as_str) {
        Some("run") if v.len() >= 5 => exit(run(Args {
            id: v[2].clone(),
            tier: v[3].clone(),
            seed: v[4].parse().unwrap_or_else(|_| usage()),
            only: v.get(5).map(|s| s.parse().unwrap()),
            plain: false,
        })),
        Some("replay") if v.len() == 3 => {
            let j: Value = serde_json::from_str(&std::fs::read_to_string(&v[2]).unwrap()).unwrap();
            exit(run(Args {
                id: j["property"].as_str().unwrap().into(),
                tier: j["tier"].as_str().unwrap().into(),
                seed: j["seed"].as_u64().unwrap(),
                only: j["shard"].as_u64().map(|s| s as usize),
                plain: j["plain"] == json!(true),
            }))
        }
        Some("first-use") if v.len() == 5 => {
            mon::install_hook();
            exit(props::multi::first_use(v[2].parse().unwrap(), v[3].parse().unwrap(), v[4].parse().unwrap()))
        }
        Some("child") => child(
            &Args {
                id: v[2].clone(),
                tier: v[3].clone(),
                seed: v[4].parse().unwrap(),
                only: v.get(7).map(|s| s.parse().unwrap()),
                plain: false,
            },
            &v[5],
            v[6].parse().unwrap(),
        ),
        _ => usage(),
    }
}
