//! Runtime contracts of keyhive functions that are out of the verifiers' reach, monitored on
//! generated executions of the real crates (bounded; see DESIGN.md).
#![allow(clippy::all, dead_code, unused)]
mod rec;
mod world;
mod props;

use rec::Rec;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = Default::default(); }

fn run_case(f: props::Case, prop: &str, case: u64) -> Rec {
    let mut r = Rec::new(prop, case);
    let res = catch_unwind(AssertUnwindSafe(|| f(&mut r, case)));
    if res.is_err() {
        let msg = LAST_PANIC.with(|p| p.borrow().clone());
        let loc = msg.split(" @ ").nth(1).unwrap_or("").to_string();
        // a panic inside the harness itself is a harness error, not a violation
        if loc.contains("/verif/") || loc.starts_with("src/") {
            r.fail("HARNESS-PANIC", msg);
        } else {
            let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
            r.fail(&format!("panic-{file}"), format!("the code panicked: {msg}"));
        }
    }
    r
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} @ {l}"));
        if std::env::var("VP_BT").is_ok() {
            eprintln!("{m} @ {l}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let o: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let prop = o["property"].as_str().unwrap().to_string();
            let case = o["case"].as_u64().unwrap();
            replay(&prop, case);
        }
        Some("case") => replay(&a[2], a[3].parse().unwrap()),
        Some("run") => run(&a),
        _ => {
            eprintln!("usage: vp-harness run <prop> --seed N --budget S --out F | replay FILE | case PROP N");
            std::process::exit(2);
        }
    }
}

fn replay(prop: &str, case: u64) {
    let (f, _) = props::find(prop).expect("unknown property");
    // hash-map iteration order varies between runs: repeat
    for i in 0..20 {
        let (p2, c2) = (prop.to_string(), case);
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let r = run_case(f, &p2, c2);
                let _ = tx.send(r);
            })
            .unwrap();
        match rx.recv_timeout(Duration::from_secs(30)) {
            Ok(r) => {
                if std::env::var("VP_TRACE").is_ok() && i == 0 {
                    for t in &r.trace {
                        println!("  {t}");
                    }
                }
                if let Some((k, w)) = r.violations.first() {
                    for t in &r.trace {
                        println!("  {t}");
                    }
                    println!("VIOLATED {prop} case {case} [{k}]: {w}");
                    std::process::exit(1);
                }
            }
            Err(_) => {
                println!("VIOLATED {prop} case {case} [does-not-terminate]");
                std::process::exit(1);
            }
        }
    }
    println!("no violation in 20 repetitions");
}

struct Total {
    evaluations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    violations: BTreeMap<String, serde_json::Value>,
    samples: Vec<serde_json::Value>,
    cases: u64,
}

fn run(a: &[String]) {
    let prop = a[2].clone();
    let seed: u64 = arg(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = arg(a, "--budget").and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let out = arg(a, "--out").unwrap_or("/dev/stdout".into());
    let maxc: u64 = arg(a, "--cases").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let Some((f, info)) = props::find(&prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    let t0 = Instant::now();
    let nthreads = 7usize;
    let tot = Arc::new(Mutex::new(Total {
        evaluations: 0,
        distinct: HashSet::new(),
        counters: BTreeMap::new(),
        violations: BTreeMap::new(),
        samples: vec![],
        cases: 0,
    }));
    let next = Arc::new(AtomicU64::new(0));
    // watchdog slots: (case, start ms)
    let slots: Arc<Vec<(AtomicU64, AtomicU64)>> =
        Arc::new((0..nthreads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect());
    let done = Arc::new(AtomicU64::new(0));
    for th in 0..nthreads {
        let (prop, tot, next, slots, done) = (prop.clone(), tot.clone(), next.clone(), slots.clone(), done.clone());
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    // the fixed cases always run; random ones until the budget is used
                    if k >= maxc || (k >= info.fixed && t0.elapsed().as_secs_f64() > budget) {
                        break;
                    }
                    let case = if k < info.fixed { k } else { info.fixed + (seed.wrapping_mul(1_000_003) % 1_000_000_007) * 100_000 + k };
                    slots[th].1.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                    slots[th].0.store(case, Ordering::SeqCst);
                    let r = run_case(f, &prop, case);
                    slots[th].0.store(u64::MAX, Ordering::SeqCst);
                    let mut t = tot.lock().unwrap();
                    t.cases += 1;
                    t.evaluations += r.evaluations;
                    t.distinct.extend(r.distinct.iter());
                    for (k, v) in &r.counters {
                        *t.counters.entry(k.clone()).or_default() += v;
                    }
                    if t.samples.len() < 3 && !r.trace.is_empty() && case >= info.fixed {
                        t.samples.push(json!({"case": case, "history": r.trace.iter().take(40).collect::<Vec<_>>()}));
                    }
                    for (k, w) in &r.violations {
                        let e = json!({"key": k, "what": w, "case": case, "history": r.trace});
                        t.violations.entry(k.clone()).or_insert(e);
                    }
                }
                done.fetch_add(1, Ordering::SeqCst);
            })
            .unwrap();
    }
    let limit_ms = 40_000u64;
    let mut hung = vec![];
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if done.load(Ordering::SeqCst) as usize + hung.len() >= nthreads {
            break;
        }
        let now = t0.elapsed().as_millis() as u64;
        for (i, s) in slots.iter().enumerate() {
            let c = s.0.load(Ordering::SeqCst);
            if c != u64::MAX && now.saturating_sub(s.1.load(Ordering::SeqCst)) > limit_ms && !hung.iter().any(|(j, _)| *j == i) {
                hung.push((i, c));
            }
        }
        if !hung.is_empty() && t0.elapsed().as_secs_f64() > budget + 45.0 {
            break;
        }
    }
    let mut t = tot.lock().unwrap();
    for (_, c) in &hung {
        t.violations
            .entry("does-not-terminate".into())
            .or_insert(json!({"key": "does-not-terminate", "what": format!("case {c} did not finish in {limit_ms} ms (deadlock or endless loop)"), "case": c}));
    }
    let v: Vec<_> = t.violations.values().cloned().collect();
    let harness_panic = t.violations.contains_key("HARNESS-PANIC");
    let j = json!({
        "property": prop,
        "evaluations": t.evaluations,
        "distinct": t.distinct.len(),
        "cases": t.cases,
        "counters": t.counters,
        "rule": info.rule,
        "violations": v.iter().filter(|x| x["key"] != "HARNESS-PANIC").collect::<Vec<_>>(),
        "samples": t.samples,
    });
    std::fs::write(&out, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    if harness_panic {
        eprintln!("{}", t.violations["HARNESS-PANIC"]);
        std::process::exit(4);
    }
    std::process::exit(0);
}
