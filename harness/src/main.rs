//! Conformance harness: replays behaviours of the TLA+ specifications in the
//! real code, and records runs of the real code for TLC to validate.
//!
//! conform replay-all <kind> <traces.jsonl> <result.json> [--seed N] [--params JSON]
//! conform record <kind> <result.json> [--seed N] [--count N]
//! conform replay <replay.json>

mod alloc;
mod common;
mod kinds;

use common::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOCATOR: alloc::Tagging = alloc::Tagging;

const WORKERS: usize = 8;
const HANG: Duration = Duration::from_secs(45);
const PATIENCE: Duration = Duration::from_secs(30);
const MAX_VIOLATIONS: usize = 5;

fn options(args: &[String]) -> HashMap<String, String> {
    args.chunks(2)
        .filter(|c| c.len() == 2)
        .map(|c| (c[0].trim_start_matches("--").to_string(), c[1].clone()))
        .collect()
}

/// Run one behaviour, with a pause in it if the job says so, in the background
fn run_one(kind: &kinds::Kind, params: &Value, trace: &Value, seed: u64, variant: usize) -> Result<(u64, Vec<Later>), String> {
    if params.get("pause").is_none() {
        return run_now(kind, params, trace, seed, variant);
    }
    let (name, params, trace) = (kind.name, params.clone(), trace.clone());
    let (sender, receiver) = std::sync::mpsc::channel();
    let tid = Arc::new(AtomicUsize::new(0));
    let theirs = tid.clone();
    let since = Instant::now();
    std::thread::spawn(move || {
        theirs.store(this_thread(), Ordering::SeqCst);
        let mut cx = Cx::new(params.clone(), seed, variant);
        let calls = params["pause"].u();
        pause_before(cx.range(1, calls), cx.range(3_000, 11_000) as u64);
        let result = run_now(&kinds::find(name), &params, &trace, seed, variant).and_then(|(mut n, later)| {
            for mut check in later {
                n += settle(&mut check, PATIENCE)?;
            }
            Ok(n)
        });
        let _ = sender.send(result);
    });
    let mut done: Option<Result<u64, String>> = None;
    Ok((0, vec![Box::new(move || loop {
        if let Some(result) = &done {
            return result.clone();
        }
        match receiver.recv_timeout(Duration::from_millis(100)) {
            Ok(result) => done = Some(result),
            Err(_) if since.elapsed() > 2 * HANG + waited(tid.load(Ordering::SeqCst)) =>
                done = Some(Err("a run did not come to its end".to_string())),
            Err(_) => (),
        }
    })]))
}

/// Run one behaviour; a panic of the code under test is a failure
fn run_now(kind: &kinds::Kind, params: &Value, trace: &Value, seed: u64, variant: usize) -> Result<(u64, Vec<Later>), String> {
    let mut cx = Cx::new(params.clone(), seed, variant);
    match catch_unwind(AssertUnwindSafe(|| (kind.run)(&mut cx, trace))) {
        Ok(Ok(())) => Ok((cx.checks, cx.later)),
        Ok(Err(message)) => Err(message),
        Err(panic) => Err(format!("panic: {}", panic_message(panic))),
    }
}

/// Try a check again until it succeeds or its time is up
fn settle(check: &mut Later, patience: Duration) -> Result<u64, String> {
    let since = Instant::now();
    loop {
        match catch_unwind(AssertUnwindSafe(|| check())) {
            Ok(Ok(n)) => return Ok(n),
            Ok(Err(_)) if since.elapsed() < patience => std::thread::sleep(Duration::from_millis(20)),
            Ok(Err(message)) => return Err(message),
            Err(panic) => return Err(format!("panic: {}", panic_message(panic))),
        }
    }
}

fn mix_seed(seed: u64, index: usize, variant: usize) -> u64 {
    (seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (index as u64).wrapping_mul(0xD1B5_4A32_D192_ED03))
        .wrapping_add(variant as u64 + 1)
}

/// A run, in a thread of which we know how long it has waited for its turn on a busy machine
#[derive(Clone, Copy)]
struct Running {
    since: Instant,
    index: usize,
    variant: usize,
    thread: usize,
    waited: Duration,
}

fn this_thread() -> usize {
    std::fs::read_link("/proc/thread-self").ok()
        .and_then(|p| p.file_name().and_then(|n| n.to_str().and_then(|n| n.parse().ok()))).unwrap_or(0)
}

fn waited(thread: usize) -> Duration {
    std::fs::read_to_string(format!("/proc/self/task/{thread}/schedstat")).ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|v| v.parse().ok())).map_or(Duration::ZERO, Duration::from_nanos)
}

struct Shared {
    violations: Mutex<Vec<Value>>,
    started: Vec<Mutex<Option<Running>>>,
    traces_done: AtomicUsize,
    runs: AtomicUsize,
    checks: AtomicUsize,
    stop: AtomicBool,
}

fn replay_all(kind_name: &str, traces: &str, result: &str, opts: HashMap<String, String>) {
    let kind = kinds::find(kind_name);
    let seed: u64 = opts.get("seed").map_or(1, |s| s.parse().unwrap());
    let params: Value = opts.get("params").map_or(json!({}), |p| serde_json::from_str(p).unwrap());
    let text = std::fs::read_to_string(traces).expect("traces");
    let lines: Vec<&str> = text.lines().filter(|l| !l.is_empty()).collect();

    let shared = Arc::new(Shared {
        violations: Mutex::new(Vec::new()),
        started: (0..WORKERS).map(|_| Mutex::new(None)).collect(),
        traces_done: AtomicUsize::new(0),
        runs: AtomicUsize::new(0),
        checks: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
    });

    let write = |shared: &Shared, extra: Option<Value>| {
        let mut violations = shared.violations.lock().unwrap().clone();
        violations.extend(extra);
        let samples: Vec<Value> = lines.iter().take(1).chain(lines.iter().skip(lines.len() / 2).take(1))
            .map(|l| serde_json::from_str(l).unwrap()).collect();
        let out = json!({
            "traces": shared.traces_done.load(Ordering::SeqCst),
            "runs": shared.runs.load(Ordering::SeqCst),
            "checks": shared.checks.load(Ordering::SeqCst),
            "violations": violations,
            "samples": samples,
        });
        std::fs::write(result, out.to_string()).unwrap();
    };

    let next = AtomicUsize::new(0);
    let alive = AtomicUsize::new(WORKERS);
    std::thread::scope(|scope| {
        for worker in 0..WORKERS {
            let (shared, lines, params, next, alive, kind) = (&shared, &lines, &params, &next, &alive, &kind);
            std::thread::Builder::new().name(format!("w{worker}")).spawn_scoped(scope, move || {
                let thread = this_thread();
                let mut later: Vec<(usize, usize, Later)> = Vec::new();
                let violated = |index: usize, variant: usize, message: String| {
                    let trace: Value = serde_json::from_str(lines[index]).unwrap();
                    let mut v = shared.violations.lock().unwrap();
                    v.push(json!({"kind": kind.name, "params": params, "seed": mix_seed(seed, index, variant), "variant": variant,
                        "message": message, "trace": trace}));
                    if v.len() >= MAX_VIOLATIONS {
                        shared.stop.store(true, Ordering::SeqCst);
                    }
                };
                loop {
                    let index = next.fetch_add(1, Ordering::SeqCst);
                    if index >= lines.len() || shared.stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let trace: Value = serde_json::from_str(lines[index]).expect("trace");
                    for variant in (kind.variants)(params, index) {
                        throttle_threads();
                        *shared.started[worker].lock().unwrap() = Some(Running { since: Instant::now(), index, variant, thread, waited: waited(thread) });
                        let s = mix_seed(seed, index, variant);
                        let outcome = run_one(kind, params, &trace, s, variant);
                        *shared.started[worker].lock().unwrap() = None;
                        shared.runs.fetch_add(1, Ordering::SeqCst);
                        match outcome {
                            Ok((n, checks)) => {
                                shared.checks.fetch_add(n as usize, Ordering::SeqCst);
                                later.extend(checks.into_iter().map(|c| (index, variant, c)));
                            }
                            Err(message) => {
                                violated(index, variant, message);
                                break;
                            }
                        }
                    }
                    shared.traces_done.fetch_add(1, Ordering::SeqCst);
                }
                let settling = Instant::now();
                for (index, variant, mut check) in later {
                    let left = PATIENCE.saturating_sub(settling.elapsed());
                    match settle(&mut check, left) {
                        Ok(n) => { shared.checks.fetch_add(n as usize, Ordering::SeqCst); }
                        Err(message) => violated(index, variant, message),
                    }
                    if shared.stop.load(Ordering::SeqCst) {
                        break;
                    }
                }
                alive.fetch_sub(1, Ordering::SeqCst);
            }).unwrap();
        }
        // Watch for runs that never return
        while alive.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            for slot in &shared.started {
                let entry = *slot.lock().unwrap();
                if let Some(Running { since, index, variant, thread, waited: before }) = entry {
                    if since.elapsed() > HANG && since.elapsed() > HANG + waited(thread).saturating_sub(before) {
                        let trace: Value = serde_json::from_str(lines[index]).unwrap();
                        write(&shared, Some(json!({"kind": kind.name, "params": params,
                            "seed": mix_seed(seed, index, variant), "variant": variant,
                            "message": format!("hang: a run did not return within {HANG:?}"), "trace": trace})));
                        std::process::exit(0);
                    }
                }
            }
        }
    });
    write(&shared, None);
}

fn replay(path: &str) {
    let file: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).unwrap();
    let kind = kinds::find(file["kind"].as_str().expect("this is not a replay of a specification behaviour"));
    match run_one(&kind, &file["params"], &file["trace"], file["seed"].as_u64().unwrap(), file["variant"].as_u64().unwrap() as usize) {
        Ok((n, later)) => {
            for mut check in later {
                if let Err(m) = settle(&mut check, PATIENCE) {
                    eprintln!("{m}");
                    std::process::exit(1);
                }
            }
            eprintln!("ok, {n} comparisons")
        }
        Err(m) => {
            eprintln!("{m}");
            std::process::exit(1);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    install_panic_hook();
    match args[0].as_str() {
        "replay-all" => replay_all(&args[1], &args[2], &args[3], options(&args[4..])),
        "record" => {
            let opts = options(&args[3..]);
            let seed: u64 = opts.get("seed").map_or(1, |s| s.parse().unwrap());
            let count: usize = opts.get("count").map_or(10, |s| s.parse().unwrap());
            let out = kinds::record(&args[1], seed, count);
            std::fs::write(&args[2], out.to_string()).unwrap();
        }
        "replay" => replay(&args[1]),
        other => panic!("unknown command {other}"),
    }
    // Do not wait for threads left behind by the code under test
    std::process::exit(0);
}
