//! Seeds in, verdicts out: runs many scenarios in parallel worker processes,
//! every single run in a forked process of its own, minimises what fails,
//! writes the replay file and the evidence.

use crate::checks::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::rt::{self, RunOut, Shared};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

/// processor time one run may take; only code without callbacks (other crates)
/// can reach this, everything else is bounded in simulated steps
pub const RUN_CPU_SECS: i64 = 60;
/// and real time, in case a call really blocks outside the simulator
const RUN_WALL_SECS: i64 = 300;

enum Outcome {
    Ok(RunOut),
    Violation(RunOut),
    Harness(String),
}

/// one scenario, one process
fn run_one<C: Check>(sc: &C::Sc, sh: *mut Shared, logging: bool, cpu: i64) -> Outcome {
    unsafe {
        (*sh).status = 0;
        (*sh).in_lib = 0;
        (*sh).len = 0;
    }
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe {
            if std::env::var_os("DST_DEBUG").is_none() {
                let fd = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
                libc::dup2(fd, 2);
            }
            let it = |secs| libc::itimerval {
                it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
                it_value: libc::timeval { tv_sec: secs, tv_usec: 0 },
            };
            libc::signal(libc::SIGALRM, libc::SIG_DFL);
            libc::signal(libc::SIGPROF, libc::SIG_DFL);
            setitimer(0, &it(RUN_WALL_SECS.max(3 * cpu)), std::ptr::null_mut());
            setitimer(2, &it(cpu), std::ptr::null_mut());
        }
        let sc = sc.clone();
        rt::init(C::plan(&sc), sh, logging);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| C::run(sc)));
        match r {
            Ok((nontrivial, summary)) => rt::finish(nontrivial, summary),
            Err(_) => rt::harness_error("the harness panicked"),
        }
    }
    if pid < 0 {
        return Outcome::Harness("fork failed".into());
    }
    let mut status = 0;
    unsafe { while libc::waitpid(pid, &mut status, 0) < 0 {} }
    let (s, in_lib) = unsafe { ((*sh).status, (*sh).in_lib) };
    match s {
        1 | 2 => match serde_json::from_slice::<RunOut>(unsafe { &(*sh).get() }) {
            Ok(o) if s == 1 => Outcome::Ok(o),
            Ok(o) => Outcome::Violation(o),
            Err(e) => Outcome::Harness(format!("unreadable result: {}", e)),
        },
        3 => Outcome::Harness(String::from_utf8_lossy(unsafe { &(*sh).get() }).into_owned()),
        _ => {
            if libc::WIFSIGNALED(status) && in_lib == 1 {
                let sig = libc::WTERMSIG(status);
                let mut o = RunOut::default();
                if sig == libc::SIGKILL {
                    return Outcome::Harness("run was killed from outside".into());
                }
                if sig == libc::SIGALRM || sig == libc::SIGPROF {
                    o.class = "hang".into();
                    o.detail = format!("a library call did not come back within {} s of processor time", cpu);
                } else {
                    o.class = "crash".into();
                    o.detail = format!("the process died with signal {} inside a library call (6: abort or exhausted stack, 11: bad memory access)", sig);
                }
                Outcome::Violation(o)
            } else {
                Outcome::Harness(format!("run ended with wait status {:#x}", status))
            }
        }
    }
}

extern "C" {
    fn setitimer(which: i32, new: *const libc::itimerval, old: *mut libc::itimerval) -> i32;
}

fn seed_of(id: &str, seed: u64, index: u64) -> u64 {
    mix(mix(seed ^ hash_bytes(0xcbf2_9ce4_8422_2325, id.as_bytes())) ^ mix(index))
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    sim_ns: u128,
    switches: u64,
    lib_preempts: u64,
    max_call_steps: u64,
    stats: BTreeMap<String, u64>,
    traces: Vec<u64>,
    samples: Vec<Value>,
    violation: Option<(u64, RunOut)>,
    harness: Option<String>,
    digest: Vec<(u64, u64)>,
}

fn pin(k: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) == 0 {
            let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
            if !cpus.is_empty() {
                let mut one: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(cpus[k % cpus.len()], &mut one);
                libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
            }
        }
    }
}

struct Batch {
    seed: u64,
    first: u64,
    runs: u64,
    workers: usize,
    thorough: bool,
    digest: bool,
    limit: Option<Duration>,
}

fn worker<C: Check>(k: usize, b: &Batch, min: &AtomicU64, sh: *mut Shared) -> WorkerOut {
    let mut w = WorkerOut::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let t0 = Instant::now();
    let mut i = k as u64;
    while i < b.runs {
        let index = b.first + i;
        i += b.workers as u64;
        if index > min.load(SeqCst) {
            break;
        }
        if let Some(l) = b.limit {
            if t0.elapsed() > l {
                break;
            }
        }
        let mut r = Rng::new(seed_of(C::ID, b.seed, index));
        let sc = C::gen(&mut r, index, b.thorough);
        match run_one::<C>(&sc, sh, false, C::cpu_secs(&sc)) {
            Outcome::Ok(o) => {
                w.runs += 1;
                w.steps += o.steps;
                w.sim_ns += o.sim_ns as u128;
                w.switches += o.switches;
                w.lib_preempts += o.lib_preempts;
                w.max_call_steps = w.max_call_steps.max(o.max_call_steps);
                for (a, n) in &o.stats {
                    *w.stats.entry(a.clone()).or_insert(0) += n;
                }
                if o.nontrivial {
                    w.nontrivial += 1;
                    seen.insert(o.trace);
                    if w.samples.len() < 2 {
                        w.samples.push(json!({"run": index, "seed": seed_of(C::ID, b.seed, index), "what": o.summary, "trace": format!("{:016x}", o.trace)}));
                    }
                }
                if b.digest {
                    w.digest.push((index, mix(o.trace ^ mix(o.steps) ^ mix(o.sim_ns).rotate_left(7))));
                }
            }
            Outcome::Violation(o) => {
                min.fetch_min(index, SeqCst);
                w.violation = Some((index, o));
                break;
            }
            Outcome::Harness(e) => {
                w.harness = Some(format!("run {} (seed {}): {}", index, seed_of(C::ID, b.seed, index), e));
                min.fetch_min(0, SeqCst);
                break;
            }
        }
    }
    w.traces = seen.into_iter().collect();
    w
}

fn run_batch<C: Check>(b: &Batch) -> Vec<WorkerOut> {
    let min_page = rt::new_shared();
    let min: &AtomicU64 = unsafe { &*(min_page as *const AtomicU64) };
    min.store(u64::MAX, SeqCst);
    let areas: Vec<(*mut Shared, *mut Shared)> = (0..b.workers).map(|_| (rt::new_shared(), rt::new_shared())).collect();
    let mut pids = vec![];
    for (k, (run_area, out_area)) in areas.iter().enumerate() {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            pin(k);
            let w = worker::<C>(k, b, min, *run_area);
            let bytes = serde_json::to_vec(&w).unwrap();
            unsafe {
                (**out_area).put(1, &bytes);
                libc::_exit(0)
            }
        }
        pids.push(pid);
    }
    let mut outs = vec![];
    for (pid, (a, o)) in pids.into_iter().zip(areas) {
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} }
        let ok = unsafe { (*o).status == 1 };
        let w = if ok { serde_json::from_slice(&unsafe { (*o).get() }).ok() } else { None };
        outs.push(w.unwrap_or_else(|| WorkerOut { harness: Some(format!("worker ended with status {:#x}", st)), ..Default::default() }));
        rt::free_shared(a);
        rt::free_shared(o);
    }
    rt::free_shared(min_page);
    outs
}

// ---------------------------------------------------------------- minimising

const LISTS: &[&str] = &["items", "gaps", "hot", "picks", "faults", "chunks", "damage", "tail", "tasks", "ops", "calls", "sessions", "attempts", "cuts", "bad", "write_chunks", "vars"];
const NUMBERS: &[&str] = &["pad", "times", "n", "ns", "latency", "secs", "clock_base", "hash_seed", "disk_errors", "cut", "at"];

fn paths(v: &Value, pre: &mut Vec<Key>, lists: &mut Vec<Vec<Key>>, nums: &mut Vec<Vec<Key>>, name: &str) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                pre.push(Key::F(k.clone()));
                paths(x, pre, lists, nums, k);
                pre.pop();
            }
        }
        Value::Array(a) => {
            if LISTS.contains(&name) && !a.is_empty() {
                lists.push(pre.clone());
            }
            // a single item, fault or edit is kept as it is, but what is inside may shrink
            for (i, x) in a.iter().enumerate() {
                if i > 200 {
                    break;
                }
                pre.push(Key::I(i));
                paths(x, pre, lists, nums, "");
                pre.pop();
            }
        }
        Value::Number(n) if NUMBERS.contains(&name) => {
            if n.as_i64().map(|x| x != 0).unwrap_or(true) {
                nums.push(pre.clone());
            }
        }
        _ => {}
    }
}

#[derive(Clone)]
enum Key {
    F(String),
    I(usize),
}

fn at<'a>(v: &'a mut Value, p: &[Key]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in p {
        v = match k {
            Key::F(s) => v.get_mut(s)?,
            Key::I(i) => v.get_mut(*i)?,
        };
    }
    Some(v)
}

/// greedy: keep any smaller scenario that violates in the same way
fn minimise<C: Check>(sc: &C::Sc, class: &str, budget: Duration) -> (C::Sc, RunOut, u64) {
    let sh = rt::new_shared();
    let t0 = Instant::now();
    let mut tried = 0u64;
    let mut best = serde_json::to_value(sc).unwrap();
    let mut best_out = RunOut { class: class.into(), ..Default::default() };
    let mut attempt = |v: &Value| -> Option<RunOut> {
        let sc: C::Sc = serde_json::from_value(v.clone()).ok()?;
        tried += 1;
        match run_one::<C>(&sc, sh, false, 10) {
            Outcome::Violation(o) if o.class == class => Some(o),
            _ => None,
        }
    };
    if let Some(o) = attempt(&best) {
        best_out = o;
    }
    loop {
        let mut progress = false;
        let (mut lists, mut nums) = (vec![], vec![]);
        paths(&best, &mut vec![], &mut lists, &mut nums, "");
        // long lists first: drop ever smaller pieces
        for p in lists.iter().rev().chain(lists.iter()) {
            let mut piece = match at(&mut best, p) {
                Some(Value::Array(a)) => a.len(),
                _ => continue,
            };
            while piece >= 1 {
                let mut i = 0;
                loop {
                    if t0.elapsed() > budget {
                        break;
                    }
                    let mut cand = best.clone();
                    let Some(Value::Array(a)) = at(&mut cand, p) else { break };
                    if i >= a.len() {
                        break;
                    }
                    let e = (i + piece).min(a.len());
                    a.drain(i..e);
                    if let Some(o) = attempt(&cand) {
                        best = cand;
                        best_out = o;
                        progress = true;
                    } else {
                        i += piece;
                    }
                }
                piece /= 2;
            }
        }
        let (mut lists, mut nums) = (vec![], vec![]);
        paths(&best, &mut vec![], &mut lists, &mut nums, "");
        let _ = lists;
        for p in nums {
            for f in 0..4 {
                if t0.elapsed() > budget {
                    break;
                }
                let mut cand = best.clone();
                let Some(x) = at(&mut cand, &p) else { break };
                let Some(n) = x.as_i64() else { break };
                let m = match f {
                    0 => 0,
                    1 => 1,
                    2 => n / 2,
                    _ => n - 1,
                };
                if m == n || m < 0 || m.abs() > n.abs() {
                    continue;
                }
                *x = json!(m);
                if let Some(o) = attempt(&cand) {
                    best = cand;
                    best_out = o;
                    progress = true;
                    if f == 0 {
                        break;
                    }
                }
            }
        }
        if !progress || t0.elapsed() > budget {
            break;
        }
    }
    rt::free_shared(sh);
    (serde_json::from_value(best).unwrap(), best_out, tried)
}

// ---------------------------------------------------------------- checking

fn root() -> String {
    std::env::var("DST_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn check<C: Check>(seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let cov = rt::init_cov();
    let workers = std::env::var("DST_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let runs = std::env::var("DST_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { C::THOROUGH } else { C::QUICK });
    let b = Batch { seed, first: 0, runs, workers, thorough, digest: false, limit: Some(Duration::from_secs(if thorough { 6 * 3600 } else { 600 })) };
    println!("{}: VERIF_SEED={} tier={} runs={} workers={}", C::ID, seed, if thorough { "thorough" } else { "quick" }, runs, workers);
    let outs = run_batch::<C>(&b);
    if let Some(h) = outs.iter().filter_map(|o| o.harness.clone()).next() {
        eprintln!("HARNESS ERROR: {}", h);
        return 2;
    }
    let viol = outs.iter().filter_map(|o| o.violation.clone()).min_by_key(|v| v.0);
    let mut total = WorkerOut::default();
    let mut traces: HashSet<u64> = HashSet::new();
    for o in &outs {
        total.runs += o.runs;
        total.nontrivial += o.nontrivial;
        total.steps += o.steps;
        total.sim_ns += o.sim_ns;
        total.switches += o.switches;
        total.lib_preempts += o.lib_preempts;
        total.max_call_steps = total.max_call_steps.max(o.max_call_steps);
        for (a, n) in &o.stats {
            *total.stats.entry(a.clone()).or_insert(0) += n;
        }
        traces.extend(&o.traces);
        total.samples.extend(o.samples.iter().cloned());
    }
    total.samples.truncate(5);
    let mut code = 0;
    let mut violations = 0;
    let mut replay_note = Value::Null;
    let mut lines = vec![];
    if let Some((index, o)) = viol {
        violations = 1;
        code = 1;
        let mut r = Rng::new(seed_of(C::ID, seed, index));
        let sc = C::gen(&mut r, index, thorough);
        let budget = Duration::from_secs(if o.class == "hang" { 30 } else { 60 });
        let (small, small_out, tried) = minimise::<C>(&sc, &o.class, budget);
        let dir = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-seed{}-run{}.json", dir, C::ID, seed, index);
        let mut written = None;
        for (s, out) in [(&small, &small_out), (&sc, &o)] {
            // the trace of the run, for the reader of the file
            let sh = rt::new_shared();
            let log = match run_one::<C>(s, sh, true, C::cpu_secs(s)) {
                Outcome::Violation(x) => Some(x),
                _ => None,
            };
            rt::free_shared(sh);
            let out = log.as_ref().unwrap_or(out);
            let mut lg = out.log.clone();
            if lg.len() > 400 {
                let k = lg.len() - 200;
                lg.drain(200..k);
            }
            let f = json!({
                "property": C::ID, "class": out.class, "detail": out.detail,
                "verif_seed": seed, "run": index, "run_seed": seed_of(C::ID, seed, index),
                "trace_hash": format!("{:016x}", out.trace),
                "minimising_runs": tried, "scenario": s, "event_log": lg,
            });
            if std::fs::write(&path, serde_json::to_vec_pretty(&f).unwrap()).is_err() {
                continue;
            }
            // replay in a new process; it must fail in the same way
            let me = std::env::current_exe().unwrap();
            let rep = std::process::Command::new(me).args(["replay", &path, "--quiet"]).output();
            if let Ok(rep) = rep {
                if rep.status.code() == Some(1) {
                    written = Some(out.clone());
                    break;
                }
            }
        }
        match written {
            None => {
                eprintln!("HARNESS ERROR: run {} violated ({}: {}) but does not replay", index, o.class, o.detail);
                return 2;
            }
            Some(out) => {
                lines.push(format!("run {} (run seed {}): {}: {}", index, seed_of(C::ID, seed, index), out.class, out.detail));
                lines.push(format!("minimised with {} runs; replay with: {} replay {}", tried, std::env::current_exe().unwrap().display(), path));
                lines.push(format!("VIOLATION property={} replay={}", C::ID, path));
                replay_note = json!({"class": out.class, "detail": out.detail, "replay": path});
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let edges = unsafe { (0..rt::COV_MAX).filter(|i| *cov.add(*i) != 0).count() };
    // which ones: for tools/coverage.py
    let dir = format!("{}/sim/target/cov", root());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}", dir, C::ID), unsafe { std::slice::from_raw_parts(cov, rt::COV_MAX) });
    let faults: BTreeMap<&String, &u64> = total.stats.iter().filter(|(k, _)| k.starts_with("fault.")).collect();
    let probes: BTreeMap<&String, &u64> = total.stats.iter().filter(|(k, _)| !k.starts_with("fault.")).collect();
    let ev = json!({
        "property": C::ID,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.runs,
            "distinct_nontrivial": traces.len(),
            "rule": C::RULE,
            "samples": total.samples,
            "nontrivial_runs": total.nontrivial,
            "runs_per_hour": (total.runs as f64 / wall * 3600.0) as u64,
            "seeds": format!("run seeds mix(VERIF_SEED={}, property, 0..{})", seed, runs),
            "simulated_seconds": total.sim_ns as f64 / 1e9,
            "simulated_steps": total.steps,
            "task_switches": total.switches,
            "preemptions_inside_library_calls": total.lib_preempts,
            "longest_call_steps": total.max_call_steps,
            "faults_injected": faults,
            "operations_outcomes_and_probes": probes,
            "library_edges_reached": edges,
            "library_edges_total": rt::edges_total(),
            "real_components": "dockerfile_parser built from /repo's working tree, pest, regex, enquote, lazy_static, snafu, std (BufReader, String, Once, HashMap)",
            "simulated_components": "threads' interleaving, futex waits, clocks, sleeps, getrandom, the reader (disk/pipe), the disk and its crashes, the callers",
            "violation": replay_note,
        },
        "assumptions": [
            "sampling: seeds not tried are not covered",
            "preemption happens at control-flow edges and allocations of the crate under test and at blocking primitives, under sequential consistency; weak-memory effects are not simulated",
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, C::ID), serde_json::to_vec_pretty(&ev).unwrap()) {
        eprintln!("HARNESS ERROR: cannot write evidence: {}", e);
        return 2;
    }
    println!(
        "{}: {} runs, {} non-trivial, {} distinct, {} of {} edges, {:.1} s",
        C::ID, total.runs, total.nontrivial, traces.len(), edges, rt::edges_total(), wall
    );
    for l in lines {
        println!("{}", l);
    }
    code
}

fn replay<C: Check>(v: &Value, quiet: bool) -> i32 {
    rt::init_cov();
    let Ok(sc) = serde_json::from_value::<C::Sc>(v["scenario"].clone()) else {
        eprintln!("HARNESS ERROR: the scenario does not fit this version of the simulator");
        return 2;
    };
    let sh = rt::new_shared();
    match run_one::<C>(&sc, sh, true, C::cpu_secs(&sc)) {
        Outcome::Ok(o) => {
            if !quiet {
                println!("no violation (recorded: {})", v["class"]);
                println!("{}", o.summary);
            }
            0
        }
        Outcome::Violation(o) => {
            if !quiet {
                for l in &o.log {
                    println!("{}", l);
                }
                println!("{}: {}", o.class, o.detail);
            }
            let same = v["class"] == json!(o.class) && (o.trace == 0 || v["trace_hash"] == json!(format!("{:016x}", o.trace)));
            if !same {
                eprintln!("the replay differs from the recording ({} {:016x})", o.class, o.trace);
                if v["class"] != json!(o.class) {
                    return 2;
                }
            }
            1
        }
        Outcome::Harness(e) => {
            eprintln!("HARNESS ERROR: {}", e);
            2
        }
    }
}

/// the same seeds twice, with different worker counts, must give the same event traces
fn selftest<C: Check>(seed: u64, runs: u64) -> bool {
    rt::init_cov();
    let mut all: Vec<BTreeMap<u64, u64>> = vec![];
    for workers in [8usize, 3, 8, 1] {
        let n = if workers == 1 { runs / 8 } else { runs };
        let b = Batch { seed, first: 0, runs: n, workers, thorough: false, digest: true, limit: None };
        let outs = run_batch::<C>(&b);
        if let Some(h) = outs.iter().filter_map(|o| o.harness.clone()).next() {
            println!("{}: HARNESS ERROR {}", C::ID, h);
            return false;
        }
        if let Some(v) = outs.iter().filter_map(|o| o.violation.clone()).next() {
            println!("{}: violation {} {}", C::ID, v.1.class, v.1.detail);
            return false;
        }
        all.push(outs.iter().flat_map(|o| o.digest.iter().copied()).collect());
    }
    let mut bad = vec![];
    for m in &all[1..] {
        for (k, v) in m {
            if all[0].get(k) != Some(v) {
                bad.push(*k);
            }
        }
    }
    println!("{}: {} seeds x 4 executions (8, 3, 8 and 1 workers): {} diverged {:?}", C::ID, runs, bad.len(), bad.iter().take(5).collect::<Vec<_>>());
    bad.is_empty()
}

fn show<C: Check>(seed: u64, index: u64, thorough: bool) -> i32 {
    rt::init_cov();
    let mut r = Rng::new(seed_of(C::ID, seed, index));
    let sc = C::gen(&mut r, index, thorough);
    println!("{}", serde_json::to_string(&sc).unwrap().chars().take(20_000).collect::<String>());
    let sh = rt::new_shared();
    match run_one::<C>(&sc, sh, true, C::cpu_secs(&sc)) {
        Outcome::Ok(o) => {
            println!("{}\nok: {} stats {:?}", o.log.join("\n"), o.summary, o.stats);
            0
        }
        Outcome::Violation(o) => {
            println!("{}\n{}: {}", o.log.join("\n"), o.class, o.detail);
            1
        }
        Outcome::Harness(e) => {
            println!("harness: {}", e);
            2
        }
    }
}

macro_rules! each {
    ($id:expr, $f:ident ( $($a:expr),* ), $else:expr) => {
        match $id {
            "C01" => $f::<C01>($($a),*),
            "C02" => $f::<C02>($($a),*),
            "C03" => $f::<C03>($($a),*),
            "C04" => $f::<C04>($($a),*),
            "C05" => $f::<C05>($($a),*),
            "C06" => $f::<C06>($($a),*),
            "C07" => $f::<C07>($($a),*),
            "C08" => $f::<C08>($($a),*),
            "C09" => $f::<C09>($($a),*),
            "C10" => $f::<C10>($($a),*),
            "C18" => $f::<C18>($($a),*),
            "C19" => $f::<C19>($($a),*),
            _ => $else,
        }
    };
}

const ALL: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C18", "C19"];

/// fixed addresses, so that nothing can depend on where the process was loaded
fn fix_addresses() {
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        const NO_RANDOMIZE: i32 = 0x0040000;
        if cur >= 0 && cur & NO_RANDOMIZE == 0 && libc::personality((cur | NO_RANDOMIZE) as u64) >= 0 && std::env::var_os("DST_EXEC").is_none() {
            std::env::set_var("DST_EXEC", "1");
            use std::os::unix::process::CommandExt;
            let me = std::env::current_exe().unwrap();
            let _ = std::process::Command::new(me).args(std::env::args_os().skip(1)).exec();
        }
    }
}

pub fn main(a: &[String]) -> i32 {
    fix_addresses();
    rt::install_panic_hook();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false);
    let cmd = a.first().map(|s| s.as_str()).unwrap_or("");
    let arg = a.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "check" => each!(arg, check(seed, thorough), usage()),
        "replay" => {
            let v: Value = match std::fs::read(arg).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                Some(v) => v,
                None => {
                    eprintln!("HARNESS ERROR: cannot read {}", arg);
                    return 2;
                }
            };
            let id = v["property"].as_str().unwrap_or("").to_string();
            let quiet = a.iter().any(|x| x == "--quiet");
            let c = each!(id.as_str(), replay(&v, quiet), usage());
            if c == 1 && !quiet {
                println!("VIOLATION property={} replay={}", id, arg);
            }
            c
        }
        "selftest" => {
            let runs = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(400);
            let mut ok = true;
            for id in ALL.iter().filter(|i| arg == "all" || arg == **i) {
                ok &= each!(*id, selftest(seed, runs), false);
            }
            if ok { 0 } else { 2 }
        }
        "show" => {
            let index = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(0);
            each!(arg, show(seed, index, thorough), usage())
        }
        _ => usage(),
    }
}

fn usage() -> i32 {
    eprintln!("usage: dst check C.. | replay FILE | selftest all|C.. [RUNS] | show C.. INDEX");
    2
}
