//! The simulator runtime.
//!
//! Caller threads ("tasks") are real threads, but exactly one of them holds the
//! baton at any time; everybody else is parked on a private gate. Whoever holds
//! the baton decides - from the schedule plan, never from the operating system -
//! who runs next. Control comes back to the runtime
//!   * at every control-flow edge of the crate under test (compiler callback),
//!   * at every allocation made inside a library call (global allocator),
//!   * at every blocking primitive std uses (futex, sleep, yield), which are
//!     intercepted by defining the libc entry points in this binary,
//!   * at every call of a simulated reader,
//! and simulated time is the number of such steps plus simulated latencies.
//! Clock reads and `getrandom` (hash seeds) are answered from the plan as well.

use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::SeqCst};

// ---------------------------------------------------------------- plan

/// Everything the scheduler will decide in one run.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Plan {
    /// forced preemptions: (steps since the previous one, which ready task)
    pub gaps: Vec<(u64, u32)>,
    /// forced preemptions at accesses to state threads can share:
    /// (such accesses since the previous one, which ready task)
    #[serde(default)]
    pub hot: Vec<(u64, u32)>,
    /// choices made when a task blocks, sleeps, yields or finishes
    pub picks: Vec<u32>,
    /// answers of getrandom
    pub hash_seed: u64,
    /// wall clock at simulated time zero, seconds
    pub clock_base: i64,
}

pub fn gen_plan(r: &mut Rng, tasks: usize) -> Plan {
    let mut p = Plan {
        gaps: vec![],
        hot: vec![],
        picks: vec![],
        hash_seed: r.next() >> 1,
        clock_base: r.range(0, 4_000_000_000) as i64,
    };
    if tasks > 1 {
        let (n, max_log) = match r.below(10) {
            0 => (0, 1),
            1 | 2 => (r.range(1, 6), 16),
            3 | 4 => (r.range(6, 40), 12),
            5 | 6 => (r.range(40, 250), 9),
            7 => (r.range(300, 1200), 5),
            _ => (r.range(4, 80), 14),
        };
        for _ in 0..n {
            let lg = r.below(max_log) as u32;
            let gap = (1u64 << lg) + r.next() % (1u64 << lg);
            p.gaps.push((gap, r.below(8) as u32));
        }
        if r.pct(50) {
            let lg = r.range(0, 6);
            for _ in 0..r.range(1, 60) {
                p.hot.push((1 + r.next() % (1u64 << lg), r.below(8) as u32));
            }
            if r.pct(40) {
                p.gaps.clear();
            }
        }
        for _ in 0..r.range(0, 24) {
            p.picks.push(r.below(8) as u32);
        }
    }
    p
}

// ---------------------------------------------------------------- state

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Futex { addr: usize, deadline: u64 },
    Sleep { until: u64 },
    Lock { key: usize },
    Done,
}

struct Task {
    st: St,
    timed_out: bool,
}

const MAXT: usize = 64;

/// what the running call is called; kept without allocating
#[derive(Clone, Copy)]
struct Name([u8; 40], usize);
impl Name {
    fn of(s: &str) -> Name {
        let mut b = [0; 40];
        let n = s.len().min(40);
        b[..n].copy_from_slice(&s.as_bytes()[..n]);
        Name(b, n)
    }
}
impl std::fmt::Display for Name {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&String::from_utf8_lossy(&self.0[..self.1]))
    }
}

pub struct G {
    in_run: bool,
    cur: usize,
    tasks: Vec<Task>,
    pub now: u64,
    pub steps: u64,
    call_steps: u64,
    call_budget: u64,
    call_what: Name,
    max_call_steps: u64,
    last_call_steps: u64,
    /// bytes library calls copied, cleared or asked for
    moved: u64,
    gap_left: u64,
    gap_idx: usize,
    hot_left: u64,
    hot_idx: usize,
    pick_idx: usize,
    plan: Plan,
    hash_rng: Rng,
    clock_off: i64,
    pub trace: u64,
    pub switches: u64,
    pub lib_preempts: u64,
    hot_points: u64,
    hot_preempts: u64,
    locks: Vec<Option<usize>>,
    stats: BTreeMap<String, u64>,
    log: Vec<String>,
    logging: bool,
    out: *mut Shared,
    mem_cap: usize,
    mem_base: usize,
}

struct Cell0(std::cell::UnsafeCell<Option<G>>);
unsafe impl Sync for Cell0 {}
static GLOBAL: Cell0 = Cell0(std::cell::UnsafeCell::new(None));
static GATES: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static MAIN_GATE: AtomicU32 = AtomicU32::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);

#[allow(static_mut_refs)]
pub fn g() -> &'static mut G {
    // Sound by the baton protocol: only its holder touches the state.
    unsafe { (*GLOBAL.0.get()).as_mut().expect("runtime not initialised") }
}

thread_local! {
    pub static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static TASK: Cell<usize> = const { Cell::new(usize::MAX) };
    /// the simulator's own bookkeeping does not count
    static UNCOUNTED: Cell<bool> = const { Cell::new(false) };
    /// bytes this thread holds (allocated minus released, may be negative)
    static HELD: Cell<isize> = const { Cell::new(0) };
    /// what it held when its current library call began, and the most since then
    static CALL_BASE: Cell<isize> = const { Cell::new(0) };
    static CALL_PEAK: Cell<isize> = const { Cell::new(0) };
    static CALL_MEM: Cell<isize> = const { Cell::new(isize::MAX) };
    static PANIC_MSG: Cell<Option<String>> = const { Cell::new(None) };
}

/// bytes the whole process holds
pub fn live() -> usize {
    LIVE.load(SeqCst)
}

/// Result area shared between a run's process and its parent.
#[repr(C)]
pub struct Shared {
    /// 0 nothing, 1 finished, 2 violation, 3 harness error
    pub status: u32,
    pub in_lib: u32,
    pub len: u64,
    pub data: [u8; 0],
}
pub const SHARED_BYTES: usize = 64 << 20;

pub fn new_shared() -> *mut Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            SHARED_BYTES,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap failed");
        p as *mut Shared
    }
}

pub fn free_shared(p: *mut Shared) {
    unsafe {
        libc::munmap(p as *mut _, SHARED_BYTES);
    }
}

impl Shared {
    pub fn put(&mut self, status: u32, bytes: &[u8]) {
        let n = bytes.len().min(SHARED_BYTES - 4096);
        unsafe {
            std::ptr::copy_nonoverlapping(
                bytes.as_ptr(),
                (self as *mut Shared as *mut u8).add(std::mem::size_of::<Shared>()),
                n,
            )
        };
        self.len = n as u64;
        self.status = status;
    }
    pub fn get(&self) -> Vec<u8> {
        let n = self.len as usize;
        let mut v = vec![0u8; n];
        unsafe {
            std::ptr::copy_nonoverlapping(
                (self as *const Shared as *const u8).add(std::mem::size_of::<Shared>()),
                v.as_mut_ptr(),
                n,
            )
        };
        v
    }
}

// ---------------------------------------------------------------- coverage

pub const COV_MAX: usize = 1 << 16;
static mut COV: *mut u8 = std::ptr::null_mut();
static mut COV_N: u32 = 0;

/// One byte per edge, in memory shared by all processes of a worker.
pub fn init_cov() -> *mut u8 {
    unsafe {
        if COV.is_null() {
            let p = libc::mmap(
                std::ptr::null_mut(),
                COV_MAX,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            COV = p as *mut u8;
        }
        COV
    }
}

pub fn edges_total() -> u32 {
    unsafe { COV_N }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        COV_N += 1;
        *p = COV_N;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !ACTIVE.get() {
        return;
    }
    let id = *guard;
    if (id as usize) < COV_MAX && !COV.is_null() {
        *COV.add(id as usize) = 1;
    }
    point(id as u64);
}

// ---------------------------------------------------------------- allocator

pub struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        HELD.set(HELD.get() - l.size() as isize);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size(), SeqCst);
        HELD.set(HELD.get() - l.size() as isize);
        note_alloc(n);
        System.realloc(p, l, n)
    }
}

fn note_alloc(n: usize) {
    if UNCOUNTED.get() {
        return;
    }
    let live = LIVE.fetch_add(n, SeqCst) + n;
    let held = HELD.get() + n as isize;
    HELD.set(held);
    if ACTIVE.get() {
        let st = g();
        let mine = held - CALL_BASE.get();
        if mine > CALL_PEAK.get() {
            CALL_PEAK.set(mine);
            if mine > CALL_MEM.get() {
                ACTIVE.set(false);
                violation("memory", &format!("{} holds more than {} bytes", st.call_what, CALL_MEM.get()));
            }
        }
        if live > st.mem_base.saturating_add(st.mem_cap) {
            ACTIVE.set(false);
            violation("memory", &format!("a library call holds more than {} bytes", st.mem_cap));
        }
        st.moved += n as u64;
        point(1 << 40);
    }
}

pub fn note_moved(n: usize) {
    if ACTIVE.get() {
        g().moved += n as u64;
    }
}

/// bytes all library calls of this run copied, cleared or asked for so far
pub fn moved() -> u64 {
    g().moved
}

// ---------------------------------------------------------------- raw syscalls

unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

fn gate_wait(gate: &AtomicU32) {
    loop {
        if gate.swap(0, SeqCst) == 1 {
            return;
        }
        unsafe {
            raw(libc::SYS_futex, gate as *const _ as usize, 128, 0, 0, 0, 0);
        }
    }
}

fn gate_open(gate: &AtomicU32) {
    gate.store(1, SeqCst);
    unsafe {
        raw(libc::SYS_futex, gate as *const _ as usize, 129, 1, 0, 0, 0);
    }
}

// ---------------------------------------------------------------- scheduler

pub struct Off(bool);
impl Off {
    fn new() -> Off {
        Off(ACTIVE.replace(false))
    }
}
impl Drop for Off {
    fn drop(&mut self) {
        ACTIVE.set(self.0);
    }
}

#[inline]
fn point(id: u64) {
    let st = g();
    st.steps += 1;
    st.now += 1;
    st.call_steps += 1;
    if st.call_steps > st.call_budget {
        ACTIVE.set(false);
        violation(
            "no-progress",
            &format!("{} did not return within {} steps", st.call_what, st.call_budget),
        );
    }
    if st.gap_left > 0 {
        st.gap_left -= 1;
        if st.gap_left == 0 {
            let pick = st.plan.gaps[st.gap_idx].1;
            st.gap_idx += 1;
            next_gap(st);
            preempt(id, pick);
        }
    }
}

/// an access to state that threads can share is about to happen
pub fn hot_point(id: u64) {
    point(id);
    let st = g();
    st.hot_points += 1;
    if st.hot_left > 0 {
        st.hot_left -= 1;
        if st.hot_left == 0 {
            let pick = st.plan.hot[st.hot_idx].1;
            st.hot_idx += 1;
            next_hot(st);
            st.hot_preempts += 1;
            preempt(id, pick);
        }
    }
}

fn next_hot(st: &mut G) {
    if st.hot_idx < st.plan.hot.len() {
        st.hot_left = st.plan.hot[st.hot_idx].0.max(1);
    }
}

fn next_gap(st: &mut G) {
    if st.gap_idx < st.plan.gaps.len() {
        st.gap_left = st.plan.gaps[st.gap_idx].0.max(1);
    }
}

fn wake_timers(st: &mut G) {
    let now = st.now;
    for t in st.tasks.iter_mut() {
        match t.st {
            St::Sleep { until } if until <= now => t.st = St::Ready,
            St::Futex { deadline, .. } if deadline <= now => {
                t.st = St::Ready;
                t.timed_out = true;
            }
            _ => {}
        }
    }
}

fn preempt(id: u64, pick: u32) {
    let _off = Off::new();
    let st = g();
    if std::thread::panicking() {
        return;
    }
    wake_timers(st);
    let me = st.cur;
    let n = st.tasks.iter().enumerate().filter(|(i, t)| *i != me && t.st == St::Ready).count();
    if n == 0 {
        return;
    }
    let k = pick as usize % n;
    let next = st
        .tasks
        .iter()
        .enumerate()
        .filter(|(i, t)| *i != me && t.st == St::Ready)
        .nth(k)
        .unwrap()
        .0;
    st.lib_preempts += 1;
    note(st, &[1, id, me as u64, next as u64]);
    if st.logging {
        let m = format!("t={} preempt task {} at edge {} -> task {}", st.now, me, id, next);
        st.log.push(m);
    }
    hand_over(me, next);
}

fn note(st: &mut G, v: &[u64]) {
    for x in v {
        st.trace = mix(st.trace ^ *x);
    }
}

/// parks `me` (already recorded as Ready/blocked) and lets `next` run
fn hand_over(me: usize, next: usize) {
    let st = g();
    if me == next {
        return;
    }
    st.switches += 1;
    // per-call bookkeeping belongs to the task
    let (cs, cb, cw) = (st.call_steps, st.call_budget, st.call_what);
    let in_lib = unsafe { (*st.out).in_lib };
    st.cur = next;
    gate_open(&GATES[next]);
    gate_wait(&GATES[me]);
    let st = g();
    st.call_steps = cs;
    st.call_budget = cb;
    st.call_what = cw;
    unsafe { (*st.out).in_lib = in_lib };
}

/// picks who runs after the current task stopped being runnable; None: all done
fn choose_next() -> Option<usize> {
    let st = g();
    loop {
        wake_timers(st);
        let n = st.tasks.iter().filter(|t| t.st == St::Ready).count();
        if n > 0 {
            let k = if n == 1 {
                0
            } else if st.pick_idx < st.plan.picks.len() {
                st.pick_idx += 1;
                st.plan.picks[st.pick_idx - 1] as usize % n
            } else {
                0
            };
            let next =
                st.tasks.iter().enumerate().filter(|(_, t)| t.st == St::Ready).nth(k).unwrap().0;
            let me = st.cur as u64;
            note(st, &[2, me, next as u64]);
            return Some(next);
        }
        // nothing runnable: jump to the next timer
        let next = st
            .tasks
            .iter()
            .filter_map(|t| match t.st {
                St::Sleep { until } => Some(until),
                St::Futex { deadline, .. } if deadline != u64::MAX => Some(deadline),
                _ => None,
            })
            .min();
        match next {
            Some(t) => st.now = st.now.max(t),
            None => {
                if st.tasks.iter().all(|t| t.st == St::Done) {
                    return None;
                }
                let who: Vec<String> = st
                    .tasks
                    .iter()
                    .enumerate()
                    .filter(|(_, t)| t.st != St::Done)
                    .map(|(i, t)| format!("task {} {:?}", i, t.st))
                    .map(|s| s.split(" {").next().unwrap().to_string())
                    .collect();
                violation("deadlock", &format!("no task can make progress: {}", who.join(", ")));
            }
        }
    }
}

fn block(s: St) -> bool {
    let _off = Off::new();
    let st = g();
    let me = st.cur;
    st.tasks[me].st = s;
    st.tasks[me].timed_out = false;
    let next = choose_next().expect("a blocked task is not done");
    hand_over(me, next);
    let st = g();
    st.tasks[me].timed_out
}

fn is_task() -> bool {
    TASK.get() != usize::MAX
}

/// simulated sleep; the clock jumps when nobody else can run
pub fn sleep(ns: u64) {
    if is_task() {
        let until = g().now + ns;
        block(St::Sleep { until });
    } else {
        g().now += ns;
    }
}

pub fn yield_now() {
    if is_task() {
        let _off = Off::new();
        let me = g().cur;
        let next = choose_next().unwrap();
        hand_over(me, next);
    }
}

/// harness-level mutual exclusion between tasks (what a caller's Mutex would be)
pub fn lock(key: usize) {
    loop {
        let st = g();
        while st.locks.len() <= key {
            st.locks.push(None);
        }
        if st.locks[key].is_none() {
            st.locks[key] = Some(st.cur);
            return;
        }
        block(St::Lock { key });
    }
}

pub fn unlock(key: usize) {
    let st = g();
    st.locks[key] = None;
    for t in st.tasks.iter_mut() {
        if t.st == (St::Lock { key }) {
            t.st = St::Ready;
        }
    }
    yield_now();
}

pub fn jump_clock(secs: i64) {
    g().clock_off += secs;
}

// ---------------------------------------------------------------- runs

pub struct ForceSend<T>(pub T);
unsafe impl<T> Send for ForceSend<T> {}
impl<T> ForceSend<T> {
    pub fn get(self) -> T {
        self.0
    }
}

pub type TaskFn = Box<dyn FnOnce()>;

pub fn init(plan: &Plan, out: *mut Shared, logging: bool) {
    let st = G {
        in_run: true,
        cur: 0,
        tasks: Vec::with_capacity(MAXT),
        now: 0,
        steps: 0,
        call_steps: 0,
        call_budget: u64::MAX,
        call_what: Name::of("a library call"),
        max_call_steps: 0,
        last_call_steps: 0,
        moved: 0,
        gap_left: 0,
        gap_idx: 0,
        hot_left: 0,
        hot_idx: 0,
        hot_points: 0,
        hot_preempts: 0,
        pick_idx: 0,
        plan: plan.clone(),
        hash_rng: Rng::new(plan.hash_seed),
        clock_off: 0,
        trace: 1,
        switches: 0,
        lib_preempts: 0,
        locks: vec![],
        stats: BTreeMap::new(),
        log: vec![],
        logging,
        out,
        mem_cap: 3 << 30,
        mem_base: LIVE.load(SeqCst),
    };
    surroundings(plan);
    unsafe { *GLOBAL.0.get() = Some(st) };
}

/// Names that mean something to docker, to build tools or to the system.
pub const NAMES: &[&str] = &[
    "HTTP_PROXY", "http_proxy", "HTTPS_PROXY", "https_proxy", "FTP_PROXY", "ftp_proxy", "NO_PROXY", "no_proxy", "ALL_PROXY", "all_proxy", "TARGETPLATFORM", "TARGETOS",
    "TARGETARCH", "TARGETVARIANT", "BUILDPLATFORM", "BUILDOS", "BUILDARCH", "BUILDVARIANT", "BUILDKIT_INLINE_CACHE", "BUILDKIT_SYNTAX", "SOURCE_DATE_EPOCH",
    "DOCKER_BUILDKIT", "DOCKER_DEFAULT_PLATFORM", "DOCKERFILE", "DOCKER_REGISTRY", "REGISTRY", "IMAGE", "VERSION", "HOME", "PATH", "PWD", "HOSTNAME", "LANG", "LC_ALL",
    "TZ", "USER", "TMPDIR", "TERM", "NO_COLOR", "RUST_LOG", "RUST_BACKTRACE",
];

/// The process's surroundings: environment variables (some named like the build
/// arguments the scenarios use), working directory. Nothing may depend on them.
fn surroundings(plan: &Plan) {
    let mut r = Rng::new(plan.hash_seed ^ 0x5eed);
    unsafe {
        libc::clearenv();
        let share = *r.pick(&[0, 40, 100, 100]);
        for n in ["V", "v", "TAG", "app", "A_1", "X", "V2", "v2", "TAG2", "X2", "a", "b", "A", "v0", "v1", "v2", "x", "y", "N"].iter().chain(NAMES) {
            if r.pct(share) {
                let k = std::ffi::CString::new(*n).unwrap();
                let v = *r.pick(&[c"", c"1", c"envvalue", c"alpine:3.1", c"${V}", c"C", c"tr_TR.UTF-8", c"/nowhere"]);
                libc::setenv(k.as_ptr(), v.as_ptr(), 1);
            }
        }
        let d = *r.pick(&[c"/", c"/tmp", c"/usr", c"/dev"]);
        libc::chdir(d.as_ptr());
    }
}

/// Runs the tasks to completion under the plan. Called once or more per process.
pub fn run_tasks(tasks: Vec<TaskFn>) {
    run_tasks_stack(tasks, 2 << 20)
}

pub fn run_tasks_stack(tasks: Vec<TaskFn>, stack: usize) {
    assert!(tasks.len() <= MAXT && !tasks.is_empty());
    let n = tasks.len();
    {
        let st = g();
        st.tasks.clear();
        for _ in 0..n {
            st.tasks.push(Task { st: St::Ready, timed_out: false });
        }
        // the plan is for phases in which there is a choice to make
        if n == 1 {
            st.gap_left = 0;
            st.hot_left = 0;
        } else {
            next_gap(st);
            next_hot(st);
        }
    }
    let mut handles = vec![];
    for (i, f) in tasks.into_iter().enumerate() {
        let f = ForceSend(f);
        let h = std::thread::Builder::new()
            .stack_size(stack)
            .spawn(move || {
                let f = f.get();
                TASK.set(i);
                gate_wait(&GATES[i]);
                unsafe { (*g().out).in_lib = 0 };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                if r.is_err() {
                    harness_error(&format!("task panicked: {:?}", PANIC_MSG.take()));
                }
                ACTIVE.set(false);
                g().tasks[i].st = St::Done;
                match choose_next() {
                    Some(next) => {
                        g().switches += 1;
                        g().cur = next;
                        gate_open(&GATES[next]);
                    }
                    None => gate_open(&MAIN_GATE),
                }
                // stay until everybody is done, leave one at a time
                gate_wait(&GATES[i]);
                TASK.set(usize::MAX);
            })
            .expect("spawn");
        handles.push(h);
    }
    let first = choose_next().unwrap();
    g().cur = first;
    gate_open(&GATES[first]);
    gate_wait(&MAIN_GATE);
    for (i, h) in handles.into_iter().enumerate() {
        gate_open(&GATES[i]);
        let _ = h.join();
    }
}

/// marker payload of readers that panic on purpose
pub struct InjectedPanic;

#[derive(Debug)]
pub enum Stop {
    Panicked(String),
    Injected,
}

struct LibGuard(bool);
impl Drop for LibGuard {
    fn drop(&mut self) {
        ACTIVE.set(self.0);
    }
}

/// bytes a call with this work budget may hold at a time
fn memory_bound(budget: u64) -> isize {
    (16 << 20) + (budget.min(1 << 50) / 5) as isize
}

/// Runs library code: preemptible, counted, budgeted, panics caught.
pub fn lib<T>(budget: u64, f: impl FnOnce() -> T) -> Result<T, Stop> {
    let st = g();
    let (old_steps, old_budget) = (st.call_steps, st.call_budget);
    st.call_steps = 0;
    st.call_budget = budget;
    let old_lib = unsafe { (*st.out).in_lib };
    unsafe { (*st.out).in_lib = 1 };
    let old_mem = (CALL_BASE.get(), CALL_PEAK.get(), CALL_MEM.get());
    CALL_BASE.set(HELD.get());
    CALL_PEAK.set(0);
    CALL_MEM.set(memory_bound(budget));
    let r = {
        let _g = LibGuard(ACTIVE.replace(is_task()));
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
    };
    let st = g();
    unsafe { (*st.out).in_lib = old_lib };
    st.max_call_steps = st.max_call_steps.max(st.call_steps);
    st.last_call_steps = st.call_steps;
    st.call_steps = old_steps;
    st.call_budget = old_budget;
    CALL_BASE.set(old_mem.0);
    CALL_PEAK.set(old_mem.1);
    CALL_MEM.set(old_mem.2);
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<InjectedPanic>() {
                Err(Stop::Injected)
            } else {
                Err(Stop::Panicked(PANIC_MSG.take().unwrap_or_default()))
            }
        }
    }
}

/// steps the latest finished library call took
pub fn last_call_steps() -> u64 {
    g().last_call_steps
}
pub fn max_call_steps() -> u64 {
    g().max_call_steps
}

/// Like `lib`, for calls that must not panic: a panic is a violation.
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> T {
    must_b(what, if QUESTION.get() == 0 { 4_000_000_000 } else { QUESTION.get() }, f)
}

thread_local! {
    static QUESTION: Cell<u64> = const { Cell::new(0) };
}

/// Work bound for questions; with several documents in a run, the largest counts.
pub fn set_question_budget(n: u64) {
    QUESTION.set(QUESTION.get().max(n));
}

pub fn must_b<T>(what: &str, budget: u64, f: impl FnOnce() -> T) -> T {
    {
        let st = g();
        st.call_what = Name::of(what);
    }
    match lib(budget, f) {
        Ok(v) => v,
        Err(Stop::Panicked(m)) => violation("panic", &format!("{} panicked: {}", what, m)),
        Err(Stop::Injected) => harness_error("injected panic escaped"),
    }
}

/// Runs harness code that is called back from inside a library call.
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let _off = Off::new();
    f()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let was = ACTIVE.replace(false);
        let p = info.payload();
        let m = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap_or(""), l.line()))
            .unwrap_or_default();
        if std::env::var_os("DST_DEBUG").is_some() && !p.is::<InjectedPanic>() {
            eprintln!("panic: {} ({})", m, loc);
        }
        PANIC_MSG.set(Some(format!("{} ({})", m, loc)));
        ACTIVE.set(was);
    }));
}

// ---------------------------------------------------------------- reporting

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct RunOut {
    pub class: String,
    pub detail: String,
    pub stats: BTreeMap<String, u64>,
    pub trace: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub lib_preempts: u64,
    pub max_call_steps: u64,
    pub nontrivial: bool,
    pub log: Vec<String>,
    pub summary: String,
}

fn snapshot() -> RunOut {
    let st = g();
    if st.hot_points > 0 {
        *st.stats.entry("sched.shared-state-accesses".into()).or_insert(0) += st.hot_points;
        *st.stats.entry("sched.preempted-at-shared-state".into()).or_insert(0) += st.hot_preempts;
    }
    RunOut {
        class: String::new(),
        detail: String::new(),
        stats: st.stats.clone(),
        trace: st.trace,
        steps: st.steps,
        sim_ns: st.now,
        switches: st.switches,
        lib_preempts: st.lib_preempts,
        max_call_steps: st.max_call_steps,
        nontrivial: false,
        log: st.log.clone(),
        summary: String::new(),
    }
}

pub fn violation(class: &str, detail: &str) -> ! {
    ACTIVE.set(false);
    let mut o = snapshot();
    o.class = class.into();
    o.detail = detail.chars().take(4000).collect();
    let b = serde_json::to_vec(&o).unwrap();
    unsafe {
        (*g().out).put(2, &b);
        libc::_exit(0)
    }
}

pub fn harness_error(detail: &str) -> ! {
    ACTIVE.set(false);
    unsafe {
        let st = (*GLOBAL.0.get()).as_mut();
        if let Some(st) = st {
            (*st.out).put(3, detail.as_bytes());
        }
        libc::_exit(3)
    }
}

pub fn finish(nontrivial: bool, summary: String) -> ! {
    let mut o = snapshot();
    o.nontrivial = nontrivial;
    o.summary = summary;
    let b = serde_json::to_vec(&o).unwrap();
    unsafe {
        (*g().out).put(1, &b);
        libc::_exit(0)
    }
}

pub fn stat(name: &str, n: u64) {
    let _off = Off::new();
    let stats = &mut g().stats;
    match stats.get_mut(name) {
        Some(x) => *x += n,
        None => {
            UNCOUNTED.set(true);
            stats.insert(name.to_string(), n);
            UNCOUNTED.set(false);
        }
    }
}

pub fn stat_value(name: &str) -> u64 {
    g().stats.get(name).copied().unwrap_or(0)
}

/// folds an observable event into the trace hash (and the log, when asked to)
pub fn event(h: u64, text: impl FnOnce() -> String) {
    let _off = Off::new();
    let st = g();
    let cur = st.cur as u64;
    note(st, &[3, cur, h]);
    if st.logging {
        let m = format!("t={} task {}: {}", st.now, st.cur, text());
        st.log.push(m);
    }
}

/// Runs `f` as the only task of a brand-new process of this program (no library
/// code has ever run in it) and returns the bytes it produced.
pub fn fresh(plan: &Plan, f: impl FnOnce() -> Vec<u8> + 'static) -> Vec<u8> {
    assert!(!is_task());
    let sh = new_shared();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        // in the grandchild: report through our own area
        let logging = false;
        init(plan, sh, logging);
        let out: &'static mut Vec<u8> = Box::leak(Box::default());
        let outp = out as *mut Vec<u8>;
        run_tasks(vec![Box::new(move || unsafe { *outp = f() })]);
        unsafe {
            (*sh).put(1, &*outp);
            libc::_exit(0)
        }
    }
    if pid < 0 {
        harness_error("fork failed");
    }
    let mut status = 0;
    unsafe {
        while libc::waitpid(pid, &mut status, 0) < 0 {}
    }
    let (s, in_lib) = unsafe { ((*sh).status, (*sh).in_lib) };
    let data = unsafe { (*sh).get() };
    free_shared(sh);
    match s {
        1 => data,
        2 => {
            let o: RunOut = serde_json::from_slice(&data).unwrap_or_default();
            violation(&format!("alone-{}", o.class), &format!("run alone in a new process: {}", o.detail));
        }
        3 => harness_error(&String::from_utf8_lossy(&data)),
        _ if libc::WIFSIGNALED(status) && in_lib == 1 => violation(
            "crash",
            &format!("the process died with signal {} inside a library call", libc::WTERMSIG(status)),
        ),
        _ => harness_error(&format!("reference process ended strangely ({})", status)),
    }
}

// ---------------------------------------------------------------- interposed libc

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_futex && ACTIVE.get() && is_task() {
        return sim_futex(a, b as i32, c as u32, d);
    }
    let r = raw(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

unsafe fn sim_futex(addr: usize, op: i32, val: u32, timeout: usize) -> i64 {
    let cmd = op & 0x7f;
    match cmd {
        0 | 9 => {
            if (*(addr as *const AtomicU32)).load(SeqCst) != val {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            let deadline = if timeout == 0 {
                u64::MAX
            } else {
                let ts = &*(timeout as *const libc::timespec);
                let st = g();
                if cmd == 0 {
                    st.now + ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
                } else {
                    // absolute, on the (simulated) monotonic clock
                    let base = CLOCK0 * 1_000_000_000;
                    (ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64).saturating_sub(base)
                }
            };
            stat("sched.blocked-in-library", 1);
            if block(St::Futex { addr, deadline }) {
                *libc::__errno_location() = libc::ETIMEDOUT;
                return -1;
            }
            0
        }
        1 | 10 => {
            let st = g();
            let mut n = 0;
            for t in st.tasks.iter_mut() {
                if n < val as i64 {
                    if let St::Futex { addr: a2, .. } = t.st {
                        if a2 == addr {
                            t.st = St::Ready;
                            n += 1;
                        }
                    }
                }
            }
            n
        }
        _ => {
            *libc::__errno_location() = libc::ENOSYS;
            -1
        }
    }
}

const CLOCK0: u64 = 1000;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if ACTIVE.get() && is_task() {
        let st = g();
        st.now += 1;
        let ns = st.now;
        let secs = if clk == libc::CLOCK_REALTIME {
            (st.plan.clock_base + st.clock_off).max(0) as u64
        } else {
            CLOCK0
        };
        (*ts).tv_sec = (secs + ns / 1_000_000_000) as i64;
        (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    let r = raw(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0);
    if r < 0 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: i32,
    rq: *const libc::timespec,
    rem: *mut libc::timespec,
) -> i32 {
    let ns = (*rq).tv_sec as u64 * 1_000_000_000 + (*rq).tv_nsec as u64;
    if ACTIVE.get() && is_task() {
        if flags == 0 {
            sleep(ns)
        } else {
            let now = g().now + CLOCK0 * 1_000_000_000;
            sleep(ns.saturating_sub(now))
        }
        return 0;
    }
    -raw(libc::SYS_clock_nanosleep, clk as usize, flags as usize, rq as usize, rem as usize, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(rq: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    clock_nanosleep(libc::CLOCK_MONOTONIC, 0, rq, rem)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if ACTIVE.get() && is_task() {
        yield_now();
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let st = (*GLOBAL.0.get()).as_mut();
    if let Some(st) = st {
        if st.in_run {
            for i in 0..len {
                *buf.add(i) = st.hash_rng.next() as u8;
            }
            return len as isize;
        }
    }
    let r = raw(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0);
    if r < 0 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r as isize
}
