//! The simulation runtime: choice tape, thread scheduler, fault plan of the
//! current operation, event hash and counters.

use crate::alloc;
use std::cell::{Cell, RefCell};
use std::panic::resume_unwind;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Mutex, MutexGuard};
use std::thread::Thread;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- choice tape

#[derive(Clone, Copy)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next()
}

/// Every decision of a run: either drawn from the seeded generator and
/// recorded, or taken from a given tape (missing entries are 0, the simplest
/// choice).
pub struct Tape {
    given: Option<Vec<u32>>,
    pos: usize,
    rng: Rng,
    pub rec: Vec<u32>,
}

impl Tape {
    pub fn seeded(seed: u64) -> Tape {
        Tape { given: None, pos: 0, rng: Rng::new(seed), rec: Vec::new() }
    }
    pub fn given(t: Vec<u32>) -> Tape {
        Tape { given: Some(t), pos: 0, rng: Rng::new(0), rec: Vec::new() }
    }
    fn draw(&mut self, n: u32) -> u32 {
        let v = match &self.given {
            Some(g) => {
                let v = g.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if n == 0 { 0 } else { v % n }
            }
            None => {
                if n <= 1 { 0 } else { ((self.rng.next() >> 32) * n as u64 >> 32) as u32 }
            }
        };
        self.rec.push(v);
        if let Some(f) = TAPE_LOG.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
            use std::io::Write;
            let _ = f.write_all(format!("{v}\n").as_bytes());
        }
        v
    }
}

static TAPE_LOG: Mutex<Option<std::fs::File>> = Mutex::new(None);

/// Write every decision to a file as it is made (survives a crash).
pub fn log_tape(path: Option<&str>) {
    if let Some(p) = path {
        *TAPE_LOG.lock().unwrap() = std::fs::File::create(p).ok();
    }
}

// ---------------------------------------------------------------- world

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub struct World {
    pub tape: Tape,
    pub violation: Option<Violation>,
    pub tracing: bool,
    pub trace: Vec<String>,
    threads: Vec<Option<Thread>>,
    controller: Option<Thread>,
}

static W: Mutex<Option<World>> = Mutex::new(None);

fn w() -> MutexGuard<'static, Option<World>> {
    W.lock().unwrap_or_else(|e| e.into_inner())
}

pub const MAXT: usize = 4;
static N: AtomicUsize = AtomicUsize::new(0);
static CUR: AtomicUsize = AtomicUsize::new(usize::MAX);
static GO: [AtomicBool; MAXT] = [const { AtomicBool::new(false) }; MAXT];
static INSIDE: [AtomicI32; MAXT] = [const { AtomicI32::new(0) }; MAXT];
static DONE: [AtomicBool; MAXT] = [const { AtomicBool::new(false) }; MAXT];
static WAITING: [AtomicBool; MAXT] = [const { AtomicBool::new(false) }; MAXT];
/// Threads that wait for a lock, the lock's word and its value when they began to wait.
static BLOCKED: [AtomicBool; MAXT] = [const { AtomicBool::new(false) }; MAXT];
static WORD: [AtomicUsize; MAXT] = [const { AtomicUsize::new(0) }; MAXT];
static HELD: [std::sync::atomic::AtomicU32; MAXT] = [const { std::sync::atomic::AtomicU32::new(0) }; MAXT];
static KTID: [AtomicU64; MAXT] = [const { AtomicU64::new(0) }; MAXT];
static COUNTDOWN: AtomicI64 = AtomicI64::new(-1);
static GAP: AtomicUsize = AtomicUsize::new(0);
static STATIC_POINTS: AtomicUsize = AtomicUsize::new(0);
static CODE_GAP: AtomicUsize = AtomicUsize::new(0);
/// The countdown inside the library only serves to keep a thread that waits
/// for another one from running forever.
static FAIR: AtomicBool = AtomicBool::new(false);
static TICKS_THEN: AtomicU64 = AtomicU64::new(0);
/// How often the turn was passed on because somebody made progress.
static PASSES: AtomicU64 = AtomicU64::new(0);
static FINISHED: AtomicBool = AtomicBool::new(false);
static VIOLATED: AtomicBool = AtomicBool::new(false);
pub static TICKS: AtomicU64 = AtomicU64::new(0);
static HASH: AtomicU64 = AtomicU64::new(0);

pub const Y_ALLOC: u32 = 1;
pub const Y_FREE: u32 = 2;
pub const Y_SRC: u32 = 3;
pub const Y_SINK: u32 = 4;
pub const Y_OP: u32 = 5;
pub const Y_CODE: u32 = 6;
pub const Y_STATIC: u32 = 7;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    static OPS: RefCell<Vec<Op>> = const { RefCell::new(Vec::new()) };
}

macro_rules! counters {
    ($($name:ident),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy)]
        pub enum C { $($name),* , LAST }
        pub const COUNTER_NAMES: &[&str] = &[$(stringify!($name)),*];
    };
}
counters! {
    writer_refusal, stream_error, serializer_error, visitor_error,
    source_error, source_error_lasting, source_panic, sink_panic, alloc_failure, unclear,
    reentry, preempt_in_library, preempt_at_static, preempt_in_callback, preempt_in_sink, preempt_at_alloc, preempt_at_free, preempt_between_ops,
    source_mutation, source_drop, source_rewrite, ops, observations, buffered, shared, clones, drops,
    evaluations_checked, failed_marks, fault_not_reached, forced_handover, fair_handover, lock_handover, skipped_unspecified, loans, loans_checked,
}
pub static COUNTERS: [AtomicU64; C::LAST as usize] = [const { AtomicU64::new(0) }; C::LAST as usize];

pub fn count(c: C) {
    COUNTERS[c as usize].fetch_add(1, Relaxed);
}

pub fn draw(n: u32) -> u32 {
    alloc::harness(|| {
        let mut g = w();
        let v = g.as_mut().expect("world").tape.draw(n);
        v
    })
}

/// Choose an index by weight; index 0 should be the simplest choice.
pub fn pick(weights: &[u32]) -> usize {
    let total: u32 = weights.iter().sum();
    if total == 0 {
        return 0;
    }
    let mut v = draw(total);
    for (i, x) in weights.iter().enumerate() {
        if v < *x {
            return i;
        }
        v -= *x;
    }
    weights.len() - 1
}

pub fn chance(percent: u32) -> bool {
    // 0 on the tape means "no"
    draw(100) >= 100 - percent.min(100)
}

pub fn tracing() -> bool {
    alloc::harness(|| w().as_ref().map(|w| w.tracing).unwrap_or(false))
}

pub fn trace(f: impl FnOnce() -> String) {
    alloc::harness(|| {
        if tracing() {
            let s = f();
            let tid = TID.with(|t| t.get());
            let line = if tid == usize::MAX { format!("      {s}") } else { format!("[t{tid}] {s}") };
            if let Some(w) = w().as_mut() {
                if w.trace.len() < 4000 {
                    w.trace.push(line);
                }
            }
        }
    })
}

pub fn violated() -> bool {
    VIOLATED.load(Relaxed)
}

pub fn violate(class: &str, msg: impl FnOnce() -> String) {
    alloc::harness(|| {
        if !crate::profile::relevant(class) {
            return;
        }
        let m = msg();
        trace(|| format!("VIOLATION {class}: {m}"));
        if let Some(w) = w().as_mut() {
            if w.violation.is_none() {
                w.violation = Some(Violation { class: class.to_string(), msg: m });
            }
        }
        VIOLATED.store(true, Relaxed);
    })
}

pub fn note(v: u64) {
    let h = HASH.load(Relaxed);
    HASH.store((h.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95).wrapping_add(v >> 7), Relaxed);
}

pub fn note_str(s: &str) {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    note(h);
}

// ---------------------------------------------------------------- scheduler

pub fn tid() -> usize {
    TID.with(|t| t.get())
}

/// Operations of the library that the current thread is in.
pub fn inside(by: i32) {
    let me = tid();
    if me < MAXT {
        INSIDE[me].fetch_add(by, Relaxed);
    }
}

/// A point at which another thread may run.
pub fn yield_point(kind: u32) {
    let me = TID.with(|t| t.get());
    if me == usize::MAX {
        return;
    }
    TICKS.fetch_add(1, Relaxed);
    note(((me as u64) << 8) | kind as u64);
    if N.load(Relaxed) <= 1 {
        return;
    }
    if CUR.load(Acquire) != me {
        // we were blocked in the library and overtaken: queue up again
        wait_turn(me);
    }
    if COUNTDOWN.load(Relaxed) < 0 {
        return;
    }
    if COUNTDOWN.fetch_sub(1, Relaxed) > 0 {
        return;
    }
    preempt(me, kind);
}

fn runnable(except: usize) -> Vec<usize> {
    (0..N.load(Relaxed)).filter(|i| *i != except && !DONE[*i].load(Relaxed)).collect()
}

fn next_gap() -> i64 {
    // 0 on the tape: no further preemption
    let gap = GAP.load(Relaxed) as u32;
    if gap == 0 {
        return -1;
    }
    let v = draw(gap * 2 + 2);
    if v == 0 { -1 } else { v as i64 - 1 }
}

/// Steps of library code that may pass without any event before another thread
/// gets a turn.
const PATIENCE: i64 = 400_000;

fn next_code_gap() {
    let gap = CODE_GAP.load(Relaxed) as u32;
    let mut v = if gap == 0 { 0 } else { draw(gap * 2 + 2) };
    if v > 0 {
        v *= [1, 1, 12, 150][draw(4) as usize];
    }
    FAIR.store(v == 0, Relaxed);
    TICKS_THEN.store(TICKS.load(Relaxed), Relaxed);
    vbpre::LEFT.store(if v == 0 { PATIENCE } else { v as i64 - 1 }, Relaxed);
}

/// The countdown inside the library has run out.
fn code_point() {
    let me = TID.with(|t| t.get());
    if me == usize::MAX || N.load(Relaxed) <= 1 {
        vbpre::LEFT.store(-1, Relaxed);
        return;
    }
    if CUR.load(Acquire) != me {
        wait_turn(me);
        return;
    }
    if !FAIR.load(Relaxed) {
        note(((me as u64) << 8) | Y_CODE as u64);
        preempt(me, Y_CODE);
        return;
    }
    vbpre::LEFT.store(PATIENCE, Relaxed);
    if TICKS_THEN.swap(TICKS.load(Relaxed), Relaxed) != TICKS.load(Relaxed) {
        return;
    }
    let others = runnable(me);
    if let Some(next) = others.iter().copied().find(|i| *i > me).or(others.first().copied()) {
        count(C::fair_handover);
        trace(|| format!("-- t{me} waits inside the library, t{next} continues"));
        pass(next);
        wait_turn(me);
    }
}

/// Library code is about to touch static memory.
fn static_point() {
    let me = TID.with(|t| t.get());
    if me == usize::MAX || N.load(Relaxed) <= 1 {
        return;
    }
    if CUR.load(Acquire) != me {
        wait_turn(me);
        return;
    }
    let n = STATIC_POINTS.fetch_add(1, Relaxed);
    if if n < 300 { draw(3) > 0 } else { draw(40) == 39 } {
        note(((me as u64) << 8) | Y_STATIC as u64);
        preempt(me, Y_STATIC);
    }
}

/// The standard library's locks wait by this call. A simulated thread that
/// waits for another one inside the library gives its turn away instead of
/// sleeping, so that locks are part of the schedule.
#[no_mangle]
pub unsafe extern "C" fn syscall(nr: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    const FUTEX: i64 = 202;
    const EAGAIN: i32 = 11;
    if nr == FUTEX && matches!(b & 0x7f, 0 | 9) && d == 0 {
        let sut = vbpre::IN_SUT.try_with(|c| c.replace(false)).unwrap_or(false);
        if sut {
            let turn = lock_wait(&*(a as *const std::sync::atomic::AtomicU32), c as u32);
            vbpre::IN_SUT.with(|c| c.set(true));
            if turn {
                *__errno_location() = EAGAIN;
                return -1;
            }
        }
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") nr => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

/// Let others run until the word is no longer `held`; false if nobody can
/// change it.
fn lock_wait(word: &std::sync::atomic::AtomicU32, held: u32) -> bool {
    let me = TID.with(|t| t.get());
    if me == usize::MAX || CUR.load(Acquire) != me {
        return false;
    }
    while word.load(Acquire) == held {
        HELD[me].store(held, Relaxed);
        WORD[me].store(word.as_ptr() as usize, Relaxed);
        BLOCKED[me].store(true, Relaxed);
        let others: Vec<usize> = runnable(me).into_iter().filter(|i| !BLOCKED[*i].load(Relaxed)).collect();
        if others.is_empty() {
            if let Some(next) = runnable(me).into_iter().find(|i| word_changed(*i)) {
                pass(next);
                wait_turn(me);
                continue;
            }
            return false;
        }
        let next = others[draw(others.len() as u32) as usize];
        count(C::lock_handover);
        TICKS.fetch_add(1, Relaxed);
        PASSES.fetch_add(1, Relaxed);
        trace(|| format!("-- t{me} waits for a lock, t{next} continues"));
        note(0xB10C_0000 | next as u64);
        pass(next);
        wait_turn(me);
    }
    BLOCKED[me].store(false, Relaxed);
    true
}

/// A thread that waits for a lock could go on.
fn word_changed(i: usize) -> bool {
    let word = WORD[i].load(Relaxed) as *const std::sync::atomic::AtomicU32;
    unsafe { (*word).load(Acquire) != HELD[i].load(Relaxed) }
}

fn preempt(me: usize, kind: u32) {
    let others = runnable(me);
    if others.is_empty() {
        COUNTDOWN.store(-1, Relaxed);
        vbpre::LEFT.store(-1, Relaxed);
        return;
    }
    PASSES.fetch_add(1, Relaxed);
    let next = others[draw(others.len() as u32) as usize];
    if kind == Y_CODE {
        next_code_gap();
    } else if kind != Y_STATIC {
        let gap = next_gap();
        COUNTDOWN.store(gap, Relaxed);
    }
    count(match kind {
        Y_CODE => C::preempt_in_library,
        Y_STATIC => C::preempt_at_static,
        Y_ALLOC => C::preempt_at_alloc,
        Y_FREE => C::preempt_at_free,
        Y_SRC => C::preempt_in_callback,
        Y_SINK => C::preempt_in_sink,
        _ => C::preempt_between_ops,
    });
    trace(|| {
        format!(
            "-- switch to t{next} ({})",
            ["", "at allocation", "at release", "inside source callback", "inside sink call", "between operations", "inside the library", "before static memory is touched"][kind as usize]
        )
    });
    note(0xABCD_0000 | next as u64);
    pass(next);
    wait_turn(me);
}

fn pass(next: usize) {
    CUR.store(next, Release);
    GO[next].store(true, Release);
    let t = w().as_ref().and_then(|w| w.threads[next].clone());
    if let Some(t) = t {
        t.unpark();
    }
}

fn wait_turn(me: usize) {
    WAITING[me].store(true, Release);
    loop {
        if GO[me].swap(false, AcqRel) {
            break;
        }
        std::thread::park();
    }
    WAITING[me].store(false, Release);
}

fn finish(me: usize) {
    DONE[me].store(true, Release);
    let others = runnable(me);
    if !others.is_empty() {
        if CUR.load(Acquire) == me {
            let next = others[draw(others.len() as u32) as usize];
            if COUNTDOWN.load(Relaxed) < 0 {
                let gap = next_gap();
                COUNTDOWN.store(gap, Relaxed);
            }
            trace(|| format!("-- t{me} done, t{next} continues"));
            note(0xDCBA_0000 | next as u64);
            PASSES.fetch_add(1, Relaxed);
            pass(next);
        }
    } else {
        wake_controller();
    }
}

/// What happened in one simulated run.
pub struct RunResult {
    pub violation: Option<Violation>,
    pub tape: Vec<u32>,
    pub trace: Vec<String>,
    pub hash: u64,
    pub ticks: u64,
}

fn thread_state(ktid: u64) -> (char, u64) {
    let s = std::fs::read_to_string(format!("/proc/self/task/{ktid}/stat")).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("").trim().to_string();
    let f: Vec<&str> = rest.split(' ').collect();
    let st = f.first().and_then(|x| x.chars().next()).unwrap_or('?');
    let ut: u64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0);
    let stime: u64 = f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0);
    (st, ut + stime)
}

extern "C" {
    fn gettid() -> i32;
    fn __errno_location() -> *mut i32;
}

/// Run `setup` (which decides the number of threads and scheduling density),
/// then `body(tid)` on that many simulated threads, then `teardown`, all driven
/// by the tape. `on_stuck` is called if the run can make no progress.
pub fn run(
    tape: Tape,
    tracing: bool,
    setup: fn() -> (usize, usize, usize),
    body: fn(usize),
    teardown: fn(),
    afterwards: fn(),
    on_stuck: &dyn Fn(Violation, Vec<u32>, Vec<String>) -> std::convert::Infallible,
) -> RunResult {
    *w() = Some(World {
        tape,
        violation: None,
        tracing,
        trace: Vec::new(),
        threads: vec![None; MAXT],
        controller: Some(std::thread::current()),
    });
    VIOLATED.store(false, Relaxed);
    TICKS.store(0, Relaxed);
    HASH.store(0x1234_5678, Relaxed);
    COUNTDOWN.store(-1, Relaxed);
    vbpre::LEFT.store(-1, Relaxed);
    vbpre::set_hooks(code_point, static_point);
    N.store(0, Relaxed);
    alloc::begin_run();

    // every simulated thread is a fresh one so that thread-local state of the
    // library never outlives a run; thread 0 usually sets up and tears down as well
    reset();
    CUR.store(0, Relaxed);
    N.store(1, Relaxed);
    let apart = std::thread::scope(|s| {
        let whole = s.spawn(move || {
            let _finished = Finished;
            KTID[0].store(unsafe { gettid() } as u64, Relaxed);
            TID.with(|t| t.set(0));
            let (n, gap, code_gap) = setup();
            GAP.store(gap, Relaxed);
            CODE_GAP.store(code_gap, Relaxed);
            STATIC_POINTS.store(0, Relaxed);
            vbpre::STATICS.store(code_gap > 0, Relaxed);
            let apart = draw(4) == 3;
            if !apart {
                if n == 1 {
                    body(0);
                    debug_assert!(OPS.with(|o| o.borrow().is_empty()));
                } else {
                    let (first, others) = alloc::harness(|| start(n, 1, body));
                    pass(first);
                    in_turn(0, body);
                    alloc::harness(|| others.into_iter().for_each(|h| drop(h.join())));
                    N.store(1, Relaxed);
                    CUR.store(0, Relaxed);
                    vbpre::LEFT.store(-1, Relaxed);
                }
                teardown();
            }
            TID.with(|t| t.set(usize::MAX));
            apart.then_some(n)
        });
        supervise(&|| FINISHED.load(Acquire), on_stuck);
        whole.join().unwrap_or_else(|_| {
            eprintln!("vbsim: the simulation itself panicked");
            std::process::exit(2)
        })
    });
    if let Some(n) = apart {
        let (first, all) = start(n, 0, body);
        pass(first);
        supervise(&|| (0..n).all(|i| DONE[i].load(Acquire)), on_stuck);
        all.into_iter().for_each(|h| drop(h.join()));
        N.store(1, Relaxed);
        vbpre::LEFT.store(-1, Relaxed);
        // always join: detaching a thread that is just ending is not safe in glibc
        let last = std::thread::spawn(move || {
            TID.with(|t| t.set(0));
            teardown();
            TID.with(|t| t.set(usize::MAX));
        });
        let _ = last.join();
    }
    N.store(0, Relaxed);
    afterwards();
    alloc::end_run();
    let c = alloc::CORRUPT.load(Relaxed);
    if c != 0 {
        violate("memory-corruption", || {
            ["", "a block was released twice", "released memory was written", "a bad pointer or size was released"][c as usize].to_string()
        });
    }
    let world = w().take().unwrap();
    RunResult {
        violation: world.violation,
        tape: world.tape.rec,
        trace: world.trace,
        hash: HASH.load(Relaxed),
        ticks: TICKS.load(Relaxed),
    }
}

fn reset() {
    FINISHED.store(false, Relaxed);
    for i in 0..MAXT {
        GO[i].store(false, Relaxed);
        DONE[i].store(false, Relaxed);
        INSIDE[i].store(0, Relaxed);
        WAITING[i].store(false, Relaxed);
        BLOCKED[i].store(false, Relaxed);
    }
}

/// Start the simulated threads from `from` on; the first one to run is decided
/// but not yet let go.
fn start(n: usize, from: usize, body: fn(usize)) -> (usize, Vec<std::thread::JoinHandle<()>>) {
    reset();
    let gap = if n > 1 { next_gap() } else { -1 };
    COUNTDOWN.store(gap, Relaxed);
    if n > 1 {
        next_code_gap();
    }
    let first = if n > 1 { draw(n as u32) as usize } else { 0 };
    CUR.store(first, Relaxed);
    N.store(n, Relaxed);
    let handles: Vec<_> = (from..n)
        .map(|i| {
            std::thread::spawn(move || {
                KTID[i].store(unsafe { gettid() } as u64, Relaxed);
                TID.with(|t| t.set(i));
                in_turn(i, body);
                TID.with(|t| t.set(usize::MAX));
            })
        })
        .collect();
    let mut g = w();
    let g = g.as_mut().unwrap();
    g.threads[0] = Some(std::thread::current());
    for (i, h) in handles.iter().enumerate() {
        g.threads[from + i] = Some(h.thread().clone());
    }
    (first, handles)
}

fn in_turn(i: usize, body: fn(usize)) {
    wait_turn(i);
    body(i);
    debug_assert!(OPS.with(|o| o.borrow().is_empty()));
    finish(i);
}

struct Finished;

impl Drop for Finished {
    fn drop(&mut self) {
        FINISHED.store(true, Release);
        wake_controller();
    }
}

fn wake_controller() {
    if let Some(c) = w().as_ref().and_then(|w| w.controller.clone()) {
        c.unpark();
    }
}

fn supervise(done: &dyn Fn() -> bool, on_stuck: &dyn Fn(Violation, Vec<u32>, Vec<String>) -> std::convert::Infallible) {
    let mut last = (u64::MAX, 0u64, 0u64);
    let mut since = Instant::now();
    let mut cpu0 = 0;
    loop {
        if done() {
            return;
        }
        std::thread::park_timeout(Duration::from_millis(25));
        if done() {
            return;
        }
        let n = N.load(Acquire);
        let cur = CUR.load(Acquire);
        let fair = FAIR.load(Relaxed);
        let now = (TICKS.load(Relaxed), PASSES.load(Relaxed), if fair { 0 } else { cur as u64 });
        let (st, cpu) = thread_state(KTID[cur.min(MAXT - 1)].load(Relaxed));
        if now != last {
            last = now;
            since = Instant::now();
            cpu0 = cpu;
            continue;
        }
        let idle = since.elapsed();
        // the thread whose turn it is sleeps inside the library (on a lock, say)
        let turned = GO[cur].load(Acquire);
        if st == 'S' && idle > Duration::from_millis(if turned { 1000 } else { 150 }) && !WAITING[cur].load(Acquire) {
            GO[cur].store(false, Release);
            let cand: Vec<usize> = (0..n)
                .filter(|i| *i != cur && !DONE[*i].load(Acquire) && WAITING[*i].load(Acquire))
                .collect();
            if let Some(next) = cand.first().copied() {
                count(C::forced_handover);
                trace(|| format!("-- t{cur} is blocked inside the library, t{next} continues"));
                pass(next);
                continue;
            }
            if idle > Duration::from_millis(4000) {
                stuck("deadlock", format!("thread t{cur} is blocked inside the library and nobody can release it"), on_stuck);
            }
        }
        if INSIDE[cur].load(Relaxed) == 0 {
            // busy judging, not in the library
            cpu0 = cpu;
        }
        if st == 'R' && cpu.saturating_sub(cpu0) > 1500 {
            stuck("hang", format!("thread t{cur} ran for 15 s of CPU time without reaching a callback, allocation or the end of its operation"), on_stuck);
        }
        // CUR finished while another had been forced on: hand the turn over
        if DONE[cur].load(Acquire) {
            if let Some(next) = (0..n).find(|i| !DONE[*i].load(Acquire) && WAITING[*i].load(Acquire)) {
                pass(next);
            }
        }
    }
}

fn stuck(class: &str, msg: String, on_stuck: &dyn Fn(Violation, Vec<u32>, Vec<String>) -> std::convert::Infallible) -> ! {
    trace(|| format!("VIOLATION {class}: {msg}"));
    let world = w().take().unwrap();
    match on_stuck(
        Violation { class: class.to_string(), msg },
        world.tape.rec,
        world.trace,
    ) {}
}

/// Give up because far too many events happened (bounded steps).
pub const MAX_TICKS: u64 = 2_000_000;

// ---------------------------------------------------------------- operation context

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum F {
    None,
    Err,
    Panic,
}

/// The fault plan and the observations of the operation in progress.
#[derive(Default)]
pub struct Op {
    pub src_steps: u32,
    pub sink_events: u32,
    pub cb: u32,
    /// fail the source at this step; lasting also fails every later step
    pub src_fault: Option<(u32, FaultKind)>,
    pub sink_fault: Option<(u32, FaultKind)>,
    pub reenter_at: Option<u32>,
    pub src_fired: Vec<u32>,
    pub sink_fired: bool,
    pub panic_fired: bool,
    pub after_fail: u32,
    /// bracketed notes offered to a writer that already failed
    pub after_note: u32,
    /// object and its own step at which an error was injected
    pub failed_at: Vec<(u32, u32)>,
    /// (object, generation) of every evaluation started by this operation
    pub evals: Vec<(u32, u32)>,
    /// sequence elements read by this operation
    pub read: Vec<u32>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FaultKind {
    Err,
    Lasting,
    Panic,
}

/// Payload of injected panics.
pub struct Injected(#[allow(dead_code)] pub &'static str);

pub fn push_op(op: Op) {
    OPS.with(|o| o.borrow_mut().push(op));
}

pub fn pop_op() -> Op {
    OPS.with(|o| o.borrow_mut().pop().expect("op"))
}

pub fn op_depth() -> usize {
    OPS.with(|o| o.borrow().len())
}

pub fn record_eval(id: u32, generation: u32) {
    OPS.with(|o| {
        if let Some(op) = o.borrow_mut().last_mut() {
            op.evals.push((id, generation));
        }
    });
    note(((id as u64) << 32) | generation as u64);
}

pub fn record_read(id: u32) {
    OPS.with(|o| {
        if let Some(op) = o.borrow_mut().last_mut() {
            op.read.push(id);
        }
    });
}

fn maybe_reenter() {
    let go = OPS.with(|o| {
        let mut o = o.borrow_mut();
        match o.last_mut() {
            Some(op) => {
                let i = op.cb;
                op.cb += 1;
                if op.reenter_at == Some(i) {
                    op.reenter_at = None;
                    true
                } else {
                    false
                }
            }
            None => false,
        }
    });
    if go {
        count(C::reentry);
        crate::engine::reenter();
    }
}

/// One step of user code behind a captured value. Must run as harness code.
pub fn src_step(id: u32, local: u32) -> F {
    yield_point(Y_SRC);
    maybe_reenter();
    let f = OPS.with(|o| {
        let mut o = o.borrow_mut();
        let Some(op) = o.last_mut() else { return F::None };
        let i = op.src_steps;
        op.src_steps += 1;
        match op.src_fault {
            Some((k, FaultKind::Err)) if i == k => {
                op.src_fired.push(id);
                op.failed_at.push((id, local));
                count(C::source_error);
                F::Err
            }
            Some((k, FaultKind::Lasting)) if i >= k => {
                op.src_fired.push(id);
                op.failed_at.push((id, local));
                count(C::source_error_lasting);
                F::Err
            }
            Some((k, FaultKind::Panic)) if i == k => {
                op.src_fired.push(id);
                op.panic_fired = true;
                count(C::source_panic);
                F::Panic
            }
            _ => F::None,
        }
    });
    match f {
        F::Err => {
            trace(|| format!("   fault: source #{id} reports an error"));
            note(0xE0 + id as u64)
        }
        F::Panic => {
            trace(|| format!("   fault: source #{id} panics"));
            note(0xF0 + id as u64)
        }
        F::None => {}
    }
    f
}

/// As `src_step` for user code that cannot report an error.
pub fn src_step_infallible(id: u32) {
    yield_point(Y_SRC);
    maybe_reenter();
    let p = OPS.with(|o| {
        let mut o = o.borrow_mut();
        let Some(op) = o.last_mut() else { return false };
        if let Some((k, FaultKind::Panic)) = op.src_fault {
            let i = op.src_steps;
            op.src_steps += 1;
            if i == k {
                op.src_fired.push(id);
                op.panic_fired = true;
                count(C::source_panic);
                return true;
            }
        }
        false
    });
    if p {
        trace(|| format!("   fault: source #{id} panics"));
        note(0xF0 + id as u64);
        throw("source");
    }
}

pub fn throw(what: &'static str) -> ! {
    resume_unwind(Box::new(Injected(what)))
}

/// One call into a consumer. Must run as harness code.
pub fn sink_event(c: C) -> F {
    yield_point(Y_SINK);
    maybe_reenter();
    let f = OPS.with(|o| {
        let mut o = o.borrow_mut();
        let Some(op) = o.last_mut() else { return F::None };
        let i = op.sink_events;
        op.sink_events += 1;
        if op.sink_fired {
            op.after_fail += 1;
            return F::Err;
        }
        match op.sink_fault {
            Some((k, FaultKind::Panic)) if i == k => {
                op.sink_fired = true;
                op.panic_fired = true;
                count(C::sink_panic);
                F::Panic
            }
            Some((k, _)) if i == k => {
                op.sink_fired = true;
                count(c);
                F::Err
            }
            _ => F::None,
        }
    });
    match f {
        F::Err => {
            trace(|| "   fault: consumer refuses".to_string());
            note(0xE1)
        }
        F::Panic => {
            trace(|| "   fault: consumer panics".to_string());
            note(0xF1)
        }
        F::None => {}
    }
    if f == F::Panic {
        throw("sink");
    }
    f
}

/// As `sink_event` for a consumer that cannot refuse.
pub fn sink_event_infallible() {
    yield_point(Y_SINK);
    maybe_reenter();
    let p = OPS.with(|o| {
        let mut o = o.borrow_mut();
        let Some(op) = o.last_mut() else { return false };
        let i = op.sink_events;
        op.sink_events += 1;
        if op.sink_fault == Some((i, FaultKind::Panic)) && !op.sink_fired {
            op.sink_fired = true;
            op.panic_fired = true;
            count(C::sink_panic);
            return true;
        }
        false
    });
    if p {
        trace(|| "   fault: consumer panics".to_string());
        note(0xF1);
        throw("sink");
    }
}

/// Offer `len` bytes to a writer that stops at the planned byte. On refusal
/// says how many bytes of this piece were accepted. Must run as harness code.
pub fn sink_write(piece: &str, whole: bool) -> Result<(), usize> {
    let len = piece.len();
    yield_point(Y_SINK);
    maybe_reenter();
    let (r, p) = OPS.with(|o| {
        let mut o = o.borrow_mut();
        let Some(op) = o.last_mut() else { return (Ok(()), false) };
        if op.sink_fired {
            if piece.starts_with('<') || (len > 0 && piece.trim().is_empty()) {
                // perhaps indented
                op.after_note += 1;
            } else if len > 0 {
                op.after_fail += 1;
            }
            return (Err(0), false);
        }
        let pos = op.sink_events;
        match op.sink_fault {
            Some((k, kind)) if (pos as usize + len) > k as usize => {
                op.sink_fired = true;
                op.sink_events = k;
                let n = if whole { 0 } else { (k - pos) as usize };
                if kind == FaultKind::Panic {
                    op.panic_fired = true;
                    count(C::sink_panic);
                    return (Err(n), true);
                }
                count(C::writer_refusal);
                (Err(n), false)
            }
            _ => {
                op.sink_events += len as u32;
                (Ok(()), false)
            }
        }
    });
    if p {
        trace(|| "   fault: writer panics".to_string());
        note(0xF1);
        throw("sink");
    }
    if let Err(n) = r {
        trace(|| format!("   fault: writer refuses after {n} bytes of this piece"));
        note(0xE100 + n as u64);
    }
    r
}
