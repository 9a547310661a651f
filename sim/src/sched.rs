//! Cooperative scheduler for real threads: exactly one simulated thread runs at a time, and at
//! every preemption point (basic block of the crate under test, heap allocation, clock read, log
//! record, futex) the seeded scheduler decides whether another one goes on.

use crate::rng::splitmix;
use crate::seams::{die, raw_syscall, TLS};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};

pub const MAXT: usize = 8;
const RUNNABLE: u8 = 1;
const BLOCKED: u8 = 2;
const DONE: u8 = 3;

static STATE: [AtomicU8; MAXT] = [const { AtomicU8::new(0) }; MAXT];
static GO: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static N: AtomicUsize = AtomicUsize::new(0);
static ALL_DONE: AtomicU32 = AtomicU32::new(0);
static READY: AtomicU32 = AtomicU32::new(0);
static IDX: AtomicU64 = AtomicU64::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
static DEN: AtomicU64 = AtomicU64::new(0);
static HOT: AtomicU64 = AtomicU64::new(0);
static HOTDEN: AtomicU64 = AtomicU64::new(0);
static GLOBDEN: AtomicU64 = AtomicU64::new(0);
static OFF: AtomicBool = AtomicBool::new(false);
static FIXED: AtomicUsize = AtomicUsize::new(0); // pointer to Vec<(u64,u32)>, 0 = random
static POS: AtomicUsize = AtomicUsize::new(0);
pub static SWITCHES: AtomicU64 = AtomicU64::new(0);
pub static INNER: AtomicU64 = AtomicU64::new(0);
pub static BLOCKS: AtomicU64 = AtomicU64::new(0);

unsafe fn futex_wait(w: &AtomicU32, val: u32) {
    raw_syscall(libc::SYS_futex, w as *const _ as usize, 128, val as usize, 0, 0, 0);
}
unsafe fn futex_wake(w: &AtomicU32) {
    raw_syscall(libc::SYS_futex, w as *const _ as usize, 129, i32::MAX as usize, 0, 0, 0);
}

pub fn in_sim_thread() -> bool {
    TLS.try_with(|t| t.tid.get() != u32::MAX).unwrap_or(false)
}
fn me() -> usize {
    TLS.with(|t| t.tid.get() as usize)
}
/// No more preemption (a verdict has been reached).
pub fn off() {
    OFF.store(true, SeqCst);
}

/// Starts a simulation with `n` threads; `den` = preempt with probability 1/den at each point;
/// with `hotden` > 0, one in `hotden` memory accesses in the code is hot: there every second visit preempts;
/// with `globden` > 0, one in `globden` accesses to process-wide variables preempts;
/// `fixed` = replay exactly these switches instead.
pub fn setup(n: usize, seed: u64, den: u64, hotden: u64, globden: u64, fixed: Option<Vec<(u64, u32)>>) {
    assert!(n <= MAXT);
    N.store(n, SeqCst);
    for i in 0..MAXT {
        STATE[i].store(if i < n { RUNNABLE } else { DONE }, SeqCst);
        GO[i].store(0, SeqCst);
    }
    ALL_DONE.store(0, SeqCst);
    READY.store(0, SeqCst);
    IDX.store(0, SeqCst);
    POS.store(0, SeqCst);
    SEED.store(seed, SeqCst);
    DEN.store(den, SeqCst);
    let mut x = seed ^ 0x4071;
    HOT.store(splitmix(&mut x), SeqCst);
    HOTDEN.store(hotden, SeqCst);
    GLOBDEN.store(globden, SeqCst);
    OFF.store(false, SeqCst);
    FIXED.store(fixed.map(|v| Box::into_raw(Box::new(v)) as usize).unwrap_or(0), SeqCst);
}

pub fn enter(tid: usize) {
    TLS.with(|t| t.tid.set(tid as u32));
    READY.fetch_add(1, SeqCst);
    unsafe {
        futex_wake(&READY);
        while GO[tid].load(SeqCst) == 0 {
            futex_wait(&GO[tid], 0);
        }
    }
}

/// Controller: waits for all threads to be parked, starts thread 0, waits for the end.
pub fn run() {
    unsafe {
        loop {
            let r = READY.load(SeqCst);
            if r as usize == N.load(SeqCst) {
                break;
            }
            futex_wait(&READY, r);
        }
        GO[0].store(1, SeqCst);
        futex_wake(&GO[0]);
        while ALL_DONE.load(SeqCst) == 0 {
            futex_wait(&ALL_DONE, 0);
        }
    }
}

fn pick_next(from: usize) -> Option<usize> {
    let n = N.load(Relaxed);
    (1..=n).map(|k| (from + k) % n).find(|i| STATE[*i].load(Relaxed) == RUNNABLE)
}

fn hand_over(to: usize) {
    GO[to].store(1, SeqCst);
    unsafe { futex_wake(&GO[to]) }
}

fn switch_to(m: usize, to: usize) {
    if to == m {
        return;
    }
    SWITCHES.fetch_add(1, Relaxed);
    GO[m].store(0, SeqCst);
    hand_over(to);
    unsafe {
        while GO[m].load(SeqCst) == 0 {
            futex_wait(&GO[m], 0);
        }
    }
}

pub fn leave() {
    let m = me();
    TLS.with(|t| t.tid.set(u32::MAX));
    STATE[m].store(DONE, SeqCst);
    GO[m].store(0, SeqCst);
    match pick_next(m) {
        Some(t) => hand_over(t),
        None => {
            if (0..N.load(SeqCst)).any(|i| STATE[i].load(SeqCst) == BLOCKED) {
                deadlock();
            }
            ALL_DONE.store(1, SeqCst);
            unsafe { futex_wake(&ALL_DONE) }
        }
    }
}

fn deadlock() -> ! {
    crate::shm::set_violation("deadlock", "every simulated thread is blocked; calls never finish");
    die(0)
}

/// The running thread cannot go on until another one has done something.
pub fn blocked() {
    let m = me();
    BLOCKS.fetch_add(1, Relaxed);
    STATE[m].store(BLOCKED, SeqCst);
    match pick_next(m) {
        Some(t) => switch_to(m, t),
        None => deadlock(),
    }
    STATE[m].store(RUNNABLE, SeqCst);
}

/// Something happened that may let blocked threads go on: all of them re-check.
pub fn unblocked() {
    for i in 0..N.load(Relaxed) {
        if STATE[i].load(Relaxed) == BLOCKED {
            STATE[i].store(RUNNABLE, SeqCst);
        }
    }
}

fn decide(m: usize, den: u64) {
    let idx = IDX.fetch_add(1, Relaxed);
    let f = FIXED.load(Relaxed);
    if f != 0 {
        let v = unsafe { &*(f as *const Vec<(u64, u32)>) };
        let p = POS.load(Relaxed);
        if p < v.len() && v[p].0 <= idx {
            POS.store(p + 1, Relaxed);
            let to = v[p].1 as usize;
            if v[p].0 == idx && to < MAXT && STATE[to].load(Relaxed) == RUNNABLE {
                note(m, idx, to);
                switch_to(m, to);
            }
        }
        return;
    }
    let mut x = SEED.load(Relaxed) ^ idx.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let r = splitmix(&mut x);
    if den == 0 || r % den != 0 {
        return;
    }
    if crate::shm::get().nswitch as usize >= crate::shm::get().switches.len() {
        return;
    }
    let n = N.load(Relaxed);
    let start = splitmix(&mut x) as usize % n;
    for k in 0..n {
        let to = (start + k) % n;
        if to != m && STATE[to].load(Relaxed) == RUNNABLE {
            note(m, idx, to);
            switch_to(m, to);
            return;
        }
    }
}

fn note(_m: usize, idx: u64, to: usize) {
    let s = crate::shm::get();
    if (s.nswitch as usize) < s.switches.len() {
        s.switches[s.nswitch as usize] = (idx, to as u32);
        s.nswitch += 1;
    }
    let inner = TLS.try_with(|t| t.in_call.get()).unwrap_or(false);
    if inner {
        INNER.fetch_add(1, Relaxed);
    }
}

/// Possible preemption inside a call, at the given place in the code.
pub fn yield_at(place: u64) {
    let t = TLS.try_with(|t| if t.in_call.get() { t.tid.get() } else { u32::MAX }).unwrap_or(u32::MAX);
    if t == u32::MAX || OFF.load(Relaxed) {
        return;
    }
    let h = HOTDEN.load(Relaxed);
    let mut den = DEN.load(Relaxed);
    if h > 0 && place >> 63 == 1 {
        let mut x = HOT.load(Relaxed) ^ place.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        if splitmix(&mut x) % h == 0 {
            den = 2;
        }
    }
    decide(t as usize, den);
}

/// Possible preemption inside a call, before it touches a process-wide variable.
pub fn yield_global() {
    let t = TLS.try_with(|t| if t.in_call.get() { t.tid.get() } else { u32::MAX }).unwrap_or(u32::MAX);
    if t == u32::MAX || OFF.load(Relaxed) {
        return;
    }
    let g = GLOBDEN.load(Relaxed);
    decide(t as usize, if g > 0 { g } else { DEN.load(Relaxed) });
}

/// Possible preemption inside a call.
pub fn yield_point() {
    let t = TLS.try_with(|t| if t.in_call.get() { t.tid.get() } else { u32::MAX }).unwrap_or(u32::MAX);
    if t == u32::MAX || OFF.load(Relaxed) {
        return;
    }
    decide(t as usize, DEN.load(Relaxed));
}

/// Possible preemption between calls.
pub fn boundary() {
    decide(me(), 2);
}
