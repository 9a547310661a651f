//! Every source of nondeterminism of the system under test, behind symbols the simulator owns:
//! clocks, hash seeds, heap, futexes, logger. Nothing in /repo is changed for this.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};

// ------------------------------------------------------------------------------------------------
// Raw system calls (the libc symbol `syscall` itself is interposed below).

pub unsafe fn raw_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        out("rcx") _, out("r11") _, options(nostack));
    r
}

pub fn real_monotonic() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        raw_syscall(libc::SYS_clock_gettime, 1, &mut ts as *mut _ as usize, 0, 0, 0, 0);
    }
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}

pub fn die(code: i32) -> ! {
    unsafe { libc::_exit(code) }
}

// ------------------------------------------------------------------------------------------------
// Clock. Simulated wall time in microseconds since 1970; advances by TICK at every read.

pub static CLOCK_ON: AtomicBool = AtomicBool::new(false);
pub static NOW_US: AtomicI64 = AtomicI64::new(0);
pub static TICK_US: AtomicI64 = AtomicI64::new(0);
pub static READS: AtomicU64 = AtomicU64::new(0);
static MONO_NS: AtomicI64 = AtomicI64::new(1_000_000_000);

pub fn set_clock(now_us: i64, tick_us: i64) {
    // the monotonic clock shows the time that has passed; a step of the wall clock back is no time
    let d = now_us.saturating_sub(NOW_US.load(Relaxed)).clamp(0, 100 * 365 * 86_400_000_000);
    let m = MONO_NS.load(Relaxed);
    MONO_NS.store(m.saturating_add(d.saturating_mul(1000)).min(i64::MAX / 4), Relaxed);
    NOW_US.store(now_us, Relaxed);
    TICK_US.store(tick_us, Relaxed);
}
pub fn clock_us() -> i64 {
    NOW_US.load(Relaxed)
}

fn sim_wall_us() -> i64 {
    let n = NOW_US.fetch_add(TICK_US.load(Relaxed), Relaxed);
    READS.fetch_add(1, Relaxed);
    crate::sched::yield_point();
    n
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if !CLOCK_ON.load(Relaxed) {
        let r = raw_syscall(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0);
        return if r < 0 { -1 } else { 0 };
    }
    match clk {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => {
            let us = sim_wall_us();
            (*ts).tv_sec = us.div_euclid(1_000_000);
            (*ts).tv_nsec = us.rem_euclid(1_000_000) * 1000;
        }
        _ => {
            let ns = MONO_NS.fetch_add(1000, Relaxed);
            (*ts).tv_sec = ns / 1_000_000_000;
            (*ts).tv_nsec = ns % 1_000_000_000;
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut libc::c_void) -> libc::c_int {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let r = clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    r
}

#[no_mangle]
pub unsafe extern "C" fn time(out: *mut libc::time_t) -> libc::time_t {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !out.is_null() {
        *out = ts.tv_sec;
    }
    ts.tv_sec
}

// ------------------------------------------------------------------------------------------------
// Randomness: std's hash seeds (and anything else asking the kernel) come from HASH_SEED.

pub static HASH_SEED: AtomicU64 = AtomicU64::new(0x5eed);
static RAND_DRAWS: AtomicU64 = AtomicU64::new(0);

pub fn set_hash_seed(s: u64) {
    HASH_SEED.store(s, Relaxed);
    RAND_DRAWS.store(0, Relaxed);
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let p = buf as *mut u8;
    let mut x = HASH_SEED.load(Relaxed) ^ RAND_DRAWS.fetch_add(1, Relaxed).wrapping_mul(0x9E37);
    let mut w = 0u64;
    for i in 0..len {
        if i % 8 == 0 {
            w = crate::rng::splitmix(&mut x);
        }
        *p.add(i) = (w >> (8 * (i % 8))) as u8;
    }
    len as libc::ssize_t
}

/// The process id is part of the process's identity like its hash seeds.
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    let mut x = HASH_SEED.load(Relaxed);
    1000 + (crate::rng::splitmix(&mut x) % 30_000) as libc::pid_t
}

// ------------------------------------------------------------------------------------------------
// Futexes and other calls std makes through libc's `syscall`. A simulated thread that would block
// hands the (single) processor to another simulated thread instead.

#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if n == libc::SYS_futex && crate::sched::in_sim_thread() {
        let op = (b as i32) & 0x7f & !(libc::FUTEX_CLOCK_REALTIME);
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            let word = &*(a as *const std::sync::atomic::AtomicU32);
            if word.load(SeqCst) != c as u32 {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            crate::sched::blocked();
            return 0; // a spurious wake-up: std re-checks its condition
        }
        if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
            crate::sched::unblocked();
            return 1;
        }
    }
    if n == libc::SYS_getrandom && CLOCK_ON.load(Relaxed) {
        return getrandom(a as *mut libc::c_void, b, c as u32) as libc::c_long;
    }
    let r = raw_syscall(n, a, b, c, d, e, f);
    if r < 0 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

// ------------------------------------------------------------------------------------------------
// Heap: accounting per simulated call, work budget, preemption point.

pub struct Tls {
    pub in_call: Cell<bool>,
    pub net: Cell<i64>,
    pub calls: Cell<u64>,
    pub bytes: Cell<u64>,
    pub blocks: Cell<u64>,
    pub moved: Cell<u64>,
    pub tid: Cell<u32>,
}

thread_local! {
    pub static TLS: Tls = const { Tls {
        in_call: Cell::new(false), net: Cell::new(0), calls: Cell::new(0), bytes: Cell::new(0),
        blocks: Cell::new(0), moved: Cell::new(0), tid: Cell::new(u32::MAX),
    } };
}

pub static BUDGET_CALLS: AtomicU64 = AtomicU64::new(u64::MAX);
pub static BUDGET_BYTES: AtomicU64 = AtomicU64::new(u64::MAX);

pub struct SimAlloc;

fn note_alloc(size: usize) {
    let _ = TLS.try_with(|t| {
        if t.in_call.get() {
            t.net.set(t.net.get() + size as i64);
            t.calls.set(t.calls.get() + 1);
            t.bytes.set(t.bytes.get() + size as u64);
            if t.calls.get() > BUDGET_CALLS.load(Relaxed) {
                crate::shm::over_budget("allocations", t.calls.get());
            }
            if t.bytes.get() > BUDGET_BYTES.load(Relaxed) {
                crate::shm::over_budget("bytes allocated", t.bytes.get());
            }
        }
    });
    crate::sched::yield_point();
}

fn note_free(size: usize) {
    let _ = TLS.try_with(|t| {
        if t.in_call.get() {
            t.net.set(t.net.get() - size as i64);
        }
    });
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        note_free(l.size());
        note_alloc(new);
        System.realloc(p, l, new)
    }
}

// ------------------------------------------------------------------------------------------------
// Bulk memory functions: the bytes they move or compare during a call are work as well.

static REAL_MEMMOVE: AtomicUsize = AtomicUsize::new(0);
static REAL_MEMCMP: AtomicUsize = AtomicUsize::new(0);
pub static BUDGET_MOVED: AtomicU64 = AtomicU64::new(u64::MAX);

pub fn init_memory_functions() {
    unsafe {
        let m = libc::dlsym(libc::RTLD_NEXT, c"memmove".as_ptr());
        let c = libc::dlsym(libc::RTLD_NEXT, c"memcmp".as_ptr());
        assert!(!m.is_null() && !c.is_null());
        REAL_MEMMOVE.store(m as usize, SeqCst);
        REAL_MEMCMP.store(c as usize, SeqCst);
    }
}

#[inline(always)]
fn note_moved(n: usize) {
    let _ = TLS.try_with(|t| {
        if t.in_call.get() {
            t.moved.set(t.moved.get() + n as u64);
            if t.moved.get() > BUDGET_MOVED.load(Relaxed) {
                crate::shm::over_budget("bytes moved", t.moved.get());
            }
        }
    });
}

#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    note_moved(n);
    let f = REAL_MEMMOVE.load(Relaxed);
    if f != 0 {
        let f: unsafe extern "C" fn(*mut u8, *const u8, usize) -> *mut u8 = std::mem::transmute(f);
        return f(d, s, n);
    }
    if (d as usize) <= s as usize || d as usize >= s as usize + n {
        std::arch::asm!("rep movsb", inout("rdi") d => _, inout("rsi") s => _, inout("rcx") n => _, options(nostack));
    } else {
        std::arch::asm!("std", "rep movsb", "cld", inout("rdi") (d as usize + n - 1) => _, inout("rsi") (s as usize + n - 1) => _,
            inout("rcx") n => _, options(nostack));
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    note_moved(n);
    let f = REAL_MEMCMP.load(Relaxed);
    if f != 0 {
        let f: unsafe extern "C" fn(*const u8, *const u8, usize) -> i32 = std::mem::transmute(f);
        return f(a, b, n);
    }
    for i in 0..n {
        let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
        if x != y {
            return x as i32 - y as i32;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    memcmp(a, b, n)
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Work {
    pub moved: u64,
    pub calls: u64,
    pub bytes: u64,
    pub blocks: u64,
}

/// Runs `f` as a call into the system under test: accounted, budgeted and preemptible.
pub fn in_call<R>(f: impl FnOnce() -> R) -> (std::thread::Result<R>, Work) {
    TLS.with(|t| {
        t.calls.set(0);
        t.bytes.set(0);
        t.blocks.set(0);
        t.moved.set(0);
        t.in_call.set(true);
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let w = TLS.with(|t| {
        t.in_call.set(false);
        Work { calls: t.calls.get(), bytes: t.bytes.get(), blocks: t.blocks.get(), moved: t.moved.get() }
    });
    (r, w)
}

/// Net bytes allocated minus freed inside calls on this thread so far.
pub fn net_bytes() -> i64 {
    TLS.with(|t| t.net.get())
}

// ------------------------------------------------------------------------------------------------
// Logger: formats every record (as a real logger would) and throws it away.

pub struct SimLog;
pub static LOG_RECORDS: AtomicU64 = AtomicU64::new(0);
struct Sink(usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
impl log::Log for SimLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        !LOG_FILTER.load(Relaxed)
    }
    fn log(&self, r: &log::Record) {
        if LOG_FILTER.load(Relaxed) {
            return;
        }
        let mut s = Sink(0);
        let _ = std::fmt::Write::write_fmt(&mut s, *r.args());
        LOG_RECORDS.fetch_add(1, Relaxed);
        crate::sched::yield_point();
    }
    fn flush(&self) {}
}
/// The logger rejects every record, whatever the level.
pub static LOG_FILTER: AtomicBool = AtomicBool::new(false);
pub static LOGGER: SimLog = SimLog;
