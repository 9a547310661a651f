//! Basic-block callbacks of the instrumented crates (the crate under test and the libraries it
//! computes with; see rustc-wrapper.sh). Each executed block counts as one unit of work, is a
//! possible preemption point, and marks coverage.

use crate::seams::TLS;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, AtomicPtr, Ordering::*};

pub const MAXB: usize = 1 << 17;
static NEXT: AtomicU32 = AtomicU32::new(1);
static MAP: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
pub static BUDGET_BLOCKS: AtomicU64 = AtomicU64::new(u64::MAX);

/// Coverage map shared by all workers of a check.
pub fn init_shared() {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), MAXB, libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        MAP.store(p as *mut u8, SeqCst);
    }
}

pub fn total() -> u64 {
    (NEXT.load(Relaxed) - 1) as u64
}

pub fn covered() -> u64 {
    let p = MAP.load(Relaxed);
    if p.is_null() {
        return 0;
    }
    (0..MAXB).filter(|i| unsafe { (*(p.add(*i) as *const AtomicU8)).load(Relaxed) } != 0).count() as u64
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = NEXT.fetch_add(1, Relaxed);
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let _ = TLS.try_with(|t| {
        if !t.in_call.get() {
            return;
        }
        let b = t.blocks.get() + 1;
        t.blocks.set(b);
        if b > BUDGET_BLOCKS.load(Relaxed) {
            crate::shm::over_budget("basic blocks", b);
        }
        let m = MAP.load(Relaxed);
        let g = *guard as usize;
        if !m.is_null() && g < MAXB {
            *m.add(g) = 1;
        }
        if t.tid.get() != u32::MAX {
            crate::sched::yield_at(1 + g as u64);
        }
    });
}

// Memory accesses of the crate under test itself are preemption points of their own. The callbacks
// pass on where they were called from, relative to the image, so that a schedule can single out
// places in the code.
std::arch::global_asm!(
    ".macro memcb name",
    ".globl \\name",
    "\\name:",
    "mov rsi, [rsp]",
    "jmp {}",
    ".endm",
    "memcb __sanitizer_cov_load1",
    "memcb __sanitizer_cov_load2",
    "memcb __sanitizer_cov_load4",
    "memcb __sanitizer_cov_load8",
    "memcb __sanitizer_cov_load16",
    "memcb __sanitizer_cov_store1",
    "memcb __sanitizer_cov_store2",
    "memcb __sanitizer_cov_store4",
    "memcb __sanitizer_cov_store8",
    "memcb __sanitizer_cov_store16",
    sym memory_access
);

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

unsafe extern "C" fn memory_access(addr: usize, from: usize) {
    if ON_ACCESS.load(Relaxed) {
        if addr >= &raw const __data_start as usize && addr < &raw const _end as usize {
            return crate::sched::yield_global();
        }
        let at = from.wrapping_sub(memory_access as *const () as usize) as u64;
        crate::sched::yield_at(at | 1 << 63);
    }
}
/// Only the runs with several threads look at memory accesses.
pub static ON_ACCESS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
