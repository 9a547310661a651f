//! Result area shared between a run (forked child) and its parent, and process isolation helpers.

use crate::seams::die;
use std::sync::atomic::{AtomicPtr, Ordering::*};

pub const NCOUNT: usize = 128;

#[repr(C)]
pub struct Shm {
    pub status: u32, // 0 = no verdict, 1 = ok, 2 = violation, 3 = harness error
    pub class_len: u32,
    pub detail_len: u32,
    pub nswitch: u32,
    pub sig: u64,
    pub exact: u64,
    pub nontrivial: u64,
    pub sim_us: u64,
    pub calls: u64,
    pub step: u64,
    pub counters: [u64; NCOUNT],
    pub class: [u8; 256],
    pub detail: [u8; 16384],
    pub switches: [(u64, u32); 8192],
}

/// What the simulator counts (reported in the evidence).
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum C {
    Loss,
    BurstLoss,
    Dup,
    Delay,
    Stall,
    Damage,
    Reorder,
    Restart,
    RestartKept,
    ClockForward,
    ClockBack,
    TickInCall,
    MidnightInCall,
    Preempt,
    PreemptInCall,
    FutexBlock,
    Handover,
    Rejected,
    Corrupted,
    Incomplete,
    DataReturned,
    Joined,
    JoinedReversed,
    Group,
    GroupReversed,
    Pair,
    PairReversed,
    Replaced,
    Orphan,
    Flood,
    HashSeeds,
    TimeZones,
    LogLevels,
    ThreadChange,
    Twin,
    Noise,
    AbsentValue,
    ClockReads,
    LogRecords,
    Steps,
    Parsers,
    Threads,
    Leftover,
    Excused,
    LongSentence,
    HugeNumber,
    PeakPending,
    EtaNextYear,
    Sources,
    Churn,
    Last,
}

pub const CNAMES: [&str; C::Last as usize] = ["fault:loss", "fault:burst_loss", "fault:duplicate", "fault:delay",
    "fault:stall", "fault:damage", "fault:reordered_arrival", "fault:restart", "fault:restart_old_parser_kept",
    "fault:clock_step_forward", "fault:clock_step_backward", "fault:clock_moves_during_call",
    "fault:midnight_during_call", "fault:preemption", "fault:preemption_inside_call", "fault:futex_block",
    "fault:parser_handed_to_other_thread", "seen:sentence_rejected", "seen:corrupted_rejected", "seen:incomplete",
    "seen:data_returned", "seen:ais_two_part_completed", "seen:ais_two_part_completed_last_part_first",
    "seen:gsv_group_completed", "seen:gsv_group_completed_out_of_order", "seen:type24_pair_completed",
    "seen:type24_pair_completed_b_first", "seen:waiting_part_replaced", "seen:orphan_part_at_end",
    "fault:flood_of_outstanding_parts", "fault:hash_seed_changed", "fault:time_zone_changed",
    "fault:log_level_changed", "fault:other_thread", "seen:twin_executions", "fault:noise_sentence",
    "seen:not_available_value", "seen:clock_reads", "seen:log_records", "seen:steps", "seen:parsers", "seen:threads",
    "seen:leftover_before_clean_phase", "seen:known_finding_instances", "fault:long_sentence", "fault:huge_number",
    "seen:pending_parts_peak_sum", "seen:eta_next_year", "seen:sources", "fault:churn_of_identities"];

pub fn count(c: C, n: u64) {
    get().counters[c as usize] += n;
}

static PTR: AtomicPtr<Shm> = AtomicPtr::new(std::ptr::null_mut());

pub fn init() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        PTR.store(p as *mut Shm, SeqCst);
    }
}

#[allow(clippy::mut_from_ref)]
pub fn get() -> &'static mut Shm {
    unsafe { &mut *PTR.load(Relaxed) }
}

pub fn reset() {
    let s = get();
    s.status = 0;
    s.class_len = 0;
    s.detail_len = 0;
    s.nswitch = 0;
    s.sig = 0;
    s.exact = 0;
    s.nontrivial = 0;
    s.sim_us = 0;
    s.calls = 0;
    s.step = u64::MAX;
    s.counters = [0; NCOUNT];
}

fn put(dst: &mut [u8], s: &str) -> u32 {
    let mut n = s.len().min(dst.len());
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    n as u32
}

pub fn set_violation(class: &str, detail: &str) {
    let s = get();
    s.class_len = put(&mut s.class, class);
    s.detail_len = put(&mut s.detail, detail);
    s.status = 2;
}

pub fn class() -> String {
    let s = get();
    String::from_utf8_lossy(&s.class[..s.class_len as usize]).into_owned()
}
pub fn detail() -> String {
    let s = get();
    String::from_utf8_lossy(&s.detail[..s.detail_len as usize]).into_owned()
}

/// A simulated call used more work than any legitimate call can: the run ends here.
pub fn over_budget(what: &str, n: u64) -> ! {
    let _ = crate::seams::TLS.try_with(|t| t.in_call.set(false));
    crate::sched::off();
    let s = get();
    let msg = format!("a single call made {} {} and had not returned (step {})", n, what, s.step as i64);
    set_violation("unbounded-work", &msg);
    die(0)
}

pub enum Isolated {
    Done(Vec<String>),
    Died(String),
}

/// Runs `f` in a forked copy of this process and returns the strings it produced. Nothing the
/// system under test leaves in process-wide state survives.
pub fn isolated(f: impl FnOnce() -> Vec<String>) -> Isolated {
    unsafe {
        let mut fd = [0i32; 2];
        assert_eq!(libc::pipe(fd.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fd[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let v = f();
            let mut buf: Vec<u8> = Vec::new();
            buf.extend_from_slice(&(v.len() as u32).to_le_bytes());
            for s in &v {
                buf.extend_from_slice(&(s.len() as u32).to_le_bytes());
                buf.extend_from_slice(s.as_bytes());
            }
            let mut off = 0;
            while off < buf.len() {
                let n = libc::write(fd[1], buf[off..].as_ptr() as *const _, buf.len() - off);
                if n <= 0 {
                    die(9);
                }
                off += n as usize;
            }
            die(0)
        }
        libc::close(fd[1]);
        let mut buf: Vec<u8> = Vec::new();
        let mut tmp = vec![0u8; 65536];
        loop {
            let n = libc::read(fd[0], tmp.as_mut_ptr() as *mut _, tmp.len());
            if n < 0 && *libc::__errno_location() == libc::EINTR {
                continue;
            }
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&tmp[..n as usize]);
        }
        libc::close(fd[0]);
        let mut st = 0i32;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if get().status == 2 {
            // the copy reported a violation itself (work budget, deadlock)
            die(0);
        }
        let mut pos = 0usize;
        let rd = |pos: &mut usize| -> Option<u32> {
            if *pos + 4 > buf.len() {
                return None;
            }
            let v = u32::from_le_bytes([buf[*pos], buf[*pos + 1], buf[*pos + 2], buf[*pos + 3]]);
            *pos += 4;
            Some(v)
        };
        let mut out = Vec::new();
        if let Some(n) = rd(&mut pos) {
            for _ in 0..n {
                match rd(&mut pos) {
                    Some(l) if pos + l as usize <= buf.len() => {
                        out.push(String::from_utf8_lossy(&buf[pos..pos + l as usize]).into_owned());
                        pos += l as usize;
                    }
                    _ => return Isolated::Died(status_text(st)),
                }
            }
            if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
                return Isolated::Done(out);
            }
        }
        Isolated::Died(status_text(st))
    }
}

pub fn status_text(st: i32) -> String {
    if libc::WIFSIGNALED(st) {
        match libc::WTERMSIG(st) {
            libc::SIGXCPU => "did not return within the CPU time limit".into(),
            libc::SIGALRM => "did not return within the wall-clock limit".into(),
            libc::SIGKILL => "killed (CPU or memory limit)".into(),
            s => format!("killed by signal {}", s),
        }
    } else {
        format!("exit status {}", libc::WEXITSTATUS(st))
    }
}
