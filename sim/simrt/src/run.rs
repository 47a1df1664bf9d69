//! Running simulated executions: one forked process tree per run, seeded or replayed.
use crate::fs;
use crate::sched;
use crate::shared::*;
use crate::sys;
use std::sync::atomic::Ordering;

#[derive(Clone, Copy)]
pub struct Scenario {
    pub name: &'static str,
    /// Number of processes of a stage, None when the run is over. Called by the coordinator.
    pub plan: fn(u32) -> Option<u32>,
    /// What process `proc` of stage `stage` does (on its initial thread).
    pub main: fn(u32, u32),
}

pub struct RunResult {
    pub verdict: u32,
    pub class: String,
    pub msg: String,
    pub note: String,
    pub log: String,
    pub trace_hash: u64,
    pub sched_hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub points: u64,
    pub sim_ns: u64,
    pub faults: [u64; Fault::Count as usize],
    pub counters: [u64; NCNT],
    pub overflow: bool,
}

fn policy_for(ch: &Choices) -> sched::Policy {
    let z = sched::Policy { mode: 0, mean: 1, wake_switch: 0, spurious: 0, victim: sched::NONE, proc_switch: 0 };
    match ch {
        Choices::Tapes(_) => z,
        Choices::Seed(s) => {
            let mut r = Rng(splitmix(s ^ 0x90_11C1));
            let mode = [0, 1, 1, 1, 2, 2, 3][r.below(7) as usize];
            let mean = [3, 12, 40, 150, 600, 3000, 20000][r.below(7) as usize];
            sched::Policy {
                mode,
                mean,
                wake_switch: [0, 50, 300, 700][r.below(4) as usize],
                spurious: [0, 0, 0, 20][r.below(4) as usize],
                victim: 2 + r.below(6),
                proc_switch: [2, 20, 100, 400][r.below(4) as usize],
            }
        }
    }
}

pub fn wipe(dir: &str) {
    let _ = std::fs::remove_dir_all(dir);
    let _ = std::fs::create_dir_all(dir);
}

pub static mut KEEP_STDERR: bool = false;
pub static mut CPU_LIMIT_S: u64 = 60;

unsafe fn child(sc: &Scenario, stage: u32, p: usize, policy: sched::Policy, scratch: &str) -> ! {
    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    let lim = libc::rlimit { rlim_cur: CPU_LIMIT_S, rlim_max: CPU_LIMIT_S + 5 };
    libc::setrlimit(libc::RLIMIT_CPU, &lim);
    let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
    libc::setrlimit(libc::RLIMIT_AS, &lim);
    let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    libc::setrlimit(libc::RLIMIT_CORE, &lim);
    libc::alarm(600);
    if !KEEP_STDERR {
        let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(n, 2);
        libc::dup2(n, 1);
    }
    let c = std::ffi::CString::new(scratch).unwrap();
    libc::chdir(c.as_ptr());
    std::env::remove_var("TMPDIR");
    fs::set_root(scratch);
    sched::enter_process(p, policy);
    let r = std::panic::catch_unwind(|| (sc.main)(stage, p as u32));
    sched::ACTIVE = false;
    if let Err(e) = r {
        set_verdict(3, "harness", &format!("harness panic: {}", panic_text(&e)));
    }
    sched::leave_process(0)
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "(non-string panic)".into()
    }
}

/// Execute one run.
pub fn execute(sc: &Scenario, ch: &Choices, scratch: &str, verbose: u32) -> RunResult {
    reset(ch, false);
    sh().verbose = verbose;
    wipe(scratch);
    let _ = std::fs::create_dir(format!("{}{}", scratch, fs::TMP));
    let policy = policy_for(ch);
    let mut stage = 0;
    while let Some(np) = (sc.plan)(stage) {
        let np = np as usize;
        let mut pids = vec![];
        let s = sh();
        for p in 0..np {
            s.procs[p].state = 1;
            s.procs[p].baton.store(0, Ordering::SeqCst);
        }
        for p in 0..np {
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                unsafe { child(sc, stage, p, policy, scratch) }
            }
            assert!(pid > 0, "fork failed");
            pids.push(pid);
        }
        s.active_proc.store(0, Ordering::SeqCst);
        s.procs[0].baton.store(1, Ordering::SeqCst);
        unsafe { sys::futex_wake_raw(s.procs[0].baton.as_ptr(), true) };
        let mut left = np;
        while left > 0 {
            let mut st = 0i32;
            let pid = unsafe { sys::sc(libc::SYS_wait4, usize::MAX, &mut st as *mut i32 as usize, 0, 0, 0, 0) } as i32;
            if pid == -(libc::EINTR) {
                continue;
            }
            assert!(pid > 0, "wait4 failed");
            let Some(k) = pids.iter().position(|x| *x == pid) else { continue };
            left -= 1;
            pids[k] = -1;
            if st & 0x7f != 0 {
                let sig = st & 0x7f;
                if s.verdict == 0 {
                    match sig {
                        libc::SIGKILL => set_verdict(3, "harness", "a simulated process was killed from outside (memory?)"),
                        libc::SIGALRM => set_verdict(3, "harness", "a simulated process made no progress in real time"),
                        libc::SIGXCPU => set_verdict(2, "hang:cpu", "the process burns CPU without reaching any scheduling point"),
                        libc::SIGABRT => set_verdict(2, "abort", "the process aborted (failed allocation, double panic or stack overflow)"),
                        _ => set_verdict(2, "abort", &format!("the process died on signal {}", sig)),
                    }
                }
            } else if (st >> 8) & 0xff == 98 {
                set_verdict(3, "harness", "a libc symbol is missing");
            }
            let abnormal = st & 0x7f != 0 || (s.verdict > 1);
            if abnormal {
                for q in pids.iter().filter(|q| **q > 0) {
                    unsafe { sys::sc(libc::SYS_kill, *q as usize, 9, 0, 0, 0, 0) };
                }
            }
        }
        if s.verdict > 1 {
            break;
        }
        stage += 1;
    }
    let s = sh();
    if s.verdict == 0 {
        s.verdict = 1;
    }
    RunResult {
        verdict: s.verdict,
        class: class(),
        msg: msg(),
        note: note_text(),
        log: if verbose > 0 { log_text() } else { String::new() },
        trace_hash: s.trace_hash,
        sched_hash: s.sched_hash,
        steps: s.steps,
        switches: s.switches,
        points: s.points,
        sim_ns: s.now,
        faults: s.faults,
        counters: s.counters,
        overflow: s.tapes.iter().any(|t| t.over != 0),
    }
}

/// Minimise the tapes of a violating run while the same class of violation persists.
pub fn shrink(sc: &Scenario, tapes: &[Vec<u32>; 3], class: &str, scratch: &str, budget_s: f64) -> ([Vec<u32>; 3], u64) {
    let t0 = sys::real_now_ns();
    let mut best = tapes.clone();
    let mut tries = 0u64;
    let over = |t0: u64| (sys::real_now_ns() - t0) as f64 / 1e9 > budget_s;
    let test = |c: &[Vec<u32>; 3], tries: &mut u64| -> bool {
        *tries += 1;
        let r = execute(sc, &Choices::Tapes(c), scratch, 0);
        r.verdict == 2 && r.class == class
    };
    let trim = |b: &mut [Vec<u32>; 3]| {
        for t in b.iter_mut() {
            while t.last() == Some(&0) {
                t.pop();
            }
        }
    };
    trim(&mut best);
    // whole tapes first, then binary truncation, then chunks (zeroed, then deleted), then values
    for t in [2usize, 1, 0] {
        let mut c = best.clone();
        c[t].clear();
        if !best[t].is_empty() && test(&c, &mut tries) {
            best = c;
        }
    }
    for round in 0..3 {
        let before: usize = best.iter().map(|t| t.len() + t.iter().filter(|v| **v != 0).count()).sum();
        for t in [2usize, 1, 0] {
            let mut lo = 0;
            let mut hi = best[t].len();
            while lo < hi && !over(t0) {
                let mid = (lo + hi) / 2;
                let mut c = best.clone();
                c[t].truncate(mid);
                if test(&c, &mut tries) {
                    best = c;
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
            let mut chunk = (best[t].len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best[t].len() && !over(t0) {
                    let e = (i + chunk).min(best[t].len());
                    if best[t][i..e].iter().any(|v| *v != 0) {
                        let mut c = best.clone();
                        for v in &mut c[t][i..e] {
                            *v = 0;
                        }
                        if test(&c, &mut tries) {
                            best = c;
                        } else if t != 2 || chunk > 8 {
                            let mut c = best.clone();
                            c[t].drain(i..e);
                            if test(&c, &mut tries) {
                                best = c;
                                continue;
                            }
                        }
                    }
                    i += chunk;
                }
                if chunk == 1 || over(t0) {
                    break;
                }
                chunk /= 2;
                if best[t].len() / chunk.max(1) > 4000 {
                    break;
                }
            }
            if t != 2 {
                for i in 0..best[t].len().min(400) {
                    while best[t][i] > 0 && !over(t0) {
                        let mut c = best.clone();
                        c[t][i] = if c[t][i] > 8 { c[t][i] / 2 } else { c[t][i] - 1 };
                        if test(&c, &mut tries) {
                            best = c;
                        } else {
                            break;
                        }
                    }
                }
            }
            trim(&mut best);
        }
        let after: usize = best.iter().map(|t| t.len() + t.iter().filter(|v| **v != 0).count()).sum();
        if after >= before || over(t0) || round == 2 {
            break;
        }
    }
    (best, tries)
}
