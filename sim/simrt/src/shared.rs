//! The region shared between a worker (coordinator) and the forked processes of one simulated run:
//! the choice tapes, the simulated clock, counters, the verdict and the event log.
use crate::sys;
use std::sync::atomic::{AtomicU32, Ordering};

pub const TAPE_W: usize = 0; // workload: what is simulated
pub const TAPE_F: usize = 1; // faults
pub const TAPE_S: usize = 2; // schedule
pub const TAPE_CAP: [usize; 3] = [1 << 18, 1 << 20, 1 << 22];
pub const NPROC: usize = 4;
pub const NCOV: usize = 1 << 17;
pub const NCNT: usize = 64;
pub const LOG_CAP: usize = 1 << 21;
pub const BLOB_CAP: usize = 1 << 20;
pub const NOTE_CAP: usize = 4096;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Fault {
    OpenFail,
    ReadEintr,
    ReadShort,
    ReadErr,
    WriteEintr,
    WriteShort,
    WriteErr,
    DiskFull,
    UnlinkFail,
    DirFail,
    SpawnFail,
    WaitEintr,
    WallTie,
    WallJump,
    WallPreEpoch,
    FutexSpurious,
    ThreadStall,
    Preempt,
    Crash,
    SolverCrash,
    SolverExit,
    SolverTorn,
    SolverCorrupt,
    SolverMissing,
    SolverSlow,
    CallbackPanic,
    PoolBusy,
    DirRace,
    Rejected,
    HashSeed,
    WriteZeroCap,
    ProcSwitch,
    WaitFail,
    SolverTalk,
    Count,
}
pub const FAULT_NAMES: [&str; Fault::Count as usize] = [
    "open_error", "read_eintr", "read_short", "read_error", "write_eintr", "write_short", "write_error",
    "disk_full", "unlink_error", "directory_error", "spawn_error", "wait_eintr", "clock_tie", "clock_jump",
    "clock_before_epoch", "spurious_wakeup", "thread_stall", "forced_preemption", "process_crash",
    "solver_crash", "solver_error_exit", "solver_torn_output", "solver_corrupt_output",
    "solver_missing_output", "solver_slow", "callback_panic", "pool_saturated", "foreign_file_race",
    "rejected_operation", "hash_seed_change", "tiny_disk", "process_switch",
    "wait_error", "solver_chatter",
];

#[repr(C)]
pub struct Tape {
    pub replay: u32,
    pub len: u32,
    pub cur: u32,
    pub over: u32,
    /// furthest position reached (the cursor may be moved back)
    pub max: u32,
    pub rng: u64,
}

#[repr(C)]
pub struct Proc {
    pub baton: AtomicU32,
    pub state: u32, // 0 unused, 1 ready, 2 blocked until `deadline`, 3 exited
    pub deadline: u64,
    pub pid: i32,
    pub wall_off: i64,
}

#[repr(C)]
pub struct Shared {
    pub tapes: [Tape; 3],
    pub now: u64,
    pub steps: u64,
    pub step_limit: u64,
    pub switches: u64,
    pub points: u64,
    pub trace_hash: u64,
    pub sched_hash: u64,
    pub active_proc: AtomicU32,
    pub procs: [Proc; NPROC],
    pub verdict: u32, // 0 undecided, 1 ok, 2 violation, 3 harness error
    pub class: [u8; 128],
    pub msg: [u8; 2048],
    pub note_len: u32,
    pub note: [u8; NOTE_CAP],
    pub faults: [u64; Fault::Count as usize],
    pub counters: [u64; NCNT],
    pub verbose: u32,
    pub log_len: u32,
    pub blob_len: u32,
    pub tape_w: [u32; TAPE_CAP[0]],
    pub tape_f: [u32; TAPE_CAP[1]],
    pub tape_s: [u32; TAPE_CAP[2]],
    pub cov: [u8; NCOV],
    pub log: [u8; LOG_CAP],
    pub blob: [u8; BLOB_CAP],
}

static mut SH: *mut Shared = std::ptr::null_mut();

pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SH }
}
pub fn mapped() -> bool {
    unsafe { !SH.is_null() }
}

/// Map the region (once per worker, before forking).
pub fn map() {
    unsafe {
        let p = sys::sc(libc::SYS_mmap, 0, std::mem::size_of::<Shared>(), 3, 0x21, usize::MAX, 0);
        assert!(p > 0, "mmap of the shared region failed");
        SH = p as *mut Shared;
    }
}

pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub enum Choices<'a> {
    Seed(u64),
    Tapes(&'a [Vec<u32>; 3]),
}

/// Reset everything but the coverage map for a new run.
pub fn reset(ch: &Choices, verbose: bool) {
    let s = sh();
    for t in 0..3 {
        let tp = &mut s.tapes[t];
        tp.cur = 0;
        tp.over = 0;
        tp.max = 0;
        match ch {
            Choices::Seed(seed) => {
                tp.replay = 0;
                tp.len = 0;
                tp.rng = splitmix(seed ^ splitmix(0xABCD + t as u64));
            }
            Choices::Tapes(ts) => {
                tp.replay = 1;
                tp.len = ts[t].len().min(TAPE_CAP[t]) as u32;
                for i in 0..tp.len as usize {
                    unsafe { *tape_ptr(t).add(i) = ts[t][i] }
                }
            }
        }
    }
    s.now = 0;
    s.steps = 0;
    s.step_limit = 1_200_000_000;
    s.switches = 0;
    s.points = 0;
    s.trace_hash = 0x1234;
    s.sched_hash = 0x5678;
    s.active_proc.store(0, Ordering::SeqCst);
    for (i, p) in s.procs.iter_mut().enumerate() {
        p.baton.store(0, Ordering::SeqCst);
        p.state = 0;
        p.deadline = 0;
        p.pid = 4000 + 17 * i as i32;
        p.wall_off = 0;
    }
    s.verdict = 0;
    s.class[0] = 0;
    s.msg[0] = 0;
    s.note_len = 0;
    s.faults = [0; Fault::Count as usize];
    s.counters = [0; NCNT];
    s.verbose = verbose as u32;
    s.log_len = 0;
    s.blob_len = 0;
}

fn tape_ptr(t: usize) -> *mut u32 {
    let s = sh();
    match t {
        0 => s.tape_w.as_mut_ptr(),
        1 => s.tape_f.as_mut_ptr(),
        _ => s.tape_s.as_mut_ptr(),
    }
}

/// The recorded tapes (after a run).
pub fn tapes() -> [Vec<u32>; 3] {
    let mut out = [vec![], vec![], vec![]];
    for t in 0..3 {
        let tp = &sh().tapes[t];
        let n = tp.cur.max(tp.max).min(tp.len).min(TAPE_CAP[t] as u32) as usize;
        out[t] = (0..n).map(|i| unsafe { *tape_ptr(t).add(i) }).collect();
    }
    out
}

/// Draw one choice: `gen` makes it from the PRNG in generation mode; in replay mode it comes from the
/// tape, and is 0 past its end. 0 is always the least eventful choice.
#[inline]
pub fn draw_with(t: usize, gen: impl FnOnce(&mut Rng) -> u32) -> u32 {
    let tp = &mut sh().tapes[t];
    let i = tp.cur as usize;
    tp.cur += 1;
    if tp.replay != 0 || i < (tp.len as usize).min(tp.max as usize) {
        if i < tp.len as usize {
            unsafe { *tape_ptr(t).add(i) }
        } else {
            0
        }
    } else {
        let mut r = Rng(tp.rng);
        let v = gen(&mut r);
        tp.rng = r.0;
        if i < TAPE_CAP[t] {
            unsafe { *tape_ptr(t).add(i) = v };
            tp.len = i as u32 + 1;
        } else {
            tp.over = 1;
        }
        v
    }
}

/// Go back to the start of a tape: the same choices are made again.
pub fn rewind(t: usize) {
    let tp = &mut sh().tapes[t];
    tp.max = tp.max.max(tp.cur);
    tp.cur = 0;
}
/// Go on with fresh choices after a `rewind`.
pub fn go_on(t: usize) {
    let tp = &mut sh().tapes[t];
    tp.cur = tp.cur.max(tp.max);
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        splitmix(self.0)
    }
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            0
        } else {
            ((self.next() >> 32) * n as u64 >> 32) as u32
        }
    }
}

pub fn draw(t: usize, n: u32) -> u32 {
    let v = draw_with(t, |r| r.below(n));
    if n == 0 {
        0
    } else {
        v.min(n - 1)
    }
}
/// True with probability num/den (recorded as 0/1).
pub fn chance(t: usize, num: u32, den: u32) -> bool {
    draw_with(t, |r| (r.below(den) < num) as u32) != 0
}

// workload choices
pub fn w(n: u32) -> u32 {
    draw(TAPE_W, n)
}
pub fn wr(lo: u32, hi: u32) -> u32 {
    lo + draw(TAPE_W, hi - lo + 1)
}
pub fn wc(num: u32, den: u32) -> bool {
    chance(TAPE_W, num, den)
}
/// A raw 32-bit value.
pub fn w32() -> u32 {
    draw_with(TAPE_W, |r| r.next() as u32)
}
// fault choices
pub fn f(n: u32) -> u32 {
    draw(TAPE_F, n)
}
pub fn fc(num: u32, den: u32) -> bool {
    chance(TAPE_F, num, den)
}

#[inline]
pub fn mix(v: u64) {
    let s = sh();
    s.trace_hash = (s.trace_hash ^ v).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
}

pub fn fault(k: Fault) {
    sh().faults[k as usize] += 1;
    mix(0xFA17 + k as u64);
}
pub fn count(i: usize, n: u64) {
    sh().counters[i] += n;
}

pub fn log_str(s: &str) {
    let shm = sh();
    if shm.verbose == 0 {
        return;
    }
    let b = s.as_bytes();
    let n = shm.log_len as usize;
    if n + b.len() + 1 < LOG_CAP {
        shm.log[n..n + b.len()].copy_from_slice(b);
        shm.log[n + b.len()] = b'\n';
        shm.log_len += b.len() as u32 + 1;
    }
}

#[macro_export]
macro_rules! ev {
    ($($a:tt)*) => {
        if $crate::shared::sh().verbose != 0 {
            $crate::sched::shielded(|| $crate::shared::log_str(&format!($($a)*)));
        }
    };
}

/// A short human-readable description of the case, for the evidence samples and replay files.
pub fn note(s: &str) {
    let shm = sh();
    let b = s.as_bytes();
    let n = shm.note_len as usize;
    let k = b.len().min(NOTE_CAP.saturating_sub(n + 2));
    shm.note[n..n + k].copy_from_slice(&b[..k]);
    shm.note[n + k] = b' ';
    shm.note_len += k as u32 + 1;
}

fn put(dst: &mut [u8], s: &str) {
    let n = s.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    dst[n] = 0;
}
fn get(src: &[u8]) -> String {
    let n = src.iter().position(|c| *c == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}

pub fn set_verdict(kind: u32, class: &str, msg: &str) {
    let s = sh();
    if s.verdict == 0 || (s.verdict == 1 && kind > 1) {
        put(&mut s.class, class);
        put(&mut s.msg, msg);
        s.verdict = kind;
    }
}
pub fn class() -> String {
    get(&sh().class)
}
pub fn msg() -> String {
    get(&sh().msg)
}
pub fn note_text() -> String {
    let s = sh();
    String::from_utf8_lossy(&s.note[..s.note_len as usize]).trim().to_string()
}
pub fn log_text() -> String {
    let s = sh();
    String::from_utf8_lossy(&s.log[..s.log_len as usize]).into_owned()
}

/// The property is violated: record it and end the run here.
pub fn fail(class: &str, msg: &str) -> ! {
    set_verdict(2, class, msg);
    sys::exit_group(0)
}
/// The harness cannot go on (never counts as a violation).
pub fn harness_error(msg: &str) -> ! {
    set_verdict(3, "harness", msg);
    sys::exit_group(0)
}
pub fn blob_set(b: &[u8]) {
    let s = sh();
    let n = b.len().min(BLOB_CAP);
    s.blob[..n].copy_from_slice(&b[..n]);
    s.blob_len = n as u32;
}
pub fn blob_get() -> Vec<u8> {
    let s = sh();
    s.blob[..s.blob_len as usize].to_vec()
}
