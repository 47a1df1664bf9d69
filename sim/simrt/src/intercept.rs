//! The libc entry points the simulator owns. Each one passes straight through when the calling thread is
//! not part of a simulation.
use crate::sched::*;
use crate::shared::*;
use crate::sys;
use libc::{c_char, c_int, c_long, c_void};

// ---- coverage / preemption callbacks of the instrumented crates

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    unsafe { edge(*g) }
}
static mut NGUARD: u32 = 0;
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    unsafe {
        if a == b || *a != 0 {
            return;
        }
        while a < b {
            NGUARD += 1;
            *a = NGUARD;
            a = a.add(1);
        }
    }
}
pub fn edges_total() -> u32 {
    unsafe { NGUARD }
}

// ---- futex (std's locks, condvars and parkers go through the variadic `syscall`)

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex && simulated() {
        let op = b as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        match op {
            0 | 9 => {
                let bitset = if op == 9 { f as u32 } else { u32::MAX };
                let deadline = if d == 0 {
                    u64::MAX
                } else {
                    let ts = &*(d as *const libc::timespec);
                    let t = (ts.tv_sec as u64).saturating_mul(1_000_000_000).saturating_add(ts.tv_nsec as u64);
                    if op == 9 {
                        let n = now();
                        n.saturating_add(late(t.saturating_sub(MONO_BASE).saturating_sub(n))).max(1)
                    } else {
                        now().saturating_add(late(t))
                    }
                };
                return sys::ret(futex_wait(a, c as u32, bitset, deadline)) as c_long;
            }
            1 => return futex_wake(a, c as u32, u32::MAX) as c_long,
            10 => return futex_wake(a, c as u32, f as u32) as c_long,
            _ => harness_error("unsupported futex operation"),
        }
    }
    if n == libc::SYS_getrandom && simulated() {
        return getrandom(a as *mut c_void, b, 0) as c_long;
    }
    sys::ret(sys::sc(n, a, b, c, d, e, f)) as c_long
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if simulated() {
        yielded();
        point(Why::Yield);
        0
    } else {
        sys::ret(sys::sc(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
    }
}

// ---- threads

#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut u64, attr: *const c_void, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    if !simulated() {
        return real_fn_create()(out, attr, f, arg);
    }
    let kind = NEXT_KIND.take().unwrap_or(th(me()).kind);
    let r = create(out, attr, f, arg, kind);
    if r == 0 {
        point(Why::Wake);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: u64, rv: *mut *mut c_void) -> c_int {
    if simulated() {
        if let Some(tid) = find_pthread(t) {
            join(tid);
            let real = crate::real_fn!("pthread_join", unsafe extern "C" fn(u64, *mut *mut c_void) -> c_int);
            let r = real(t, rv);
            crate::sched::gone(tid);
            return r;
        }
    }
    let real = crate::real_fn!("pthread_join", unsafe extern "C" fn(u64, *mut *mut c_void) -> c_int);
    real(t, rv)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: u64) -> c_int {
    if simulated() {
        if let Some(tid) = find_pthread(t) {
            crate::sched::detach(tid);
        }
    }
    let real = crate::real_fn!("pthread_detach", unsafe extern "C" fn(u64) -> c_int);
    real(t)
}

// ---- clocks and sleeping

pub const MONO_BASE: u64 = 1_000_000_000_000;
pub const WALL_BASE: i128 = 1_700_000_000_123_456_789;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum WallMode {
    Normal,
    Coarse(u64),
    Frozen,
    Jumpy,
    PreEpoch,
}
pub static mut WALL: WallMode = WallMode::Normal;
static mut LAST_WALL: i128 = WALL_BASE;

pub fn set_wall(m: WallMode) {
    unsafe { WALL = m }
}

fn wall_now() -> i128 {
    let p = unsafe { PROC };
    let t = WALL_BASE + sh().now as i128 + sh().procs[p].wall_off as i128;
    let mode = unsafe { WALL };
    if mode == WallMode::Normal || !faultable() {
        return t;
    }
    let v = match mode {
        WallMode::Normal => t,
        WallMode::Coarse(g) => {
            let v = t - t.rem_euclid(g as i128);
            if v == unsafe { LAST_WALL } {
                fault(Fault::WallTie);
            }
            v
        }
        WallMode::Frozen => {
            fault(Fault::WallTie);
            WALL_BASE
        }
        WallMode::PreEpoch => {
            fault(Fault::WallPreEpoch);
            -5_000_000_000 + (t - WALL_BASE)
        }
        WallMode::Jumpy => match f(8) {
            1 => {
                fault(Fault::WallJump);
                sh().procs[p].wall_off -= 3_600_000_000_000;
                t - 3_600_000_000_000
            }
            2 => {
                fault(Fault::WallJump);
                sh().procs[p].wall_off += 86_400_000_000_000;
                t + 86_400_000_000_000
            }
            3 | 4 => {
                fault(Fault::WallTie);
                unsafe { LAST_WALL }
            }
            5 => {
                fault(Fault::WallPreEpoch);
                -1_000_000_001
            }
            6 => {
                fault(Fault::WallJump);
                unsafe { LAST_WALL - 1 }
            }
            _ => t,
        },
    };
    unsafe { LAST_WALL = v };
    ev!("[{} us] wall clock read: {} ns", now() / 1000, v);
    v
}

/// The time files are stamped with.
pub fn wall_file() -> i128 {
    let t = WALL_BASE + sh().now as i128 + sh().procs[unsafe { PROC }].wall_off as i128;
    match unsafe { WALL } {
        WallMode::PreEpoch => -5_000_000_000 + (t - WALL_BASE),
        WallMode::Frozen => WALL_BASE,
        _ => t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if simulated() {
        match clk {
            0 | 5 => {
                if faultable() {
                    tick(50);
                }
                let t = wall_now();
                (*ts).tv_sec = t.div_euclid(1_000_000_000) as i64;
                (*ts).tv_nsec = t.rem_euclid(1_000_000_000) as i64;
                return 0;
            }
            1 | 4 | 6 | 7 => {
                tick(50);
                let t = MONO_BASE + now();
                (*ts).tv_sec = (t / 1_000_000_000) as i64;
                (*ts).tv_nsec = (t % 1_000_000_000) as i64;
                return 0;
            }
            _ => {}
        }
    }
    sys::ret(sys::sc(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if simulated() {
        let t = wall_now();
        (*tv).tv_sec = t.div_euclid(1_000_000_000) as i64;
        (*tv).tv_usec = (t.rem_euclid(1_000_000_000) / 1000) as i64;
        return 0;
    }
    sys::ret(sys::sc(libc::SYS_gettimeofday, tv as usize, tz as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let mut ts = std::mem::zeroed::<libc::timespec>();
    clock_gettime(0, &mut ts);
    if !p.is_null() {
        *p = ts.tv_sec;
    }
    ts.tv_sec
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if simulated() {
        sleep(late((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64));
        return 0;
    }
    sys::ret(sys::sc(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if simulated() {
        let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        if flags & 1 != 0 {
            let t = if clk == 0 { t.saturating_sub(WALL_BASE as u64) } else { t.saturating_sub(MONO_BASE) };
            sleep_until(t);
        } else {
            sleep(late(t));
        }
        return 0;
    }
    -(sys::sc(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int)
}

// ---- randomness, identity, machine size

pub static mut HASH_SEED: u64 = 0;
static mut HASH_CTR: u64 = 0;
pub fn set_hash_seed(s: u64) {
    unsafe {
        HASH_SEED = s;
        HASH_CTR = 0;
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    if simulated() {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for c in b.chunks_mut(8) {
            HASH_CTR += 1;
            let v = splitmix(HASH_SEED ^ splitmix(HASH_CTR)).to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
        return len as isize;
    }
    sys::ret(sys::sc(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if simulated() {
        return sh().procs[PROC].pid;
    }
    sys::sc(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as c_int
}

pub static mut NCPU: u32 = 4;

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: c_int, size: usize, set: *mut c_void) -> c_int {
    if simulated() {
        let b = std::slice::from_raw_parts_mut(set as *mut u8, size);
        b.fill(0);
        for i in 0..NCPU as usize {
            b[i / 8] |= 1 << (i % 8);
        }
        return 0;
    }
    let r = sys::sc(libc::SYS_sched_getaffinity, pid as usize, size, set as usize, 0, 0, 0);
    if r < 0 {
        return sys::ret(r) as c_int;
    }
    let b = std::slice::from_raw_parts_mut(set as *mut u8, size);
    for x in b[(r as usize).min(size)..].iter_mut() {
        *x = 0;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn sysconf(name: c_int) -> c_long {
    if simulated() && (name == libc::_SC_NPROCESSORS_ONLN || name == libc::_SC_NPROCESSORS_CONF) {
        return NCPU as c_long;
    }
    let real = crate::real_fn!("sysconf", unsafe extern "C" fn(c_int) -> c_long);
    real(name)
}

// ---- processes: fork/exec never escape a simulation

#[no_mangle]
pub unsafe extern "C" fn fork() -> c_int {
    if simulated() {
        harness_error("the system under test called fork(), which is not simulated");
    }
    let real = crate::real_fn!("fork", unsafe extern "C" fn() -> c_int);
    real()
}
#[no_mangle]
pub unsafe extern "C" fn vfork() -> c_int {
    if simulated() {
        harness_error("the system under test called vfork(), which is not simulated");
    }
    fork()
}
#[no_mangle]
pub unsafe extern "C" fn execvp(f: *const c_char, a: *const *const c_char) -> c_int {
    if active() {
        harness_error("the system under test called execvp(), which is not simulated");
    }
    let real = crate::real_fn!("execvp", unsafe extern "C" fn(*const c_char, *const *const c_char) -> c_int);
    real(f, a)
}
