//! Pipes between the system under test and its child processes: real pipes that never block, so that a
//! thread which has to wait gives way to the others, and a wait that nobody ends is seen as a hang.
use crate::sched::*;
use crate::sys;
use libc::{c_int, c_void};
use std::sync::atomic::{AtomicU32, Ordering};

const MAXFD: usize = 1024;
/// 1 + number of the pipe.
static mut PIPE: [u16; MAXFD] = [0; MAXFD];
static mut NONBLOCK: [bool; MAXFD] = [false; MAXFD];
/// Counts everything that happens to a pipe.
static GEN: [AtomicU32; 64] = [const { AtomicU32::new(0) }; 64];
static mut NEXT: u16 = 0;

pub fn is(fd: c_int) -> bool {
    fd >= 0 && (fd as usize) < MAXFD && unsafe { PIPE[fd as usize] != 0 }
}
fn gen(fd: c_int) -> &'static AtomicU32 {
    &GEN[unsafe { PIPE[fd as usize] as usize - 1 } % 64]
}
fn happened(g: &'static AtomicU32) {
    g.fetch_add(1, Ordering::SeqCst);
    futex_wake(g as *const _ as usize, u32::MAX, u32::MAX);
}
fn wait(g: &'static AtomicU32, seen: u32) {
    futex_wait(g as *const _ as usize, seen, u32::MAX, u64::MAX);
}
fn register(fd: c_int, p: u16, nonblock: bool) {
    if fd < 0 || fd as usize >= MAXFD {
        crate::shared::harness_error("too many descriptors");
    }
    unsafe {
        PIPE[fd as usize] = p;
        NONBLOCK[fd as usize] = nonblock;
    }
}
/// The child's copy of an end.
pub fn inherit(fd: c_int) -> c_int {
    let r = unsafe { sys::sc(libc::SYS_fcntl, fd as usize, libc::F_DUPFD_CLOEXEC as usize, 3, 0, 0, 0) } as c_int;
    register(r, unsafe { PIPE[fd as usize] }, false);
    r
}
pub unsafe fn close(fd: c_int) -> c_int {
    let g = gen(fd);
    PIPE[fd as usize] = 0;
    let r = sys::sc(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0);
    happened(g);
    sys::ret(r) as c_int
}
pub unsafe fn controlled(fd: c_int, cmd: c_int, arg: usize, r: c_int) {
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC if r >= 0 => register(r, PIPE[fd as usize], NONBLOCK[fd as usize]),
        libc::F_SETFL => {
            NONBLOCK[fd as usize] = arg & libc::O_NONBLOCK as usize != 0;
            sys::sc(libc::SYS_fcntl, fd as usize, libc::F_SETFL as usize, arg | libc::O_NONBLOCK as usize, 0, 0, 0);
        }
        _ => {}
    }
}
pub unsafe fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    loop {
        let g = gen(fd);
        let seen = g.load(Ordering::SeqCst);
        let r = sys::sc(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0);
        if r != -(libc::EAGAIN as i64) || NONBLOCK[fd as usize] {
            if r > 0 {
                happened(g);
            } else {
                point(Why::Io);
            }
            return sys::ret(r) as isize;
        }
        wait(g, seen);
    }
}
pub unsafe fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let mut done = 0;
    while done < n {
        let g = gen(fd);
        let seen = g.load(Ordering::SeqCst);
        let r = sys::sc(libc::SYS_write, fd as usize, buf as usize + done, n - done, 0, 0, 0);
        if r >= 0 {
            done += r as usize;
            happened(g);
        } else if r != -(libc::EAGAIN as i64) {
            return if done > 0 { done as isize } else { sys::ret(r) as isize };
        } else if NONBLOCK[fd as usize] {
            if done > 0 {
                break;
            }
            return sys::ret(r) as isize;
        } else {
            wait(g, seen);
        }
    }
    done as isize
}
/// A child process writes `n` bytes; false if nobody reads them any more.
pub fn fill(fd: c_int, n: usize) -> bool {
    let block = [b'.'; 4096];
    let mut left = n;
    while left > 0 {
        let k = left.min(block.len());
        let r = unshielded(|| unsafe { write(fd, block.as_ptr() as *const c_void, k) });
        if r <= 0 {
            return false;
        }
        left -= r as usize;
    }
    true
}

#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, flags: c_int) -> c_int {
    let sim = simulated();
    let r = sys::sc(libc::SYS_pipe2, fds as usize, (flags | if sim { libc::O_NONBLOCK } else { 0 }) as usize, 0, 0, 0, 0);
    if sim && r == 0 {
        NEXT += 1;
        for i in 0..2 {
            register(*fds.add(i), NEXT, flags & libc::O_NONBLOCK != 0);
        }
    }
    sys::ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    if simulated() && is(fd) && req == libc::FIONBIO {
        NONBLOCK[fd as usize] = *(arg as *const c_int) != 0;
        return 0;
    }
    sys::ret(sys::sc(libc::SYS_ioctl, fd as usize, req as usize, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    let any = simulated() && (0..n as usize).any(|i| is((*fds.add(i)).fd));
    let raw = |t: c_int| sys::ret(sys::sc(libc::SYS_poll, fds as usize, n as usize, t as isize as usize, 0, 0, 0)) as c_int;
    if !any {
        return raw(timeout);
    }
    let end = now().saturating_add(if timeout < 0 { u64::MAX / 2 } else { timeout as u64 * 1_000_000 });
    loop {
        point(Why::Io);
        let r = raw(0);
        if r != 0 || now() >= end {
            return r;
        }
        sleep(late(50_000));
    }
}
