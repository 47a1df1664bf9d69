//! The simulated disk: the system under test sees `/simfs/...`, which is a scratch directory; every
//! operation on it is a scheduling point and may be made to fail, be interrupted or be cut short.
use crate::sched::*;
use crate::shared::*;
use crate::sys;
use libc::{c_char, c_int, c_void};
use std::ffi::CStr;

pub const VROOT: &str = "/simfs";
/// Where on the simulated disk `/tmp` is.
pub const TMP: &str = "/.tmp";
static mut ROOT: [u8; 256] = [0; 256];
static mut ROOT_LEN: usize = 0;

/// Where `/simfs` really is.
pub fn set_root(real: &str) {
    unsafe {
        let r = &mut *std::ptr::addr_of_mut!(ROOT);
        r[..real.len()].copy_from_slice(real.as_bytes());
        ROOT_LEN = real.len();
    }
}
pub fn root() -> String {
    unsafe { String::from_utf8_lossy(&(&*std::ptr::addr_of!(ROOT))[..ROOT_LEN]).into_owned() }
}
/// The real path behind a path of the simulated disk.
pub fn real_path(v: &str) -> String {
    format!("{}{}", root(), v.strip_prefix(VROOT).expect("not a simulated path"))
}

#[derive(Clone, Copy)]
pub struct FsFaults {
    pub mask: u64,          // Fault kinds enabled
    pub rate: u32,          // per mille per operation
    pub budget: u32,        // how many may still be injected
    pub one_at: u32,        // 0: use `rate`; else: only the one_at-th eligible operation fails
    pub ops: u32,
    pub full_after: u64,    // disk capacity in bytes still available (u64::MAX: unlimited)
}
pub const NO_FAULTS: FsFaults = FsFaults { mask: 0, rate: 0, budget: 0, one_at: 0, ops: 0, full_after: u64::MAX };
pub static mut FAULTS: FsFaults = NO_FAULTS;
/// Only paths containing this are subject to faults (None: all).
pub fn cfg() -> &'static mut FsFaults {
    unsafe { &mut *std::ptr::addr_of_mut!(FAULTS) }
}
pub fn set_faults(c: FsFaults) {
    *cfg() = c;
}
pub fn bit(k: Fault) -> u64 {
    1 << k as u64
}
/// Faults of the current process that were actually injected into FS/spawn calls so far.
pub static mut INJECTED: u32 = 0;
pub static mut HARD: u32 = 0; // injected faults that the caller cannot retry away
pub fn injected() -> u32 {
    unsafe { INJECTED }
}
pub fn hard() -> u32 {
    unsafe { HARD }
}
pub fn clear_injected() {
    unsafe {
        INJECTED = 0;
        HARD = 0;
    }
}

/// Decide whether one of `kinds` hits this operation.
pub fn decide(kinds: &[Fault]) -> Option<Fault> {
    if !faultable() {
        return None;
    }
    let c = cfg();
    if c.mask == 0 || c.budget == 0 {
        return None;
    }
    let mut n = 0;
    let mut en = [Fault::Count; 8];
    for k in kinds {
        if c.mask & bit(*k) != 0 {
            en[n] = *k;
            n += 1;
        }
    }
    if n == 0 {
        return None;
    }
    c.ops += 1;
    let v = if c.one_at != 0 {
        if c.ops == c.one_at {
            draw_with(TAPE_F, |r| 1 + r.below(n as u32))
        } else {
            draw_with(TAPE_F, |_| 0)
        }
    } else {
        draw_with(TAPE_F, |r| if r.below(1000) < c.rate { 1 + r.below(n as u32) } else { 0 })
    };
    if v == 0 {
        return None;
    }
    let k = en[(v as usize - 1).min(n - 1)];
    c.budget -= 1;
    unsafe { INJECTED += 1 };
    if !matches!(k, Fault::ReadEintr | Fault::ReadShort | Fault::WriteEintr | Fault::WriteShort | Fault::WaitEintr) {
        unsafe { HARD += 1 };
    }
    fault(k);
    Some(k)
}

// ---------------------------------------------------------------- path mapping

enum Mapped {
    Sim([u8; 1024]),
    Other,
}
unsafe fn map(p: *const c_char) -> Mapped {
    let b = CStr::from_ptr(p).to_bytes();
    // the system under test has a /tmp of its own
    let temp = (b.starts_with(b"/tmp/") || b == b"/tmp") && faultable();
    if temp || b.starts_with(b"/simfs/") || b == b"/simfs" {
        let mut out = [0u8; 1024];
        let r = &*std::ptr::addr_of!(ROOT);
        out[..ROOT_LEN].copy_from_slice(&r[..ROOT_LEN]);
        let own: Vec<u8>;
        let rest = if temp {
            own = [TMP.as_bytes(), &b[4..]].concat();
            &own[..]
        } else {
            &b[6..]
        };
        if ROOT_LEN + rest.len() >= 1023 {
            return Mapped::Other;
        }
        out[ROOT_LEN..ROOT_LEN + rest.len()].copy_from_slice(rest);
        Mapped::Sim(out)
    } else {
        Mapped::Other
    }
}
unsafe fn show(p: *const c_char) -> String {
    String::from_utf8_lossy(CStr::from_ptr(p).to_bytes()).into_owned()
}

/// Real descriptors that belong to the simulated disk.
const MAXFD: usize = 1024;
static mut FD_SIM: [u8; MAXFD] = [0; MAXFD];
fn fd_sim(fd: c_int) -> bool {
    fd >= 0 && (fd as usize) < MAXFD && unsafe { FD_SIM[fd as usize] != 0 }
}
pub fn open_sim_fds() -> usize {
    unsafe { (*std::ptr::addr_of!(FD_SIM)).iter().filter(|x| **x == 1).count() }
}
static mut ESCAPES: u32 = 0;
pub fn escapes() -> u32 {
    unsafe { ESCAPES }
}

unsafe fn do_open(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let m = simulated();
    if !m {
        return sys::ret(sys::sc(libc::SYS_openat, libc::AT_FDCWD as isize as usize, p as usize, flags as usize, mode as usize, 0, 0)) as c_int;
    }
    match map(p) {
        Mapped::Sim(rp) => {
            point(Why::Io);
            if let Some(Fault::OpenFail) = decide(&[Fault::OpenFail]) {
                let errs = [libc::EIO, libc::EMFILE, libc::EACCES, libc::ENFILE];
                let e = errs[f(4) as usize];
                ev!("[{} us] open({}) fails: errno {}", now() / 1000, show(p), e);
                sys::set_errno(e);
                return -1;
            }
            // a full disk cannot create files either
            if faultable() && flags & libc::O_CREAT != 0 && cfg().full_after == 0 {
                let exists = sys::sc(libc::SYS_access, rp.as_ptr() as usize, 0, 0, 0, 0, 0) == 0;
                if !exists {
                    fault(Fault::DiskFull);
                    INJECTED += 1;
                    HARD += 1;
                    ev!("[{} us] open({}) fails: disk full", now() / 1000, show(p));
                    sys::set_errno(libc::ENOSPC);
                    return -1;
                }
            }
            let fd = sys::sc(libc::SYS_openat, libc::AT_FDCWD as isize as usize, rp.as_ptr() as usize, flags as usize, mode as usize, 0, 0);
            if fd >= 0 && (fd as usize) < MAXFD {
                FD_SIM[fd as usize] = if faultable() { 1 } else { 2 };
                if flags & libc::O_TRUNC != 0 || flags & libc::O_CREAT != 0 {
                    stamp(fd as c_int);
                }
            }
            if faultable() {
                ev!("[{} us] T{} open({}, {}{}) = {}", now() / 1000, me(), show(p), if flags & 3 == 0 { "read" } else { "write" }, if flags & libc::O_EXCL != 0 { ", new" } else { "" }, fd);
            }
            sys::ret(fd) as c_int
        }
        Mapped::Other => {
            let b = CStr::from_ptr(p).to_bytes();
            let machine = b.starts_with(b"/proc/") || b.starts_with(b"/sys/");
            if machine && th(me()).kind == Kind::Sut {
                sys::set_errno(libc::ENOENT);
                return -1;
            }
            if faultable() && flags & 3 != 0 && b != b"/dev/null" {
                ESCAPES += 1;
                sys::set_errno(libc::EACCES);
                return -1;
            }
            sys::ret(sys::sc(libc::SYS_openat, libc::AT_FDCWD as isize as usize, p as usize, flags as usize, mode as usize, 0, 0)) as c_int
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(p, flags, mode)
}

/// Relative to an open directory of the simulated disk, or a path.
unsafe fn do_openat(dir: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if dir == libc::AT_FDCWD || *p as u8 == b'/' {
        return do_open(p, flags, mode);
    }
    let sim = simulated() && fd_sim(dir);
    if sim {
        point(Why::Io);
        if decide(&[Fault::OpenFail]).is_some() {
            sys::set_errno(libc::EIO);
            return -1;
        }
    }
    let fd = sys::sc(libc::SYS_openat, dir as usize, p as usize, flags as usize, mode as usize, 0, 0);
    if sim && fd >= 0 && (fd as usize) < MAXFD {
        FD_SIM[fd as usize] = if faultable() { 1 } else { 2 };
    }
    sys::ret(fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_openat(dir, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_openat(dir, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, p: *const c_char, flags: c_int) -> c_int {
    if dir == libc::AT_FDCWD || *p as u8 == b'/' {
        return if flags & libc::AT_REMOVEDIR != 0 { rmdir(p) } else { unlink(p) };
    }
    if simulated() && fd_sim(dir) {
        point(Why::Io);
        if decide(&[Fault::UnlinkFail]).is_some() {
            sys::set_errno([libc::EACCES, libc::EBUSY, libc::EIO][f(3) as usize]);
            return -1;
        }
        ev!("[{} us] T{} unlinkat(fd {}, {})", now() / 1000, me(), dir, show(p));
    }
    sys::ret(sys::sc(libc::SYS_unlinkat, dir as usize, p as usize, flags as usize, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if simulated() && crate::pipe::is(fd) {
        return crate::pipe::close(fd);
    }
    if simulated() && fd_sim(fd) {
        let own = FD_SIM[fd as usize];
        FD_SIM[fd as usize] = 0;
        let r = sys::sc(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0);
        if own == 1 {
            point(Why::Io);
        }
        return sys::ret(r) as c_int;
    }
    sys::ret(sys::sc(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let mut n = n;
    if simulated() && crate::pipe::is(fd) {
        return crate::pipe::read(fd, buf, n);
    }
    if simulated() && fd_sim(fd) {
        point(Why::Io);
        match decide(&[Fault::ReadEintr, Fault::ReadShort, Fault::ReadErr]) {
            Some(Fault::ReadEintr) => {
                ev!("[{} us] read(fd {}) interrupted", now() / 1000, fd);
                sys::set_errno(libc::EINTR);
                return -1;
            }
            Some(Fault::ReadErr) => {
                ev!("[{} us] read(fd {}) fails: EIO", now() / 1000, fd);
                sys::set_errno(libc::EIO);
                return -1;
            }
            Some(Fault::ReadShort) if n > 1 => {
                n = 1 + f((n as u32 - 1).min(64)) as usize;
                ev!("[{} us] read(fd {}) cut to {} bytes", now() / 1000, fd, n);
            }
            _ => {}
        }
    }
    sys::ret(sys::sc(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0)) as isize
}

/// How many of `n` bytes this write may store (Err: errno).
unsafe fn write_faults(fd: c_int, n: usize) -> Result<usize, c_int> {
    point(Why::Io);
    let mut n = n;
    match decide(&[Fault::WriteEintr, Fault::WriteShort, Fault::WriteErr]) {
        Some(Fault::WriteEintr) => {
            ev!("[{} us] write(fd {}) interrupted", now() / 1000, fd);
            return Err(libc::EINTR);
        }
        Some(Fault::WriteErr) => {
            let e = [libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG][f(4) as usize];
            ev!("[{} us] write(fd {}, {} bytes) fails: errno {}", now() / 1000, fd, n, e);
            return Err(e);
        }
        Some(Fault::WriteShort) if n > 1 => {
            n = 1 + f(n as u32 - 1) as usize;
            ev!("[{} us] write(fd {}) cut to {} bytes", now() / 1000, fd, n);
        }
        _ => {}
    }
    if faultable() {
        let c = cfg();
        if c.full_after != u64::MAX {
            if (n as u64) > c.full_after {
                fault(Fault::DiskFull);
                INJECTED += 1;
                HARD += 1;
                n = c.full_after as usize;
                ev!("[{} us] write(fd {}): disk full after {} bytes", now() / 1000, fd, n);
                if n == 0 {
                    return Err(libc::ENOSPC);
                }
            }
            c.full_after -= n as u64;
        }
    }
    Ok(n)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let mut k = n;
    if simulated() && crate::pipe::is(fd) {
        return crate::pipe::write(fd, buf, n);
    }
    if simulated() {
        if fd_sim(fd) {
            if n > 0 {
                match write_faults(fd, n) {
                    Ok(m) => k = m,
                    Err(e) => {
                        sys::set_errno(e);
                        return -1;
                    }
                }
            }
        } else if (fd == 1 || fd == 2) && shield_depth() == 0 {
            return n as isize; // the system's own chatter
        }
    }
    let r = sys::ret(sys::sc(libc::SYS_write, fd as usize, buf as usize, k, 0, 0, 0)) as isize;
    stamp(fd);
    r
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> isize {
    if simulated() && fd_sim(fd) {
        let v = std::slice::from_raw_parts(iov, cnt as usize);
        let total: usize = v.iter().map(|x| x.iov_len).sum();
        let mut left = match write_faults(fd, total) {
            Ok(m) => m,
            Err(e) => {
                sys::set_errno(e);
                return -1;
            }
        };
        let mut done = 0;
        for x in v {
            let k = x.iov_len.min(left);
            if k == 0 {
                continue;
            }
            let r = sys::sc(libc::SYS_write, fd as usize, x.iov_base as usize, k, 0, 0, 0);
            if r < 0 {
                return if done > 0 { done } else { sys::ret(r) as isize };
            }
            done += r as isize;
            left -= r as usize;
        }
        stamp(fd);
        return done;
    }
    if simulated() && (fd == 1 || fd == 2) && shield_depth() == 0 {
        let v = std::slice::from_raw_parts(iov, cnt as usize);
        return v.iter().map(|x| x.iov_len).sum::<usize>() as isize;
    }
    sys::ret(sys::sc(libc::SYS_writev, fd as usize, iov as usize, cnt as usize, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    let mut k = n;
    if simulated() && fd_sim(fd) && n > 0 {
        match write_faults(fd, n) {
            Ok(m) => k = m,
            Err(e) => {
                sys::set_errno(e);
                return -1;
            }
        }
    }
    let r = sys::ret(sys::sc(libc::SYS_pwrite64, fd as usize, buf as usize, k, off as usize, 0, 0)) as isize;
    stamp(fd);
    r
}

unsafe fn sync_fault(fd: c_int) -> bool {
    if simulated() && fd_sim(fd) {
        point(Why::Io);
        if let Some(Fault::WriteErr) = decide(&[Fault::WriteErr]) {
            ev!("[{} us] fsync(fd {}) fails: EIO", now() / 1000, fd);
            sys::set_errno(libc::EIO);
            return true;
        }
    }
    false
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if sync_fault(fd) {
        return -1;
    }
    sys::ret(sys::sc(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if sync_fault(fd) {
        return -1;
    }
    sys::ret(sys::sc(libc::SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0)) as c_int
}

/// Names removed from the simulated disk by the system under test, as "path\n" (checked by oracles).
pub static mut ON_UNLINK: Option<fn(&str)> = None;

unsafe fn path_op(p: *const c_char, nr: i64, a2: usize, what: &str, fk: &[Fault]) -> c_int {
    if simulated() {
        if let Mapped::Sim(rp) = map(p) {
            point(Why::Io);
            if decide(fk).is_some() {
                let e = [libc::EIO, libc::EACCES, libc::EBUSY, libc::EPERM][f(4) as usize];
                ev!("[{} us] {}({}) fails: errno {}", now() / 1000, what, show(p), e);
                sys::set_errno(e);
                return -1;
            }
            let r = sys::sc(nr, rp.as_ptr() as usize, a2, 0, 0, 0, 0);
            if faultable() {
                ev!("[{} us] T{} {}({}) = {}", now() / 1000, me(), what, show(p), r);
                if r == 0 && nr == libc::SYS_unlink {
                    if let Some(h) = ON_UNLINK {
                        let s = show(p);
                        shielded(|| h(&s));
                    }
                }
            }
            return sys::ret(r) as c_int;
        }
        if faultable() {
            ESCAPES += 1;
            sys::set_errno(libc::EACCES);
            return -1;
        }
    }
    sys::ret(sys::sc(nr, p as usize, a2, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    path_op(p, libc::SYS_unlink, 0, "unlink", &[Fault::UnlinkFail])
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    path_op(p, libc::SYS_rmdir, 0, "rmdir", &[Fault::UnlinkFail])
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: u32) -> c_int {
    path_op(p, libc::SYS_mkdir, mode as usize, "mkdir", &[Fault::OpenFail])
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: u32) -> c_int {
    path_op(p, libc::SYS_chmod, mode as usize, "chmod", &[])
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if simulated() {
        if let (Mapped::Sim(ra), Mapped::Sim(rb)) = (map(a), map(b)) {
            point(Why::Io);
            if decide(&[Fault::OpenFail]).is_some() {
                sys::set_errno(libc::EIO);
                return -1;
            }
            ev!("[{} us] rename({}, {})", now() / 1000, show(a), show(b));
            return sys::ret(sys::sc(libc::SYS_rename, ra.as_ptr() as usize, rb.as_ptr() as usize, 0, 0, 0, 0)) as c_int;
        }
        if faultable() {
            ESCAPES += 1;
            sys::set_errno(libc::EACCES);
            return -1;
        }
    }
    sys::ret(sys::sc(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if simulated() {
        if let (Mapped::Sim(ra), Mapped::Sim(rb)) = (map(a), map(b)) {
            point(Why::Io);
            if decide(&[Fault::OpenFail]).is_some() {
                sys::set_errno(libc::EIO);
                return -1;
            }
            ev!("[{} us] link({}, {})", now() / 1000, show(a), show(b));
            return sys::ret(sys::sc(libc::SYS_link, ra.as_ptr() as usize, rb.as_ptr() as usize, 0, 0, 0, 0)) as c_int;
        }
        if faultable() {
            ESCAPES += 1;
            sys::set_errno(libc::EACCES);
            return -1;
        }
    }
    sys::ret(sys::sc(libc::SYS_link, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if simulated() && fd_sim(fd) {
        point(Why::Io);
        if decide(&[Fault::WriteErr]).is_some() {
            ev!("[{} us] ftruncate(fd {}) fails: EIO", now() / 1000, fd);
            sys::set_errno(libc::EIO);
            return -1;
        }
    }
    let r = sys::ret(sys::sc(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0)) as c_int;
    stamp(fd);
    r
}

/// A second descriptor of a simulated file belongs to the simulated disk as well.
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let r = sys::ret(sys::sc(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int;
    if (cmd == libc::F_DUPFD_CLOEXEC || cmd == libc::F_DUPFD) && r >= 0 && (r as usize) < MAXFD && simulated() && fd_sim(fd) {
        FD_SIM[r as usize] = FD_SIM[fd as usize];
    }
    if simulated() && crate::pipe::is(fd) {
        crate::pipe::controlled(fd, cmd, arg, r);
    }
    r
}

/// Advisory locks: a thread that has to wait must not stop the others.
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if simulated() && fd_sim(fd) {
        loop {
            point(Why::Io);
            let r = sys::sc(libc::SYS_flock, fd as usize, (op | libc::LOCK_NB) as usize, 0, 0, 0, 0);
            if r != -(libc::EWOULDBLOCK as i64) || op & libc::LOCK_NB != 0 {
                return sys::ret(r) as c_int;
            }
            sleep(50_000);
        }
    }
    sys::ret(sys::sc(libc::SYS_flock, fd as usize, op as usize, 0, 0, 0, 0)) as c_int
}

/// Copies inside the kernel would bypass the faults: unsupported on the simulated disk, so that std reads and writes.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(i: c_int, io: *mut i64, o: c_int, oo: *mut i64, n: usize, fl: u32) -> isize {
    if simulated() && (fd_sim(i) || fd_sim(o)) {
        sys::set_errno(libc::ENOSYS);
        return -1;
    }
    sys::ret(sys::sc(libc::SYS_copy_file_range, i as usize, io as usize, o as usize, oo as usize, n, fl as usize)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut i64, n: usize) -> isize {
    if simulated() && (fd_sim(i) || fd_sim(o)) {
        sys::set_errno(libc::EINVAL);
        return -1;
    }
    sys::ret(sys::sc(libc::SYS_sendfile, o as usize, i as usize, off as usize, n, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn splice(i: c_int, io: *mut i64, o: c_int, oo: *mut i64, n: usize, fl: u32) -> isize {
    if simulated() && (fd_sim(i) || fd_sim(o)) {
        sys::set_errno(libc::EINVAL);
        return -1;
    }
    sys::ret(sys::sc(libc::SYS_splice, i as usize, io as usize, o as usize, oo as usize, n, fl as usize)) as isize
}

/// Positioned and vectored reads are interrupted and cut like plain ones.
unsafe fn read_fault(fd: c_int, n: usize) -> Option<usize> {
    if !(simulated() && fd_sim(fd)) {
        return Some(n);
    }
    point(Why::Io);
    match decide(&[Fault::ReadEintr, Fault::ReadShort, Fault::ReadErr]) {
        Some(k @ (Fault::ReadEintr | Fault::ReadErr)) => {
            sys::set_errno(if k == Fault::ReadErr { libc::EIO } else { libc::EINTR });
            None
        }
        Some(Fault::ReadShort) if n > 1 => Some(1 + f((n as u32 - 1).min(64)) as usize),
        _ => Some(n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    match read_fault(fd, n) {
        Some(k) => sys::ret(sys::sc(libc::SYS_pread64, fd as usize, buf as usize, k, off as usize, 0, 0)) as isize,
        None => -1,
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> isize {
    if simulated() && fd_sim(fd) {
        let v = std::slice::from_raw_parts(iov, cnt as usize);
        return match v.iter().find(|x| x.iov_len > 0) {
            Some(x) => read(fd, x.iov_base, x.iov_len),
            None => 0,
        };
    }
    sys::ret(sys::sc(libc::SYS_readv, fd as usize, iov as usize, cnt as usize, 0, 0, 0)) as isize
}

/// Paths of the simulated disk contain no links: normalise them by text.
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if simulated() {
        if let Mapped::Sim(rp) = map(p) {
            point(Why::Io);
            let r = sys::sc(libc::SYS_access, rp.as_ptr() as usize, 0, 0, 0, 0, 0);
            if r < 0 {
                sys::ret(r);
                return std::ptr::null_mut();
            }
            let mut parts: Vec<&[u8]> = vec![];
            for x in CStr::from_ptr(p).to_bytes().split(|c| *c == b'/') {
                match x {
                    b"" | b"." => (),
                    b".." => {
                        parts.pop();
                    }
                    _ => parts.push(x),
                }
            }
            let mut t: Vec<u8> = parts.iter().flat_map(|x| [b"/", *x].concat()).collect();
            t.push(0);
            let o = if out.is_null() { libc::malloc(t.len()) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(t.as_ptr() as *const c_char, o, t.len());
            return o;
        }
    }
    let real = crate::real_fn!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char);
    real(p, out)
}

// stat family: mapped, never failed (std uses it for size hints)
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, p: *const c_char, flags: c_int, mask: u32, out: *mut c_void) -> c_int {
    if simulated() && !p.is_null() {
        if let Mapped::Sim(rp) = map(p) {
            point(Why::Io);
            let r = sys::ret(sys::sc(libc::SYS_statx, fd as isize as usize, rp.as_ptr() as usize, flags as usize, mask as usize, out as usize, 0)) as c_int;
            one_time(out);
            return r;
        }
    }
    let r = sys::ret(sys::sc(libc::SYS_statx, fd as isize as usize, p as usize, flags as usize, mask as usize, out as usize, 0)) as c_int;
    if simulated() && fd_sim(fd) {
        one_time(out);
    }
    r
}
/// Only the modification time is simulated: the others show the same.
unsafe fn one_time(out: *mut c_void) {
    let st = &mut *(out as *mut libc::statx);
    st.stx_ctime = st.stx_mtime;
    st.stx_btime = st.stx_mtime;
    st.stx_atime = st.stx_mtime;
}
/// Files carry times of the simulated clock.
unsafe fn stamp(fd: c_int) {
    if simulated() && fd_sim(fd) {
        let t = crate::intercept::wall_file();
        let ts = libc::timespec { tv_sec: t.div_euclid(1_000_000_000) as i64, tv_nsec: t.rem_euclid(1_000_000_000) as i64 };
        let two = [ts, ts];
        sys::sc(libc::SYS_utimensat, fd as usize, 0, two.as_ptr() as usize, 0, 0, 0);
    }
}
/// Makes a file of the simulated disk this many seconds old.
pub fn age(path: &[u8], seconds: u64) {
    let mut real = root().into_bytes();
    real.extend(path.strip_prefix(VROOT.as_bytes()).expect("not a simulated path"));
    let c = std::ffi::CString::new(real).unwrap();
    let t = crate::intercept::wall_file() - seconds as i128 * 1_000_000_000;
    let ts = libc::timespec { tv_sec: t.div_euclid(1_000_000_000) as i64, tv_nsec: t.rem_euclid(1_000_000_000) as i64 };
    let two = [ts, ts];
    unsafe { sys::sc(libc::SYS_utimensat, libc::AT_FDCWD as isize as usize, c.as_ptr() as usize, two.as_ptr() as usize, 0, 0, 0) };
}
unsafe fn stat_like(p: *const c_char, out: *mut c_void, nr: i64) -> c_int {
    if simulated() {
        if let Mapped::Sim(rp) = map(p) {
            point(Why::Io);
            return sys::ret(sys::sc(nr, rp.as_ptr() as usize, out as usize, 0, 0, 0, 0)) as c_int;
        }
    }
    sys::ret(sys::sc(nr, p as usize, out as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, out: *mut c_void) -> c_int {
    stat_like(p, out, libc::SYS_stat)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, out: *mut c_void) -> c_int {
    stat_like(p, out, libc::SYS_lstat)
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    stat_like(p, mode as usize as *mut c_void, libc::SYS_access)
}

// ---------------------------------------------------------------- directories

struct SimDir {
    magic: u64,
    fd: c_int,
    names: Vec<(Vec<u8>, u8)>,
    pos: usize,
    fail_at: usize,
    ent: libc::dirent64,
}
const MAGIC: u64 = 0x51_4D_D1_12_77;
static mut DIRS: Vec<usize> = Vec::new();
fn dirs() -> &'static mut Vec<usize> {
    unsafe { &mut *std::ptr::addr_of_mut!(DIRS) }
}
unsafe fn sim_dir(d: *mut c_void) -> Option<&'static mut SimDir> {
    if dirs().contains(&(d as usize)) {
        Some(&mut *(d as *mut SimDir))
    } else {
        None
    }
}
/// Directory handles of the simulated disk that are still open.
pub fn open_sim_dirs() -> usize {
    dirs().len()
}

/// The entries of this open directory, which gets closed, in an arbitrary order.
unsafe fn read_names(rd: *mut c_void) -> Vec<(Vec<u8>, u8)> {
    let real_read = crate::real_fn!("readdir64", unsafe extern "C" fn(*mut c_void) -> *mut libc::dirent64);
    let real_close = crate::real_fn!("closedir", unsafe extern "C" fn(*mut c_void) -> c_int);
    let mut names = vec![];
    loop {
        let e = real_read(rd);
        if e.is_null() {
            break;
        }
        names.push((CStr::from_ptr((*e).d_name.as_ptr()).to_bytes().to_vec(), (*e).d_type));
    }
    real_close(rd);
    names.sort();
    // the order in which a directory lists its entries is arbitrary
    if faultable() && names.len() > 1 {
        let key = draw_with(TAPE_F, |r| r.below(1 << 16));
        if key != 0 {
            names.sort_by_key(|(n, _)| n.iter().fold(key as u64, |h, c| splitmix(h ^ *c as u64)));
        }
    }
    names
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    let real_open = crate::real_fn!("fdopendir", unsafe extern "C" fn(c_int) -> *mut c_void);
    if simulated() && fd_sim(fd) {
        point(Why::Io);
        let copy = sys::sc(libc::SYS_openat, fd as usize, b".\0".as_ptr() as usize, (libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC) as usize, 0, 0, 0) as c_int;
        let rd = real_open(copy);
        if rd.is_null() {
            return rd;
        }
        let names = read_names(rd);
        FD_SIM[fd as usize] = 2;
        let d = Box::new(SimDir { magic: MAGIC, fd, names, pos: 0, fail_at: usize::MAX, ent: std::mem::zeroed() });
        let q = Box::into_raw(d) as *mut c_void;
        dirs().push(q as usize);
        return q;
    }
    real_open(fd)
}

#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    let real_open = crate::real_fn!("opendir", unsafe extern "C" fn(*const c_char) -> *mut c_void);
    if simulated() {
        if let Mapped::Sim(rp) = map(p) {
            point(Why::Io);
            let hit = decide(&[Fault::DirFail]);
            let mut fail_at = usize::MAX;
            if hit.is_some() {
                if f(2) == 0 {
                    let e = [libc::EACCES, libc::EMFILE, libc::EIO, libc::ENFILE][f(4) as usize];
                    ev!("[{} us] opendir({}) fails: errno {}", now() / 1000, show(p), e);
                    sys::set_errno(e);
                    return std::ptr::null_mut();
                }
                fail_at = f(12) as usize;
            }
            let rd = real_open(rp.as_ptr() as *const c_char);
            if rd.is_null() {
                return rd;
            }
            let names = read_names(rd);
            let fd = sys::sc(libc::SYS_openat, libc::AT_FDCWD as isize as usize, rp.as_ptr() as usize, (libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC) as usize, 0, 0, 0) as c_int;
            if fd >= 0 && (fd as usize) < MAXFD {
                FD_SIM[fd as usize] = 2;
            }
            ev!("[{} us] T{} list directory {} ({} entries{})", now() / 1000, me(), show(p), names.len(), if fail_at != usize::MAX { ", will fail part-way" } else { "" });
            let d = Box::new(SimDir { magic: MAGIC, fd, names, pos: 0, fail_at, ent: std::mem::zeroed() });
            let q = Box::into_raw(d) as *mut c_void;
            dirs().push(q as usize);
            return q;
        }
    }
    real_open(p)
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    if simulated() {
        if let Some(s) = sim_dir(d) {
            debug_assert!(s.magic == MAGIC);
            point(Why::Io);
            if s.pos == s.fail_at {
                s.fail_at = usize::MAX;
                s.pos = usize::MAX / 2;
                sys::set_errno(libc::EIO);
                return std::ptr::null_mut();
            }
            if s.pos >= s.names.len() {
                return std::ptr::null_mut();
            }
            let (n, t) = &s.names[s.pos];
            s.pos += 1;
            s.ent.d_type = *t;
            s.ent.d_ino = 77 + s.pos as u64;
            s.ent.d_off = s.pos as i64;
            s.ent.d_reclen = (19 + n.len() + 1 + 7) as u16 & !7;
            for (i, c) in n.iter().enumerate() {
                s.ent.d_name[i] = *c as c_char;
            }
            s.ent.d_name[n.len()] = 0;
            return &mut s.ent;
        }
    }
    let real = crate::real_fn!("readdir64", unsafe extern "C" fn(*mut c_void) -> *mut libc::dirent64);
    real(d)
}

#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    if simulated() && sim_dir(d).is_some() {
        dirs().retain(|x| *x != d as usize);
        let s = Box::from_raw(d as *mut SimDir);
        if s.fd >= 0 {
            if (s.fd as usize) < MAXFD {
                FD_SIM[s.fd as usize] = 0;
            }
            sys::sc(libc::SYS_close, s.fd as usize, 0, 0, 0, 0, 0);
        }
        return 0;
    }
    let real = crate::real_fn!("closedir", unsafe extern "C" fn(*mut c_void) -> c_int);
    real(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    if simulated() {
        if let Some(s) = sim_dir(d) {
            return s.fd;
        }
    }
    let real = crate::real_fn!("dirfd", unsafe extern "C" fn(*mut c_void) -> c_int);
    real(d)
}
