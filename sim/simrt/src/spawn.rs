//! Simulated child processes: a spawned command is an actor thread of the simulation.
use crate::fs::decide;
use crate::sched::*;
use crate::shared::*;
use crate::sys;
use libc::{c_char, c_int, c_void};
use std::ffi::CStr;

pub struct SpawnReq {
    pub pid: i32,
    pub file: String,
    pub argv: Vec<Vec<u8>>,
    pub env: Vec<Vec<u8>>,
    pub cwd: Option<String>,
    /// the pipes that are its standard streams
    pub stdio: [Option<i32>; 3],
}
impl SpawnReq {
    /// The process writes `n` bytes to a standard stream; false: it dies of SIGPIPE.
    pub fn say(&self, stream: usize, n: usize) -> bool {
        match self.stdio[stream] {
            Some(fd) => crate::pipe::fill(fd, n),
            None => true,
        }
    }
}
/// Runs in the actor; returns the wait status.
pub type Handler = fn(&SpawnReq) -> i32;
/// Decides at spawn time whether the program can be started (Err: errno).
pub type Lookup = fn(&SpawnReq) -> Result<(), i32>;
pub static mut HANDLER: Option<Handler> = None;
pub static mut LOOKUP: Option<Lookup> = None;

struct Child {
    pid: i32,
    status: Option<i32>,
    reaped: bool,
    killed: i32,
}
static mut CHILDREN: Vec<Child> = Vec::new();
static mut CWDS: Vec<(usize, String)> = Vec::new();
fn children() -> &'static mut Vec<Child> {
    unsafe { &mut *std::ptr::addr_of_mut!(CHILDREN) }
}
fn cwds() -> &'static mut Vec<(usize, String)> {
    unsafe { &mut *std::ptr::addr_of_mut!(CWDS) }
}
/// Children still running or not waited for.
pub fn unreaped() -> usize {
    children().iter().filter(|c| !c.reaped).count()
}
pub fn killed(pid: i32) -> i32 {
    children().iter().find(|c| c.pid == pid).map(|c| c.killed).unwrap_or(0)
}

unsafe fn strings(mut p: *const *const c_char) -> Vec<Vec<u8>> {
    let mut v = vec![];
    if p.is_null() {
        return v;
    }
    while !(*p).is_null() {
        v.push(CStr::from_ptr(*p).to_bytes().to_vec());
        p = p.add(1);
    }
    v
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(fa: *mut c_void, p: *const c_char) -> c_int {
    if simulated() {
        cwds().retain(|(a, _)| *a != fa as usize);
        cwds().push((fa as usize, String::from_utf8_lossy(CStr::from_ptr(p).to_bytes()).into_owned()));
        return 0;
    }
    let real = crate::real_fn!("posix_spawn_file_actions_addchdir_np", unsafe extern "C" fn(*mut c_void, *const c_char) -> c_int);
    real(fa, p)
}

static mut DUPS: Vec<(usize, i32, i32)> = Vec::new();
fn dups() -> &'static mut Vec<(usize, i32, i32)> {
    unsafe { &mut *std::ptr::addr_of_mut!(DUPS) }
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(fa: *mut c_void, from: c_int, to: c_int) -> c_int {
    if simulated() {
        dups().push((fa as usize, from, to));
        return 0;
    }
    let real = crate::real_fn!("posix_spawn_file_actions_adddup2", unsafe extern "C" fn(*mut c_void, c_int, c_int) -> c_int);
    real(fa, from, to)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_init(fa: *mut c_void) -> c_int {
    if simulated() {
        dups().retain(|d| d.0 != fa as usize);
        cwds().retain(|d| d.0 != fa as usize);
    }
    let real = crate::real_fn!("posix_spawn_file_actions_init", unsafe extern "C" fn(*mut c_void) -> c_int);
    real(fa)
}

struct ActorArg(SpawnReq);
extern "C" fn actor_main(p: *mut c_void) -> *mut c_void {
    let a = unsafe { Box::from_raw(p as *mut ActorArg) };
    let req = &a.0;
    let h = unsafe { HANDLER };
    let st = match h {
        Some(h) => h(req),
        None => 127 << 8,
    };
    let pid = req.pid;
    let k = killed(pid);
    if let Some(c) = children().iter_mut().find(|c| c.pid == pid) {
        c.status = Some(if k != 0 { k } else { st });
    }
    for fd in req.stdio.iter().flatten() {
        unsafe { crate::pipe::close(*fd) };
    }
    ev!("[{} us] process {} ended with wait status {:#x}", now() / 1000, pid, st);
    child_done(pid);
    std::ptr::null_mut()
}

unsafe fn spawn(out: *mut c_int, file: *const c_char, fa: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    point(Why::Io);
    let file = String::from_utf8_lossy(CStr::from_ptr(file).to_bytes()).into_owned();
    let cwd = cwds().iter().find(|(a, _)| *a == fa as usize).map(|(_, c)| c.clone());
    cwds().retain(|(a, _)| *a != fa as usize);
    let mut stdio = [None; 3];
    for (_, from, to) in dups().iter().filter(|d| d.0 == fa as usize) {
        if *to < 3 {
            stdio[*to as usize] = crate::pipe::is(*from).then_some(*from);
        }
    }
    dups().retain(|d| d.0 != fa as usize);
    if let Some(Fault::SpawnFail) = decide(&[Fault::SpawnFail]) {
        let e = [libc::ENOENT, libc::EAGAIN, libc::ENOMEM, libc::EACCES][f(4) as usize];
        ev!("[{} us] starting {} fails: errno {}", now() / 1000, file, e);
        return e;
    }
    let pid = 20000 + 100 * PROC as i32 + children().len() as i32;
    if let Some(c) = &cwd {
        let e = match shielded(|| std::fs::metadata(c)) {
            Ok(m) if m.is_dir() => 0,
            Ok(_) => libc::ENOTDIR,
            Err(e) => e.raw_os_error().unwrap_or(libc::ENOENT),
        };
        if e != 0 {
            ev!("[{} us] starting {} fails: no working directory {:?}", now() / 1000, file, c);
            return e;
        }
    }
    let req = SpawnReq { pid, file, argv: strings(argv), env: strings(envp), cwd, stdio: [None; 3] };
    if let Some(l) = LOOKUP {
        if let Err(e) = shielded(|| l(&req)) {
            return e;
        }
    }
    ev!("[{} us] T{} starts process {}: {:?}", now() / 1000, me(), pid, req.argv.iter().map(|a| String::from_utf8_lossy(a).into_owned()).collect::<Vec<_>>());
    children().push(Child { pid, status: None, reaped: false, killed: 0 });
    let req = SpawnReq { stdio: stdio.map(|o| o.map(|fd| crate::pipe::inherit(fd))), ..req };
    let b = Box::into_raw(Box::new(ActorArg(req)));
    let mut t = 0u64;
    let r = create(&mut t, std::ptr::null(), actor_main, b as *mut c_void, Kind::Actor);
    if r != 0 {
        harness_error("cannot create the actor thread of a simulated process");
    }
    if !out.is_null() {
        *out = pid;
    }
    point(Why::Wake);
    0
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(out: *mut c_int, file: *const c_char, fa: *const c_void, attr: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    if simulated() {
        return spawn(out, file, fa, argv, envp);
    }
    let real = crate::real_fn!("posix_spawnp", unsafe extern "C" fn(*mut c_int, *const c_char, *const c_void, *const c_void, *const *const c_char, *const *const c_char) -> c_int);
    real(out, file, fa, attr, argv, envp)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn(out: *mut c_int, file: *const c_char, fa: *const c_void, attr: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    if simulated() {
        return spawn(out, file, fa, argv, envp);
    }
    let real = crate::real_fn!("posix_spawn", unsafe extern "C" fn(*mut c_int, *const c_char, *const c_void, *const c_void, *const *const c_char, *const *const c_char) -> c_int);
    real(out, file, fa, attr, argv, envp)
}

/// Err(errno), Ok(None): still running (WNOHANG).
fn wait_for(pid: i32, nohang: bool) -> Result<Option<(i32, i32)>, i32> {
    point(Why::Io);
    let mut lost = false;
    if nohang {
        yielded();
        let over = children().iter().any(|c| !c.reaped && (pid <= 0 || c.pid == pid) && c.status.is_some());
        lost = over && decide(&[Fault::WaitFail]).is_some();
    } else {
        match decide(&[Fault::WaitEintr, Fault::WaitFail]) {
            Some(Fault::WaitEintr) => {
                ev!("[{} us] wait({}) interrupted", now() / 1000, pid);
                return Err(libc::EINTR);
            }
            Some(_) => lost = true,
            None => {}
        }
    }
    loop {
        let mut any = false;
        for c in children().iter_mut() {
            if c.reaped || (pid > 0 && c.pid != pid) {
                continue;
            }
            any = true;
            if let Some(s) = c.status {
                c.reaped = true;
                if lost {
                    // somebody else collected the child: its status is gone
                    ev!("[{} us] wait({}) fails: ECHILD", now() / 1000, pid);
                    return Err(libc::ECHILD);
                }
                return Ok(Some((c.pid, s)));
            }
        }
        if !any {
            return Err(libc::ECHILD);
        }
        if nohang {
            return Ok(None);
        }
        wait_child_block(if pid > 0 { pid } else { -1 });
    }
}

#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: c_int, status: *mut c_int, opts: c_int) -> c_int {
    if simulated() {
        return match wait_for(pid, opts & libc::WNOHANG != 0) {
            Ok(Some((p, s))) => {
                if !status.is_null() {
                    *status = s;
                }
                p
            }
            Ok(None) => 0,
            Err(e) => {
                sys::set_errno(e);
                -1
            }
        };
    }
    sys::ret(sys::sc(libc::SYS_wait4, pid as isize as usize, status as usize, opts as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn wait4(pid: c_int, status: *mut c_int, opts: c_int, ru: *mut c_void) -> c_int {
    if simulated() {
        return waitpid(pid, status, opts);
    }
    sys::ret(sys::sc(libc::SYS_wait4, pid as isize as usize, status as usize, opts as usize, ru as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn kill(pid: c_int, sig: c_int) -> c_int {
    if simulated() {
        point(Why::Io);
        for c in children().iter_mut() {
            if c.pid == pid {
                if c.status.is_none() && sig != 0 {
                    c.killed = sig;
                    ev!("[{} us] process {} receives signal {}", now() / 1000, pid, sig);
                }
                return 0;
            }
        }
        sys::set_errno(libc::ESRCH);
        return -1;
    }
    sys::ret(sys::sc(libc::SYS_kill, pid as isize as usize, sig as usize, 0, 0, 0, 0)) as c_int
}
