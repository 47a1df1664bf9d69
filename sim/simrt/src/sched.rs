//! The baton scheduler: every thread of the simulated processes is a real thread, but exactly one runs at
//! a time, and who runs next is drawn from the schedule tape. Threads are preempted at any basic-block
//! edge of the instrumented code and at every futex operation, yield and I/O call.
use crate::shared::*;
use crate::sys;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXTH: usize = 192;
pub const NONE: u32 = u32::MAX;
const QUANTUM: i64 = 2_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Harness,
    Sut,
    Actor,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Free,
    Ready,
    Futex { addr: usize, bitset: u32, deadline: u64 },
    Join(u32),
    Child(i32),
    Sleep(u64),
    Exited,
}

pub struct Th {
    pub st: St,
    pub baton: AtomicU32,
    pub pthread: u64,
    pub kind: Kind,
    pub prio: u32,
    pub timed_out: bool,
    pub detached: bool,
}

const TH0: Th = Th { st: St::Free, baton: AtomicU32::new(0), pthread: 0, kind: Kind::Harness, prio: 0, timed_out: false, detached: false };
pub static mut THREADS: [Th; MAXTH] = [TH0; MAXTH];
pub static mut NTH: usize = 0;
pub static mut ACTIVE: bool = false;
/// Kind of the next thread created (otherwise inherited from its creator).
pub static mut NEXT_KIND: Option<Kind> = None;
pub static mut PROC: usize = 0;
static mut GAP: i64 = i64::MAX;
static mut ARMED: i64 = i64::MAX;
static mut GAP_DRAWN: bool = false;
static mut CUR_GUARD: u32 = 0;
static mut CRASH_AT: u64 = u64::MAX; // in points
static mut CRASH_EDGES: i64 = -1;
static mut KEY: u32 = 0;

#[derive(Clone, Copy)]
pub struct Policy {
    pub mode: u32,
    pub mean: u32,
    pub wake_switch: u32, // per mille
    pub spurious: u32,    // per mille, futex waits
    pub victim: u32,
    pub proc_switch: u32, // per mille
}
pub static mut POLICY: Policy = Policy { mode: 0, mean: 0, wake_switch: 0, spurious: 0, victim: NONE, proc_switch: 0 };

thread_local! {
    static ME: Cell<u32> = const { Cell::new(NONE) };
    static SHIELD: Cell<u32> = const { Cell::new(0) };
}

#[inline(always)]
pub fn me() -> u32 {
    ME.try_with(|m| m.get()).unwrap_or(NONE)
}
pub fn active() -> bool {
    unsafe { ACTIVE }
}
/// A scheduled thread of the simulation (of any kind).
#[inline(always)]
pub fn simulated() -> bool {
    unsafe { ACTIVE && me() != NONE }
}
pub fn th(i: u32) -> &'static mut Th {
    unsafe { &mut *std::ptr::addr_of_mut!(THREADS[i as usize]) }
}
fn nth() -> u32 {
    unsafe { NTH as u32 }
}
pub fn shield_depth() -> u32 {
    SHIELD.try_with(|s| s.get()).unwrap_or(1)
}
/// Faults may be injected into the calling thread now.
pub fn faultable() -> bool {
    simulated() && shield_depth() == 0 && th(me()).kind == Kind::Sut
}
/// Run harness code: no preemption and no faults inside.
pub fn shielded<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            let _ = SHIELD.try_with(|s| s.set(s.get() - 1));
        }
    }
    let _ = SHIELD.try_with(|s| s.set(s.get() + 1));
    let _g = G;
    f()
}
/// Leave the shield (used around calls back into the system under test from harness code).
pub fn unshielded<R>(f: impl FnOnce() -> R) -> R {
    struct G(u32);
    impl Drop for G {
        fn drop(&mut self) {
            let _ = SHIELD.try_with(|s| s.set(self.0));
        }
    }
    let old = shield_depth();
    let _ = SHIELD.try_with(|s| s.set(0));
    let _g = G(old);
    f()
}

// ---------------------------------------------------------------- time

pub fn now() -> u64 {
    sh().now
}
pub fn tick(ns: u64) {
    sh().now += ns;
}

fn wake_timers() {
    let now = now();
    for i in 0..nth() {
        let t = th(i);
        match t.st {
            St::Futex { deadline, .. } if deadline <= now => {
                t.timed_out = true;
                t.st = St::Ready;
            }
            St::Sleep(d) if d <= now => t.st = St::Ready,
            _ => {}
        }
    }
}
fn min_deadline() -> u64 {
    let mut m = u64::MAX;
    for i in 0..nth() {
        match th(i).st {
            St::Futex { deadline, .. } => m = m.min(deadline),
            St::Sleep(d) => m = m.min(d),
            _ => {}
        }
    }
    m
}

// ---------------------------------------------------------------- preemption

/// One instrumented edge was executed.
#[inline(always)]
pub fn edge(guard: u32) {
    unsafe {
        if !ACTIVE {
            return;
        }
        if SHIELD.try_with(|s| s.get()).unwrap_or(1) != 0 || me() == NONE {
            return;
        }
        if guard as usize >= NCOV {
            return;
        }
        sh().cov[guard as usize] = 1;
        if CRASH_EDGES >= 0 {
            CRASH_EDGES -= 1;
            if CRASH_EDGES < 0 && th(me()).kind == Kind::Sut {
                crash_now();
            }
        }
        GAP -= 1;
        if GAP <= 0 {
            CUR_GUARD = guard;
            gap_expired();
        }
    }
}

/// Long runs are preempted less and less densely, so that the schedule tape always holds the whole run.
const THIN_EVERY: u64 = 40_000;
fn thinning() -> u32 {
    (sh().points / THIN_EVERY).min(24) as u32
}
/// Late in a very long run the schedule stops being drawn: threads take turns only when they must.
fn coasting() -> bool {
    sh().points > 800_000
}

unsafe fn arm() {
    let p = POLICY;
    let v = draw_with(TAPE_S, |r| match p.mode {
        0 => 0,
        _ => 1 + r.below(((2 * p.mean as u64) << thinning().min(10)).min(40_000_000) as u32),
    });
    GAP_DRAWN = v != 0;
    GAP = if v == 0 { QUANTUM } else { v as i64 };
    ARMED = GAP;
}

#[inline(never)]
unsafe fn gap_expired() {
    let s = sh();
    s.steps += ARMED as u64;
    tick(ARMED as u64 * 8);
    if s.steps > s.step_limit {
        fail("hang:no-progress", &format!("no completion after {} executed edges (simulated time {} ms)", s.steps, s.now / 1_000_000));
    }
    let forced = !GAP_DRAWN;
    arm();
    point_raw(if forced { Why::Yield } else { Why::Preempt });
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Why {
    Preempt,
    Io,
    Wake,
    Yield,
}

/// A scheduling point of a running thread.
pub fn point(why: Why) {
    if !simulated() {
        return;
    }
    if shield_depth() != 0 && why != Why::Yield {
        return;
    }
    tick(700);
    point_raw(why)
}

fn ready_list(me: u32, out: &mut [u32; MAXTH]) -> usize {
    // cyclic order starting after `me`; `me` itself excluded
    let n = nth();
    let mut k = 0;
    for d in 1..n.max(1) {
        let i = (me + d) % n;
        if th(i).st == St::Ready {
            out[k] = i;
            k += 1;
        }
    }
    k
}

fn policy_pick(r: &mut Rng, list: &[u32], why: Option<Why>, me: u32) -> u32 {
    // returns an index into `list` (+1 when staying is possible, 0 = stay)
    let p = unsafe { POLICY };
    let stay_possible = matches!(why, Some(Why::Preempt | Why::Io | Why::Wake));
    let base = stay_possible as u32;
    match p.mode {
        2 | 3 => {
            if why == Some(Why::Yield) {
                th(me).prio = r.below(1000);
            }
            if why == Some(Why::Preempt) && r.below(4) == 0 {
                th(me).prio = r.below(1000);
            }
            let prio = |i: u32| if p.mode == 3 && i == p.victim { 0 } else { th(i).prio + 1 };
            let mut best = 0usize;
            for (k, t) in list.iter().enumerate() {
                if prio(*t) > prio(list[best]) {
                    best = k;
                }
            }
            if stay_possible && prio(me) >= prio(list[best]) {
                0
            } else {
                best as u32 + base
            }
        }
        _ => match why {
            Some(Why::Preempt) => {
                if p.mode == 0 {
                    0
                } else {
                    1 + r.below(list.len() as u32)
                }
            }
            Some(Why::Io | Why::Wake) => {
                if r.below(1000) < p.wake_switch {
                    1 + r.below(list.len() as u32)
                } else {
                    0
                }
            }
            _ => r.below(list.len() as u32),
        },
    }
}

fn point_raw(why: Why) {
    let m = me();
    let s = sh();
    s.points += 1;
    if s.points > 6_000_000 {
        fail("hang:no-progress", &format!("no completion after {} scheduling points (simulated time {} ms)", s.points, s.now / 1_000_000));
    }
    unsafe {
        if s.points >= CRASH_AT && th(m).kind == Kind::Sut {
            crash_now();
        }
    }
    wake_timers();
    maybe_switch_proc();
    let mut list = [0u32; MAXTH];
    let n = ready_list(m, &mut list);
    if n == 0 || (coasting() && matches!(why, Why::Io | Why::Wake)) {
        return;
    }
    let list = &list[..n];
    let v = if coasting() { (why != Why::Yield) as u32 } else { draw_with(TAPE_S, |r| policy_pick(r, list, Some(why), m)) };
    let target = if why == Why::Yield {
        list[(v as usize).min(n - 1)]
    } else if v == 0 {
        return;
    } else {
        if why == Why::Preempt {
            s.faults[Fault::Preempt as usize] += 1;
        }
        list[(v as usize - 1).min(n - 1)]
    };
    switch(m, target, why as u64);
}

fn switch(m: u32, target: u32, why: u64) {
    let s = sh();
    s.switches += 1;
    let g = unsafe { CUR_GUARD } as u64;
    s.sched_hash = (s.sched_hash ^ (m as u64) << 40 ^ (target as u64) << 48 ^ why << 32 ^ g).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(19);
    mix((m as u64) << 8 ^ target as u64);
    if s.verbose > 1 {
        shielded(|| log_str(&format!("  [{} us] T{} -> T{} ({}, edge {})", s.now / 1000, m, target, why, g)));
    }
    hand_over(target);
    wait_baton(m);
}
fn hand_over(target: u32) {
    let t = th(target);
    t.baton.store(1, Ordering::SeqCst);
    unsafe { sys::futex_wake_raw(t.baton.as_ptr(), false) };
}
fn wait_baton(m: u32) {
    let t = th(m);
    while t.baton.swap(0, Ordering::SeqCst) == 0 {
        unsafe { sys::futex_wait_raw(t.baton.as_ptr(), 0, false) };
    }
}

/// The calling thread cannot run until its state is Ready again (its state is already set).
pub fn block() {
    let m = me();
    let next = next_ready(m);
    if next != m {
        switch(m, next, 9);
    } else {
        // we were made ready by a timer
    }
}

/// Choose a thread to run when the current one cannot; advances time or switches process if needed.
fn next_ready(m: u32) -> u32 {
    loop {
        tick(300);
        let s = sh();
        s.points += 1;
        if s.points > 6_000_000 {
            fail("hang:no-progress", "no completion: scheduling points exhausted");
        }
        wake_timers();
        maybe_switch_proc();
        let mut list = [0u32; MAXTH];
        let mut n = ready_list(m, &mut list);
        if th(m).st == St::Ready {
            list[n] = m;
            n += 1;
        }
        if n == 1 {
            return list[0];
        }
        if n > 1 {
            let l = &list[..n];
            if coasting() {
                return l[0];
            }
            let v = draw_with(TAPE_S, |r| policy_pick(r, l, None, m));
            return l[(v as usize).min(n - 1)];
        }
        all_blocked();
    }
}

fn describe_threads() -> String {
    let mut o = String::new();
    for i in 0..nth() {
        o.push_str(&format!("T{}:{:?}:{:?} ", i, th(i).kind, th(i).st));
    }
    o
}

fn all_blocked() {
    let s = sh();
    let p = unsafe { PROC };
    let d = min_deadline();
    s.procs[p].state = 2;
    s.procs[p].deadline = d;
    // another process that can run?
    for k in 1..NPROC {
        let q = (p + k) % NPROC;
        if s.procs[q].state == 1 {
            switch_proc(q);
            s.procs[p].state = 1;
            return;
        }
    }
    let (mut best, mut bd) = (p, d);
    for q in 0..NPROC {
        if s.procs[q].state == 2 && s.procs[q].deadline < bd {
            best = q;
            bd = s.procs[q].deadline;
        }
    }
    if bd == u64::MAX {
        fail("hang:deadlock", &format!("every thread is blocked: {}", shielded(describe_threads)));
    }
    s.now = s.now.max(bd);
    if best != p {
        s.procs[best].state = 1;
        switch_proc(best);
    }
    s.procs[p].state = 1;
}

// ---------------------------------------------------------------- processes

fn maybe_switch_proc() {
    let s = sh();
    let p = unsafe { PROC };
    let mut list = [0usize; NPROC];
    let mut n = 0;
    for k in 1..NPROC {
        let q = (p + k) % NPROC;
        if s.procs[q].state == 2 && s.procs[q].deadline <= s.now {
            s.procs[q].state = 1;
        }
        if s.procs[q].state == 1 {
            list[n] = q;
            n += 1;
        }
    }
    if n == 0 {
        return;
    }
    let rate = unsafe { POLICY.proc_switch };
    let v = if coasting() { (s.points % 64 == 0) as u32 } else { draw_with(TAPE_S, |r| if r.below(1000) < rate { 1 + r.below(n as u32) } else { 0 }) };
    if v != 0 {
        fault(Fault::ProcSwitch);
        switch_proc(list[(v as usize - 1).min(n - 1)]);
    }
}

fn switch_proc(q: usize) {
    let s = sh();
    let p = unsafe { PROC };
    mix(0x9900 + q as u64);
    s.active_proc.store(q as u32, Ordering::SeqCst);
    s.procs[q].baton.store(1, Ordering::SeqCst);
    unsafe { sys::futex_wake_raw(s.procs[q].baton.as_ptr(), true) };
    wait_proc_baton(p);
    wake_timers();
}
fn wait_proc_baton(p: usize) {
    let b = &sh().procs[p].baton;
    while b.swap(0, Ordering::SeqCst) == 0 {
        unsafe { sys::futex_wait_raw(b.as_ptr(), 0, true) };
    }
}

/// Called in a freshly forked process: become process `p` of the run and wait for its turn.
pub fn enter_process(p: usize, policy: Policy) {
    unsafe {
        PROC = p;
        NTH = 1;
        let t = th(0);
        t.st = St::Ready;
        t.kind = Kind::Harness;
        t.prio = 500;
        ME.with(|m| m.set(0));
        POLICY = policy;
        libc::pthread_key_create(std::ptr::addr_of_mut!(KEY), Some(key_dtor));
        wait_proc_baton(p);
        GAP = QUANTUM;
        ARMED = QUANTUM;
        GAP_DRAWN = false;
        ACTIVE = true;
        if CRASH_AT == u64::MAX {
            arm();
        }
    }
}

/// This process is done (its verdict, if any, is set): pass the turn on and exit.
pub fn leave_process(code: i32) -> ! {
    let s = sh();
    unsafe { ACTIVE = false };
    let p = unsafe { PROC };
    s.procs[p].state = 3;
    s.procs[p].baton.store(0, Ordering::SeqCst);
    let mut next = NPROC;
    for k in 1..NPROC {
        let q = (p + k) % NPROC;
        if s.procs[q].state == 1 {
            next = q;
            break;
        }
    }
    if next == NPROC {
        let mut bd = u64::MAX;
        for q in 0..NPROC {
            if s.procs[q].state == 2 && s.procs[q].deadline < bd {
                bd = s.procs[q].deadline;
                next = q;
            }
        }
        if next < NPROC {
            s.now = s.now.max(bd);
        } else {
            for q in 0..NPROC {
                if s.procs[q].state == 2 {
                    set_verdict(2, "hang:deadlock", "a process is blocked for ever after the others ended");
                }
            }
        }
    }
    if next < NPROC {
        s.procs[next].state = 1;
        s.active_proc.store(next as u32, Ordering::SeqCst);
        s.procs[next].baton.store(1, Ordering::SeqCst);
        unsafe { sys::futex_wake_raw(s.procs[next].baton.as_ptr(), true) };
    }
    sys::exit_group(code)
}

pub const CRASH_CODE: i32 = 137;

/// Kill this process at the k-th next scheduling point (or after k edges).
pub fn plan_crash(points: Option<u64>, edges: Option<u64>) {
    unsafe {
        CRASH_AT = points.map(|k| sh().points + k).unwrap_or(u64::MAX);
        CRASH_EDGES = edges.map(|e| e as i64).unwrap_or(-1);
    }
}
pub fn cancel_crash() {
    unsafe {
        CRASH_AT = u64::MAX;
        CRASH_EDGES = -1;
    }
}
pub fn crash_now() -> ! {
    fault(Fault::Crash);
    ev!("[{} us] process {} is killed", now() / 1000, unsafe { PROC });
    unsafe {
        if let Some(h) = ON_CRASH {
            shielded(|| h());
        }
    }
    leave_process(CRASH_CODE)
}
pub static mut ON_CRASH: Option<fn()> = None;

// ---------------------------------------------------------------- threads

struct Start {
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
    tid: u32,
}

extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let st = Box::from_raw(p as *mut Start);
        let (f, arg, tid) = (st.f, st.arg, st.tid);
        drop(st);
        ME.with(|m| m.set(tid));
        libc::pthread_setspecific(KEY, 3usize as *const libc::c_void);
        wait_baton(tid);
        f(arg)
    }
}

/// Runs after the thread's own destructors: the simulated end of the thread.
extern "C" fn key_dtor(v: *mut libc::c_void) {
    let n = v as usize;
    unsafe {
        if n > 1 {
            libc::pthread_setspecific(KEY, (n - 1) as *const libc::c_void);
            return;
        }
        if !ACTIVE {
            return;
        }
    }
    let m = me();
    th(m).st = St::Exited;
    for i in 0..nth() {
        if th(i).st == St::Join(m) {
            th(i).st = St::Ready;
        }
    }
    let next = next_ready(m);
    sh().switches += 1;
    mix(0x7700 + next as u64);
    hand_over(next);
}

type CreateFn = unsafe extern "C" fn(*mut u64, *const libc::c_void, extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, *mut libc::c_void) -> i32;

pub unsafe fn create(out: *mut u64, attr: *const libc::c_void, f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void, kind: Kind) -> i32 {
    let real = real_fn_create();
    let tid = if NTH < MAXTH {
        NTH as u32
    } else if let Some(t) = vacant() {
        t
    } else {
        return libc::EAGAIN;
    };
    let prio = draw_prio();
    let t = th(tid);
    t.st = St::Ready;
    t.kind = kind;
    t.prio = prio;
    t.timed_out = false;
    t.detached = false;
    t.pthread = 0;
    t.baton.store(0, Ordering::SeqCst);
    let b = Box::into_raw(Box::new(Start { f, arg, tid }));
    let r = real(out, attr, trampoline, b as *mut libc::c_void);
    if r != 0 {
        t.st = St::Free;
        drop(Box::from_raw(b));
        return r;
    }
    t.pthread = *out;
    NTH = NTH.max(tid as usize + 1);
    r
}
/// The place of a thread that is over and that nobody will ask for.
unsafe fn vacant() -> Option<u32> {
    let t = (1..nth()).find(|i| {
        let t = th(*i);
        t.st == St::Free || t.st == St::Exited && (t.detached || t.kind == Kind::Actor)
    })?;
    let old = th(t);
    if old.st == St::Exited && !old.detached {
        let real = crate::real_fn!("pthread_join", unsafe extern "C" fn(u64, *mut *mut libc::c_void) -> i32);
        real(old.pthread, std::ptr::null_mut());
    }
    Some(t)
}
fn draw_prio() -> u32 {
    // priorities only steer the generator, so they are not recorded
    let tp = &mut sh().tapes[TAPE_S];
    let mut r = Rng(tp.rng);
    let v = r.below(1000);
    tp.rng = r.0;
    v
}
pub unsafe fn real_fn_create() -> CreateFn {
    crate::real_fn!("pthread_create", CreateFn)
}

pub fn find_pthread(p: u64) -> Option<u32> {
    (0..nth()).rev().find(|i| th(*i).pthread == p && th(*i).st != St::Free && !th(*i).detached)
}

pub fn gone(tid: u32) {
    th(tid).st = St::Free;
}
pub fn detach(tid: u32) {
    th(tid).detached = true;
}
pub fn join(tid: u32) {
    while th(tid).st != St::Exited {
        th(me()).st = St::Join(tid);
        block();
    }
}

pub fn sleep_until(t: u64) {
    while now() < t {
        th(me()).st = St::Sleep(t);
        block();
    }
    point(Why::Wake);
}
pub fn sleep(ns: u64) {
    sleep_until(now() + ns)
}

/// A timed wait may take longer than asked. Code that polls for minutes does so ever more slowly,
/// so that long waits stay affordable: the first 20 000 waits are exact.
pub fn late(ns: u64) -> u64 {
    static mut WAITS: u64 = 0;
    unsafe {
        WAITS += 1;
        if WAITS < 20_000 || ns > 1_000_000_000 {
            return ns;
        }
        (ns.max(1_000) << ((WAITS - 20_000) / 2_000).min(24)).min(1_000_000_000)
    }
}
/// The same for code that spins on `sched_yield`.
pub fn yielded() {
    static mut YIELDS: u64 = 0;
    unsafe {
        YIELDS += 1;
        if YIELDS > 100_000 {
            tick(1_000 << ((YIELDS - 100_000) / 20_000).min(16));
        }
    }
}

// ---------------------------------------------------------------- futex

pub fn futex_wait(addr: usize, val: u32, bitset: u32, deadline: u64) -> i64 {
    point(Why::Io);
    let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
    if cur != val {
        return -(libc::EAGAIN as i64);
    }
    let sp = unsafe { POLICY.spurious };
    if shield_depth() == 0 && !coasting() && chance(TAPE_S, sp, 1000) {
        fault(Fault::FutexSpurious);
        return -(libc::EINTR as i64);
    }
    let m = me();
    let t = th(m);
    t.timed_out = false;
    t.st = St::Futex { addr, bitset, deadline };
    block();
    let t = th(m);
    if t.timed_out {
        t.timed_out = false;
        return -(libc::ETIMEDOUT as i64);
    }
    0
}

pub fn futex_wake(addr: usize, n: u32, bitset: u32) -> i64 {
    let mut woken = 0;
    let k = nth();
    if k == 0 {
        return 0;
    }
    // which waiter is woken is a choice: start from a drawn position
    let mut waiting = [0u32; MAXTH];
    let mut w = 0;
    for i in 0..k {
        if let St::Futex { addr: a, bitset: b, .. } = th(i).st {
            if a == addr && b & bitset != 0 {
                waiting[w] = i;
                w += 1;
            }
        }
    }
    if w > 0 {
        let start = if (n as usize) < w && !coasting() { draw(TAPE_S, w as u32) as usize } else { 0 };
        while woken < w && (woken as u32) < n {
            th(waiting[(start + woken) % w]).st = St::Ready;
            woken += 1;
        }
        point(Why::Wake);
    }
    woken as i64
}

// ---------------------------------------------------------------- children (simulated processes)

pub fn wait_child_block(pid: i32) {
    th(me()).st = St::Child(pid);
    block();
}
pub fn child_done(pid: i32) {
    for i in 0..nth() {
        if th(i).st == St::Child(pid) || th(i).st == St::Child(-1) {
            th(i).st = St::Ready;
        }
    }
}
