//! Shared workload machinery.
use simrt::fs::VROOT;
use simrt::intercept::{set_hash_seed, NCPU};
use simrt::sched::{shielded, unshielded, Kind, NEXT_KIND};
use simrt::shared::*;
use std::any::Any;
use std::cell::Cell;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::thread;

pub const COUNTER_NAMES: &[&str] = &[
    "assemblies", "integrals", "matrix_entries_compared", "basis_samples", "panics_injected", "panics_propagated",
    "solves", "solves_ok", "solves_err", "files_checked", "exports_ok", "exports_err", "loads_ok", "loads_err",
    "loads_rejected_by_panic", "refinement_ops", "refinement_ops_rejected", "refinement_ops_interrupted",
    "meshes_compared", "elements_checked", "pool_threads", "submatrices", "crashes", "restarts", "pipelines",
    "retries", "nested_parallel", "dive_levels", "concurrent_clients", "field_values_compared", "assembly_max_elems", "dofs",
    "links_left_by_solvers", "huge_problems", "padded_documents",
];
pub fn cnt(name: &str, n: u64) {
    let i = COUNTER_NAMES.iter().position(|x| *x == name).expect("counter name");
    count(i, n)
}

pub fn one_stage(s: u32) -> Option<u32> {
    (s == 0).then_some(1)
}

#[macro_export]
macro_rules! note {
    ($($a:tt)*) => { simrt::shared::note(&format!($($a)*)) };
}

/// Configure the simulated machine: number of CPUs, pool size, hash seed.
pub fn machine() -> u32 {
    let cpus = [1, 2, 3, 4, 8][w(5) as usize];
    unsafe { NCPU = cpus };
    let pool = match w(6) {
        0 | 1 => {
            std::env::remove_var("RAYON_NUM_THREADS");
            cpus
        }
        k => {
            let n = [1, 2, 3, 5, 8][(k as usize + w(2) as usize) % 5];
            std::env::set_var("RAYON_NUM_THREADS", n.to_string());
            n
        }
    };
    let hs = w32() as u64;
    if hs != 0 {
        simrt::shared::fault(Fault::HashSeed);
    }
    set_hash_seed(hs);
    cnt("pool_threads", pool as u64);
    session_mode();
    pool
}

/// Whether the client threads of this run live on from one call to the next.
pub fn session_mode() {
    unsafe { SESSIONS_ON = wc(1, 2) };
}

pub type Caught<R> = Result<R, Box<dyn Any + Send>>;

/// Run `f` on a fresh thread of the simulated system.
pub fn client<R: Send>(f: impl FnOnce() -> R + Send) -> Caught<R> {
    clients(vec![Box::new(f) as Box<dyn FnOnce() -> R + Send>]).pop().unwrap()
}

/// Run several client threads of the simulated system at once and wait for all of them.
pub fn clients<'a, R: Send + 'a>(fs: Vec<Box<dyn FnOnce() -> R + Send + 'a>>) -> Vec<Caught<R>> {
    if fs.len() > 1 {
        cnt("concurrent_clients", fs.len() as u64);
    }
    if unsafe { SESSIONS_ON } && !IN_SESSION.with(|x| x.get()) {
        return sessions(fs);
    }
    thread::scope(|s| {
        let hs: Vec<_> = fs
            .into_iter()
            .map(|f| {
                unsafe { NEXT_KIND = Some(Kind::Sut) };
                s.spawn(move || unshielded(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(Err)).collect()
    })
}

// Client threads that outlive a call, so that what the library keeps per thread meets the next call.
type Job = Box<dyn FnOnce() + Send>;
static mut SESSIONS_ON: bool = false;
static mut SESSIONS: Vec<(Sender<Job>, Receiver<()>)> = vec![];
thread_local! {
    static IN_SESSION: Cell<bool> = const { Cell::new(false) };
}

fn sessions<'a, R: Send + 'a>(fs: Vec<Box<dyn FnOnce() -> R + Send + 'a>>) -> Vec<Caught<R>> {
    let all = unsafe { &mut *std::ptr::addr_of_mut!(SESSIONS) };
    while all.len() < fs.len() {
        let ((tx, jobs), (done, rx)) = (channel::<Job>(), channel());
        unsafe { NEXT_KIND = Some(Kind::Sut) };
        thread::spawn(move || {
            IN_SESSION.with(|x| x.set(true));
            while let Ok(job) = jobs.recv() {
                job();
                let _ = done.send(());
            }
        });
        all.push((tx, rx));
    }
    let n = fs.len();
    let mut out: Vec<Option<Caught<R>>> = (0..n).map(|_| None).collect();
    for ((f, slot), (tx, _)) in fs.into_iter().zip(&mut out).zip(all.iter()) {
        let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
            *slot = Some(unshielded(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))));
        });
        // the loop below waits until the job and all it borrows have been used
        let job: Job = unsafe { std::mem::transmute(job) };
        tx.send(job).unwrap_or_else(|_| harness_error("a session is gone"));
    }
    for (_, rx) in &all[..n] {
        rx.recv().unwrap_or_else(|_| harness_error("a session is gone"));
    }
    out.into_iter().map(|r| r.unwrap()).collect()
}

pub fn panic_msg(e: &Box<dyn Any + Send>) -> String {
    simrt::run::panic_text(e)
}

pub fn p(path: &str) -> String {
    format!("{}/{}", VROOT, path)
}

/// Write a file of the simulated disk from the harness (never faulted).
pub fn put_file(path: &str, data: &[u8]) {
    shielded(|| std::fs::write(path, data).unwrap_or_else(|e| harness_error(&format!("put_file {}: {}", path, e))))
}
pub fn get_file(path: &str) -> Option<Vec<u8>> {
    shielded(|| std::fs::read(path).ok())
}
pub fn make_dir(path: &str) {
    shielded(|| std::fs::create_dir_all(path).unwrap_or_else(|e| harness_error(&format!("mkdir {}: {}", path, e))))
}

pub fn h64(mut h: u64, v: u64) -> u64 {
    h ^= v;
    splitmix(h)
}
