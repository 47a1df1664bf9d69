//! The external solver call: a controlled solver process, disk faults, clocks, concurrent solves.
use crate::common::*;
use crate::{item, note, Item, Prop};
use fem_2d::fem_problem::linalg::sparse_matrix::{AIJMatrixBinary, SparseMatrix};
use fem_2d::prelude::*;
use simrt::fs::{self, bit, FsFaults, NO_FAULTS};
use simrt::intercept::{set_wall, WallMode};
use simrt::sched::{plan_crash, shielded, sleep, unshielded};
use simrt::shared::*;
use simrt::spawn::{self, SpawnReq};
use std::collections::BTreeMap;
use std::os::unix::ffi::{OsStrExt, OsStringExt};

// ------------------------------------------------------------------------------------------------ problems

pub type Entries = BTreeMap<[usize; 2], f64>;

pub struct Problem {
    pub dim: usize,
    pub a: Entries,
    pub b: Entries,
    pub te: f64,
}

fn value() -> f64 {
    match w(8) {
        0 => [0.0, -0.0, 1.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, -1.5e300, f64::EPSILON][w(8) as usize],
        1 => f64::from_bits((w32() as u64) << 32 | w32() as u64),
        _ => wr(0, 4000) as f64 / 8.0 - 250.0,
    }
}

fn entries(dim: usize) -> Entries {
    let mut m = Entries::new();
    let n = match w(4) {
        0 => wr(0, 3),
        1 => wr(0, 2 * dim as u32),
        _ => wr(0, 24),
    };
    for _ in 0..n.min(400) {
        let (i, j) = (w(dim as u32) as usize, w(dim as u32) as usize);
        let mut v = value();
        if v.is_nan() {
            v = f64::NAN; // payloads of NaNs may be canonicalised
        }
        m.insert([i.min(j), i.max(j)], v);
    }
    if wc(1, if dim > 20_000 { 40 } else { 12 }) {
        // a large, regular matrix
        if wc(1, 3) {
            // a full row and a full column
            let r = [0, dim / 2, dim - 1][w(3) as usize];
            for i in 0..dim {
                m.insert([i.min(r), i.max(r)], i as f64 + 0.5);
            }
            return m;
        }
        for i in 0..dim {
            for d in 0..4 {
                if i + d < dim {
                    m.insert([i, i + d], (i * 7 + d) as f64);
                }
            }
        }
    }
    m
}

impl Problem {
    pub fn random(max_dim: u32) -> Problem {
        let dim = match w(10) {
            0 => 1,
            1 if max_dim > 12 && wc(1, 8) => wr(8_000, 70_000),
            1 => wr(200, 1500),
            _ => wr(1, max_dim),
        } as usize;
        if dim > 4000 {
            sh().step_limit *= 20;
        }
        Problem::of(dim)
    }
    pub fn of(dim: usize) -> Problem {
        let (a, b) = (entries(dim), entries(dim));
        let te = match w(4) {
            0 => wr(1, 1000) as f64 / 7.0,
            1 => -(wr(1, 1000) as f64) / 3.0,
            2 => wr(0, 100) as f64 * [1000.25, 1e-6, 1e9, 123456789.125][w(4) as usize],
            _ => wr(1, 64) as f64,
        };
        Problem { dim, a, b, te }
    }
    /// More rows or more entries in a row than 16 bits count, often with block-sized numbers of entries.
    fn huge() -> Problem {
        sh().step_limit *= 60;
        cnt("huge_problems", 1);
        let dim = if wc(1, 2) { 512 * wr(128, 290) } else { wr(65_500, 140_000) } as usize;
        let mut sides = [0, 1].map(|_| {
            let mut m: Entries = (0..dim).map(|i| ([i, i], i as f64 - 7.25)).collect();
            if wc(1, 2) {
                let r = [0, dim / 2, dim - 1][w(3) as usize];
                m.extend((0..dim).map(|i| ([i.min(r), i.max(r)], i as f64 + 0.5)));
            }
            m
        });
        let [a, b] = sides.each_mut().map(std::mem::take);
        Problem { dim, a, b, te: 2.5 }
    }
    fn matrix(dim: usize, e: &Entries) -> SparseMatrix {
        let mut m = SparseMatrix::new(dim);
        for (k, v) in e {
            m.insert(*k, *v);
        }
        m
    }
    pub fn gep(&self) -> GEP {
        let mut g = GEP::new(self.dim);
        g.a = Self::matrix(self.dim, &self.a);
        g.b = Self::matrix(self.dim, &self.b);
        g
    }
    pub fn bytes(&self) -> [Vec<u8>; 2] {
        [petsc(self.dim, &self.a), petsc(self.dim, &self.b)]
    }
    pub fn key(&self) -> u64 {
        let [a, b] = self.bytes();
        key(&a, &b)
    }
}

/// The full symmetric matrix in PETSc's binary format.
pub fn petsc(dim: usize, e: &Entries) -> Vec<u8> {
    let mut full: BTreeMap<[usize; 2], f64> = BTreeMap::new();
    for ([i, j], v) in e {
        full.insert([*i, *j], *v);
        full.insert([*j, *i], *v);
    }
    let mut rows = vec![0u32; dim];
    for [i, _] in full.keys() {
        rows[*i] += 1;
    }
    let mut o = vec![];
    for x in [1211216, dim as u32, dim as u32, full.len() as u32] {
        o.extend(x.to_be_bytes());
    }
    rows.iter().for_each(|r| o.extend(r.to_be_bytes()));
    full.keys().for_each(|k| o.extend((k[1] as u32).to_be_bytes()));
    full.values().for_each(|v| o.extend(v.to_bits().to_be_bytes()));
    o
}

/// Why these bytes are not a complete square symmetric matrix in that format.
pub fn malformed(x: &[u8]) -> Option<String> {
    let g = |o: usize| u32::from_be_bytes(x[o..o + 4].try_into().unwrap()) as usize;
    if x.len() < 16 {
        return Some(format!("only {} bytes", x.len()));
    }
    let (m, n, nz) = (g(4), g(8), g(12));
    if g(0) != 1211216 || m != n {
        return Some(format!("bad header {} {}x{}", g(0), m, n));
    }
    let want = 16 + 4 * m + 12 * nz;
    if x.len() != want {
        return Some(format!("{} bytes instead of {}", x.len(), want));
    }
    let mut k = 0;
    for r in 0..m {
        let c = g(16 + 4 * r);
        let mut last = None;
        for _ in 0..c {
            if k >= nz {
                return Some("row counts exceed the number of entries".into());
            }
            let col = g(16 + 4 * m + 4 * k);
            if col >= n || last.map_or(false, |l| col <= l) {
                return Some(format!("row {}: columns are not ascending", r));
            }
            last = Some(col);
            k += 1;
        }
    }
    (k != nz).then(|| "row counts do not add up".into())
}

fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0x5150;
    for c in b.chunks(8) {
        let mut v = [0u8; 8];
        v[..c.len()].copy_from_slice(c);
        h = h64(h, u64::from_le_bytes(v));
    }
    h64(h, b.len() as u64)
}
pub fn key(a: &[u8], b: &[u8]) -> u64 {
    h64(hash_bytes(a), hash_bytes(b))
}

/// The solver's answer to a problem: bits of the eigenvalue and of each component.
pub fn answer(a: &[u8], b: &[u8], te: f64) -> (u64, Vec<u64>) {
    let dim = u32::from_be_bytes(a[4..8].try_into().unwrap()) as usize;
    let h = h64(key(a, b), (te * 1e6).round() as i64 as u64);
    let num = |k: u64| -> u64 {
        let x = h64(h, k);
        match x % 16 {
            0 => [0.0f64, -0.0, f64::MAX, f64::MIN, 5e-324, -f64::MIN_POSITIVE, 1.0, -1.0][(x >> 8) as usize % 8].to_bits(),
            1..=3 => {
                let y = f64::from_bits(splitmix(x));
                if y.is_finite() { y.to_bits() } else { (k as f64).to_bits() }
            }
            _ => ((x >> 20) as f64 / 1e12 - 3.0).to_bits(),
        }
    };
    (num(1 << 40), (0..dim as u64).map(num).collect())
}

// ------------------------------------------------------------------------------------------------ the solver

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dmg {
    Missing,
    Empty,
    Torn,
    Magic,
    WrongLen,
    HugeLen,
    NegLen,
    Swapped,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Out {
    Good,
    /// exit code, how much output was written before (0 none, 1 part, 2 everything)
    Exit(i32, u32),
    Signal(i32, u32),
    /// exit 0, but the eigenvector (0), the eigenvalue (1) or both (2) are damaged
    Bad(Dmg, u32),
}
impl Out {
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Good | Out::Bad(..) => "Ok",
            Out::Exit(c, _) => match c {
                1 => "FailedToInitializeSlepc",
                2 => "BadArguments",
                3 => "FailedToInitializeMatrices",
                4..=6 => "FailedToInitializeEPS",
                7 => "FailedToConverge",
                8 => "FailedToReturnSolution",
                _ => "UnknownError",
            },
            Out::Signal(..) => "UnknownError",
        }
    }
}
pub fn outcome() -> Out {
    match w(10) {
        0 | 1 | 2 => Out::Good,
        3 | 4 => Out::Exit(if wc(2, 3) { wr(1, 9) } else { wr(1, 255) } as i32, w(3)),
        5 => Out::Signal([6, 9, 11, 13, 15, 7, 8][w(7) as usize], w(3)),
        _ => damage(),
    }
}
pub fn damage() -> Out {
    use Dmg::*;
    Out::Bad([Missing, Empty, Torn, Torn, Magic, WrongLen, HugeLen, NegLen, Swapped][w(9) as usize], w(3))
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub prefix: String,
    pub te: String,
    pub cwd: String,
    pub env: Vec<Vec<u8>>,
    pub argv: Vec<String>,
    pub file: String,
    pub key: u64,
    pub out: Out,
    /// matrices missing or malformed
    pub bad_input: Option<String>,
    pub done: bool,
}

pub struct Solver {
    pub recs: Vec<Rec>,
    /// what to do for the problem with this key (default: solve it)
    pub plan: Vec<(u64, Out)>,
    /// what to do for every problem
    pub any: Option<Out>,
    pub extra: bool,
    pub foreign: bool,
    pub slow: u32,
    /// bytes the solver prints on its standard output and error streams
    pub talk: [usize; 2],
    /// files made at run time by somebody else: path, content
    pub others: Vec<(String, Vec<u8>)>,
    pub starts: u32,
    /// the problem with this target stays at this stage until it is let go
    pub held: Option<(String, u32)>,
}
pub static mut SOLVER: Solver = Solver { recs: vec![], plan: vec![], any: None, extra: false, foreign: false, slow: 0, talk: [0; 2], others: vec![], starts: 0, held: None };
pub fn solver() -> &'static mut Solver {
    unsafe { &mut *std::ptr::addr_of_mut!(SOLVER) }
}

fn pause() {
    let s = solver().slow;
    if s > 0 {
        let d = match s {
            1 => w(2_000) as u64,
            2 => w(60_000) as u64,
            3 => w(2_000_000) as u64,
            // seconds to minutes
            _ => w([3_000, 50_000, 600_000][w(3) as usize]) as u64 * 1_000_000,
        };
        unshielded(|| sleep(d + 1));
    }
}

fn hold(te: &str, stage: u32) {
    while solver().held.as_ref().is_some_and(|h| h.0 == te && h.1 == stage) {
        unshielded(|| sleep(20_000_000));
    }
}

fn write_out(path: &str, data: &[u8]) {
    use std::io::Write;
    let cut = if data.len() > 1 && wc(1, 2) { wr(1, data.len() as u32 - 1) as usize } else { data.len() };
    let f = shielded(|| std::fs::File::create(path));
    let Ok(mut f) = f else { return };
    shielded(|| {
        let _ = f.write_all(&data[..cut]);
    });
    pause();
    shielded(|| {
        let _ = f.write_all(&data[cut..]);
    });
    shielded(|| drop(f));
}

/// The complete solution of somebody else's problem of the same size, under a name like ours.
fn decoys(cwd: &str, prefix: &str, a: &[u8], b: &[u8]) {
    let (value, vector) = answer(a, b, -77.5);
    let mut evec = vec![];
    evec.extend(1211214i32.to_be_bytes());
    evec.extend((vector.len() as i32).to_be_bytes());
    vector.iter().for_each(|v| evec.extend(v.to_be_bytes()));
    // no solve uses a name with one of its numbers extended like this
    let ends: Vec<usize> = (1..=prefix.len()).filter(|&i| prefix.as_bytes()[i - 1].is_ascii_digit() && !prefix.as_bytes().get(i).map_or(false, |c| c.is_ascii_digit())).collect();
    let name = match ends.len() {
        0 => format!("{}-0", prefix),
        n => {
            let mut x = prefix.to_string();
            x.insert_str(ends[w(n as u32) as usize], "00077");
            x
        }
    };
    for (end, data) in [("evec", evec), ("eval", value.to_be_bytes().to_vec())] {
        let path = format!("{}/tmp/{}_{}.dat", cwd.trim_end_matches('/'), name, end);
        if std::fs::metadata(&path).is_err() && std::fs::write(&path, &data).is_ok() {
            fault(Fault::DirRace);
            solver().others.push((path, data));
        }
    }
}

fn handler(req: &SpawnReq) -> i32 {
    shielded(|| {
        let talk = solver().talk;
        let first = w(2) == 0;
        if first && !talks(req, talk) {
            return 13;
        }
        let st = solver_main(req);
        if !first && !talks(req, talk) {
            return 13;
        }
        st
    })
}
fn talks(req: &SpawnReq, talk: [usize; 2]) -> bool {
    (0..2).all(|i| {
        if talk[i] > 0 {
            fault(Fault::SolverTalk);
        }
        req.say(i + 1, talk[i])
    })
}

fn solver_main(req: &SpawnReq) -> i32 {
    let argv: Vec<String> = req.argv.iter().map(|a| String::from_utf8_lossy(a).into_owned()).collect();
    let after = |k: &str| argv.iter().position(|x| x == k).and_then(|i| argv.get(i + 1)).cloned().unwrap_or_default();
    let (prefix, te) = (after("-fp"), after("-te"));
    let cwd = req.cwd.clone().unwrap_or_default();
    let id = solver().recs.len();
    solver().recs.push(Rec { prefix: prefix.clone(), te: te.clone(), cwd: cwd.clone(), env: req.env.clone(), argv, file: req.file.clone(), key: 0, out: Out::Good, bad_input: None, done: false });
    pause();
    hold(&te, 0);
    let base = format!("{}/tmp/{}", cwd.trim_end_matches('/'), prefix);
    let a = std::fs::read(format!("{}_a.dat", base)).unwrap_or_default();
    pause();
    let b = std::fs::read(format!("{}_b.dat", base)).unwrap_or_default();
    let bad = malformed(&a).map(|e| format!("matrix A: {}", e)).or(malformed(&b).map(|e| format!("matrix B: {}", e)));
    let k = key(&a, &b);
    let s = solver();
    s.recs[id].key = k;
    if bad.is_some() {
        s.recs[id].bad_input = bad;
        s.recs[id].out = Out::Exit(3, 0);
        s.recs[id].done = true;
        return 3 << 8;
    }
    let out = s.plan.iter().find(|p| p.0 == k).map(|p| p.1).or(s.any).unwrap_or(Out::Good);
    s.recs[id].out = out;
    if s.foreign {
        for name in [format!("x{}_a.dat", prefix), format!("{}7_evec.dat", prefix), format!("old.{}", prefix)] {
            if wc(1, 2) {
                let path = format!("{}/tmp/{}", cwd.trim_end_matches('/'), name);
                let data = format!("FOREIGN {}", name).into_bytes();
                if std::fs::metadata(&path).is_err() && std::fs::write(&path, &data).is_ok() {
                    fault(Fault::DirRace);
                    s.others.push((path, data));
                }
            }
        }
    }
    if s.slow > 0 {
        fault(Fault::SolverSlow);
    }
    pause();
    hold(&te, 1);
    let (value, vector) = answer(&a, &b, te.parse().unwrap_or(0.0));
    let m = vector.len();
    let mut evec = vec![];
    evec.extend(1211214i32.to_be_bytes());
    evec.extend((m as i32).to_be_bytes());
    vector.iter().for_each(|v| evec.extend(v.to_be_bytes()));
    let eval = value.to_be_bytes().to_vec();
    let (pe, pv) = (format!("{}_evec.dat", base), format!("{}_eval.dat", base));
    if s.foreign && wc(1, 2) {
        decoys(&cwd, &prefix, &a, &b);
    }
    if s.extra {
        write_out(&format!("{}_evec.dat.info", base), b"-vecload_block_size 1\n");
        if wc(1, 2) {
            write_out(&format!("{}_log.txt", base), b"");
        }
        if wc(1, 3) {
            // a link to nowhere, or to a file of somebody else
            let other = s.others.first().map(|o| o.0.rsplit('/').next().unwrap().to_string());
            let target = other.filter(|_| wc(1, 2)).unwrap_or("../scratch/log.txt".into());
            let _ = std::os::unix::fs::symlink(target, fs::real_path(&format!("{}_scratch", base)));
            cnt("links_left_by_solvers", 1);
        }
    }
    let part = |left: u32| {
        if left == 2 {
            write_out(&pe, &evec);
            write_out(&pv, &eval);
        } else if left == 1 {
            let n = w(evec.len() as u32 + 1) as usize;
            write_out(&pe, &evec[..n]);
            if wc(1, 2) {
                write_out(&pv, &eval[..w(9) as usize]);
            }
        }
    };
    let st = match out {
        Out::Good => {
            if wc(1, 2) {
                write_out(&pe, &evec);
                write_out(&pv, &eval);
            } else {
                write_out(&pv, &eval);
                write_out(&pe, &evec);
            }
            0
        }
        Out::Exit(c, left) => {
            fault(Fault::SolverExit);
            part(left);
            c << 8
        }
        Out::Signal(sig, left) => {
            fault(Fault::SolverCrash);
            part(left);
            // with or without a core file
            if wc(1, 3) { sig | 0x80 } else { sig }
        }
        Out::Bad(d, which) => {
            let mut e = Some(evec);
            let mut l = Some(eval);
            let hurt = |x: &mut Option<Vec<u8>>, vec: bool| {
                let b = x.as_mut().unwrap();
                let header = |b: &mut Vec<u8>, k: i32| b[4..8].copy_from_slice(&k.to_be_bytes());
                match d {
                    Dmg::Missing => *x = None,
                    Dmg::Empty => b.clear(),
                    Dmg::Torn => b.truncate(w(b.len() as u32) as usize),
                    Dmg::Magic if vec => {
                        let p = w(4) as usize;
                        b[p] ^= 1 << w(8);
                    }
                    Dmg::WrongLen if vec => {
                        // a well-formed vector of another length
                        let n = [m.saturating_sub(1), m + 1, 0, 2 * m + 1, m / 2][w(5) as usize];
                        let n = if n == m { m + 1 } else { n };
                        b.resize(8 + 8 * n, 0x40);
                        header(b, n as i32);
                    }
                    Dmg::HugeLen if vec => header(b, [i32::MAX, 1 << 29, m as i32 + 1, 3_000_000][w(4) as usize]),
                    Dmg::NegLen if vec => header(b, [-1, i32::MIN, -(m as i32)][w(3) as usize]),
                    Dmg::Swapped if vec => {
                        b[0..4].reverse();
                        b[4..8].reverse();
                    }
                    // the eigenvalue file has no structure to damage besides its length
                    _ => b.truncate(w(8) as usize),
                }
            };
            if which != 1 {
                hurt(&mut e, true);
            }
            if which != 0 {
                hurt(&mut l, false);
            }
            fault(match d {
                Dmg::Missing => Fault::SolverMissing,
                Dmg::Torn | Dmg::Empty => Fault::SolverTorn,
                _ => Fault::SolverCorrupt,
            });
            if let Some(e) = e {
                write_out(&pe, &e);
            }
            if let Some(l) = l {
                write_out(&pv, &l);
            }
            0
        }
    };
    pause();
    hold(&te, 2);
    solver().recs[id].done = true;
    st
}

/// Install the solver and an exchange directory.
pub fn install(dir: &str) {
    unsafe { spawn::HANDLER = Some(handler) };
    make_dir(&format!("{}/tmp", dir));
    std::env::set_var("GEP_SOLVE_DIR", dir);
    let s = solver();
    s.slow = if wc(1, 30) { 4 } else { w(4) };
    s.talk = [0, 1].map(|_| if wc(1, 6) { [80, 5_000, 70_000, 300_000][w(4) as usize] } else { 0 });
}

// ------------------------------------------------------------------------------------------------ running a solve

pub enum Got {
    Ok(EigenPair),
    Err(String, bool), // text, and whether it is the solver error type
    Panic(String),
}
pub fn run_solve(gep: GEP, te: f64) -> Got {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || slepc_solve_gep(gep, te))) {
        Ok(Ok(p)) => Got::Ok(p),
        Ok(Err(e)) => shielded(|| match e.downcast_ref::<SlepcGEPError>() {
            Some(k) => Got::Err(format!("{:?}", k), true),
            None => Got::Err(format!("{}", e), false),
        }),
        Err(e) => Got::Panic(panic_msg(&e)),
    }
}
fn solve(p: &Problem) -> Got {
    let g = p.gep();
    let te = p.te;
    cnt("solves", 1);
    let r = client(move || run_solve(g, te)).unwrap_or_else(|e| Got::Panic(panic_msg(&e)));
    match r {
        Got::Ok(_) => cnt("solves_ok", 1),
        _ => cnt("solves_err", 1),
    }
    r
}

/// Does a returned pair equal the solver's answer to this problem?
pub fn wrong(p: &Problem, got: &EigenPair) -> Option<String> {
    let [a, b] = p.bytes();
    let (v, x) = answer(&a, &b, p.te);
    if got.value.to_bits() != v {
        return Some(format!("eigenvalue {:e} instead of {:e}", got.value, f64::from_bits(v)));
    }
    if got.vector.len() != x.len() {
        return Some(format!("{} components instead of {}", got.vector.len(), x.len()));
    }
    for (i, (g, w)) in got.vector.iter().zip(&x).enumerate() {
        if g.to_bits() != *w {
            return Some(format!("component {} is {:e} instead of {:e}", i, g, f64::from_bits(*w)));
        }
    }
    None
}

pub const READS: [Fault; 3] = [Fault::ReadEintr, Fault::ReadShort, Fault::ReadErr];
pub const WRITES: [Fault; 3] = [Fault::WriteEintr, Fault::WriteShort, Fault::WriteErr];
pub const BENIGN: [Fault; 5] = [Fault::ReadEintr, Fault::ReadShort, Fault::WriteEintr, Fault::WriteShort, Fault::WaitEintr];

/// Draw a fault plan over these kinds of faults (first choice: no faults at all).
pub fn fault_plan(kinds: &[Fault], disk: bool) -> FsFaults {
    let mut c = NO_FAULTS;
    match f(5) {
        0 => return c,
        1 | 2 => {
            c.one_at = 1 + if fc(1, 2) { f(12) } else { f(60) };
            c.budget = 1;
            c.mask = kinds.iter().map(|k| bit(*k)).sum();
        }
        _ => {
            c.rate = [15, 60, 200, 500][f(4) as usize];
            c.budget = [1, 2, 5, 40][f(4) as usize];
            for k in kinds {
                if fc(1, 2) {
                    c.mask |= bit(*k);
                }
            }
        }
    }
    if disk && fc(1, 3) {
        c.full_after = match f(3) {
            0 => f(200) as u64,
            1 => f(20_000) as u64,
            _ => 0,
        };
        if fc(2, 3) {
            c.mask = 0;
        }
    }
    c
}

pub fn clock() {
    set_wall(match f(10) {
        1 => WallMode::Coarse(1_000_000_000),
        2 => WallMode::Jumpy,
        3 => WallMode::Frozen,
        4 => WallMode::PreEpoch,
        _ => WallMode::Normal,
    });
}

const DIR: &str = "/simfs/gep";
static mut CUR: &str = DIR;
fn dir() -> &'static str {
    unsafe { CUR }
}
/// Mostly the plain directory, sometimes one with an unusual name.
fn some_dir() -> &'static str {
    unsafe {
        CUR = match w(8) {
            0 => ["/simfs/my solver", "/simfs/a/b/c/d.e/f", "/simfs/solveur-é", "/simfs/tmp", "/simfs/$HOME;x*'\"", "/simfs/p_0_1_2"][w(6) as usize],
            1 => "/simfs/gep2",
            _ => DIR,
        };
        CUR
    }
}

pub fn listing(dir: &str) -> BTreeMap<Vec<u8>, Vec<u8>> {
    shielded(|| {
        let mut m = BTreeMap::new();
        if let Ok(rd) = std::fs::read_dir(dir) {
            for e in rd.flatten() {
                m.insert(e.file_name().into_vec(), std::fs::read(e.path()).unwrap_or_else(|_| b"(directory)".to_vec()));
            }
        }
        m
    })
}

// ------------------------------------------------------------------------------------------------ S06

fn s06_main(_: u32, _: u32) {
    session_mode();
    install(some_dir());
    for round in 0..wr(1, 3) {
        let pr = Problem::random(40);
        let out = if wc(1, 2) { damage() } else { outcome() };
        let s = solver();
        s.plan = vec![(pr.key(), out)];
        s.recs.clear();
        s.extra = wc(1, 6);
        s.foreign = wc(1, 3);
        fs::clear_injected();
        let mut kinds = vec![Fault::ReadEintr, Fault::ReadShort, Fault::WriteEintr, Fault::WriteShort, Fault::WaitEintr];
        if fc(1, 2) {
            kinds.extend([Fault::ReadErr, Fault::OpenFail]);
        }
        fs::set_faults(fault_plan(&kinds, false));
        note!("[{}] dim={} {:?}", round, pr.dim, out);
        let r = solve(&pr);
        fs::set_faults(NO_FAULTS);
        let hard = fs::hard();
        let rec = solver().recs.last().cloned();
        if let Some(b) = rec.as_ref().and_then(|r| r.bad_input.clone()) {
            if hard == 0 {
                fail("solve/bad-input", &format!("the solver got incomplete matrices: {}", b));
            }
        }
        match r {
            Got::Panic(m) => fail("solve/panic", &format!("{:?}: the call panicked: {}", out, m)),
            Got::Ok(pair) => {
                match rec {
                    Some(r) if r.done && r.out == Out::Good => (),
                    Some(r) => fail("solve/made-up", &format!("success although the solver ended with {:?}", r.out)),
                    None => fail("solve/made-up", "success although no solver ran"),
                }
                if let Some(e) = wrong(&pr, &pair) {
                    fail("solve/wrong-solution", &e);
                }
            }
            Got::Err(e, _) => {
                if hard == 0 && out == Out::Good {
                    fail("solve/lost-solution", &format!("the solver succeeded, nothing failed, but the call returned: {}", e));
                }
            }
        }
        // the same problem solves once the trouble is over
        if wc(1, 2) {
            solver().plan.clear();
            solver().recs.clear();
            cnt("retries", 1);
            match solve(&pr) {
                Got::Ok(pair) => {
                    if let Some(e) = wrong(&pr, &pair) {
                        fail("solve/wrong-after-failure", &e);
                    }
                }
                Got::Err(e, _) => fail("solve/refused-after-failure", &format!("after an earlier failure an undisturbed solve returned: {}", e)),
                Got::Panic(e) => fail("solve/refused-after-failure", &format!("after an earlier failure an undisturbed solve panicked: {}", e)),
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ S07

fn s07_main(_: u32, _: u32) {
    session_mode();
    for round in 0..wr(1, 3) {
        if round == 0 || wc(1, 3) {
            install(some_dir());
        }
        let pr = Problem::random(20);
        let mode = w(10);
        solver().recs.clear();
        fs::clear_injected();
        clock();
        let g = pr.gep();
        std::env::set_var("GEP_SOLVE_DIR", if wc(1, 6) { format!("{}/", dir()) } else { dir().to_string() });
        if mode < 3 {
            // no usable directory
            match mode {
                0 => std::env::remove_var("GEP_SOLVE_DIR"),
                1 => std::env::set_var("GEP_SOLVE_DIR", ["/simfs/nowhere", "", "/simfs/file"][w(3) as usize]),
                _ => std::env::set_var("GEP_SOLVE_DIR", std::ffi::OsStr::from_bytes(b"/simfs/g\xff\xfep")),
            }
            put_file("/simfs/file", b"not a directory");
            note!("[{}] directory {:?}", round, std::env::var_os("GEP_SOLVE_DIR"));
            cnt("solves", 1);
            let te = pr.te;
            match client(move || run_solve(g, te)).unwrap_or_else(|e| Got::Panic(panic_msg(&e))) {
                Got::Ok(_) => fail("failure/success", "success without a usable solver directory"),
                Got::Panic(m) => fail("failure/panic", &format!("panic without a usable solver directory: {}", m)),
                Got::Err(k, t) => {
                    if mode == 0 && !(t && k == "SolverNotFound") {
                        fail("failure/kind", &format!("unset directory reported as {}", k));
                    }
                }
            }
            if !solver().recs.is_empty() {
                fail("failure/started", "a solver was started without a usable solver directory");
            }
            continue;
        }
        let out = match w(4) {
            0 => Out::Good,
            1 => Out::Signal([6, 9, 11, 13, 15, 7, 8][w(7) as usize], w(3)),
            _ => Out::Exit(if wc(3, 4) { wr(1, 10) } else { wr(1, 255) } as i32, w(3)),
        };
        solver().plan = vec![(pr.key(), out)];
        for k in ["PETSC_OPTIONS", "OMP_NUM_THREADS", "LD_LIBRARY_PATH", "SLEPC_DIR"] {
            match w(4) {
                0 => std::env::set_var(k, ["-eps_tol 1e-9 -log_view", "2", "/opt/petsc/lib:/usr/lib", ""][w(4) as usize]),
                1 => std::env::remove_var(k),
                _ => (),
            }
        }
        let mut kinds = vec![Fault::WaitEintr];
        if fc(1, 2) {
            kinds.extend([Fault::SpawnFail, Fault::WaitFail]);
        }
        let disk = fc(1, 4);
        if disk {
            kinds.extend([Fault::OpenFail, Fault::WriteErr, Fault::ReadErr, Fault::DirFail, Fault::UnlinkFail]);
        }
        let mut plan = fault_plan(&kinds, false);
        if !disk && plan.one_at != 0 {
            plan.one_at = 1 + plan.one_at % 3;
        }
        fs::set_faults(plan);
        let before = sh().faults;
        note!("[{}] dim={} {:?}", round, pr.dim, out);
        let r = solve(&pr);
        fs::set_faults(NO_FAULTS);
        let happened = |k: Fault| sh().faults[k as usize] > before[k as usize];
        let launch = happened(Fault::SpawnFail) || happened(Fault::WaitFail);
        let early = [Fault::OpenFail, Fault::WriteErr].iter().any(|k| happened(*k));
        let io = early || [Fault::ReadErr, Fault::DirFail, Fault::UnlinkFail].iter().any(|k| happened(*k));
        if let Some(rec) = solver().recs.last() {
            let ok = rec.file == "mpiexec" && rec.argv.iter().any(|a| a == "./solve_gep") && rec.cwd.trim_end_matches('/') == dir();
            if !ok {
                fail("failure/invocation", &format!("solver started as {} {:?} in {}", rec.file, rec.argv, rec.cwd));
            }
            for (k, v) in std::env::vars_os() {
                let line = [k.as_bytes(), b"=", v.as_bytes()].concat();
                if !rec.env.contains(&line) {
                    fail("failure/invocation", &format!("the solver does not see the environment variable {:?} = {:?}", k, v));
                }
            }
            let te: f64 = rec.te.parse().unwrap_or(f64::NAN);
            if !((te - pr.te).abs() <= 1e-9 * pr.te.abs().max(1.0)) {
                fail("failure/invocation", &format!("solver got the target {} instead of {}", rec.te, pr.te));
            }
            if rec.bad_input.is_none() && rec.key != pr.key() {
                fail("failure/invocation", "the prefix given to the solver names another problem's matrices");
            }
            if let (Some(b), false) = (&rec.bad_input, early) {
                fail("failure/invocation", &format!("the prefix given to the solver names no complete matrices: {}", b));
            }
        }
        let want = if launch { "FailedToExecute" } else { out.kind() };
        match r {
            Got::Panic(m) => fail("failure/panic", &format!("{:?}: panic: {}", out, m)),
            Got::Ok(_) if want != "Ok" => fail("failure/success", &format!("{:?} (launch fault: {}) reported as success", out, launch)),
            Got::Ok(_) => (),
            Got::Err(k, t) => {
                // an I/O error may be what is reported, unless it only hit the clean-up of a failed solve
                if early || (io && want == "Ok") {
                    continue;
                }
                if want == "Ok" {
                    fail("failure/refused", &format!("the solver succeeded but the call returned {}", k));
                }
                if !(t && k == want) {
                    fail("failure/kind", &format!("{:?} (launch fault: {}) reported as {} instead of {}", out, launch, k, want));
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ S08

fn s08_main(_: u32, _: u32) {
    session_mode();
    install(some_dir());
    let tmp = format!("{}/tmp", dir());
    // what is already there
    if wc(1, 10) {
        for k in 0..(if wc(1, 20) { wr(1000, 3000) } else { wr(20, 250) }) {
            shielded(|| std::fs::write(format!("{}/{}_{}.dat", tmp, ["data", "p_17", "run.p_", "x_evec"][k as usize % 4], k), b"many").unwrap_or_else(|e| harness_error(&e.to_string())));
        }
    }
    for _ in 0..w(6) {
        let name: Vec<u8> = match w(8) {
            0 => format!("p_{}_a.dat", w(100_000_000)).into_bytes(),
            1 => format!("p_{}_{}_evec.dat", w(100_000_000), w(5000)).into_bytes(),
            2 => b"p_".to_vec(),
            3 => b"_evec.dat".to_vec(),
            4 => "données".as_bytes().to_vec(),
            5 => b"\xff\xfe\x80_a.dat".to_vec(),
            6 => format!("matrix{}.dat", w(50)).into_bytes(),
            _ => b".keep".to_vec(),
        };
        let mut path = tmp.clone().into_bytes();
        path.push(b'/');
        path.extend(&name);
        shielded(|| std::fs::write(std::ffi::OsStr::from_bytes(&path), b"precious").unwrap_or_else(|e| harness_error(&e.to_string())));
    }
    if wc(1, 8) {
        make_dir(&format!("{}/sub", tmp));
    }
    // the files of others may be old
    let age = [0, 20, 700, 100_000, 40_000_000][w(5) as usize];
    for name in listing(&tmp).into_keys() {
        let mut path = tmp.clone().into_bytes();
        path.push(b'/');
        path.extend(&name);
        fs::age(&path, age);
    }
    solver().foreign = wc(1, 2);
    for round in 0..wr(1, 3) {
        let mut want = listing(&tmp);
        let pr = Problem::random(20);
        let out = outcome();
        let s = solver();
        s.plan = vec![(pr.key(), out)];
        s.recs.clear();
        s.others.clear();
        s.extra = wc(1, 3);
        fs::clear_injected();
        clock();
        let mut kinds = vec![Fault::WriteErr, Fault::OpenFail, Fault::ReadErr, Fault::SpawnFail, Fault::WaitFail, Fault::WriteShort, Fault::WriteEintr];
        if fc(1, 5) {
            kinds.extend([Fault::UnlinkFail, Fault::DirFail]);
        }
        kinds = kinds.into_iter().filter(|_| fc(2, 3)).take(8).collect();
        fs::set_faults(fault_plan(&kinds, true));
        let before = sh().faults;
        note!("[{}] dim={} {:?} foreign={} files={}", round, pr.dim, out, solver().foreign, want.len());
        let r = solve(&pr);
        fs::set_faults(NO_FAULTS);
        let happened = |k: Fault| sh().faults[k as usize] > before[k as usize];
        let how = match &r {
            Got::Ok(_) => "success".to_string(),
            Got::Err(e, _) => format!("error {}", e),
            Got::Panic(e) => format!("panic {}", e),
        };
        let got = listing(&tmp);
        for (path, data) in &solver().others {
            want.insert(path.rsplit('/').next().unwrap().as_bytes().to_vec(), data.clone());
        }
        cnt("files_checked", want.len() as u64);
        for (k, v) in &want {
            let name = String::from_utf8_lossy(k);
            match got.get(k) {
                None => fail("hygiene/deleted-foreign", &format!("{:?}: the solve deleted {}, which is not its file", out, name)),
                Some(x) if x != v => fail("hygiene/changed-foreign", &format!("{:?}: the solve changed {}, which is not its file", out, name)),
                _ => (),
            }
        }
        // every refused deletion may keep one file; a refused directory scan may keep all of them
        let mut allowed = sh().faults[Fault::UnlinkFail as usize] - before[Fault::UnlinkFail as usize];
        if !happened(Fault::DirFail) {
            for k in got.keys() {
                if !want.contains_key(k) {
                    if allowed > 0 {
                        allowed -= 1;
                        continue;
                    }
                    fail("hygiene/left-behind", &format!("{:?}, call ended with {}: {} stays in the exchange directory", out, how, String::from_utf8_lossy(k)));
                }
            }
        }
        if fs::open_sim_fds() != 0 || fs::open_sim_dirs() != 0 {
            fail("hygiene/open-handles", &format!("{} file and {} directory handles stay open ({})", fs::open_sim_fds(), fs::open_sim_dirs(), how));
        }
        if spawn::unreaped() != 0 {
            fail("hygiene/zombie", "a solver process was never waited for");
        }
        if let Got::Panic(m) = r {
            fail("hygiene/panic", &format!("{:?}: the call panicked: {}", out, m));
        }
        // clear what a refused deletion left, so that the rounds stay independent
        for k in got.keys() {
            if !want.contains_key(k) {
                let mut path = tmp.clone().into_bytes();
                path.push(b'/');
                path.extend(k);
                shielded(|| std::fs::remove_file(std::ffi::OsStr::from_bytes(&path)).ok());
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ S09

fn s09_plan(stage: u32) -> Option<u32> {
    match stage {
        0 => Some(1 + w(3)),
        1 => Some(1),
        _ => None,
    }
}

fn s09_main(stage: u32, proc: u32) {
    session_mode();
    let tmp = format!("{}/tmp", DIR);
    if stage == 1 {
        // everything is over: only other people's files may be there
        let crashed = sh().faults[Fault::Crash as usize] > 0;
        for k in listing(&tmp).into_keys() {
            let name = String::from_utf8_lossy(&k).into_owned();
            let foreign = get_file(&format!("/simfs/foreign/{}", name)).is_some();
            if !foreign && !crashed {
                fail("isolation/left-behind", &format!("{} stays in the exchange directory", name));
            }
        }
        for (k, v) in listing("/simfs/foreign") {
            let name = String::from_utf8_lossy(&k).into_owned();
            if get_file(&format!("{}/{}", tmp, name)) != Some(v) {
                fail("isolation/deleted-foreign", &format!("{} was deleted or changed by a solve it does not belong to", name));
            }
        }
        return;
    }
    install(DIR);
    make_dir("/simfs/foreign");
    let s = solver();
    s.slow = if wc(1, 30) { 4 } else { 1 + w(3) };
    s.foreign = wc(1, 3);
    s.extra = wc(1, 3);
    set_wall([WallMode::Normal, WallMode::Frozen, WallMode::Coarse(1_000_000_000), WallMode::Jumpy, WallMode::PreEpoch, WallMode::Coarse(15_000_000)][f(6) as usize]);
    sh().procs[proc as usize].wall_off = [0, 0, -3_600_000_000_000, 1_000, 86_400_000_000_000][f(5) as usize];
    if proc > 0 && fc(1, 6) {
        plan_crash(Some(1 + f(400) as u64), None);
    }
    let benign = fault_plan(&BENIGN, false);
    let threads = wr(1, 4) as usize;
    // all the problems of one size, so that nothing but its name tells whose a file is
    let same = if wc(1, 2) { wr(1, 4) as usize } else { 0 };
    let lists: Vec<Vec<Problem>> = (0..threads).map(|_| (0..wr(1, 3)).map(|_| if same > 0 { Problem::of(same) } else { Problem::random(12) }).collect()).collect();
    let mut all: Vec<u64> = vec![];
    for pr in lists.iter().flatten() {
        let out = if wc(1, 4) {
            match w(4) {
                0 => Out::Bad(Dmg::Missing, w(3)),
                1 => damage(),
                _ => Out::Exit(wr(1, 9) as i32, w(3)),
            }
        } else {
            Out::Good
        };
        let k = pr.key();
        if !all.contains(&k) {
            all.push(k);
            s.plan.push((k, out));
        }
    }
    note!("proc {}: threads={} problems={:?} wall={:?}", proc, threads, lists.iter().map(|l| l.len()).collect::<Vec<_>>(), unsafe { simrt::intercept::WALL });
    // problems are equal only if their matrices are; equal problems share an outcome
    let outs = |p: &Problem| solver().plan.iter().find(|x| x.0 == p.key()).unwrap().1;
    fs::set_faults(benign);
    let work = lists
        .iter()
        .map(|l| {
            let jobs: Vec<(GEP, f64)> = l.iter().map(|p| (p.gep(), p.te)).collect();
            Box::new(move || {
                jobs.into_iter()
                    .map(|(g, te)| {
                        cnt("solves", 1);
                        run_solve(g, te)
                    })
                    .collect::<Vec<_>>()
            }) as Box<dyn FnOnce() -> Vec<Got> + Send>
        })
        .collect();
    let got = clients(work);
    fs::set_faults(NO_FAULTS);
    simrt::sched::cancel_crash();
    for (path, data) in &solver().others {
        put_file(&format!("/simfs/foreign/{}", path.rsplit('/').next().unwrap()), data);
    }
    for (l, g) in lists.iter().zip(got) {
        let g = g.unwrap_or_else(|e| fail("isolation/panic", &panic_msg(&e)));
        for (p, r) in l.iter().zip(g) {
            let out = outs(p);
            match r {
                Got::Panic(m) => fail("isolation/panic", &format!("a concurrent solve panicked: {}", m)),
                Got::Ok(pair) => {
                    cnt("solves_ok", 1);
                    if out != Out::Good {
                        fail("isolation/foreign-solution", &format!("a solve whose solver ended with {:?} returned a solution", out));
                    }
                    if let Some(e) = wrong(p, &pair) {
                        fail("isolation/foreign-solution", &format!("a concurrent solve returned another solution: {}", e));
                    }
                }
                Got::Err(e, t) => {
                    cnt("solves_err", 1);
                    if out == Out::Good {
                        fail("isolation/disturbed", &format!("a concurrent solve failed although its solver succeeded: {}", e));
                    }
                    if let Out::Exit(..) = out {
                        if !t || e != out.kind() {
                            fail("isolation/foreign-outcome", &format!("a concurrent solve ending with {:?} reported {}", out, e));
                        }
                    }
                }
            }
        }
    }
    if let Some(r) = solver().recs.iter().find(|r| r.bad_input.is_some()) {
        fail("isolation/bad-input", &format!("a solver found its matrices damaged: {}", r.bad_input.as_ref().unwrap()));
    }
}

/// One solver is slow, hundreds of other problems are solved meanwhile.
fn s09_many(_: u32, _: u32) {
    install(DIR);
    let s = solver();
    (s.slow, s.talk) = (0, [0; 2]);
    set_wall([WallMode::Frozen, WallMode::Frozen, WallMode::Coarse(1_000_000_000), WallMode::Jumpy, WallMode::PreEpoch][f(5) as usize]);
    sh().step_limit *= 4;
    let mut slow = Problem::of(wr(1, 6) as usize);
    slow.te = 77_777.5;
    s.held = Some((format!("{:.10}", slow.te), w(3)));
    let n = wr(200, 300);
    let quick: Vec<Problem> = (0..wr(1, 5)).map(|_| Problem::of(slow.dim)).collect();
    let done = std::sync::atomic::AtomicU32::new(0);
    let (slow, quick, done) = (&slow, &quick, &done);
    let threads = wr(1, 3) as usize;
    note!("{} threads with {} solves each beside a slow one, wall={:?}", threads, n, unsafe { simrt::intercept::WALL });
    let one = |p: &Problem| {
        cnt("solves", 1);
        match run_solve(p.gep(), p.te) {
            Got::Ok(pair) => wrong(p, &pair),
            Got::Err(e, _) => Some(format!("it failed: {}", e)),
            Got::Panic(e) => Some(format!("it panicked: {}", e)),
        }
    };
    let mut work: Vec<Box<dyn FnOnce() -> Option<String> + Send>> = vec![Box::new(move || one(slow))];
    for _ in 0..threads {
        work.push(Box::new(move || {
            let e = (0..n).find_map(|k| one(&quick[k as usize % quick.len()]));
            if done.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1 == threads as u32 {
                solver().held = None;
            }
            e
        }));
    }
    for (k, r) in clients(work).into_iter().enumerate() {
        let r = r.unwrap_or_else(|e| fail("isolation/panic", &panic_msg(&e)));
        if let Some(e) = r {
            fail("isolation/long", &format!("{} among hundreds of others: {}", if k == 0 { "the slow solve" } else { "a quick solve" }, e));
        }
    }
    for name in listing(&format!("{}/tmp", DIR)).into_keys() {
        fail("isolation/left-behind", &format!("{} stays in the exchange directory", String::from_utf8_lossy(&name)));
    }
}

// ------------------------------------------------------------------------------------------------ S10

fn s10_check(what: &str, path: &str, want: &[u8]) {
    cnt("files_checked", 1);
    let got = get_file(path).unwrap_or_default();
    if got != want {
        let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        fail("matrix-file/incomplete", &format!("{}: success, but the file has {} bytes, {} expected; first difference at {}", what, got.len(), want.len(), at));
    }
}

fn s10_main(_: u32, _: u32) {
    session_mode();
    install(DIR);
    let pr = if wc(1, 400) { Problem::huge() } else { Problem::random(60) };
    let [ra, rb] = pr.bytes();
    let kinds = [Fault::OpenFail, Fault::WriteEintr, Fault::WriteShort, Fault::WriteErr];
    let mode = w(8);
    note!("dim={} entries={}+{} mode={}", pr.dim, pr.a.len(), pr.b.len(), mode);
    let stale = wc(1, 3);
    let tmp = format!("{}/tmp", DIR);
    if stale {
        for n in ["q_a.dat", "q_b.dat", "one.dat"] {
            put_file(&format!("{}/{}", tmp, n), &vec![0x5a; wr(0, 30_000) as usize]);
        }
    }
    for round in 0..2 {
        fs::clear_injected();
        if round == 0 {
            fs::set_faults(fault_plan(&kinds, true));
        } else {
            cnt("retries", 1);
        }
        let verdict = |r: Caught<Result<(), String>>, what: &str| -> bool {
            let hard = fs::hard();
            fs::set_faults(NO_FAULTS);
            match r {
                Err(e) => fail("matrix-file/panic", &format!("{}: panic: {}", what, panic_msg(&e))),
                Ok(Ok(())) => true,
                Ok(Err(e)) => {
                    if hard == 0 {
                        fail("matrix-file/refused", &format!("{}: nothing failed but the write returned {}", what, e));
                    }
                    false
                }
            }
        };
        match mode {
            0..=2 => {
                let g = pr.gep();
                let r = client(move || g.print_to_petsc_binary_files(DIR, "q").map_err(|e| e.to_string()));
                if verdict(r, "system") {
                    s10_check("matrix A", &format!("{}/q_a.dat", tmp), &ra);
                    s10_check("matrix B", &format!("{}/q_b.dat", tmp), &rb);
                }
            }
            3 | 4 => {
                let m: AIJMatrixBinary = Problem::matrix(pr.dim, &pr.a).into();
                let path = format!("{}/one.dat", tmp);
                let p2 = path.clone();
                let r = client(move || m.print_to_petsc_binary_file(p2).map_err(|e| e.to_string()));
                if verdict(r, "matrix") {
                    s10_check("matrix", &path, &ra);
                }
            }
            5 => {
                let m = Problem::matrix(pr.dim, &pr.b);
                let path = format!("{}/one.dat", tmp);
                let (p2, m2) = (path.clone(), m.clone());
                let r = client(move || m2.write_to_petsc_binary_format(p2).map_err(|e| e.to_string()));
                if verdict(r, "sparse matrix") {
                    s10_check("sparse matrix", &path, &rb);
                }
                // writing borrows the matrix: it must still be what it was
                let left: Vec<_> = m.iter_upper_tri().map(|(k, v)| (k, v.to_bits())).collect();
                if left != pr.b.iter().map(|(k, v)| (*k, v.to_bits())).collect::<Vec<_>>() {
                    fail("matrix-file/changed", "writing a matrix changed it");
                }
            }
            _ => {
                solver().recs.clear();
                let r = solve(&pr);
                let hard = fs::hard();
                fs::set_faults(NO_FAULTS);
                if let Some(rec) = solver().recs.last() {
                    if let Some(b) = &rec.bad_input {
                        fail("matrix-file/solver-started", &format!("the solver was started on incomplete matrices: {}", b));
                    }
                    if rec.key != pr.key() {
                        fail("matrix-file/solver-started", "the solver was started on matrices that differ from the system's");
                    }
                }
                match r {
                    Got::Panic(m) => fail("matrix-file/panic", &format!("solve: panic: {}", m)),
                    Got::Err(e, _) if hard == 0 => fail("matrix-file/refused", &format!("solve: nothing failed but the call returned {}", e)),
                    _ => (),
                }
            }
        }
    }
}

const REAL: &str = "slepc_solve_gep, GEP/SparseMatrix/AIJMatrixBinary writers, std::process, std::fs and std::io (real code)";
const STUB: &str = "mpiexec/solve_gep (a simulated process answering deterministically from the matrix files it reads), disk faults, wall clock, process ids, thread and process scheduling";

pub fn s06() -> Prop {
    let items: Vec<Item> = vec![item("answer", one_stage, s06_main, 25000, 800000)];
    Prop { id: "S06", items, real: REAL, stub: STUB, assumptions: vec!["the solver follows the documented file protocol"] }
}
pub fn s07() -> Prop {
    let items: Vec<Item> = vec![item("failure", one_stage, s07_main, 30000, 800000)];
    Prop { id: "S07", items, real: REAL, stub: STUB, assumptions: vec!["exit codes as documented by the solver"] }
}
pub fn s08() -> Prop {
    let items: Vec<Item> = vec![item("hygiene", one_stage, s08_main, 30000, 800000)];
    Prop { id: "S08", items, real: REAL, stub: STUB, assumptions: vec!["the solver names its files <prefix>_<something>"] }
}
pub fn s09() -> Prop {
    let items: Vec<Item> = vec![item("isolation", s09_plan, s09_main, 5000, 800000), item("many", one_stage, s09_many, 60, 3000)];
    Prop { id: "S09", items, real: REAL, stub: STUB, assumptions: vec!["processes sharing the directory at one time have distinct process ids (one PID namespace)"] }
}
pub fn s10() -> Prop {
    let items: Vec<Item> = vec![item("matrix-file", one_stage, s10_main, 30000, 800000)];
    Prop { id: "S10", items, real: REAL, stub: STUB, assumptions: vec![] }
}
