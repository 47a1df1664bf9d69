//! Histories of refinement calls: accepted, refused and interrupted ones.
use crate::common::*;
use crate::gen::{self, Desc};
use crate::model::*;
use crate::{item, note, Item, Prop};
use fem_2d::fem_domain::domain::mesh::space::ParaDir;
use fem_2d::prelude::*;
use simrt::shared::*;
use std::cell::Cell;
use std::collections::BTreeMap;

const HALT: &str = "injected filter panic 51c2";

#[derive(Clone, Debug)]
pub enum Op {
    HGlobal(HRef),
    HElems(Vec<usize>, HRef),
    /// salt, panic at this call (0: never)
    HFilter(u32, u32),
    HExec(Vec<(usize, HRef)>),
    PGlobal(i8, i8),
    PElems(Vec<usize>, i8, i8),
    PFilter(u32, u32),
    PFilterB(u32, u32),
    PExec(Vec<(usize, [i8; 2])>),
    OGlobal(u8, u8),
    OElems(Vec<usize>, u8, u8),
    OFilter(u32, u32),
    OExec(Vec<(usize, [u8; 2])>),
}

/// A mesh, its model, and how it came to be.
pub struct Hist {
    pub mesh: Mesh,
    pub model: Model,
    pub path: String,
    pub unit: bool,
    pub accepted: Vec<Op>,
}

fn salted(salt: u32, id: usize) -> u64 {
    h64(salt as u64 ^ 0x5eed, id as u64)
}
fn f_href(salt: u32, id: usize) -> Option<HRef> {
    let h = salted(salt, id);
    let odd = if (salt >> 4) % 9 == 1 { 3 } else { 1 };
    match h % 11 {
        0 => Some(HRef::T),
        1 => Some(HRef::U(None)),
        2 => Some(HRef::V(None)),
        3 => Some(HRef::U(Some((h >> 20) as usize % (1 + odd)))),
        4 => Some(HRef::V(Some((h >> 20) as usize % (1 + odd)))),
        _ => None,
    }
}
fn f_pref(salt: u32, id: usize) -> Option<[i8; 2]> {
    let h = salted(salt, id);
    let big = salt % 7 == 2;
    let one = |x: u64| if big { x as u8 as i8 } else { (x % 5) as i8 - 2 };
    (h % 3 != 0).then(|| [one(h >> 12), one(h >> 32)])
}
fn f_ord(salt: u32, id: usize) -> Option<[u8; 2]> {
    let h = salted(salt, id);
    (h % 3 != 0).then(|| [1 + (h >> 12) as u8 % 6, 1 + (h >> 32) as u8 % 6])
}

enum Want {
    Orders(BTreeMap<usize, [u8; 2]>),
    Splits(BTreeMap<usize, HRef>),
    Refused(Kinds),
    Panic,
}

fn kind(e: &str) -> String {
    e.chars().take_while(|c| c.is_alphanumeric()).collect()
}

impl Hist {
    /// From a file, or made by `Mesh::unit`.
    pub fn any(desc: &Desc, path: &str) -> Hist {
        if !wc(1, 12) {
            return Hist::new(desc, path);
        }
        let desc = Desc {
            nodes: vec![[-1.0, -1.0], [1.0, -1.0], [-1.0, 1.0], [1.0, 1.0]],
            cells: vec![([0, 1, 2, 3], [1.0, 0.0, 1.0, 0.0])],
        };
        let mut h = Hist::new(&desc, path);
        h.mesh = Mesh::unit();
        h.unit = true;
        h
    }
    pub fn new(desc: &Desc, path: &str) -> Hist {
        Hist { unit: false, mesh: gen::load(desc, path), model: Model::new(desc), path: path.into(), accepted: vec![] }
    }
    fn predict(&self, op: &Op) -> Want {
        let m = &self.model;
        let all = 0..m.len();
        let h = |b: &[(usize, HRef)]| match m.plan_h(b) {
            Ok(x) => Want::Splits(x),
            Err(k) => Want::Refused(k),
        };
        let p = |b: &[(usize, [i64; 2])]| match m.plan_p(b) {
            Ok(x) => Want::Orders(x),
            Err(k) => Want::Refused(k),
        };
        let o = |b: &[(usize, [u8; 2])]| match m.plan_o(b) {
            Ok(x) => Want::Orders(x),
            Err(k) => Want::Refused(k),
        };
        let silent = |w: Want| match w {
            Want::Refused(_) => Want::Panic,
            x => x,
        };
        let dup = |w: Want, ids: &[usize]| {
            let mut v = ids.to_vec();
            v.sort();
            if v.windows(2).any(|x| x[0] == x[1]) {
                let mut k = vec!["DuplicateElemIds"];
                if let Want::Refused(l) = w {
                    k.extend(l);
                }
                Want::Refused(k)
            } else {
                w
            }
        };
        let clamp = |c: usize, d: [i8; 2]| {
            let b = m.window(c);
            (c, [0, 1].map(|k| (d[k] as i64).clamp(b[k][0], b[k][1])))
        };
        let wide = |d: [i8; 2]| d.map(|x| x as i64);
        let halts = |calls: usize, at: u32| at > 0 && calls >= at as usize;
        match op {
            Op::HGlobal(r) => silent(h(&all.filter(|c| m.refineable(*c)).map(|c| (c, *r)).collect::<Vec<_>>())),
            Op::HElems(l, r) => dup(h(&l.iter().map(|c| (*c, *r)).collect::<Vec<_>>()), l),
            Op::HFilter(s, at) => {
                let cand: Vec<usize> = all.filter(|c| m.refineable(*c)).collect();
                if halts(cand.len(), *at) {
                    return Want::Panic;
                }
                silent(h(&cand.into_iter().filter_map(|c| f_href(*s, c).map(|r| (c, r))).collect::<Vec<_>>()))
            }
            Op::HExec(b) => h(b),
            Op::PGlobal(i, j) => silent(p(&all.map(|c| clamp(c, [*i, *j])).collect::<Vec<_>>())),
            Op::PElems(l, i, j) => dup(p(&l.iter().map(|c| (*c, wide([*i, *j]))).collect::<Vec<_>>()), l),
            Op::PFilter(s, at) => {
                if halts(m.len(), *at) {
                    return Want::Panic;
                }
                silent(p(&all.filter_map(|c| f_pref(*s, c).map(|d| clamp(c, d))).collect::<Vec<_>>()))
            }
            Op::PFilterB(s, at) => {
                if halts(m.len(), *at) {
                    return Want::Panic;
                }
                p(&all.filter_map(|c| f_pref(*s, c).map(|d| (c, wide(d)))).collect::<Vec<_>>())
            }
            Op::PExec(b) => p(&b.iter().map(|(c, d)| (*c, wide(*d))).collect::<Vec<_>>()),
            Op::OGlobal(i, j) => silent(o(&all.map(|c| (c, [*i, *j])).collect::<Vec<_>>())),
            Op::OElems(l, i, j) => dup(o(&l.iter().map(|c| (*c, [*i, *j])).collect::<Vec<_>>()), l),
            Op::OFilter(s, at) => {
                if halts(m.len(), *at) {
                    return Want::Panic;
                }
                silent(o(&all.filter_map(|c| f_ord(*s, c).map(|d| (c, d))).collect::<Vec<_>>()))
            }
            Op::OExec(b) => o(b),
        }
    }
    /// Call the real method in a thread of the simulated system.
    fn call(mesh: &mut Mesh, op: &Op) -> Caught<Result<(), String>> {
        client(move || Self::apply(mesh, op))
    }
    /// Call the real method.
    pub fn apply(mesh: &mut Mesh, op: &Op) -> Result<(), String> {
            let op = op.clone();
            let calls = Cell::new(0u32);
            let tick = |at: u32| {
                calls.set(calls.get() + 1);
                if at > 0 && calls.get() == at {
                    fault(Fault::CallbackPanic);
                    cnt("panics_injected", 1);
                    panic!("{}", HALT)
                }
            };
            let h = |r: Result<(), HRefError>| r.map_err(|e| format!("{:?}", e));
            let p = |r: Result<(), PRefError>| r.map_err(|e| format!("{:?}", e));
            match op {
                Op::HGlobal(r) => Ok(mesh.global_h_refinement(r)),
                Op::HElems(l, r) => h(mesh.h_refine_elems(l, r)),
                Op::HFilter(s, at) => Ok(mesh.h_refine_with_filter(|e| {
                    tick(at);
                    f_href(s, e.id)
                })),
                Op::HExec(b) if b.iter().any(|x| matches!(x.1, HRef::U(Some(k)) | HRef::V(Some(k)) if k > 1)) => h(mesh.execute_h_refinements(b)),
                Op::HExec(b) => h(mesh.execute_h_refinements(combined(b, mesh.elems.len()))),
                Op::PGlobal(i, j) => Ok(mesh.global_p_refinement(PRef::from(i, j))),
                Op::PElems(l, i, j) => p(mesh.p_refine_elems(l, PRef::from(i, j))),
                Op::PFilter(s, at) => Ok(mesh.p_refine_with_filter(|e| {
                    tick(at);
                    f_pref(s, e.id).map(|d| PRef::from(d[0], d[1]))
                })),
                Op::PFilterB(s, at) => p(mesh.p_refine_with_filter_bounded(|e, b| {
                    tick(at);
                    let o = &e.poly_orders;
                    let want = [o.ni, o.nj].map(|x| [1 - x as i8, MAX_ORDER as i8 - x as i8]);
                    if b != want {
                        fail("batch/window", &format!("element {}: the filter got the window {:?} instead of {:?}", e.id, b, want));
                    }
                    f_pref(s, e.id).map(|d| PRef::from(d[0], d[1]))
                })),
                Op::PExec(b) => p(mesh.execute_p_refinements(combined(b.into_iter().map(|(c, d)| (c, PRef::from(d[0], d[1]))).collect(), mesh.elems.len()))),
                Op::OGlobal(i, j) => Ok(mesh.set_global_expansion_orders(Orders::new(i, j))),
                Op::OElems(l, i, j) => p(mesh.set_expansion_on_elems(l, Orders::new(i, j))),
                Op::OFilter(s, at) => Ok(mesh.set_expansions_with_filter(|e| {
                    tick(at);
                    f_ord(s, e.id).map(|d| Orders::new(d[0], d[1]))
                })),
                Op::OExec(b) => p(mesh.set_expansion_orders(b.into_iter().map(|(c, d)| (c, Orders::new(d[0], d[1]))).collect())),
            }
    }
    /// Perform one call and judge its outcome; the mesh must match the model afterwards.
    pub fn step(&mut self, op: Op) -> bool {
        cnt("refinement_ops", 1);
        let want = self.predict(&op);
        let before = match want {
            Want::Refused(_) | Want::Panic => Some(format!("{:?}", self.mesh)),
            _ => None,
        };
        let r = Self::call(&mut self.mesh, &op);
        let what = brief(&op);
        let took = match (want, r) {
            (Want::Orders(x), Ok(Ok(()))) => {
                self.model.apply_o(&x);
                true
            }
            (Want::Splits(x), Ok(Ok(()))) => {
                if let Err(e) = self.model.apply_h(&x, &self.mesh) {
                    fail("batch/wrong-change", &format!("{}: {}", what, e));
                }
                true
            }
            (Want::Orders(_) | Want::Splits(_), Ok(Err(e))) => fail("batch/refused", &format!("{} is valid but was refused: {}", what, e)),
            (Want::Orders(_) | Want::Splits(_), Err(e)) => fail("batch/panic", &format!("{} is valid but panicked: {}", what, panic_msg(&e))),
            (Want::Refused(k), Ok(Ok(()))) => fail("batch/accepted", &format!("{} was accepted although {:?}", what, k)),
            (Want::Refused(k), Ok(Err(e))) => {
                cnt("refinement_ops_rejected", 1);
                fault(Fault::Rejected);
                if !k.contains(&kind(&e).as_str()) {
                    fail("batch/kind", &format!("{} was refused with {} instead of one of {:?}", what, e, k));
                }
                false
            }
            (Want::Refused(k), Err(e)) => {
                fail("batch/panic-not-error", &format!("{} must be refused with an error ({:?}) but panicked: {}", what, k, panic_msg(&e)))
            }
            (Want::Panic, Ok(_)) => fail("batch/accepted", &format!("{} cannot be carried out but returned normally", what)),
            (Want::Panic, Err(_)) => {
                cnt("refinement_ops_interrupted", 1);
                false
            }
        };
        if let Some(b) = before {
            if format!("{:?}", self.mesh) != b {
                let why = check_cells(&self.mesh, &self.model).err().map(|x| x.1).unwrap_or_else(|| "nodes or edges differ".into());
                fail("batch/not-atomic", &format!("{} failed but changed the mesh: {}", what, why));
            }
        }
        if took {
            self.accepted.push(op);
        }
        if let Err((c, e)) = check_cells(&self.mesh, &self.model) {
            fail(&format!("batch/wrong-change-{}", c), &format!("after {}: {}", what, e));
        }
        took
    }
    fn check_all(&self, domain: bool) -> Result<(), Bad> {
        let (g, ids) = check_mesh(&self.mesh, &self.model)?;
        check_queries(&self.mesh, &self.model, &ids)?;
        if domain && (self.model.len() > 66_000 || dof_count(&self.model) < 6000) {
            let d = Domain::from_mesh(self.mesh.clone(), ContinuityCondition::HCurl);
            check_domain(&d, &self.model, &g, &ids)?;
            if format!("{:?}", d.mesh) != format!("{:?}", self.mesh) {
                return Err(("domain-mesh", "the domain's mesh differs from the mesh it was made from".into()));
            }
        }
        Ok(())
    }
    pub fn check(&self, domain: bool) {
        let me = self;
        let r = client(move || me.check_all(domain)).unwrap_or_else(|e| Err(("query-panic", format!("a query panicked: {}", panic_msg(&e)))));
        if let Err((c, e)) = r {
            fail(&format!("mesh/{}", c), &format!("after {} accepted calls ({}): {}", self.accepted.len(), self.accepted.last().map(brief).unwrap_or_default(), e));
        }
    }
    /// The same mesh must result from the accepted calls alone.
    pub fn replay_accepted(&self) {
        let path = self.path.clone();
        let mut m = match client(move || Mesh::from_file(path)) {
            Ok(Ok(_)) if self.unit => Mesh::unit(),
            Ok(Ok(m)) => m,
            _ => fail("mesh/replay", "loading the mesh again failed"),
        };
        for op in &self.accepted {
            if !matches!(Self::call(&mut m, op), Ok(Ok(()))) {
                fail("mesh/replay", &format!("{} failed when repeated without the refused calls", brief(op)));
            }
        }
        if format!("{:?}", m) != format!("{:?}", self.mesh) {
            fail("mesh/replay", "the accepted calls alone give a different mesh");
        }
    }
}

fn brief(op: &Op) -> String {
    let s = format!("{:?}", op);
    if s.len() > 160 {
        format!("{}...", s.chars().take(160).collect::<String>())
    } else {
        s
    }
}

/// Draw the next call. `big` limits the number of elements.
pub fn next_op(h: &Hist, big: usize, odd: bool) -> Op {
    let n = h.model.len();
    let leaves: Vec<usize> = (0..n).filter(|c| h.model.refineable(*c)).collect();
    let room = big.saturating_sub(n) / 4;
    let some_href = || -> HRef {
        if odd && wc(1, 30) {
            let k = [2, 3, usize::MAX][w(3) as usize];
            return if wc(1, 2) { HRef::U(Some(k)) } else { HRef::V(Some(k)) };
        }
        gen::href(true)
    };
    let bad = |den: u32| odd && wc(1, den);
    let any = || -> usize {
        if bad(40) {
            [n, n + 1, n + 7, usize::MAX][w(4) as usize]
        } else if n == 0 {
            0
        } else {
            w(n as u32) as usize
        }
    };
    let leaf = || -> usize {
        if leaves.is_empty() || bad(25) {
            any()
        } else if wc(1, 3) {
            // the newest leaves: deep, one-sided refinement
            leaves[leaves.len() - 1 - w(leaves.len().min(4) as u32) as usize]
        } else {
            leaves[w(leaves.len() as u32) as usize]
        }
    };
    let delta = || -> i8 {
        match w(12) {
            0 if odd => [-128i16, 127, 100, -100, 64, -64, 30, -30][w(8) as usize] as i8,
            1 => wr(0, 40) as i8 - 20,
            _ => wr(0, 6) as i8 - 2,
        }
    };
    let order = || if wc(1, 6) { wr(1, 20) as u8 } else { wr(1, 5) as u8 };
    let halt = |n: usize| if odd && wc(1, 3) { 1 + w(n.max(1) as u32 + 1) } else { 0 };
    let ids = |max: u32, f: &dyn Fn() -> usize| -> Vec<usize> {
        let mut v = vec![];
        let max = if max == 0 || n < 12 || !wc(1, 14) { max } else { (n as u32).min(200) };
        for _ in 0..wr(0, max) {
            let c = f();
            if !v.contains(&c) || bad(6) {
                v.push(c);
            }
        }
        v
    };
    // distinct ids, very many of them; or with one of them twice, far apart
    let lots = |from: &[usize], max: usize| -> Vec<usize> {
        let mut v = from.to_vec();
        for k in (1..v.len()).rev() {
            v.swap(k, w(k as u32 + 1) as usize);
        }
        v.truncate(max);
        if odd && !v.is_empty() && wc(1, 2) {
            let (from, c) = (v.len() / 2, v[w(1 + v.len() as u32 / 4) as usize]);
            v.insert(from + w((v.len() - from) as u32 + 1) as usize, c);
        }
        v
    };
    if n > 30 && wc(1, 30) {
        let all: Vec<usize> = (0..n).collect();
        return match w(4) {
            0 if room > 0 => Op::HElems(lots(&leaves, room), some_href()),
            1 => Op::OElems(lots(&all, n), order(), order()),
            2 => Op::OExec(lots(&all, n).into_iter().map(|c| (c, [order(), order()])).collect()),
            _ => Op::PElems(lots(&all, n), delta(), delta()),
        };
    }
    match w(if room > 0 { 16 } else { 8 }) {
        0 => Op::PGlobal(delta(), delta()),
        1 => Op::PElems(ids(8, &any), delta(), delta()),
        2 => Op::PFilter(w32(), halt(n)),
        3 => Op::PFilterB(w32(), halt(n)),
        4 => {
            let mut v = vec![];
            for _ in 0..wr(0, if wc(1, 14) { 150 } else { 8 }) {
                let c = any();
                for _ in 0..if wc(1, 4) { wr(2, 5) } else { 1 } {
                    v.push((c, [delta(), delta()]));
                }
            }
            Op::PExec(v)
        }
        5 => match w(3) {
            0 => Op::OGlobal(order(), order()),
            1 => Op::OElems(ids(8, &any), order(), order()),
            _ => Op::OFilter(w32(), halt(n)),
        },
        6 | 7 => Op::OExec(ids(10, &any).into_iter().map(|c| (c, [order(), order()])).collect()),
        8 if leaves.len() <= room => Op::HGlobal(some_href()),
        9 if leaves.len() / 2 <= room => Op::HFilter(w32(), halt(leaves.len())),
        10 | 11 => Op::HElems(ids(room.min(6) as u32, &leaf), some_href()),
        _ => {
            let mut v = vec![];
            for _ in 0..wr(1, room.min(6) as u32) {
                let c = leaf();
                v.push((c, some_href()));
                if wc(1, 5) {
                    v.push((c, some_href()));
                }
            }
            if v.len() > 1 && wc(1, 3) {
                v.rotate_left(1);
            }
            Op::HExec(v)
        }
    }
}

/// Requests built from parts must be what their documentation says.
fn builders() {
    let bad = |what: String| -> ! { fail("batch/builder", &what) };
    for _ in 0..3 {
        let [i, j] = [0; 2].map(|_| if wc(1, 3) { [0, 1, 20, 21, 255][w(5) as usize] } else { wr(1, 20) as u8 });
        let legal = |x: u8| x >= 1 && x <= MAX_ORDER as u8;
        match Orders::try_new(i, j) {
            Ok(o) if legal(i) && legal(j) && o.to_array() == [i, j] => (),
            Err(PRefError::InvalidExpansionOrders(a, b)) if !(legal(i) && legal(j)) && (a, b) == (i, j) => (),
            r => bad(format!("Orders::try_new({}, {}) gives {:?}", i, j, r)),
        }
        if client(|| Orders::new(i, j)).is_ok() != (legal(i) && legal(j)) {
            bad(format!("Orders::new({}, {}) accepts illegal or refuses legal orders", i, j));
        }
        let [a, b, c, d] = [0; 4].map(|_| if wc(1, 3) { [-128i16, 127, -127, 64, -1][w(5) as usize] as i8 } else { w(41) as i8 - 20 });
        let mut x = PRef::from(a, b);
        if x.as_array() != [a, b] {
            bad(format!("PRef::from({}, {}) is {:?}", a, b, x.as_array()));
        }
        if PRef::on_dir(ParaDir::U, a).as_array() != [a, 0] || PRef::on_dir(ParaDir::V, a).as_array() != [0, a] {
            bad(format!("PRef::on_dir with {} goes the wrong way", a));
        }
        let win = [[c.min(d), c.max(d)], [-3, 5]];
        let want = [a.clamp(win[0][0], win[0][1]), b.clamp(-3, 5)];
        if x.constrained_to(win).as_array() != want || x.falls_within(win) != (want == [a, b]) {
            bad(format!("PRef ({}, {}) within {:?}: {:?}, {}", a, b, win, x.constrained_to(win).as_array(), x.falls_within(win)));
        }
        x += PRef::from(c, d);
        let sum = |p: i8, q: i8| (p as i16 + q as i16).clamp(-128, 127) as i8;
        if x.as_array() != [sum(a, c), sum(b, d)] {
            bad(format!("PRef ({}, {}) += ({}, {}) is {:?}", a, b, c, d, x.as_array()));
        }
    }
    let k = w(4) as u8;
    for (r, want) in [(HRef::u_extened(k), HRef::U(Some(k as usize))), (HRef::v_extened(k), HRef::V(Some(k as usize)))] {
        match r {
            Ok(h) if k < 2 && h == want => (),
            Err(HRefError::BisectionIdxExceeded) if k >= 2 => (),
            r => bad(format!("an extended refinement with child {} is {:?}", k, r)),
        }
    }
    if [HRef::t(), HRef::u(), HRef::v()] != [HRef::T, HRef::U(None), HRef::V(None)] {
        bad("HRef::t, u or v".into());
    }
}

/// The same requests, some of those for one element already combined by the caller.
fn combined<R: Copy + std::ops::AddAssign>(b: Vec<(usize, R)>, salt: usize) -> Vec<(usize, R)> {
    if b.len() % 3 != salt % 3 {
        return b;
    }
    let mut out: Vec<(usize, R)> = vec![];
    for (c, r) in b {
        match out.iter_mut().find(|x| x.0 == c) {
            Some(x) => x.1 += r,
            None => out.push((c, r)),
        }
    }
    out
}

/// A start mesh: ordinary, or with cells near the smallest size allowed.
pub fn start(max: u32) -> Desc {
    let (nx, ny) = (wr(1, max) as usize, wr(1, max) as usize);
    if wc(1, 4) {
        let us = [4e-5, 7e-5, 1.3e-4, 2.9e-4, 1.0, 0.002];
        gen::grid_units(nx, ny, [us[w(6) as usize], us[w(6) as usize]])
    } else {
        gen::grid(nx, ny)
    }
}

fn s14_main(_: u32, _: u32) {
    session_mode();
    if wc(1, 6) {
        builders();
    }
    let d = start(3);
    let mut h = Hist::any(&d, "/simfs/mesh.json");
    let n = wr(2, 10);
    note!("cells={} calls={}", d.cells.len(), n);
    let big = if wc(1, 50) { 1500 } else { [40, 120, 300][w(3) as usize] };
    if big == 1500 {
        swell(&mut h, 300 + w(500) as usize);
    }
    for _ in 0..n {
        let op = next_op(&h, big, true);
        ev(&h, &op);
        h.step(op);
    }
    h.replay_accepted();
}

fn ev(h: &Hist, op: &Op) {
    simrt::ev!("{} elements; {}", h.model.len(), brief(op));
}

/// Refine one of the newest elements again and again, down to the smallest size allowed.
fn dive(h: &mut Hist) {
    let to = wr(6, 22);
    let toward = w(4) as usize;
    let kinds = w(3);
    let mut last = vec![];
    for _ in 0..to {
        let n = h.model.len();
        let leaves: Vec<usize> = (n.saturating_sub(4)..n).filter(|c| h.model.refineable(*c)).collect();
        if leaves.is_empty() {
            break;
        }
        let r = match kinds {
            0 => HRef::T,
            1 => [HRef::U(None), HRef::V(None)][w(2) as usize],
            _ => gen::href(true),
        };
        let op = Op::HElems(vec![leaves[toward.min(leaves.len() - 1)]], r);
        h.step(op.clone());
        last.push(n);
    }
    cnt("dive_levels", last.len() as u64);
    h.check(true);
}

/// Refine everywhere until there are that many elements.
fn swell(h: &mut Hist, to: usize) {
    sh().step_limit *= 10;
    let mut idle = 0;
    while h.model.len() < to && idle < 4 {
        let n = h.model.len();
        h.step(Op::HGlobal([HRef::T, HRef::U(None), HRef::V(None)][w(3) as usize]));
        idle += (h.model.len() == n) as u32;
    }
}

/// More elements, nodes, edges and degrees of freedom than 16 bits count.
fn vast() {
    sh().step_limit *= 100;
    let d = gen::grid_units(wr(1, 2) as usize, wr(1, 2) as usize, [1.0, 1.0]);
    let mut h = Hist::new(&d, "/simfs/mesh.json");
    for r in [HRef::U(None), HRef::V(None)] {
        if wc(1, 3) {
            h.step(Op::HGlobal(r));
        }
    }
    while h.model.len() < 66_000 {
        h.step(Op::HGlobal(HRef::T));
    }
    for _ in 0..wr(1, 4) {
        let n = h.model.len();
        let pick = |k: u32| -> usize {
            // the last ones, those around 2^16, any
            match k {
                0 => n - 1 - w(5) as usize,
                1 => 65_532 + w(8) as usize,
                _ => n - 1 - w(n as u32 / 2) as usize,
            }
        };
        let op = match w(4) {
            0 => Op::OExec((0..3).map(|k| (pick(k), [wr(1, 3) as u8, wr(1, 3) as u8])).collect()),
            1 => Op::PExec((0..3).map(|k| (pick(k), [w(4) as i8 - 1, w(3) as i8])).collect()),
            _ => Op::HExec((0..3).map(|k| (pick(k), gen::href(true))).collect()),
        };
        ev(&h, &op);
        h.step(op);
    }
    h.check(true);
    note!("elems={}", h.model.len());
}

fn s17_main(_: u32, _: u32) {
    session_mode();
    if w(1100) == 0 {
        return vast();
    }
    let d = start(4);
    let mut h = Hist::any(&d, "/simfs/mesh.json");
    if wc(1, 120) {
        swell(&mut h, 500 + w(4500) as usize);
    }
    h.check(true);
    if h.unit {
        let cc = ContinuityCondition::HCurl;
        let show = |d: &Domain| format!("{:?} {:?} {:?}", d.mesh, d.basis_specs, d.dofs.iter().map(|x| x.id).collect::<Vec<_>>());
        if show(&Domain::unit(cc)) != show(&Domain::from_mesh(Mesh::unit(), cc)) {
            fail("mesh/unit", "Domain::unit is not the domain of Mesh::unit");
        }
        let b = Domain::blank(cc);
        if b.dofs.len() + b.basis_specs.len() + b.mesh.elems.len() + b.mesh.elements.len() + b.mesh.nodes.len() + b.mesh.edges.len() != 0 {
            fail("mesh/blank", "a blank domain is not empty");
        }
    }
    let n = wr(1, 12);
    note!("cells={} calls={}", d.cells.len(), n);
    let odd = wc(1, 2);
    let big = [60, 160, 400][w(3) as usize];
    let deep = wc(1, 20);
    for k in 0..n {
        if deep && k == n / 2 {
            dive(&mut h);
        }
        let op = next_op(&h, big, odd);
        ev(&h, &op);
        h.step(op);
        h.check(k + 1 == n || wc(1, 3));
    }
    h.replay_accepted();
    note!("elems={}", h.model.len());
}

pub fn s14() -> Prop {
    let items: Vec<Item> = vec![item("batch", one_stage, s14_main, 36000, 1500000)];
    Prop {
        id: "S14",
        items,
        real: "Mesh::from_file and every refinement method of Mesh (real code)",
        stub: "user filters (deterministic, made to panic at chosen calls), the disk",
        assumptions: vec!["cell sizes are not within rounding of the smallest edge length"],
    }
}
pub fn s17() -> Prop {
    let items: Vec<Item> = vec![item("history", one_stage, s17_main, 9000, 800000)];
    Prop {
        id: "S17",
        items,
        real: "Mesh::from_file, every refinement method of Mesh, Domain::from_mesh, mesh and domain queries (real code)",
        stub: "user filters (deterministic, made to panic at chosen calls), the disk",
        assumptions: vec!["meshes are rectilinear (as the library supports) and cell sizes are not within rounding of the smallest edge length"],
    }
}
