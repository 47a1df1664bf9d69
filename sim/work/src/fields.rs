//! Field quantities and their export: disk faults, clocks, panicking callbacks.
use crate::asm::{deep_domain, small_domain, twin_domains};
use crate::common::*;
use crate::solve::{clock, fault_plan, WRITES};
use crate::stub::{hooks, no_panics, rect, SB, SB2};
use crate::{item, note, Item, Prop};
use fem_2d::fem_domain::basis::HierCurlBasisFnSpace;
use fem_2d::fem_domain::domain::dof::basis_spec::BasisDir;
use fem_2d::fem_domain::domain::fields::UniformFieldSpace;
use fem_2d::prelude::*;
use simrt::fs::{self, NO_FAULTS};
use simrt::shared::*;
use std::cell::Cell;
use std::collections::BTreeMap;

/// A quantity: value and a bound on the magnitudes it was summed from, by leaf element and grid point.
pub type Q = BTreeMap<usize, Vec<Vec<[f64; 2]>>>;
pub type Space = BTreeMap<String, Q>;

pub fn leaves(d: &Domain) -> Vec<usize> {
    d.mesh.elems.iter().filter(|e| !e.has_children()).map(|e| e.id).collect()
}
fn grid(a: [f64; 2], n: usize) -> Vec<f64> {
    (0..n).map(|i| a[0] + (a[1] - a[0]) * i as f64 / (n - 1) as f64).collect()
}

/// The two components of the field of a solution, straight from the definition of the basis functions.
pub fn xy(d: &Domain, sol: &[f64], dens: [usize; 2], twice: bool) -> [Q; 2] {
    let times = if twice { 2.0 } else { 1.0 };
    let mut out: [Q; 2] = Default::default();
    for leaf in leaves(d) {
        let (lx, ly) = rect(&d.mesh, &d.mesh.elems[leaf]);
        let (xs, ys) = (grid(lx, dens[0]), grid(ly, dens[1]));
        let mut v = [(); 2].map(|_| vec![vec![[0.0f64; 2]; dens[1]]; dens[0]]);
        let mut at = Some(leaf);
        while let Some(e) = at {
            let (ex, ey) = rect(&d.mesh, &d.mesh.elems[e]);
            let (jx, jy) = ((ex[1] - ex[0]) / 2.0, (ey[1] - ey[0]) / 2.0);
            for s in &d.basis_specs[e] {
                let c = times * sol[s.dof_id.expect("dof id")];
                let (i, j) = (s.i as f64, s.j as f64);
                for (m, x) in xs.iter().enumerate() {
                    for (n, y) in ys.iter().enumerate() {
                        let u = 2.0 * (x - ex[0]) / (ex[1] - ex[0]) - 1.0;
                        let v_ = 2.0 * (y - ey[0]) / (ey[1] - ey[0]) - 1.0;
                        let (k, f) = match s.dir {
                            BasisDir::U => (0, (1.0 + i + u) * (2.0 + j - 0.5 * v_) / jx),
                            BasisDir::V => (1, (2.0 + i - 0.5 * u) * (1.0 + j + v_) / jy),
                            BasisDir::W => continue,
                        };
                        v[k][m][n][0] += c * f;
                        v[k][m][n][1] += (c * f).abs();
                    }
                }
            }
            at = d.mesh.elems[e].parent_id();
        }
        let [a, b] = v;
        out[0].insert(leaf, a);
        out[1].insert(leaf, b);
    }
    out
}

pub fn map1(op: u32, x: f64) -> f64 {
    match op {
        0 => 2.0 * x + 1.0,
        1 => x.abs(),
        2 => -x,
        3 => f64::NAN * x,
        4 => f64::INFINITY,
        _ => x * 0.5 - 3.0,
    }
}
pub fn map2(op: u32, a: f64, b: f64) -> f64 {
    match op {
        0 => a + 2.0 * b,
        1 => a * b,
        2 => (a * a + b * b).sqrt(),
        _ => a - b,
    }
}
fn q1(op: u32, q: &Q) -> Q {
    let f = |[v, m]: &[f64; 2]| [map1(op, *v), 2.0 * m + 1.0];
    q.iter().map(|(k, t)| (*k, t.iter().map(|r| r.iter().map(f).collect()).collect())).collect()
}
fn q2(op: u32, a: &Q, b: &Q) -> Q {
    a.iter()
        .map(|(k, t)| {
            let f = |i: usize, j: usize| {
                let ([x, mx], [y, my]) = (t[i][j], b[k][i][j]);
                // infinity times nothing but rounding noise has no particular value
                let noise = |v: f64, m: f64| !(v.abs() > 1e-9 * m + 1e-12);
                let free = op == 1 && (x.is_infinite() && noise(y, my) || y.is_infinite() && noise(x, mx));
                let m = if op == 1 { mx * my } else { mx + 2.0 * my };
                [map2(op, x, y), if free || !m.is_finite() { f64::INFINITY } else { m }]
            };
            (*k, (0..t.len()).map(|i| (0..t[i].len()).map(|j| f(i, j)).collect()).collect())
        })
        .collect()
}

// ------------------------------------------------------------------------------------------------ the VTK file

/// The document without its date line.
pub fn undated(text: &[u8]) -> Vec<u8> {
    let mut it = text.splitn(3, |b| *b == b'\n');
    let a = it.next().unwrap_or(b"");
    it.next();
    let mut v = a.to_vec();
    v.push(b'\n');
    v.extend(it.next().unwrap_or(b""));
    v
}

pub fn check_vtk(text: &[u8], d: &Domain, dens: [usize; 2], want: &BTreeMap<&str, &Q>) -> Result<(), String> {
    let text = std::str::from_utf8(text).map_err(|e| format!("not UTF-8: {}", e))?;
    let mut lines = text.splitn(3, '\n');
    if !lines.next().unwrap().starts_with("# vtk DataFile Version") {
        return Err("no VTK header".into());
    }
    if lines.next().map_or(true, |l| l.len() > 256) {
        return Err("no title line".into());
    }
    let mut t = lines.next().unwrap_or("").split_ascii_whitespace().peekable();
    macro_rules! word {
        ($w:expr) => {
            match t.next() {
                Some(x) if x == $w => (),
                x => return Err(format!("{:?} where {:?} is due", x, $w)),
            }
        };
    }
    macro_rules! numb {
        ($t:ty, $what:expr) => {
            match t.next() {
                None => return Err(format!("the file ends in the {}", $what)),
                Some(x) => x.parse::<$t>().map_err(|_| format!("{:?} in the {}", x, $what))?,
            }
        };
    }
    let ls = leaves(d);
    let [nx, ny] = dens;
    let per = nx * ny;
    word!("ASCII");
    word!("DATASET");
    word!("UNSTRUCTURED_GRID");
    word!("POINTS");
    let n = numb!(usize, "points");
    word!("double");
    if n != per * ls.len() {
        return Err(format!("{} points for {} leaf elements with {:?} points each", n, ls.len(), dens));
    }
    let mut pts = vec![];
    for _ in 0..n {
        let p = [numb!(f64, "points"), numb!(f64, "points"), numb!(f64, "points")];
        if p[2] != 0.0 {
            return Err(format!("point {:?} is not in the plane", p));
        }
        pts.push([p[0], p[1]]);
    }
    // one grid per leaf: find the leaf of each block of points, and the grid position of each point
    let mut place: Vec<(usize, usize, usize)> = vec![];
    let (mut used, mut next) = (vec![false; ls.len()], 0);
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * (1.0 + a.abs());
    for b in pts.chunks(per) {
        let lim = |k: usize| b.iter().fold([f64::MAX, f64::MIN], |a, p| [a[0].min(p[k]), a[1].max(p[k])]);
        let (bx, by) = (lim(0), lim(1));
        let hit = ls.iter().enumerate().cycle().skip(next).take(ls.len()).find(|(i, l)| {
            let (x, y) = rect(&d.mesh, &d.mesh.elems[**l]);
            !used[*i] && near(bx[0], x[0]) && near(bx[1], x[1]) && near(by[0], y[0]) && near(by[1], y[1])
        });
        let Some((i, l)) = hit else {
            return Err(format!("a grid covers {:?} x {:?}, which is no (further) leaf element", bx, by));
        };
        used[i] = true;
        next = i;
        let (x, y) = rect(&d.mesh, &d.mesh.elems[*l]);
        let (gx, gy) = (grid(x, nx), grid(y, ny));
        let mut seen = vec![false; per];
        for p in b {
            let find = |g: &[f64], v: f64| g.iter().position(|x| near(*x, v));
            match (find(&gx, p[0]), find(&gy, p[1])) {
                (Some(a), Some(c)) if !seen[a * ny + c] => {
                    seen[a * ny + c] = true;
                    place.push((*l, a, c));
                }
                _ => return Err(format!("point {:?} is not (or twice) on the grid of element {}", p, l)),
            }
        }
    }
    word!("CELLS");
    let cells = (nx - 1) * (ny - 1) * ls.len();
    if numb!(usize, "cell count") != cells || numb!(usize, "cell size") != 5 * cells {
        return Err("wrong cell counts".into());
    }
    let mut unit = std::collections::BTreeSet::new();
    for _ in 0..cells {
        if numb!(usize, "cells") != 4 {
            return Err("a cell that is no quadrilateral".into());
        }
        let mut c = vec![];
        for _ in 0..4 {
            let k = numb!(usize, "cells");
            c.push(*place.get(k).ok_or_else(|| format!("a cell uses point {} of {}", k, n))?);
        }
        let lo = *c.iter().min().unwrap();
        let at = |i: usize| (c[i].0 == lo.0).then(|| [c[i].1 - lo.1, c[i].2.wrapping_sub(lo.2)]);
        // consecutive corners of one unit cell
        let ok = (0..4).all(|i| match (at(i), at((i + 1) % 4)) {
            (Some(a), Some(b)) => a[0] < 2 && a[1] < 2 && a[0].abs_diff(b[0]) + a[1].abs_diff(b[1]) == 1,
            _ => false,
        }) && at(0) != at(2) && at(1) != at(3);
        if !ok || !unit.insert(lo) {
            return Err(format!("cell {:?} is not (or twice) a cell of the grid", c));
        }
    }
    word!("CELL_TYPES");
    if numb!(usize, "cell types") != cells {
        return Err("wrong number of cell types".into());
    }
    for _ in 0..cells {
        word!("9");
    }
    word!("POINT_DATA");
    if numb!(usize, "point data") != n {
        return Err("wrong number of point data".into());
    }
    let mut seen = std::collections::BTreeSet::new();
    while t.peek().is_some() {
        word!("SCALARS");
        let name = t.next().unwrap_or("");
        word!("double");
        word!("1");
        word!("LOOKUP_TABLE");
        word!("default");
        let Some((name, q)) = want.get_key_value(name) else {
            return Err(format!("quantity {:?} is not one of {:?}", name, want.keys()));
        };
        if !seen.insert(*name) {
            return Err(format!("quantity {:?} appears twice", name));
        }
        for (l, i, j) in &place {
            let v = numb!(f64, "values");
            let [x, m] = q[l][*i][*j];
            let same = m == f64::INFINITY || v == x || (v.is_nan() && x.is_nan()) || (v - x).abs() <= 1e-9 * m + 1e-12;
            if !same {
                return Err(format!("quantity {:?} of element {} at grid point ({}, {}) is {:?} instead of {:?}", name, l, i, j, v, x));
            }
        }
        cnt("field_values_compared", n as u64);
    }
    if seen.len() != want.len() {
        return Err(format!("only the quantities {:?} of {:?}", seen, want.keys()));
    }
    cnt("files_checked", 1);
    Ok(())
}

// ------------------------------------------------------------------------------------------------ operations

pub const VNAMES: [&str; 4] = ["e", "h", "mode_x", "E1"];
const RNAMES: [&str; 6] = ["mag", "e_x", "h_y", "abs", "E1_x", "e"];

#[derive(Clone, Debug)]
pub enum FOp {
    /// vector name, solution, basis panics: constructions and evaluations, second basis
    Xy(usize, Vec<f64>, u64, u64, bool),
    /// operand, result, operation, panic at this call (0: never)
    Map(String, String, u32, u32),
    Expr([String; 2], String, u32, u32),
}

fn value() -> f64 {
    match w(6) {
        0 => [0.0, 1.0, -1.0, 1e6][w(4) as usize],
        _ => wr(0, 400) as f64 / 8.0 - 25.0,
    }
}
fn operand(sp: &Space) -> String {
    let names: Vec<&String> = sp.keys().collect();
    if names.is_empty() || wc(1, 8) {
        ["nothing", "e", "E_x", "mag ", ""][w(5) as usize].to_string()
    } else {
        names[w(names.len() as u32) as usize].clone()
    }
}
/// Draw an operation. `odd`: refused and panicking ones too.
pub fn next_fop(d: &Domain, sp: &Space, dens: [usize; 2], odd: bool) -> FOp {
    let n = d.dofs.len();
    let halt = |most: usize| match (odd && wc(1, 3), w(3)) {
        (false, _) => 0,
        (_, 0) => 1,
        (_, 1) => wr(1, most.max(1) as u32),
        _ => most.max(1) as u32 - w(2).min(most as u32 - (most > 0) as u32),
    };
    let most = leaves(d).len() * dens[0] * dens[1];
    if sp.is_empty() || wc(1, 3) {
        let mut sol: Vec<f64> = (0..n).map(|_| value()).collect();
        let (mut at, mut ev) = (0, 0);
        if odd {
            match w(9) {
                0 => sol.push(1.0),
                1 => {
                    sol.pop();
                }
                2 => sol.clear(),
                3 | 4 => at = 1 + w(if wc(1, 2) { 4 } else { 4 * leaves(d).len() as u32 }) as u64,
                5 => ev = 1 + w(if wc(1, 2) { 30 } else { 4 * (most * 8) as u32 }) as u64,
                _ => (),
            }
        }
        FOp::Xy(w(4) as usize, sol, at, ev, wc(1, 4))
    } else if wc(1, 2) {
        let a = if odd { operand(sp) } else { sp.keys().nth(w(sp.len() as u32) as usize).unwrap().clone() };
        FOp::Map(a, RNAMES[w(6) as usize].into(), w(6), halt(most))
    } else {
        let pick = || if odd { operand(sp) } else { sp.keys().nth(w(sp.len() as u32) as usize).unwrap().clone() };
        FOp::Expr([pick(), pick()], RNAMES[w(6) as usize].into(), w(4), halt(most))
    }
}
pub fn brief(op: &FOp) -> String {
    match op {
        FOp::Xy(k, s, a, b, t) => format!("xy_fields({:?}, {} values, basis {}; panics at construction {} / evaluation {})", VNAMES[*k], s.len(), *t as u32, a, b),
        o => format!("{:?}", o),
    }
}
/// The same operation without panics.
pub fn calm(op: &FOp) -> FOp {
    let mut o = op.clone();
    match &mut o {
        FOp::Xy(_, _, a, b, _) => (*a, *b) = (0, 0),
        FOp::Map(_, _, _, a) | FOp::Expr(_, _, _, a) => *a = 0,
    }
    o
}
/// What a completed operation leaves behind; None if it must be refused.
pub fn apply(d: &Domain, sp: &mut Space, dens: [usize; 2], op: &FOp) -> Option<()> {
    match op {
        FOp::Xy(k, sol, _, _, t) => {
            if sol.len() != d.dofs.len() {
                return None;
            }
            let [x, y] = xy(d, sol, dens, *t);
            sp.insert(format!("{}_x", VNAMES[*k]), x);
            sp.insert(format!("{}_y", VNAMES[*k]), y);
        }
        FOp::Map(a, r, o, _) => {
            let q = q1(*o, sp.get(a)?);
            sp.insert(r.clone(), q);
        }
        FOp::Expr([a, b], r, o, _) => {
            let q = q2(*o, sp.get(a)?, sp.get(b)?);
            sp.insert(r.clone(), q);
        }
    }
    Some(())
}
/// Perform an operation on the real field space.
pub fn call<S: HierCurlBasisFnSpace, T: HierCurlBasisFnSpace>(u: &mut UniformFieldSpace, op: &FOp) -> Result<(), String> {
    let calls = Cell::new(0u32);
    let tick = |at: u32| {
        calls.set(calls.get() + 1);
        if at > 0 && calls.get() == at {
            fault(Fault::CallbackPanic);
            cnt("panics_injected", 1);
            panic!("{}", crate::stub::INJECTED)
        }
    };
    let (op, tick) = (op, &tick);
    match op {
        FOp::Xy(k, sol, at, ev, second) => {
            no_panics();
            let h = hooks();
            h.on = true;
            (h.with_from, h.with_to) = if *at > 0 { (at - 1, *at) } else { (0, 0) };
            (h.eval_from, h.eval_to) = if *ev > 0 { (ev - 1, *ev) } else { (0, 0) };
            let r = if *second { u.xy_fields::<T>(VNAMES[*k], sol.clone()) } else { u.xy_fields::<S>(VNAMES[*k], sol.clone()) };
            match r {
                Ok([x, y]) if x == format!("{}_x", VNAMES[*k]) && y == format!("{}_y", VNAMES[*k]) => Ok(()),
                Ok(n) => fail("fields/names", &format!("the components of {:?} are called {:?}", VNAMES[*k], n)),
                Err(e) => Err(e.to_string()),
            }
        }
        FOp::Map(a, r, o, at) => u
            .map_to_quantity(a, r, |x| {
                tick(*at);
                map1(*o, *x)
            })
            .map_err(|e| e.to_string()),
        FOp::Expr(a, r, o, at) => u
            .expression_2arg([&a[0], &a[1]], r, |x, y| {
                tick(*at);
                map2(*o, x, y)
            })
            .map_err(|e| e.to_string()),
    }
}

fn densities() -> [usize; 2] {
    let top = if wc(1, 15) { 24 } else { 5 };
    [wr(2, top) as usize, wr(2, top) as usize]
}

// ------------------------------------------------------------------------------------------------ S12

/// One domain, or several that are easily mistaken for each other.
fn domains() -> Vec<Domain> {
    if wc(1, 12) {
        vec![deep_domain()]
    } else if wc(1, 6) {
        twin_domains(2, 20, 3)
    } else {
        vec![small_domain([8, 16, 30][w(3) as usize], 3)]
    }
}

/// Field spaces over these domains: one each, or a second one (of another density) over the same domain.
fn spaces(ds: &[Domain], top: usize) -> Vec<(&Domain, [usize; 2], UniformFieldSpace)> {
    let (mut dens, own) = (densities().map(|n| n.min(top)), wc(1, 2));
    let mut all: Vec<&Domain> = ds.iter().collect();
    if wc(1, 6) {
        all.push(&ds[0]);
    }
    all.into_iter()
        .map(|d| {
            let x = dens;
            if own {
                dens = if wc(1, 3) { [x[1], x[0]] } else { densities().map(|n| n.min(top)) };
            }
            (d, x, UniformFieldSpace::new(d, x))
        })
        .collect()
}

/// More elements than small tables have room for.
fn wide_domain() -> Domain {
    sh().step_limit *= 20;
    let mut m = crate::gen::load(&crate::gen::grid(1, 1), "/simfs/wide.json");
    let to = 4200;
    while m.elems.len() < to {
        m.global_h_refinement(HRef::T);
    }
    crate::asm::make_domain(m)
}
/// The result under a name of its own, so that quantities add up.
fn named(mut op: FOp, k: u32) -> FOp {
    if let FOp::Map(_, r, ..) | FOp::Expr(_, r, ..) = &mut op {
        *r = format!("q{}", k);
    }
    op
}

fn s12_main(_: u32, _: u32) {
    machine();
    if w(1200) == 0 {
        // more points than 16 bits count
        sh().step_limit *= 20;
        let d = small_domain(6, 2);
        let leaves = d.mesh.elems.iter().filter(|e| !e.has_children()).count();
        let side = ((70_000.0 / leaves as f64).sqrt() as usize + 2).max(2);
        let (nx, ny) = if wc(1, 2) { (side, side) } else { (side / 4 + 2, side * 4) };
        let mut u = UniformFieldSpace::new(&d, [nx, ny]);
        return s12_one(&d, &mut u, [nx, ny]);
    }
    if w(150) == 0 {
        let d = wide_domain();
        let mut u = UniformFieldSpace::new(&d, [2, 2]);
        return s12_one(&d, &mut u, [2, 2]);
    }
    let ds = domains();
    let mut us: Vec<(&Domain, [usize; 2], UniformFieldSpace)> = spaces(&ds, 24);
    for (d, dens, u) in &mut us {
        s12_one(d, u, *dens);
    }
}

fn s12_one(d: &Domain, u: &mut UniformFieldSpace, dens: [usize; 2]) {
    let mut space = Space::new();
    let plenty = d.mesh.elems.len() < 60 && wc(1, 80);
    for k in 0..if plenty { wr(40, 200) } else { wr(1, 4) } {
        let mut op = next_fop(d, &space, dens, false);
        if plenty {
            op = named(op, k);
        }
        let r = client(|| call::<SB, SB2>(u, &op));
        match r {
            Ok(Ok(())) => apply(d, &mut space, dens, &op).unwrap_or_else(|| fail("vtk/accepted", &format!("{} was accepted", brief(&op)))),
            Ok(Err(e)) => fail("vtk/refused", &format!("{} was refused: {}", brief(&op), e)),
            Err(e) => fail("vtk/panic", &format!("{} panicked: {}", brief(&op), panic_msg(&e))),
        }
    }
    make_dir("/simfs/out");
    note!("elems={} dofs={} grid={:?} quantities={:?}", d.mesh.elems.len(), d.dofs.len(), dens, space.keys());
    for round in 0..wr(1, 2) {
        // everything, or a selection
        let all: Vec<&str> = space.keys().map(|s| s.as_str()).collect();
        let picked: Option<Vec<&str>> = wc(1, 3).then(|| {
            let mut v: Vec<&str> = all.iter().copied().filter(|_| wc(1, 2)).collect();
            if wc(1, 2) {
                v.reverse();
            }
            v
        });
        let names = picked.as_ref().unwrap_or(&all);
        let want: BTreeMap<&str, &Q> = names.iter().map(|n| (*n, &space[*n])).collect();
        let many = if wc(1, 6) { 2 } else { 1 };
        let paths: Vec<String> = (0..many).map(|k| format!("/simfs/out/fields_{}_{}.vtk", round, k)).collect();
        if wc(1, 3) {
            put_file(&paths[0], &vec![b"# 7\n"[w(4) as usize]; [0, 10, 3000, 300_000][w(4) as usize]]);
        }
        if wc(1, 12) {
            let missing: Vec<String> = names.iter().map(|s| s.to_string()).chain(["no_such_quantity".into()]).collect();
            let p = paths[0].clone();
            match client(|| u.print_quantities_to_vkt(&p, missing).is_err()) {
                Ok(true) => (),
                Ok(false) => fail("vtk/accepted", "a quantity that does not exist was printed"),
                Err(e) => fail("vtk/panic", &format!("asking for a quantity that does not exist panicked: {}", panic_msg(&e))),
            }
            match client(|| u.print_all_to_vtk("/simfs/nowhere/x.vtk").is_err()) {
                Ok(true) => (),
                Ok(false) => fail("vtk/incomplete", "success, but there is no such directory"),
                Err(e) => fail("vtk/panic", &format!("printing into a missing directory panicked: {}", panic_msg(&e))),
            }
        }
        let mut first: Option<Vec<u8>> = None;
        let tries = wr(1, 4);
        for t in 0..=tries {
            fs::clear_injected();
            clock();
            let healthy = t == tries;
            if healthy {
                cnt("retries", 1);
            } else {
                let mut kinds = vec![Fault::OpenFail];
                kinds.extend(WRITES);
                fs::set_faults(fault_plan(&kinds, true));
            }
            let u = &*u;
            let work = paths
                .iter()
                .map(|p| {
                    let picked = picked.as_ref().map(|v| v.iter().map(|s| s.to_string()).collect::<Vec<_>>());
                    Box::new(move || match picked {
                        None => u.print_all_to_vtk(p).map_err(|e| e.to_string()),
                        Some(v) => u.print_quantities_to_vkt(p, v).map_err(|e| e.to_string()),
                    }) as Box<dyn FnOnce() -> Result<(), String> + Send>
                })
                .collect();
            let rs = clients(work);
            let hard = fs::hard();
            fs::set_faults(NO_FAULTS);
            for (r, p) in rs.into_iter().zip(&paths) {
                match r {
                    Err(e) => fail("vtk/panic", &format!("the export panicked: {}", panic_msg(&e))),
                    Ok(Err(e)) => {
                        cnt("exports_err", 1);
                        if hard == 0 {
                            fail("vtk/refused", &format!("nothing failed but the export returned: {}", e));
                        }
                    }
                    Ok(Ok(())) => {
                        cnt("exports_ok", 1);
                        let text = get_file(p).unwrap_or_else(|| fail("vtk/incomplete", "success, but there is no file"));
                        if let Err(e) = check_vtk(&text, d, dens, &want) {
                            fail("vtk/incomplete", &format!("success (after {} faults), but {}", fs::injected(), e));
                        }
                        let text = undated(&text);
                        match &first {
                            None => first = Some(text),
                            Some(x) if *x != text => fail("vtk/differs", "two exports of the same fields differ"),
                            _ => (),
                        }
                    }
                }
            }
            if fs::open_sim_fds() != 0 {
                fail("vtk/open-handles", "the export leaves a file open");
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ S15

fn observe(u: &UniformFieldSpace, d: &Domain, dens: [usize; 2], space: &Space, cls: &str, after: &str) {
    let path = "/simfs/all.vtk";
    match client(|| u.print_all_to_vtk(path).map_err(|e| e.to_string())) {
        Ok(Ok(())) => (),
        Ok(Err(e)) => fail("fields/unusable", &format!("after {}: {}", after, e)),
        Err(e) => fail("fields/unusable", &format!("after {}: printing panicked: {}", after, panic_msg(&e))),
    }
    let text = get_file(path).unwrap_or_default();
    let want = space.iter().map(|(n, q)| (n.as_str(), q)).collect();
    if let Err(e) = check_vtk(&text, d, dens, &want) {
        fail(cls, &format!("after {}: {}", after, e));
    }
}

fn s15_main(_: u32, _: u32) {
    machine();
    let ds = domains();
    let mut all: Vec<(&Domain, UniformFieldSpace, Space, [usize; 2])> = spaces(&ds, 8).into_iter().map(|(d, n, u)| (d, u, Space::new(), n)).collect();
    for (d, _, _, dens) in &all {
        note!("elems={} dofs={} grid={:?}", d.mesh.elems.len(), d.dofs.len(), dens);
    }
    let plenty = all.iter().all(|x| x.0.mesh.elems.len() < 30) && wc(1, 80);
    for n in 0..if plenty { wr(30, 90) } else { wr(2, 8) } {
        let k = w(all.len() as u32) as usize;
        let (d, u, space, dens) = &mut all[k];
        let dens = *dens;
        let mut op = next_fop(d, space, dens, true);
        if plenty {
            op = named(op, n);
        }
        let what = brief(&op);
        let r = client(|| call::<SB, SB2>(u, &op));
        let evals = hooks().panics;
        no_panics();
        hooks().on = false;
        match r {
            Ok(Ok(())) => {
                if evals > 0 {
                    fail("fields/lost-panic", &format!("{} returned normally although the basis space panicked", what));
                }
                match apply(d, space, dens, &op) {
                    None => fail("fields/accepted", &format!("{} was accepted", what)),
                    Some(()) => observe(u, d, dens, space, "fields/wrong-values", &what),
                }
            }
            Ok(Err(e)) => {
                if evals > 0 {
                    fail("fields/lost-panic", &format!("{} returned an error although the basis space panicked", what));
                }
                fault(Fault::Rejected);
                if apply(d, &mut space.clone(), dens, &op).is_some() {
                    fail("fields/refused", &format!("{} was refused: {}", what, e));
                }
                observe(u, d, dens, space, "fields/changed-by-refusal", &what);
            }
            Err(e) => {
                let text = panic_msg(&e);
                if text != crate::stub::INJECTED {
                    fail("fields/panic", &format!("{} panicked: {}", what, text));
                }
                cnt("panics_propagated", 1);
                observe(u, d, dens, space, "fields/partial", &what);
                if wc(2, 3) {
                    cnt("retries", 1);
                    let again = calm(&op);
                    match client(|| call::<SB, SB2>(u, &again)) {
                        Ok(Ok(())) => {
                            apply(d, space, dens, &again).unwrap_or_else(|| fail("fields/accepted", &format!("{} was accepted", what)));
                            observe(u, d, dens, space, "fields/wrong-after-panic", &what);
                        }
                        Ok(Err(e)) => fail("fields/refused", &format!("{} was refused after it had panicked: {}", what, e)),
                        Err(e) => fail("fields/panic", &format!("{}, repeated without a panic, panicked: {}", what, panic_msg(&e))),
                    }
                    hooks().on = false;
                }
            }
        }
    }
}

pub fn s12() -> Prop {
    let items: Vec<Item> = vec![item("fields_export", one_stage, s12_main, 9000, 400000)];
    Prop {
        id: "S12",
        items,
        real: "UniformFieldSpace (field evaluation and VTK export), Domain, Mesh, std::fs and std::io (real code)",
        stub: "the basis space (known closed form); the disk's faults and capacity; the wall clock",
        assumptions: vec![
            "densities of at least 2 in both directions",
            "faults are reported by the system calls (open, write); a disk that loses acknowledged data is outside the property",
        ],
    }
}
pub fn s15() -> Prop {
    let items: Vec<Item> = vec![item("field_history", one_stage, s15_main, 9000, 400000)];
    Prop {
        id: "S15",
        items,
        real: "UniformFieldSpace (field evaluation, operations, VTK export), Domain, Mesh (real code)",
        stub: "the basis space and the expressions (known closed forms that panic on demand)",
        assumptions: vec!["values are observed through the VTK export (15 decimals)"],
    }
}
