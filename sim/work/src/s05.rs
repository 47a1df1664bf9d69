//! Accumulating sub-matrix pairs produced in parallel.
use crate::common::*;
use crate::{item, note, Item, Prop};
use fem_2d::fem_problem::linalg::sparse_matrix::SparseMatrix;
use fem_2d::prelude::GEP;
use rayon::prelude::*;
use simrt::shared::*;
use std::collections::BTreeMap;

type Ref = BTreeMap<[usize; 2], f64>;

fn add(r: &mut Ref, i: usize, j: usize, v: f64) {
    *r.entry([i.min(j), i.max(j)]).or_insert(0.0) += v;
}

fn compare(what: &str, got: &SparseMatrix, want: &Ref, dim: usize) {
    cnt("matrix_entries_compared", want.len() as u64);
    if got.dimension != dim {
        fail("extend/dimension", &format!("{}: dimension {} instead of {}", what, got.dimension, dim));
    }
    let both = want.len() + want.keys().filter(|[i, j]| i != j).count();
    if got.num_entries() != both {
        fail("extend/count", &format!("{}: {} entries are counted instead of {}", what, got.num_entries(), both));
    }
    let g: Vec<([usize; 2], f64)> = got.iter_upper_tri().collect();
    let wv: Vec<([usize; 2], f64)> = want.iter().map(|(k, v)| (*k, *v)).collect();
    if g != wv {
        let gm: BTreeMap<_, _> = g.iter().cloned().collect();
        for (k, v) in want {
            match gm.get(k) {
                None => fail("extend/entry-missing", &format!("{}: entry {:?} = {} is missing", what, k, v)),
                Some(x) if x != v => fail("extend/wrong-sum", &format!("{}: entry {:?} is {} instead of {}", what, k, x, v)),
                _ => {}
            }
        }
        for (k, v) in &gm {
            if !want.contains_key(k) {
                fail("extend/extra-entry", &format!("{}: unexpected entry {:?} = {}", what, k, v));
            }
        }
        fail("extend/order", &format!("{}: entries are not in ascending order", what));
    }
}

fn main(_: u32, _: u32) {
    let pool = machine();
    let dim = match w(12) {
        0 => wr(25, 3000),
        1 => wr(65_500, 200_000),
        _ => wr(1, 24),
    } as usize;
    let rounds = wr(1, 3);
    note!("dim={} pool={}", dim, pool);
    let mut refs = [Ref::new(), Ref::new()];
    // whole multiples of a power of two add up exactly
    let unit = f64::powi(2.0, if wc(1, 6) { [-60, -400, 40][w(3) as usize] } else { 0 });
    let mut gep = GEP::new(dim);
    if wc(1, 3) {
        for _ in 0..wr(1, 6) {
            let (i, j, v) = (w(dim as u32) as usize, w(dim as u32) as usize, (wr(0, 40) as f64 - 20.0) * unit);
            let k = w(2) as usize;
            add(&mut refs[k], i, j, v);
            [&mut gep.a, &mut gep.b][k].insert([i, j], v);
        }
    }
    for _ in 0..rounds {
        let n = match w(6) {
            0 => wr(0, 2),
            1 if wc(1, 300) && dim < 25 => wr(65_530, 80_000),
            1 if wc(1, 6) && dim < 25 => wr(500, 5000),
            1 if dim < 25 => wr(200, 500),
            _ => wr(3, 40),
        };
        // what each source contributes, as plain data
        let mut src: Vec<[Vec<([usize; 2], f64)>; 2]> = vec![];
        let heavy = n < 60;
        for at in 0..n {
            let mut pair = [vec![], vec![]];
            if n > 65_000 {
                let x = splitmix(at as u64);
                let (i, j, v) = (x as usize % dim, (x >> 24) as usize % dim, ((x >> 50) as f64 - 8000.0) * unit);
                add(&mut refs[at as usize % 2], i, j, v);
                pair[at as usize % 2].push(([i, j], v));
                src.push(pair);
                continue;
            }
            for (k, l) in pair.iter_mut().enumerate() {
                let m = if heavy && w(60) == 0 { wr(100, 900) } else if heavy { w(9) } else { w(3) };
                for _ in 0..m {
                    let (i, j, v) = (w(dim as u32) as usize, w(dim as u32) as usize, (wr(0, 2000) as f64 - 1000.0) * unit);
                    add(&mut refs[k], i, j, v);
                    l.push(([i, j], v));
                }
            }
            src.push(pair);
        }
        if n > 0 && dim > 400 && wc(1, 60) {
            // more entries than 16 bits count
            let (at, k, m) = (w(n) as usize, w(2) as usize, wr(16_000, 150_000) as u64);
            let seed = w(u32::MAX) as u64;
            for e in 0..m {
                let x = splitmix(seed ^ e << 32);
                let (i, j, v) = (x as usize % dim, (x >> 24) as usize % dim, ((x >> 50) as f64 - 8000.0) * unit);
                add(&mut refs[k], i, j, v);
                src[at][k].push(([i, j], v));
            }
        }
        cnt("submatrices", n as u64);
        let style = w(5);
        let group = wc(1, 2);
        note!("n={} style={}", n, style);
        let make = move |p: &[Vec<([usize; 2], f64)>; 2]| -> [SparseMatrix; 2] {
            let mk = |l: &Vec<([usize; 2], f64)>| {
                let mut m = SparseMatrix::new(dim);
                if group {
                    m.insert_group(l.clone());
                } else {
                    for (rc, v) in l {
                        m.insert(*rc, *v);
                    }
                }
                m
            };
            [mk(&p[0]), mk(&p[1])]
        };
        let src = &src;
        let extend = move |mut g: GEP, bad: usize| {
            let make = move |p: &[Vec<([usize; 2], f64)>; 2]| {
                if std::ptr::eq(p, &src[bad.min(src.len() - 1)]) && bad < src.len() {
                    fault(Fault::CallbackPanic);
                    cnt("panics_injected", 1);
                    panic!("{}", crate::stub::INJECTED)
                }
                make(p)
            };
            match style {
                0 => g.par_extend(src.par_iter().map(make)),
                1 => g.par_extend(src.iter().map(make).collect::<Vec<_>>()),
                2 => g.par_extend(src.iter().par_bridge().map(make)),
                3 => g.par_extend(src.par_iter().with_max_len(1).map(make)),
                _ => rayon::scope(|_| g.par_extend(src.par_iter().map(make))),
            }
            g
        };
        if n > 0 && wc(1, 8) {
            // a source that panics, perhaps while another extension is under way
            let bad = w(n) as usize;
            let g = gep.clone();
            match client(move || extend(g, bad)) {
                Ok(_) => fail("extend/lost-panic", "the source panicked but the extension returned"),
                Err(e) if panic_msg(&e) == crate::stub::INJECTED => cnt("panics_propagated", 1),
                // a thread of the pool that was helping may report the closed channel instead
                Err(e) => note!("panicked with {}", panic_msg(&e)),
            }
        }
        let many = if wc(1, 8) { 2 + w(2) as usize } else { 1 };
        let work = (0..many)
            .map(|_| {
                let g = gep.clone();
                Box::new(move || extend(g, usize::MAX)) as Box<dyn FnOnce() -> GEP + Send>
            })
            .collect();
        let mut out = vec![];
        for r in clients(work) {
            match r {
                Ok(g) => out.push(g),
                Err(e) => fail("extend/panic", &format!("accumulation panicked: {}", panic_msg(&e))),
            }
        }
        for g in &out[1..] {
            compare("A (of several at once)", &g.a, &refs[0], dim);
            compare("B (of several at once)", &g.b, &refs[1], dim);
        }
        gep = out.swap_remove(0);
        compare("A", &gep.a, &refs[0], dim);
        compare("B", &gep.b, &refs[1], dim);
    }
}

pub fn prop() -> Prop {
    let items: Vec<Item> = vec![item("extend", one_stage, main, 12000, 400000)];
    Prop {
        id: "S05",
        items,
        real: "GEP and SparseMatrix accumulation, std::sync::mpsc, rayon 1.5.1 thread pool (all real code on simulated threads)",
        stub: "the operating system's thread scheduler, futexes, CPU count and randomness",
        assumptions: vec![],
    }
}
