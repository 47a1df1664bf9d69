//! Generated input meshes and the harness's own description of them.
use crate::common::*;
use fem_2d::prelude::*;
use simrt::shared::*;

#[derive(Clone, Debug)]
pub struct Desc {
    /// node coordinates, by node id
    pub nodes: Vec<[f64; 2]>,
    /// node ids (SW, SE, NW, NE) and materials, by element id
    pub cells: Vec<([usize; 4], [f64; 4])>,
}

impl Desc {
    pub fn rect(&self, e: usize) -> ([f64; 2], [f64; 2]) {
        let a = self.nodes[self.cells[e].0[0]];
        let b = self.nodes[self.cells[e].0[3]];
        ([a[0], b[0]], [a[1], b[1]])
    }
    /// The document in the mesh file format.
    pub fn json(&self, style: u32) -> String {
        let (nl, ind) = match style {
            0 => ("", ""),
            1 => ("\n", "    "),
            _ => ("\r\n", "\t"),
        };
        let mut els: Vec<String> = vec![];
        for (n, m) in &self.cells {
            els.push(format!(
                "{nl}{ind}{{\"materials\":[{}],{nl}{ind}\"node_ids\":[{}]}}",
                m.map(|x| format!("{:?}", x)).join(", "),
                n.map(|x| x.to_string()).join(",")
            ));
        }
        let nds: Vec<String> = self.nodes.iter().map(|[x, y]| format!("{nl}{ind}[{:?},{:?}]", x, y)).collect();
        let e = format!("\"Elements\":[{}]", els.join(","));
        let n = format!("\"Nodes\":[{}]", nds.join(","));
        if style == 1 {
            format!("{{{nl}{n},{nl}{e}{nl}}}{nl}")
        } else {
            format!("{{{nl}{e},{nl}{n}{nl}}}{nl}")
        }
    }
}

fn shuffle<T>(v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = w(i as u32 + 1) as usize;
        v.swap(i, j);
    }
}

/// A rectilinear grid of `nx` by `ny` cells, possibly with holes, shuffled ids and odd spacing.
pub fn grid(nx: usize, ny: usize) -> Desc {
    let unit = [1.0, 0.5, 0.3, 4.0, 0.01, 1.0 / 3.0, 0.022_860_123_456_789][if wc(1, 2) { 0 } else { w(7) as usize }];
    grid_units(nx, ny, [unit, unit])
}

pub fn grid_units(nx: usize, ny: usize, units: [f64; 2]) -> Desc {
    let axis = |n: usize, unit: f64| -> Vec<f64> {
        let mut x = [-1.0, 0.0, -2.5, 3.0][w(4) as usize] * unit;
        let mut v = vec![x];
        for _ in 0..n {
            x += unit * [1.0, 0.5, 2.0, 0.75][if wc(1, 2) { 0 } else { w(4) as usize }];
            v.push(x);
        }
        v
    };
    let xs = axis(nx, units[0]);
    let ys = axis(ny, units[1]);
    let mut keep = vec![true; nx * ny];
    if nx * ny > 2 && wc(1, 4) {
        for _ in 0..wr(1, (nx * ny / 3).max(1) as u32) {
            let k = w((nx * ny) as u32) as usize;
            if keep.iter().filter(|b| **b).count() > 1 {
                keep[k] = false;
            }
        }
    }
    // node ids: only those used (an unused node would be legal but pointless)
    let at = |i: usize, j: usize| j * (nx + 1) + i;
    let mut used = vec![false; (nx + 1) * (ny + 1)];
    for j in 0..ny {
        for i in 0..nx {
            if keep[j * nx + i] {
                for (a, b) in [(i, j), (i + 1, j), (i, j + 1), (i + 1, j + 1)] {
                    used[at(a, b)] = true;
                }
            }
        }
    }
    let mut order: Vec<usize> = (0..used.len()).filter(|k| used[*k]).collect();
    if wc(1, 2) {
        shuffle(&mut order);
    }
    let mut id = vec![usize::MAX; used.len()];
    let mut nodes = vec![];
    for k in order {
        id[k] = nodes.len();
        nodes.push([xs[k % (nx + 1)], ys[k / (nx + 1)]]);
    }
    let mut cs: Vec<(usize, usize)> =
        (0..nx * ny).filter(|k| keep[*k]).map(|k| (k % nx, k / nx)).collect();
    if wc(1, 3) {
        shuffle(&mut cs);
    }
    let plain = wc(1, 3);
    let fine = wc(1, 2);
    let cells = cs
        .into_iter()
        .map(|(i, j)| {
            let m = if plain {
                [1.0, 0.0, 1.0, 0.0]
            } else if fine {
                // values that only a double holds, losses, very large and very small ones
                let v = [2.1, 12.9, 1.0006, 3.14159265359, 0.05, 1e-3, 1.00000000001, 9.8e4];
                let l = [0.0, -0.1, 0.02, -1e-9, 5.7e7, 0.123456789012];
                let (a, b) = (v[w(8) as usize], v[w(8) as usize]);
                [a, l[w(6) as usize], b, if wc(1, 2) { 0.0 } else { l[w(6) as usize] }]
            } else {
                [wr(1, 9) as f64, w(3) as f64, wr(1, 5) as f64, w(3) as f64]
            };
            ([id[at(i, j)], id[at(i + 1, j)], id[at(i, j + 1)], id[at(i + 1, j + 1)]], m)
        })
        .collect();
    Desc { nodes, cells }
}

/// Put the described mesh on the simulated disk and load it (no faults).
pub fn load(d: &Desc, path: &str) -> Mesh {
    put_file(path, d.json(w(3)).as_bytes());
    let path = path.to_string();
    match client(move || Mesh::from_file(path)) {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => fail("load/undisturbed", &format!("loading an intact mesh file failed: {}", e)),
        Err(e) => fail("load/undisturbed", &format!("loading an intact mesh file panicked: {}", panic_msg(&e))),
    }
}

pub fn href(ext_ok: bool) -> HRef {
    match w(if ext_ok { 7 } else { 3 }) {
        0 => HRef::T,
        1 => HRef::U(None),
        2 => HRef::V(None),
        3 => HRef::U(Some(0)),
        4 => HRef::U(Some(1)),
        5 => HRef::V(Some(0)),
        _ => HRef::V(Some(1)),
    }
}

/// One accepted change of a mesh.
#[derive(Clone)]
pub enum Step {
    H(Vec<(usize, HRef)>),
    O(Vec<(usize, [u8; 2])>),
}
pub fn redo(m: &mut Mesh, steps: &[Step]) {
    for s in steps {
        match s {
            Step::H(b) => {
                let _ = m.execute_h_refinements(b.clone());
            }
            Step::O(b) => {
                let _ = m.set_expansion_orders(b.iter().map(|(e, o)| (*e, Orders::new(o[0], o[1]))).collect());
            }
        }
    }
}
fn leaves(m: &Mesh) -> Vec<usize> {
    m.elems.iter().filter(|e| m.elem_is_h_refineable(e.id).unwrap_or(false)).map(|e| e.id).collect()
}

/// Refine a mesh at random through the public interface, up to about `max` elements.
pub fn refine(m: &mut Mesh, max: usize, max_order: u32) -> Vec<Step> {
    let mut steps = vec![];
    let rounds = w(5);
    for _ in 0..rounds {
        let leaves = leaves(m);
        if leaves.is_empty() || m.elems.len() + 6 > max {
            break;
        }
        let room = (max - m.elems.len()) / 6;
        if leaves.len() <= room && wc(1, 3) {
            let r = href(true);
            steps.push(Step::H(leaves.iter().map(|e| (*e, r)).collect()));
            m.global_h_refinement(r);
        } else {
            let mut batch = vec![];
            for _ in 0..wr(1, room.clamp(1, 5) as u32) {
                batch.push((leaves[w(leaves.len() as u32) as usize], href(true)));
            }
            // a request may be refused (size limits); the mesh is whatever it is then
            steps.push(Step::H(batch.clone()));
            let _ = m.execute_h_refinements(batch);
        }
    }
    let hi = max_order.max(1);
    match w(3) {
        0 => {
            let o = [wr(1, hi) as u8, wr(1, hi) as u8];
            steps.push(Step::O((0..m.elems.len()).map(|e| (e, o)).collect()));
            m.set_global_expansion_orders(Orders::new(o[0], o[1]));
        }
        _ => {
            let batch: Vec<_> = (0..m.elems.len()).map(|e| (e, [wr(1, hi) as u8, wr(1, hi) as u8])).collect();
            redo(m, &[Step::O(batch.clone())]);
            steps.push(Step::O(batch));
        }
    }
    steps
}

/// The same topology with another geometry and other materials.
pub fn twin_of(d: &Desc) -> Desc {
    let mut t = d.clone();
    let f = [wr(1, 3) as f64, wr(1, 3) as f64];
    let g = [w(3) as f64, w(3) as f64];
    t.nodes.iter_mut().for_each(|p| *p = [p[0] * f[0] + g[0], p[1] * f[1] + g[1]]);
    t.cells.iter_mut().for_each(|c| c.1 = [wr(1, 9) as f64, w(3) as f64, wr(1, 5) as f64, w(3) as f64]);
    t
}

/// Meshes that are easily mistaken for each other: the same numbers of everything and the same ids, but
/// another geometry and other materials, another refinement tree, or other expansion orders.
pub fn twins(n: usize, max: usize, max_order: u32, path: &dyn Fn(usize) -> String) -> Vec<Mesh> {
    let mut out = vec![];
    match w(3) {
        0 => {
            let d = grid(wr(1, 3) as usize, wr(1, 3) as usize);
            let mut m = load(&d, &path(0));
            let steps = refine(&mut m, max, max_order);
            out.push(m);
            for k in 1..n {
                let t = twin_of(&d);
                let mut m = load(&t, &path(k));
                redo(&mut m, &steps);
                out.push(m);
            }
        }
        1 => {
            let d = grid(wr(1, 2) as usize, wr(1, 2) as usize);
            let first = href(false);
            let later: Vec<HRef> = (0..wr(1, 3)).map(|_| href(false)).collect();
            let o = Orders::new(wr(1, max_order) as u8, wr(1, max_order) as u8);
            for k in 0..n {
                let mut m = load(&d, &path(k));
                m.set_global_expansion_orders(o);
                m.global_h_refinement(first);
                for r in &later {
                    let l = leaves(&m);
                    if !l.is_empty() {
                        let _ = m.execute_h_refinements(vec![(l[w(l.len() as u32) as usize], *r)]);
                    }
                }
                out.push(m);
            }
        }
        _ => {
            let d = grid(wr(1, 2) as usize, wr(1, 2) as usize);
            let mut m = load(&d, &path(0));
            for _ in 0..w(3) {
                m.global_h_refinement(HRef::T);
            }
            let orders: Vec<[u8; 2]> = (0..m.elems.len()).map(|_| [wr(1, max_order) as u8, wr(1, max_order) as u8]).collect();
            for _ in 0..n {
                let mut t = m.clone();
                let (flip, turn) = (wc(1, 2), w(m.elems.len() as u32) as usize);
                let b = (0..orders.len()).map(|e| {
                    let o = orders[(e + turn) % orders.len()];
                    (e, if flip { [o[1], o[0]] } else { o })
                });
                redo(&mut t, &[Step::O(b.collect())]);
                out.push(t);
            }
        }
    }
    out
}
