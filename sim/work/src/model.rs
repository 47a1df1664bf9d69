//! An independent model of a refined mesh: plain rectangles, from which nodes, edges, boundary flags,
//! active pairs and degrees of freedom follow by geometry. Only element ids are taken over from the mesh.
use crate::common::*;
use crate::gen::Desc;
use fem_2d::fem_domain::domain::dof::basis_spec::{BasisDir, BasisLoc};
use fem_2d::fem_domain::domain::mesh::h_refinement::HRefLoc;
use fem_2d::fem_domain::domain::mesh::space::ParaDir;
use fem_2d::prelude::*;
use simrt::shared::*;
use std::collections::BTreeMap;

pub const MIN_LEN: f64 = 3.0518e-5;
pub const MAX_ORDER: i64 = 20;

#[derive(Clone, Debug)]
pub struct Cell {
    pub x: [f64; 2],
    pub y: [f64; 2],
    pub base: usize,
    /// (ancestor id, position in it), from the base cell down
    pub stack: Vec<(usize, HRefLoc)>,
    pub kids: Vec<usize>,
    pub lev: [u8; 2],
    pub ord: [u8; 2],
}

#[derive(Clone)]
pub struct Model {
    pub desc: Desc,
    pub cells: Vec<Cell>,
}

pub type Pt = (u64, u64);
/// lower end, upper end
pub type Side = (Pt, Pt);

fn pt(x: f64, y: f64) -> Pt {
    // order-preserving bits; +0.0 first so that -0.0 and 0.0 agree
    let o = |v: f64| {
        let b = (v + 0.0).to_bits();
        if b >> 63 == 1 {
            !b
        } else {
            b | 1 << 63
        }
    };
    (o(x), o(y))
}
pub fn unpt(p: Pt) -> [f64; 2] {
    let u = |b: u64| f64::from_bits(if b >> 63 == 1 { b & !(1 << 63) } else { !b });
    [u(p.0), u(p.1)]
}
fn mid(a: f64, b: f64) -> f64 {
    (a + b) / 2.0
}
pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1e-4 + a.abs().max(b.abs()))
}

impl Cell {
    pub fn size(&self) -> [f64; 2] {
        [self.x[1] - self.x[0], self.y[1] - self.y[0]]
    }
    /// SW, SE, NW, NE
    pub fn corners(&self) -> [Pt; 4] {
        let ([x0, x1], [y0, y1]) = (self.x, self.y);
        [pt(x0, y0), pt(x1, y0), pt(x0, y1), pt(x1, y1)]
    }
    /// S, N, W, E
    pub fn sides(&self) -> [Side; 4] {
        let [a, b, c, d] = self.corners();
        [(a, b), (c, d), (a, c), (b, d)]
    }
}

pub fn combine(a: HRef, b: HRef) -> HRef {
    use HRef::*;
    match (a, b) {
        (T, _) | (_, T) | (U(_), V(_)) | (V(_), U(_)) => T,
        (U(Some(i)), U(Some(j))) if i != j => T,
        (V(Some(i)), V(Some(j))) if i != j => T,
        _ => a,
    }
}

pub type Kinds = Vec<&'static str>;

impl Model {
    pub fn new(desc: &Desc) -> Model {
        let cells = (0..desc.cells.len())
            .map(|e| {
                let (x, y) = desc.rect(e);
                Cell { x, y, base: e, stack: vec![], kids: vec![], lev: [0, 0], ord: [1, 1] }
            })
            .collect();
        Model { desc: desc.clone(), cells }
    }
    pub fn len(&self) -> usize {
        self.cells.len()
    }
    pub fn leaf(&self, c: usize) -> bool {
        self.cells[c].kids.is_empty()
    }
    pub fn refineable(&self, c: usize) -> bool {
        let [a, b] = self.cells[c].size();
        self.leaf(c) && a > MIN_LEN && b > MIN_LEN
    }
    /// Can a cell of this size be refined like this? (None: yes)
    fn too_small(size: [f64; 2], how: HRef) -> bool {
        let [a, b] = size;
        let child = |s: [f64; 2], h: HRef| s[0] <= MIN_LEN || s[1] <= MIN_LEN || Model::too_small(s, h);
        match how {
            HRef::T => a / 2.0 < MIN_LEN || b / 2.0 < MIN_LEN,
            HRef::U(None) => a / 2.0 < MIN_LEN,
            HRef::V(None) => b / 2.0 < MIN_LEN,
            HRef::U(Some(_)) => a / 2.0 < MIN_LEN || child([a / 2.0, b], HRef::V(None)),
            HRef::V(Some(_)) => b / 2.0 < MIN_LEN || child([a, b / 2.0], HRef::U(None)),
        }
    }
    /// What a batch amounts to, or the kinds of error it may be refused with.
    pub fn plan_h(&self, batch: &[(usize, HRef)]) -> Result<BTreeMap<usize, HRef>, Kinds> {
        let mut m: BTreeMap<usize, HRef> = BTreeMap::new();
        let mut bad: Kinds = vec![];
        for (e, h) in batch {
            if let HRef::U(Some(k)) | HRef::V(Some(k)) = h {
                if *k > 1 {
                    bad.push("BisectionIdxExceeded");
                }
            }
            if *e >= self.len() {
                bad.push("ElemDoesNotExist");
                continue;
            }
            if !self.refineable(*e) {
                bad.push("ElemNotRefineable");
                continue;
            }
            m.entry(*e).and_modify(|o| *o = combine(*o, *h)).or_insert(*h);
        }
        for (e, h) in &m {
            if Model::too_small(self.cells[*e].size(), *h) {
                bad.extend(["MinEdgeLength", "ElemNotRefineable"]);
            }
        }
        if bad.is_empty() {
            Ok(m)
        } else {
            Err(bad)
        }
    }
    /// What a batch of order changes amounts to: the new orders, or the kinds of error.
    pub fn plan_p(&self, batch: &[(usize, [i64; 2])]) -> Result<BTreeMap<usize, [u8; 2]>, Kinds> {
        let mut sum: BTreeMap<usize, [i64; 2]> = BTreeMap::new();
        let mut bad: Kinds = vec![];
        for (e, d) in batch {
            if *e >= self.len() {
                bad.push("ElemDoesNotExist");
                continue;
            }
            let s = sum.entry(*e).or_insert([0, 0]);
            s[0] += d[0];
            s[1] += d[1];
        }
        let mut out = BTreeMap::new();
        for (e, d) in &sum {
            let o = self.cells[*e].ord;
            let n = [o[0] as i64 + d[0], o[1] as i64 + d[1]];
            if n.iter().any(|k| *k < 1 || *k > MAX_ORDER) {
                bad.extend(["RefinementOutOfBounds", "NegExpansion", "ExceededMaxExpansion"]);
            } else {
                out.insert(*e, n.map(|k| k as u8));
            }
        }
        if bad.is_empty() {
            Ok(out)
        } else {
            Err(bad)
        }
    }
    pub fn plan_o(&self, batch: &[(usize, [u8; 2])]) -> Result<BTreeMap<usize, [u8; 2]>, Kinds> {
        let mut out = BTreeMap::new();
        let mut bad: Kinds = vec![];
        for (e, o) in batch {
            if *e >= self.len() {
                bad.push("ElemDoesNotExist");
            } else if out.insert(*e, *o).is_some() {
                bad.push("DuplicateElemIds");
            }
        }
        if bad.is_empty() {
            Ok(out)
        } else {
            Err(bad)
        }
    }
    pub fn window(&self, c: usize) -> [[i64; 2]; 2] {
        self.cells[c].ord.map(|o| [1 - o as i64, MAX_ORDER - o as i64])
    }
    fn split(&mut self, c: usize, how: HRef, ids: &[usize]) {
        let p = self.cells[c].clone();
        let ([x0, x1], [y0, y1]) = (p.x, p.y);
        let (mx, my) = (mid(x0, x1), mid(y0, y1));
        let (l, r, s, n) = ([x0, mx], [mx, x1], [y0, my], [my, y1]);
        use HRefLoc::*;
        let parts: Vec<(HRefLoc, [f64; 2], [f64; 2], [u8; 2])> = match how {
            HRef::T => vec![(SW, l, s, [1, 1]), (SE, r, s, [1, 1]), (NW, l, n, [1, 1]), (NE, r, n, [1, 1])],
            HRef::U(_) => vec![(W, l, p.y, [1, 0]), (E, r, p.y, [1, 0])],
            HRef::V(_) => vec![(S, p.x, s, [0, 1]), (N, p.x, n, [0, 1])],
        };
        self.cells[c].kids = ids.to_vec();
        for ((loc, x, y, d), id) in parts.into_iter().zip(ids) {
            let mut stack = p.stack.clone();
            stack.push((c, loc));
            self.cells[*id] = Cell { x, y, base: p.base, stack, kids: vec![], lev: [p.lev[0] + d[0], p.lev[1] + d[1]], ord: p.ord };
        }
    }
    /// Apply an accepted batch; the ids of the new cells are those the mesh gave them.
    pub fn apply_h(&mut self, plan: &BTreeMap<usize, HRef>, m: &Mesh) -> Result<(), String> {
        let old = self.len();
        let mut todo: Vec<(usize, HRef)> = plan.iter().map(|(k, v)| (*k, *v)).collect();
        let total: usize = todo
            .iter()
            .map(|(_, h)| match h {
                HRef::T | HRef::U(Some(_)) | HRef::V(Some(_)) => 4,
                _ => 2,
            })
            .sum();
        if m.elems.len() != old + total {
            return Err(format!("{} elements after the batch instead of {}", m.elems.len(), old + total));
        }
        let blank = Cell { x: [0.0; 2], y: [0.0; 2], base: usize::MAX, stack: vec![], kids: vec![], lev: [0; 2], ord: [0; 2] };
        self.cells.resize(old + total, blank);
        while let Some((c, h)) = todo.pop() {
            let n = if h == HRef::T { 4 } else { 2 };
            let ids = m.elems[c].child_ids().unwrap_or_default();
            if ids.len() != n {
                return Err(format!("element {} has {} children after {}", c, ids.len(), h));
            }
            for id in &ids {
                if *id < old || *id >= old + total || self.cells[*id].base != usize::MAX || ids.iter().filter(|k| *k == id).count() > 1 {
                    return Err(format!("element {} has children {:?}, of which {} is not new", c, ids, id));
                }
            }
            self.split(c, h, &ids);
            match h {
                HRef::U(Some(k)) => todo.push((ids[k], HRef::V(None))),
                HRef::V(Some(k)) => todo.push((ids[k], HRef::U(None))),
                _ => (),
            }
        }
        Ok(())
    }
    pub fn apply_o(&mut self, plan: &BTreeMap<usize, [u8; 2]>) {
        for (e, o) in plan {
            self.cells[*e].ord = *o;
        }
    }
    pub fn desc_ids(&self, c: usize, own: bool, out: &mut Vec<usize>) {
        if own {
            out.push(c);
        }
        for k in &self.cells[c].kids {
            self.desc_ids(*k, true, out);
        }
    }
}

// ------------------------------------------------------------------------------------------------ geometry

#[derive(Clone, Debug)]
pub struct ESide {
    pub horizontal: bool,
    pub boundary: bool,
    /// cells on the lower/left and the upper/right side, coarsest first
    pub cells: [Vec<usize>; 2],
    pub parent: Option<Side>,
    pub kids: Option<[Side; 2]>,
    pub pair: Option<[usize; 2]>,
}
pub struct Geo {
    pub points: BTreeMap<Pt, (bool, [Vec<usize>; 4])>,
    pub sides: BTreeMap<Side, ESide>,
}

fn side_mid(s: Side) -> Pt {
    let (a, b) = (unpt(s.0), unpt(s.1));
    pt(mid(a[0], b[0]), mid(a[1], b[1]))
}

pub fn geometry(m: &Model) -> Geo {
    let mut g = Geo { points: BTreeMap::new(), sides: BTreeMap::new() };
    let mut order: Vec<usize> = (0..m.len()).collect();
    order.sort_by_key(|c| m.cells[*c].stack.len());
    for c in &order {
        let cell = &m.cells[*c];
        for (k, s) in cell.sides().into_iter().enumerate() {
            let e = g.sides.entry(s).or_insert(ESide {
                horizontal: k < 2,
                boundary: false,
                cells: [vec![], vec![]],
                parent: None,
                kids: None,
                pair: None,
            });
            // the cell lies above its S side and right of its W side
            e.cells[[1, 0, 1, 0][k]].push(*c);
        }
        for (k, p) in cell.corners().into_iter().enumerate() {
            g.points.entry(p).or_insert((false, Default::default())).1[k].push(*c);
        }
    }
    // halves
    let keys: Vec<Side> = g.sides.keys().copied().collect();
    for s in &keys {
        let q = side_mid(*s);
        let (a, b) = ((s.0, q), (q, s.1));
        if g.sides.contains_key(&a) && g.sides.contains_key(&b) {
            g.sides.get_mut(s).unwrap().kids = Some([a, b]);
            g.sides.get_mut(&a).unwrap().parent = Some(*s);
            g.sides.get_mut(&b).unwrap().parent = Some(*s);
        }
    }
    // boundary: sides of base cells with one base neighbour, and everything within them
    let mut base: BTreeMap<Side, u32> = BTreeMap::new();
    let mut refs: BTreeMap<Pt, u32> = BTreeMap::new();
    for c in m.cells.iter().take(m.desc.cells.len()) {
        for s in c.sides() {
            *base.entry(s).or_insert(0) += 1;
        }
        for p in c.corners() {
            *refs.entry(p).or_insert(0) += 1;
        }
    }
    let mut todo: Vec<Side> = base.iter().filter(|(_, n)| **n == 1).map(|(s, _)| *s).collect();
    while let Some(s) = todo.pop() {
        g.sides.get_mut(&s).unwrap().boundary = true;
        if let Some(k) = g.sides[&s].kids {
            todo.extend(k);
            g.points.get_mut(&k[0].1).unwrap().0 = true;
        }
    }
    for (p, n) in refs {
        g.points.get_mut(&p).unwrap().0 = n < 4;
    }
    // activation, from the whole sides down
    fn supports(g: &Geo, s: &Side) -> bool {
        let e = &g.sides[s];
        e.cells.iter().all(|l| !l.is_empty()) && e.parent.map_or(true, |p| supports(g, &p))
    }
    for s in &keys {
        let kids = g.sides[s].kids;
        let active = supports(&g, s) && !kids.map_or(false, |k| k.iter().all(|x| supports(&g, x)));
        if active {
            let e = g.sides.get_mut(s).unwrap();
            e.pair = Some([*e.cells[0].last().unwrap(), *e.cells[1].last().unwrap()]);
        }
    }
    g
}

/// Ids of the mesh's nodes and edges for the model's points and sides.
pub struct Ids {
    pub node: BTreeMap<Pt, usize>,
    pub edge: BTreeMap<Side, usize>,
}

macro_rules! bad {
    ($c:expr, $($a:tt)*) => { return Err(($c, format!($($a)*))) };
}
pub type Bad = (&'static str, String);

/// Compare the cells only: tree, levels, orders.
pub fn check_cells(mesh: &Mesh, m: &Model) -> Result<(), Bad> {
    if mesh.elems.len() != m.len() {
        bad!("count", "{} elements instead of {}", mesh.elems.len(), m.len());
    }
    cnt("elements_checked", m.len() as u64);
    for (k, (e, c)) in mesh.elems.iter().zip(&m.cells).enumerate() {
        if e.id != k {
            bad!("ids", "element {} carries id {}", k, e.id);
        }
        if [e.poly_orders.ni, e.poly_orders.nj] != c.ord {
            bad!("orders", "element {} has orders [{}, {}] instead of {:?}", k, e.poly_orders.ni, e.poly_orders.nj, c.ord);
        }
        if [e.h_levels.u, e.h_levels.v] != c.lev {
            bad!("levels", "element {} has levels [{}, {}] instead of {:?}", k, e.h_levels.u, e.h_levels.v, c.lev);
        }
        if e.parent_id() != c.stack.last().map(|s| s.0) || e.loc_stack() != &c.stack[..] {
            bad!("tree", "element {} has ancestors {:?} instead of {:?}", k, e.loc_stack(), c.stack);
        }
        if e.child_ids().map(|v| v.to_vec()).unwrap_or_default() != c.kids || e.has_children() == c.kids.is_empty() {
            bad!("tree", "element {} has children {:?} instead of {:?}", k, e.child_ids(), c.kids);
        }
        let mt = m.desc.cells[c.base].1;
        let em = e.get_materials();
        if e.element.id != c.base || [em.eps_rel.re, em.eps_rel.im, em.mu_rel.re, em.mu_rel.im] != mt {
            bad!("material", "element {} has the material of element {} instead of {}", k, e.element.id, c.base);
        }
    }
    Ok(())
}

/// Compare the whole mesh: cells, nodes, edges, boundaries, active pairs.
pub fn check_mesh(mesh: &Mesh, m: &Model) -> Result<(Geo, Ids), Bad> {
    check_cells(mesh, m)?;
    if mesh.elements.len() != m.desc.cells.len() {
        bad!("count", "{} base elements instead of {}", mesh.elements.len(), m.desc.cells.len());
    }
    for (k, e) in mesh.elements.iter().enumerate() {
        let (x, y) = m.desc.rect(k);
        let p = &e.points;
        if e.id != k || !close(p[0].x, x[0]) || !close(p[3].x, x[1]) || !close(p[0].y, y[0]) || !close(p[3].y, y[1]) {
            bad!("element", "base element {} covers [{}, {}] to [{}, {}] instead of {:?} {:?}", k, p[0].x, p[0].y, p[3].x, p[3].y, x, y);
        }
    }
    let g = geometry(m);
    let mut ids = Ids { node: BTreeMap::new(), edge: BTreeMap::new() };
    // correspondence through the cells' corners and sides
    let mut node_of: Vec<Option<Pt>> = vec![None; mesh.nodes.len()];
    let mut edge_of: Vec<Option<Side>> = vec![None; mesh.edges.len()];
    for (k, c) in m.cells.iter().enumerate() {
        let e = &mesh.elems[k];
        for (i, p) in c.corners().into_iter().enumerate() {
            let n = e.nodes[i];
            if n >= mesh.nodes.len() {
                bad!("node", "element {} refers to node {}, which does not exist", k, n);
            }
            if *node_of[n].get_or_insert(p) != p {
                bad!("node", "node {} is a corner of element {} at {:?} and of another at {:?}", n, k, unpt(p), unpt(node_of[n].unwrap()));
            }
            if *ids.node.entry(p).or_insert(n) != n {
                bad!("node-duplicate", "nodes {} and {} both stand for the point {:?}", n, ids.node[&p], unpt(p));
            }
        }
        for (i, s) in c.sides().into_iter().enumerate() {
            let n = e.edges[i];
            if n >= mesh.edges.len() {
                bad!("edge", "element {} refers to edge {}, which does not exist", k, n);
            }
            if *edge_of[n].get_or_insert(s) != s {
                bad!("edge", "edge {} is side {} of element {} and another side elsewhere", n, i, k);
            }
            if *ids.edge.entry(s).or_insert(n) != n {
                bad!("edge-duplicate", "edges {} and {} both stand for side {} of element {}", n, ids.edge[&s], i, k);
            }
        }
    }
    // unused nodes of the file are kept; everything else must be in use
    for (n, p) in node_of.iter().enumerate() {
        let nd = &mesh.nodes[n];
        if nd.id != n {
            bad!("ids", "node {} carries id {}", n, nd.id);
        }
        match p {
            None => {
                if n >= m.desc.nodes.len() {
                    bad!("node", "node {} belongs to no element", n);
                }
            }
            Some(p) => {
                let [x, y] = unpt(*p);
                if !close(nd.coords.x, x) || !close(nd.coords.y, y) {
                    bad!("coords", "node {} lies at ({}, {}) instead of ({}, {})", n, nd.coords.x, nd.coords.y, x, y);
                }
                if nd.boundary != g.points[p].0 {
                    bad!("boundary", "node {} at ({}, {}) has boundary flag {}", n, x, y, nd.boundary);
                }
            }
        }
    }
    for (n, s) in edge_of.iter().enumerate() {
        let e = &mesh.edges[n];
        if e.id != n {
            bad!("ids", "edge {} carries id {}", n, e.id);
        }
        let Some(s) = s else { bad!("edge", "edge {} belongs to no element", n) };
        let w = &g.sides[s];
        if e.nodes != [ids.node[&s.0], ids.node[&s.1]] {
            bad!("edge-nodes", "edge {} runs between nodes {:?} instead of {:?}", n, e.nodes, [ids.node[&s.0], ids.node[&s.1]]);
        }
        if (e.dir == ParaDir::U) != w.horizontal {
            bad!("edge-dir", "edge {} has direction {:?}", n, e.dir);
        }
        let (a, b) = (unpt(s.0), unpt(s.1));
        let len = (b[0] - a[0]) + (b[1] - a[1]);
        if !close(e.length, len) {
            bad!("edge-length", "edge {} has length {} instead of {}", n, e.length, len);
        }
        if e.boundary != w.boundary {
            bad!("boundary", "edge {} has boundary flag {}", n, e.boundary);
        }
        if e.is_boundary() != w.cells.iter().any(|l| l.is_empty()) {
            bad!("edge-cells", "edge {}: is_boundary() is {} with cells {:?}", n, e.is_boundary(), w.cells);
        }
        if e.parent_id() != w.parent.map(|p| ids.edge[&p]) {
            bad!("edge-tree", "edge {} has parent {:?} instead of {:?}", n, e.parent_id(), w.parent.map(|p| ids.edge[&p]));
        }
        let kids = w.kids.map(|k| k.map(|x| ids.edge[&x]).to_vec());
        if e.child_ids().map(|v| v.to_vec()) != kids || e.has_children() != kids.is_some() {
            bad!("edge-tree", "edge {} has children {:?} instead of {:?}", n, e.child_ids(), kids);
        }
        if e.child_node_id() != w.kids.map(|k| ids.node[&k[0].1]) {
            bad!("edge-tree", "edge {} has child node {:?}", n, e.child_node_id());
        }
        if e.active_elem_pair() != w.pair {
            bad!("active-pair", "edge {} has the active pair {:?} instead of {:?}", n, e.active_elem_pair(), w.pair);
        }
        if let Some([a, b]) = w.pair {
            if e.other_active_elem_id(a) != Some(b) || e.other_active_elem_id(b) != Some(a) {
                bad!("active-pair", "edge {}: the other of {} and {} is wrong", n, a, b);
            }
        }
    }
    cnt("meshes_compared", 1);
    Ok((g, ids))
}

/// Any of `n` ids or one just beyond them; often one of the first (which have the most descendants).
fn some_id(n: usize) -> usize {
    let all = n as u32 + 2;
    (if wc(1, 4) { w(all.min(5)) } else { w(all) }) as usize
}

/// Compare what the mesh answers about elements and edges, including ones that do not exist.
pub fn check_queries(mesh: &Mesh, m: &Model, ids: &Ids) -> Result<(), Bad> {
    let n = m.len();
    let sorted = |mut v: Vec<usize>| {
        v.sort();
        v
    };
    for _ in 0..6 {
        let c = some_id(n);
        let own = wc(1, 2);
        let there = c < n;
        macro_rules! ok {
            ($r:expr, $what:expr) => {
                match ($r, there) {
                    (Ok(x), true) => Some(x),
                    (Err(_), false) => None,
                    (Ok(_), false) => bad!("query", "{}({}) succeeds with {} elements", $what, c, n),
                    (Err(e), true) => bad!("query", "{}({}) fails: {}", $what, c, e),
                }
            };
        }
        let (nan, cell) = ([f64::NAN; 2], m.cells.get(c));
        if let Some(p) = ok!(mesh.elem_points(c), "elem_points") {
            let want = cell.unwrap().corners().map(unpt);
            if p.iter().zip(want).any(|(a, b)| !close(a.x, b[0]) || !close(a.y, b[1])) {
                bad!("query", "elem_points({}) are wrong", c);
            }
        }
        if let Some(p) = ok!(mesh.elem_diag_points(c), "elem_diag_points") {
            let (x, y) = cell.map_or((nan, nan), |c| (c.x, c.y));
            if !close(p[0].x, x[0]) || !close(p[1].x, x[1]) || !close(p[0].y, y[0]) || !close(p[1].y, y[1]) {
                bad!("query", "elem_diag_points({}) are wrong", c);
            }
        }
        if let Some(r) = ok!(mesh.elem_is_h_refineable(c), "elem_is_h_refineable") {
            if r != m.refineable(c) {
                bad!("query", "elem_is_h_refineable({}) is {}", c, r);
            }
        }
        if let Some(r) = ok!(mesh.elem_p_refinement_window(c), "elem_p_refinement_window") {
            if r.map(|a| a.map(|b| b as i64)) != m.window(c) {
                bad!("query", "elem_p_refinement_window({}) is {:?}", c, r);
            }
        }
        if let Some(r) = ok!(mesh.descendant_elems(c, own), "descendant_elems") {
            let mut want = vec![];
            m.desc_ids(c, own, &mut want);
            if sorted(r.clone()) != sorted(want) {
                bad!("query", "descendant_elems({}, {}) is {:?}", c, own, r);
            }
        }
        if let Some(r) = ok!(mesh.ancestor_elems(c, own), "ancestor_elems") {
            let mut want: Vec<usize> = cell.unwrap().stack.iter().rev().map(|s| s.0).collect();
            if own {
                want.insert(0, c);
            }
            if r != want {
                bad!("query", "ancestor_elems({}, {}) is {:?} instead of {:?}", c, own, r, want);
            }
        }
        if let Some(cell) = cell {
            let e = &mesh.elems[c];
            let rel = |a: &Cell| {
                let f = |o: [f64; 2], i: [f64; 2]| i.map(|v| 2.0 * (v - o[0]) / (o[1] - o[0]) - 1.0);
                [f(a.x, cell.x), f(a.y, cell.y)]
            };
            let same = |a: [[f64; 2]; 2], b: [[f64; 2]; 2]| a.iter().flatten().zip(b.iter().flatten()).all(|(x, y)| (x - y).abs() < 1e-6);
            if !same(e.parametric_range(), rel(&m.cells[cell.base])) {
                bad!("query", "parametric_range of {} is {:?}", c, e.parametric_range());
            }
            if !cell.stack.is_empty() {
                let a = cell.stack[w(cell.stack.len() as u32) as usize].0;
                if !same(e.relative_parametric_range(a), rel(&m.cells[a])) {
                    bad!("query", "relative_parametric_range of {} in {} is {:?}", c, a, e.relative_parametric_range(a));
                }
            }
        }
        // edges
        let k = some_id(ids.edge.len());
        let side = ids.edge.iter().find(|x| *x.1 == k).map(|x| *x.0);
        match (mesh.edge_points(k), side) {
            (Ok(p), Some(s)) => {
                let (a, b) = (unpt(s.0), unpt(s.1));
                if !close(p[0].x, a[0]) || !close(p[0].y, a[1]) || !close(p[1].x, b[0]) || !close(p[1].y, b[1]) {
                    bad!("query", "edge_points({}) are wrong", k);
                }
            }
            (Err(_), None) => (),
            _ => bad!("query", "edge_points({}) with {} edges", k, ids.edge.len()),
        }
        match (mesh.descendant_edges(k, own), side) {
            (Ok(r), Some(s)) => {
                let inside = |x: &Side| {
                    let within = |p: Pt| p >= s.0 && p <= s.1 && ((p.0 == s.0 .0 && s.0 .0 == s.1 .0) || (p.1 == s.0 .1 && s.0 .1 == s.1 .1));
                    within(x.0) && within(x.1)
                };
                let want: Vec<usize> = ids.edge.iter().filter(|(x, i)| inside(x) && (own || **i != k)).map(|x| *x.1).collect();
                if sorted(r.clone()) != sorted(want.clone()) {
                    bad!("query", "descendant_edges({}, {}) is {:?} instead of {:?}", k, own, r, want);
                }
            }
            (Err(_), None) => (),
            (Ok(_), None) => bad!("query", "descendant_edges({}) succeeds with {} edges", k, ids.edge.len()),
            (Err(e), _) => bad!("query", "descendant_edges({}) fails: {}", k, e),
        }
    }
    let mx = m.cells.iter().fold([0, 0], |a, c| [a[0].max(c.ord[0]), a[1].max(c.ord[1])]);
    if mesh.max_expansion_orders() != mx {
        bad!("query", "max_expansion_orders() is {:?} instead of {:?}", mesh.max_expansion_orders(), mx);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ degrees of freedom

/// cell, direction (0 u, 1 v), orders
pub type Fun = (usize, u8, u8, u8);

/// The degrees of freedom that follow from the model, as sorted groups of basis functions.
pub fn expected_dofs(m: &Model, g: &Geo) -> Vec<Vec<Fun>> {
    let mut out: Vec<Vec<Fun>> = vec![];
    for (k, c) in m.cells.iter().enumerate().filter(|(_, c)| c.kids.is_empty()) {
        let [ni, nj] = c.ord;
        for i in 0..ni {
            for j in 2..=nj {
                out.push(vec![(k, 0, i, j)]);
            }
        }
        for i in 2..=ni {
            for j in 0..nj {
                out.push(vec![(k, 1, i, j)]);
            }
        }
    }
    for e in g.sides.values() {
        if let Some([a, b]) = e.pair {
            let d = if e.horizontal { 0 } else { 1 };
            let n = m.cells[a].ord[d].min(m.cells[b].ord[d]);
            for i in 0..n {
                // the lower/left cell's function is the one that lives on its N/E side
                let mut v = if d == 0 { vec![(a, 0, i, 1), (b, 0, i, 0)] } else { vec![(a, 1, 1, i), (b, 1, 0, i)] };
                v.sort();
                out.push(v);
            }
        }
    }
    out.sort();
    out
}

pub fn dof_count(m: &Model) -> usize {
    m.cells.iter().map(|c| 2 * (c.ord[0] as usize + 1) * (c.ord[1] as usize + 1)).sum()
}

pub fn check_domain(d: &Domain, m: &Model, g: &Geo, ids: &Ids) -> Result<(), Bad> {
    let n = m.len();
    if d.basis_specs.len() != n {
        bad!("dof-basis", "basis functions listed for {} elements instead of {}", d.basis_specs.len(), n);
    }
    cnt("dofs", d.dofs.len() as u64);
    let mut seen: Vec<Vec<bool>> = d.basis_specs.iter().map(|l| vec![false; l.len()]).collect();
    let mut got: Vec<Vec<Fun>> = vec![];
    for (k, dof) in d.dofs.iter().enumerate() {
        if dof.id != k {
            bad!("dof-id", "degree of freedom {} carries id {}", k, dof.id);
        }
        let mut grp = vec![];
        for a in dof.get_basis_specs() {
            let bs = match d.get_basis_spec(a) {
                Ok(b) => b,
                Err(e) => bad!("dof-address", "degree of freedom {} refers to a basis function that does not exist: {}", k, e),
            };
            if bs.dof_id != Some(k) {
                bad!("dof-link", "degree of freedom {} refers to a basis function of {:?}", k, bs.dof_id);
            }
            if bs.elem_id != a.elem_id || bs.elem_idx != Some(a.elem_idx) {
                bad!("dof-link", "the basis function at ({}, {}) says it is at ({}, {:?})", a.elem_id, a.elem_idx, bs.elem_id, bs.elem_idx);
            }
            if std::mem::replace(&mut seen[a.elem_id][a.elem_idx], true) {
                bad!("dof-link", "the basis function at ({}, {}) belongs to two degrees of freedom", a.elem_id, a.elem_idx);
            }
            let dir = match bs.dir {
                BasisDir::U => 0,
                BasisDir::V => 1,
                BasisDir::W => 2,
            };
            let on = match (dir, bs.i, bs.j) {
                (0, _, j) if j < 2 => Some(j as usize),
                (1, i, _) if i < 2 => Some(2 + i as usize),
                _ => None,
            };
            let ok = match (bs.loc, on) {
                (BasisLoc::ElemBs, None) => true,
                (BasisLoc::EdgeBs(x, id), Some(k)) => x as usize == k && id == ids.edge[&m.cells[bs.elem_id].sides()[k]],
                _ => false,
            };
            if !ok {
                bad!("dof-place", "basis function {} is placed at {:?}", bs, bs.loc);
            }
            grp.push((bs.elem_id, dir, bs.i, bs.j));
        }
        grp.sort();
        got.push(grp);
    }
    for (e, l) in seen.iter().enumerate() {
        if let Some(i) = l.iter().position(|x| !x) {
            bad!("dof-orphan", "basis function ({}, {}) belongs to no degree of freedom", e, i);
        }
    }
    got.sort();
    let want = expected_dofs(m, g);
    if got != want {
        if let Some(x) = want.iter().find(|x| got.binary_search(x).is_err()) {
            bad!("dof-missing", "{} degrees of freedom instead of {}; missing: {:?} (element, direction, orders)", got.len(), want.len(), x);
        }
        if let Some(x) = got.iter().find(|x| want.binary_search(x).is_err()) {
            bad!("dof-extra", "{} degrees of freedom instead of {}; not expected: {:?} (element, direction, orders)", got.len(), want.len(), x);
        }
        bad!("dof-duplicate", "{} degrees of freedom instead of {}", got.len(), want.len());
    }
    // queries
    for _ in 0..3 {
        let c = some_id(n);
        let there = c < n;
        match (d.local_basis_specs(c), there) {
            (Ok(l), true) if std::ptr::eq(l, &d.basis_specs[c]) || l == &d.basis_specs[c] => (),
            (Err(_), false) => (),
            _ => bad!("dof-query", "local_basis_specs({}) is wrong", c),
        }
        match (d.descendant_basis_specs(c), there) {
            (Ok(l), true) => {
                let mut want = vec![];
                m.desc_ids(c, false, &mut want);
                let mut got: Vec<usize> = l.iter().map(|x| x.0).collect();
                got.sort();
                want.sort();
                if got != want || l.iter().any(|(e, v)| v.len() != d.basis_specs[*e].len()) {
                    bad!("dof-query", "descendant_basis_specs({}) lists {:?}", c, got);
                }
            }
            (Err(_), false) => (),
            _ => bad!("dof-query", "descendant_basis_specs({}) is wrong", c),
        }
        match (d.ancestor_basis_specs(c), there) {
            (Ok(l), true) => {
                let mut want: Vec<usize> = m.cells[c].stack.iter().map(|s| s.0).collect();
                let mut got: Vec<usize> = l.iter().map(|x| x.0).collect();
                got.sort();
                want.sort();
                if got != want || l.iter().any(|(e, v)| v.len() != d.basis_specs[*e].len()) {
                    bad!("dof-query", "ancestor_basis_specs({}) lists {:?}", c, got);
                }
            }
            (Err(_), false) => (),
            _ => bad!("dof-query", "ancestor_basis_specs({}) is wrong", c),
        }
        let len = if there { d.basis_specs[c].len() } else { 0 };
        let i = w(len as u32 + 2) as usize;
        match (d.get_basis_spec(BSAddress::new(c, i)), there && i < len) {
            (Ok(b), true) if b.elem_id == c && b.elem_idx == Some(i) => (),
            (Err(_), false) => (),
            _ => bad!("dof-query", "get_basis_spec({}, {}) is wrong", c, i),
        }
    }
    Ok(())
}
