//! Instrumented basis spaces and integrals: exact integer results derived from what they are given,
//! with optional delays and panics. Plus a sequential reference assembler.
use crate::common::*;
use fem_2d::fem_domain::basis::{HierBasisFn, HierCurlBasisFn, HierCurlBasisFnSpace};
use fem_2d::fem_domain::domain::dof::basis_spec::BasisDir;
use fem_2d::fem_domain::domain::mesh::element::Materials;
use fem_2d::fem_domain::domain::mesh::elem::Elem;
use fem_2d::fem_problem::integration::glq::gauss_quadrature_points;
use fem_2d::fem_problem::integration::{HierCurlIntegral, IntegralResult};
use fem_2d::prelude::*;
use simrt::shared::*;
use std::collections::BTreeMap;

pub const INJECTED: &str = "injected panic 7f3a";

/// What the instrumented callbacks do besides computing. Only ever touched by the running thread.
pub struct Hooks {
    pub on: bool,
    /// sleep in about one of `stall` integral calls (0: never), for up to `stall_ns`
    pub stall: u64,
    pub stall_ns: u64,
    pub stalls_left: u32,
    /// panic at integral calls numbered in [int_from, int_to)
    pub int_from: u64,
    pub int_to: u64,
    /// panic at basis-space constructions numbered in [with_from, with_to)
    pub with_from: u64,
    pub with_to: u64,
    /// panic at shape-function evaluations numbered in [eval_from, eval_to)
    pub eval_from: u64,
    pub eval_to: u64,
    /// callbacks that use the thread pool themselves: 1 basis spaces, 2 integrals, 3 both
    pub nested: u32,
    /// the integrals are whole multiples of 2^exp (A, B)
    pub exp: [i32; 2],
    /// what injected panics carry
    pub payload: u32,
    /// panic for integrals whose value hash falls in this class (0: never)
    pub hash_mod: u64,
    pub evals: u64,
    pub ints: u64,
    pub withs: u64,
    pub panics: u64,
}
pub static mut HOOKS: Hooks = Hooks {
    on: false,
    stall: 0,
    stall_ns: 0,
    stalls_left: 0,
    int_from: 0,
    int_to: 0,
    with_from: 0,
    with_to: 0,
    eval_from: 0,
    eval_to: 0,
    evals: 0,
    nested: 0,
    exp: [0, 0],
    payload: 0,
    hash_mod: 0,
    ints: 0,
    withs: 0,
    panics: 0,
};
pub fn hooks() -> &'static mut Hooks {
    unsafe { &mut *std::ptr::addr_of_mut!(HOOKS) }
}
/// Count up (several threads may be in the callbacks at once) and return what it was.
#[inline]
fn bump(x: *mut u64) -> u64 {
    unsafe { std::sync::atomic::AtomicU64::from_ptr(x) }.fetch_add(1, std::sync::atomic::Ordering::SeqCst)
}
pub fn panics() -> u64 {
    unsafe { std::ptr::addr_of!((*std::ptr::addr_of!(HOOKS)).panics).read_volatile() }
}
pub fn no_panics() {
    let h = hooks();
    (h.int_from, h.int_to, h.with_from, h.with_to, h.hash_mod) = (0, 0, 0, 0, 0);
    (h.eval_from, h.eval_to, h.evals) = (0, 0, 0);
    (h.ints, h.withs, h.panics) = (0, 0, 0);
}
#[inline]
fn eval() {
    let h = hooks();
    if h.eval_to > 0 {
        let k = bump(&mut h.evals) + 1;
        if k > h.eval_from && k <= h.eval_to {
            inject()
        }
    }
}
/// Some work shared out on the thread pool by a callback.
fn pool_work(x: u64, deep: bool) -> u64 {
    use rayon::prelude::*;
    cnt("nested_parallel", 1);
    if deep {
        (0..x % 7 + 2).into_par_iter().map(|k| splitmix(k ^ x) % 5).sum()
    } else {
        let (a, b) = rayon::join(|| splitmix(x) % 5, || splitmix(x + 1) % 5);
        a + b
    }
}
fn inject() -> ! {
    bump(&mut hooks().panics);
    fault(Fault::CallbackPanic);
    cnt("panics_injected", 1);
    match hooks().payload {
        0 => panic!("{}", INJECTED),
        1 => std::panic::panic_any(INJECTED),
        _ => std::panic::panic_any(Strange(7)),
    }
}
/// A panic payload that is no text.
pub struct Strange(pub u32);
/// The text of a panic; an injected one always gives `INJECTED`.
pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    match e.downcast_ref::<Strange>() {
        Some(Strange(7)) => INJECTED.to_string(),
        _ => panic_msg(e),
    }
}

/// A basis space that only remembers where it is evaluated. One with the functions times (1 + K).
#[derive(Clone, Debug)]
pub struct SBK<const K: usize> {
    pub pts: Vec<f64>,
    pub max: usize,
    pub d2: bool,
}
pub type SB = SBK<0>;
pub type SB2 = SBK<1>;
impl<const K: usize> HierCurlBasisFnSpace for SBK<K> {
    fn with(max_order: usize, points: &[f64], compute_d2: bool) -> Self {
        let h = hooks();
        if h.on {
            let k = bump(&mut h.withs);
            if h.stalls_left > 0 && splitmix(k ^ 0x51) % h.stall == 0 {
                h.stalls_left = h.stalls_left.saturating_sub(1);
                fault(Fault::ThreadStall);
                simrt::sched::sleep(splitmix(k) % h.stall_ns.max(1) + 1);
            }
            if h.nested & 1 != 0 {
                std::hint::black_box(pool_work(k, k % 3 == 0));
            }
            if k >= h.with_from && k < h.with_to {
                inject()
            }
        }
        SBK { pts: points.to_vec(), max: max_order, d2: compute_d2 }
    }
    fn norm(&self, n: usize, p: usize) -> f64 {
        eval();
        (1.0 + n as f64 + self.pts[p]) * (1 + K) as f64
    }
    fn norm_d1(&self, n: usize, p: usize) -> f64 {
        3.0 + n as f64 * self.pts[p]
    }
    fn norm_d2(&self, n: usize, p: usize) -> f64 {
        5.0 + n as f64 * 0.5 + self.pts[p]
    }
    fn tang(&self, n: usize, p: usize) -> f64 {
        eval();
        2.0 + n as f64 - 0.5 * self.pts[p]
    }
    fn tang_d1(&self, n: usize, p: usize) -> f64 {
        4.0 + n as f64 * 0.25 * self.pts[p]
    }
    fn tang_d2(&self, n: usize, p: usize) -> f64 {
        7.0 - n as f64 * self.pts[p]
    }
}

pub fn quant(x: f64) -> u64 {
    (x * 1e6 + 0.381_966_01).floor() as i64 as u64
}

fn fp<S: HierCurlBasisFnSpace>(b: &HierCurlBasisFn<S>, dir: BasisDir, o: [usize; 2], n: [usize; 2]) -> u64 {
    let mut h = 0x1234 ^ (dir as u64);
    for p in [[0, 0], [n[0] - 1, n[1] / 2], [n[0] / 3, n[1] - 1]] {
        let v = match dir {
            BasisDir::U => b.f_u(o, p),
            BasisDir::V => b.f_v(o, p),
            BasisDir::W => panic!("w-directed basis function in a 2D H(curl) problem"),
        };
        h = h64(h, quant(v.x()));
        h = h64(h, quant(v.y()));
        h = h64(h, quant(b.sample_scale(p)));
    }
    h = h64(h, quant(b.para_scale[0]));
    h64(h, quant(b.para_scale[1]))
}

pub struct Int<const SALT: u64> {
    n: [usize; 2],
    wh: u64,
}
impl<const SALT: u64> HierCurlIntegral for Int<SALT> {
    fn with_weights(u: &[f64], v: &[f64]) -> Self {
        let mut wh = SALT;
        for x in u.iter().chain(v) {
            wh = h64(wh, quant(*x));
        }
        Int { n: [u.len(), v.len()], wh }
    }
    fn integrate<S: HierCurlBasisFnSpace>(
        &self,
        p_dir: BasisDir,
        q_dir: BasisDir,
        p_orders: [usize; 2],
        q_orders: [usize; 2],
        p: &HierCurlBasisFn<S>,
        q: &HierCurlBasisFn<S>,
        m: &Materials,
    ) -> IntegralResult {
        let hp = fp(p, p_dir, p_orders, self.n);
        let hq = fp(q, q_dir, q_orders, self.n);
        let mut h = h64(self.wh, hp.min(hq));
        h = h64(h, hp.max(hq));
        for x in [m.eps_rel.re, m.eps_rel.im, m.mu_rel.re, m.mu_rel.im] {
            h = h64(h, quant(x));
        }
        let hk = hooks();
        if hk.on {
            let k = bump(&mut hk.ints);
            if hk.stalls_left > 0 && h % hk.stall == 1 {
                hk.stalls_left = hk.stalls_left.saturating_sub(1);
                fault(Fault::ThreadStall);
                simrt::sched::sleep(splitmix(h) % hk.stall_ns.max(1) + 1);
            }
            if hk.nested & 2 != 0 && h % 5 == 0 {
                std::hint::black_box(pool_work(h, h % 3 == 0));
            }
            if (k >= hk.int_from && k < hk.int_to) || (hk.hash_mod > 0 && (h >> 20) % hk.hash_mod == 1) {
                inject()
            }
        }
        let unit = f64::powi(2.0, hk.exp[(SALT != 0xA) as usize]);
        let v = (((h >> 8) % 2001) as f64 - 1000.0) * unit;
        if h & 3 == 0 {
            let e = [1.0, -2.0, (h & 0xf0) as f64, 3.0].map(|x| x * unit);
            IntegralResult::ByParts(v - e.iter().sum::<f64>(), e)
        } else {
            IntegralResult::Full(v)
        }
    }
    fn integrate_by_parts<S: HierCurlBasisFnSpace>(
        &self,
        p_dir: BasisDir,
        q_dir: BasisDir,
        p_orders: [usize; 2],
        q_orders: [usize; 2],
        p: &HierCurlBasisFn<S>,
        q: &HierCurlBasisFn<S>,
        m: &Materials,
    ) -> IntegralResult {
        self.integrate(p_dir, q_dir, p_orders, q_orders, p, q, m)
    }
}
pub type SA = Int<0xA>;
pub type SBI = Int<0xB>;

/// Node-coordinate rectangle of an element.
pub fn rect(m: &Mesh, e: &Elem) -> ([f64; 2], [f64; 2]) {
    let a = &m.nodes[e.nodes[0]].coords;
    let b = &m.nodes[e.nodes[3]].coords;
    ([a.x, b.x], [a.y, b.y])
}

pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}

/// Check a sample against plain geometry: the element's rectangle and, if given, the descendant's.
pub fn sample_error(
    s: &HierCurlBasisFn<SB>,
    m: &Mesh,
    elem: &Elem,
    desc: Option<&Elem>,
    pts: [&[f64]; 2],
) -> Option<String> {
    let (ex, ey) = rect(m, elem);
    let (dx, dy) = desc.map_or((ex, ey), |d| rect(m, d));
    let rel = |e: [f64; 2], d: [f64; 2]| {
        let c = |x: f64| 2.0 * (x - e[0]) / (e[1] - e[0]) - 1.0;
        [c(d[0]), c(d[1])]
    };
    let (ru, rv) = (rel(ex, dx), rel(ey, dy));
    let sc = [(ru[1] - ru[0]) / 2.0, (rv[1] - rv[0]) / 2.0];
    if !close(s.para_scale[0], sc[0]) || !close(s.para_scale[1], sc[1]) {
        return Some(format!("scale [{}, {}] instead of {:?}", s.para_scale[0], s.para_scale[1], sc));
    }
    let (n0, n1) = (pts[0].len(), pts[1].len());
    if s.jac.len() != n0 || s.det_jac.len() != n0 || s.jac_inv.len() != n0 || s.jac.iter().any(|r| r.len() != n1) {
        return Some("wrong number of sample points".into());
    }
    let (jx, jy) = ((ex[1] - ex[0]) / 2.0, (ey[1] - ey[0]) / 2.0);
    for k in 0..n0.max(n1) {
        let p = [k % n0, (k * 7 + 3) % n1];
        let u = ru[0] + (pts[0][p[0]] + 1.0) * sc[0];
        let v = rv[0] + (pts[1][p[1]] + 1.0) * sc[1];
        let fu = s.f_u([1, 2], p);
        let fv = s.f_v([2, 1], p);
        let want_u = (2.0 + u) * (4.0 - 0.5 * v) / jx;
        let want_v = (4.0 - 0.5 * u) * (2.0 + v) / jy;
        if !close(fu.x(), want_u) || !close(fu.y(), 0.0) || !close(fv.x(), 0.0) || !close(fv.y(), want_v) {
            return Some(format!(
                "at point {:?}: u-function {:?} instead of {}, v-function {:?} instead of {}",
                p, fu, want_u, fv, want_v
            ));
        }
        if !close(s.sample_scale(p), jx * jy) {
            return Some(format!("Jacobian determinant {} instead of {}", s.sample_scale(p), jx * jy));
        }
    }
    None
}

pub type Mat = BTreeMap<[usize; 2], f64>;

fn weights_and_points(d: &Domain, glq: Option<[usize; 2]>) -> ([Vec<f64>; 2], [Vec<f64>; 2], [usize; 2]) {
    let mut o = [0usize; 2];
    for e in &d.mesh.elems {
        o[0] = o[0].max(e.poly_orders.ni as usize);
        o[1] = o[1].max(e.poly_orders.nj as usize);
    }
    let n = match glq {
        Some(n) => n,
        None => {
            // the default density is the sampler's business; only its size is taken over
            let (_, w) = fem_2d::fem_domain::basis::BasisFnSampler::<HierCurlBasisFn<SB>>::with(o[0], o[1], None, None, false);
            [w[0].len(), w[1].len()]
        }
    };
    let (pu, wu) = gauss_quadrature_points(n[0], false);
    let (pv, wv) = gauss_quadrature_points(n[1], false);
    ([pu, pv], [wu, wv], o)
}

/// Sequential assembly straight from the definition. Returns the sums and the sums of magnitudes.
pub fn reference<S, A, B>(d: &Domain, glq: Option<[usize; 2]>) -> [(Mat, Mat); 2]
where
    S: HierCurlBasisFnSpace,
    A: HierCurlIntegral,
    B: HierCurlIntegral,
{
    let was = hooks().on;
    hooks().on = false;
    let ([pu, pv], [wu, wv], om) = weights_and_points(d, glq);
    let a = A::with_weights(&wu, &wv);
    let b = B::with_weights(&wu, &wv);
    let mut out: [(Mat, Mat); 2] = Default::default();
    let sample = |e: usize, over: Option<usize>| -> HierCurlBasisFn<S> {
        HierCurlBasisFn::defined_over(&d.mesh.elems[e], over.map(|o| &d.mesh.elems[o]), [&pu, &pv], om, false)
    };
    let mut put = |k: usize, i: usize, j: usize, v: f64| {
        let key = [i.min(j), i.max(j)];
        *out[k].0.entry(key).or_insert(0.0) += v;
        *out[k].1.entry(key).or_insert(0.0) += v.abs();
    };
    let local: Vec<HierCurlBasisFn<S>> = (0..d.mesh.elems.len()).map(|e| sample(e, None)).collect();
    for e in 0..d.mesh.elems.len() {
        let specs = &d.basis_specs[e];
        if specs.is_empty() {
            continue;
        }
        let at = |s: &BasisSpec| ([s.i as usize, s.j as usize], s.dir, s.dof_id.expect("dof id"));
        for (n, p) in specs.iter().enumerate() {
            for q in &specs[n..] {
                let (po, pd, pi) = at(p);
                let (qo, qd, qi) = at(q);
                let m = d.mesh.elems[e].get_materials();
                put(0, pi, qi, a.integrate(pd, qd, po, qo, &local[e], &local[e], m).full_solution());
                put(1, pi, qi, b.integrate(pd, qd, po, qo, &local[e], &local[e], m).full_solution());
            }
        }
        // this element as the descendant of each of its ancestors
        let mut anc = d.mesh.elems[e].parent_id();
        while let Some(t) = anc {
            if !d.basis_specs[t].is_empty() {
                let over = sample(t, Some(e));
                let m = d.mesh.elems[t].get_materials();
                for p in &d.basis_specs[t] {
                    for q in specs {
                        let (po, pd, pi) = at(p);
                        let (qo, qd, qi) = at(q);
                        put(0, pi, qi, a.integrate(pd, qd, po, qo, &over, &local[e], m).full_solution());
                        put(1, pi, qi, b.integrate(pd, qd, po, qo, &over, &local[e], m).full_solution());
                    }
                }
            }
            anc = d.mesh.elems[t].parent_id();
        }
    }
    hooks().on = was;
    out
}

/// Check the samples the reference itself relies on, on a few element pairs.
pub fn check_direct_samples(d: &Domain, cls: &str) {
    let was = hooks().on;
    hooks().on = false;
    let (pu, _) = gauss_quadrature_points(4, false);
    let (pv, _) = gauss_quadrature_points(5, false);
    let n = d.mesh.elems.len();
    for _ in 0..4 {
        let e = w(n as u32) as usize;
        let mut chain = vec![None, Some(e)];
        let mut x = e;
        while let Some(t) = d.mesh.elems[x].parent_id() {
            chain.push(Some(t));
            x = t;
        }
        let pick = chain[w(chain.len() as u32) as usize];
        let (base, over) = match pick {
            None => (e, None),
            Some(t) => (t, Some(e)),
        };
        let s: HierCurlBasisFn<SB> =
            HierCurlBasisFn::defined_over(&d.mesh.elems[base], over.map(|o| &d.mesh.elems[o]), [&pu, &pv], [3, 3], false);
        if let Some(err) = sample_error(&s, &d.mesh, &d.mesh.elems[base], over.map(|o| &d.mesh.elems[o]), [&pu, &pv]) {
            fail(&format!("{}/direct-sample", cls), &format!("element {} sampled over {:?}: {}", base, over, err));
        }
    }
    hooks().on = was;
}

/// Compare an assembled matrix with the reference. Entries not stored count as zero.
pub fn compare(cls: &str, what: &str, got: &fem_2d::fem_problem::linalg::sparse_matrix::SparseMatrix, want: &(Mat, Mat), dim: usize, tol: f64) {
    cnt("matrix_entries_compared", want.0.len() as u64);
    if got.dimension != dim {
        fail(&format!("{}/dimension", cls), &format!("{}: dimension {} instead of {}", what, got.dimension, dim));
    }
    let mut seen: Mat = Mat::new();
    for (k, v) in got.iter_upper_tri() {
        if k[0] > k[1] || k[1] >= dim {
            fail(&format!("{}/coordinates", cls), &format!("{}: stored entry {:?} of a {}x{} matrix", what, k, dim, dim));
        }
        if seen.insert(k, v).is_some() {
            fail(&format!("{}/coordinates", cls), &format!("{}: entry {:?} is stored twice", what, k));
        }
    }
    for (k, v) in &want.0 {
        let g = seen.get(k).copied().unwrap_or(0.0);
        let lim = tol * want.1[k];
        if !((g - v).abs() <= lim) {
            fail(&format!("{}/wrong-entry", cls), &format!("{}: entry {:?} is {:?} instead of {:?}", what, k, g, v));
        }
    }
    for (k, g) in &seen {
        if !want.0.contains_key(k) && *g != 0.0 {
            fail(&format!("{}/extra-entry", cls), &format!("{}: entry {:?} = {:?} couples functions that share no element", what, k, g));
        }
    }
}
