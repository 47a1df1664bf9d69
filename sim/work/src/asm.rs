//! Assembly: exactly-once integration, the shared sample cache, panics, concurrency.
use crate::common::*;
use crate::stub::*;
use crate::{gen, item, note, Item, Prop};
use fem_2d::fem_domain::basis::{BasisFnSampler, HierBasisFn, HierCurlBasisFn, HierCurlBasisFnSpace};
use fem_2d::fem_problem::integration::glq::gauss_quadrature_points;
use fem_2d::prelude::*;
use simrt::shared::*;
use std::sync::Arc;

pub fn small_domain(max_elems: usize, max_order: u32) -> Domain {
    let (nx, ny) = (wr(1, 3) as usize, wr(1, 3) as usize);
    let d = gen::grid(nx, ny);
    let mut m = gen::load(&d, &p(&format!("mesh{}.json", w(1000))));
    gen::refine(&mut m, max_elems, max_order);
    make_domain(m)
}
pub fn make_domain(m: Mesh) -> Domain {
    Domain::from_mesh(m, ContinuityCondition::HCurl)
}

/// Domains that are easily mistaken for each other.
pub fn twin_domains(n: usize, max: usize, max_order: u32) -> Vec<Domain> {
    let base = w(1000);
    gen::twins(n, max, max_order, &|k| p(&format!("twin{}_{}.json", base, k))).into_iter().map(make_domain).collect()
}

fn big_domain() -> Domain {
    let n = wr(14, 18) as usize;
    let d = gen::grid(n, n);
    let mut m = gen::load(&d, &p("big.json"));
    m.global_h_refinement(HRef::T);
    if wc(1, 2) {
        let k = m.elems.len();
        let _ = m.h_refine_elems(vec![k - 1, k / 2], HRef::U(None));
    }
    make_domain(m)
}

/// A small mesh with one place that is refined over and over.
pub fn deep_domain() -> Domain {
    let mut m = gen::load(&gen::grid(1, wr(1, 2) as usize), &p("deep.json"));
    let mut at = 0;
    for _ in 0..wr(4, 11) {
        let before = m.elems.len();
        if m.execute_h_refinements(vec![(at, gen::href(true))]).is_err() {
            break;
        }
        at = before + w((m.elems.len() - before) as u32) as usize;
        if m.elems[at].has_children() {
            at = m.elems.len() - 1;
        }
    }
    if wc(1, 2) {
        let hi = wr(1, 3);
        m.set_expansion_orders((0..m.elems.len()).map(|e| (e, Orders::new(wr(1, hi) as u8, wr(1, hi) as u8))).collect()).expect("orders");
    }
    make_domain(m)
}

pub fn glq_choice() -> Option<[usize; 2]> {
    if wc(1, 4) {
        None
    } else {
        Some(glq_grid())
    }
}
/// Quadrature grids; a few of them long in one direction.
pub fn glq_grid() -> [usize; 2] {
    let mut g = [wr(4, 7) as usize, wr(4, 7) as usize];
    if wc(1, 12) {
        g[w(2) as usize] = [wr(8, 16), wr(17, 40), wr(41, 80), wr(257, 300)][[0, 0, 0, 1, 1, 1, 2, 2, 2, 3][w(10) as usize]] as usize;
    }
    if g[0].max(g[1]) > 80 {
        sh().step_limit = sh().step_limit.max(8_000_000_000);
    }
    g
}

/// Several hundred elements, most of them cheap to make.
fn many_domain() -> Domain {
    let n = wr(6, 16) as usize;
    let d = gen::grid(n, n);
    let mut m = gen::load(&d, &p("many.json"));
    if wc(2, 3) {
        m.global_h_refinement([HRef::T, HRef::U(None), HRef::V(None)][w(3) as usize]);
    }
    make_domain(m)
}

/// More elements than 16 bits can number.
fn vast_mesh() -> Mesh {
    let d = gen::grid_units(wr(1, 2) as usize, wr(1, 2) as usize, [1.0, 1.0]);
    let mut m = gen::load(&d, &p("vast.json"));
    for r in [HRef::U(None), HRef::V(None)] {
        if wc(1, 2) {
            m.global_h_refinement(r);
        }
    }
    while m.elems.len() < 66_000 {
        m.global_h_refinement(HRef::T);
    }
    m
}

fn stalls() {
    let h = hooks();
    h.on = true;
    if wc(1, 3) {
        h.stall = [7, 60, 500][w(3) as usize];
        h.stalls_left = wr(1, 120);
        h.stall_ns = [200, 20_000, 3_000_000][w(3) as usize];
    }
    h.nested = if wc(1, 8) { 1 + w(3) } else { 0 };
    h.exp = if wc(1, 6) { [0, 1].map(|_| [-60, -200, 40, 0][w(4) as usize]) } else { [0, 0] };
    h.payload = if wc(1, 3) { 1 + w(2) } else { 0 };
}

/// The ways user code may call assembly.
pub fn assemble_in(style: u32, d: &Domain, glq: Option<[usize; 2]>) -> Result<GEP, GalerkinSamplingError> {
    assemble_with::<SB>(style, d, glq)
}
fn assemble_with<S: HierCurlBasisFnSpace>(style: u32, d: &Domain, glq: Option<[usize; 2]>) -> Result<GEP, GalerkinSamplingError> {
    in_pool(style, || galerkin_sample_gep_hcurl::<S, SA, SBI>(d, glq))
}
pub fn in_pool<R: Send>(style: u32, go: impl Fn() -> R + Send + Sync) -> R {
    match style {
        1 => {
            let mut out = None;
            rayon::scope(|s| s.spawn(|_| out = Some(go())));
            out.unwrap()
        }
        2 => rayon::join(go, || std::hint::black_box(1 + 1)).0,
        3 | 4 => rayon::ThreadPoolBuilder::new()
            .num_threads(if style == 3 { 1 } else { 3 })
            .build()
            .expect("pool")
            .install(go),
        _ => go(),
    }
}

fn s01_main(_: u32, _: u32) {
    let pool = machine();
    let kind = w(40);
    if kind < 3 {
        return s01_errors();
    }
    if kind < 8 {
        return s01_real();
    }
    if kind < 12 {
        for d in twin_domains(2 + w(2) as usize, 24, 3) {
            s01_one::<SB>(&d, pool, false);
        }
        return;
    }
    if kind < 14 {
        // the same topology again, once the first domain is gone (and its memory free for the second)
        let mut t = gen::grid(wr(1, 3) as usize, wr(1, 3) as usize);
        let mut steps = None;
        for k in 0..2 + w(2) {
            let mut m = gen::load(&t, &p(&format!("again{}.json", k)));
            match &steps {
                None => steps = Some(gen::refine(&mut m, 24, 3)),
                Some(s) => gen::redo(&mut m, s),
            }
            s01_one::<SB>(&make_domain(m), pool, false);
            t = gen::twin_of(&t);
        }
        return;
    }
    if kind < 16 {
        // the same domain with other quadrature grids and other bases
        let d = small_domain(24, 3);
        for _ in 0..2 + w(2) {
            if wc(1, 2) {
                s01_one::<SB>(&d, pool, false);
            } else {
                s01_one::<SB2>(&d, pool, false);
            }
        }
        return;
    }
    if kind < 18 {
        return s01_one::<SB>(&deep_domain(), pool, false);
    }
    if kind == 18 {
        // high orders on few elements
        let d = gen::grid(1, wr(1, 2) as usize);
        let mut m = gen::load(&d, &p("high.json"));
        let o = [wr(1, 12) as u8, wr(5, 12) as u8];
        m.set_global_expansion_orders(if wc(1, 2) { Orders::new(o[0], o[1]) } else { Orders::new(o[1], o[0]) });
        if wc(1, 2) {
            let _ = m.h_refine_elems(vec![0], gen::href(false));
            let _ = m.set_expansion_on_elems((1..m.elems.len()).collect(), Orders::new(1, 1));
        }
        return s01_one::<SB>(&make_domain(m), pool, false);
    }
    if kind == 19 && wc(1, 5) {
        // a coarse element beside one with very many descendants
        let mut m = gen::load(&gen::grid(2, 1), &p("beside.json"));
        let (side, levels) = (w(2) as usize, wr(4, 6));
        let mut at = vec![side];
        for k in 0..levels {
            let before = m.elems.len();
            m.h_refine_elems(at, if k < 4 || wc(1, 2) { HRef::T } else { gen::href(false) }).expect("refine");
            at = (before..m.elems.len()).filter(|e| !m.elems[*e].has_children()).collect();
        }
        if wc(1, 3) {
            m.set_expansion_on_elems(vec![0, 1], Orders::new(wr(1, 3) as u8, wr(1, 3) as u8)).expect("orders");
        }
        return s01_one::<SB>(&make_domain(m), pool, true);
    }
    if kind == 19 && w(30) == 0 {
        // more degrees of freedom than 16 bits count
        sh().step_limit *= 100;
        if wc(1, 2) {
            return s01_one::<SB>(&make_domain(vast_mesh()), pool, true);
        }
        let mut m = gen::load(&gen::grid_units(13 + w(2) as usize, 12, [1.0, 1.0]), &p("huge.json"));
        for _ in 0..3 {
            m.global_h_refinement(HRef::T);
        }
        m.set_global_expansion_orders(Orders::new(2, 2));
        return s01_one::<SB>(&make_domain(m), pool, true);
    }
    let big = w(60) == 0;
    let d = if big { big_domain() } else { small_domain([12, 30, 70][w(3) as usize], [2, 3, 4][w(3) as usize]) };
    s01_one::<SB>(&d, pool, big);
}

fn s01_one<S: HierCurlBasisFnSpace>(d: &Domain, pool: u32, big: bool) {
    let n = d.dofs.len();
    cnt("dofs", n as u64);
    cnt("assembly_max_elems", d.mesh.elems.len() as u64);
    let glq = if big { Some([4, 4]) } else { glq_choice() };
    let style = w(6);
    note!("elems={} dofs={} glq={:?} pool={} style={}", d.mesh.elems.len(), n, glq, pool, style);
    if n == 0 {
        let r = client(|| assemble_with::<S>(style, d, glq).is_err());
        match r {
            Ok(true) => return,
            Ok(false) => fail("assembly/accepted-invalid", "a domain without degrees of freedom was accepted"),
            Err(e) => fail("assembly/panic", &format!("a domain without degrees of freedom made assembly panic: {}", panic_msg(&e))),
        }
    }
    stalls();
    cnt("assemblies", 1);
    let r = client(|| assemble_with::<S>(style, d, glq));
    cnt("integrals", hooks().ints);
    hooks().on = false;
    let gep = match r {
        Ok(Ok(g)) => g,
        Ok(Err(e)) => fail("assembly/refused-valid", &format!("assembly was refused: {}", e)),
        Err(e) => fail("assembly/panic", &format!("assembly panicked: {}", panic_msg(&e))),
    };
    check_direct_samples(d, "assembly");
    let want = reference::<S, SA, SBI>(d, glq);
    compare("assembly", "A", &gep.a, &want[0], n, 0.0);
    compare("assembly", "B", &gep.b, &want[1], n, 0.0);
    if n <= 60 && wc(1, 4) {
        let [a, b] = gep.to_nalgebra_dense_mats();
        for (k, m) in [a, b].iter().enumerate() {
            if m.nrows() != n || m.ncols() != n {
                fail("assembly/dense", "dense matrices have the wrong size");
            }
            for i in 0..n {
                for j in 0..n {
                    let v = want[k].0.get(&[i.min(j), i.max(j)]).copied().unwrap_or(0.0);
                    if m[(i, j)] != v {
                        fail("assembly/dense", &format!("dense entry ({}, {}) is {} instead of {}", i, j, m[(i, j)], v));
                    }
                }
            }
        }
    }
}

fn s01_errors() {
    let mut d = small_domain(10, 2);
    let (why, glq) = match w(3) {
        0 => {
            d = if wc(1, 2) { Domain::blank(ContinuityCondition::HCurl) } else { Domain::unit(ContinuityCondition::HCurl) };
            ("no degrees of freedom", Some([4, 4]))
        }
        1 => {
            d.cc = if wc(1, 2) { ContinuityCondition::HDiv } else { ContinuityCondition::Discontinuous };
            ("another continuity condition", glq_choice())
        }
        _ => {
            let mut g = [wr(4, 8) as usize, wr(4, 8) as usize];
            g[w(2) as usize] = w(4) as usize;
            if wc(1, 3) {
                g = [w(4) as usize, w(4) as usize];
            }
            ("too few quadrature points", Some(g))
        }
    };
    note!("refusal: {}", why);
    match client(|| assemble_in(w(3), &d, glq).map(|_| ())) {
        Ok(Err(_)) => (),
        Ok(Ok(())) => fail("assembly/accepted-invalid", &format!("accepted a domain with {}", why)),
        Err(e) => fail("assembly/panic", &format!("{}: panicked instead of returning an error: {}", why, panic_msg(&e))),
    }
}

fn s01_real() {
    let (elems, order) = [(14, 2), (10, 4), (24, 1)][w(3) as usize];
    let d = small_domain(elems, order);
    if d.dofs.is_empty() {
        return;
    }
    let glq = if wc(1, 3) { None } else { Some([wr(4, 6) as usize, wr(4, 6) as usize]) };
    let style = w(6);
    note!("real integrals, elems={} dofs={} glq={:?} style={}", d.mesh.elems.len(), d.dofs.len(), glq, style);
    cnt("assemblies", 1);
    let gep = match client(|| in_pool(style, || galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(&d, glq))) {
        Ok(Ok(g)) => g,
        Ok(Err(e)) => fail("assembly/refused-valid", &format!("assembly was refused: {}", e)),
        Err(e) => fail("assembly/panic", &format!("assembly panicked: {}", panic_msg(&e))),
    };
    let want = reference::<HierPoly, CurlCurl, L2Inner>(&d, glq);
    compare("assembly", "A (real integrals)", &gep.a, &want[0], d.dofs.len(), 1e-9);
    compare("assembly", "B (real integrals)", &gep.b, &want[1], d.dofs.len(), 1e-9);
}

// ------------------------------------------------------------------------------------------------ S02

type Sampler = BasisFnSampler<HierCurlBasisFn<SB>>;

fn s02_main(_: u32, _: u32) {
    machine();
    let many = w(60) == 0;
    let vast = many && wc(1, 6);
    let mesh = if vast {
        vast_mesh()
    } else if many {
        many_domain().mesh
    } else {
        small_domain([6, 20, 40][w(3) as usize], 3).mesh
    };
    let n = mesh.elems.len();
    let o = [wr(1, 4) as usize, wr(1, 4) as usize];
    let q = if many { [4, 4] } else { glq_grid() };
    let d2 = wc(1, 3);
    let ((pu, _), (pv, _)) = (gauss_quadrature_points(q[0], d2), gauss_quadrature_points(q[1], d2));
    let (sampler, wts): (Sampler, _) = BasisFnSampler::with(o[0], o[1], Some(q[0]), Some(q[1]), d2);
    if wts[0].len() != pu.len() || wts[1].len() != pv.len() {
        fail("cache/weights", "the sampler returned the wrong number of quadrature weights");
    }
    // the requests of each thread
    let hot = wr(1, 6).min(n as u32);
    let threads = wr(2, 6) as usize;
    let mut lists: Vec<Vec<(usize, Option<usize>)>> = vec![];
    for t in 0..threads {
        let mut l = vec![];
        if vast && t == 0 && wc(1, 3) {
            // thousands of elements one after another, and the first ones again
            let from = w(n as u32 - 10_000) as usize;
            for e in (from..from + wr(4_500, 9_000) as usize).chain(from..from + 50) {
                l.push((e, None));
            }
        }
        if vast {
            // elements far apart whose ids agree in their lowest bits
            for _ in 0..wr(4, 40) {
                let bits = [1 << 16, 1 << 16, 1 << 12, 1 << 15][w(4) as usize];
                let e = w(bits) as usize % n;
                let over = wc(1, 2);
                let turns = wr(2, 4) as usize;
                for k in 0..turns {
                    let e = (e + ((k + t) % 4) * bits as usize) % n;
                    l.push((e, over.then_some(e)));
                    if let (Some(p), true) = (mesh.elems[e].parent_id(), wc(1, 3)) {
                        l.push((p, Some(e)));
                    }
                }
            }
        } else if many {
            // one walk over all elements, shared out or repeated by every thread, with returns to the hot ones
            let (step, from) = if wc(1, 2) { (threads, t) } else { (1 + w(2) as usize, w(3) as usize * 7) };
            let own = wc(2, 3);
            for e in (from..n).step_by(step) {
                l.push((e, (own && step > 1).then_some(e)));
                if wc(1, 9) {
                    l.push((w(hot) as usize, None));
                }
            }
        }
        let tail = if vast { 0 } else { wr(1, 14) };
        for _ in 0..tail {
            let e = if wc(2, 3) { w(hot) as usize } else { w(n as u32) as usize };
            let e = if wc(1, 2) { n - 1 - e } else { e };
            let mut chain = vec![(e, None), (e, Some(e))];
            let mut x = e;
            while let Some(t) = mesh.elems[x].parent_id() {
                chain.push((t, Some(e)));
                x = t;
            }
            l.push(chain[w(chain.len() as u32) as usize]);
        }
        lists.push(l);
    }
    stalls();
    let faulty = wc(2, 3);
    let h = hooks();
    (h.ints, h.withs, h.panics) = (0, 0, 0);
    if faulty {
        h.with_from = fnum(30) as u64;
        h.with_to = h.with_from + 1 + fnum(3) as u64;
    }
    let shared_clone = wc(1, 2);
    note!("elems={} threads={} requests={:?} faulty={} [{}, {})", n, threads, lists.iter().map(|l| l.len()).collect::<Vec<_>>(), faulty, h.with_from, h.with_to);
    type Got = Vec<Result<Arc<HierCurlBasisFn<SB>>, String>>;
    let mr = &mesh;
    let run = |lists: &Vec<Vec<(usize, Option<usize>)>>, base: &Sampler| -> Vec<Caught<Got>> {
        clients(
            lists
                .iter()
                .cloned()
                .map(|l| {
                    let mut s = base.clone();
                    Box::new(move || {
                        l.into_iter()
                            .map(|(e, over)| {
                                let mut s2 = if shared_clone { s.clone() } else { s.clone() };
                                let t = if shared_clone { &mut s2 } else { &mut s };
                                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                    t.sample_basis_fn(&mr.elems[e], over.map(|x| &mr.elems[x]))
                                }))
                                .map_err(|e| panic_text(&e))
                            })
                            .collect()
                    }) as Box<dyn FnOnce() -> Got + Send>
                })
                .collect(),
        )
    };
    let check = |lists: &Vec<Vec<(usize, Option<usize>)>>, got: Vec<Caught<Got>>| -> u64 {
        let (mut panics, mut k) = (0, 0u64);
        for (l, g) in lists.iter().zip(got) {
            let g = g.unwrap_or_else(|e| fail("cache/panic", &format!("a sampling thread died: {}", panic_msg(&e))));
            for ((e, over), r) in l.iter().zip(g) {
                cnt("basis_samples", 1);
                match r {
                    Err(m) if m == INJECTED => panics += 1,
                    Err(m) => fail("cache/panic", &format!("sampling element {} over {:?} panicked although its computation did not: {}", e, over, m)),
                    Ok(s) => {
                        let over_e = over.map(|x| &mesh.elems[x]);
                        if let Some(err) = sample_error(&s, &mesh, &mesh.elems[*e], over_e, [&pu, &pv]) {
                            fail("cache/wrong-sample", &format!("element {} over {:?}: {}", e, over, err));
                        }
                        k += 1;
                        if k % 7 != 0 || many {
                            continue;
                        }
                        let direct: HierCurlBasisFn<SB> = HierCurlBasisFn::defined_over(&mesh.elems[*e], over_e, [&pu, &pv], o, d2);
                        // shapes must have been set up for the sampler's own orders and derivatives
                        let a = format!("{:?}", s);
                        let b = format!("{:?}", direct);
                        if strip_floats(&a) != strip_floats(&b) {
                            fail("cache/wrong-sample", &format!("element {} over {:?} differs from the direct computation", e, over));
                        }
                    }
                }
            }
        }
        panics
    };
    let got = run(&lists, &sampler);
    let injected = panics();
    h.on = false;
    let seen = check(&lists, got);
    cnt("panics_propagated", seen);
    if seen != injected {
        fail("cache/swallowed-panic", &format!("{} computations panicked but {} calls did", injected, seen));
    }
    // the sampler stays usable afterwards, from every thread
    h.on = true;
    no_panics();
    let again: Vec<Vec<(usize, Option<usize>)>> = vec![lists.concat(), lists[0].clone()];
    let got = run(&again, &sampler);
    h.on = false;
    if check(&again, got) != 0 {
        harness_error("injected panic without a plan");
    }
}

/// Keep the non-numeric skeleton and integers of a debug rendering (values are compared separately).
fn strip_floats(s: &str) -> String {
    let mut out = String::new();
    let mut num = String::new();
    for c in s.chars().chain([' ']) {
        if c.is_ascii_digit() || c == '.' || c == '-' || (c == 'e' && !num.is_empty()) {
            num.push(c);
        } else {
            if !num.is_empty() {
                if num.contains('.') || num.contains('e') {
                    out.push('#');
                } else {
                    out.push_str(&num);
                }
                num.clear();
            }
            out.push(c);
        }
    }
    out
}

pub fn fnum(n: u32) -> u32 {
    f(n)
}

// ------------------------------------------------------------------------------------------------ S03

fn s03_main(_: u32, _: u32) {
    let pool = machine();
    let d = small_domain([8, 24, 50][w(3) as usize], 3);
    let n = d.dofs.len();
    if n == 0 {
        return;
    }
    let glq = Some(glq_grid());
    let style = w(6);
    stalls();
    let want = reference::<SB, SA, SBI>(&d, glq);
    let rounds = wr(1, 3);
    note!("elems={} dofs={} pool={} style={} rounds={}", d.mesh.elems.len(), n, pool, style, rounds);
    for _ in 0..rounds {
        no_panics();
        let h = hooks();
        h.on = true;
        match f(4) {
            0 => {
                h.with_from = f(2 * d.mesh.elems.len() as u32 + 2) as u64;
                h.with_to = h.with_from + 1 + f(4) as u64;
            }
            1 => h.hash_mod = 5 + f(200) as u64,
            2 => {
                h.int_from = f(40) as u64;
                h.int_to = h.int_from + 1 + f(60) as u64;
            }
            _ => {
                h.int_from = f(3000) as u64;
                h.int_to = h.int_from + 1;
            }
        }
        cnt("assemblies", 1);
        let r = client(|| assemble_in(style, &d, glq));
        let injected = panics();
        match r {
            Err(e) if injected > 0 => {
                cnt("panics_propagated", 1);
                let m = panic_text(&e);
                if m != INJECTED {
                    // a consequence of the injected panic is acceptable as the payload; note it
                    note!("payload: {}", m);
                }
            }
            Err(e) => fail("panic/spurious", &format!("assembly panicked although no callback did: {}", panic_msg(&e))),
            Ok(_) if injected > 0 => {
                fail("panic/swallowed", &format!("{} callback panic(s) but assembly returned normally", injected))
            }
            Ok(Err(e)) => fail("panic/refused", &format!("assembly was refused: {}", e)),
            Ok(Ok(g)) => {
                compare("panic", "A (undisturbed)", &g.a, &want[0], n, 0.0);
                compare("panic", "B (undisturbed)", &g.b, &want[1], n, 0.0);
            }
        }
        // afterwards everything still works
        no_panics();
        cnt("assemblies", 1);
        match client(|| assemble_in(style, &d, glq)) {
            Ok(Ok(g)) => {
                compare("panic-after", "A (next assembly)", &g.a, &want[0], n, 0.0);
                compare("panic-after", "B (next assembly)", &g.b, &want[1], n, 0.0);
            }
            Ok(Err(e)) => fail("panic-after/refused", &format!("the next assembly was refused: {}", e)),
            Err(e) => fail("panic-after/panic", &format!("the next assembly panicked: {}", panic_msg(&e))),
        }
    }
    hooks().on = false;
}

// ------------------------------------------------------------------------------------------------ S04

enum Out {
    Gep(usize, usize, Result<GEP, String>),
    Text(usize, u32, String),
}

fn read_domain(d: &Domain, kind: u32) -> String {
    let m = &d.mesh;
    match kind {
        0 => format!("{:?} {:?}", m, d.basis_specs),
        1 => {
            let mut s = String::new();
            for e in 0..m.elems.len() {
                s += &format!("{:?} {:?};", m.descendant_elems(e, true).unwrap(), m.ancestor_elems(e, false).unwrap());
                s += &format!("{:?}", d.descendant_basis_specs(e).unwrap().iter().map(|x| (x.0, x.1.len())).collect::<Vec<_>>());
                s += &format!("{:?}", m.elem_points(e).unwrap());
            }
            s
        }
        2 => {
            let mut fs = UniformFieldSpace::new(d, [3, 3]);
            let sol: Vec<f64> = (0..d.dofs.len()).map(|k| (k % 7) as f64 - 3.0).collect();
            let names = fs.xy_fields::<SB>("f", sol).unwrap();
            let mut v = String::new();
            let acc = std::cell::RefCell::new(&mut v);
            fs.expression_2arg(names, "s", |x, y| {
                acc.borrow_mut().push_str(&format!("{:.9} {:.9};", x, y));
                x + y
            })
            .unwrap();
            v
        }
        _ => {
            let (mut s, w): (Sampler, _) = BasisFnSampler::with(2, 2, Some(4), Some(5), false);
            let mut out = format!("{:?}", w);
            for e in &m.elems {
                let x = s.sample_basis_fn(e, None);
                out += &format!("{:?}", x.f_u([1, 1], [2, 3]));
                if let Some(t) = e.parent_id() {
                    out += &format!("{:?}", s.sample_basis_fn(&m.elems[t], Some(e)).f_v([1, 0], [0, 4]));
                }
            }
            out
        }
    }
}

fn s04_main(_: u32, _: u32) {
    let pool = machine();
    let nd = wr(1, 2) as usize;
    let doms: Vec<Domain> = if wc(1, 4) {
        twin_domains(2 + w(2) as usize, [6, 16, 24][w(3) as usize], 3)
    } else {
        (0..nd).map(|_| small_domain([6, 16, 30][w(3) as usize], 3)).collect()
    };
    let doms: Vec<Domain> = doms.into_iter().filter(|d| !d.dofs.is_empty()).collect();
    if doms.is_empty() {
        return;
    }
    let glqs: Vec<Option<[usize; 2]>> = vec![Some([4, 5]), Some(glq_grid())];
    stalls();
    hooks().on = false;
    let wants: Vec<Vec<_>> = doms.iter().map(|d| glqs.iter().map(|g| reference::<SB, SA, SBI>(d, *g)).collect()).collect();
    let texts: Vec<Vec<String>> = doms.iter().map(|d| (0..4).map(|k| read_domain(d, k)).collect()).collect();
    hooks().on = true;
    let nc = wr(2, 5) as usize;
    let mut plans: Vec<Vec<(usize, u32, u32, usize)>> = vec![];
    for _ in 0..nc {
        let reader = wc(1, 3);
        plans.push(
            (0..wr(1, 3))
                .map(|_| {
                    let dom = w(doms.len() as u32) as usize;
                    if reader {
                        (dom, 10, w(4), 0)
                    } else {
                        (dom, w(8), 0, w(2) as usize)
                    }
                })
                .collect(),
        );
    }
    note!("pool={} plans={:?}", pool, plans);
    let (dr, gr) = (&doms, &glqs);
    let work = plans
        .iter()
        .map(|pl| {
            Box::new(move || {
                let mut out = vec![];
                for &(k, style, read, g) in pl {
                    let d = &dr[k];
                    match style {
                        10 => out.push(Out::Text(k, read, read_domain(d, read))),
                        // two assemblies inside one pool, in parallel with each other
                        6 => {
                            let k2 = (k + 1) % dr.len();
                            let (a, b) = rayon::join(|| assemble_in(0, d, gr[g]), || assemble_in(0, &dr[k2], gr[1 - g]));
                            out.push(Out::Gep(k, g, a.map_err(|e| e.to_string())));
                            out.push(Out::Gep(k2, 1 - g, b.map_err(|e| e.to_string())));
                        }
                        7 => {
                            use rayon::prelude::*;
                            let r: Vec<_> = (0..3usize).into_par_iter().map(|_| assemble_in(0, d, gr[g])).collect();
                            for x in r {
                                out.push(Out::Gep(k, g, x.map_err(|e| e.to_string())));
                            }
                        }
                        s => out.push(Out::Gep(k, g, assemble_in(s, d, gr[g]).map_err(|e| e.to_string()))),
                    }
                }
                out
            }) as Box<dyn FnOnce() -> Vec<Out> + Send>
        })
        .collect();
    let got = clients(work);
    hooks().on = false;
    for g in got {
        let g = g.unwrap_or_else(|e| fail("concurrent/panic", &format!("a client panicked: {}", panic_msg(&e))));
        for o in g {
            match o {
                Out::Text(k, r, t) => {
                    if t != texts[k][r as usize] {
                        fail("concurrent/reader", &format!("reader {} saw different answers than on a quiescent system", r));
                    }
                }
                Out::Gep(k, g, Ok(gep)) => {
                    cnt("assemblies", 1);
                    let n = doms[k].dofs.len();
                    compare("concurrent", "A", &gep.a, &wants[k][g][0], n, 0.0);
                    compare("concurrent", "B", &gep.b, &wants[k][g][1], n, 0.0);
                }
                Out::Gep(_, _, Err(e)) => fail("concurrent/refused", &format!("assembly was refused: {}", e)),
            }
        }
    }
}

const REAL: &str = "galerkin_sample_gep_hcurl, GEP/SparseMatrix, BasisFnSampler, HierCurlBasisFn, Domain, Mesh, rayon 1.5.1, std::sync (all real code on simulated threads)";
const STUB: &str = "thread scheduler, futexes, clock, CPU count, randomness, disk; integrals and basis space are instrumented stand-ins returning exact integers except in the runs marked 'real integrals'";

pub fn s01() -> Prop {
    let items: Vec<Item> = vec![item("assembly", one_stage, s01_main, 5000, 120000)];
    Prop { id: "S01", items, real: REAL, stub: STUB, assumptions: vec!["straight-sided rectilinear input meshes"] }
}
pub fn s02() -> Prop {
    let items: Vec<Item> = vec![item("cache", one_stage, s02_main, 5000, 120000)];
    Prop { id: "S02", items, real: REAL, stub: STUB, assumptions: vec![] }
}
pub fn s03() -> Prop {
    let items: Vec<Item> = vec![item("panic", one_stage, s03_main, 4000, 100000)];
    Prop { id: "S03", items, real: REAL, stub: STUB, assumptions: vec!["panics unwind (the crate's default profile)"] }
}
pub fn s04() -> Prop {
    let items: Vec<Item> = vec![item("concurrent", one_stage, s04_main, 3000, 80000)];
    Prop { id: "S04", items, real: REAL, stub: STUB, assumptions: vec![] }
}
