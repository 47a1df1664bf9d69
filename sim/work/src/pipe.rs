//! Whole pipelines, repeated in other environments and after crashes.
use crate::asm::{glq_choice, in_pool};
use crate::common::*;
use crate::fields::{self, undated, FOp, Space};
use crate::gen::Desc;
use crate::io::grow;
use crate::mesh::{start, Hist, Op};
use crate::solve::{self, clock, fault_plan, listing, outcome, run_solve, solver, Got, WRITES};
use crate::stub::{hooks, SA, SB, SB2, SBI};
use crate::{gen, item, note, Item, Prop};
use fem_2d::fem_domain::basis::{BasisFnSampler, HierCurlBasisFn};
use fem_2d::fem_domain::domain::fields::UniformFieldSpace;
use fem_2d::prelude::*;
use simrt::fs::{self, NO_FAULTS};
use simrt::sched::{cancel_crash, plan_crash};
use simrt::shared::*;

/// Everything a pipeline is given.
pub struct Script {
    desc: Desc,
    style: u32,
    ops: Vec<Op>,
    /// the supplied basis and integrals instead of the instrumented ones
    real: bool,
    glq: Option<[usize; 2]>,
    dens: [usize; 2],
    fops: Vec<FOp>,
    te: f64,
}

/// The script comes first on the workload tape and is the same in every stage of a run.
fn script(stage: u32, big: &[usize], reals: bool) -> Script {
    rewind(TAPE_W);
    let desc = start(3);
    let style = w(3);
    let mut h = Hist::new(&desc, "/simfs/prep.json");
    grow(&mut h, w(6), big[w(big.len() as u32) as usize]);
    let top = wr(1, 4);
    for c in 0..h.model.len() {
        // orders small enough for quick assembly
        let o = h.model.cells[c].ord;
        if o[0] as u32 > top || o[1] as u32 > top {
            let op = Op::OElems(vec![c], 1 + c as u8 % top as u8, 1 + (c / 2) as u8 % top as u8);
            h.step(op);
        }
    }
    let d = Domain::from_mesh(h.mesh.clone(), ContinuityCondition::HCurl);
    let dens = [wr(2, 5) as usize, wr(2, 5) as usize];
    let real = reals && wc(1, 2);
    let glq = if real && wc(1, 2) { Some([wr(8, 10) as usize, wr(8, 10) as usize]) } else { glq_choice() };
    let mut space = Space::new();
    let mut fops = vec![];
    for _ in 0..wr(1, 4) {
        let op = fields::next_fop(&d, &space, dens, false);
        fields::apply(&d, &mut space, dens, &op);
        fops.push(op);
    }
    let te = wr(1, 64) as f64;
    if stage == 0 {
        note!("elems={} dofs={} real={} glq={:?} grid={:?} field ops={}", d.mesh.elems.len(), d.dofs.len(), real, glq, dens, fops.len());
        cnt("dofs", d.dofs.len() as u64);
    }
    go_on(TAPE_W);
    Script { desc, style, ops: h.accepted, real, glq, dens, fops, te }
}

type Entries = Vec<([usize; 2], f64)>;

#[derive(Default)]
pub struct Outcome {
    /// elements, degrees of freedom and basis functions with their numbers
    numbering: String,
    mats: Option<[Entries; 2]>,
    fields: Vec<String>,
    pair: Option<EigenPair>,
}

fn assemble(s: &Script, d: &Domain, style: u32) -> Result<GEP, GalerkinSamplingError> {
    if s.real {
        in_pool(style, || galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(d, s.glq))
    } else {
        in_pool(style, || galerkin_sample_gep_hcurl::<SB, SA, SBI>(d, s.glq))
    }
}

/// Load, refine, export, number, assemble, (solve,) evaluate, print: in `dir`.
fn pipeline(s: &Script, dir: &str, style: u32, solve: bool) -> Result<Outcome, String> {
    let err = |what: &str, e: String| format!("{}: {}", what, e);
    let mut out = Outcome::default();
    let mut mesh = Mesh::from_file(format!("{}/mesh.json", dir)).map_err(|e| err("load", e.to_string()))?;
    for op in &s.ops {
        Hist::apply(&mut mesh, op).map_err(|e| err("refine", e))?;
    }
    mesh.export_to_json(format!("{}/out/mesh.json", dir)).map_err(|e| err("export", e.to_string()))?;
    let d = Domain::from_mesh(mesh, ContinuityCondition::HCurl);
    let dofs: Vec<_> = d.dofs.iter().map(|f| (f.id, f.get_basis_specs().iter().map(|a| [a.elem_id, a.elem_idx]).collect::<Vec<_>>())).collect();
    out.numbering = format!("{:?}\n{:?}\n{:?}", dofs, d.basis_specs, d.mesh);
    let n = d.dofs.len();
    let mut sol: Vec<f64> = (0..n).map(|i| (i % 17) as f64 / 4.0 - 1.5).collect();
    if n > 0 {
        let gep = assemble(s, &d, style).map_err(|e| err("assemble", e.to_string()))?;
        out.mats = Some([gep.a.iter_upper_tri().collect(), gep.b.iter_upper_tri().collect()]);
        if solve {
            match run_solve(gep, s.te) {
                Got::Ok(p) => {
                    sol = p.vector.clone();
                    // the stub's solutions span the whole range of doubles
                    sol.iter_mut().for_each(|x| *x = x.clamp(-1e3, 1e3));
                    out.pair = Some(p);
                }
                Got::Err(e, _) => return Err(err("solve", e)),
                Got::Panic(e) => panic!("{}", e),
            }
        } else {
            gep.print_to_petsc_binary_files(dir, "sys").map_err(|e| err("write matrices", e.to_string()))?;
        }
    }
    let mut u = UniformFieldSpace::new(&d, s.dens);
    out.fields.extend(u.xy_fields::<HierPoly>("mode", sol).map_err(|e| err("fields", e.to_string()))?);
    for op in &s.fops {
        if s.real {
            fields::call::<HierPoly, HierPoly>(&mut u, op).map_err(|e| err("fields", e))?;
        } else {
            fields::call::<SB, SB2>(&mut u, op).map_err(|e| err("fields", e))?;
        }
    }
    u.expression_2arg(["mode_x", "mode_y"], "mode_mag", |a, b| (a * a + b * b).sqrt()).map_err(|e| err("fields", e.to_string()))?;
    u.print_all_to_vtk(format!("{}/out/fields.vtk", dir)).map_err(|e| err("print", e.to_string()))?;
    cnt("pipelines", 1);
    Ok(out)
}

fn prepare(s: &Script, dir: &str) {
    make_dir(&format!("{}/out", dir));
    make_dir(&format!("{}/tmp", dir));
    put_file(&format!("{}/mesh.json", dir), s.desc.json(s.style).as_bytes());
}

/// Run the pipeline on a thread of its own, where it must succeed.
fn must(cls: &str, r: Caught<Result<Outcome, String>>) -> Outcome {
    match r {
        Ok(Ok(o)) => o,
        Ok(Err(e)) => fail(cls, &format!("the pipeline failed ({})", e)),
        Err(e) => fail(cls, &format!("the pipeline panicked: {}", panic_msg(&e))),
    }
}

fn pack(e: &Entries) -> Vec<u8> {
    e.iter().flat_map(|([i, j], v)| [*i as u64, *j as u64, v.to_bits()]).flat_map(|x| x.to_le_bytes()).collect()
}
fn unpack(b: &[u8]) -> Entries {
    let g = |k: usize| u64::from_le_bytes(b[8 * k..8 * k + 8].try_into().unwrap());
    (0..b.len() / 24).map(|k| ([g(3 * k) as usize, g(3 * k + 1) as usize], f64::from_bits(g(3 * k + 2)))).collect()
}

/// Where two texts differ first.
fn differ(what: &str, a: &[u8], b: &[u8]) -> Option<String> {
    if a == b {
        return None;
    }
    let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |x: &[u8]| String::from_utf8_lossy(&x[k.saturating_sub(40).min(x.len())..(k + 40).min(x.len())]).into_owned();
    Some(format!("{} ({} and {} bytes) differs from byte {}: {:?} became {:?}", what, a.len(), b.len(), k, cut(a), cut(b)))
}

fn same_entries(what: &str, a: &Entries, b: &Entries, exact: bool) -> Option<String> {
    if exact {
        if let Some((x, y)) = a.iter().zip(b).find(|(x, y)| x.0 != y.0 || x.1 != y.1) {
            return Some(format!("{}: entry {:?} became {:?}", what, x, y));
        }
        return (a.len() != b.len()).then(|| format!("{}: {} entries became {}", what, a.len(), b.len()));
    }
    let top = a.iter().chain(b).fold(0.0f64, |m, e| m.max(e.1.abs()));
    let map = |e: &Entries| e.iter().copied().collect::<std::collections::BTreeMap<_, _>>();
    let (ma, mb) = (map(a), map(b));
    for k in ma.keys().chain(mb.keys()) {
        let (x, y) = (ma.get(k).copied().unwrap_or(0.0), mb.get(k).copied().unwrap_or(0.0));
        if !((x - y).abs() <= 1e-11 * top) {
            return Some(format!("{}: entry {:?} = {:?} became {:?} (largest magnitude {:?})", what, k, x, y, top));
        }
    }
    None
}

// ------------------------------------------------------------------------------------------------ S16

fn three(s: u32) -> Option<u32> {
    (s < 3).then_some(1)
}

/// Some unrelated use of the library.
fn earlier_work(calls: u32, assemblies: u32, sampling: &[([usize; 2], Option<[usize; 2]>, bool)], twin: Option<&Script>) {
    let Ok(mut m) = Mesh::from_file("/simfs/other.json") else { return };
    // other bases over the same or other points, with or without second derivatives
    for (o, q, d2) in sampling {
        let q = q.map_or([None, None], |q| q.map(Some));
        let (mut s, _): (BasisFnSampler<HierCurlBasisFn<HierPoly>>, _) = BasisFnSampler::with(o[0], o[1], q[0], q[1], *d2);
        let (mut t, _): (BasisFnSampler<HierCurlBasisFn<SB>>, _) = BasisFnSampler::with(o[0], o[1], q[0], q[1], !*d2);
        for e in m.elems.iter().take(2) {
            s.sample_basis_fn(e, None);
            t.sample_basis_fn(e, Some(e));
        }
    }
    if let Some(s) = twin {
        // the same steps on a mesh that is easily mistaken for the one of the pipeline
        for op in &s.ops {
            let _ = Hist::apply(&mut m, op);
        }
        let dom = Domain::from_mesh(m, ContinuityCondition::HCurl);
        if dom.dofs.is_empty() {
            return;
        }
        for k in 0..=assemblies {
            let _ = assemble(s, &dom, k);
        }
        let mut u = UniformFieldSpace::new(&dom, s.dens);
        let sol = (0..dom.dofs.len()).map(|i| (i % 5) as f64 - 1.5).collect();
        let _ = u.xy_fields::<HierPoly>("mode", sol);
        let _ = u.expression_2arg(["mode_x", "mode_y"], "mode_mag", |a, b| a + b);
        for op in &s.fops {
            if let FOp::Xy(k, sol, ..) = op {
                let sol: Vec<f64> = sol.iter().map(|x| x + 1.0).collect();
                let _ = if s.real { u.xy_fields::<HierPoly>(fields::VNAMES[*k], sol) } else { u.xy_fields::<SB>(fields::VNAMES[*k], sol) };
            }
        }
        let _ = u.print_all_to_vtk("/simfs/other.vtk");
        return;
    }
    for k in 0..calls {
        match k % 3 {
            0 => m.global_h_refinement(HRef::T),
            1 => m.h_refine_with_filter(|e| (e.id % 3 == 1).then_some(HRef::U(None))),
            _ => m.set_global_expansion_orders(Orders::new(2, 3)),
        }
        if m.elems.len() > 30 {
            break;
        }
    }
    let dom = Domain::from_mesh(m, ContinuityCondition::HCurl);
    if dom.dofs.is_empty() {
        return;
    }
    for _ in 0..assemblies {
        let _ = galerkin_sample_gep_hcurl::<SB, SA, SBI>(&dom, Some([4, 5]));
    }
    let mut u = UniformFieldSpace::new(&dom, [2, 3]);
    let _ = u.xy_fields::<SB>("other", vec![1.0; dom.dofs.len()]);
    let _ = u.print_all_to_vtk("/simfs/other.vtk");
}

fn s16_main(stage: u32, _: u32) {
    hooks().on = false;
    let s = script(stage, &[12, 25, 60], true);
    machine();
    clock();
    let dir = "/simfs/run";
    prepare(&s, dir);
    let style = w(6);
    let twin = wc(1, 3);
    let other = if twin { gen::twin_of(&s.desc) } else { gen::grid(wr(1, 2) as usize, wr(1, 2) as usize) };
    put_file("/simfs/other.json", other.json(0).as_bytes());
    let (calls, assemblies) = (w(3), w(3));
    // what else the process does with the library: nothing in the first stage
    let sampling: Vec<_> = (0..w(4))
        .map(|_| {
            let q = match w(3) {
                0 => None,
                1 => s.glq,
                _ => Some([wr(2, 10) as usize, wr(2, 10) as usize]),
            };
            ([wr(1, 5) as usize, wr(1, 5) as usize], q, wc(1, 2))
        })
        .collect();
    let how = if stage == 0 { 0 } else { w(4) };
    let sampling = &sampling;
    let twin = twin.then_some(&s);
    if how == 1 || how == 3 {
        let _ = client(move || earlier_work(calls, assemblies, sampling, twin));
    }
    let o = {
        let s = &s;
        let mut work: Vec<Box<dyn FnOnce() -> Option<Result<Outcome, String>> + Send>> = vec![Box::new(move || Some(pipeline(s, dir, style, false)))];
        if how >= 2 {
            work.push(Box::new(move || {
                earlier_work(calls, assemblies, sampling, twin);
                None
            }));
        }
        let mut rs = clients(work);
        must("results/failed", rs.swap_remove(0).map(|x| x.unwrap()))
    };
    hooks().on = false;
    let save = |k: &str| format!("/simfs/first.{}", k);
    let files: Vec<(&str, Vec<u8>)> = ["out/mesh.json", "out/fields.vtk", "tmp/sys_a.dat", "tmp/sys_b.dat"]
        .iter()
        .map(|f| {
            let b = get_file(&format!("{}/{}", dir, f)).unwrap_or_default();
            (*f, if f.ends_with("vtk") { undated(&b) } else { b })
        })
        .collect();
    let mats = o.mats.unwrap_or_default();
    if stage == 0 {
        put_file(&save("numbering"), o.numbering.as_bytes());
        put_file(&save("a"), &pack(&mats[0]));
        put_file(&save("b"), &pack(&mats[1]));
        for (f, b) in &files {
            put_file(&save(&f.replace('/', ".")), b);
        }
        return;
    }
    let first = |k: &str| get_file(&save(k)).unwrap_or_else(|| harness_error("no first run"));
    if let Some(e) = differ("the numbering of elements, basis functions and degrees of freedom", &first("numbering"), o.numbering.as_bytes()) {
        fail("results/numbering", &e);
    }
    for (k, m) in ["a", "b"].iter().zip(&mats) {
        if let Some(e) = same_entries(&format!("matrix {}", k), &unpack(&first(k)), m, !s.real) {
            fail("results/matrices", &e);
        }
        cnt("matrix_entries_compared", m.len() as u64);
    }
    for (f, b) in &files {
        if f.ends_with(".dat") && s.real {
            continue; // equal up to rounding only, like the matrices
        }
        if let Some(e) = differ(f, &first(&f.replace('/', ".")), b) {
            fail("results/files", &e);
        }
        cnt("files_checked", 1);
    }
}

// ------------------------------------------------------------------------------------------------ S18

fn four(s: u32) -> Option<u32> {
    (s < 4).then_some(1)
}

fn s18_main(stage: u32, _: u32) {
    hooks().on = false;
    let s = script(stage, &[8, 16, 40], false);
    machine();
    let dir = if stage == 0 { "/simfs/ref" } else { "/simfs/run" };
    let mesh_path = format!("{}/mesh.json", dir);
    let input = s.desc.json(s.style).into_bytes();
    if stage <= 1 {
        prepare(&s, dir);
    }
    solve::install(dir);
    if wc(1, 3) {
        clock();
    }
    if stage > 0 && wc(1, 2) {
        sh().procs[0].pid = 4000 + 1 + w(60000) as i32;
    }
    let untouched = |after: &str| {
        if get_file(&mesh_path).as_deref() != Some(&input[..]) {
            fail("restart/input-modified", &format!("the input mesh file was modified by {}", after));
        }
    };
    untouched("an interrupted run");
    let style = w(6);
    let sref = &s;
    let before = sh().points;
    if stage == 0 {
        solver().extra = wc(1, 4);
        let o = must("restart/undisturbed", client(move || pipeline(sref, dir, style, true)));
        let p = o.pair;
        let mut blob = (sh().points - before).to_le_bytes().to_vec();
        blob.push(p.is_some() as u8);
        if let Some(p) = p {
            blob.extend(p.value.to_bits().to_le_bytes());
            p.vector.iter().for_each(|x| blob.extend(x.to_bits().to_le_bytes()));
        }
        blob_set(&blob);
        untouched("the run");
        return;
    }
    let first = blob_get();
    let points = u64::from_le_bytes(first[..8].try_into().unwrap());
    if stage < 3 {
        if stage == 2 && wc(1, 2) {
            return;
        }
        // a run that ends badly: killed somewhere, perhaps after disk or solver trouble
        let key_free = wc(1, 3);
        if key_free {
            solver().any = Some(outcome());
        }
        solver().extra = wc(1, 4);
        if fc(1, 4) {
            let mut kinds = vec![Fault::OpenFail];
            kinds.extend(WRITES);
            fs::set_faults(fault_plan(&kinds, true));
        }
        match f(4) {
            0 => plan_crash(None, Some(1 << f(18))),
            1 => plan_crash(Some(1 + points.saturating_sub(f(60.min(points as u32 + 1)) as u64)), None),
            _ => plan_crash(Some(1 + f(points as u32 + 1) as u64), None),
        }
        cnt("crashes", 1);
        let _ = client(move || pipeline(sref, dir, style, true));
        cancel_crash();
        fs::set_faults(NO_FAULTS);
        untouched("a run");
        return;
    }
    // the machine itself may have gone down: what was written last is torn
    for sub in ["out", "tmp"] {
        for (name, data) in listing(&format!("{}/{}", dir, sub)) {
            // (a link is not written to)
            if data.is_empty() || name.ends_with(b"_scratch") || !fc(1, 5) {
                continue;
            }
            fault(Fault::SolverTorn);
            let k = f(data.len() as u32) as usize;
            let mut x = data[..k].to_vec();
            if fc(1, 3) {
                x.resize(data.len(), 0);
            }
            put_file(&format!("{}/{}/{}", dir, sub, String::from_utf8_lossy(&name)), &x);
        }
    }
    let left = listing(&format!("{}/tmp", dir));
    cnt("restarts", 1);
    solver().extra = wc(1, 4);
    let o = must("restart/failed", client(move || pipeline(sref, dir, style, true)));
    untouched("the restarted run");
    match (first[8] != 0, &o.pair) {
        (false, None) => (),
        (true, Some(p)) => {
            let bits: Vec<u64> = first[9..].chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
            if p.value.to_bits() != bits[0] || p.vector.len() + 1 != bits.len() || p.vector.iter().zip(&bits[1..]).any(|(x, b)| x.to_bits() != *b) {
                fail("restart/solution", "the restarted run returned another solution than an uninterrupted one");
            }
        }
        _ => fail("restart/solution", "the restarted run and the uninterrupted one do not both have a solution"),
    }
    for name in ["mesh.json", "fields.vtk"] {
        let get = |d: &str| {
            let b = get_file(&format!("{}/out/{}", d, name)).unwrap_or_default();
            if name == "fields.vtk" {
                undated(&b)
            } else {
                b
            }
        };
        if let Some(e) = differ(name, &get("/simfs/ref"), &get(dir)) {
            fail("restart/files", &e);
        }
        cnt("files_checked", 1);
    }
    for (name, _) in listing(&format!("{}/tmp", dir)) {
        if !left.contains_key(&name) {
            fail("restart/leftovers", &format!("the restarted run left {:?} behind", String::from_utf8_lossy(&name)));
        }
    }
}

pub fn s16() -> Prop {
    let items: Vec<Item> = vec![item("environments", three, s16_main, 1800, 150000)];
    Prop {
        id: "S16",
        items,
        real: "Mesh, Domain, sampler, assembly, rayon, UniformFieldSpace, exports, HierPoly, CurlCurl and L2Inner in half of the runs (real code)",
        stub: "CPU count, hash seeds, clock, thread schedule; basis and integrals with exact values in the other half of the runs",
        assumptions: vec!["rounding differences of the summation order are allowed up to 1e-11 of the largest entry"],
    }
}
pub fn s18() -> Prop {
    let items: Vec<Item> = vec![item("restart", four, s18_main, 4500, 300000)];
    Prop {
        id: "S18",
        items,
        real: "the whole pipeline: Mesh, Domain, assembly, rayon, external solver call, UniformFieldSpace, exports (real code)",
        stub: "the solver process; the disk; process death and pid reuse; basis and integrals with exact values",
        assumptions: vec!["the solver dies with the process that started it", "the stub solver rewrites its output files like the real one"],
    }
}
