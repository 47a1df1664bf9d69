//! Driver: explores seeds of a property's scenarios in parallel workers, minimises and stores violations,
//! replays them, and writes the evidence.
use simrt::run::{execute, shrink, RunResult, Scenario};
use simrt::shared::{self, Choices, Fault, FAULT_NAMES, NCNT, NCOV};
use simrt::sys::real_now_ns;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU32, Ordering};
use work::{props, Item, Prop};

const WORKERS: usize = 8;

fn home() -> String {
    std::env::var("DST_HOME").unwrap_or_else(|_| "/verif".into())
}

fn reexec_without_aslr() {
    unsafe {
        if std::env::var_os("DST_NOASLR").is_some() {
            return;
        }
        let cur = libc::personality(0xffffffff);
        if cur < 0 || cur & libc::ADDR_NO_RANDOMIZE != 0 {
            return;
        }
        if libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) < 0 {
            return;
        }
        std::env::set_var("DST_NOASLR", "1");
        let exe = std::ffi::CString::new("/proc/self/exe").unwrap();
        let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
        let mut ptrs: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
        ptrs.push(std::ptr::null());
        libc::execv(exe.as_ptr(), ptrs.as_ptr());
    }
}

fn clean_env() {
    for k in ["RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "RAYON_NUM_THREADS", "RAYON_RS_NUM_CPUS", "GEP_SOLVE_DIR", "RAYON_LOG"] {
        std::env::remove_var(k);
    }
}

fn scratch_base() -> String {
    for d in ["/dev/shm", "/tmp"] {
        let p = format!("{}/fem2d-dst-{}", d, std::process::id());
        if std::fs::create_dir_all(&p).is_ok() {
            return p;
        }
    }
    panic!("no scratch directory");
}

fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn run_seed(base: u64, prop: &str, scen: &str, i: u64) -> u64 {
    shared::splitmix(base ^ shared::splitmix(hash_str(prop) ^ shared::splitmix(hash_str(scen) ^ shared::splitmix(i))))
}

// ---------------------------------------------------------------- tapes as text

fn enc(t: &[u32]) -> String {
    // run-length: "v" or "vxn"
    let mut o = String::new();
    let mut i = 0;
    while i < t.len() {
        let mut j = i;
        while j < t.len() && t[j] == t[i] {
            j += 1;
        }
        if !o.is_empty() {
            o.push(' ');
        }
        o.push_str(&t[i].to_string());
        if j - i > 1 {
            o.push_str(&format!("x{}", j - i));
        }
        i = j;
    }
    o
}
fn dec(s: &str) -> Vec<u32> {
    let mut v = vec![];
    for w in s.split_whitespace() {
        let (a, n) = match w.split_once('x') {
            Some((a, n)) => (a, n.parse().unwrap()),
            None => (w, 1usize),
        };
        let a: u32 = a.parse().unwrap();
        v.extend(std::iter::repeat(a).take(n));
    }
    v
}

fn find_scenario(prop: &str, name: &str) -> Option<Scenario> {
    props().into_iter().find(|p| p.id == prop)?.items.into_iter().map(|i| i.scenario).find(|s| s.name == name)
}

fn write_replay(path: &str, prop: &str, sc: &str, seed: u64, tapes: Option<&[Vec<u32>; 3]>, r: &RunResult, tries: u64, orig: [usize; 3]) {
    let mut o = json::object! {
        property: prop, scenario: sc, seed: format!("{:#x}", seed),
        violation_class: r.class.clone(), violation: r.msg.clone(), case: r.note.clone(),
        trace_hash: format!("{:#018x}", r.trace_hash),
        shrink_runs: tries,
        choices: match tapes {
            Some(t) => json::object! { workload: enc(&t[0]), faults: enc(&t[1]), schedule: enc(&t[2]) },
            None => "all choices as drawn from the seed".into(),
        },
        minimised_from: { workload: orig[0], faults: orig[1], schedule: orig[2] },
        how_to_replay: format!("/verif/check.sh replay {}", path),
    };
    let mut tr = json::JsonValue::new_array();
    for l in r.log.lines().rev().take(400).collect::<Vec<_>>().into_iter().rev() {
        let _ = tr.push(l);
    }
    o["trace"] = tr;
    std::fs::write(path, json::stringify_pretty(o, 1)).expect("cannot write the replay file");
}

// ---------------------------------------------------------------- worker

#[derive(Default)]
struct Stats {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    switches: u64,
    points: u64,
    sim_ns: u64,
    overflow: u64,
    faults: Vec<u64>,
    counters: Vec<u64>,
    checks: u64,
    mismatches: u64,
    harness: Vec<String>,
    harness_n: u64,
    per_scen: BTreeMap<String, u64>,
    sched: BTreeSet<u64>,
    traces: BTreeSet<u64>,
    notes: Vec<String>,
    violations: Vec<(String, String, String)>, // class, msg, replay
    known: BTreeMap<String, (u64, String)>,
    cov: Vec<u8>,
}

struct Plan {
    prop: Prop,
    tier: String,
    seed: u64,
    wall_cap: f64,
    known: Vec<(String, String)>, // class, text
}

fn worker(w: usize, plan: &Plan, scratch: &str, stop: &AtomicU32, t0: u64) -> Stats {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        libc::CPU_SET(w % n, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
    shared::map();
    let mut st = Stats { faults: vec![0; Fault::Count as usize], counters: vec![0; NCNT], ..Default::default() };
    let root = format!("{}/w{}", scratch, w);
    // interleave the scenarios in proportion to their budgets
    let mut todo: Vec<(f64, usize, u64)> = vec![];
    for (k, it) in plan.prop.items.iter().enumerate() {
        let n = if plan.tier == "thorough" { it.thorough } else { it.quick };
        for i in 0..n {
            if (i as usize + k) % WORKERS == w {
                todo.push((i as f64 / n as f64, k, i));
            }
        }
    }
    todo.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for (done, (_, k, i)) in todo.into_iter().enumerate() {
        if stop.load(Ordering::Relaxed) != 0 || (real_now_ns() - t0) as f64 / 1e9 > plan.wall_cap {
            break;
        }
        let sc = plan.prop.items[k].scenario;
        let seed = run_seed(plan.seed, plan.prop.id, sc.name, i);
        let r = execute(&sc, &Choices::Seed(seed), &root, 0);
        st.runs += 1;
        *st.per_scen.entry(sc.name.to_string()).or_default() += 1;
        st.steps += r.steps;
        st.switches += r.switches;
        st.points += r.points;
        st.sim_ns += r.sim_ns;
        st.overflow += r.overflow as u64;
        let mut nf = 0;
        for (a, b) in st.faults.iter_mut().zip(r.faults.iter()) {
            *a += b;
            nf += b;
        }
        for (a, b) in st.counters.iter_mut().zip(r.counters.iter()) {
            *a += b;
        }
        st.sched.insert(r.sched_hash);
        if nf > 0 || r.switches > 1 {
            st.nontrivial += 1;
            st.traces.insert(r.trace_hash ^ hash_str(&r.note));
        }
        if st.notes.len() < 4 && done % 5 == 0 && !r.note.is_empty() {
            st.notes.push(format!("{} seed={:#x}: {}", sc.name, seed, r.note));
        }
        if r.verdict == 3 {
            st.harness_n += 1;
            if st.harness.len() < 5 {
                st.harness.push(format!("{} seed={:#x}: {}", sc.name, seed, r.msg));
            }
            continue;
        }
        if r.verdict == 2 {
            if let Some((c, _)) = plan.known.iter().find(|(c, _)| *c == r.class) {
                let e = st.known.entry(c.clone()).or_insert((0, r.msg.clone()));
                e.0 += 1;
                continue;
            }
            let first = stop.swap(1, Ordering::SeqCst) == 0;
            let tapes = shared::tapes();
            if r.overflow {
                // more choices than the tapes hold: the run is replayed from its seed and cannot be minimised
                let path = format!("{}/replays/{}-{:016x}.json", home(), plan.prop.id, seed);
                let _ = std::fs::create_dir_all(format!("{}/replays", home()));
                let again = execute(&sc, &Choices::Seed(seed), &root, 1);
                if again.verdict == 2 && again.class == r.class && again.trace_hash == r.trace_hash {
                    write_replay(&path, plan.prop.id, sc.name, seed, None, &again, 0, [tapes[0].len(), tapes[1].len(), tapes[2].len()]);
                    st.violations.push((again.class.clone(), again.msg.clone(), path));
                    break;
                }
                st.harness_n += 1;
                st.harness.push(format!("not reproducible: {} seed={:#x} {}: {} (repeated seed gave {} {})", sc.name, seed, r.class, r.msg, again.class, again.msg));
                continue;
            }
            // the same choices give the same violation?
            let again = execute(&sc, &Choices::Tapes(&tapes), &root, 0);
            let reproduced = again.verdict == 2 && again.class == r.class;
            let dir = format!("{}/replays", home());
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{}/{}-{:016x}.json", dir, plan.prop.id, seed);
            if !reproduced {
                st.harness_n += 1;
                st.harness.push(format!("not reproducible: {} seed={:#x} {}: {} (replay gave {} {})", sc.name, seed, r.class, r.msg, again.class, again.msg));
                continue;
            }
            let budget = if first { 40.0 } else { 3.0 };
            let (small, tries) = shrink(&sc, &tapes, &r.class, &root, budget);
            let fin = execute(&sc, &Choices::Tapes(&small), &root, 1);
            if fin.verdict == 2 && fin.class == r.class {
                write_replay(&path, plan.prop.id, sc.name, seed, Some(&small), &fin, tries, [tapes[0].len(), tapes[1].len(), tapes[2].len()]);
                st.violations.push((fin.class.clone(), fin.msg.clone(), path));
            } else {
                let fin = execute(&sc, &Choices::Tapes(&tapes), &root, 1);
                write_replay(&path, plan.prop.id, sc.name, seed, Some(&tapes), &fin, tries, [tapes[0].len(), tapes[1].len(), tapes[2].len()]);
                st.violations.push((r.class.clone(), r.msg.clone(), path));
            }
            break;
        }
        // determinism: the same seed, and the recorded choices, give the same execution
        if done % 40 == 7 && !r.overflow {
            let tapes = shared::tapes();
            st.checks += 1;
            let a = execute(&sc, &Choices::Tapes(&tapes), &root, 0);
            let b = execute(&sc, &Choices::Seed(seed), &root, 0);
            for (what, x) in [("replayed choices", a), ("repeated seed", b)] {
                if x.trace_hash != r.trace_hash || x.verdict != r.verdict || x.points != r.points {
                    st.mismatches += 1;
                    if st.harness.len() < 5 {
                        st.harness.push(format!("nondeterministic ({}): {} seed={:#x} points {} vs {} {}", what, sc.name, seed, r.points, x.points, x.msg));
                    }
                }
            }
        }
    }
    st.cov = shared::sh().cov.to_vec();
    let _ = std::fs::remove_dir_all(&root);
    st
}

fn stats_to_file(st: &Stats, path: &str) {
    let mut o = json::object! {
        runs: st.runs, nontrivial: st.nontrivial, steps: st.steps, switches: st.switches, points: st.points,
        sim_ns: st.sim_ns, overflow: st.overflow, checks: st.checks, mismatches: st.mismatches,
        harness_n: st.harness_n,
    };
    o["faults"] = st.faults.clone().into();
    o["counters"] = st.counters.clone().into();
    o["harness"] = st.harness.clone().into();
    o["notes"] = st.notes.clone().into();
    for (k, v) in &st.per_scen {
        o["per"][k.as_str()] = (*v).into();
    }
    for (k, v) in &st.known {
        o["known"][k.as_str()] = json::array![v.0, v.1.clone()];
    }
    let mut vs = json::JsonValue::new_array();
    for (a, b, c) in &st.violations {
        let _ = vs.push(json::array![a.clone(), b.clone(), c.clone()]);
    }
    o["violations"] = vs;
    std::fs::write(path, json::stringify(o)).unwrap();
    let bin = |s: &BTreeSet<u64>| s.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<u8>>();
    std::fs::write(format!("{}.sched", path), bin(&st.sched)).unwrap();
    std::fs::write(format!("{}.trace", path), bin(&st.traces)).unwrap();
    std::fs::write(format!("{}.cov", path), &st.cov).unwrap();
}

fn merge(into: &mut Stats, path: &str) -> bool {
    let Ok(t) = std::fs::read_to_string(path) else { return false };
    let o = json::parse(&t).unwrap();
    let u = |k: &str| o[k].as_u64().unwrap_or(0);
    into.runs += u("runs");
    into.nontrivial += u("nontrivial");
    into.steps += u("steps");
    into.switches += u("switches");
    into.points += u("points");
    into.sim_ns += u("sim_ns");
    into.overflow += u("overflow");
    into.checks += u("checks");
    into.mismatches += u("mismatches");
    into.harness_n += u("harness_n");
    for (i, v) in o["faults"].members().enumerate() {
        into.faults[i] += v.as_u64().unwrap_or(0);
    }
    for (i, v) in o["counters"].members().enumerate() {
        into.counters[i] += v.as_u64().unwrap_or(0);
    }
    for v in o["harness"].members() {
        into.harness.push(v.to_string());
    }
    for v in o["notes"].members() {
        into.notes.push(v.to_string());
    }
    for (k, v) in o["per"].entries() {
        *into.per_scen.entry(k.into()).or_default() += v.as_u64().unwrap_or(0);
    }
    for (k, v) in o["known"].entries() {
        let e = into.known.entry(k.into()).or_insert((0, v[1].to_string()));
        e.0 += v[0].as_u64().unwrap_or(0);
    }
    for v in o["violations"].members() {
        into.violations.push((v[0].to_string(), v[1].to_string(), v[2].to_string()));
    }
    let rd = |p: String| std::fs::read(p).unwrap().chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect::<Vec<_>>();
    into.sched.extend(rd(format!("{}.sched", path)));
    into.traces.extend(rd(format!("{}.trace", path)));
    for (a, b) in into.cov.iter_mut().zip(std::fs::read(format!("{}.cov", path)).unwrap()) {
        *a |= b;
    }
    true
}

fn known_findings(prop: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", home())).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let p = l.split_whitespace().find_map(|w| w.strip_prefix("property="))?;
            let c = l.split_whitespace().find_map(|w| w.strip_prefix("class="))?;
            (p == prop).then(|| (c.to_string(), l.split_once(" : ").map(|x| x.1).unwrap_or("").to_string()))
        })
        .collect()
}

fn check(id: &str, tier: &str, seed: u64, scale: f64) -> i32 {
    let Some(mut prop) = props().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    for it in prop.items.iter_mut() {
        it.quick = ((it.quick as f64 * scale) as u64).max(1);
        it.thorough = ((it.thorough as f64 * scale) as u64).max(1);
    }
    let t0 = real_now_ns();
    let scratch = scratch_base();
    let wall_cap = if tier == "thorough" { 3000.0 } else { 150.0 };
    let plan = Plan { prop, tier: tier.into(), seed, wall_cap, known: known_findings(id) };
    let stop: &AtomicU32 = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, 3, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const AtomicU32)
    };
    let mut pids = vec![];
    for w in 0..WORKERS {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let st = worker(w, &plan, &scratch, stop, t0);
            stats_to_file(&st, &format!("{}/r{}", scratch, w));
            std::process::exit(0);
        }
        pids.push(pid);
    }
    let mut bad = 0;
    for p in pids {
        let mut s = 0;
        unsafe { libc::waitpid(p, &mut s, 0) };
        if s != 0 {
            bad += 1;
        }
    }
    let mut st = Stats { faults: vec![0; Fault::Count as usize], counters: vec![0; NCNT], cov: vec![0; NCOV], ..Default::default() };
    for w in 0..WORKERS {
        if !merge(&mut st, &format!("{}/r{}", scratch, w)) {
            bad += 1;
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let wall = (real_now_ns() - t0) as f64 / 1e9;
    let edges = st.cov.iter().filter(|x| **x != 0).count();
    st.violations.sort_by_key(|v| std::fs::metadata(&v.2).map(|m| m.len()).unwrap_or(u64::MAX));
    evidence(&plan, &st, wall, edges);
    for (c, text) in &plan.known {
        let n = st.known.get(c).map(|x| x.0).unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} (class {}, met in {} runs)", id, text, c, n);
    }
    println!(
        "{} {}: {} runs in {:.1} s ({:.0} runs/h), {} distinct schedules, {} distinct faulted or interleaved executions, {} faults, {} edges covered, simulated {:.1} s",
        id, tier, st.runs, wall, st.runs as f64 / wall * 3600.0, st.sched.len(), st.traces.len(), st.faults.iter().sum::<u64>(), edges, st.sim_ns as f64 / 1e9
    );
    for h in st.harness.iter().take(8) {
        println!("HARNESS: {}", h);
    }
    if !st.violations.is_empty() {
        let (c, m, p) = &st.violations[0];
        println!("  {}: {}", c, m);
        println!("VIOLATION property={} replay={}", id, p);
        return 1;
    }
    if bad > 0 || st.harness_n > 0 || st.mismatches > 0 {
        println!("harness errors: {} (worker failures {}, nondeterminism {})", st.harness_n, bad, st.mismatches);
        return 2;
    }
    0
}

fn evidence(plan: &Plan, st: &Stats, wall: f64, edges: usize) {
    let p = &plan.prop;
    let mut faults = json::JsonValue::new_object();
    for (i, n) in st.faults.iter().enumerate() {
        if *n > 0 {
            faults[FAULT_NAMES[i]] = (*n).into();
        }
    }
    let mut per = json::JsonValue::new_object();
    for (k, v) in &st.per_scen {
        per[k.as_str()] = (*v).into();
    }
    let mut counters = json::JsonValue::new_object();
    for (i, name) in work::COUNTER_NAMES.iter().enumerate() {
        if st.counters[i] > 0 {
            counters[*name] = st.counters[i].into();
        }
    }
    let mut samples = json::JsonValue::new_array();
    for n in st.notes.iter().take(12) {
        let _ = samples.push(n.as_str());
    }
    let mut viol = json::JsonValue::new_array();
    for (c, m, r) in &st.violations {
        let _ = viol.push(json::object! { class: c.as_str(), message: m.as_str(), replay: r.as_str() });
    }
    let mut known = json::JsonValue::new_array();
    for (c, (n, m)) in &st.known {
        let _ = known.push(json::object! { class: c.as_str(), runs: *n, example: m.as_str() });
    }
    let o = json::object! {
        property: p.id, tier: plan.tier.as_str(), seed: plan.seed, level: "exploration",
        wall_s: (wall * 100.0).round() / 100.0,
        coverage: {
            evaluations: st.runs,
            distinct_nontrivial: st.traces.len(),
            rule: "one evaluation is one complete seeded simulated execution judged by the oracle; it counts as non-trivial when at least one fault was injected or more than one context switch happened, and as distinct by the hash over its context switches, injected faults and case description",
            samples: samples,
            runs_per_hour: (st.runs as f64 / wall * 3600.0).round(),
            seeds: st.runs,
            seeds_per_hour: (st.runs as f64 / wall * 3600.0).round(),
            simulated_seconds: st.sim_ns as f64 / 1e9,
            nontrivial_runs: st.nontrivial,
            distinct_interleavings: st.sched.len(),
            interleaving_measure: "hash of the sequence of context switches (from thread, to thread, reason, program point of the instrumented code)",
            context_switches: st.switches,
            scheduling_points: st.points,
            executed_edges: st.steps,
            distinct_edges_reached: edges,
            faults_injected: faults,
            runs_per_scenario: per,
            oracle_counters: counters,
            determinism_self_checks: st.checks,
            determinism_mismatches: st.mismatches,
            harness_errors: st.harness_n,
            tape_overflows: st.overflow,
            real_components: p.real,
            stubbed_components: p.stub,
            known_findings_met: known,
        },
        assumptions: p.assumptions.clone(),
        violations: st.violations.len(),
        violation_list: viol,
    };
    let dir = format!("{}/evidence", home());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, p.id), json::stringify_pretty(o, 1)).expect("cannot write the evidence");
}

fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("cannot read the replay file");
    let o = json::parse(&t).expect("bad replay file");
    let prop = o["property"].to_string();
    let sc = find_scenario(&prop, o["scenario"].as_str().unwrap()).expect("unknown scenario");
    let tapes = ["workload", "faults", "schedule"].map(|k| dec(o["choices"][k].as_str().unwrap_or("")));
    let choices = if o["choices"].is_object() {
        Choices::Tapes(&tapes)
    } else {
        Choices::Seed(parse_u64(o["seed"].as_str().unwrap()))
    };
    shared::map();
    let scratch = scratch_base();
    let r = execute(&sc, &choices, &scratch, 1);
    let r2 = execute(&sc, &choices, &scratch, 0);
    let _ = std::fs::remove_dir_all(&scratch);
    print!("{}", r.log);
    println!("case: {}", r.note);
    println!("trace hash {:#018x} (recorded {}), repeated {:#018x}", r.trace_hash, o["trace_hash"], r2.trace_hash);
    match r.verdict {
        2 => {
            println!("  {}: {}", r.class, r.msg);
            println!("VIOLATION property={} replay={}", prop, path);
            1
        }
        3 => {
            println!("harness error: {}", r.msg);
            2
        }
        _ => {
            println!("no violation");
            0
        }
    }
}

fn one(id: &str, scen: &str, seed: u64, verbose: u32) -> i32 {
    let sc = find_scenario(id, scen).expect("unknown scenario");
    shared::map();
    let scratch = scratch_base();
    unsafe { simrt::run::KEEP_STDERR = verbose > 0 };
    let r = execute(&sc, &Choices::Seed(seed), &scratch, verbose);
    let _ = std::fs::remove_dir_all(&scratch);
    print!("{}", r.log);
    println!("note: {}", r.note);
    println!(
        "verdict {} {} {} | points {} switches {} steps {} sim {} us tapes {:?} hash {:#x}",
        r.verdict, r.class, r.msg, r.points, r.switches, r.steps, r.sim_ns / 1000,
        shared::tapes().iter().map(|t| t.len()).collect::<Vec<_>>(), r.trace_hash
    );
    0
}

fn parse_u64(s: &str) -> u64 {
    if let Some(h) = s.strip_prefix("0x") {
        u64::from_str_radix(h, 16).unwrap()
    } else {
        s.parse().unwrap()
    }
}

fn main() {
    reexec_without_aslr();
    clean_env();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let mut seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut scale = 1.0;
            let mut i = 3;
            while i < a.len() {
                match a[i].as_str() {
                    "--tier" => tier = a[i + 1].clone(),
                    "--seed" => seed = parse_u64(&a[i + 1]),
                    "--scale" => scale = a[i + 1].parse().unwrap(),
                    _ => {}
                }
                i += 2;
            }
            check(&a[2], &tier, seed, scale)
        }
        Some("replay") => replay(&a[2]),
        Some("one") => one(&a[2], &a[3], parse_u64(&a[4]), a.get(5).map(|v| v.len() as u32).unwrap_or(0)),
        Some("list") => {
            for p in props() {
                println!("{} {}", p.id, p.items.iter().map(|Item { scenario, quick, thorough }| format!("{}({}/{})", scenario.name, quick, thorough)).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: dst check <property> [--tier quick|thorough] [--seed N] | replay <file> | one <property> <scenario> <seed> [v|vv] | list");
            2
        }
    };
    std::process::exit(code);
}
