//! Mesh files: exporting and loading under disk faults and damage.
use crate::common::*;
use crate::gen::{self, Desc};
use crate::mesh::{next_op, start, Hist};
use crate::model::*;
use crate::solve::{fault_plan, WRITES};
use crate::{item, note, Item, Prop};
use fem_2d::prelude::*;
use json::JsonValue;
use simrt::fs::{self, NO_FAULTS};
use simrt::shared::*;

// ------------------------------------------------------------------------------------------------ the export format

type Doc = Result<(), String>;

fn num(v: &JsonValue, want: f64) -> bool {
    // the document must hold what a double holds, up to the rounding of its decimal form
    v.as_f64().map_or(false, |x| (x - want).abs() <= 1e-14 * want.abs())
}
fn coord(v: &JsonValue, want: f64, extent: f64) -> bool {
    v.as_f64().map_or(false, |x| (x - want).abs() <= 1e-13 * extent)
}
fn int(v: &JsonValue, want: usize) -> bool {
    v.is_number() && v.as_f64() == Some(want as f64)
}
fn ints(v: &JsonValue, want: &[usize]) -> bool {
    v.is_array() && v.len() == want.len() && v.members().zip(want).all(|(a, b)| int(a, *b))
}
fn keys(v: &JsonValue, want: &[&str]) -> bool {
    v.is_object() && v.entries().count() == want.len() && want.iter().all(|k| v.has_key(k))
}

/// Compare an exported document with what the model says about the mesh.
pub fn check_document(text: &[u8], m: &Model, g: &Geo, ids: &Ids) -> Doc {
    let text = std::str::from_utf8(text).map_err(|e| format!("not UTF-8: {}", e))?;
    let doc = json::parse(text).map_err(|e| format!("not a complete JSON document of {} bytes: {}", text.len(), e))?;
    if !keys(&doc, &["Elements", "Elems", "Nodes", "Edges"]) {
        return Err("the document does not consist of Elements, Elems, Nodes and Edges".into());
    }
    macro_rules! want {
        ($c:expr, $o:expr, $k:expr, $what:expr, $id:expr) => {
            if !$c {
                return Err(format!("{} {}: {} is {}", $what, $id, $k, $o[$k].dump().chars().take(120).collect::<String>()));
            }
        };
    }
    let count = |k: &str, n: usize| -> Doc {
        if !doc[k].is_array() || doc[k].len() != n {
            return Err(format!("{} lists {} entries instead of {}", k, doc[k].len(), n));
        }
        Ok(())
    };
    count("Elements", m.desc.cells.len())?;
    count("Elems", m.len())?;
    count("Nodes", m.desc.nodes.len() + ids.node.values().filter(|n| **n >= m.desc.nodes.len()).count())?;
    count("Edges", ids.edge.len())?;
    for (k, (_, mt)) in m.desc.cells.iter().enumerate() {
        let o = &doc["Elements"][k];
        want!(int(&o["id"], k), o, "id", "element", k);
        for (key, v) in ["eps_rel", "eps_rel_im", "mu_rel", "mu_rel_im"].iter().zip(mt) {
            want!(num(&o[*key], *v), o, *key, "element", k);
        }
    }
    for (k, c) in m.cells.iter().enumerate() {
        let o = &doc["Elems"][k];
        want!(int(&o["id"], k), o, "id", "cell", k);
        want!(int(&o["element_id"], c.base), o, "element_id", "cell", k);
        let parent = match c.stack.last() {
            None => o["parent"].is_null() && o.has_key("parent"),
            Some((p, _)) => int(&o["parent"], *p),
        };
        want!(parent, o, "parent", "cell", k);
        want!(o["active"].as_bool() == Some(c.kids.is_empty()), o, "active", "cell", k);
        want!(ints(&o["nodes"], &c.corners().map(|p| ids.node[&p])), o, "nodes", "cell", k);
        want!(ints(&o["edges"], &c.sides().map(|s| ids.edge[&s])), o, "edges", "cell", k);
        let uv = |v: &JsonValue, x: [u8; 2]| int(&v["u"], x[0] as usize) && int(&v["v"], x[1] as usize);
        want!(uv(&o["expansion"], c.ord), o, "expansion", "cell", k);
        want!(uv(&o["h_levels"], c.lev), o, "h_levels", "cell", k);
        want!(ints(&o["children"], &c.kids), o, "children", "cell", k);
    }
    let extent = m.desc.nodes.iter().flatten().fold(0.0, |a: f64, x| a.max(x.abs()));
    for (p, (boundary, lists)) in &g.points {
        let k = ids.node[p];
        let o = &doc["Nodes"][k];
        let [x, y] = unpt(*p);
        want!(int(&o["id"], k), o, "id", "node", k);
        want!(o["boundary"].as_bool() == Some(*boundary), o, "boundary", "node", k);
        want!(coord(&o["point"]["x"], x, extent) && coord(&o["point"]["y"], y, extent), o, "point", "node", k);
        let ok = o["elems"].len() == 4
            && o["elems"].members().zip(lists).all(|(a, l)| {
                let mut l = l.clone();
                l.sort_by_key(|c| m.cells[*c].lev);
                ints(a, &l)
            });
        want!(ok, o, "elems", "node", k);
    }
    for (s, e) in &g.sides {
        let k = ids.edge[s];
        let o = &doc["Edges"][k];
        want!(int(&o["id"], k), o, "id", "edge", k);
        want!(o["boundary"].as_bool() == Some(e.boundary), o, "boundary", "edge", k);
        want!(o["direction"].as_str() == Some(if e.horizontal { "U-Dir" } else { "V-Dir" }), o, "direction", "edge", k);
        want!(ints(&o["nodes"], &[ids.node[&s.0], ids.node[&s.1]]), o, "nodes", "edge", k);
        let parent = match e.parent {
            None => o["parent"].is_null() && o.has_key("parent"),
            Some(p) => int(&o["parent"], ids.edge[&p]),
        };
        want!(parent, o, "parent", "edge", k);
        let kids = e.kids.map_or(vec![], |k| k.map(|x| ids.edge[&x]).to_vec());
        want!(ints(&o["children"], &kids), o, "children", "edge", k);
        let ok = o["elems"].len() == 2
            && o["elems"].members().zip(&e.cells).all(|(a, l)| {
                a.len() == l.len()
                    && a.members().zip(l).all(|(x, c)| {
                        let [u, v] = m.cells[*c].lev.map(|x| x as usize);
                        int(&x["cell_id"], *c) && ints(&x["level_key"], &if e.horizontal { [v, u] } else { [u, v] })
                    })
            });
        want!(ok, o, "elems", "edge", k);
        want!(ints(&o["active_elems"], &e.pair.map_or(vec![], |p| p.to_vec())), o, "active_elems", "edge", k);
    }
    cnt("files_checked", 1);
    Ok(())
}

/// Grow a mesh by a few valid calls.
pub fn grow(h: &mut Hist, calls: u32, big: usize) {
    for _ in 0..calls {
        let op = next_op(h, big, false);
        h.step(op);
    }
}

// ------------------------------------------------------------------------------------------------ S11

fn s11_main(_: u32, _: u32) {
    session_mode();
    let d = start(4);
    let mut h = Hist::any(&d, "/simfs/mesh.json");
    make_dir("/simfs/out");
    let path = "/simfs/out/mesh.json";
    let big = [20, 60, 250][w(3) as usize];
    for round in 0..wr(1, 3) {
        grow(&mut h, w(5), big);
        if wc(1, 3) {
            // something longer or shorter is there already
            put_file(path, &vec![b"[{ \n"[w(4) as usize]; [0, 10, 3000, 400_000][w(4) as usize]]);
        }
        let before = format!("{:?}", h.mesh);
        let (g, ids) = check_mesh(&h.mesh, &h.model).unwrap_or_else(|(c, e)| fail(&format!("mesh/{}", c), &e));
        let mut first: Option<Vec<u8>> = None;
        note!("[{}] elems={}", round, h.model.len());
        let tries = wr(1, 4);
        for t in 0..=tries {
            fs::clear_injected();
            let healthy = t == tries;
            if healthy {
                cnt("retries", 1);
            } else {
                let mut kinds = vec![Fault::OpenFail];
                kinds.extend(WRITES);
                fs::set_faults(fault_plan(&kinds, true));
            }
            let mesh = &mut h.mesh;
            let r = client(move || mesh.export_to_json(path));
            let hard = fs::hard();
            fs::set_faults(NO_FAULTS);
            match r {
                Err(e) => fail("export/panic", &format!("the export panicked: {}", panic_msg(&e))),
                Ok(Err(e)) => {
                    cnt("exports_err", 1);
                    if hard == 0 {
                        fail("export/refused", &format!("nothing failed but the export returned: {}", e));
                    }
                }
                Ok(Ok(())) => {
                    cnt("exports_ok", 1);
                    let text = get_file(path).unwrap_or_else(|| fail("export/incomplete", "success, but there is no file"));
                    if let Err(e) = check_document(&text, &h.model, &g, &ids) {
                        fail("export/incomplete", &format!("success (after {} faults), but {}", fs::injected(), e));
                    }
                    match &first {
                        None => first = Some(text),
                        Some(x) if *x != text => fail("export/differs", "two exports of the same mesh differ"),
                        _ => (),
                    }
                }
            }
            if fs::open_sim_fds() != 0 {
                fail("export/open-handles", "the export leaves a file open");
            }
            if format!("{:?}", h.mesh) != before {
                fail("export/changed-mesh", "the mesh is different after the export");
            }
        }
    }
    h.check(false);
}

// ------------------------------------------------------------------------------------------------ S13

/// A document in one of several spellings.
fn document(d: &Desc) -> String {
    let style = w(5);
    let text = d.json(style % 3);
    match style {
        3 => {
            // unknown members are ignored
            let i = text.find('{').unwrap() + 1;
            format!("{}\"comment\": \"mesh, \\u0041\\n\", \"more\": [1, {{\"x\": null}}],{}", &text[..i], &text[i..])
        }
        4 => {
            // exponents
            let mut out = String::new();
            let mut word = String::new();
            for c in text.chars() {
                if c.is_ascii_digit() || ".-e".contains(c) {
                    word.push(c);
                    continue;
                }
                flush(&mut out, &mut word);
                out.push(c);
            }
            flush(&mut out, &mut word);
            out
        }
        _ => text,
    }
}
fn flush(out: &mut String, word: &mut String) {
    if word.contains('.') && word.parse::<f64>().is_ok() {
        out.push_str(&format!("{:e}", word.parse::<f64>().unwrap()));
    } else {
        out.push_str(word);
    }
    word.clear();
}

/// Damage a document so that it no longer describes a mesh; says how.
fn damage(d: &Desc, text: &str) -> (Vec<u8>, String) {
    let b = text.as_bytes().to_vec();
    let end = text.trim_end().len();
    let cut = |n: u32| match w(3) {
        0 => w(n),
        1 => n - 1 - w(n.min(4)),
        _ => w(n.min(60)),
    } as usize;
    match w(16) {
        0 | 1 | 2 => {
            let k = cut(end as u32);
            (b[..k].to_vec(), format!("cut to {} of {} bytes", k, b.len()))
        }
        3 => {
            // the last blocks never reached the disk
            let k = cut(end as u32);
            let mut x = b.clone();
            x[k..].fill(0);
            (x, format!("zeros from byte {} of {}", k, b.len()))
        }
        4 => {
            let k = cut(end as u32);
            let n = wr(1, 600) as usize;
            let mut x = b.clone();
            let e = (k + n).min(x.len());
            x[k..e].fill(0);
            (x, format!("zeros from byte {} to {}", k, e))
        }
        5 => {
            let mut x = b.clone();
            let k = cut(end as u32).max(1);
            x.extend(&b[k..]);
            (x, format!("the end from byte {} appears twice", k))
        }
        6 => {
            let mut x = b.clone();
            let k = cut(end as u32);
            x[k] = [0xff, 0xfe, 0xc0, 0x80][w(4) as usize];
            (x, format!("byte {} is not UTF-8", k))
        }
        7 => (vec![b' '; w(3) as usize], "empty".into()),
        8 => {
            let which = ["\"Nodes\"", "\"Elements\"", "\"node_ids\"", "\"materials\""][w(4) as usize];
            (text.replacen(which, "\"Nods\"", 1).into_bytes(), format!("no {}", which))
        }
        9 => {
            let mut d = d.clone();
            let e = w(d.cells.len() as u32) as usize;
            let k = w(4) as usize;
            d.cells[e].0[k] = [d.nodes.len(), d.nodes.len() + 1, 1 << 40, d.cells[e].0[(k + 1) % 4]][w(4) as usize];
            (d.json(w(3)).into_bytes(), format!("element {} has the node ids {:?}", e, d.cells[e].0))
        }
        10 => {
            let mut d = d.clone();
            let n = d.nodes.len() as u32;
            let a = w(n) as usize;
            let b = (a + 1 + w(n - 1) as usize) % n as usize;
            d.nodes[b] = d.nodes[a];
            (d.json(w(3)).into_bytes(), format!("nodes {} and {} lie at the same place", a, b))
        }
        12 => {
            // a list with an entry too few or too many
            let (key, open, what) = [("\"node_ids\":", 1, "node_ids"), ("\"materials\":", 1, "materials"), ("\"Nodes\":", 2, "a node")][w(3) as usize];
            let i = text.find(key).unwrap() + key.len();
            let i = i + text[i..].match_indices('[').nth(open - 1).unwrap().0 + 1;
            let e = i + text[i..].find(']').unwrap();
            let list: Vec<&str> = text[i..e].split(',').collect();
            let mut l = list.clone();
            match w(3) {
                0 => l.truncate(l.len() - 1),
                1 => l.push(list[w(list.len() as u32) as usize]),
                _ => l.clear(),
            }
            (format!("{}{}{}", &text[..i], l.join(","), &text[e..]).into_bytes(), format!("{} has {} entries", what, l.len()))
        }
        13 => {
            // the same cell twice
            let mut d = d.clone();
            let e = w(d.cells.len() as u32) as usize;
            let at = w(d.cells.len() as u32 + 1) as usize;
            let c = d.cells[e].clone();
            d.cells.insert(at, c);
            (d.json(w(3)).into_bytes(), format!("element {} appears twice", e))
        }
        14 => {
            // a node id that is no whole number
            let bad = ["-1", "0.5", "1e40", "\"0\"", "null"][w(5) as usize];
            let i = text.find("\"node_ids\":[").unwrap() + 12;
            let e = i + text[i..].find([',', ']']).unwrap();
            (format!("{}{}{}", &text[..i], bad, &text[e..]).into_bytes(), format!("a node id is {}", bad))
        }
        _ => {
            let bad = ["\"1.0\"", "null", "[1.0]", "true"][w(4) as usize];
            let i = text.find("\"materials\":[").unwrap() + 13;
            let e = i + text[i..].find([',', ']']).unwrap();
            (format!("{}{}{}", &text[..i], bad, &text[e..]).into_bytes(), format!("a material is {}", bad))
        }
    }
}

fn load(path: &str) -> Caught<Result<Mesh, String>> {
    client(move || Mesh::from_file(path).map_err(|e| e.to_string()))
}

/// An Ok mesh must be the described one.
fn same(cls: &str, mesh: Mesh, d: &Desc, path: &str) {
    let h = Hist { mesh, model: Model::new(d), path: path.into(), unit: false, accepted: vec![] };
    let r = client(|| check_mesh(&h.mesh, &h.model).map(|_| ()));
    match r {
        Err(e) => fail(cls, &format!("the loaded mesh is unusable: {}", panic_msg(&e))),
        Ok(Err((_, e))) => fail(cls, &format!("the loaded mesh is another one: {}", e)),
        Ok(Ok(())) => (),
    }
    cnt("loads_ok", 1);
}
fn handles() {
    if fs::open_sim_fds() != 0 {
        fail("load/open-handles", "loading leaves a file open");
    }
}
fn refused(r: Caught<Result<Mesh, String>>, how: &str) {
    match r {
        Ok(Ok(m)) => fail("load/accepted-damage", &format!("a damaged file ({}) was accepted as a mesh of {} elements", how, m.elements.len())),
        Ok(Err(_)) => cnt("loads_err", 1),
        Err(_) => cnt("loads_rejected_by_panic", 1),
    }
}

fn s13_main(_: u32, _: u32) {
    session_mode();
    let max = if wc(1, 10) { [14, 14, 14, 14, 45][w(5) as usize] } else { 5 };
    let mut d = gen::grid(wr(1, max) as usize, wr(1, max) as usize);
    if wc(1, 8) {
        // a node nobody uses
        d.nodes.push([1e4, wr(1, 50) as f64]);
    }
    let mut text = document(&d);
    if wc(1, 150) {
        // white space is allowed before the document
        let n = if wc(1, 6) { 17 << 20 } else { [1 << 16, 1 << 17, 1 << 20, 2 << 20][w(4) as usize] } + w(100) as usize;
        text.insert_str(0, &[" ", "\n", "\t\r\n "][w(3) as usize].repeat(n));
        cnt("padded_documents", 1);
    }
    let path = "/simfs/mesh.json";
    note!("cells={} bytes={}", d.cells.len(), text.len());
    for _ in 0..wr(1, 3) {
        fs::clear_injected();
        match w(8) {
            0 => {
                // nothing there, or a directory
                let _ = simrt::sched::shielded(|| std::fs::remove_file(path));
                for p in [path, "/simfs", "/simfs/no/where.json", "/simfs/mesh\0.json", ""] {
                    match load(p) {
                        Ok(Err(_)) => cnt("loads_err", 1),
                        Ok(Ok(_)) => fail("load/made-up", &format!("loading {:?} gave a mesh", p)),
                        Err(e) => fail("load/panic-not-error", &format!("loading {:?} panicked: {}", p, panic_msg(&e))),
                    }
                }
            }
            1 | 2 | 3 => {
                let (x, how) = damage(&d, &text);
                put_file(path, &x);
                if fc(1, 3) {
                    fs::set_faults(fault_plan(&[Fault::ReadEintr, Fault::ReadShort], false));
                }
                let r = load(path);
                fs::set_faults(NO_FAULTS);
                fault(Fault::SolverTorn);
                refused(r, &how);
            }
            4 => {
                // loaded while it is being written
                put_file(path, b"");
                let bytes = text.clone().into_bytes();
                let step = [7, 64, 500, 5000][w(4) as usize];
                let writer = move || {
                    use std::io::Write;
                    let mut f = std::fs::OpenOptions::new().write(true).open(path).expect("open");
                    for c in bytes.chunks(step.max(bytes.len() / 50)) {
                        f.write_all(c).expect("write");
                    }
                };
                let reader = move || Mesh::from_file(path).map_err(|e| e.to_string());
                let work: Vec<Box<dyn FnOnce() -> Option<Caught<Result<Mesh, String>>> + Send>> = vec![
                    Box::new(move || {
                        writer();
                        None
                    }),
                    Box::new(move || Some(std::panic::catch_unwind(reader))),
                ];
                fault(Fault::DirRace);
                for r in clients(work) {
                    if let Ok(Some(r)) = r {
                        match r {
                            Ok(Ok(m)) => same("load/torn", m, &d, path),
                            Ok(Err(_)) => cnt("loads_err", 1),
                            Err(_) => cnt("loads_rejected_by_panic", 1),
                        }
                    }
                }
            }
            _ => {
                put_file(path, text.as_bytes());
                let mut kinds = vec![Fault::ReadEintr, Fault::ReadShort];
                if fc(1, 2) {
                    kinds.extend([Fault::ReadErr, Fault::OpenFail]);
                }
                fs::set_faults(fault_plan(&kinds, false));
                let n = if wc(1, 5) { wr(2, 3) } else { 1 };
                let work = (0..n)
                    .map(|_| Box::new(move || Mesh::from_file(path).map_err(|e| e.to_string())) as Box<dyn FnOnce() -> Result<Mesh, String> + Send>)
                    .collect();
                let rs = clients(work);
                let hard = fs::hard();
                fs::set_faults(NO_FAULTS);
                for r in rs {
                    match r {
                        Err(e) => fail("load/panic-not-error", &format!("{} read faults, and loading an intact file panicked: {}", fs::injected(), panic_msg(&e))),
                        Ok(Err(e)) => {
                            cnt("loads_err", 1);
                            if hard == 0 {
                                fail("load/refused", &format!("an intact file was refused: {}", e));
                            }
                        }
                        Ok(Ok(m)) => {
                            if n == 1 && hard > 0 {
                                fail("load/made-up", "reading the file failed, yet the load succeeded");
                            }
                            same("load/wrong-mesh", m, &d, path)
                        }
                    }
                }
            }
        }
        handles();
        put_file(path, text.as_bytes());
        cnt("retries", 1);
        match load(path) {
            Ok(Ok(m)) => same("load/wrong-after-failure", m, &d, path),
            Ok(Err(e)) => fail("load/refused", &format!("an intact file was refused: {}", e)),
            Err(e) => fail("load/refused", &format!("an intact file was refused by a panic: {}", panic_msg(&e))),
        }
        handles();
        if get_file(path).as_deref() != Some(text.as_bytes()) {
            fail("load/changed-file", "loading changed the mesh file");
        }
    }
}

pub fn s11() -> Prop {
    let items: Vec<Item> = vec![item("export", one_stage, s11_main, 9000, 400000)];
    Prop {
        id: "S11",
        items,
        real: "Mesh::from_file, the refinement methods, Mesh::export_to_json, json, std::fs and std::io (real code)",
        stub: "the disk's faults and capacity",
        assumptions: vec!["faults are reported by the system calls (open, write); a disk that loses acknowledged data is outside the property"],
    }
}
pub fn s13() -> Prop {
    let items: Vec<Item> = vec![item("load", one_stage, s13_main, 16000, 800000)];
    Prop {
        id: "S13",
        items,
        real: "Mesh::from_file, json, std::fs and std::io (real code)",
        stub: "the disk's faults; damage to the file's contents",
        assumptions: vec!["damage that leaves another well-formed mesh document cannot be noticed and is not injected"],
    }
}
