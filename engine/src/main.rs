//! irsym: bounded symbolic execution of rustc's LLVM IR with an SMT solver.
mod exec;
mod expr;
mod ir;
mod mem;
mod smt;
use std::collections::{BTreeMap, BTreeSet};

/// a readable tail of a v0-mangled symbol: the identifiers it contains
pub fn idents(n: &str) -> Vec<String> {
    let b = n.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            let mut v = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                v = v * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            let mut k = j;
            if k < b.len() && b[k] == b'_' {
                k += 1;
            }
            if v > 1 && k + v <= b.len() && b[k..k + v].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                out.push(n[k..k + v].to_string());
                i = k + v;
                continue;
            }
        }
        i += 1;
    }
    out
}
pub fn short_name(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let v = idents(n);
    // generic arguments follow the path; the first few identifiers name the item
    let take: Vec<&String> = v.iter().take(5).collect();
    take.iter().map(|s| s.as_str()).collect::<Vec<_>>().join("::")
}
pub fn dbg_field(t: &str, f: &str) -> Option<u32> {
    let k = t.find(&format!("{}: ", f))?;
    let r = &t[k + f.len() + 2..];
    let r = r.strip_prefix('!').unwrap_or(r);
    let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
    r[..e].parse().ok()
}
pub fn dbg_loc(m: &ir::Module, d: u32) -> Option<(String, u32)> {
    let (s, e) = *m.md.get(&d)?;
    let t = &m.text[s..e];
    let line = dbg_field(t, "line")?;
    let mut sc = dbg_field(t, "scope")?;
    for _ in 0..20 {
        let (s, e) = *m.md.get(&sc)?;
        let t = &m.text[s..e];
        if t.contains("!DIFile(") {
            let k = t.find("filename: \"")? + 11;
            let r = &t[k..];
            let f = &r[..r.find('"')?];
            let dir = t.find("directory: \"").map(|k| {
                let r = &t[k + 12..];
                r[..r.find('"').unwrap_or(0)].to_string()
            });
            let full = if f.starts_with('/') { f.to_string() } else { format!("{}/{}", dir.unwrap_or_default(), f) };
            return Some((full, line));
        }
        sc = dbg_field(t, "file").or_else(|| dbg_field(t, "scope"))?;
    }
    None
}
pub fn dbg_line(m: &ir::Module, d: u32) -> Option<String> {
    if d == u32::MAX {
        return None;
    }
    let (f, l) = dbg_loc(m, d)?;
    Some(format!("{}:{}", f.rsplit('/').next().unwrap_or(&f), l))
}
fn inline_chain(m: &ir::Module, d: u32) -> Vec<(String, u32)> {
    let mut out = vec![];
    let mut d = d;
    for _ in 0..40 {
        if let Some(x) = dbg_loc(m, d) {
            out.push(x);
        }
        let Some(&(s, e)) = m.md.get(&d) else { break };
        match dbg_field(&m.text[s..e], "inlinedAt") {
            Some(n) => d = n,
            None => break,
        }
    }
    out
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hexs(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| format!("\"{:x}\"", x)).collect::<Vec<_>>().join(","))
}

fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) };
    let ll = get("--ll").expect("--ll");
    let harness = get("--harness").expect("--harness");
    let args: Vec<u64> = get("--args").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let tl: f64 = get("--time").map(|s| s.parse().unwrap()).unwrap_or(600.0);
    let out = get("--out");
    let samples: usize = get("--samples").map(|s| s.parse().unwrap()).unwrap_or(40);
    let maxv: usize = get("--max-viol").map(|s| s.parse().unwrap()).unwrap_or(6);
    let qt: u64 = get("--query-ms").map(|s| s.parse().unwrap()).unwrap_or(10000);
    let bigt: u64 = get("--big-s").map(|s| s.parse().unwrap()).unwrap_or(120);
    let tmp = get("--tmp").unwrap_or_else(|| "/tmp".into());
    let solver = get("--solver").unwrap_or_else(|| "z3-new".into());
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&ll);
    if harness == "--parse-all" {
        let mut m = m;
        let n = m.syms.len();
        let mut bad = BTreeMap::new();
        for g in 0..n as u32 {
            match m.syms[g as usize].1 {
                ir::GKind::Func { .. } => {
                    let f = ir::parse_func(&mut m, g);
                    for i in &f.insts {
                        if let ir::Inst::Unsupported(s) = i {
                            *bad.entry(s.split_whitespace().next().unwrap_or("").to_string()).or_insert(0) += 1;
                        }
                    }
                }
                ir::GKind::Var { .. } => {
                    ir::parse_global(&mut m, g);
                }
                _ => {}
            }
        }
        println!("parsed {} symbols in {:.1}s; unsupported: {:?}", n, t0.elapsed().as_secs_f64(), bad);
        return;
    }
    let name = format!("h_{}", harness);
    let gid = m.find(&name).unwrap_or_else(|| panic!("no function {}", name));
    let load = t0.elapsed().as_secs_f64();
    let mut sv = smt::Solver::new(&solver, qt, bigt, &tmp);
    sv.log_dir = get("--log-queries");
    let cfg = exec::Cfg { harness: harness.clone(), args: args.clone(), time_limit: tl, max_viol: maxv, max_samples: samples, max_steps: 2_000_000_000 };
    let mut ex = exec::Ex::new(m, sv, cfg);
    ex.run(gid);
    // coverage of the code under test
    let root = get("--root").unwrap_or_else(|| "/repo/src/".into());
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut fns: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut seen_dbg: BTreeSet<u32> = BTreeSet::new();
    let mut insts = 0u64;
    for f in ex.loaded() {
        let cov = f.cov.borrow();
        let n = cov.iter().filter(|x| **x).count() as u64;
        insts += n;
        if n > 0 && f.f.name.contains("5cmaes") {
            let e = fns.entry(short_name(&f.f.name)).or_default();
            e.0 += n;
            e.1 += cov.len() as u64;
        }
        for (i, c) in cov.iter().enumerate() {
            if *c && f.f.dbg[i] != u32::MAX && seen_dbg.insert(f.f.dbg[i]) {
                for (file, line) in inline_chain(&ex.m, f.f.dbg[i]) {
                    if let Some(r) = file.strip_prefix(&root) {
                        if line > 0 {
                            lines.entry(r.to_string()).or_default().insert(line);
                        }
                    }
                }
            }
        }
    }
    let s = &ex.sv.st;
    let mut o = String::new();
    o.push_str("{\n");
    o.push_str(&format!(" \"harness\": {}, \"args\": {:?},\n", js(&harness), args));
    o.push_str(&format!(" \"complete\": {}, \"pending\": {},\n", ex.complete && ex.work.is_empty(), ex.work.len()));
    o.push_str(&format!(" \"paths\": {}, \"infeasible\": {}, \"forks\": {}, \"steps\": {}, \"max_depth\": {},\n", ex.paths, ex.infeasible, ex.forks, ex.steps, ex.max_depth));
    o.push_str(&format!(
        " \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cache_hits\": {}, \"guessed_sat\": {}, \"solver_ms\": {:.1}, \"max_query_ms\": {:.1}, \"escalated\": {},\n",
        s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.guessed, s.solver_ms, s.max_ms, s.escalated
    ));
    o.push_str(&format!(" \"checks\": {}, \"checks_symbolic\": {}, \"time_s\": {:.2}, \"load_s\": {:.2},\n", ex.checks_total, ex.checks_sym, t0.elapsed().as_secs_f64(), load));
    let kv = |m: &BTreeMap<String, u64>| -> String { m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ") };
    o.push_str(&format!(" \"outcomes\": {{{}}},\n \"reach\": {{{}}},\n \"errors\": {{{}}},\n", kv(&ex.outcomes), kv(&ex.reach), kv(&ex.errors)));
    o.push_str(&format!(
        " \"checked\": {{{}}},\n",
        ex.checked.iter().map(|(k, v)| format!("{}: [{}, {}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(", ")
    ));
    let mut und: BTreeMap<String, u64> = BTreeMap::new();
    for u in &ex.undecided {
        *und.entry(u.clone()).or_default() += 1;
    }
    o.push_str(&format!(" \"undecided\": {{{}}},\n", kv(&und)));
    o.push_str(&format!(
        " \"violations\": [{}],\n",
        ex.viol.iter().map(|v| format!("{{\"msg\": {}, \"at\": {}, \"inputs\": {}}}", js(&v.msg), js(&v.at), hexs(&v.inputs))).collect::<Vec<_>>().join(",\n  ")
    ));
    o.push_str(&format!(" \"samples\": [{}],\n", ex.samples.iter().map(|(i, b)| format!("[{},{}]", hexs(i), hexs(b))).collect::<Vec<_>>().join(",\n  ")));
    o.push_str(&format!(" \"insts_covered\": {},\n", insts));
    o.push_str(&format!(" \"functions\": {{{}}},\n", fns.iter().map(|(k, v)| format!("{}: [{}, {}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(", ")));
    o.push_str(&format!(
        " \"lines\": {{{}}}\n}}\n",
        lines.iter().map(|(k, v)| format!("{}: {:?}", js(k), v.iter().collect::<Vec<_>>())).collect::<Vec<_>>().join(", ")
    ));
    match out {
        Some(p) => std::fs::write(p, o).unwrap(),
        None => println!("{}", o),
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
