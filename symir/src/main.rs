mod exec; mod expr; mod ir; mod lin; mod mem; mod models; mod relax; mod solver;
use exec::*;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

extern "C" { fn fork() -> i32; fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32; fn _exit(c: i32) -> !; fn kill(pid: i32, sig: i32) -> i32; fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32; }

fn jstr(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }

#[derive(Default)]
struct Total { wit: BTreeMap<String, Vec<String>>, nums: BTreeMap<String, f64>, covered: BTreeMap<String, u64>, funcs: std::collections::BTreeSet<String>, viol: Vec<(String, String, Vec<String>)>, known: BTreeMap<String, Vec<String>>, errors: Vec<String>, notes: Vec<String>, cases: u64, slow: Vec<(f64, u64)> }

fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t") }
fn unesc(s: &str) -> String { let mut o = String::new(); let mut it = s.chars(); while let Some(c) = it.next() { if c == '\\' { match it.next() { Some('n') => o.push('\n'), Some('t') => o.push('\t'), Some(x) => o.push(x), None => {} } } else { o.push(c) } } o }

fn result_lines(e: &Engine) -> String {
    let mut o = String::new();
    let mut num = |k: &str, v: f64| o.push_str(&format!("N\t{}\t{}\n", k, v));
    num("paths", e.paths as f64); num("infeasible", e.infeasible as f64); num("forks", e.forks as f64); num("choice_forks", e.choice_forks as f64); num("instructions", e.steps as f64);
    num("asserts", e.asserts as f64); num("asserts_by_rewriting", e.asserts_rewrite as f64); num("asserts_by_solver", e.asserts_solver as f64);
    num("queries", e.solver.queries as f64); num("sat", e.solver.sat as f64); num("unsat", e.solver.unsat as f64); num("unknown", e.solver.unknown as f64); num("cache_hits", e.solver.cache_hits as f64); num("relaxed", e.solver.relaxed as f64); num("solver_time", e.solver.time); num("max_query", e.solver.maxtime);
    num("concretized", e.concretized as f64); num("memchecks", e.memchecks as f64); num("fmt_forced", e.fmt_forced as f64);
    for (k, v) in &e.covered { o.push_str(&format!("C\t{}\t{}\n", esc(k), v)) }
    for (k, v) in &e.witnesses { o.push_str(&format!("W\t{}\t{}\n", esc(k), esc(&v.join("\n")))) }
    for s in &e.funcs_seen { o.push_str(&format!("F\t{}\n", e.m.syms[*s as usize])) }
    for v in &e.violations { o.push_str(&format!("V\t{}\t{}\t{}\n", esc(&v.what), esc(&v.place), esc(&v.inputs.join("\n")))) }
    for (k, v) in &e.known_hit { o.push_str(&format!("K\t{}\t{}\n", esc(k), esc(&v.join("\n")))) }
    for x in &e.errors { o.push_str(&format!("E\t{}\n", esc(x))) }
    for x in &e.notes { o.push_str(&format!("T\t{}\n", esc(x))) }
    o
}
fn merge(t: &mut Total, txt: &str) {
    for l in txt.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "N" => { let v: f64 = f[2].parse().unwrap(); let e = t.nums.entry(f[1].into()).or_insert(0.0); if f[1] == "max_query" { if v > *e { *e = v } } else { *e += v } }
            "C" => *t.covered.entry(unesc(f[1])).or_insert(0) += f[2].parse::<u64>().unwrap(),
            "F" => { t.funcs.insert(f[1].into()); }
            "V" => t.viol.push((unesc(f[1]), unesc(f[2]), unesc(f[3]).lines().map(|s| s.to_string()).collect())),
            "K" => { t.known.entry(unesc(f[1])).or_insert(unesc(f[2]).lines().map(|s| s.to_string()).collect()); }
            "W" => { t.wit.entry(unesc(f[1])).or_insert(unesc(f[2]).lines().map(|s| s.to_string()).collect()); }
            "E" => t.errors.push(unesc(f[1])),
            "T" => t.notes.push(unesc(f[1])),
            _ => {}
        }
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(3);
    std::process::exit(c);
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let (mut irf, mut harness, mut jobs, mut time, mut out, mut known, mut qt, mut verbose, mut cases, mut solver, mut conc, mut maxv, mut cross) = (String::new(), String::new(), 8usize, 600u64, String::new(), String::new(), 60_000u64, false, None, "z3 -in -smt2".to_string(), String::new(), 1usize, String::new());
    let mut i = 1;
    while i < a.len() {
        let v = || a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ir" => irf = v(), "--harness" => harness = v(), "--jobs" => jobs = v().parse().unwrap(), "--time" => time = v().parse().unwrap(), "--out" => out = v(), "--known" => known = v(), "--qtime" => qt = v().parse().unwrap(),
            "--solver" => solver = v(), "--concrete" => conc = v(), "--cases" => cases = Some(v().split(',').map(|x| x.parse().unwrap()).collect::<Vec<u64>>()), "--maxviol" => maxv = v().parse().unwrap(), "--cross" => cross = v(),
            "--verbose" => { verbose = true; i += 1; continue }
            o => { eprintln!("unknown option {}", o); return 3 }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&irf).expect("cannot read the IR");
    let m = ir::Parser::new(&text).parse();
    drop(text);
    let tparse = t0.elapsed().as_secs_f64();
    if verbose { eprintln!("parsed in {:.2}s: {} functions, {} globals", tparse, m.funcs.len(), m.globals.len()) }
    let mut s = solver::Solver::new(&solver, qt);
    if !cross.is_empty() { s.cross = Some(cross) }
    let mut e = Engine::new(m, s);
    e.verbose = verbose; e.max_violations = maxv; e.cases = cases;
    e.deadline = Some(t0 + Duration::from_secs(time)); e.solver.deadline = e.deadline;
    if !known.is_empty() { e.known = std::fs::read_to_string(&known).unwrap_or_default().lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect() }
    if !conc.is_empty() {
        let mut v = vec![];
        for l in std::fs::read_to_string(&conc).unwrap().lines() { if let Some(c) = l.strip_prefix("c ") { v.push(Input2::Choice(c.trim().parse().unwrap())) } else if let Some(h) = l.strip_prefix("b ") { let h = h.trim(); v.push(Input2::Bytes((0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect())) } }
        e.concrete = Some(v);
    }
    e.master = e.concrete.is_none();
    let mut st = e.initial();
    if let Err(x) = e.start(&mut st, &harness) { eprintln!("{:?}", x); return 3 }
    e.work.push(st);
    e.run_all();
    let mut tot = Total::default();
    merge(&mut tot, &result_lines(&e));
    let mut queue: Vec<(u64, State)> = std::mem::take(&mut e.queue);
    queue.reverse();
    let mut running: Vec<(i32, String, u64, Instant)> = vec![];
    let dir = std::env::temp_dir();
    let mut stop = false;
    // each worker process explores one case
    e.paths = 0; e.infeasible = 0; e.forks = 0; e.steps = 0; e.asserts = 0; e.asserts_rewrite = 0; e.asserts_solver = 0; e.choice_forks = 0; e.concretized = 0; e.memchecks = 0; e.fmt_forced = 0;
    e.covered.clear(); e.witnesses.clear(); e.violations.clear(); e.known_hit.clear(); e.errors.clear(); e.notes.clear();
    e.solver.forget();
    loop {
        while !stop && running.len() < jobs && !queue.is_empty() {
            let (c, st) = queue.pop().unwrap();
            let f = dir.join(format!("symir-{}-{}", std::process::id(), c)).to_string_lossy().to_string();
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe { prctl(1, 9, 0, 0, 0); }
                e.master = false;
                e.work = vec![st];
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.run_all()));
                if r.is_err() { e.errors.push(format!("engine panic in case {}", c)) }
                std::fs::write(&f, result_lines(&e)).ok();
                if verbose { let mut b: Vec<_> = e.branch_stat.iter().collect(); b.sort_by_key(|x| std::cmp::Reverse(*x.1)); for (k, v) in b.iter().take(6) { eprintln!("{:8} forks at {}", v, k) } }
                e.solver.shutdown();
                unsafe { _exit(0) }
            }
            running.push((pid, f, c, Instant::now()));
        }
        if running.is_empty() { break }
        let mut ws = 0i32;
        let pid = unsafe { waitpid(-1, &mut ws, 0) };
        if pid <= 0 { break }
        let k = match running.iter().position(|r| r.0 == pid) { Some(k) => k, None => continue };
        let (_, f, c, ts) = running.remove(k);
        tot.cases += 1;
        let dt = ts.elapsed().as_secs_f64();
        tot.slow.push((dt, c));
        match std::fs::read_to_string(&f) { Ok(t) if ws == 0 => merge(&mut tot, &t), _ => tot.errors.push(format!("worker of case {} died (status {:#x})", c, ws)) }
        std::fs::remove_file(&f).ok();
        if verbose { eprintln!("case {} done in {:.2}s", c, dt) }
        if tot.viol.len() >= maxv { stop = true; if tot.viol.len() >= maxv { for r in &running { unsafe { kill(r.0, 9); } std::fs::remove_file(&r.1).ok(); } for r in &running { let mut w = 0; unsafe { waitpid(r.0, &mut w, 0); } std::fs::remove_file(&r.1).ok(); } break } }
    }
    if !queue.is_empty() && tot.viol.is_empty() { tot.errors.push(format!("{} cases not explored", queue.len())) }
    tot.slow.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    let mut j = String::from("{\n");
    j.push_str(&format!("\"harness\": {}, \"wall\": {:.3}, \"parse\": {:.3}, \"cases\": {},\n", jstr(&harness), t0.elapsed().as_secs_f64(), tparse, tot.cases));
    for (k, v) in &tot.nums { j.push_str(&format!("{}: {}, ", jstr(k), v)) }
    j.push_str("\n\"covered\": {"); j.push_str(&tot.covered.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", ")); j.push_str("},\n");
    j.push_str("\"functions\": ["); j.push_str(&tot.funcs.iter().map(|k| jstr(k)).collect::<Vec<_>>().join(", ")); j.push_str("],\n");
    j.push_str("\"slowest\": ["); j.push_str(&tot.slow.iter().take(5).map(|(t, c)| format!("[{}, {:.2}]", c, t)).collect::<Vec<_>>().join(", ")); j.push_str("],\n");
    j.push_str("\"violations\": ["); j.push_str(&tot.viol.iter().map(|(w, p, i)| format!("{{\"what\": {}, \"place\": {}, \"inputs\": [{}]}}", jstr(w), jstr(p), i.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(",\n")); j.push_str("],\n");
    j.push_str("\"witnesses\": {"); j.push_str(&tot.wit.iter().map(|(k, i)| format!("{}: [{}]", jstr(k), i.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", ")); j.push_str("},\n");
    j.push_str("\"known\": {"); j.push_str(&tot.known.iter().map(|(k, i)| format!("{}: [{}]", jstr(k), i.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", ")); j.push_str("},\n");
    j.push_str("\"notes\": ["); j.push_str(&tot.notes.iter().take(50).map(|x| jstr(x)).collect::<Vec<_>>().join(", ")); j.push_str("],\n");
    j.push_str("\"errors\": ["); j.push_str(&tot.errors.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", ")); j.push_str("]\n}\n");
    if out.is_empty() { print!("{}", j) } else { std::fs::write(&out, &j).ok(); }
    if verbose { let mut b: Vec<_> = e.branch_stat.iter().collect(); b.sort_by_key(|x| std::cmp::Reverse(*x.1)); for (k, v) in b.iter().take(12) { eprintln!("{:8} forks at {}", v, k) } }
    e.solver.shutdown();
    if !tot.viol.is_empty() { 1 } else if !tot.errors.is_empty() { 2 } else { 0 }
}
