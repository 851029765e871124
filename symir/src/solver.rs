// SMT-LIB 2 back end (z3 over a pipe), with constraint slicing and model reuse.
use crate::expr::*;
use crate::ir::{BinOp, ExprId, FOp};
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

pub type Model = HashMap<u32, u128>;
#[derive(Debug, Clone)]
pub enum Res { Sat(Model), Unsat, Unknown(String) }

struct Proc { child: Child, inp: ChildStdin, out: BufReader<ChildStdout> }

pub struct Solver {
    cmd: Vec<String>,
    proc: Option<Proc>,
    pub timeout_ms: u64,
    varcache: HashMap<ExprId, Rc<Vec<u32>>>,
    models: Vec<Model>,
    cache: HashMap<Vec<ExprId>, bool>,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cache_hits: u64, pub time: f64, pub maxtime: f64,
    pub dump: Option<String>,
    pub deadline: Option<Instant>,
    pub limit: Option<u64>,
    pub cross: Option<String>, // directory to store queries for the second solver
    pub crossed: u64,
    pub relaxed: u64,
    fmemo: HashMap<ExprId, bool>,
}
// give the variables below a plain term the bits of v
fn assign(e: ExprId, v: u128, m: &mut Model) {
    match node(e).clone() {
        N::Var(i) => { m.insert(i, v & mask(width(e))); }
        N::Concat(ps) => { let mut off = 0; for &p in ps.iter() { assign(p, v >> off & mask(width(p)), m); off += width(p) } }
        N::Extract(x, lo) => if let N::Var(i) = node(x) { let w = width(e); let o = m.get(i).cloned().unwrap_or(0); m.insert(*i, o & !(mask(w) << lo) | (v & mask(w)) << lo); },
        _ => {}
    }
}

impl Solver {
    pub fn new(bin: &str, timeout_ms: u64) -> Solver {
        Solver { cmd: bin.split(' ').map(|s| s.to_string()).collect(), proc: None, timeout_ms, varcache: HashMap::new(), models: vec![], cache: HashMap::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, cache_hits: 0, time: 0.0, maxtime: 0.0, dump: None, deadline: None, limit: None, cross: None, crossed: 0, relaxed: 0, fmemo: HashMap::new() }
    }
    pub fn vars(&mut self, e: ExprId) -> Rc<Vec<u32>> {
        if let Some(v) = self.varcache.get(&e) { return v.clone() }
        let mut stack = vec![(e, false)];
        while let Some((x, ready)) = stack.pop() {
            if self.varcache.contains_key(&x) { continue }
            if let N::Var(i) = node(x) { self.varcache.insert(x, Rc::new(vec![*i])); continue }
            let ch = children(x);
            if !ready && ch.iter().any(|c| !self.varcache.contains_key(c)) { stack.push((x, true)); for c in ch { if !self.varcache.contains_key(&c) { stack.push((c, false)) } } continue }
            let mut v: Vec<u32> = vec![];
            let mut last: Option<Rc<Vec<u32>>> = None;
            for c in &ch { let cv = self.varcache[c].clone(); if cv.is_empty() { continue } if let Some(l) = &last { if Rc::ptr_eq(l, &cv) { continue } } v.extend(cv.iter()); last = Some(cv); }
            v.sort(); v.dedup();
            let r = match last { Some(l) if l.len() == v.len() => l, _ => Rc::new(v) };
            self.varcache.insert(x, r);
        }
        self.varcache[&e].clone()
    }
    // constraints of pc that (transitively) share variables with q
    pub fn slice(&mut self, pc: &[ExprId], q: &[ExprId]) -> Vec<ExprId> {
        let mut vs: HashSet<u32> = HashSet::new();
        for &e in q { for &v in self.vars(e).iter() { vs.insert(v); } }
        let pcv: Vec<(ExprId, Rc<Vec<u32>>)> = pc.iter().map(|&e| (e, self.vars(e))).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, (_, v)) in pcv.iter().enumerate() {
                if !used[i] && v.iter().any(|x| vs.contains(x)) { used[i] = true; ch = true; for &x in v.iter() { vs.insert(x); } }
            }
            if !ch { break }
        }
        let mut out: Vec<ExprId> = pcv.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, x)| x.0).collect();
        out.extend_from_slice(q);
        out.sort(); out.dedup();
        out
    }
    fn start(&mut self) {
        if self.proc.is_some() { return }
        let mut child = Command::new(&self.cmd[0]).args(&self.cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot start the SMT solver");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        self.proc = Some(Proc { child, inp, out });
    }
    // Is pc /\ q satisfiable?  (pc is known to be satisfiable)
    pub fn sat(&mut self, pc: &[ExprId], q: ExprId) -> Res {
        if let Some(v) = as_const(q) { if v == 0 { return Res::Unsat } }
        let cs = self.slice(pc, &[q]);
        self.check(&cs)
    }
    // Is the assertion c implied?  First from the constraints that speak of its own variables only.
    pub fn implied(&mut self, pc: &[ExprId], nc: ExprId) -> Res {
        if let Some(v) = as_const(nc) { if v == 0 { return Res::Unsat } }
        let full = self.slice(pc, &[nc]);
        if full.len() > 4 {
            let vs: HashSet<u32> = self.vars(nc).iter().cloned().collect();
            let mut near = vec![];
            for &e in &full { if e == nc || self.vars(e).iter().all(|x| vs.contains(x)) { near.push(e) } }
            if near.len() < full.len() { if let Res::Unsat = self.check(&near) { return Res::Unsat } }
        }
        self.check(&full)
    }
    pub fn check(&mut self, cs: &[ExprId]) -> Res {
        let cs: Vec<ExprId> = { let mut v: Vec<ExprId> = cs.iter().cloned().filter(|&e| as_const(e) != Some(1)).collect(); v.sort(); v.dedup(); v };
        if cs.iter().any(|&e| as_const(e) == Some(0)) { return Res::Unsat }
        if cs.is_empty() { return Res::Sat(Model::new()) }
        if let Some(&s) = self.cache.get(&cs) { if !s { self.cache_hits += 1; return Res::Unsat } }
        for i in (0..self.models.len()).rev() {
            let ok = { let mut ev = Eval::new(&self.models[i]); cs.iter().all(|&e| ev.eval(e) == 1) };
            if ok { self.cache_hits += 1; let m = self.models[i].clone(); return Res::Sat(m) }
        }
        let t0 = Instant::now();
        let r = if cs.iter().any(|&e| crate::relax::has_float(e, &mut self.fmemo)) { self.float_query(&cs) } else { self.query(&cs) };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt; if dt > self.maxtime { self.maxtime = dt }
        self.queries += 1;
        match &r {
            Res::Sat(m) => { self.sat += 1; self.models.push(m.clone()); if self.models.len() > 12 { self.models.remove(0); } }
            Res::Unsat => { self.unsat += 1; self.cache.insert(cs, false); }
            Res::Unknown(_) => self.unknown += 1,
        }
        r
    }
    // Queries about floats: refute them in real arithmetic with rounding errors, or find a model from
    // that, before the bit-precise theory is asked.
    fn float_query(&mut self, cs: &[ExprId]) -> Res {
        let mut vs: Vec<u32> = vec![]; for &c in cs { vs.extend(self.vars(c).iter()) } vs.sort(); vs.dedup();
        let mut seed = 0x9e3779b97f4a7c15u64;
        let mut rnd = || { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; seed };
        for k in 0..20 {
            let m: Model = vs.iter().map(|&v| (v, (match k { 0 => 0, 1 => u64::MAX, 2 => 1, 3 => 0x10, 4 => 0x7f, _ => if k % 3 == 0 && rnd() % 2 == 0 { 0 } else { rnd() >> 9 } }) as u128 & mask(cx().vars[v as usize].1))).collect();
            let mut ev = Eval::new(&m);
            if cs.iter().all(|&e| ev.eval(e) == 1) { return Res::Sat(m) }
        }
        for mode in 0..3 {
        let exact = mode == 2;
        let mut x = crate::relax::Relax::new(); x.exact = exact; x.opaque = mode == 0;
        let names: Vec<String> = cs.iter().map(|&c| x.cond(c)).collect();
        if mode == 0 && !x.looked { continue }
        if x.ok {
            let tmo = self.limit.unwrap_or(self.timeout_ms).min(self.timeout_ms).min(20000);
            let mut t = format!("(reset)\n(set-option :timeout {})\n(set-logic {})\n{}", tmo, if x.nonlinear && exact { "QF_NRA" } else { "QF_LRA" }, x.out);
            for n in &names { writeln!(t, "(assert {})", n).unwrap() }
            t.push_str("(check-sat)\n");
            self.relaxed += 1;
            if let Ok(d) = std::env::var("SYMIR_DUMPR") { std::fs::write(format!("{}/r{}-{}.smt2", d, std::process::id(), self.relaxed), &t).ok(); }
            match self.answer(&t, tmo).as_deref() {
                Ok("unsat") => return Res::Unsat,
                Ok("sat") if !x.leaves.is_empty() => {
                    let g = format!("(set-option :pp.decimal true)\n(get-value ({}))\n", x.leaves.iter().map(|e| format!("x{}", e)).collect::<Vec<_>>().join(" "));
                    if let Some(acc) = self.values(&g) {
                        let mut m: Model = vs.iter().map(|&v| (v, 0)).collect();
                        let toks: Vec<&str> = acc.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|s| !s.is_empty()).collect();
                        let mut i = 0;
                        while i + 1 < toks.len() {
                            if let Some(e) = toks[i].strip_prefix('x').and_then(|s| s.parse::<ExprId>().ok()) { if let Ok(v) = toks[i + 1].trim_end_matches('?').parse::<f64>() { assign(e, v.round().max(0.0) as u128, &mut m) } }
                            i += 1;
                        }
                        let mut ev = Eval::new(&m);
                        if cs.iter().all(|&e| ev.eval(e) == 1) { return Res::Sat(m) }
                    }
                }
                _ => {}
            }
        }
        if !x.nonlinear && mode > 0 { break }
        }
        self.query(cs)
    }
    fn answer(&mut self, txt: &str, tmo: u64) -> Result<String, String> {
        self.start();
        let p = self.proc.as_mut().unwrap();
        let guard = if txt.len() > 60000 { Some(watch(p.child.id(), tmo + 5000)) } else { None };
        if p.inp.write_all(txt.as_bytes()).is_err() || p.inp.flush().is_err() { self.kill(); return Err("solver died".into()) }
        drop(guard);
        let mut line = String::new();
        if p.out.buffer().is_empty() && !wait_readable(&p.out, tmo + 2000) { self.kill(); return Err("timeout".into()) }
        loop {
            line.clear();
            if p.out.read_line(&mut line).unwrap_or(0) == 0 { self.kill(); return Err("solver died".into()) }
            let l = line.trim();
            if l.is_empty() { continue }
            if l == "unsat" || l == "sat" { return Ok(l.to_string()) }
            if l.starts_with("(error") && std::env::var("SYMIR_DUMPERR").is_ok() { eprintln!("{}", l); std::fs::write("/tmp/symir_err.smt2", txt).ok(); }
            let s = l.to_string(); self.kill(); return Err(s)
        }
    }
    fn values(&mut self, g: &str) -> Option<String> {
        let p = self.proc.as_mut()?;
        p.inp.write_all(g.as_bytes()).ok()?; p.inp.flush().ok()?;
        let mut depth = 0i32; let mut acc = String::new(); let mut line = String::new();
        loop {
            line.clear();
            if p.out.read_line(&mut line).unwrap_or(0) == 0 { self.kill(); return None }
            for c in line.chars() { if c == '(' { depth += 1 } else if c == ')' { depth -= 1 } }
            acc.push_str(&line);
            if depth == 0 && !line.trim().is_empty() { return Some(acc) }
        }
    }
    fn query(&mut self, cs: &[ExprId]) -> Res {
        let mut tmo = self.limit.unwrap_or(self.timeout_ms).min(self.timeout_ms);
        if let Some(d) = self.deadline { let now = Instant::now(); if now >= d { return Res::Unknown("time budget exhausted".into()) } tmo = tmo.min((d - now).as_millis() as u64 + 1) }
        let mut em = Emit::new();
        for &c in cs { em.bv(c); }
        let mut txt = String::new();
        write!(txt, "(reset)\n(set-option :timeout {})\n", tmo).unwrap();
        if !em.fp { txt.push_str(if em.ufs.is_empty() { "(set-logic QF_BV)\n" } else { "(set-logic QF_UFBV)\n" }) }
        let mut body = String::new();
        let mut vars: Vec<u32> = em.vars.iter().cloned().collect();
        vars.sort();
        for v in &vars { writeln!(body, "(declare-const v{} (_ BitVec {}))", v, cx().vars[*v as usize].1).unwrap(); }
        for f in &em.ufs { body.push_str(f); }
        body.push_str(&em.out);
        for &c in cs { writeln!(body, "(assert (= n{} #b1))", c).unwrap(); }
        txt.push_str(&body);
        txt.push_str("(check-sat)\n");
        if let Some(d) = &self.cross {
            let f = format!("{}/q{}.smt2", d, self.queries);
            std::fs::write(f, format!("(set-logic QF_UFBV)\n{}(check-sat)\n", body)).ok();
            self.crossed += 1;
        }
        self.start();
        let p = self.proc.as_mut().unwrap();
        let guard = if txt.len() > 60000 { Some(watch(p.child.id(), tmo + 5000)) } else { None };
        if p.inp.write_all(txt.as_bytes()).is_err() || p.inp.flush().is_err() { self.kill(); return Res::Unknown("timeout".into()) }
        drop(guard);
        let mut line = String::new();
        if p.out.buffer().is_empty() && !wait_readable(&p.out, tmo + 2000) { self.kill(); return Res::Unknown("timeout".into()) }
        loop {
            line.clear();
            if p.out.read_line(&mut line).unwrap_or(0) == 0 { self.kill(); return Res::Unknown("solver died".into()) }
            let l = line.trim();
            if l.is_empty() { continue }
            if l == "unsat" { return Res::Unsat }
            if l == "sat" { break }
            if l == "unknown" || l == "timeout" { self.kill(); return Res::Unknown(l.to_string()) }
            if l.starts_with("(error") { let s = l.to_string(); if std::env::var("SYMIR_DUMPERR").is_ok() { std::fs::write("/tmp/symir_err.smt2", &txt).ok(); } self.kill(); return Res::Unknown(s) }
        }
        if vars.is_empty() { return Res::Sat(Model::new()) }
        let mut g = String::from("(get-value (");
        for v in &vars { write!(g, "v{} ", v).unwrap(); }
        g.push_str("))\n");
        p.inp.write_all(g.as_bytes()).ok(); p.inp.flush().ok();
        let mut depth = 0i32; let mut acc = String::new();
        loop {
            line.clear();
            if p.out.read_line(&mut line).unwrap_or(0) == 0 { self.kill(); return Res::Unknown("solver died".into()) }
            for c in line.chars() { if c == '(' { depth += 1 } else if c == ')' { depth -= 1 } }
            acc.push_str(&line);
            if depth == 0 { break }
        }
        let mut m = Model::new();
        let toks: Vec<&str> = acc.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|s| !s.is_empty()).collect();
        let mut i = 0;
        while i < toks.len() {
            let v: u32 = toks[i][1..].parse().unwrap();
            let s = toks[i + 1];
            let val = if let Some(h) = s.strip_prefix("#x") { u128::from_str_radix(h, 16).unwrap() } else if let Some(b) = s.strip_prefix("#b") { u128::from_str_radix(b, 2).unwrap() } else { 0 };
            m.insert(v, val);
            i += 2;
        }
        // the model must satisfy the constraints under our own evaluation (guards the translation)
        let mut ev = Eval::new(&m);
        if em.ufs.is_empty() && !cs.iter().all(|&e| ev.eval(e) == 1) { return Res::Unknown("model does not satisfy the constraints".into()) }
        Res::Sat(m)
    }
    // drop an inherited solver process without touching it
    pub fn forget(&mut self) { self.kill(); self.queries = 0; self.relaxed = 0; self.sat = 0; self.unsat = 0; self.unknown = 0; self.cache_hits = 0; self.time = 0.0; self.maxtime = 0.0; }
    pub fn shutdown(&mut self) { self.kill() }
    fn kill(&mut self) { if let Some(mut p) = self.proc.take() { p.child.kill().ok(); p.child.wait().ok(); } }
}
// ends the solver if it does not take its input in time
fn watch(pid: u32, ms: u64) -> std::sync::mpsc::Sender<()> {
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    std::thread::spawn(move || if let Err(std::sync::mpsc::RecvTimeoutError::Timeout) = rx.recv_timeout(std::time::Duration::from_millis(ms)) { extern "C" { fn kill(p: i32, s: i32) -> i32; } unsafe { kill(pid as i32, 9); } });
    tx
}
#[repr(C)]
struct PollFd { fd: i32, events: i16, revents: i16 }
extern "C" { fn poll(f: *mut PollFd, n: u64, ms: i32) -> i32; }
fn wait_readable(o: &BufReader<ChildStdout>, ms: u64) -> bool {
    use std::os::unix::io::AsRawFd;
    let mut p = PollFd { fd: o.get_ref().as_raw_fd(), events: 1, revents: 0 };
    unsafe { poll(&mut p, 1, ms as i32) > 0 }
}
impl Drop for Solver { fn drop(&mut self) { self.kill() } }

pub struct Emit { pub out: String, done: HashSet<ExprId>, fdone: HashSet<ExprId>, pub vars: HashSet<u32>, pub ufs: Vec<String>, ufset: HashSet<u32>, pub fp: bool }
fn bvc(w: u32, v: u128) -> String { if w % 4 == 0 { format!("#x{:0width$x}", v, width = (w / 4) as usize) } else { format!("#b{:0width$b}", v, width = w as usize) } }
fn fsort(w: u32) -> &'static str { if w == 32 { "8 24" } else { "11 53" } }

impl Emit {
    pub fn new() -> Emit { Emit { out: String::new(), done: HashSet::new(), fdone: HashSet::new(), vars: HashSet::new(), ufs: vec![], ufset: HashSet::new(), fp: false } }
    pub fn bv(&mut self, root: ExprId) {
        let mut stack = vec![(root, false)];
        while let Some((e, ready)) = stack.pop() {
            if self.done.contains(&e) { continue }
            if !ready { let ch = children(e); if ch.iter().any(|c| !self.done.contains(c)) { stack.push((e, true)); for c in ch { if !self.done.contains(&c) { stack.push((c, false)) } } continue } }
            self.one(e);
            self.done.insert(e);
        }
    }
    fn f(&mut self, e: ExprId) -> String {
        // FP-sorted term for a float expression
        self.fp = true;
        if !self.fdone.contains(&e) {
            if !matches!(node(e), N::FBin(..) | N::FFromU(_) | N::FFromS(_) | N::FConv(_) | N::FUnary(..) | N::FMinMax(..)) {
                let w = width(e);
                writeln!(self.out, "(define-fun f{} () (_ FloatingPoint {}) ((_ to_fp {}) n{}))", e, fsort(w), fsort(w), e).unwrap();
            }
            self.fdone.insert(e);
        }
        format!("f{}", e)
    }
    fn one(&mut self, e: ExprId) {
        let w = width(e);
        let b = |c: String| format!("(ite {} #b1 #b0)", c);
        let s = match node(e).clone() {
            N::Const(v) => bvc(w, v),
            N::Var(i) => { self.vars.insert(i); format!("v{}", i) }
            N::Concat(ps) => { let mut s = String::from("(concat"); for p in ps.iter().rev() { write!(s, " n{}", p).unwrap(); } s.push(')'); s }
            N::Extract(x, lo) => format!("((_ extract {} {}) n{})", lo + w - 1, lo, x),
            N::SExt(x) => format!("((_ sign_extend {}) n{})", w - width(x), x),
            N::Bin(op, x, y) => format!("({} n{} n{})", match op { BinOp::Add => "bvadd", BinOp::Sub => "bvsub", BinOp::Mul => "bvmul", BinOp::UDiv => "bvudiv", BinOp::SDiv => "bvsdiv", BinOp::URem => "bvurem", BinOp::SRem => "bvsrem", BinOp::And => "bvand", BinOp::Or => "bvor", BinOp::Xor => "bvxor", BinOp::Shl => "bvshl", BinOp::LShr => "bvlshr", BinOp::AShr => "bvashr" }, x, y),
            N::Not(x) => format!("(bvnot n{})", x),
            N::Ite(c, x, y) => format!("(ite (= n{} #b1) n{} n{})", c, x, y),
            N::Eq(x, y) => b(format!("(= n{} n{})", x, y)),
            N::Ult(x, y) => b(format!("(bvult n{} n{})", x, y)),
            N::Slt(x, y) => b(format!("(bvslt n{} n{})", x, y)),
            N::Lookup(t, idx) => {
                let tb = &cx().tables[t as usize];
                let iw = width(idx);
                for bit in 0..iw { writeln!(self.out, "(define-fun b{}_{} () Bool (= ((_ extract {} {}) n{}) #b1))", e, bit, bit, bit, idx).unwrap(); }
                // level by level multiplexer with sharing of equal subtrees
                let n = 1usize << iw;
                let mut names: Vec<String> = vec![]; let mut ids: Vec<u32> = Vec::with_capacity(n);
                let mut m: HashMap<ExprId, u32> = HashMap::new();
                for i in 0..n {
                    let x = if i < tb.ent.len() { tb.ent[i] } else { tb.ent[tb.ent.len() - 1] };
                    let k = *m.entry(x).or_insert_with(|| { names.push(match as_const(x) { Some(v) => bvc(w, v), None => format!("n{}", x) }); names.len() as u32 - 1 });
                    ids.push(k);
                }
                for bit in 0..iw {
                    let mut pm: HashMap<(u32, u32), u32> = HashMap::new();
                    let mut nids = Vec::with_capacity(ids.len() / 2);
                    for j in 0..ids.len() / 2 {
                        let (lo, hi) = (ids[2 * j], ids[2 * j + 1]);
                        if lo == hi { nids.push(lo); continue }
                        let k = match pm.get(&(lo, hi)) { Some(&k) => k, None => {
                            let nm = format!("t{}_{}_{}", e, bit, j);
                            writeln!(self.out, "(define-fun {} () (_ BitVec {}) (ite b{}_{} {} {}))", nm, w, e, bit, names[hi as usize], names[lo as usize]).unwrap();
                            names.push(nm); let k = names.len() as u32 - 1; pm.insert((lo, hi), k); k } };
                        nids.push(k);
                    }
                    ids = nids;
                }
                names[ids[0] as usize].clone()
            }
            N::FBin(op, x, y) => {
                let (a, c) = (self.f(x), self.f(y));
                let t = match op { FOp::Add => format!("(fp.add RNE {} {})", a, c), FOp::Sub => format!("(fp.sub RNE {} {})", a, c), FOp::Mul => format!("(fp.mul RNE {} {})", a, c), FOp::Div => format!("(fp.div RNE {} {})", a, c), FOp::Rem => format!("(fp.rem {} {})", a, c) };
                self.fdef(e, t)
            }
            N::FMinMax(mx, x, y) => {
                let (a, c) = (self.f(x), self.f(y));
                // a NaN operand yields the other one; fp.min/max do the same
                let t = format!("({} {} {})", if mx { "fp.max" } else { "fp.min" }, a, c);
                self.fdef(e, t)
            }
            N::FCmp(p, x, y) => {
                let (a, c) = (self.f(x), self.f(y));
                let mut parts = vec![];
                if p & 1 != 0 { parts.push(format!("(fp.eq {} {})", a, c)) }
                if p & 2 != 0 { parts.push(format!("(fp.gt {} {})", a, c)) }
                if p & 4 != 0 { parts.push(format!("(fp.lt {} {})", a, c)) }
                if p & 8 != 0 { parts.push(format!("(or (fp.isNaN {}) (fp.isNaN {}))", a, c)) }
                b(format!("(or {} false)", parts.join(" ")))
            }
            N::FFromU(x) => { let t = format!("((_ to_fp_unsigned {}) RNE n{})", fsort(w), x); self.fdef(e, t) }
            N::FFromS(x) => { let t = format!("((_ to_fp {}) RNE n{})", fsort(w), x); self.fdef(e, t) }
            N::FConv(x) => { let a = self.f(x); let t = format!("((_ to_fp {}) RNE {})", fsort(w), a); self.fdef(e, t) }
            N::FUnary(k, x) => {
                let a = self.f(x);
                let t = match k { FUn::Floor => format!("(fp.roundToIntegral RTN {})", a), FUn::Ceil => format!("(fp.roundToIntegral RTP {})", a), FUn::Trunc => format!("(fp.roundToIntegral RTZ {})", a), FUn::Rint => format!("(fp.roundToIntegral RNE {})", a), FUn::Round => format!("(fp.roundToIntegral RNA {})", a), FUn::Sqrt => format!("(fp.sqrt RNE {})", a) };
                self.fdef(e, t)
            }
            N::FToU(x) => {
                let a = self.f(x); let wx = width(x);
                let lim = if wx == 32 { bvc(32, ((2f64).powi(w as i32) as f32).to_bits() as u128) } else { bvc(64, (2f64).powi(w as i32).to_bits() as u128) };
                format!("(ite (fp.isNaN {a}) {z} (ite (fp.geq {a} ((_ to_fp {s}) {lim})) {m} (ite (fp.leq {a} ((_ to_fp {s}) {zf})) {z} ((_ fp.to_ubv {w}) RTZ {a}))))", a = a, z = bvc(w, 0), s = fsort(wx), lim = lim, m = bvc(w, mask(w)), zf = bvc(wx, 0), w = w)
            }
            N::FToS(x) => {
                let a = self.f(x); let wx = width(x);
                let c = |f: f64| if wx == 32 { bvc(32, (f as f32).to_bits() as u128) } else { bvc(64, f.to_bits() as u128) };
                let p = (2f64).powi(w as i32 - 1);
                format!("(ite (fp.isNaN {a}) {z} (ite (fp.geq {a} ((_ to_fp {s}) {hi})) {m} (ite (fp.leq {a} ((_ to_fp {s}) {lo})) {mn} ((_ fp.to_sbv {w}) RTZ {a}))))", a = a, z = bvc(w, 0), s = fsort(wx), hi = c(p), lo = c(-p), m = bvc(w, mask(w) >> 1), mn = bvc(w, 1u128 << (w - 1)), w = w)
            }
            N::FCall(f, x, y) => {
                if self.ufset.insert(f * 2 + (w == 64) as u32) { self.ufs.push(format!("(declare-fun uf{}_{} ((_ BitVec {}) (_ BitVec {})) (_ BitVec {}))\n", f, w, w, w, w)); }
                format!("(uf{}_{} n{} n{})", f, w, x, y)
            }
        };
        writeln!(self.out, "(define-fun n{} () (_ BitVec {}) {})", e, w, s).unwrap();
    }
    fn fdef(&mut self, e: ExprId, t: String) -> String {
        self.fp = true;
        let w = width(e);
        writeln!(self.out, "(define-fun f{} () (_ FloatingPoint {}) {})", e, fsort(w), t).unwrap();
        self.fdone.insert(e);
        format!("(fp.to_ieee_bv f{})", e)
    }
}
