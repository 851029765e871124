// Symbolic execution of the IR.
use crate::expr::{self, *};
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
    pub ret_dst: u32,
    pub inv: Option<(u32, u32)>, // continuation of an invoke in the caller: (normal, unwind)
    pub landing: Option<(Val, u64)>,
}

#[derive(Clone, Debug)]
pub enum Input { Choice(u64), Bytes(Vec<ExprId>) }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<ExprId>,
    pub inputs: Vec<Input>,
    pub nsym: u32,
    pub pending: Vec<(ExprId, String)>, // conditions that must hold here
    pub steps: u64,
    pub clock: u64,
    pub vfile: Option<(Rc<Vec<u8>>, Option<Rc<Vec<Cell>>>)>,
    pub vpos: u64,
    pub snap: Option<Rc<Mem>>, // memory at sym_enter
    pub covers: Vec<String>,
    pub model: Option<Rc<Model>>,
    pub forced: Option<u64>,
}

#[derive(Debug)]
pub enum Stop {
    Done(String),             // path finished normally
    Infeasible,               // assume(false)
    Fail(String),             // property violated on every continuation of this path (under pc)
    Split,                    // the path was handed to worker processes, one per case
    Spec,                     // the end of a speculative run
    Engine(String),           // unsupported construct, budget, inconclusive solver
}
type R<T> = Result<T, Stop>;
fn eng<T>(s: impl Into<String>) -> R<T> { Err(Stop::Engine(s.into())) }

#[derive(Clone, Debug)]
pub struct Violation { pub what: String, pub inputs: Vec<String>, pub place: String }

// a store of a speculative run: where, what was there, what is now, and in which block of the run
#[derive(Clone)]
struct Write { at: u64, ty: TyId, old: Val, new: Val, block: usize }
pub struct Engine {
    pub m: Module,
    pub solver: Solver,
    pub work: Vec<State>,
    pub builtin: HashMap<u32, B>,
    pub symvars: Vec<ExprId>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub paths: u64, pub infeasible: u64, pub forks: u64, pub steps: u64,
    pub asserts: u64, pub asserts_rewrite: u64, pub asserts_solver: u64,
    pub covered: BTreeMap<String, u64>,
    pub witnesses: BTreeMap<String, Vec<String>>,
    pub funcs_seen: BTreeSet<u32>,
    pub cases: Option<Vec<u64>>,
    pub case_count: u64,
    pub max_steps: u64, pub max_paths: u64, pub max_violations: usize,
    pub deadline: Option<Instant>,
    pub concrete: Option<Vec<Input2>>, // replay / validation mode
    pub outputs: Vec<String>,
    pub tblcache: HashMap<(usize, u64, u64, u64, u32), (Rc<Obj>, Rc<Vec<ExprId>>)>,
    pub verbose: bool,
    pub concretized: u64,
    pub memchecks: u64,
    pub cur_case: String,
    pub sym_live: bool,
    pub branch_stat: HashMap<String, u64>,
    pub known: Vec<String>,
    pub known_hit: BTreeMap<String, Vec<String>>,
    pub notes: Vec<String>,
    pub master: bool, pub queue: Vec<(u64, State)>, pub choice_forks: u64,
    pub fmtsyms: std::collections::HashSet<u32>,
    pub fmt_forced: u64,
    // speculative execution of the arms of a branch: the blocks entered with the values of their phis
    pub spec: Option<Vec<(u32, Vec<Val>)>>, pub spec_depth: u32, pub doms: HashMap<(usize, u32, u32), bool>, pub spec_left: u64, pub merged: u64, pub cuts: Vec<ExprId>, pub forms: crate::lin::Forms, pub nomerge: std::collections::HashSet<(usize, u32)>,
    journal: Vec<Write>,
}
#[derive(Clone, Debug)]
pub enum Input2 { Choice(u64), Bytes(Vec<u8>) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    None, Nop, Ext(&'static str),
    Memcpy, Memset, Ctlz, Cttz, Ctpop, Bswap, Bitrev, Fshl, Fshr, UMin, UMax, SMin, SMax, Abs, UAddSat, USubSat, SAddSat, SSubSat,
    AddOv(bool), SubOv(bool), MulOv(bool), UCmp, SCmp, FPToUISat, FPToSISat, FPClass, F1(FUn), FAbs, FCopysign, FMin, FMax, FCall(u32), FMulAdd, ThreadLocal, Trap, Assume, Expect,
    VReduce(&'static str), IsConst, PMovMskB, FClass, UShlSat, Powi,
}

impl Engine {
    pub fn new(m: Module, solver: Solver) -> Engine {
        Engine { m, solver, work: vec![], builtin: HashMap::new(), symvars: vec![], violations: vec![], errors: vec![], paths: 0, infeasible: 0, forks: 0, steps: 0, asserts: 0, asserts_rewrite: 0, asserts_solver: 0, covered: BTreeMap::new(), witnesses: BTreeMap::new(), funcs_seen: BTreeSet::new(), cases: None, case_count: 0, max_steps: 2_000_000_000, max_paths: 1_000_000, max_violations: 1, deadline: None, concrete: None, outputs: vec![], tblcache: HashMap::new(), verbose: false, concretized: 0, memchecks: 0, cur_case: String::new(), sym_live: false, branch_stat: HashMap::new(), known: vec![], known_hit: BTreeMap::new(), notes: vec![], master: false, queue: vec![], choice_forks: 0, fmtsyms: Default::default(), fmt_forced: 0, spec: None, spec_depth: 0, doms: HashMap::new(), spec_left: 0, merged: 0, cuts: vec![], forms: crate::lin::Forms::new(), nomerge: Default::default(), journal: vec![] }
    }

    pub fn initial(&mut self) -> State {
        let nsyms = self.m.syms.len() as u64;
        let mut mem = Mem::new(SYM_BASE + nsyms + 16);
        for g in &self.m.globals {
            let (sz, _) = self.m.size_align(g.ty);
            let mut o = Obj { bytes: vec![0; sz as usize], sym: None, constant: g.constant, heap: false };
            if let Some(c) = &g.init { init_const(&self.m, g.ty, c, &mut o, 0) } 
            mem.put(SYM_BASE + g.sym as u64, o);
        }
        mem.put(crate::models::ERRNO_OBJ, Obj { bytes: vec![0; 64], sym: None, constant: false, heap: false });
        for (i, n) in self.m.syms.iter().enumerate() { if n.starts_with("_R") && (n.contains("4core3fmt5write") || n.contains("3fmt6format12format_inner") || n.contains("3fmt3num")) { self.fmtsyms.insert(i as u32); } }
        State { frames: vec![], mem, pc: vec![], inputs: vec![], nsym: 0, pending: vec![], steps: 0, clock: 1_000_000_000, vfile: None, vpos: 0, snap: None, covers: vec![], model: None, forced: None }
    }

    pub fn start(&mut self, st: &mut State, fname: &str) -> R<()> {
        let s = match self.m.symmap.get(fname) { Some(s) => *s, None => return eng(format!("no function {}", fname)) };
        let f = match self.m.func_of_sym.get(&s) { Some(i) => self.m.funcs[*i].clone(), None => return eng(format!("{} is not defined", fname)) };
        let n = f.nregs as usize;
        st.frames.push(Frame { f, block: 0, ip: 0, regs: vec![Val::C(0); n], allocas: vec![], ret_dst: NODST, inv: None, landing: None });
        Ok(())
    }

    pub fn run_all(&mut self) {
        while let Some(mut st) = self.work.pop() {
            if self.paths + self.infeasible >= self.max_paths { self.errors.push("path budget exhausted".into()); return }
            if let Some(d) = self.deadline { if Instant::now() > d { self.errors.push("time budget exhausted".into()); return } }
            let before = st.steps;
            let r = self.run(&mut st);
            self.steps += st.steps - before;
            let r = match r {
                Err(Stop::Done(w)) => match self.flush(&mut st) { Ok(()) => Err(Stop::Done(w)), Err(e) => Err(e) },
                Err(Stop::Fail(w)) => match self.flush(&mut st) { Ok(()) | Err(Stop::Infeasible) => { self.fail(&st, &w); continue } Err(e) => Err(e) },
                r => r,
            };
            match r {
                Ok(()) => unreachable!(),
                Err(Stop::Done(_)) => { self.paths += 1; self.witness_of(&st); }
                Err(Stop::Infeasible) => { self.infeasible += 1; }
                Err(Stop::Split) | Err(Stop::Spec) => {}
                Err(Stop::Fail(w)) => self.fail(&st, &w),
                Err(Stop::Engine(w)) => {
                    let place = self.backtrace(&st);
                    self.errors.push(format!("{} [case {}] at {}", w, self.case_of(&st), place));
                    if self.errors.len() > 3 { return }
                }
            }
            if self.violations.len() >= self.max_violations { return }
        }
    }
    fn case_of(&self, st: &State) -> String { st.inputs.iter().filter_map(|i| if let Input::Choice(c) = i { Some(c.to_string()) } else { None }).collect::<Vec<_>>().join(",") }
    pub fn backtrace(&self, st: &State) -> String {
        st.frames.iter().rev().take(6).map(|f| format!("{}:{}:{}", short(&f.f.name), f.block, f.ip)).collect::<Vec<_>>().join(" < ")
    }
    fn fail(&mut self, st: &State, what: &str) {
        // concrete inputs for the whole path condition
        let m = match self.solver.check(&st.pc) { Res::Sat(m) => m, Res::Unsat => { self.infeasible += 1; return } Res::Unknown(u) => { self.errors.push(format!("inconclusive ({}) while building a counterexample for {}", u, what)); return } };
        self.report(st, what, &m);
    }
    // concrete inputs that take this path, for replay against the real code
    fn witness_of(&mut self, st: &State) {
        let new: Vec<String> = st.covers.iter().filter(|c| !self.witnesses.contains_key(*c)).cloned().collect();
        if new.is_empty() || self.concrete.is_some() { return }
        self.solver.limit = Some(5000);
        let r = self.solver.check(&st.pc);
        self.solver.limit = None;
        let mut m = match r { Res::Sat(m) => m, _ => return };
        for &c in &st.pc { for v in self.solver.vars(c).iter() { m.entry(*v).or_insert(0); } }
        let out = self.inputs_of(st, &m, true);
        for c in new { self.witnesses.insert(c, out.clone()); }
    }
    // the inputs of a path under a model; what the path condition leaves open is 0 or arbitrary
    fn inputs_of(&self, st: &State, m: &Model, arbitrary: bool) -> Vec<String> {
        let mut ev = Eval::new(m);
        let mut seed = 0x9e3779b97f4a7c15u64;
        let mut out = vec![];
        for i in &st.inputs {
            match i {
                Input::Choice(c) => out.push(format!("c {}", c)),
                Input::Bytes(v) => {
                    let mut s = String::from("b ");
                    for &e in v {
                        let b = match node(e) { N::Var(x) if arbitrary && !m.contains_key(x) => { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; (seed >> 24) as u128 & 0xff } _ => ev.eval(e) };
                        s.push_str(&format!("{:02x}", b))
                    }
                    out.push(s)
                }
            }
        }
        out
    }
    fn report(&mut self, st: &State, what: &str, m: &Model) {
        let mut ev = Eval::new(m);
        let mut out = vec![];
        for i in &st.inputs {
            match i {
                Input::Choice(c) => out.push(format!("c {}", c)),
                Input::Bytes(v) => { let mut s = String::from("b "); for &e in v { s.push_str(&format!("{:02x}", ev.eval(e))) } out.push(s) }
            }
        }
        let v = Violation { what: what.to_string(), inputs: out, place: self.backtrace(st) };
        // listed findings are recorded, not raised
        if let Some(k) = self.known.iter().find(|k| what == k.as_str()) { let k = k.clone(); self.known_hit.entry(k).or_insert(v.inputs); return }
        self.violations.push(v);
    }
    // discharge the collected assertions of this path
    pub fn flush(&mut self, st: &mut State) -> R<()> {
        while !st.pending.is_empty() {
            let all: Vec<(ExprId, String)> = std::mem::take(&mut st.pending);
            for chunk in all.chunks(48) { self.asserts_solver += chunk.len() as u64; self.prove(st, chunk)?; if self.violations.len() >= self.max_violations { return Ok(()) } }
        }
        Ok(())
    }
    fn prove(&mut self, st: &State, list: &[(ExprId, String)]) -> R<()> {
        let one = list.len() == 1;
        let mut conj = tru();
        for (c, _) in list { conj = and1(conj, *c) }
        self.solver.limit = if one { None } else { Some(4000) };
        let r = self.solver.implied(&st.pc, expr::not(conj));
        self.solver.limit = None;
        match r {
            Res::Unsat => Ok(()),
            Res::Unknown(u) if one => eng(format!("solver inconclusive ({}) on: {}", u, list[0].1)),
            Res::Sat(_) if one => self.viol_assert(st, list[0].0, &list[0].1),
            _ => {
                let (a, b) = list.split_at(list.len() / 2);
                self.prove(st, a)?;
                if self.violations.len() >= self.max_violations { return Ok(()) }
                self.prove(st, b)
            }
        }
    }
    fn viol_assert(&mut self, st: &State, c: ExprId, w: &str) -> R<()> {
        let mut cs = st.pc.clone(); cs.push(expr::not(c));
        match self.solver.check(&cs) { Res::Sat(m) => { self.report(st, w, &m); Ok(()) } Res::Unsat => Ok(()), Res::Unknown(u) => eng(format!("solver inconclusive ({}) on: {}", u, w)) }
    }

    // ---------------------------------------------------------------- helpers
    pub fn model_ok(&mut self, st: &mut State, c: ExprId) -> Option<bool> {
        let m = st.model.clone()?;
        let mut ev = Eval::new(&m);
        Some(ev.eval(c) == 1)
    }
    // truth of a symbolic condition; forks the state when both are possible.
    // The clone re-executes the current instruction.
    pub fn decide(&mut self, st: &mut State, c: ExprId) -> R<bool> {
        if let Some(v) = as_const(c) { return Ok(v == 1) }
        if self.spec.is_some() { return Err(Stop::Spec) }
        if self.in_fmt(st) { return Ok(self.witness(st, c)? == 1) }
        let nc = expr::not(c);
        // which side does the path's own witness take?
        let known = self.model_ok(st, c);
        let (mut can_t, mut can_f) = (false, false);
        match known { Some(true) => can_t = true, Some(false) => can_f = true, None => {} }
        let mut other: Option<Rc<Model>> = None;
        if !can_t {
            match self.solver.implied(&st.pc, c) { Res::Sat(m) => { can_t = true; let r = Rc::new(self.complete(st, m)); if known.is_none() { st.model = Some(r) } else { other = Some(r) } } Res::Unsat => {} Res::Unknown(u) => return eng(format!("solver inconclusive on a branch ({})", u)) }
        }
        if !can_f {
            match self.solver.implied(&st.pc, nc) { Res::Sat(m) => { can_f = true; other = Some(Rc::new(self.complete(st, m))); if !can_t { st.model = other.clone() } } Res::Unsat => {} Res::Unknown(u) => return eng(format!("solver inconclusive on a branch ({})", u)) }
        }
        if can_t && can_f {
            self.forks += 1;
            if self.verbose { let p = self.backtrace(st); if std::env::var("SYMIR_FORK").is_ok() { { let fr = st.frames.last().unwrap(); let b = &fr.f.blocks[fr.block as usize]; for q in &b.insts { eprintln!("   {:?} = {:?} : {:?}", q.dst, q.k, fr.regs.get(q.dst as usize).map(|v| match v { Val::C(c) => format!("{}", c), Val::E(e) => expr::show(*e, 5), _ => String::new() })); } } eprintln!("fork {} {}", p.chars().take(60).collect::<String>(), expr::show(c, 9)); } *self.branch_stat.entry(p).or_insert(0) += 1; }
            let mut s2 = st.clone();
            // current path continues on the side of its witness
            let cur = known.unwrap_or(true);
            st.pc.push(if cur { c } else { nc });
            s2.pc.push(if cur { nc } else { c });
            s2.model = other;
            self.work.push(s2);
            return Ok(cur);
        }
        if !can_t && !can_f { return Err(Stop::Infeasible) }
        Ok(can_t)
    }
    // extend a model of a constraint slice with the values of the path's previous witness
    pub fn complete(&self, st: &State, m: Model) -> Model {
        match &st.model { None => m, Some(o) => { let mut r = (**o).clone(); for (k, v) in m { r.insert(k, v); } r } }
    }
    // Inside the text formatting machinery (messages of errors and panics) a symbolic value is
    // rendered by one representative value: the text is not part of any property, and the path
    // condition is left alone.
    fn in_fmt(&self, st: &State) -> bool { st.frames.iter().any(|f| self.fmtsyms.contains(&f.f.sym)) }
    fn witness(&mut self, st: &mut State, e: ExprId) -> R<u128> {
        self.fmt_forced += 1;
        if st.model.is_none() { match self.solver.check(&st.pc) { Res::Sat(m) => st.model = Some(Rc::new(m)), Res::Unsat => return Err(Stop::Infeasible), Res::Unknown(u) => return eng(format!("inconclusive {}", u)) } }
        let m = st.model.clone().unwrap();
        Ok(Eval::new(&m).eval(e))
    }
    pub fn must(&mut self, st: &mut State, c: ExprId) -> R<bool> {
        if let Some(v) = as_const(c) { return Ok(v == 1) }
        if self.model_ok(st, c) == Some(false) { return Ok(false) }
        match self.solver.sat(&st.pc, expr::not(c)) { Res::Unsat => Ok(true), Res::Sat(_) => Ok(false), Res::Unknown(u) => eng(format!("solver inconclusive ({})", u)) }
    }
    pub fn concretize(&mut self, st: &mut State, e: ExprId) -> R<u128> {
        if let Some(v) = as_const(e) { return Ok(v) }
        if self.spec.is_some() { return Err(Stop::Spec) }
        if self.in_fmt(st) { return self.witness(st, e) }
        self.concretized += 1;
        if self.concretized > 200_000 { return eng("concretisation budget exhausted") }
        let w = width(e);
        if self.verbose && self.concretized < 20 { eprintln!("concretize {} at {}", show(e, 3), self.backtrace(st)) }
        if st.model.is_none() { match self.solver.check(&st.pc) { Res::Sat(m) => st.model = Some(Rc::new(m)), Res::Unsat => return Err(Stop::Infeasible), Res::Unknown(u) => return eng(format!("inconclusive {}", u)) } }
        let v = { let m = st.model.clone().unwrap(); let mut ev = Eval::new(&m); ev.eval(e) };
        let c = eq(e, cst(w, v));
        if self.decide(st, c)? { Ok(v) } else { eng("concretize: witness mismatch") }
    }
    pub fn cz(&mut self, st: &mut State, v: &Val) -> R<u64> { match v { Val::C(x) => Ok(*x), Val::E(e) => Ok(self.concretize(st, *e)? as u64), _ => eng("concretize aggregate") } }

    pub fn ex(&self, v: &Val, w: u32) -> ExprId { match v { Val::C(x) => cst(w, *x as u128), Val::E(e) => *e, Val::A(_) => panic!("aggregate used as scalar") } }

    // ---------------------------------------------------------------- memory
    fn bad(&self, addr: u64, n: u64, what: &str) -> Stop { Stop::Fail(format!("memory error: {} of {} bytes at object {} offset {}", what, n, addr >> 32, addr & 0xffff_ffff)) }
    pub fn load_c(&mut self, st: &State, addr: u64, n: u64, w: u32) -> R<Val> {
        let (id, off) = (addr >> 32, addr & 0xffff_ffff);
        match st.mem.get(id) { Some(o) if off + n <= o.bytes.len() as u64 => Ok(o.load(off as usize, n as usize, w)), _ => Err(self.bad(addr, n, "read")) }
    }
    pub fn store_c(&mut self, st: &mut State, addr: u64, n: u64, v: &Val) -> R<()> {
        let (id, off) = (addr >> 32, addr & 0xffff_ffff);
        match st.mem.get_mut(id) { Some(o) if off + n <= o.bytes.len() as u64 => { if o.constant { return Err(self.bad(addr, n, "write to a constant")) } o.store(off as usize, n as usize, v); Ok(()) } _ => Err(self.bad(addr, n, "write")) }
    }
    // a symbolic address: (object id, offset expression, low, high) with the access proven in bounds
    fn resolve(&mut self, st: &mut State, p: ExprId, n: u64) -> R<Result<u64, (u64, ExprId, u64, u64)>> {
        if let Some(v) = as_const(p) { return Ok(Ok(v as u64)) }
        // an if-then-else between pointers into different objects: decide it
        let mut guard = 0;
        loop {
            let i = info(p);
            if (i.ulo >> 32) == (i.uhi >> 32) { break }
            guard += 1;
            if guard > 64 { return eng("unresolvable symbolic pointer") }
            match find_ptr_ite(p) {
                Some(c) => { let d = self.decide(st, c)?; let _ = d; 
                    // continue with the simplified pointer
                    let q = assume_in(p, c, d);
                    return self.resolve(st, q, n) }
                None => break,
            }
        }
        let i = info(p);
        let id;
        if (i.ulo >> 32) == (i.uhi >> 32) { id = (i.ulo >> 32) as u64 } else {
            // take the object from the witness, and require it for all
            if st.model.is_none() { match self.solver.check(&st.pc) { Res::Sat(m) => st.model = Some(Rc::new(m)), Res::Unsat => return Err(Stop::Infeasible), Res::Unknown(u) => return eng(u) } }
            let m = st.model.clone().unwrap();
            let v = Eval::new(&m).eval(p) as u64;
            id = v >> 32;
            let same = eq(extract(p, 32, 32), cst(32, id as u128));
            self.memchecks += 1;
            if !self.decide(st, same)? { return eng("symbolic pointer outside its object") }
        }
        let size = match st.mem.get(id) { Some(o) => o.bytes.len() as u64, None => return Err(self.bad(id << 32, n, "access")) };
        let off = extract(p, 0, 32);
        let oi = info(off);
        let (mut lo, mut hi) = (oi.ulo as u64, oi.uhi as u64);
        if lo + n > size || size < n { 
            return Err(self.bad((id << 32) + lo, n, "access"))
        }
        if hi + n > size {
            let inb = expr::not(ult(cst(32, (size - n) as u128), off));
            self.memchecks += 1;
            if !self.decide(st, inb)? { return Err(self.bad((id << 32) + hi, n, "out-of-bounds access")) }
            hi = size - n;
        }
        let _ = &mut lo;
        Ok(Err((id, off, lo, hi)))
    }
    // index form of an offset: off = base + stride * idx
    fn strided(off: ExprId, lo: u64, hi: u64) -> (u64, u64, ExprId, u64) {
        // returns (base, stride, idx, count)
        let (base, term) = match node(off) { N::Bin(BinOp::Add, x, y) if is_const(*y) => (as_const(*y).unwrap() as u64, *x), _ => (0, off) };
        if let N::Bin(BinOp::Mul, x, k) = node(term) { if let Some(k) = as_const(*k) {
            let k = k as u64; let xi = info(*x);
            if base < 1 << 31 && k < 1 << 20 && xi.uhi <= (1u128 << 31) / k as u128 && base + xi.uhi as u64 * k < 1 << 32 { let n = ((hi - base) / k).min(xi.uhi as u64) + 1; return (base, k, *x, n) }
        } }
        if base > 0 && base <= lo {
            let ti = info(term);
            if ti.uhi as u64 + base < (1u64 << 32) {
                let tz = tzeros(term);
                let idx = extract(term, tz, 32 - tz);
                return (base, 1 << tz, idx, ((hi - base) >> tz) + 1);
            }
        }
        let tz = tzeros(off);
        let idx = extract(off, tz, 32 - tz);
        (0, 1 << tz, idx, (hi >> tz) + 1)
    }
    pub fn load(&mut self, st: &mut State, p: &Val, n: u64, w: u32) -> R<Val> {
        match p {
            Val::C(a) => self.load_c(st, *a, n, w),
            Val::E(e) => {
                match self.resolve(st, *e, n)? {
                    Ok(a) => self.load_c(st, a, n, w),
                    Err((id, off, lo, hi)) => {
                        let (base, stride, idx, cnt) = Self::strided(off, lo, hi);
                        if cnt > (1 << 17) { let a = self.concretize(st, *e)?; return self.load_c(st, a as u64, n, w) }
                        let o = st.mem.get_rc(id).unwrap();
                        let key = (Rc::as_ptr(&o) as usize, base, stride, cnt, w);
                        let start = lo.max(base);
                        let first = (start - base) / stride;
                        let ents = match self.tblcache.get(&key) { Some((_, t)) if first == 0 => t.clone(), _ => {
                            let size = o.bytes.len() as u64;
                            let mut v = Vec::with_capacity(cnt as usize);
                            for k in 0..cnt { let a = base + k * stride; v.push(if k >= first && a + n <= size { let x = o.load(a as usize, n as usize, w); self.ex(&x, w) } else { cst(w, 0) }) }
                            // unreachable low entries: repeat the first reachable one
                            if first > 0 { let f = v[first as usize]; for k in 0..first as usize { v[k] = f } }
                            let r = Rc::new(v);
                            if first == 0 { if self.tblcache.len() > 64 { self.tblcache.clear() } self.tblcache.insert(key, (o.clone(), r.clone())); }
                            r } };
                        Ok(norm(lookup((*ents).clone(), idx)))
                    }
                }
            }
            _ => eng("aggregate pointer"),
        }
    }
    pub fn store(&mut self, st: &mut State, p: &Val, n: u64, w: u32, v: &Val) -> R<()> {
        match p {
            Val::C(a) => self.store_c(st, *a, n, v),
            Val::E(e) => {
                match self.resolve(st, *e, n)? {
                    Ok(a) => self.store_c(st, a, n, v),
                    Err((id, off, lo, hi)) => {
                        let (base, stride, _idx, cnt) = Self::strided(off, lo, hi);
                        if cnt > 512 || stride < n { let a = self.concretize(st, *e)?; return self.store_c(st, a as u64, n, v) }
                        let start = lo.max(base);
                        let first = (start - base) / stride;
                        let nv = self.ex(v, w);
                        let size = st.mem.get(id).unwrap().bytes.len() as u64;
                        for k in first..cnt {
                            let a = base + k * stride; if a + n > size { break }
                            let old = self.load_c(st, (id << 32) + a, n, w)?;
                            let oe = self.ex(&old, w);
                            let c = eq(off, cst(32, a as u128));
                            let r = norm(ite(c, nv, oe));
                            self.store_c(st, (id << 32) + a, n, &r)?;
                        }
                        Ok(())
                    }
                }
            }
            _ => eng("aggregate pointer"),
        }
    }
    fn load_ty(&mut self, st: &mut State, p: &Val, t: TyId) -> R<Val> {
        match self.m.tys[t as usize].clone() {
            Ty::Int(w) => self.load(st, p, (w as u64 + 7) / 8, w),
            Ty::F32 => self.load(st, p, 4, 32),
            Ty::F64 | Ty::Ptr => self.load(st, p, 8, 64),
            Ty::Vector(n, e) if self.m.width(e) < 8 => {
                let tot = self.m.width(e) * n;
                let v = self.load(st, p, (tot as u64 + 7) / 8, tot)?;
                let ew = self.m.width(e);
                let x = self.ex(&v, tot);
                Ok(Val::A(Rc::new((0..n).map(|i| norm(extract(x, i * ew, ew))).collect())))
            }
            Ty::Struct { elems, offs, .. } => { let mut v = vec![]; for (i, e) in elems.iter().enumerate() { let q = self.padd(p, offs[i]); v.push(self.load_ty(st, &q, *e)?) } Ok(Val::A(Rc::new(v))) }
            Ty::Array(_, e) | Ty::Vector(_, e) => {
                let n = match self.m.tys[t as usize] { Ty::Array(n, _) => n, Ty::Vector(n, _) => n as u64, _ => 0 };
                let s = self.m.size_align(e).0; let mut v = vec![];
                for i in 0..n { let q = self.padd(p, i * s); v.push(self.load_ty(st, &q, e)?) }
                Ok(Val::A(Rc::new(v)))
            }
            o => eng(format!("load of {:?}", o)),
        }
    }
    fn store_ty(&mut self, st: &mut State, p: &Val, t: TyId, v: &Val) -> R<()> {
        match self.m.tys[t as usize].clone() {
            Ty::Int(w) => self.store(st, p, (w as u64 + 7) / 8, w, v),
            Ty::F32 => self.store(st, p, 4, 32, v),
            Ty::F64 | Ty::Ptr => self.store(st, p, 8, 64, v),
            Ty::Vector(n, e) if self.m.width(e) < 8 => {
                let ew = self.m.width(e);
                let a = match v { Val::A(a) => a.clone(), _ => return eng("vector store") };
                let ps: Vec<ExprId> = a.iter().map(|x| self.ex(x, ew)).collect();
                let tot = ew * n; let c = norm(concat(&ps));
                self.store(st, p, (tot as u64 + 7) / 8, tot, &c)
            }
            Ty::Struct { elems, offs, .. } => { let a = match v { Val::A(a) => a.clone(), _ => return eng("agg store") }; for (i, e) in elems.iter().enumerate() { let q = self.padd(p, offs[i]); self.store_ty(st, &q, *e, &a[i])? } Ok(()) }
            Ty::Array(_, e) | Ty::Vector(_, e) => { let a = match v { Val::A(a) => a.clone(), _ => return eng("agg store") }; let s = self.m.size_align(e).0; for (i, x) in a.iter().enumerate() { let q = self.padd(p, i as u64 * s); self.store_ty(st, &q, e, x)? } Ok(()) }
            o => eng(format!("store of {:?}", o)),
        }
    }
    fn padd(&self, p: &Val, k: u64) -> Val { match p { Val::C(a) => Val::C(a.wrapping_add(k)), Val::E(e) => norm(bin(BinOp::Add, *e, cst(64, k as u128))), _ => panic!() } }

    pub fn memcpy(&mut self, st: &mut State, d: &Val, s: &Val, n: &Val) -> R<()> {
        let n = self.cz(st, n)?;
        if n == 0 { return Ok(()) }
        let s = self.cz(st, s)?; let d = self.cz(st, d)?;
        let (sid, so) = (s >> 32, s & 0xffff_ffff);
        let (b, c) = match st.mem.get(sid) { Some(o) if so + n <= o.bytes.len() as u64 => o.cells(so as usize, n as usize), _ => return Err(self.bad(s, n, "copy from")) };
        let (did, dof) = (d >> 32, d & 0xffff_ffff);
        match st.mem.get_mut(did) { Some(o) if dof + n <= o.bytes.len() as u64 && !o.constant => { o.set_cells(dof as usize, &b, c.as_deref()); Ok(()) } _ => Err(self.bad(d, n, "copy to")) }
    }
    pub fn read_bytes(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<u8>> {
        let mut v = vec![];
        for k in 0..n { let x = self.load_c(st, a + k, 1, 8)?; v.push(self.cz(st, &x)? as u8) }
        Ok(v)
    }

    // ---------------------------------------------------------------- scalar operations
    pub fn binop(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask64(w);
            return Ok(Val::C(match op {
                BinOp::Add => x.wrapping_add(y) & m,
                BinOp::Sub => x.wrapping_sub(y) & m,
                BinOp::Mul => x.wrapping_mul(y) & m,
                BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                BinOp::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
                BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                BinOp::AShr => (sext64(x, w) >> y.min(63)) as u64 & m,
                BinOp::UDiv => { if y == 0 { return Err(Stop::Fail("division by zero".into())) } x / y }
                BinOp::URem => { if y == 0 { return Err(Stop::Fail("division by zero".into())) } x % y }
                BinOp::SDiv => { if y == 0 { return Err(Stop::Fail("division by zero".into())) } sext64(x, w).wrapping_div(sext64(y, w)) as u64 & m }
                BinOp::SRem => { if y == 0 { return Err(Stop::Fail("division by zero".into())) } sext64(x, w).wrapping_rem(sext64(y, w)) as u64 & m }
            }));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        Ok(norm(bin(op, x, y)))
    }
    pub fn icmp(&mut self, p: IPred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y); let (sx_, sy) = (sext64(x, w), sext64(y, w));
            return Val::C(match p { IPred::Eq => x == y, IPred::Ne => x != y, IPred::Ugt => x > y, IPred::Uge => x >= y, IPred::Ult => x < y, IPred::Ule => x <= y, IPred::Sgt => sx_ > sy, IPred::Sge => sx_ >= sy, IPred::Slt => sx_ < sy, IPred::Sle => sx_ <= sy } as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        norm(match p { IPred::Eq => eq(x, y), IPred::Ne => expr::not(eq(x, y)), IPred::Ugt => ult(y, x), IPred::Uge => expr::not(ult(x, y)), IPred::Ult => ult(x, y), IPred::Ule => expr::not(ult(y, x)), IPred::Sgt => slt(y, x), IPred::Sge => expr::not(slt(x, y)), IPred::Slt => slt(x, y), IPred::Sle => expr::not(slt(y, x)) })
    }
    fn fbinop(&mut self, op: FOp, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) { return Val::C(ffold(op, w, *x as u128, *y as u128) as u64) }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        norm(fbin(op, x, y))
    }
    fn cast(&mut self, op: CastOp, fw: u32, tw: u32, v: &Val) -> Val {
        if let Val::C(x) = v {
            let x = *x;
            if tw <= 64 {
                match op {
                    CastOp::Trunc => return Val::C(x & mask64(tw)),
                    CastOp::ZExt => return Val::C(x),
                    CastOp::SExt => return Val::C(sext64(x, fw) as u64 & mask64(tw)),
                    CastOp::PtrToInt | CastOp::IntToPtr => return Val::C(x & mask64(tw)),
                    CastOp::Bitcast => return Val::C(x),
                    _ => {}
                }
            }
        }
        let e = self.ex(v, fw);
        norm(match op {
            CastOp::Trunc => extract(e, 0, tw),
            CastOp::ZExt => zext(e, tw),
            CastOp::SExt => sext(e, tw),
            CastOp::PtrToInt | CastOp::IntToPtr => if tw <= fw { extract(e, 0, tw) } else { zext(e, tw) },
            CastOp::Bitcast => e,
            CastOp::FPTrunc | CastOp::FPExt => fconv(e, tw),
            CastOp::FPToUI => fto(false, e, tw),
            CastOp::FPToSI => fto(true, e, tw),
            CastOp::UIToFP => ffrom(false, e, tw),
            CastOp::SIToFP => ffrom(true, e, tw),
        })
    }
    fn select(&mut self, c: ExprId, t: TyId, a: &Val, b: &Val) -> R<Val> {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let mut v = vec![];
                for i in 0..x.len() { let (et, _) = self.m.elem(t, i); v.push(self.select(c, et, &x[i], &y[i])?) }
                Ok(Val::A(Rc::new(v)))
            }
            _ => { let w = self.m.width(t); let (x, y) = (self.ex(a, w), self.ex(b, w)); Ok(norm(ite(c, x, y))) }
        }
    }

    fn lanes_of(v: &Val) -> Rc<Vec<Val>> { match v { Val::A(a) => a.clone(), _ => panic!("vector expected") } }

    // ---------------------------------------------------------------- control
    fn enter(fr: &mut Frame, target: u32) {
        let from = fr.block;
        let f = fr.f.clone();
        let b = &f.blocks[target as usize];
        if !b.phis.is_empty() {
            let k = b.preds.iter().position(|p| *p == from).expect("phi predecessor");
            if b.phis.len() == 1 {
                let v = match &b.phis[0].1[k] { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::C(c) => c.clone() };
                fr.regs[b.phis[0].0 as usize] = v;
            } else {
                let vals: Vec<Val> = b.phis.iter().map(|(_, o)| match &o[k] { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::C(c) => c.clone() }).collect();
                for ((d, _), v) in b.phis.iter().zip(vals) { fr.regs[*d as usize] = v }
            }
        }
        fr.block = target;
        fr.ip = 0;
    }
    fn go(&mut self, st: &mut State, t: u32) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        Self::enter(fr, t);
        self.trail(st)
    }
    // in a speculative run, note the block just entered
    fn trail(&mut self, st: &State) -> R<()> {
        if let Some(ch) = &mut self.spec {
            let fr = st.frames.last().unwrap();
            if ch.len() >= 12 || ch.iter().any(|c| c.0 == fr.block) { return Err(Stop::Spec) }
            ch.push((fr.block, fr.f.blocks[fr.block as usize].phis.iter().map(|(d, _)| fr.regs[*d as usize].clone()).collect()));
        }
        Ok(())
    }
    fn dominates(&mut self, key: usize, f: &crate::ir::Func, d: u32, b: u32) -> bool {
        if let Some(x) = self.doms.get(&(key, d, b)) { return *x }
        let mut seen = vec![false; f.blocks.len()];
        let mut stack = vec![0u32];
        let mut r = true;
        while let Some(x) = stack.pop() {
            if x == d || seen[x as usize] { continue }
            seen[x as usize] = true;
            if x == b { r = false; break }
            match f.blocks[x as usize].insts.last().map(|i| &i.k) {
                Some(K::Br(t)) => stack.push(*t),
                Some(K::CondBr(_, t, e)) => { stack.push(*t); stack.push(*e) }
                Some(K::Switch(_, _, d, _, l)) => { stack.push(*d); stack.extend(l.iter().map(|y| y.1)) }
                Some(K::Invoke(_, n, u)) => { stack.push(*n); stack.push(*u) }
                _ => {}
            }
        }
        self.doms.insert((key, d, b), r);
        r
    }
    // a store in a speculative run, which can be taken back
    fn jstore(&mut self, st: &mut State, p: &Val, t: TyId, v: &Val) -> R<()> {
        let at = match (p, &self.m.tys[t as usize]) { (Val::C(a), Ty::Int(_) | Ty::F32 | Ty::F64) if self.journal.len() < 32 => *a, _ => return Err(Stop::Spec) };
        if !matches!(v, Val::C(_) | Val::E(_)) { return Err(Stop::Spec) }
        let old = self.load_ty(st, p, t)?;
        if !matches!(old, Val::C(_) | Val::E(_)) { return Err(Stop::Spec) }
        self.store_ty(st, p, t, v)?;
        let block = self.spec.as_ref().map_or(0, |s| s.len());
        self.journal.push(Write { at, ty: t, old, new: v.clone(), block });
        Ok(())
    }
    // A branch whose arms only compute values and meet again: both are executed, and what they
    // computed is selected by the condition, so that the path need not fork.
    fn merge(&mut self, st: &mut State, c: ExprId, t: u32, e: u32) -> R<bool> {
        if t == e || self.spec_depth >= 4 { return self.nomerged(1) }
        let key = { let fr = st.frames.last().unwrap(); (Rc::as_ptr(&fr.f) as usize, fr.block) };
        if self.nomerge.contains(&key) { return self.nomerged(2) }
        if self.spec.is_none() && self.in_fmt(st) { return self.nomerged(3) }
        let saved = self.spec.take();
        let left = self.spec_left;
        self.spec_depth += 1;
        let mut arms = vec![];
        let mut writes = vec![];
        let mut hard = true; // the arms end for a reason that does not depend on values
        for target in [t, e] {
            let mut fr = st.frames.last().unwrap().clone();
            fr.allocas = vec![];
            st.frames.push(fr);
            let depth = st.frames.len();
            self.spec = Some(vec![]);
            let mark = self.journal.len();
            self.spec_left = 400;
            let model = st.model.clone();
            let steps = st.steps;
            let r = match self.go(st, target) { Ok(()) => self.run(st), Err(x) => Err(x) };
            st.steps = steps; st.model = model;
            debug_assert!(st.frames.len() == depth);
            st.frames.truncate(depth - 1);
            let w = self.journal.split_off(mark);
            for x in w.iter().rev() { self.store_ty(st, &Val::C(x.at), x.ty, &x.old)? }
            writes.push(w);
            arms.push(self.spec.take().unwrap());
            if !matches!(r, Err(Stop::Spec)) { hard = false }
        }
        self.spec_depth -= 1;
        self.spec = saved;
        self.spec_left = left;
        // where they meet first
        let mut meet = None;
        for (i, (b, _)) in arms[0].iter().enumerate() { if let Some(j) = arms[1].iter().position(|x| x.0 == *b) { if meet.map_or(true, |(p, q): (usize, usize)| i + j < p + q) { meet = Some((i, j)) } } }
        let (i, j) = match meet { Some(x) => x, None => { let _ = hard; return self.nomerged(4) } };
        let f = st.frames.last().unwrap().f.clone();
        let b = arms[0][i].0;
        // a value an arm computes anew is dropped at the meeting point: nothing there may use it
        let key = Rc::as_ptr(&f) as usize;
        let over: Vec<u32> = arms[0][..i].iter().chain(arms[1][..j].iter()).map(|x| x.0).collect();
        for d in over { if self.dominates(key, &f, d, b) { return self.nomerged(5) } }
        let blk = &f.blocks[b as usize];
        let mut vals = vec![];
        for (k, t) in blk.phitys.iter().enumerate() {
            let (x, y) = (&arms[0][i].1[k], &arms[1][j].1[k]);
            if x == y { vals.push(x.clone()); continue }
            match (&self.m.tys[*t as usize], x, y) {
                (Ty::Ptr, _, _) => return self.nomerged(6),
                (Ty::Int(w), Val::C(_), Val::C(_)) if *w >= 32 => return self.nomerged(7),
                (Ty::Int(_) | Ty::F32 | Ty::F64, _, _) => {}
                _ => return self.nomerged(8),
            }
            let w = self.m.width(*t);
            let (x, y) = (self.ex(x, w), self.ex(y, w));
            vals.push(norm(ite(c, x, y)));
        }
        // what the arms stored before they meet
        let mut stores = vec![];
        for (arm, upto) in [(0, i), (1, j)] { for x in writes[arm].iter().filter(|x| x.block <= upto) {
            if let (Val::C(p), Val::C(q), w) = (&x.old, &x.new, self.m.width(x.ty)) { if p != q && w != 16 { if self.verbose && std::env::var("SYMIR_FORK").is_ok() { eprintln!("consts {} {} w {}", p, q, w); } return self.nomerged(9) } }
            stores.push((arm, x.clone()));
        } }
        if stores.len() > 16 || !stores.is_empty() && self.spec.as_ref().map_or(false, |_| self.journal.len() + stores.len() > 32) { return self.nomerged(10) }
        for (arm, x) in stores {
            let p = Val::C(x.at);
            let cur = self.load_ty(st, &p, x.ty)?;
            if cur == x.new { continue }
            let w = self.m.width(x.ty);
            let (n, o) = (self.ex(&x.new, w), self.ex(&cur, w));
            let v = norm(if arm == 0 { ite(c, n, o) } else { ite(c, o, n) });
            if self.spec.is_some() { self.jstore(st, &p, x.ty, &v)? } else { self.store_ty(st, &p, x.ty, &v)? }
        }
        self.merged += 1;
        let fr = st.frames.last_mut().unwrap();
        for ((d, _), v) in blk.phis.iter().zip(vals) { fr.regs[*d as usize] = v }
        fr.block = b;
        fr.ip = 0;
        self.trail(st)?;
        Ok(true)
    }
    fn nomerged(&self, k: u32) -> R<bool> { if self.verbose && std::env::var("SYMIR_FORK").is_ok() { eprintln!("nomerge {} depth {}", k, self.spec_depth) } Ok(false) }
    fn pop_frame(&mut self, st: &mut State) -> Frame { let f = st.frames.pop().unwrap(); for a in &f.allocas { st.mem.remove(*a >> 32); } f }
    // continue unwinding from the current top frame (which is being left)
    fn unwind(&mut self, st: &mut State, exc: Val) -> R<()> {
        loop {
            if st.frames.is_empty() { return Err(Stop::Fail("uncaught panic".into())) }
            let fr = self.pop_frame(st);
            if st.frames.is_empty() { return Err(Stop::Fail("uncaught panic".into())) }
            if let Some((_, u)) = fr.inv {
                let top = st.frames.last_mut().unwrap();
                Self::enter(top, u);
                top.landing = Some((exc, 0));
                return Ok(());
            }
        }
    }

    pub fn run(&mut self, st: &mut State) -> R<()> {
        let mut budget_check = 0u32;
        loop {
            let f = st.frames.last().unwrap().f.clone();
            if st.frames.len() > 4000 { return Err(Stop::Fail("stack overflow (recursion deeper than 4000 frames)".into())) }
            'frame: loop {
                let inst = { let fr = st.frames.last().unwrap(); &f.blocks[fr.block as usize].insts[fr.ip as usize] };
                st.steps += 1;
                budget_check += 1;
                if budget_check >= 1_000_000 {
                    budget_check = 0;
                    if st.steps > self.max_steps { return eng("instruction budget of a path exhausted") }
                    if let Some(d) = self.deadline { if Instant::now() > d { return eng("time budget exhausted") } }
                }
                if self.spec.is_some() {
                    if self.spec_left == 0 { return Err(Stop::Spec) }
                    self.spec_left -= 1;
                    match &inst.k {
                        K::Alloca(..) | K::Ret(..) | K::Unreachable | K::Resume(..) | K::LandingPad { .. } | K::AtomicRMW(..) | K::CmpXchg(..) | K::Invoke(..) | K::Switch(..) => return Err(Stop::Spec),
                        K::Call(ci) => {
                            let sym = match ci.callee_sym { Some(s) => s, None => return Err(Stop::Spec) };
                            let b = match self.builtin.get(&sym) { Some(b) => *b, None => { let b = self.classify(sym); self.builtin.insert(sym, b); b } };
                            if matches!(b, B::None | B::Ext(_) | B::Memcpy | B::Memset | B::Trap) { return Err(Stop::Spec) }
                        }
                        _ => {}
                    }
                }
                macro_rules! g { ($o:expr) => { match $o { Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Opd::C(c) => c.clone() } } }
                macro_rules! set { ($v:expr) => {{ let v = $v; let fr = st.frames.last_mut().unwrap(); fr.regs[inst.dst as usize] = v; fr.ip += 1; }} }
                match &inst.k {
                    K::Bin(op, w, n, a, b) => {
                        let (x, y) = (g!(a), g!(b));
                        if *n == 0 {
                            if let (BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem, Val::E(d)) = (op, &y) {
                                let z = eq(*d, cst(*w, 0));
                                if !is_const(z) { if self.decide(st, z)? { return Err(Stop::Fail("division by zero".into())) } }
                            }
                            let r = self.binop(*op, *w, &x, &y)?; set!(r)
                        } else {
                            let (p, q) = (Self::lanes_of(&x), Self::lanes_of(&y));
                            let mut v = Vec::with_capacity(*n as usize);
                            for i in 0..*n as usize { v.push(self.binop(*op, *w, &p[i], &q[i])?) }
                            set!(Val::A(Rc::new(v)))
                        }
                    }
                    K::ICmp(p, w, n, a, b) => {
                        let (x, y) = (g!(a), g!(b));
                        if *n == 0 { let r = self.icmp(*p, *w, &x, &y); set!(r) } else {
                            let (u, q) = (Self::lanes_of(&x), Self::lanes_of(&y));
                            let v: Vec<Val> = (0..*n as usize).map(|i| self.icmp(*p, *w, &u[i], &q[i])).collect();
                            set!(Val::A(Rc::new(v)))
                        }
                    }
                    K::FBin(op, d, n, a, b) => {
                        let w = if *d { 64 } else { 32 };
                        let (x, y) = (g!(a), g!(b));
                        if *n == 0 { let r = self.fbinop(*op, w, &x, &y); set!(r) } else {
                            let (u, q) = (Self::lanes_of(&x), Self::lanes_of(&y));
                            let v: Vec<Val> = (0..*n as usize).map(|i| self.fbinop(*op, w, &u[i], &q[i])).collect();
                            set!(Val::A(Rc::new(v)))
                        }
                    }
                    K::FNeg(d, n, a) => {
                        let w = if *d { 64 } else { 32 };
                        let s = Val::C(1u64 << (w - 1));
                        let x = g!(a);
                        if *n == 0 { let r = self.binop(BinOp::Xor, w, &x, &s)?; set!(r) } else { let u = Self::lanes_of(&x); let mut v = vec![]; for l in u.iter() { v.push(self.binop(BinOp::Xor, w, l, &s)?) } set!(Val::A(Rc::new(v))) }
                    }
                    K::FCmp(p, d, n, a, b) => {
                        let w = if *d { 64 } else { 32 };
                        let (x, y) = (g!(a), g!(b));
                        let mut one = |x: &Val, y: &Val| -> Val { if let (Val::C(a), Val::C(b)) = (x, y) { return Val::C(fcmpfold(*p, w, *a as u128, *b as u128) as u64) } norm(fcmp(*p, self.ex(x, w), self.ex(y, w))) };
                        let r = if *n == 0 { one(&x, &y) } else { let (u, q) = (Self::lanes_of(&x), Self::lanes_of(&y)); Val::A(Rc::new((0..*n as usize).map(|i| one(&u[i], &q[i])).collect())) };
                        set!(r)
                    }
                    K::Cast(op, ft, tt, a) => {
                        let x = g!(a);
                        let r = match &x {
                            Val::A(l) if *op != CastOp::Bitcast => { let (fw, tw) = (self.m.width(*ft), self.m.width(*tt)); let l = l.clone(); Val::A(Rc::new(l.iter().map(|v| self.cast(*op, fw, tw, v)).collect())) }
                            _ if *op == CastOp::Bitcast && (self.m.lanes(*ft) != 0 || self.m.lanes(*tt) != 0) => self.bitcast(*ft, *tt, &x),
                            _ => { let (fw, tw) = (self.m.width(*ft), self.m.width(*tt)); self.cast(*op, fw, tw, &x) }
                        };
                        set!(r)
                    }
                    K::Select(n, t, c, a, b) => {
                        let cv = g!(c);
                        if *n == 0 {
                            match cv {
                                Val::C(1) => { let v = g!(a); set!(v) }
                                Val::C(_) => { let v = g!(b); set!(v) }
                                Val::E(e) => { let (x, y) = (g!(a), g!(b)); let r = self.select(e, *t, &x, &y)?; set!(r) }
                                _ => return eng("select"),
                            }
                        } else {
                            let (cc, x, y) = (Self::lanes_of(&cv), Self::lanes_of(&g!(a)), Self::lanes_of(&g!(b)));
                            let (et, _) = self.m.elem(*t, 0);
                            let mut v = vec![];
                            for i in 0..*n as usize { v.push(match &cc[i] { Val::C(1) => x[i].clone(), Val::C(_) => y[i].clone(), Val::E(e) => self.select(*e, et, &x[i], &y[i])?, _ => return eng("select") }) }
                            set!(Val::A(Rc::new(v)))
                        }
                    }
                    K::Copy(a) => { let v = g!(a); set!(v) }
                    K::Load(t, p) => { let pv = g!(p); let r = self.load_ty(st, &pv, *t)?; set!(r) }
                    K::Store(t, v, p) => { let pv = g!(p); let mut vv = g!(v); if let Val::E(e) = &vv { if width(*e) == 16 { vv = Val::E(self.forms.norm(*e)) } } if self.spec.is_some() { self.jstore(st, &pv, *t, &vv)? } else { self.store_ty(st, &pv, *t, &vv)? } st.frames.last_mut().unwrap().ip += 1; }
                    K::Gep { base, off, terms } => {
                        let b = g!(base);
                        let mut r = match b { Val::C(x) => Val::C(x.wrapping_add(*off)), Val::E(_) => self.padd(&b, *off), _ => return eng("gep") };
                        for (o, iw, sc) in terms {
                            let i = g!(o);
                            r = match (&r, &i) {
                                (Val::C(x), Val::C(k)) => Val::C(x.wrapping_add((sext64(*k, *iw) as u64).wrapping_mul(*sc))),
                                _ => {
                                    let ie = self.ex(&i, *iw);
                                    let ie = if *iw < 64 { sext(ie, 64) } else { ie };
                                    let t = bin(BinOp::Mul, ie, cst(64, *sc as u128));
                                    let re = self.ex(&r, 64);
                                    norm(bin(BinOp::Add, t, re))
                                }
                            };
                        }
                        set!(r)
                    }
                    K::Alloca(sz, _) => { let a = st.mem.alloc(*sz, false); st.frames.last_mut().unwrap().allocas.push(a); set!(Val::C(a)) }
                    K::ExtractValue(a, ix) => { let mut v = g!(a); for i in ix { v = match &v { Val::A(l) => l[*i as usize].clone(), _ => return eng("extractvalue") } } set!(v) }
                    K::InsertValue(t, a, _, v, ix) => {
                        let a = g!(a); let v = g!(v);
                        let _ = t;
                        fn ins(a: &Val, v: &Val, ix: &[u32]) -> Val { if ix.is_empty() { return v.clone() } match a { Val::A(l) => { let mut n = (**l).clone(); n[ix[0] as usize] = ins(&l[ix[0] as usize], v, &ix[1..]); Val::A(Rc::new(n)) } _ => panic!("insertvalue") } }
                        set!(ins(&a, &v, ix))
                    }
                    K::ExtractElement(a, i) => { let l = Self::lanes_of(&g!(a)); let iv = g!(i); let i = self.cz(st, &iv)?; set!(l[i as usize].clone()) }
                    K::InsertElement(a, v, i) => { let l = Self::lanes_of(&g!(a)); let iv = g!(i); let i = self.cz(st, &iv)?; let mut n = (*l).clone(); n[i as usize] = g!(v); set!(Val::A(Rc::new(n))) }
                    K::Shuffle(n, a, b, mask) => {
                        let (x, y) = (Self::lanes_of(&g!(a)), Self::lanes_of(&g!(b)));
                        let v = mask.iter().map(|&k| if k < 0 { Val::C(0) } else if (k as u32) < *n { x[k as usize].clone() } else { y[k as usize - *n as usize].clone() }).collect();
                        set!(Val::A(Rc::new(v)))
                    }
                    K::Br(t) => self.go(st, *t)?,
                    K::CondBr(c, t, e) => {
                        let c = g!(c);
                        let b = match c { Val::C(x) => x != 0, Val::E(x) => { if self.merge(st, x, *t, *e)? { continue } self.decide(st, x)? } _ => return eng("br") };
                        self.go(st, if b { *t } else { *e })?;
                    }
                    K::Switch(w, v, d, map, list) => {
                        let v = g!(v);
                        match v {
                            Val::C(x) => { let t = *map.get(&x).unwrap_or(d); Self::enter(st.frames.last_mut().unwrap(), t) }
                            Val::E(e) => {
                                // group the cases by target to keep the number of paths small
                                let mut target = None;
                                let mut groups: Vec<(u32, ExprId)> = vec![];
                                for (k, t) in list.iter() { let c = eq(e, cst(*w, *k as u128)); if c == fls() { continue } match groups.iter_mut().find(|g| g.0 == *t) { Some(g) => g.1 = or1(g.1, c), None => groups.push((*t, c)) } }
                                for (t, c) in groups { if t == *d { continue } if self.decide(st, c)? { target = Some(t); break } }
                                Self::enter(st.frames.last_mut().unwrap(), target.unwrap_or(*d));
                            }
                            _ => return eng("switch"),
                        }
                    }
                    K::Ret(o) => {
                        let v = o.as_ref().map(|o| g!(o));
                        let fr = self.pop_frame(st);
                        if st.frames.is_empty() { return Err(Stop::Done("returned".into())) }
                        let top = st.frames.last_mut().unwrap();
                        if let (Some(v), true) = (v, fr.ret_dst != NODST) { top.regs[fr.ret_dst as usize] = v }
                        match fr.inv { Some((n, _)) => Self::enter(top, n), None => top.ip += 1 }
                        break 'frame;
                    }
                    K::Unreachable => return Err(Stop::Fail("reached code the compiler assumed unreachable".into())),
                    K::Resume(o) => {
                        let v = g!(o);
                        let exc = match &v { Val::A(l) => l[0].clone(), _ => return eng("resume") };
                        self.unwind(st, exc)?;
                        break 'frame;
                    }
                    K::LandingPad { cleanup: _, catch_all, filter } => {
                        let (exc, _) = st.frames.last_mut().unwrap().landing.take().unwrap();
                        let sel = if *filter { 0xffff_ffffu64 } else if *catch_all { 1 } else { 0 };
                        set!(Val::A(Rc::new(vec![exc, Val::C(sel)])))
                    }
                    K::Nop => st.frames.last_mut().unwrap().ip += 1,
                    K::AtomicRMW(op, t, p, v) => {
                        let pv = g!(p); let nv = g!(v);
                        let old = self.load_ty(st, &pv, *t)?;
                        let w = self.m.width(*t);
                        let r = match op.as_str() {
                            "xchg" => nv,
                            "add" => self.binop(BinOp::Add, w, &old, &nv)?, "sub" => self.binop(BinOp::Sub, w, &old, &nv)?,
                            "and" => self.binop(BinOp::And, w, &old, &nv)?, "or" => self.binop(BinOp::Or, w, &old, &nv)?, "xor" => self.binop(BinOp::Xor, w, &old, &nv)?,
                            "umax" => { let c = self.icmp(IPred::Ugt, w, &old, &nv); if c == Val::C(1) { old.clone() } else { nv } }
                            "umin" => { let c = self.icmp(IPred::Ult, w, &old, &nv); if c == Val::C(1) { old.clone() } else { nv } }
                            o => return eng(format!("atomicrmw {}", o)),
                        };
                        self.store_ty(st, &pv, *t, &r)?;
                        set!(old)
                    }
                    K::CmpXchg(t, p, c, n) => {
                        let pv = g!(p); let (cv, nv) = (g!(c), g!(n));
                        let old = self.load_ty(st, &pv, *t)?;
                        let w = self.m.width(*t);
                        let e = self.icmp(IPred::Eq, w, &old, &cv);
                        let ok = match e { Val::C(x) => x != 0, Val::E(x) => self.decide(st, x)?, _ => false };
                        if ok { self.store_ty(st, &pv, *t, &nv)? }
                        set!(Val::A(Rc::new(vec![old, Val::C(ok as u64)])))
                    }
                    K::Call(ci) | K::Invoke(ci, _, _) => {
                        let inv = match &inst.k { K::Invoke(_, n, u) => Some((*n, *u)), _ => None };
                        let sym = match ci.callee_sym { Some(s) => s, None => {
                            let cv = g!(&ci.callee);
                            let a = self.cz(st, &cv)?;
                            match addr_sym(a) { Some(s) if (s as usize) < self.m.syms.len() => s, _ => return Err(Stop::Fail(format!("call through invalid pointer {:#x}", a))) }
                        } };
                        let args: Vec<Val> = ci.args.iter().map(|(_, o)| g!(o)).collect();
                        let b = match self.builtin.get(&sym) { Some(b) => *b, None => { let b = self.classify(sym); self.builtin.insert(sym, b); b } };
                        if b != B::None {
                            match self.call_builtin(st, b, sym, ci, &args)? {
                                Ret::Val(v) => {
                                    let fr = st.frames.last_mut().unwrap();
                                    if inst.dst != NODST { fr.regs[inst.dst as usize] = v }
                                    match inv { Some((n, _)) => Self::enter(fr, n), None => fr.ip += 1 }
                                }
                                Ret::Unwind(exc) => {
                                    // the builtin raised: the current instruction unwinds
                                    if let Some((_, u)) = inv { let fr = st.frames.last_mut().unwrap(); Self::enter(fr, u); fr.landing = Some((exc, 0)); } else { self.unwind(st, exc)?; break 'frame }
                                }
                                Ret::Call => { self.call_function(st, sym, &args, inst.dst, inv)?; break 'frame }
                            }
                        } else {
                            self.call_function(st, sym, &args, inst.dst, inv)?;
                            break 'frame;
                        }
                    }
                }
            }
        }
    }
    fn call_function(&mut self, st: &mut State, sym: u32, args: &[Val], dst: u32, inv: Option<(u32, u32)>) -> R<()> {
        let f = match self.m.func_of_sym.get(&sym) { Some(i) => self.m.funcs[*i].clone(), None => return eng(format!("call of external function {}", self.m.syms[sym as usize])) };
        self.funcs_seen.insert(sym);
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (i, a) in args.iter().enumerate().take(f.nparams) { regs[i] = a.clone() }
        st.frames.push(Frame { f, block: 0, ip: 0, regs, allocas: vec![], ret_dst: dst, inv, landing: None });
        Ok(())
    }
    fn bitcast(&mut self, ft: TyId, tt: TyId, v: &Val) -> Val {
        // through the concatenated bits
        let fw = self.m.width(ft); let fl = self.m.lanes(ft);
        let e = if fl == 0 { self.ex(v, fw) } else { let l = Self::lanes_of(v); let ps: Vec<ExprId> = l.iter().map(|x| self.ex(x, fw)).collect(); concat(&ps) };
        let tl = self.m.lanes(tt); let tw = self.m.width(tt);
        if tl == 0 { norm(e) } else { Val::A(Rc::new((0..tl).map(|i| norm(extract(e, i * tw, tw))).collect())) }
    }
}
pub enum Ret { Val(Val), Unwind(Val), Call }

fn tzeros(e: ExprId) -> u32 { match node(e) { N::Concat(ps) => match as_const(ps[0]) { Some(0) => width(ps[0]), Some(v) => v.trailing_zeros(), None => 0 }, N::Const(v) => v.trailing_zeros().min(31), _ => 0 } }

fn find_ptr_ite(p: ExprId) -> Option<ExprId> {
    match node(p) {
        N::Ite(c, _, _) => Some(*c),
        N::Bin(BinOp::Add, a, b) => find_ptr_ite(*a).or_else(|| find_ptr_ite(*b)),
        N::Concat(ps) => { for x in ps.iter() { if let Some(c) = find_ptr_ite(*x) { return Some(c) } } None }
        N::Extract(x, _) => find_ptr_ite(*x),
        _ => None,
    }
}
fn assume_in(p: ExprId, c: ExprId, v: bool) -> ExprId {
    match node(p).clone() {
        N::Ite(c2, a, b) if c2 == c => assume_in(if v { a } else { b }, c, v),
        N::Bin(BinOp::Add, a, b) => bin(BinOp::Add, assume_in(a, c, v), assume_in(b, c, v)),
        N::Concat(ps) => { let q: Vec<ExprId> = ps.iter().map(|x| assume_in(*x, c, v)).collect(); concat(&q) }
        N::Extract(x, lo) => extract(assume_in(x, c, v), lo, width(p)),
        _ => p,
    }
}

fn init_const(m: &Module, t: TyId, c: &Const, o: &mut Obj, off: usize) {
    match c {
        Const::Zero | Const::Undef => {}
        Const::Bytes(b) => o.bytes[off..off + b.len()].copy_from_slice(b),
        Const::V(v) => { let n = match &m.tys[t as usize] { Ty::Int(w) => ((*w as usize) + 7) / 8, Ty::F32 => 4, _ => 8 }; o.store(off, n, v) }
        Const::Agg(v) => { for (i, (et, ec)) in v.iter().enumerate() { let (_, eo) = m.elem(t, i); init_const(m, *et, ec, o, off + eo as usize) } }
    }
}
pub fn short(n: &str) -> String {
    // crude v0 demangling: identifiers longer than 2 characters
    let b = n.as_bytes(); let mut i = 0; let mut out: Vec<String> = vec![];
    if !n.starts_with("_R") { return n.to_string() }
    while i < b.len() {
        if b[i].is_ascii_digit() && i > 0 && !b[i - 1].is_ascii_digit() {
            let mut j = i; let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() { k = k * 10 + (b[j] - b'0') as usize; j += 1 }
            if j < b.len() && b[j] == b'_' { j += 1 }
            if k >= 2 && j + k <= b.len() && b[j..j + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') { out.push(n[j..j + k].to_string()); i = j + k; continue }
        }
        i += 1;
    }
    let l = out.len();
    out[l.saturating_sub(3)..].join("::")
}
