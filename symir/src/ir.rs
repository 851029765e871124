// In-memory form of the LLVM IR of the checked program, and the parser of its text form.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
pub type ExprId = u32;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    C(u64),          // concrete, width <= 64 bits (floats and pointers as bits)
    E(ExprId),       // expression (symbolic, or any value wider than 64 bits)
    A(Rc<Vec<Val>>), // aggregate or vector
}

#[derive(Clone, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Struct { elems: Vec<TyId>, offs: Vec<u64>, size: u64, align: u64 },
    Array(u64, TyId),
    Vector(u32, TyId),
    Other,
}

#[derive(Clone, Debug)]
pub enum Const {
    V(Val),
    Zero,
    Undef,
    Bytes(Vec<u8>),
    Agg(Vec<(TyId, Const)>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FOp { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum IPred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CastOp { Trunc, ZExt, SExt, FPTrunc, FPExt, FPToUI, FPToSI, UIToFP, SIToFP, PtrToInt, IntToPtr, Bitcast }

// fcmp predicate as 4 bits: bit0 eq, bit1 gt, bit2 lt, bit3 unordered
pub type FPred = u8;

#[derive(Clone, Debug)]
pub struct CallInfo {
    pub callee: Opd,
    pub callee_sym: Option<u32>, // symbol index when direct
    pub args: Vec<(TyId, Opd)>,
    pub ret: TyId,
}

#[derive(Clone, Debug)]
pub enum K {
    Bin(BinOp, u32, u32, Opd, Opd), // op, width, lanes (0 scalar)
    FBin(FOp, bool, u32, Opd, Opd), // is64
    FNeg(bool, u32, Opd),
    ICmp(IPred, u32, u32, Opd, Opd),
    FCmp(FPred, bool, u32, Opd, Opd),
    Cast(CastOp, TyId, TyId, Opd),
    Select(u32, TyId, Opd, Opd, Opd), // lanes of the condition
    Load(TyId, Opd),
    Store(TyId, Opd, Opd),
    Gep { base: Opd, off: u64, terms: Vec<(Opd, u32, u64)> },
    Alloca(u64, u64),
    Call(Box<CallInfo>),
    Invoke(Box<CallInfo>, u32, u32),
    ExtractValue(Opd, Vec<u32>),
    InsertValue(TyId, Opd, TyId, Opd, Vec<u32>),
    ExtractElement(Opd, Opd),
    InsertElement(Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<i64>), // lanes of the inputs
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Rc<HashMap<u64, u32>>, Rc<Vec<(u64, u32)>>),
    Ret(Option<Opd>),
    Unreachable,
    Resume(Opd),
    LandingPad { cleanup: bool, catch_all: bool, filter: bool },
    AtomicRMW(String, TyId, Opd, Opd),
    CmpXchg(TyId, Opd, Opd, Opd),
    Nop,
    Copy(Opd),
}

#[derive(Clone, Debug)]
pub struct Inst { pub dst: u32, pub k: K }
pub const NODST: u32 = u32::MAX;

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub preds: Vec<u32>,
    pub phis: Vec<(u32, Vec<Opd>)>,
    pub phitys: Vec<TyId>,
    pub insts: Vec<Inst>,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub sym: u32,
    pub nparams: usize,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct Global { pub sym: u32, pub ty: TyId, pub init: Option<Const>, pub constant: bool }

#[derive(Default)]
pub struct Module {
    pub tys: Vec<Ty>,
    pub tymap: HashMap<String, TyId>,
    pub named: HashMap<String, TyId>,
    pub syms: Vec<String>,
    pub symmap: HashMap<String, u32>,
    pub weak: Vec<String>,
    pub funcs: Vec<Rc<Func>>,
    pub func_of_sym: HashMap<u32, usize>,
    pub globals: Vec<Global>,
    pub aliases: Vec<(u32, Const)>,
}

// Every object owns the 4 GiB address window (id << 32).  Symbols come first.
pub const SYM_BASE: u64 = 16;
pub fn sym_addr(sym: u32) -> u64 { (SYM_BASE + sym as u64) << 32 }
pub fn addr_sym(addr: u64) -> Option<u32> {
    if addr & 0xffff_ffff != 0 { return None }
    let id = addr >> 32;
    if id >= SYM_BASE { Some((id - SYM_BASE) as u32) } else { None }
}

impl Module {
    pub fn sym(&mut self, n: &str) -> u32 {
        if let Some(&i) = self.symmap.get(n) { return i }
        let i = self.syms.len() as u32;
        self.syms.push(n.to_string());
        self.symmap.insert(n.to_string(), i);
        i
    }
    fn intern(&mut self, key: String, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&key) { return i }
        let i = self.tys.len() as TyId;
        self.tys.push(t);
        self.tymap.insert(key, i);
        i
    }
    pub fn int_ty(&mut self, w: u32) -> TyId { self.intern(format!("i{}", w), Ty::Int(w)) }
    pub fn size_align(&self, t: TyId) -> (u64, u64) {
        match &self.tys[t as usize] {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = if b <= 1 { 1 } else if b <= 2 { 2 } else if b <= 4 { 4 } else if b <= 8 { 8 } else { 16 };
                ((b + a - 1) / a * a, a)
            }
            Ty::F32 => (4, 4),
            Ty::F64 => (8, 8),
            Ty::Ptr => (8, 8),
            Ty::Struct { size, align, .. } => (*size, *align),
            Ty::Array(n, e) => { let (s, a) = self.size_align(*e); (s * n, a) }
            Ty::Vector(n, e) => {
                let s = match &self.tys[*e as usize] { Ty::Int(w) => ((*w as u64) * (*n as u64) + 7) / 8, _ => self.size_align(*e).0 * (*n as u64) };
                (s, s.next_power_of_two().max(1))
            }
        }
    }
    pub fn width(&self, t: TyId) -> u32 {
        match &self.tys[t as usize] {
            Ty::Int(w) => *w, Ty::F32 => 32, Ty::F64 => 64, Ty::Ptr => 64,
            Ty::Vector(_, e) => self.width(*e),
            o => panic!("width of {:?}", o),
        }
    }
    pub fn lanes(&self, t: TyId) -> u32 { match &self.tys[t as usize] { Ty::Vector(n, _) => *n, _ => 0 } }
    pub fn elem(&self, t: TyId, i: usize) -> (TyId, u64) {
        match &self.tys[t as usize] {
            Ty::Struct { elems, offs, .. } => (elems[i], offs[i]),
            Ty::Array(_, e) => (*e, self.size_align(*e).0 * i as u64),
            Ty::Vector(_, e) => (*e, self.size_align(*e).0 * i as u64),
            o => panic!("elem of {:?}", o),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Word(&'a str), Local(&'a str), Global(&'a str), Num(&'a str), Str(Vec<u8>), Meta, Attr, P(u8), Label(&'a str), Eof,
}

pub struct Parser<'a> {
    s: &'a [u8],
    pos: usize,
    tok: Tok<'a>,
    pub m: Module,
}

fn idch(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Parser<'a> {
    pub fn new(text: &'a str) -> Parser<'a> {
        let mut p = Parser { s: text.as_bytes(), pos: 0, tok: Tok::Eof, m: Module::default() };
        p.m.intern("void".into(), Ty::Void);
        p
    }
    fn st(&self, a: usize, b: usize) -> &'a str { std::str::from_utf8(&self.s[a..b]).unwrap() }
    fn skip_line(&mut self) { while self.pos < self.s.len() && self.s[self.pos] != b'\n' { self.pos += 1 } }
    fn quoted(&mut self) -> (usize, usize) {
        // at opening quote
        let a = self.pos + 1;
        let mut i = a;
        while self.s[i] != b'"' { i += 1 }
        self.pos = i + 1;
        (a, i)
    }
    fn lex(&mut self) -> Tok<'a> {
        let s = self.s;
        loop {
            if self.pos >= s.len() { return Tok::Eof }
            let c = s[self.pos];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' { self.pos += 1; continue }
            if c == b';' { self.skip_line(); continue }
            if c == b'/' && s.get(self.pos + 1) == Some(&b'*') { while self.pos < s.len() && !s[self.pos..].starts_with(b"*/") { self.pos += 1 } self.pos += 2; continue }
            break;
        }
        let c = s[self.pos];
        match c {
            b'%' | b'@' => {
                self.pos += 1;
                let (a, b) = if s[self.pos] == b'"' { self.quoted() } else {
                    let a = self.pos;
                    while self.pos < s.len() && idch(s[self.pos]) { self.pos += 1 }
                    (a, self.pos)
                };
                let t = self.st(a, b);
                if c == b'%' { Tok::Local(t) } else { Tok::Global(t) }
            }
            b'!' => {
                self.pos += 1;
                if self.pos < s.len() && s[self.pos] == b'{' { return Tok::Meta }
                if self.pos < s.len() && s[self.pos] == b'"' { self.quoted(); return Tok::Meta }
                while self.pos < s.len() && idch(s[self.pos]) { self.pos += 1 }
                if self.pos < s.len() && s[self.pos] == b'(' {
                    // !DIFoo(...)
                    let mut d = 0;
                    loop { match s[self.pos] { b'(' => d += 1, b')' => { d -= 1 } , _ => {} } self.pos += 1; if d == 0 { break } }
                }
                Tok::Meta
            }
            b'#' => { self.pos += 1; while self.pos < s.len() && idch(s[self.pos]) { self.pos += 1 } Tok::Attr }
            b'"' => {
                let (a, b) = self.quoted();
                if self.pos < s.len() && s[self.pos] == b':' { self.pos += 1; return Tok::Label(self.st(a, b)) }
                Tok::Str(unescape(&s[a..b]))
            }
            b'c' if s[self.pos + 1] == b'"' => { self.pos += 1; let (a, b) = self.quoted(); Tok::Str(unescape(&s[a..b])) }
            _ if idch(c) || c == b'+' => {
                let a = self.pos;
                self.pos += 1;
                while self.pos < s.len() && (idch(s[self.pos]) || (s[self.pos] == b'+' && s[self.pos - 1] == b'e')) { self.pos += 1 }
                if self.pos < s.len() && s[self.pos] == b':' { let t = self.st(a, self.pos); self.pos += 1; return Tok::Label(t) }
                let t = self.st(a, self.pos);
                if c.is_ascii_digit() || c == b'-' || c == b'+' || t.starts_with("f0x") { Tok::Num(t) } else { Tok::Word(t) }
            }
            _ => { self.pos += 1; Tok::P(c) }
        }
    }
    fn adv(&mut self) { self.tok = self.lex(); }
    fn ctx(&self) -> String {
        let a = self.pos.saturating_sub(160); let b = (self.pos + 80).min(self.s.len());
        String::from_utf8_lossy(&self.s[a..b]).to_string()
    }
    fn exp(&mut self, c: u8) { if self.tok != Tok::P(c) { panic!("expected {:?} got {:?} near\n{}", c as char, self.tok, self.ctx()) } self.adv(); }
    fn expw(&mut self, w: &str) { if self.tok != Tok::Word(w) { panic!("expected {:?} got {:?} near\n{}", w, self.tok, self.ctx()) } self.adv(); }
    fn isw(&self, w: &str) -> bool { matches!(&self.tok, Tok::Word(x) if *x == w) }
    fn isp(&self, c: u8) -> bool { self.tok == Tok::P(c) }
    fn balanced(&mut self) {
        // at '(' / '[' / '{' : skip to the matching one
        let mut d = 0;
        loop {
            match &self.tok { Tok::P(b'(') | Tok::P(b'[') | Tok::P(b'{') => d += 1, Tok::P(b')') | Tok::P(b']') | Tok::P(b'}') => d -= 1, Tok::Eof => panic!("eof"), _ => {} }
            self.adv();
            if d == 0 { return }
        }
    }
    fn is_type_start(&self) -> bool {
        match &self.tok {
            Tok::Word(w) => matches!(*w, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "fp128" | "x86_fp80")
                || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit())),
            Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => true,
            Tok::Local(_) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> TyId {
        let t = match self.tok.clone() {
            Tok::Word("void") => { self.adv(); self.m.intern("void".into(), Ty::Void) }
            Tok::Word("ptr") => { self.adv(); if self.isw("addrspace") { self.adv(); self.balanced(); } self.m.intern("ptr".into(), Ty::Ptr) }
            Tok::Word("float") => { self.adv(); self.m.intern("float".into(), Ty::F32) }
            Tok::Word("double") => { self.adv(); self.m.intern("double".into(), Ty::F64) }
            Tok::Word(w) if w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()) => { let n: u32 = w[1..].parse().unwrap(); self.adv(); self.m.int_ty(n) }
            Tok::Word(_) => { self.adv(); self.m.intern("other".into(), Ty::Other) }
            Tok::Local(n) => { self.adv(); *self.m.named.get(n).unwrap_or_else(|| panic!("unknown type {}", n)) }
            Tok::P(b'[') => {
                self.adv();
                let n = self.num_u64();
                self.expw("x");
                let e = self.ty();
                self.exp(b']');
                self.m.intern(format!("[{}x{}]", n, e), Ty::Array(n, e))
            }
            Tok::P(b'<') => {
                self.adv();
                if self.isp(b'{') { self.adv(); let t = self.struct_body(true); self.exp(b'>'); t } else {
                    let n = self.num_u64();
                    self.expw("x");
                    let e = self.ty();
                    self.exp(b'>');
                    self.m.intern(format!("<{}x{}>", n, e), Ty::Vector(n as u32, e))
                }
            }
            Tok::P(b'{') => { self.adv(); self.struct_body(false) }
            t => panic!("type? {:?} near\n{}", t, self.ctx()),
        };
        t
    }
    fn struct_body(&mut self, packed: bool) -> TyId {
        let mut el = vec![];
        while !self.isp(b'}') { el.push(self.ty()); if self.isp(b',') { self.adv() } }
        self.adv();
        let mut off = 0; let mut al = 1; let mut offs = vec![];
        for &e in &el {
            let (s, a) = self.m.size_align(e);
            if !packed { off = (off + a - 1) / a * a; al = al.max(a); }
            offs.push(off); off += s;
        }
        if !packed { off = (off + al - 1) / al * al }
        self.m.intern(format!("{}{:?}", if packed { "P" } else { "S" }, el), Ty::Struct { elems: el, offs, size: off, align: al })
    }
    fn num_u64(&mut self) -> u64 { match &self.tok { Tok::Num(n) => { let v = n.parse::<u64>().unwrap(); self.adv(); v } t => panic!("num? {:?} near\n{}", t, self.ctx()) } }

    fn int_val(&self, w: u32, v: i128) -> Val {
        if w <= 64 { Val::C((v as u64) & crate::expr::mask64(w)) } else { Val::E(crate::expr::cst(w, v as u128)) }
    }
    fn fconst(&self, is64: bool, n: &str) -> u64 {
        if let Some(h) = n.strip_prefix("f0x") { return u64::from_str_radix(h, 16).unwrap() }
        if let Some(h) = n.strip_prefix("0x") {
            let d = u64::from_str_radix(h, 16).unwrap();
            return if is64 { d } else { (f64::from_bits(d) as f32).to_bits() as u64 };
        }
        let neg = n.starts_with('-');
        let body = n.trim_start_matches(|c| c == '+' || c == '-');
        let v: f64 = if body.starts_with("inf") { f64::INFINITY } else if body.contains("nan") { f64::NAN } else {
            if is64 { return n.parse::<f64>().unwrap().to_bits() } else { return n.parse::<f32>().unwrap().to_bits() as u64 }
        };
        let v = if neg { -v } else { v };
        if is64 { v.to_bits() } else if body.contains("nan") { 0x7fc00000 | if neg { 0x80000000 } else { 0 } } else { (v as f32).to_bits() as u64 }
    }
    // constant of type t (current token begins the value)
    fn constant(&mut self, t: TyId) -> Const {
        match self.tok.clone() {
            Tok::Num(n) => {
                self.adv();
                match self.m.tys[t as usize].clone() {
                    Ty::Int(w) => Const::V(self.int_val(w, n.parse::<i128>().unwrap())),
                    Ty::F32 => { if self.isp(b'(') { self.balanced() } Const::V(Val::C(self.fconst(false, n))) }
                    Ty::F64 => { if self.isp(b'(') { self.balanced() } Const::V(Val::C(self.fconst(true, n))) }
                    o => panic!("num const of {:?}", o),
                }
            }
            Tok::Word("true") => { self.adv(); Const::V(Val::C(1)) }
            Tok::Word("false") => { self.adv(); Const::V(Val::C(0)) }
            Tok::Word("null") => { self.adv(); Const::V(Val::C(0)) }
            Tok::Word("undef") | Tok::Word("poison") => { self.adv(); Const::Undef }
            Tok::Word("zeroinitializer") | Tok::Word("none") => { self.adv(); Const::Zero }
            Tok::Word("splat") => {
                self.adv(); self.exp(b'(');
                let et = self.ty(); let v = self.constant(et); self.exp(b')');
                let n = self.m.lanes(t);
                Const::Agg((0..n).map(|_| (et, v.clone())).collect())
            }
            Tok::Global(g) => { self.adv(); let s = self.m.sym(g); Const::V(Val::C(sym_addr(s))) }
            Tok::Str(b) => { self.adv(); Const::Bytes(b) }
            Tok::P(b'[') => { self.adv(); let r = self.agg(b']'); r }
            Tok::P(b'{') => { self.adv(); self.agg(b'}') }
            Tok::P(b'<') => {
                self.adv();
                if self.isp(b'{') { self.adv(); let r = self.agg(b'}'); self.exp(b'>'); r } else { self.agg(b'>') }
            }
            Tok::Word("getelementptr") => {
                self.adv();
                while !self.isp(b'(') { self.adv(); if self.isp(b'(') { // maybe inrange(...)
                        break } }
                // handle inrange( .. ) ( ... )
                let save = (self.pos, self.tok.clone());
                self.adv();
                if !self.is_type_start() { self.pos = save.0; self.tok = save.1; self.balanced(); while !self.isp(b'(') { self.adv() } self.adv(); }
                let bt = self.ty(); self.exp(b',');
                let pt = self.ty(); let base = self.const_u64(pt);
                let mut off = base; let mut cur = bt; let mut first = true;
                while self.isp(b',') {
                    self.adv();
                    let it = self.ty(); let w = self.m.width(it); let v = self.const_u64(it);
                    let iv = sext64(v, w);
                    if first { off = off.wrapping_add((self.m.size_align(cur).0 as i64).wrapping_mul(iv) as u64); first = false; }
                    else {
                        match self.m.tys[cur as usize].clone() {
                            Ty::Struct { .. } => { let (e, o) = self.m.elem(cur, iv as usize); off = off.wrapping_add(o); cur = e; }
                            Ty::Array(_, e) | Ty::Vector(_, e) => { off = off.wrapping_add((self.m.size_align(e).0 as i64).wrapping_mul(iv) as u64); cur = e; }
                            o => panic!("gep const {:?}", o),
                        }
                    }
                }
                self.exp(b')');
                Const::V(Val::C(off))
            }
            Tok::Word("inttoptr") | Tok::Word("ptrtoint") | Tok::Word("bitcast") | Tok::Word("trunc") | Tok::Word("addrspacecast") | Tok::Word("ptrtoaddr") => {
                self.adv(); while !self.isp(b'(') { self.adv() } self.adv();
                let ft = self.ty(); let v = self.const_u64(ft); self.expw("to"); let tt = self.ty(); self.exp(b')');
                let w = self.m.width(tt);
                Const::V(Val::C(v & crate::expr::mask64(w)))
            }
            Tok::Word(op @ ("add" | "sub" | "xor" | "mul")) => {
                self.adv(); while !self.isp(b'(') { self.adv() } self.adv();
                let ta = self.ty(); let a = self.const_u64(ta); self.exp(b',');
                let tb = self.ty(); let b = self.const_u64(tb); self.exp(b')');
                let w = self.m.width(ta);
                let r = match op { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "xor" => a ^ b, _ => a.wrapping_mul(b) };
                Const::V(Val::C(r & crate::expr::mask64(w)))
            }
            t => panic!("const? {:?} near\n{}", t, self.ctx()),
        }
    }
    fn const_u64(&mut self, t: TyId) -> u64 { match self.constant(t) { Const::V(Val::C(v)) => v, Const::Zero | Const::Undef => 0, o => panic!("{:?}", o) } }
    fn agg(&mut self, close: u8) -> Const {
        let mut v = vec![];
        while !self.isp(close) { let t = self.ty(); let c = self.constant(t); v.push((t, c)); if self.isp(b',') { self.adv() } }
        self.adv();
        Const::Agg(v)
    }
    pub fn const_val(&mut self, t: TyId, c: &Const) -> Val { const_val(&self.m, t, c) }

    pub fn parse(mut self) -> Module {
        self.adv();
        loop {
            match self.tok.clone() {
                Tok::Eof => break,
                Tok::Word("source_filename") | Tok::Word("target") | Tok::Word("attributes") | Tok::Word("module") | Tok::Word("uselistorder") => { self.skip_line(); self.adv(); }
                Tok::Meta => { self.skip_line(); self.adv(); }
                Tok::P(b'$') => { self.skip_line(); self.adv(); }
                Tok::P(b'^') => { self.skip_line(); self.adv(); }
                Tok::Word(w) if w.starts_with('$') => { self.skip_line(); self.adv(); }
                Tok::Local(n) => { self.adv(); self.exp(b'='); self.expw("type"); if self.isw("opaque") { self.adv(); let t = self.m.intern("other".into(), Ty::Other); self.m.named.insert(n.to_string(), t); } else { let t = self.ty(); self.m.named.insert(n.to_string(), t); } }
                Tok::Global(n) => self.global(n),
                Tok::Word("declare") => {
                    // remember weak declarations; skip to end of line
                    let a = self.pos;
                    self.skip_line();
                    let l = self.st(a, self.pos);
                    if l.contains("extern_weak") { if let Some(i) = l.find('@') { let e = l[i + 1..].find('(').unwrap(); let nm = l[i + 1..i + 1 + e].to_string(); self.m.weak.push(nm); } }
                    self.adv();
                }
                Tok::Word("define") => self.function(),
                t => panic!("toplevel? {:?} near\n{}", t, self.ctx()),
            }
        }
        self.m
    }
    fn global(&mut self, n: &str) {
        self.adv(); self.exp(b'=');
        let mut external = false; let constant;
        loop {
            match self.tok.clone() {
                Tok::Word("global") => { constant = false; self.adv(); break }
                Tok::Word("constant") => { constant = true; self.adv(); break }
                Tok::Word("alias") | Tok::Word("ifunc") => {
                    self.adv(); let _t = self.ty(); self.exp(b','); let pt = self.ty(); let c = self.constant(pt);
                    let s = self.m.sym(n); self.m.aliases.push((s, c)); return;
                }
                Tok::Word(w) => { if w == "external" || w == "extern_weak" { external = true; if w == "extern_weak" { self.m.weak.push(n.to_string()); } } self.adv(); if self.isp(b'(') { self.balanced() } }
                t => panic!("global? {:?} near\n{}", t, self.ctx()),
            }
        }
        let t = self.ty();
        let s = self.m.sym(n);
        let init = if external { None } else { Some(self.constant(t)) };
        // trailing: , align N, !guid, section "x", comdat...
        self.trailing_global();
        self.m.globals.push(Global { sym: s, ty: t, init, constant });
    }
    fn trailing_global(&mut self) {
        while self.isp(b',') {
            self.adv();
            match self.tok { Tok::Meta => { self.adv(); if self.tok == Tok::Meta { self.adv() } else if self.isp(b'{') { self.balanced() } }
                Tok::Word(_) => { self.adv(); match self.tok { Tok::Num(_) | Tok::Str(_) => self.adv(), Tok::P(b'(') => self.balanced(), _ => {} } }
                _ => panic!("trailing {:?} near\n{}", self.tok, self.ctx()) }
        }
    }
    fn skip_attrs(&mut self) {
        // parameter / return attributes, calling conventions, fast-math flags
        loop {
            match self.tok.clone() {
                Tok::Word(w) => {
                    if self.is_type_start() && !(w == "x") { return }
                    if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "asm" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "mul" | "ptrtoaddr") { return }
                    self.adv();
                    if self.isp(b'(') { self.balanced() } else if w == "align" || w == "cc" { self.adv() }
                }
                Tok::Str(_) => { self.adv(); if self.isp(b'=') { self.adv(); self.adv(); } }
                Tok::Attr => self.adv(),
                _ => return,
            }
        }
    }
    fn function(&mut self) {
        self.adv();
        self.skip_attrs();
        let _rt = self.ty();
        let name = match self.tok.clone() { Tok::Global(n) => n, t => panic!("fname {:?}", t) };
        self.adv(); self.exp(b'(');
        let mut f = FB { regs: HashMap::new(), nregs: 0, blocks: HashMap::new(), order: vec![] };
        let mut np = 0;
        while !self.isp(b')') {
            if self.isp(b'.') || self.isw("...") { self.adv(); continue }
            let _t = self.ty(); self.skip_attrs();
            match self.tok.clone() { Tok::Local(n) => { f.reg(n); self.adv(); } _ => { let nm = format!("{}", np); f.reg(Box::leak(nm.into_boxed_str())); } }
            np += 1;
            if self.isp(b',') { self.adv() }
        }
        self.adv();
        while !self.isp(b'{') {
            if self.isw("personality") { self.adv(); let t = self.ty(); self.constant(t); continue }
            if self.isw("prefix") || self.isw("prologue") { self.adv(); let t = self.ty(); self.constant(t); continue }
            self.adv();
            if self.isp(b'(') { self.balanced() }
        }
        self.adv();
        let mut blocks: Vec<Block> = vec![];
        let mut cur: Option<u32> = None;
        let mut rawphis: Vec<Vec<(u32, TyId, Vec<(Opd, u32)>)>> = vec![];
        loop {
            match self.tok.clone() {
                Tok::P(b'}') => { self.adv(); break }
                Tok::Label(l) => { self.adv(); cur = Some(f.block(l)); }
                _ => {
                    if cur.is_none() { let nm = format!("{}", np); let b = f.block(Box::leak(nm.into_boxed_str())); assert!(b == 0); cur = Some(b); }
                    let b = cur.unwrap() as usize;
                    while blocks.len() <= b { blocks.push(Block::default()); rawphis.push(vec![]); }
                    self.inst(&mut f, &mut blocks[b], &mut rawphis[b]);
                }
            }
        }
        while blocks.len() < f.order.len() { blocks.push(Block::default()); rawphis.push(vec![]); }
        for (b, ph) in rawphis.into_iter().enumerate() {
            if ph.is_empty() { continue }
            let preds: Vec<u32> = { let mut v = vec![]; for (_, p) in &ph[0].2 { if !v.contains(p) { v.push(*p) } } v };
            for (d, t, inc) in ph { blocks[b].phitys.push(t); let mut o = vec![]; for p in &preds { o.push(inc.iter().find(|x| x.1 == *p).unwrap().0.clone()) } blocks[b].phis.push((d, o)); }
            blocks[b].preds = preds;
        }
        let s = self.m.sym(name);
        self.m.func_of_sym.insert(s, self.m.funcs.len());
        self.m.funcs.push(Rc::new(Func { name: name.to_string(), sym: s, nparams: np, nregs: f.nregs, blocks }));
    }
    fn opd(&mut self, f: &mut FB<'a>, t: TyId) -> Opd {
        match self.tok.clone() {
            Tok::Local(n) => { self.adv(); Opd::R(f.reg(n)) }
            Tok::Meta => { self.adv(); if self.isp(b'{') { self.balanced() } Opd::C(Val::C(0)) }
            _ => { let c = self.constant(t); Opd::C(const_val(&self.m, t, &c)) }
        }
    }
    fn topd(&mut self, f: &mut FB<'a>) -> (TyId, Opd) { let t = self.ty(); self.skip_attrs(); let o = self.opd(f, t); (t, o) }
    fn label(&mut self, f: &mut FB<'a>) -> u32 { self.expw("label"); match self.tok.clone() { Tok::Local(n) => { self.adv(); f.block(n) } t => panic!("label {:?}", t) } }
    fn skip_flags(&mut self) {
        while let Tok::Word(w) = &self.tok { if matches!(*w, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" | "inalloca" | "swifterror") { self.adv() } else if *w == "inrange" { self.adv(); if self.isp(b'(') { self.balanced() } } else { break } }
    }
    fn tail(&mut self) {
        // ", align 8", ", !meta !1", " syncscope(..) acquire, align 8" etc.
        loop {
            match self.tok.clone() {
                Tok::P(b',') => {
                    self.adv();
                    match self.tok.clone() {
                        Tok::Meta => { self.adv(); if self.tok == Tok::Meta { self.adv() } if self.isp(b'{') { self.balanced() } }
                        Tok::Word("align") => { self.adv(); self.adv(); }
                        Tok::Word("addrspace") => { self.adv(); self.balanced(); }
                        t => panic!("tail {:?} near\n{}", t, self.ctx()),
                    }
                }
                Tok::Word("monotonic") | Tok::Word("acquire") | Tok::Word("release") | Tok::Word("acq_rel") | Tok::Word("seq_cst") | Tok::Word("unordered") => self.adv(),
                Tok::Word("syncscope") => { self.adv(); self.balanced(); }
                _ => return,
            }
        }
    }
    fn call(&mut self, f: &mut FB<'a>) -> CallInfo {
        self.skip_attrs();
        let rt = self.ty();
        if self.isp(b'(') { self.balanced() }
        let (callee, sym) = match self.tok.clone() {
            Tok::Global(g) => { self.adv(); let s = self.m.sym(g); (Opd::C(Val::C(sym_addr(s))), Some(s)) }
            Tok::Local(n) => { self.adv(); (Opd::R(f.reg(n)), None) }
            Tok::Word("asm") => {
                self.adv(); while let Tok::Word(_) = self.tok { self.adv() }
                let mut txt = String::from("asm:");
                if let Tok::Str(b) = self.tok.clone() { txt += &String::from_utf8_lossy(&b); } self.adv(); self.exp(b','); 
                if let Tok::Str(b) = self.tok.clone() { txt += "|"; txt += &String::from_utf8_lossy(&b); } self.adv();
                let s = self.m.sym(&txt); (Opd::C(Val::C(sym_addr(s))), Some(s))
            }
            _ => { let pt = self.m.tymap["ptr"]; let c = self.constant(pt); (Opd::C(const_val(&self.m, pt, &c)), None) }
        };
        self.exp(b'(');
        let mut args = vec![];
        while !self.isp(b')') { args.push(self.topd(f)); if self.isp(b',') { self.adv() } }
        self.adv();
        loop { match self.tok { Tok::Attr => self.adv(), Tok::P(b'[') => self.balanced(), 
            Tok::Word(w) if !matches!(w, "to") && matches!(w, "nounwind"|"noreturn"|"cold"|"readnone"|"memory"|"builtin"|"nobuiltin") => { self.adv(); if self.isp(b'(') { self.balanced() } }
            _ => break } }
        CallInfo { callee, callee_sym: sym, args, ret: rt }
    }
    fn inst(&mut self, f: &mut FB<'a>, b: &mut Block, ph: &mut Vec<(u32, TyId, Vec<(Opd, u32)>)>) {
        let mut dst = NODST;
        if let Tok::Local(n) = self.tok.clone() { dst = f.reg(n); self.adv(); self.exp(b'='); }
        let w = match self.tok.clone() { Tok::Word(w) => w, t => panic!("inst {:?} near\n{}", t, self.ctx()) };
        self.adv();
        let bin = match w { "add" => Some(BinOp::Add), "sub" => Some(BinOp::Sub), "mul" => Some(BinOp::Mul), "udiv" => Some(BinOp::UDiv), "sdiv" => Some(BinOp::SDiv), "urem" => Some(BinOp::URem), "srem" => Some(BinOp::SRem), "and" => Some(BinOp::And), "or" => Some(BinOp::Or), "xor" => Some(BinOp::Xor), "shl" => Some(BinOp::Shl), "lshr" => Some(BinOp::LShr), "ashr" => Some(BinOp::AShr), _ => None };
        let k = if let Some(op) = bin {
            self.skip_flags();
            let (t, a) = self.topd(f); self.exp(b','); let c = self.opd(f, t);
            K::Bin(op, self.m.width(t), self.m.lanes(t), a, c)
        } else {
            match w {
                "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                    self.skip_flags();
                    let (t, a) = self.topd(f); self.exp(b','); let c = self.opd(f, t);
                    let op = match w { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, _ => FOp::Rem };
                    K::FBin(op, self.m.width(t) == 64, self.m.lanes(t), a, c)
                }
                "fneg" => { self.skip_flags(); let (t, a) = self.topd(f); K::FNeg(self.m.width(t) == 64, self.m.lanes(t), a) }
                "icmp" => {
                    self.skip_flags();
                    let p = match self.tok.clone() { Tok::Word(p) => match p { "eq" => IPred::Eq, "ne" => IPred::Ne, "ugt" => IPred::Ugt, "uge" => IPred::Uge, "ult" => IPred::Ult, "ule" => IPred::Ule, "sgt" => IPred::Sgt, "sge" => IPred::Sge, "slt" => IPred::Slt, _ => IPred::Sle }, _ => panic!() };
                    self.adv();
                    let (t, a) = self.topd(f); self.exp(b','); let c = self.opd(f, t);
                    K::ICmp(p, self.m.width(t), self.m.lanes(t), a, c)
                }
                "fcmp" => {
                    self.skip_flags();
                    let p = match self.tok.clone() { Tok::Word(p) => match p { "false" => 0, "oeq" => 1, "ogt" => 2, "oge" => 3, "olt" => 4, "ole" => 5, "one" => 6, "ord" => 7, "uno" => 8, "ueq" => 9, "ugt" => 10, "uge" => 11, "ult" => 12, "ule" => 13, "une" => 14, "true" => 15, _ => panic!() }, _ => panic!() };
                    self.adv();
                    let (t, a) = self.topd(f); self.exp(b','); let c = self.opd(f, t);
                    K::FCmp(p, self.m.width(t) == 64, self.m.lanes(t), a, c)
                }
                "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                    self.skip_flags();
                    let (t, a) = self.topd(f); self.expw("to"); let tt = self.ty();
                    let op = match w { "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "fptrunc" => CastOp::FPTrunc, "fpext" => CastOp::FPExt, "fptoui" => CastOp::FPToUI, "fptosi" => CastOp::FPToSI, "uitofp" => CastOp::UIToFP, "sitofp" => CastOp::SIToFP, "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt, "inttoptr" => CastOp::IntToPtr, _ => CastOp::Bitcast };
                    K::Cast(op, t, tt, a)
                }
                "select" => {
                    self.skip_flags();
                    let (ct, c) = self.topd(f); self.exp(b','); let (t, a) = self.topd(f); self.exp(b','); let (_, b2) = self.topd(f);
                    K::Select(self.m.lanes(ct), t, c, a, b2)
                }
                "freeze" => { let (_, a) = self.topd(f); K::Copy(a) }
                "load" => { self.skip_flags(); let t = self.ty(); self.exp(b','); let (_, p) = self.topd(f); K::Load(t, p) }
                "store" => { self.skip_flags(); let (t, v) = self.topd(f); self.exp(b','); let (_, p) = self.topd(f); K::Store(t, v, p) }
                "alloca" => {
                    self.skip_flags();
                    let t = self.ty(); let (sz, mut al) = self.m.size_align(t); let mut n = 1;
                    while self.isp(b',') {
                        let save = (self.pos, self.tok.clone());
                        self.adv();
                        if self.isw("align") { self.adv(); al = self.num_u64(); } else if self.is_type_start() { let ct = self.ty(); n = self.const_u64(ct); } else { self.pos = save.0; self.tok = save.1; break }
                    }
                    K::Alloca(sz * n, al)
                }
                "getelementptr" => {
                    self.skip_flags();
                    let bt = self.ty(); self.exp(b','); let (pt, base) = self.topd(f);
                    if self.m.lanes(pt) != 0 { panic!("vector gep near\n{}", self.ctx()) }
                    let mut off: u64 = 0; let mut terms = vec![]; let mut cur = bt; let mut first = true;
                    while self.isp(b',') {
                        let save = (self.pos, self.tok.clone());
                        self.adv();
                        if self.tok == Tok::Meta { self.pos = save.0; self.tok = save.1; break }
                        let (it, io) = self.topd(f);
                        let iw = self.m.width(it);
                        let scale;
                        if first { scale = self.m.size_align(cur).0; first = false; }
                        else {
                            match self.m.tys[cur as usize].clone() {
                                Ty::Struct { .. } => { let i = match &io { Opd::C(Val::C(v)) => *v as usize, _ => panic!("struct gep") }; let (e, o) = self.m.elem(cur, i); off = off.wrapping_add(o); cur = e; continue }
                                Ty::Array(_, e) | Ty::Vector(_, e) => { scale = self.m.size_align(e).0; cur = e; }
                                o => panic!("gep {:?}", o),
                            }
                        }
                        match io { Opd::C(Val::C(v)) => off = off.wrapping_add((sext64(v, iw) as u64).wrapping_mul(scale)), o => terms.push((o, iw, scale)) }
                    }
                    K::Gep { base, off, terms }
                }
                "call" => K::Call(Box::new(self.call(f))),
                "tail" | "musttail" | "notail" => { self.expw("call"); K::Call(Box::new(self.call(f))) }
                "invoke" => { let ci = self.call(f); self.expw("to"); let n = self.label(f); self.expw("unwind"); let u = self.label(f); K::Invoke(Box::new(ci), n, u) }
                "extractvalue" => { let (_, a) = self.topd(f); let ix = self.idxs(); K::ExtractValue(a, ix) }
                "insertvalue" => { let (t, a) = self.topd(f); self.exp(b','); let (vt, v) = self.topd(f); let ix = self.idxs(); K::InsertValue(t, a, vt, v, ix) }
                "extractelement" => { let (_, a) = self.topd(f); self.exp(b','); let (_, i) = self.topd(f); K::ExtractElement(a, i) }
                "insertelement" => { let (_, a) = self.topd(f); self.exp(b','); let (_, v) = self.topd(f); self.exp(b','); let (_, i) = self.topd(f); K::InsertElement(a, v, i) }
                "shufflevector" => {
                    let (t, a) = self.topd(f); self.exp(b','); let (_, c) = self.topd(f); self.exp(b',');
                    let mt = self.ty();
                    let n = self.m.lanes(mt);
                    let mc = self.constant(mt);
                    let mask: Vec<i64> = match mc { Const::Zero | Const::Undef => vec![0; n as usize], Const::Agg(v) => v.iter().map(|(_, c)| match c { Const::V(Val::C(x)) => *x as i64, _ => -1 }).collect(), o => panic!("{:?}", o) };
                    K::Shuffle(self.m.lanes(t), a, c, mask)
                }
                "phi" => {
                    self.skip_flags();
                    let t = self.ty(); let mut inc = vec![];
                    loop {
                        self.exp(b'['); let o = self.opd(f, t); self.exp(b',');
                        let l = match self.tok.clone() { Tok::Local(n) => f.block(n), t => panic!("{:?}", t) };
                        self.adv(); self.exp(b']'); inc.push((o, l));
                        if self.isp(b',') { let save = (self.pos, self.tok.clone()); self.adv(); if !self.isp(b'[') { self.pos = save.0; self.tok = save.1; break } } else { break }
                    }
                    self.tail();
                    ph.push((dst, t, inc));
                    return;
                }
                "br" => {
                    if self.isw("label") { let l = self.label(f); K::Br(l) } else { let (_, c) = self.topd(f); self.exp(b','); let a = self.label(f); self.exp(b','); let b2 = self.label(f); K::CondBr(c, a, b2) }
                }
                "switch" => {
                    let (t, v) = self.topd(f); self.exp(b','); let d = self.label(f); self.exp(b'[');
                    let mut map = HashMap::new(); let mut list = vec![];
                    while !self.isp(b']') { let ct = self.ty(); let c = self.const_u64(ct); self.exp(b','); let l = self.label(f); map.insert(c, l); list.push((c, l)); }
                    self.adv();
                    K::Switch(self.m.width(t), v, d, Rc::new(map), Rc::new(list))
                }
                "ret" => { if self.isw("void") { self.adv(); K::Ret(None) } else { let (_, o) = self.topd(f); K::Ret(Some(o)) } }
                "unreachable" => K::Unreachable,
                "resume" => { let (_, o) = self.topd(f); K::Resume(o) }
                "landingpad" => {
                    let _t = self.ty(); let (mut cl, mut ca, mut fi) = (false, false, false);
                    loop {
                        if self.isw("cleanup") { self.adv(); cl = true } else if self.isw("catch") { self.adv(); let t = self.ty(); self.constant(t); ca = true }
                        else if self.isw("filter") { self.adv(); let t = self.ty(); self.constant(t); fi = true } else { break }
                    }
                    K::LandingPad { cleanup: cl, catch_all: ca, filter: fi }
                }
                "fence" => { if self.isw("syncscope") { self.adv(); self.balanced() } self.adv(); K::Nop }
                "atomicrmw" => { self.skip_flags(); let op = match self.tok.clone() { Tok::Word(o) => o.to_string(), _ => panic!() }; self.adv(); let (_, p) = self.topd(f); self.exp(b','); let (t, v) = self.topd(f); K::AtomicRMW(op, t, p, v) }
                "cmpxchg" => { self.skip_flags(); let (_, p) = self.topd(f); self.exp(b','); let (t, c) = self.topd(f); self.exp(b','); let (_, n) = self.topd(f); K::CmpXchg(t, p, c, n) }
                o => panic!("unknown instruction {} near\n{}", o, self.ctx()),
            }
        };
        self.tail();
        b.insts.push(Inst { dst, k });
    }
    fn idxs(&mut self) -> Vec<u32> {
        let mut v = vec![];
        while self.isp(b',') { let save = (self.pos, self.tok.clone()); self.adv(); if let Tok::Num(n) = self.tok.clone() { v.push(n.parse().unwrap()); self.adv() } else { self.pos = save.0; self.tok = save.1; break } }
        v
    }
}

struct FB<'a> { regs: HashMap<&'a str, u32>, nregs: u32, blocks: HashMap<&'a str, u32>, order: Vec<u32> }
impl<'a> FB<'a> {
    fn reg(&mut self, n: &'a str) -> u32 { if let Some(&r) = self.regs.get(n) { return r } let r = self.nregs; self.nregs += 1; self.regs.insert(n, r); r }
    fn block(&mut self, n: &'a str) -> u32 { if let Some(&r) = self.blocks.get(n) { return r } let r = self.order.len() as u32; self.order.push(r); self.blocks.insert(n, r); r }
}

pub fn sext64(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; } else { o.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap()); i += 3; }
        } else { o.push(b[i]); i += 1; }
    }
    o
}

pub fn const_val(m: &Module, t: TyId, c: &Const) -> Val {
    match c {
        Const::V(v) => v.clone(),
        Const::Zero | Const::Undef => zero_val(m, t),
        Const::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u64)).collect())),
        Const::Agg(v) => Val::A(Rc::new(v.iter().map(|(t, c)| const_val(m, *t, c)).collect())),
    }
}
pub fn zero_val(m: &Module, t: TyId) -> Val {
    match &m.tys[t as usize] {
        Ty::Int(w) if *w > 64 => Val::E(crate::expr::cst(*w, 0)),
        Ty::Struct { elems, .. } => Val::A(Rc::new(elems.iter().map(|e| zero_val(m, *e)).collect())),
        Ty::Array(n, e) => Val::A(Rc::new((0..*n).map(|_| zero_val(m, *e)).collect())),
        Ty::Vector(n, e) => Val::A(Rc::new((0..*n).map(|_| zero_val(m, *e)).collect())),
        _ => Val::C(0),
    }
}
