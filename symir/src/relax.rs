// Relaxation of floating point queries to real arithmetic: every operation becomes the exact real
// operation plus a rounding error that is bounded as IEEE 754 guarantees.  Bit-vectors become real
// numbers within their bounds.  What the relaxation refutes is refuted for the floats, too; a model of
// it is only a hint where to look for a real one.
use crate::expr::*;
use crate::ir::{BinOp, ExprId, FOp};
use std::collections::HashMap;
use std::fmt::Write as _;

// sum of c * v over variables v of the query, + k, and up to err away from that
#[derive(Clone, Debug)]
pub struct Aff { c: Vec<(u32, f64)>, k: f64, err: f64, lo: f64, hi: f64 }
pub struct Relax { pub out: String, pub ok: bool, pub nonlinear: bool, pub exact: bool, pub opaque: bool, pub looked: bool, fl: HashMap<ExprId, Aff>, names: Vec<(String, f64, f64)>, byname: HashMap<String, u32>, mat: HashMap<ExprId, (String, f64, f64)>, il: HashMap<ExprId, (String, f64, f64)>, bl: HashMap<ExprId, String>, pub leaves: Vec<ExprId>, n: u32 }

pub fn has_float(e: ExprId, memo: &mut HashMap<ExprId, bool>) -> bool {
    let mut stack = vec![(e, false)];
    while let Some((x, ready)) = stack.pop() {
        if memo.contains_key(&x) { continue }
        let me = matches!(node(x), N::FBin(..) | N::FMinMax(..) | N::FCmp(..) | N::FFromU(_) | N::FFromS(_) | N::FToU(_) | N::FToS(_) | N::FConv(_) | N::FUnary(..) | N::FCall(..));
        if me { memo.insert(x, true); continue }
        let ch = children(x);
        if !ready && ch.iter().any(|c| !memo.contains_key(c)) { stack.push((x, true)); for c in ch { if !memo.contains_key(&c) { stack.push((c, false)) } } continue }
        let r = ch.iter().any(|c| memo[c]);
        memo.insert(x, r);
    }
    memo[&e]
}
fn pow2(k: u32) -> String { format!("{}.0", 1u128 << k) }
// an f64 as an exact rational
fn rat(v: f64) -> Option<String> {
    if !v.is_finite() { return None }
    if v == 0.0 { return Some("0.0".into()) }
    let b = v.to_bits(); let neg = b >> 63 == 1; let ex = ((b >> 52) & 0x7ff) as i32; let mut m = (b & 0xf_ffff_ffff_ffff) as u128; let mut e;
    if ex == 0 { e = -1074 } else { m |= 1 << 52; e = ex - 1075 }
    while m % 2 == 0 { m /= 2; e += 1 }
    let s = if e >= 0 { if e > 70 { return None } format!("{}.0", m << e) } else { let mut s = format!("{}.0", m); let mut k = -e as u32; while k > 0 { let t = k.min(100); s = format!("(/ {} {})", s, pow2(t)); k -= t } s };
    Some(if neg { format!("(- {})", s) } else { s })
}
impl Relax {
    pub fn new() -> Relax { Relax { out: String::new(), ok: true, nonlinear: false, exact: false, opaque: false, looked: false, fl: HashMap::new(), names: vec![], byname: HashMap::new(), mat: HashMap::new(), il: HashMap::new(), bl: HashMap::new(), leaves: vec![], n: 0 } }
    fn r(&mut self, v: f64) -> String { match rat(v) { Some(s) => s, None => { self.ok = false; "0.0".into() } } }
    fn var(&mut self, p: &str) -> String { self.n += 1; let s = format!("{}{}", p, self.n); writeln!(self.out, "(declare-const {} Real)", s).unwrap(); s }
    fn bound(&mut self, s: &str, lo: f64, hi: f64) { let (a, b) = (self.r(lo), self.r(hi)); writeln!(self.out, "(assert (and (<= {} {}) (<= {} {})))", a, s, s, b).unwrap(); }
    fn zero(&mut self) -> Aff { self.ok = false; Aff { c: vec![], k: 0.0, err: 0.0, lo: 0.0, hi: 0.0 } }
    // a variable (or a number) of the query
    fn leaf(&mut self, t: (String, f64, f64)) -> Aff {
        if t.1 == t.2 { return Aff { c: vec![], k: t.1, err: 0.0, lo: t.1, hi: t.1 } }
        let id = match self.byname.get(&t.0) { Some(&i) => i, None => { self.names.push(t.clone()); self.byname.insert(t.0.clone(), self.names.len() as u32 - 1); self.names.len() as u32 - 1 } };
        Aff { c: vec![(id, 1.0)], k: 0.0, err: 0.0, lo: t.1, hi: t.2 }
    }
    // the bounds that follow from those of the variables, too
    fn tight(&self, mut a: Aff) -> Aff {
        let (mut l, mut h) = (a.k - a.err, a.k + a.err);
        for &(v, c) in &a.c { let n = &self.names[v as usize]; let (x, y) = (c * n.1, c * n.2); l += x.min(y); h += x.max(y); }
        let s = (l.abs() + h.abs()) * 1e-12;
        if l - s > a.lo { a.lo = l - s } if h + s < a.hi { a.hi = h + s }
        if !(a.lo.is_finite() && a.hi.is_finite()) { a.lo = f64::NEG_INFINITY; a.hi = f64::INFINITY }
        a
    }
    fn rounded(&mut self, w: u32, a: Aff) -> Aff {
        let mut a = self.tight(a);
        if !a.lo.is_finite() || !a.hi.is_finite() { return self.zero() }
        let u = if w == 32 { 2f64.powi(-24) } else { 2f64.powi(-53) };
        let tiny = 2f64.powi(-120);
        let m = a.lo.abs().max(a.hi.abs());
        if m > if w == 32 { 1e37 } else { 1e300 } { return self.zero() }
        let e = m * u * (1.0 + 1e-6) + tiny;
        a.err = (a.err + e) * (1.0 + 1e-12);
        if !(a.lo == 0.0) { a.lo -= e } if !(a.hi == 0.0) { a.hi += e }
        a
    }
    fn lin(&self, a: &Aff, b: &Aff, f: f64) -> Aff {
        // f64 arithmetic on the coefficients is not exact: what is lost goes to the error
        let mut c: Vec<(u32, f64)> = a.c.clone(); let mut lost = 0.0;
        for &(v, x) in &b.c {
            let x = x * f;
            match c.iter_mut().find(|y| y.0 == v) { Some(y) => { let m = y.1.abs() + x.abs(); y.1 += x; lost += m * 2f64.powi(-52) * self.mag(v) } None => c.push((v, x)) }
        }
        c.retain(|x| x.1 != 0.0);
        let k = a.k + b.k * f;
        Aff { c, k, err: (a.err + b.err * f.abs() + lost + (a.k.abs() + b.k.abs()) * 2f64.powi(-52)) * (1.0 + 1e-12), lo: 0.0, hi: 0.0 }
    }
    fn mag(&self, v: u32) -> f64 { let n = &self.names[v as usize]; n.1.abs().max(n.2.abs()) }
    fn scale(&self, a: &Aff, f: f64) -> Aff {
        let mut lost = 0.0; let mut o = a.clone();
        for x in o.c.iter_mut() { x.1 *= f; lost += x.1.abs() * 2f64.powi(-52) * self.mag(x.0) }
        o.k *= f; o.err = (o.err * f.abs() + lost + o.k.abs() * 2f64.powi(-52)) * (1.0 + 1e-12);
        o
    }
    // the value as a term of the query
    fn term(&mut self, e: ExprId) -> (String, f64, f64) {
        if let Some(x) = self.mat.get(&e) { return x.clone() }
        let a = self.fl(e);
        let r = self.mater(&a);
        self.mat.insert(e, r.clone());
        r
    }
    fn mater(&mut self, a: &Aff) -> (String, f64, f64) {
        if !self.ok { return ("0.0".into(), 0.0, 0.0) }
        if a.c.is_empty() && a.err == 0.0 { return (self.r(a.k), a.k, a.k) }
        if a.c.len() == 1 && a.c[0].1 == 1.0 && a.k == 0.0 && a.err == 0.0 { return self.names[a.c[0].0 as usize].clone() }
        let v = self.var("r");
        let mut t = self.r(a.k);
        let parts: Vec<(u32, f64)> = a.c.clone();
        for (x, c) in parts { let c = self.r(c); let n = self.names[x as usize].0.clone(); t = format!("{} (* {} {})", t, c, n) }
        let t = if a.c.is_empty() { t } else { format!("(+ {})", t) };
        if a.err == 0.0 { writeln!(self.out, "(assert (= {} {}))", v, t).unwrap() }
        else { let e = self.r(a.err); writeln!(self.out, "(assert (let ((t {})) (and (<= {} (+ t {})) (>= {} (- t {})))))", t, v, e, v, e).unwrap() }
        self.bound(&v, a.lo, a.hi);
        (v, a.lo, a.hi)
    }
    // the unsigned value of a bit-vector
    fn int(&mut self, e: ExprId) -> (String, f64, f64) {
        if let Some(x) = self.il.get(&e) { return x.clone() }
        let i = info(e);
        let (lo, hi) = (i.ulo as f64, i.uhi as f64);
        let r = match node(e).clone() {
            N::Const(v) => { let f = v as f64; if f as u128 != v { self.ok = false } (self.r(f), f, f) }
            N::Concat(ps) if ps.len() > 1 && as_const(*ps.last().unwrap()) == Some(0) => { let q = concat(&ps[..ps.len() - 1]); self.int(q) }
            N::Bin(BinOp::Add, a, b) if info(a).uhi + info(b).uhi <= mask(i.w) => { let (x, y) = (self.int(a), self.int(b)); (format!("(+ {} {})", x.0, y.0), lo, hi) }
            N::Bin(BinOp::Sub, a, b) if info(a).ulo >= info(b).uhi => { let (x, y) = (self.int(a), self.int(b)); (format!("(- {} {})", x.0, y.0), lo, hi) }
            N::Bin(BinOp::Mul, a, b) if (is_const(a) || is_const(b)) && info(a).uhi.checked_mul(info(b).uhi).map(|p| p <= mask(i.w)).unwrap_or(false) => { let (x, y) = (self.int(a), self.int(b)); (format!("(* {} {})", x.0, y.0), lo, hi) }
            N::Ite(c, a, b) => { let c = self.cond(c); let (x, y) = (self.int(a), self.int(b)); (format!("(ite {} {} {})", c, x.0, y.0), x.1.min(y.1), x.2.max(y.2)) }
            N::Extract(b, 0) if matches!(node(b), N::FToU(_)) && { let r = self.int(b); r.1 >= 0.0 && r.2 < (1u128 << i.w.min(100)) as f64 } => self.int(b),
            N::FToU(x) => {
                let f = self.term(x); let v = self.var("i");
                let top = (mask(i.w)) as f64;
                if f.1 >= 0.0 && f.2 < top { writeln!(self.out, "(assert (and (<= {v} {f}) (> {v} (- {f} 1.0))))", v = v, f = f.0).unwrap(); let (l, h) = (f.1.floor(), f.2.floor()); self.bound(&v, l, h); (v, l, h) } else { self.bound(&v, lo, hi); (v, lo, hi) }
            }
            _ => { let v = format!("x{}", e); writeln!(self.out, "(declare-const {} Real)", v).unwrap(); if i.w > 64 && hi > 1e30 { self.ok = false } self.bound(&v, lo, hi); self.leaves.push(e); (v, lo, hi) }
        };
        let r = if r.0.len() > 24 && !is_const(e) { let d = self.var("j"); writeln!(self.out, "(assert (= {} {}))", d, r.0).unwrap(); (d, r.1, r.2) } else { r };
        self.il.insert(e, r.clone());
        r
    }
    // signed value
    fn sint(&mut self, e: ExprId) -> (String, f64, f64) {
        let i = info(e);
        if i.slo >= 0 { return self.int(e) }
        match node(e).clone() {
            N::SExt(a) => self.sint(a),
            N::Bin(op @ (BinOp::Add | BinOp::Sub), a, b) if { let (x, y) = (info(a), info(b)); let (l, h) = if op == BinOp::Add { (x.slo.saturating_add(y.slo), x.shi.saturating_add(y.shi)) } else { (x.slo.saturating_sub(y.shi), x.shi.saturating_sub(y.slo)) }; l >= -(1i128 << (i.w - 1)) && h < 1i128 << (i.w - 1) } => { let (x, y) = (self.sint(a), self.sint(b)); let v = self.var("j"); writeln!(self.out, "(assert (= {} ({} {} {})))", v, if op == BinOp::Add { "+" } else { "-" }, x.0, y.0).unwrap(); (v, i.slo as f64, i.shi as f64) }
            N::Const(v) => { let f = sx(v, i.w) as f64; (self.r(f), f, f) }
            _ => { let v = self.var("s"); self.bound(&v, i.slo as f64, i.shi as f64); (v, i.slo as f64, i.shi as f64) }
        }
    }
    fn fl(&mut self, e: ExprId) -> Aff {
        if let Some(x) = self.fl.get(&e) { return x.clone() }
        if !self.ok { return self.zero() }
        let w = width(e);
        let mm = |v: [f64; 4]| { let l = v.iter().cloned().fold(f64::INFINITY, f64::min); let h = v.iter().cloned().fold(f64::NEG_INFINITY, f64::max); let s = l.abs().max(h.abs()) * 1e-12; (if l >= 0.0 { (l - s).max(0.0) } else { l - s }, if h <= 0.0 { (h + s).min(0.0) } else { h + s }) };
        let r = match node(e).clone() {
            N::Const(v) => { let f = if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) }; if !f.is_finite() { return self.zero() } Aff { c: vec![], k: f, err: 0.0, lo: f, hi: f } }
            N::FFromU(x) => { let a = self.int(x); let a = self.leaf(a); if info(x).uhi <= if w == 32 { 1 << 24 } else { 1 << 53 } { a } else { self.rounded(w, a) } }
            N::FFromS(x) => { let a = self.sint(x); let a = self.leaf(a); let l = if w == 32 { 1i128 << 24 } else { 1i128 << 53 }; if info(x).slo >= -l && info(x).shi <= l { a } else { self.rounded(w, a) } }
            N::FConv(x) => { let a = self.fl(x); if w == 64 { a } else { self.rounded(w, a) } }
            N::FBin(op, x, y) => {
                let (a, b) = (self.fl(x), self.fl(y));
                if !self.ok { return self.zero() }
                match op {
                    FOp::Add => { let (l, h) = mm([a.lo + b.lo, a.hi + b.hi, a.lo + b.lo, a.hi + b.hi]); let mut r = self.lin(&a, &b, 1.0); r.lo = l; r.hi = h; self.rounded(w, r) }
                    FOp::Sub => { let (l, h) = mm([a.lo - b.hi, a.hi - b.lo, a.lo - b.hi, a.hi - b.lo]); let mut r = self.lin(&a, &b, -1.0); r.lo = l; r.hi = h; self.rounded(w, r) }
                    FOp::Mul => {
                        let (l, h) = mm([a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]);
                        let fixed = |a: &Aff| if a.c.is_empty() && a.err == 0.0 { Some(a.k) } else { None };
                        let mut r = if let Some(f) = fixed(&b) { self.scale(&a, f) } else if let Some(f) = fixed(&a) { self.scale(&b, f) } else {
                            self.nonlinear = true;
                            let (s, t) = (self.term(x), self.term(y));
                            if !self.exact {
                                // a*b around the middle of both ranges: what is left out is at most the product of the radii
                                let (p, q) = (self.leaf(s.clone()), self.leaf(t.clone()));
                                let (ma, mb) = ((s.1 + s.2) / 2.0, (t.1 + t.2) / 2.0);
                                let (ra, rb) = ((s.2 - s.1) / 2.0 * (1.0 + 1e-9), (t.2 - t.1) / 2.0 * (1.0 + 1e-9));
                                let (u, v) = (self.scale(&p, mb), self.scale(&q, ma));
                                let mut r = self.lin(&u, &v, 1.0);
                                r.k -= ma * mb; r.err += (ma * mb).abs() * 2f64.powi(-50);
                                if x == y { r.k += ra * ra / 2.0; r.err += ra * ra / 2.0 * (1.0 + 1e-9) } else { r.err += ra * rb * (1.0 + 1e-9) }
                                r.lo = l; r.hi = h;
                                r = self.rounded(w, r);
                                self.fl.insert(e, r.clone());
                                return r
                            }
                            let q = self.var("q"); writeln!(self.out, "(assert (= {} (* {} {})))", q, s.0, t.0).unwrap(); self.bound(&q, l, h);
                            self.leaf((q, l, h))
                        };
                        r.lo = l; r.hi = h; self.rounded(w, r)
                    }
                    FOp::Div => {
                        if b.lo <= 0.0 && b.hi >= 0.0 { return self.zero() }
                        let (l, h) = mm([a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi]);
                        let mut r = if b.c.is_empty() && b.err == 0.0 { self.scale(&a, 1.0 / b.k) } else {
                            self.nonlinear = true;
                            let (s, t) = (self.term(x), self.term(y));
                            let q = self.var("q"); writeln!(self.out, "(assert (= (* {} {}) {}))", q, t.0, s.0).unwrap(); self.bound(&q, l, h);
                            self.leaf((q, l, h))
                        };
                        // the reciprocal is not exact either
                        r.err += l.abs().max(h.abs()) * 2f64.powi(-50);
                        r.lo = l; r.hi = h; self.rounded(w, r)
                    }
                    FOp::Rem => return self.zero(),
                }
            }
            N::FMinMax(mx, x, y) => { let (a, b) = (self.term(x), self.term(y)); if !self.ok { return self.zero() } let d = self.var("m"); writeln!(self.out, "(assert (= {} (ite ({} {} {}) {} {})))", d, if mx { ">=" } else { "<=" }, a.0, b.0, a.0, b.0).unwrap(); let (l, h) = if mx { (a.1.max(b.1), a.2.max(b.2)) } else { (a.1.min(b.1), a.2.min(b.2)) }; self.bound(&d, l, h); self.leaf((d, l, h)) }
            N::Ite(c, x, y) => { let c = self.cond(c); let (a, b) = (self.term(x), self.term(y)); if !self.ok { return self.zero() } let d = self.var("m"); writeln!(self.out, "(assert (= {} (ite {} {} {})))", d, c, a.0, b.0).unwrap(); let (l, h) = (a.1.min(b.1), a.2.max(b.2)); self.bound(&d, l, h); self.leaf((d, l, h)) }
            N::FUnary(FUn::Floor, x) => { let a = self.term(x); if !self.ok { return self.zero() } let v = self.var("i"); writeln!(self.out, "(assert (and (<= {v} {a}) (> {v} (- {a} 1.0))))", v = v, a = a.0).unwrap(); let (l, h) = (a.1.floor(), a.2.floor()); self.bound(&v, l, h); self.leaf((v, l, h)) }
            N::FUnary(FUn::Ceil, x) => { let a = self.term(x); if !self.ok { return self.zero() } let v = self.var("i"); writeln!(self.out, "(assert (and (>= {v} {a}) (< {v} (+ {a} 1.0))))", v = v, a = a.0).unwrap(); let (l, h) = (a.1.ceil(), a.2.ceil()); self.bound(&v, l, h); self.leaf((v, l, h)) }
            N::Lookup(..) if self.opaque && { let f = fiv(e); !f.2 && f.0.is_finite() && f.1.is_finite() } => {
                self.looked = true;
                let (l, h, _) = fiv(e); let v = self.var("o"); self.bound(&v, l, h); self.leaf((v, l, h))
            }
            N::Lookup(t, idx) if cx().tables[t as usize].all_const => {
                let ents = &cx().tables[t as usize].ent;
                let i = self.int(idx);
                if !self.ok { return self.zero() }
                let (a, b) = (i.1.max(0.0) as usize, (i.2.max(0.0) as usize).min(ents.len() - 1));
                let at = |k: usize| { let v = as_const(ents[k]).unwrap(); if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) } };
                let (mut l, mut h) = (f64::INFINITY, f64::NEG_INFINITY);
                for k in a..=b { let f = at(k); if !f.is_finite() { return self.zero() } l = l.min(f); h = h.max(f); }
                if a == b { return Aff { c: vec![], k: l, err: 0.0, lo: l, hi: l } }
                // along the chord, as far away as the farthest entry
                let sl = (at(b) - at(a)) / (b - a) as f64;
                let (mut dl, mut dh) = (f64::INFINITY, f64::NEG_INFINITY);
                for k in a..=b { let d = at(k) - sl * k as f64; dl = dl.min(d); dh = dh.max(d); }
                let p = self.leaf(i);
                let mut r = self.scale(&p, sl);
                r.k += (dl + dh) / 2.0; r.err += (dh - dl) / 2.0 + (sl.abs() * b as f64 + l.abs() + h.abs()) * 2f64.powi(-48);
                r.lo = l; r.hi = h;
                self.tight(r)
            }
            _ => return self.zero(),
        };
        self.fl.insert(e, r.clone());
        r
    }
    pub fn cond(&mut self, e: ExprId) -> String {
        if let Some(x) = self.bl.get(&e) { return x.clone() }
        if !self.ok { return "true".into() }
        let s = match node(e).clone() {
            N::Const(v) => if v == 1 { "true".into() } else { "false".into() },
            N::FCmp(p, x, y) => {
                let (a, b) = (self.term(x), self.term(y));
                let mut v = vec!["false".to_string()];
                if p & 1 != 0 { v.push(format!("(= {} {})", a.0, b.0)) }
                if p & 2 != 0 { v.push(format!("(> {} {})", a.0, b.0)) }
                if p & 4 != 0 { v.push(format!("(< {} {})", a.0, b.0)) }
                format!("(or {})", v.join(" "))
            }
            N::Not(x) => format!("(not {})", self.cond(x)),
            N::Bin(BinOp::And, x, y) => { let (a, b) = (self.cond(x), self.cond(y)); format!("(and {} {})", a, b) }
            N::Bin(BinOp::Or, x, y) => { let (a, b) = (self.cond(x), self.cond(y)); format!("(or {} {})", a, b) }
            N::Bin(BinOp::Xor, x, y) => { let (a, b) = (self.cond(x), self.cond(y)); format!("(xor {} {})", a, b) }
            N::Ite(c, x, y) => { let (c, a, b) = (self.cond(c), self.cond(x), self.cond(y)); format!("(ite {} {} {})", c, a, b) }
            N::Ult(x, y) if width(x) <= 64 => { let (a, b) = (self.int(x), self.int(y)); format!("(< {} {})", a.0, b.0) }
            N::Slt(x, y) if width(x) <= 64 => { let (a, b) = (self.sint(x), self.sint(y)); format!("(< {} {})", a.0, b.0) }
            N::Eq(x, y) if width(x) == 1 => { let (a, b) = (self.cond(x), self.cond(y)); format!("(= {} {})", a, b) }
            _ => { self.n += 1; let b = format!("b{}", self.n); writeln!(self.out, "(declare-const {} Bool)", b).unwrap(); b }
        };
        let s = if s.len() > 12 { self.n += 1; let b = format!("c{}", self.n); writeln!(self.out, "(declare-const {} Bool)\n(assert (= {} {}))", b, b, s).unwrap(); b } else { s };
        self.bl.insert(e, s.clone());
        s
    }
}
