// Linear normal form modulo 2^w: a constant plus coefficients times atoms (unsigned values of bits
// of inputs, or of terms that are not linear).  Two terms with the same form are equal.
use crate::expr::*;
use crate::ir::{BinOp, ExprId};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Lin { pub k: u128, pub t: BTreeMap<ExprId, u128> }
impl Lin {
    fn c(k: u128) -> Lin { Lin { k, t: BTreeMap::new() } }
    fn add(&self, o: &Lin, f: u128, m: u128) -> Lin {
        let mut r = self.clone();
        r.k = r.k.wrapping_add(o.k.wrapping_mul(f)) & m;
        for (a, v) in &o.t { let e = r.t.entry(*a).or_insert(0); *e = e.wrapping_add(v.wrapping_mul(f)) & m; if *e == 0 { r.t.remove(a); } }
        r
    }
    fn reduce(&self, m: u128) -> Lin { Lin { k: self.k & m, t: self.t.iter().map(|(a, v)| (*a, v & m)).filter(|x| x.1 != 0).collect() } }
}
pub struct Forms { memo: HashMap<(ExprId, u32), Rc<Lin>>, canon: HashMap<ExprId, ExprId> }
const MAXT: usize = 4000;
impl Forms {
    pub fn new() -> Forms { Forms { memo: HashMap::new(), canon: HashMap::new() } }
    pub fn lin(&mut self, e: ExprId) -> Rc<Lin> {
        let w = width(e);
        if let Some(r) = self.memo.get(&(e, 0)) { return r.clone() }
        let m = mask(w);
        let one = |e: ExprId| { let mut t = BTreeMap::new(); t.insert(e, 1u128); Lin { k: 0, t } };
        let r = match node(e).clone() {
            N::Const(v) => Lin::c(v & m),
            N::Var(_) if w > 1 => self.bits(e, w),
            N::Bin(BinOp::Add, a, b) => { let (x, y) = (self.lin(a), self.lin(b)); x.add(&y, 1, m) }
            N::Bin(BinOp::Sub, a, b) => { let (x, y) = (self.lin(a), self.lin(b)); x.add(&y, m, m) }
            N::Bin(BinOp::Mul, a, b) if is_const(b) => { let x = self.lin(a); Lin::default().add(&x, as_const(b).unwrap(), m) }
            N::Not(x) => { let x = self.lin(x); Lin::c(m).add(&x, m, m) }
            N::Concat(ps) => {
                let mut r = Lin::default(); let mut off = 0;
                for &p in ps.iter() { let x = self.lift(p, w - off); r = r.add(&x, 1u128 << off, m); off += width(p); }
                r
            }
            N::Extract(b, 0) => { if let N::Var(_) = node(b) { self.bits(e, w) } else { let x = self.lin(b); let r = x.reduce(m); if r.t.len() == 1 && r.t.contains_key(&b) { one(e) } else { r } } }
            N::Extract(b, _) if w > 1 && matches!(node(b), N::Var(_)) => self.bits(e, w),
            N::SExt(x) => {
                let wx = width(x);
                let l = self.lift(x, w); let s = self.lift(extract(x, wx - 1, 1), w);
                l.add(&s, (1u128 << wx).wrapping_neg(), m)
            }
            N::Ite(c, x, y) if w > 1 => {
                let (lx, ly) = (self.lin(x), self.lin(y));
                let d = lx.add(&ly, m, m);
                if d.t.is_empty() { let c = self.lift(c, w); ly.add(&c, d.k, m) } else {
                    // what both have in common
                    let com: BTreeMap<ExprId, u128> = lx.t.iter().filter(|(a, v)| ly.t.get(a) == Some(v)).map(|(a, v)| (*a, *v)).collect();
                    if com.is_empty() && lx.k == 0 && ly.k == 0 { one(e) } else {
                        let com = Lin { k: ly.k, t: com };
                        let (rx, ry) = (lx.add(&com, m, m), ly.add(&com, m, m));
                        let (ex, ey) = (self.build(&rx, w), self.build(&ry, w));
                        let q = ite(c, ex, ey);
                        com.add(&one(q), 1, m)
                    }
                }
            }
            _ => one(e),
        };
        let r = Rc::new(if r.t.len() > MAXT { one(e) } else { r });
        self.memo.insert((e, 0), r.clone());
        r
    }
    // single bits of (part of) an input
    fn bits(&mut self, e: ExprId, w: u32) -> Lin {
        let mut t = BTreeMap::new();
        for i in 0..w { t.insert(extract(e, i, 1), 1u128 << i); }
        Lin { k: 0, t }
    }
    // the unsigned value of p, modulo 2^m with m >= width(p)
    fn lift(&mut self, p: ExprId, mw: u32) -> Rc<Lin> {
        let w = width(p);
        if mw == w { return self.lin(p) }
        if let Some(r) = self.memo.get(&(p, mw)) { return r.clone() }
        let m = mask(mw);
        let one = |e: ExprId| { let mut t = BTreeMap::new(); t.insert(e, 1u128); Lin { k: 0, t } };
        let r = match node(p).clone() {
            N::Const(v) => Lin::c(v),
            N::Var(_) if w > 1 => self.bits(p, w),
            N::Extract(b, _) if w > 1 && matches!(node(b), N::Var(_)) => self.bits(p, w),
            N::Concat(ps) => { let mut r = Lin::default(); let mut off = 0; for &q in ps.iter() { let x = self.lift(q, mw); r = r.add(&x, 1u128 << off, m); off += width(q); } r }
            N::Not(x) => { let x = self.lift(x, mw); Lin::c(mask(w)).add(&x, m, m) }
            N::Bin(BinOp::Add, a, b) if info(a).uhi + info(b).uhi <= mask(w) => { let (x, y) = (self.lift(a, mw), self.lift(b, mw)); x.add(&y, 1, m) }
            N::Bin(BinOp::Sub, a, b) if info(a).ulo >= info(b).uhi => { let (x, y) = (self.lift(a, mw), self.lift(b, mw)); x.add(&y, m, m) }
            N::Bin(BinOp::Mul, a, b) if is_const(b) && info(a).uhi.checked_mul(as_const(b).unwrap()).map_or(false, |v| v <= mask(w)) => { let x = self.lift(a, mw); Lin::default().add(&x, as_const(b).unwrap(), m) }
            N::Ite(c, x, y) if w > 1 => {
                let (lx, ly) = (self.lift(x, mw), self.lift(y, mw));
                let d = lx.add(&ly, m, m);
                if d.t.is_empty() { let c = self.lift(c, mw); ly.add(&c, d.k, m) } else { one(p) }
            }
            N::Bin(BinOp::Add | BinOp::Sub, ..) if info(p).slo >= 0 => (*self.slift(p, mw)).clone(),
            _ => one(p),
        };
        let r = Rc::new(if r.t.len() > MAXT { one(p) } else { r });
        self.memo.insert((p, mw), r.clone());
        r
    }
    // the signed value of p, modulo 2^m
    fn slift(&mut self, p: ExprId, mw: u32) -> Rc<Lin> {
        let w = width(p);
        if mw == w { return self.lin(p) }
        if let Some(r) = self.memo.get(&(p, mw | 1 << 16)) { return r.clone() }
        let m = mask(mw);
        let lim = 1i128 << (w - 1);
        let (a, b) = match node(p) { N::Bin(_, a, b) => (info(*a), info(*b)), _ => (info(p), info(p)) };
        let r = match node(p).clone() {
            N::Const(v) => Lin::c(sx(v, w) as u128 & m),
            N::Bin(BinOp::Add, x, y) if a.slo + b.slo >= -lim && a.shi + b.shi < lim => { let (x, y) = (self.slift(x, mw), self.slift(y, mw)); x.add(&y, 1, m) }
            N::Bin(BinOp::Sub, x, y) if a.slo - b.shi >= -lim && a.shi - b.slo < lim => { let (x, y) = (self.slift(x, mw), self.slift(y, mw)); x.add(&y, m, m) }
            N::Bin(BinOp::Mul, x, y) if is_const(y) && { let c = sx(as_const(y).unwrap(), w); let f = |v: i128| v.checked_mul(c).map_or(false, |v| v >= -lim && v < lim); f(a.slo) && f(a.shi) } => { let c = sx(as_const(y).unwrap(), w) as u128 & m; let x = self.slift(x, mw); Lin::default().add(&x, c, m) }
            N::SExt(x) => { let l = self.slift(x, mw); (*l).clone() }
            N::Ite(c, x, y) if w > 1 && {
                let (lx, ly) = (self.slift(x, mw), self.slift(y, mw));
                lx.add(&ly, m, m).t.is_empty()
            } => { let (lx, ly) = (self.slift(x, mw), self.slift(y, mw)); let d = lx.add(&ly, m, m); let c = self.lift(c, mw); ly.add(&c, d.k, m) }
            _ => {
                let l = if let N::Bin(BinOp::Add | BinOp::Sub, ..) = node(p) { let mut t = BTreeMap::new(); t.insert(p, 1u128); Rc::new(Lin { k: 0, t }) } else { self.lift(p, mw) };
                if info(p).slo >= 0 { (*l).clone() } else { let s = self.lift(extract(p, w - 1, 1), mw); l.add(&s, (1u128 << w).wrapping_neg(), m) }
            }
        };
        let r = Rc::new(r);
        self.memo.insert((p, mw | 1 << 16), r.clone());
        r
    }
    pub fn build(&self, l: &Lin, w: u32) -> ExprId {
        let mut r = cst(w, 0);
        for (a, v) in &l.t {
            let wa = width(*a);
            let x = if wa >= w { extract(*a, 0, w) } else { zext(*a, w) };
            r = bin(BinOp::Add, r, bin(BinOp::Mul, x, cst(w, *v)));
        }
        bin(BinOp::Add, r, cst(w, l.k))
    }
    // the term itself in normal form if it is a sum
    pub fn norm(&mut self, e: ExprId) -> ExprId {
        let sum = |e: ExprId| matches!(node(e), N::Bin(BinOp::Add | BinOp::Sub, ..));
        if !(sum(e) || matches!(node(e), N::Extract(b, 0) if sum(*b))) { return e }
        let w = width(e);
        let l = self.lin(e);
        self.build(&l, w)
    }
    // the term with all its linear parts in normal form
    pub fn canon(&mut self, e: ExprId) -> ExprId {
        let mut stack = vec![(e, false)];
        while let Some((x, ready)) = stack.pop() {
            if self.canon.contains_key(&x) { continue }
            let ch: Vec<ExprId> = match node(x) { N::Lookup(_, i) => vec![*i], _ => children(x) };
            if !ready { stack.push((x, true)); for k in ch { if !self.canon.contains_key(&k) { stack.push((k, false)) } } continue }
            let c = |k: ExprId| self.canon[&k];
            let w = width(x);
            let y = if let N::Eq(a, b) = node(x) { let (a, b) = (c(*a), c(*b)); match self.equal(a, b) { Some(r) => r, None => eq(a, b) } } else { rebuild(x, &c) };
            let lined = match node(y) { N::Bin(BinOp::Add | BinOp::Sub | BinOp::Mul, ..) | N::Ite(..) | N::SExt(_) | N::Concat(_) | N::Not(_) => w > 1 && w <= 64, _ => false };
            let y = if lined { let l = self.lin(y); let l = self.signs(l, w); self.build(&l, w) } else { y };
            let y = self.few(y);
            let y = self.upper(y);
            self.canon.insert(x, y);
        }
        self.canon[&e]
    }
    // the upper bits of a sum that is small, whatever the width it is computed in
    fn upper(&mut self, y: ExprId) -> ExprId {
        let (b, lo) = match node(y) { N::Extract(b, lo) if *lo > 0 && matches!(node(*b), N::Bin(BinOp::Add | BinOp::Sub, ..)) => (*b, *lo), _ => return y };
        let k = 129 - info(b).uhi.leading_zeros();
        if k >= width(b) || k <= lo { return y }
        let l = self.lin(b).reduce(mask(k));
        extract(zext(self.build(&l, k), lo + width(y)), lo, width(y))
    }
    // a table whose index depends on a few bits only, as a table over these bits
    fn few(&mut self, y: ExprId) -> ExprId {
        let (t, i) = match node(y) { N::Lookup(t, i) if cx().tables[*t as usize].all_const => (*t, *i), _ => return y };
        let l = self.lin(i);
        let n = l.t.len();
        if n > 10 || l.t.keys().any(|a| width(*a) != 1) { return y }
        let m = mask(width(i));
        let v: Vec<u128> = l.t.values().cloned().collect();
        let mut ents = Vec::with_capacity(1 << n);
        for j in 0..1usize << n {
            let mut k = l.k; for (b, c) in v.iter().enumerate() { if j >> b & 1 == 1 { k = k.wrapping_add(*c) } }
            match cx().tables[t as usize].ent.get((k & m) as usize) { Some(e) => ents.push(*e), None => return y }
        }
        lookup(ents, concat(&l.t.keys().cloned().collect::<Vec<_>>()))
    }
    // p - 2^w * (its top bit) is the signed value of p, which may be a sum although the unsigned one is not
    fn signs(&mut self, l: Rc<Lin>, w: u32) -> Rc<Lin> {
        let m = mask(w);
        let mut r = (*l).clone();
        for (a, v) in &l.t {
            let p = match node(*a) { N::Extract(p, lo) if width(*a) == 1 && *lo == width(*p) - 1 && width(*p) < w => *p, _ => continue };
            let wp = width(p);
            if wp < 64 && matches!(node(p), N::Bin(BinOp::Add | BinOp::Sub | BinOp::Mul, ..)) {
                // the bit itself from the difference of the two
                let d = self.lift(p, 64).add(&self.slift(p, 64), mask(64), mask(64));
                let f = |c: u128| (sx(c, 64) >> wp) as u128 & m;
                if !d.t.contains_key(a) && !d.t.contains_key(&p) && d.t.values().chain(Some(&d.k)).all(|c| c & mask(wp) == 0) {
                    r.t.remove(a);
                    r = r.add(&Lin { k: f(d.k), t: d.t.iter().map(|(x, c)| (*x, f(*c))).collect() }, *v, m);
                    continue
                }
            }
            let u = match l.t.get(&p) { Some(u) => *u, None => continue };
            let neg = (1u128 << width(p)).wrapping_neg() & m;
            if u.wrapping_mul(neg) & m != *v & m || !matches!(node(p), N::Bin(BinOp::Add | BinOp::Sub | BinOp::Mul, ..)) { continue }
            let s = self.slift(p, w);
            r.t.remove(a); r.t.remove(&p);
            r = r.add(&s, u, m);
        }
        Rc::new(r)
    }
    // a = b as a condition, simplified through the difference of the forms
    pub fn equal(&mut self, a: ExprId, b: ExprId) -> Option<ExprId> {
        let w = width(a);
        let (x, y) = (self.lin(a), self.lin(b));
        let d = x.add(&y, mask(w), mask(w));
        if d.t.is_empty() { return Some(if d.k == 0 { tru() } else { fls() }) }
        if d.t.len() < x.t.len() && d.t.len() < y.t.len() { return Some(eq(self.build(&d, w), cst(w, 0))) }
        None
    }
}
// the node with its children replaced
pub fn rebuild(x: ExprId, c: &dyn Fn(ExprId) -> ExprId) -> ExprId {
    let w = width(x);
    match node(x).clone() {
                N::Const(_) | N::Var(_) => x,
                N::Concat(ps) => { let q: Vec<ExprId> = ps.iter().map(|p| c(*p)).collect(); concat(&q) }
                N::Extract(b, lo) => extract(c(b), lo, w),
                N::SExt(b) => sext(c(b), w),
                N::Bin(op, a, b) => bin(op, c(a), c(b)),
                N::Not(a) => not(c(a)),
                N::Ite(q, a, b) => ite(c(q), c(a), c(b)),
                N::Eq(a, b) => eq(c(a), c(b)),
                N::Ult(a, b) => ult(c(a), c(b)),
                N::Slt(a, b) => slt(c(a), c(b)),
                N::Lookup(t, i) => { let t = &cx().tables[t as usize]; let ents = t.ent.clone(); lookup(ents, c(i)) }
                N::FBin(op, a, b) => fbin(op, c(a), c(b)),
                N::FMinMax(m, a, b) => fminmax(m, c(a), c(b)),
                N::FCmp(p, a, b) => fcmp(p, c(a), c(b)),
                N::FFromU(a) => ffrom(false, c(a), w),
                N::FFromS(a) => ffrom(true, c(a), w),
                N::FToU(a) => fto(false, c(a), w),
                N::FToS(a) => fto(true, c(a), w),
                N::FConv(a) => fconv(c(a), w),
                N::FUnary(k, a) => funary(k, c(a)),
                N::FCall(f, a, b) => fcall(f, c(a), c(b)),
    }
}

fn kids(x: ExprId) -> Vec<ExprId> { match node(x) { N::Lookup(_, i) => vec![*i], _ => children(x) } }
// a and b with the arithmetic that both contain replaced by variables
pub fn cut(a: ExprId, b: ExprId, level: u32, pool: &mut Vec<ExprId>) -> Option<(ExprId, ExprId)> {
    let hit = |x: ExprId| match (level, node(x)) { (0, N::Bin(BinOp::Add | BinOp::Sub | BinOp::Mul, ..)) => width(x) >= 16, (1, N::Bin(BinOp::Sub | BinOp::Mul, ..)) => width(x) >= 16, (1 | 2, N::Bin(BinOp::Add, ..)) => width(x) == 16, _ => false };
    let sums = |r: ExprId| { let mut seen = std::collections::HashSet::new(); let mut out = vec![]; let mut st = vec![r]; while let Some(x) = st.pop() { if !seen.insert(x) { continue } if hit(x) { out.push(x); continue } st.extend(kids(x)) } (out, seen) };
    let ((x, _), (_, y)) = (sums(a), sums(b));
    let mut map: HashMap<ExprId, ExprId> = HashMap::new();
    for e in x { if y.contains(&e) && !map.contains_key(&e) { let w = width(e); let used: Vec<ExprId> = map.values().cloned().collect(); let v = match pool.iter().find(|p| width(**p) == w && !used.contains(p)) { Some(p) => *p, None => { pool.push(var(&format!("cut{}", pool.len()), w)); pool[pool.len() - 1] } }; map.insert(e, v); } }
    if map.is_empty() { return None }
    for r in [a, b] {
        let mut stack = vec![(r, false)];
        while let Some((x, ready)) = stack.pop() {
            if map.contains_key(&x) { continue }
            if !ready { stack.push((x, true)); for k in kids(x) { if !map.contains_key(&k) { stack.push((k, false)) } } continue }
            let y = rebuild(x, &|k| map[&k]);
            map.insert(x, y);
        }
    }
    Some((map[&a], map[&b]))
}
