// Hash-consed bit-vector / float expressions with rewriting and interval bounds.
use crate::ir::{BinOp, ExprId, FOp, FPred};
use std::collections::HashMap;
use std::rc::Rc;

pub fn mask64(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FUn { Floor, Ceil, Trunc, Rint, Round, Sqrt }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum N {
    Const(u128),
    Var(u32),
    Concat(Rc<[ExprId]>), // least significant piece first
    Extract(ExprId, u32),
    SExt(ExprId),
    Bin(BinOp, ExprId, ExprId),
    Not(ExprId),
    Ite(ExprId, ExprId, ExprId),
    Eq(ExprId, ExprId),
    Ult(ExprId, ExprId),
    Slt(ExprId, ExprId),
    Lookup(u32, ExprId),
    FBin(FOp, ExprId, ExprId),
    FMinMax(bool, ExprId, ExprId), // true: max
    FCmp(FPred, ExprId, ExprId),
    FFromU(ExprId),
    FFromS(ExprId),
    FToU(ExprId), // saturating, NaN -> 0
    FToS(ExprId),
    FConv(ExprId), // f32 <-> f64
    FUnary(FUn, ExprId),
    FCall(u32, ExprId, ExprId), // libm function (0 powf, 1 cbrtf, ...), uninterpreted in queries
}

#[derive(Clone, Copy)]
pub struct Info { pub w: u32, pub ulo: u128, pub uhi: u128, pub slo: i128, pub shi: i128, pub sym: bool }

pub struct Table { pub w: u32, pub ent: Vec<ExprId>, pub all_const: bool, pub ulo: u128, pub uhi: u128, pub slo: i128, pub shi: i128 }

pub struct Ctx { pub fivs: HashMap<ExprId, (f64, f64, bool)>,
    pub nodes: Vec<N>,
    pub info: Vec<Info>,
    map: HashMap<(u32, N), ExprId>,
    pub vars: Vec<(String, u32)>,
    pub tables: Vec<Table>,
    tablemap: HashMap<Vec<ExprId>, u32>,
    small: Vec<Vec<ExprId>>, // cache of small constants
}

static mut CTX: Option<Ctx> = None;
#[allow(static_mut_refs)]
pub fn cx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_none() {
            CTX = Some(Ctx { nodes: vec![], info: vec![], map: HashMap::new(), vars: vec![], tables: vec![], tablemap: HashMap::new(), fivs: HashMap::new(), small: vec![vec![]; 129] });
        }
        CTX.as_mut().unwrap()
    }
}

pub fn node(e: ExprId) -> &'static N { &cx().nodes[e as usize] }
pub fn info(e: ExprId) -> Info { cx().info[e as usize] }
pub fn width(e: ExprId) -> u32 { cx().info[e as usize].w }
pub fn as_const(e: ExprId) -> Option<u128> { if let N::Const(v) = node(e) { Some(*v) } else { None } }
pub fn is_const(e: ExprId) -> bool { matches!(node(e), N::Const(_)) }

fn full(w: u32) -> (u128, u128, i128, i128) {
    (0, mask(w), if w >= 128 { i128::MIN } else { -(1i128 << (w - 1)) }, if w >= 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 })
}

fn mk(w: u32, n: N) -> ExprId {
    let c = cx();
    if let Some(&e) = c.map.get(&(w, n.clone())) { return e }
    let (mut ulo, mut uhi, mut slo, mut shi) = full(w);
    let g = |e: ExprId| cx().info[e as usize];
    let fits = w < 126;
    match &n {
        N::Const(v) => { ulo = *v; uhi = *v; slo = sx(*v, w); shi = slo; }
        N::Var(_) => {}
        N::Concat(ps) => {
            let mut off = 0; ulo = 0; uhi = 0;
            for &p in ps.iter() { let i = g(p); ulo |= i.ulo << off; uhi = uhi.wrapping_add(i.uhi << off); off += i.w; }
        }
        N::Extract(b, lo) => {
            let i = g(*b);
            let (l, h) = (i.ulo >> lo, i.uhi >> lo);
            if h <= mask(w) { ulo = l; uhi = h; }
            if *lo == 0 && w < 127 && i.slo >= -(1i128 << (w - 1)) && i.shi < (1i128 << (w - 1)) { slo = i.slo; shi = i.shi; }
        }
        N::SExt(b) => { let i = g(*b); slo = i.slo; shi = i.shi; if slo >= 0 { ulo = slo as u128; uhi = shi as u128; } else if shi < 0 { ulo = (slo as u128) & mask(w); uhi = (shi as u128) & mask(w); } }
        N::Bin(op, a, b) => {
            let (x, y) = (g(*a), g(*b));
            match op {
                BinOp::Add if fits => {
                    if x.uhi + y.uhi <= mask(w) { ulo = x.ulo + y.ulo; uhi = x.uhi + y.uhi; }
                    let (l, h) = (x.slo + y.slo, x.shi + y.shi);
                    if l >= slo && h <= shi { slo = l; shi = h; }
                }
                BinOp::Sub if fits => {
                    if x.ulo >= y.uhi { ulo = x.ulo - y.uhi; uhi = x.uhi - y.ulo; }
                    let (l, h) = (x.slo - y.shi, x.shi - y.slo);
                    if l >= slo && h <= shi { slo = l; shi = h; }
                }
                BinOp::Mul if w <= 64 => {
                    if let Some(h) = x.uhi.checked_mul(y.uhi) { if h <= mask(w) { ulo = x.ulo * y.ulo; uhi = h; } }
                    let c = [x.slo.checked_mul(y.slo), x.slo.checked_mul(y.shi), x.shi.checked_mul(y.slo), x.shi.checked_mul(y.shi)];
                    if c.iter().all(|v| v.is_some()) {
                        let l = c.iter().map(|v| v.unwrap()).min().unwrap(); let h = c.iter().map(|v| v.unwrap()).max().unwrap();
                        if l >= slo && h <= shi { slo = l; shi = h; }
                    }
                }
                BinOp::UDiv => { if y.ulo > 0 { ulo = x.ulo / y.uhi; uhi = x.uhi / y.ulo; } }
                BinOp::URem => { if y.ulo > 0 { uhi = x.uhi.min(y.uhi - 1); } }
                BinOp::And => { uhi = x.uhi.min(y.uhi); if x.slo >= 0 || y.slo >= 0 { slo = 0; } }
                BinOp::Or | BinOp::Xor => {
                    let m = x.uhi | y.uhi; let bits = 128 - m.leading_zeros();
                    uhi = mask(bits.min(w)); if bits == 0 { uhi = 0 }
                    if *op == BinOp::Or { ulo = x.ulo.max(y.ulo) }
                }
                BinOp::LShr => { if y.uhi < 128 { uhi = x.uhi >> y.ulo.min(127); ulo = x.ulo >> y.uhi; } else { uhi = x.uhi; } }
                BinOp::Shl => { if y.uhi < w as u128 && x.uhi.leading_zeros() as u128 >= y.uhi + (128 - w) as u128 { uhi = x.uhi << y.uhi; ulo = x.ulo << y.ulo; } }
                BinOp::AShr => { slo = x.slo.min(0).max(x.slo); shi = x.shi.max(0); if x.slo < 0 { slo = x.slo } else { slo = 0; uhi = x.uhi; } }
                BinOp::SDiv => { if y.slo > 0 { let c = [x.slo / y.slo, x.slo / y.shi, x.shi / y.slo, x.shi / y.shi]; slo = *c.iter().min().unwrap(); shi = *c.iter().max().unwrap(); } }
                BinOp::SRem => { if y.slo > 0 { shi = if x.shi < 0 { 0 } else { x.shi.min(y.shi - 1) }; slo = if x.slo >= 0 { 0 } else { x.slo.max(-(y.shi - 1)) }; } }
                _ => {}
            }
        }
        N::Ite(_, a, b) => { let (x, y) = (g(*a), g(*b)); ulo = x.ulo.min(y.ulo); uhi = x.uhi.max(y.uhi); slo = x.slo.min(y.slo); shi = x.shi.max(y.shi); }
        N::Lookup(t, _) => { let t = &c.tables[*t as usize]; ulo = t.ulo; uhi = t.uhi; slo = t.slo; shi = t.shi; }
        N::FToU(a) => {
            let (l, h, n) = fiv(*a); let h = if n { h.max(0.0) } else { h };
            if l >= 0.0 && !n { ulo = (l as u128).min(mask(w)); }
            if h <= 1e30 { uhi = if h < 0.0 { 0 } else { (h as u128).min(mask(w)) }; }
        }
        N::FToS(a) => {
            let (l, h) = frange(*a);
            if l >= -1e30 && w < 126 { slo = (l as i128).max(slo); if slo > 0 { slo = 0 } }
            if h <= 1e30 && w < 126 { shi = (h as i128).min(shi); if shi < 0 { shi = 0 } }
        }
        _ => {}
    }
    if w < 128 {
        // combine
        let half = 1u128 << (w - 1);
        if uhi < half { slo = slo.max(ulo as i128); shi = shi.min(uhi as i128); }
        else if ulo >= half { slo = slo.max(sx(ulo, w)); shi = shi.min(sx(uhi, w)); }
        if slo >= 0 { ulo = ulo.max(slo as u128); uhi = uhi.min(shi as u128); }
    }
    let sym = !matches!(n, N::Const(_));
    let e = c.nodes.len() as ExprId;
    c.nodes.push(n.clone());
    c.info.push(Info { w, ulo, uhi, slo, shi, sym });
    c.map.insert((w, n), e);
    e
}

pub fn cst(w: u32, v: u128) -> ExprId {
    let v = v & mask(w);
    if v < 256 && w <= 128 {
        let c = cx();
        let s = &c.small[w as usize];
        if s.is_empty() {
            let mut t = vec![];
            for i in 0..256u128 { t.push(mk(w, N::Const(i & mask(w)))); }
            cx().small[w as usize] = t;
        }
        return cx().small[w as usize][v as usize];
    }
    mk(w, N::Const(v))
}
pub fn var(name: &str, w: u32) -> ExprId { let c = cx(); let i = c.vars.len() as u32; c.vars.push((name.to_string(), w)); mk(w, N::Var(i)) }

// pieces of an expression, least significant first
fn pieces(e: ExprId) -> Vec<ExprId> { if let N::Concat(p) = node(e) { p.to_vec() } else { vec![e] } }

pub fn concat(ps: &[ExprId]) -> ExprId {
    let mut out: Vec<ExprId> = Vec::with_capacity(ps.len());
    fn push(out: &mut Vec<ExprId>, p: ExprId) {
        if let N::Concat(q) = node(p) { for &x in q.clone().iter() { push(out, x) } return }
        if let Some(&l) = out.last() {
            if let (Some(a), Some(b)) = (as_const(l), as_const(p)) {
                let w = width(l) + width(p);
                out.pop();
                out.push(cst(w, a | (b << width(l))));
                return;
            }
            // contiguous extracts of one base
            let (lb, ll) = if let N::Extract(b, lo) = node(l) { (*b, *lo) } else { (l, 0) };
            if let N::Extract(pb, plo) = node(p) {
                if *pb == lb && *plo == ll + width(l) {
                    let w = width(l) + width(p);
                    out.pop();
                    out.push(extract(lb, ll, w));
                    return;
                }
            }
            // x followed by its own sign bits
            if let (N::SExt(s), _) = (node(p), 0) {
                if width(*s) == 1 {
                    let lw = width(l);
                    if extract(l, lw - 1, 1) == *s { let w = lw + width(p); out.pop(); out.push(sext(l, w)); return }
                }
            }
            if width(p) == 1 && !is_const(p) && extract(l, width(l) - 1, 1) == p {
                let w = width(l) + 1; out.pop(); out.push(sext(l, w)); return;
            }
        }
        out.push(p);
    }
    for &p in ps { push(&mut out, p) }
    if out.len() == 1 { return out[0] }
    let w: u32 = out.iter().map(|&p| width(p)).sum();
    mk(w, N::Concat(out.into()))
}

pub fn zext(e: ExprId, w: u32) -> ExprId { let we = width(e); if we == w { e } else { concat(&[e, cst(w - we, 0)]) } }
pub fn sext(e: ExprId, w: u32) -> ExprId {
    let we = width(e);
    if we == w { return e }
    if let Some(v) = as_const(e) { return cst(w, sx(v, we) as u128) }
    if info(e).slo >= 0 { return zext(e, w) }
    if let N::SExt(x) = node(e) { return sext(*x, w) }
    if let N::Concat(ps) = node(e) {
        // sign extension only concerns the top piece
        let top = *ps.last().unwrap();
        if let N::SExt(_) = node(top) {} 
        if let Some(tv) = as_const(top) { let wt = width(top); let mut v = ps.to_vec(); let l = v.len(); v[l - 1] = cst(wt + w - we, sx(tv, wt) as u128); return concat(&v) }
    }
    mk(w, N::SExt(e))
}

pub fn extract(e: ExprId, lo: u32, len: u32) -> ExprId {
    let w = width(e);
    debug_assert!(lo + len <= w, "extract {} {} of {}", lo, len, w);
    if lo == 0 && len == w { return e }
    let i = info(e);
    if (i.uhi >> lo) == 0 { return cst(len, 0) }
    match node(e).clone() {
        N::Const(v) => cst(len, v >> lo),
        N::Extract(b, l2) => extract(b, l2 + lo, len),
        N::Concat(ps) => {
            let mut out = vec![]; let mut off = 0;
            for &p in ps.iter() {
                let pw = width(p);
                let a = lo.max(off); let b = (lo + len).min(off + pw);
                if a < b { out.push(extract(p, a - off, b - a)) }
                off += pw;
            }
            concat(&out)
        }
        N::SExt(x) => {
            let wx = width(x);
            if lo + len <= wx { extract(x, lo, len) }
            else if lo >= wx - 1 { let s = extract(x, wx - 1, 1); sext(s, len) }
            else { sext(extract(x, lo, wx - lo), len) }
        }
        N::Ite(c, a, b) => {
            let (x, y) = (node(a), node(b));
            let simple = |n: &N| matches!(n, N::Const(_) | N::Concat(_) | N::SExt(_));
            if simple(x) || simple(y) {
                let (ea, eb) = (extract(a, lo, len), extract(b, lo, len));
                if ea == eb { return ea }
                if !matches!(node(ea), N::Extract(..)) && !matches!(node(eb), N::Extract(..)) { return ite(c, ea, eb) }
            }
            mk(len, N::Extract(e, lo))
        }
        N::Not(a) => { let x = extract(a, lo, len); if !matches!(node(x), N::Extract(..)) || !matches!(node(a), N::Extract(..)) { not(x) } else { mk(len, N::Extract(e, lo)) } }
        N::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), a, b) => {
            let (x, y) = (extract(a, lo, len), extract(b, lo, len));
            if is_const(x) || is_const(y) || x == y { return bitop(op, x, y) }
            if !matches!(node(x), N::Extract(..)) && !matches!(node(y), N::Extract(..)) { return bitop(op, x, y) }
            mk(len, N::Extract(e, lo))
        }
        N::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::Mul), a, b) if lo == 0 => {
            let (x, y) = (extract(a, 0, len), extract(b, 0, len));
            let s = |z: ExprId| !matches!(node(z), N::Extract(..));
            // narrow when the operands narrow for free
            if (s(x) && s(y)) || is_const(x) || is_const(y) { return bin(op, x, y) }
            mk(len, N::Extract(e, lo))
        }
        N::Lookup(t, idx) => {
            let tb = &cx().tables[t as usize];
            if tb.all_const {
                let ents: Vec<ExprId> = tb.ent.clone().into_iter().map(|x| extract(x, lo, len)).collect();
                if ents.iter().all(|&x| x == ents[0]) { return ents[0] }
            }
            mk(len, N::Extract(e, lo))
        }
        _ => mk(len, N::Extract(e, lo)),
    }
}

pub fn not(a: ExprId) -> ExprId {
    let w = width(a);
    match node(a).clone() {
        N::Const(v) => cst(w, !v),
        N::Not(x) => x,
        N::Ite(c, x, y) if is_const(x) && is_const(y) => ite(c, not(x), not(y)),
        _ => mk(w, N::Not(a)),
    }
}

fn runs(v: u128, w: u32) -> Vec<(bool, u32, u32)> {
    let mut out = vec![]; let mut i = 0;
    while i < w { let b = (v >> i) & 1; let mut j = i; while j < w && ((v >> j) & 1) == b { j += 1 } out.push((b == 1, i, j - i)); i = j; }
    out
}

pub fn bitop(op: BinOp, a: ExprId, b: ExprId) -> ExprId {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return cst(w, match op { BinOp::And => x & y, BinOp::Or => x | y, _ => x ^ y });
    }
    if a == b { return match op { BinOp::Xor => cst(w, 0), _ => a } }
    let (a, b) = if is_const(a) || (!is_const(b) && a > b) { (b, a) } else { (a, b) };
    if let Some(c) = as_const(b) {
        match op {
            BinOp::And => {
                if c == 0 { return b } if c == mask(w) { return a }
                // bits above the known maximum of a are zero anyway
                let ps: Vec<ExprId> = runs(c, w).into_iter().map(|(one, lo, len)| if one { extract(a, lo, len) } else { cst(len, 0) }).collect();
                return concat(&ps);
            }
            BinOp::Or => {
                if c == 0 { return a } if c == mask(w) { return b }
                let ps: Vec<ExprId> = runs(c, w).into_iter().map(|(one, lo, len)| if one { cst(len, mask(len)) } else { extract(a, lo, len) }).collect();
                return concat(&ps);
            }
            _ => {
                if c == 0 { return a } if c == mask(w) { return not(a) }
                let ps: Vec<ExprId> = runs(c, w).into_iter().map(|(one, lo, len)| { let x = extract(a, lo, len); if one { not(x) } else { x } }).collect();
                return concat(&ps);
            }
        }
    }
    if let N::Not(x) = node(a) { if *x == b { return match op { BinOp::And => cst(w, 0), _ => cst(w, mask(w)) } } }
    if let N::Not(x) = node(b) { if *x == a { return match op { BinOp::And => cst(w, 0), _ => cst(w, mask(w)) } } }
    // segment at constant pieces
    let (pa, pb) = (pieces(a), pieces(b));
    if pa.iter().any(|&p| is_const(p)) || pb.iter().any(|&p| is_const(p)) {
        let mut cuts = vec![];
        let addcuts = |ps: &Vec<ExprId>, cuts: &mut Vec<u32>| { let mut off = 0; for &p in ps { if is_const(p) { cuts.push(off); cuts.push(off + width(p)); } off += width(p); } };
        addcuts(&pa, &mut cuts); addcuts(&pb, &mut cuts);
        cuts.push(0); cuts.push(w); cuts.sort(); cuts.dedup();
        let mut out = vec![];
        for i in 0..cuts.len() - 1 {
            let (lo, len) = (cuts[i], cuts[i + 1] - cuts[i]);
            out.push(bitop(op, extract(a, lo, len), extract(b, lo, len)));
        }
        return concat(&out);
    }
    mk(w, N::Bin(op, a, b))
}

fn zero_bits(e: ExprId) -> u128 {
    // mask of bits known to be zero
    let w = width(e);
    match node(e) {
        N::Const(v) => !v & mask(w),
        N::Concat(ps) => { let mut m = 0u128; let mut off = 0; for &p in ps.iter() { m |= zero_bits(p) << off; off += width(p); } m }
        _ => { let h = info(e).uhi; let bits = 128 - h.leading_zeros(); mask(w) & !(if bits == 0 { 0 } else { mask(bits) }) }
    }
}

pub fn bin(op: BinOp, a: ExprId, b: ExprId) -> ExprId {
    let w = width(a);
    debug_assert_eq!(w, width(b), "{:?}", op);
    match op { BinOp::And | BinOp::Or | BinOp::Xor => return bitop(op, a, b), _ => {} }
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) { if let Some(r) = fold(op, w, x, y) { return cst(w, r) } }
    match op {
        BinOp::Add => {
            let (a, b) = if is_const(a) || (!is_const(b) && a > b) { (b, a) } else { (a, b) };
            if let Some(c) = as_const(b) {
                if c == 0 { return a }
                if let N::Bin(BinOp::Add, x, y) = node(a) { if let Some(d) = as_const(*y) { return bin(BinOp::Add, *x, cst(w, d.wrapping_add(c))) } }
                if let N::Ite(q, x, y) = node(a) { if is_const(*x) && is_const(*y) { return ite(*q, bin(op, *x, b), bin(op, *y, b)) } }
            }
            if (!zero_bits(a) & mask(w)) & (!zero_bits(b) & mask(w)) == 0 { return bitop(BinOp::Or, a, b) }
            // move constants out
            if let N::Bin(BinOp::Add, x, y) = node(a) { if is_const(*y) { let s = bin(BinOp::Add, *x, b); return bin(BinOp::Add, s, *y) } }
            if let N::Bin(BinOp::Add, x, y) = node(b) { if is_const(*y) { let s = bin(BinOp::Add, a, *x); return bin(BinOp::Add, s, *y) } }
            // (x - y) + y
            if let N::Bin(BinOp::Sub, x, y) = node(a) { if *y == b { return *x } }
            if let N::Bin(BinOp::Sub, x, y) = node(b) { if *y == a { return *x } }
            mk(w, N::Bin(op, a, b))
        }
        BinOp::Sub => {
            if a == b { return cst(w, 0) }
            if let Some(c) = as_const(b) { return bin(BinOp::Add, a, cst(w, c.wrapping_neg())) }
            if let N::Bin(BinOp::Add, x, y) = node(a) { if *x == b { return *y } if *y == b { return *x } if is_const(*y) { let s = bin(BinOp::Sub, *x, b); return bin(BinOp::Add, s, *y) } }
            if let N::Bin(BinOp::Add, x, y) = node(b) { if let Some(c) = as_const(*y) { let s = bin(BinOp::Sub, a, *x); return bin(BinOp::Add, s, cst(w, c.wrapping_neg())) } }
            mk(w, N::Bin(op, a, b))
        }
        BinOp::Mul => {
            let (a, b) = if is_const(a) || (!is_const(b) && a > b) { (b, a) } else { (a, b) };
            if let Some(c) = as_const(b) {
                if c == 0 { return b } if c == 1 { return a }
                if c.is_power_of_two() { return shl_const(a, c.trailing_zeros()) }
                if let N::Bin(BinOp::Mul, x, y) = node(a) { if let Some(d) = as_const(*y) { return bin(BinOp::Mul, *x, cst(w, d.wrapping_mul(c))) } }
                if let N::Ite(q, x, y) = node(a) { if is_const(*x) && is_const(*y) { return ite(*q, bin(op, *x, b), bin(op, *y, b)) } }
            }
            mk(w, N::Bin(op, a, b))
        }
        BinOp::UDiv => {
            if let Some(c) = as_const(b) {
                if c == 1 { return a }
                if c.is_power_of_two() { return lshr_const(a, c.trailing_zeros()) }
                if info(a).uhi < c && c != 0 { return cst(w, 0) }
                return narrow(op, a, b);
            }
            mk(w, N::Bin(op, a, b))
        }
        BinOp::URem => {
            if let Some(c) = as_const(b) {
                if c == 1 { return cst(w, 0) }
                if c.is_power_of_two() { return bitop(BinOp::And, a, cst(w, c - 1)) }
                if info(a).uhi < c && c != 0 { return a }
                // (x*k) mod c == 0 when c | k and no wrap
                if let N::Bin(BinOp::Mul, x, y) = node(a) { if let Some(k) = as_const(*y) { if k % c == 0 && info(*x).uhi.checked_mul(k).map_or(false, |v| v <= mask(w)) { return cst(w, 0) } } }
                return narrow(op, a, b);
            }
            mk(w, N::Bin(op, a, b))
        }
        BinOp::SDiv | BinOp::SRem => {
            let (x, y) = (info(a), info(b));
            if x.slo >= 0 && y.slo >= 0 { return bin(if op == BinOp::SDiv { BinOp::UDiv } else { BinOp::URem }, a, b) }
            mk(w, N::Bin(op, a, b))
        }
        BinOp::Shl => { if let Some(c) = as_const(b) { return if c >= w as u128 { cst(w, 0) } else { shl_const(a, c as u32) } } shift_sym(op, a, b) }
        BinOp::LShr => { if let Some(c) = as_const(b) { return if c >= w as u128 { cst(w, 0) } else { lshr_const(a, c as u32) } } shift_sym(op, a, b) }
        BinOp::AShr => { if let Some(c) = as_const(b) { let c = (c.min((w - 1) as u128)) as u32; return if c == 0 { a } else { sext(extract(a, c, w - c), w) } } shift_sym(op, a, b) }
        _ => unreachable!(),
    }
}
fn narrow(op: BinOp, a: ExprId, b: ExprId) -> ExprId {
    // unsigned division by a constant with known small operands: use the smallest width
    let w = width(a);
    let m = info(a).uhi | info(b).uhi;
    let nb = (128 - m.leading_zeros()).max(1);
    if nb < w { let r = mk(nb, N::Bin(op, extract(a, 0, nb), extract(b, 0, nb))); return zext(r, w) }
    mk(w, N::Bin(op, a, b))
}
fn shift_sym(op: BinOp, a: ExprId, b: ExprId) -> ExprId {
    let w = width(a);
    // an Ite/mux amount with few constants: distribute
    if let N::Ite(c, x, y) = node(b) { if is_const(*x) || is_const(*y) { let (l, r) = (bin(op, a, *x), bin(op, a, *y)); return ite(*c, l, r) } }
    if op == BinOp::AShr && info(a).slo >= 0 { return shift_sym(BinOp::LShr, a, b) }
    // few possible amounts: a multiplexer over constant shifts
    let i = info(b);
    if i.uhi - i.ulo < 8 {
        let n = (i.uhi - i.ulo + 1) as usize;
        let ents: Vec<ExprId> = (0..n).map(|k| bin(op, a, cst(w, i.ulo + k as u128))).collect();
        let idx = bin(BinOp::Sub, b, cst(w, i.ulo));
        return mux(&ents, idx);
    }
    mk(w, N::Bin(op, a, b))
}
// multiplexer over the bits of idx (idx < ents.len())
pub fn mux(ents: &[ExprId], idx: ExprId) -> ExprId {
    if ents.iter().all(|&x| x == ents[0]) { return ents[0] }
    let nb = usize::BITS - (ents.len() - 1).leading_zeros();
    let half = 1usize << (nb - 1);
    let bit = extract(idx, nb - 1, 1);
    let lo = mux(&ents[..half], idx);
    let hi = mux(&ents[half..], idx);
    ite(bit, hi, lo)
}
fn shl_const(a: ExprId, k: u32) -> ExprId { let w = width(a); if k == 0 { a } else if k >= w { cst(w, 0) } else { concat(&[cst(k, 0), extract(a, 0, w - k)]) } }
fn lshr_const(a: ExprId, k: u32) -> ExprId { let w = width(a); if k == 0 { a } else if k >= w { cst(w, 0) } else { concat(&[extract(a, k, w - k), cst(k, 0)]) } }

pub fn fold(op: BinOp, w: u32, x: u128, y: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        BinOp::Add => x.wrapping_add(y) & m,
        BinOp::Sub => x.wrapping_sub(y) & m,
        BinOp::Mul => x.wrapping_mul(y) & m,
        BinOp::UDiv => { if y == 0 { return None } x / y }
        BinOp::URem => { if y == 0 { return None } x % y }
        BinOp::SDiv => { if y == 0 { return None } (sx(x, w).wrapping_div(sx(y, w)) as u128) & m }
        BinOp::SRem => { if y == 0 { return None } (sx(x, w).wrapping_rem(sx(y, w)) as u128) & m }
        BinOp::And => x & y,
        BinOp::Or => x | y,
        BinOp::Xor => x ^ y,
        BinOp::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        BinOp::LShr => if y >= w as u128 { 0 } else { x >> y },
        BinOp::AShr => { let s = y.min((w - 1) as u128) as u32; ((sx(x, w) >> s) as u128) & m }
    })
}

pub fn and1(a: ExprId, b: ExprId) -> ExprId { bitop(BinOp::And, a, b) }
pub fn or1(a: ExprId, b: ExprId) -> ExprId { bitop(BinOp::Or, a, b) }
pub fn tru() -> ExprId { cst(1, 1) }
pub fn fls() -> ExprId { cst(1, 0) }

pub fn eq(a: ExprId, b: ExprId) -> ExprId {
    if a == b { return tru() }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let (x, y) = (info(a), info(b));
    if x.uhi < y.ulo || y.uhi < x.ulo || x.shi < y.slo || y.shi < x.slo { return fls() }
    let (a, b) = if is_const(a) || (!is_const(b) && a > b) { (b, a) } else { (a, b) };
    if let Some(k) = as_const(b) {
        if is_const(a) { return fls() }
        if w == 1 { return if k == 1 { a } else { not(a) } }
        match node(a).clone() {
            N::Concat(ps) => {
                let mut off = 0; let mut r = tru();
                for &p in ps.iter() { let pw = width(p); let e = eq(p, cst(pw, k >> off)); if e == fls() { return e } r = and1(r, e); off += pw; }
                return r;
            }
            N::SExt(x) => { let wx = width(x); return if sx(k, w) == sx(k & mask(wx), wx) { eq(x, cst(wx, k)) } else { fls() } }
            N::Not(x) => return eq(x, cst(w, !k)),
            N::Ite(c, t, f) => {
                let (et, ef) = (is_const(t), is_const(f));
                if et || ef { let (p, q) = (eq(t, b), eq(f, b)); if (et && ef) || is_const(p) && is_const(q) || p == fls() || q == fls() { return ite(c, p, q) } }
            }
            N::Bin(BinOp::Add, p, q) => { if let Some(c) = as_const(q) { return eq(p, cst(w, k.wrapping_sub(c))) } }
            N::Bin(BinOp::Sub, p, q) if k == 0 => return eq(p, q),
            N::Bin(BinOp::Xor, p, q) if k == 0 => return eq(p, q),
            N::Bin(BinOp::Or, p, q) if k == 0 => return and1(eq(p, b), eq(q, b)),
            N::Lookup(t, idx) => {
                let tb = &cx().tables[t as usize];
                if tb.all_const {
                    let hits: Vec<usize> = (0..tb.ent.len()).filter(|&i| tb.ent[i] == b).collect();
                    if hits.is_empty() { return fls() }
                    if hits.len() == tb.ent.len() { return tru() }
                    let wi = width(idx);
                    if hits.len() <= 4 { let mut r = fls(); for h in hits { r = or1(r, eq(idx, cst(wi, h as u128))) } return r }
                    let (l, h) = (hits[0], hits[hits.len() - 1]);
                    if h - l + 1 == hits.len() { return and1(not(ult(idx, cst(wi, l as u128))), not(ult(cst(wi, h as u128), idx))) }
                }
            }
            _ => {}
        }
        return mk(1, N::Eq(a, b));
    }
    // both symbolic
    if w == 1 { return not(bitop(BinOp::Xor, a, b)) }
    if let (N::SExt(p), N::SExt(q)) = (node(a), node(b)) { if width(*p) == width(*q) { return eq(*p, *q) } }
    if let (N::Ite(c, t, f), N::Ite(c2, t2, f2)) = (node(a).clone(), node(b).clone()) { if c == c2 { return ite(c, eq(t, t2), eq(f, f2)) } }
    if let (N::Bin(BinOp::Add, p, q), N::Bin(BinOp::Add, r, s)) = (node(a).clone(), node(b).clone()) {
        if q == s { return eq(p, r) } if p == r { return eq(q, s) } if p == s { return eq(q, r) } if q == r { return eq(p, s) }
    }
    let (pa, pb) = (pieces(a), pieces(b));
    if pa.len() > 1 || pb.len() > 1 {
        let mut cuts = vec![0, w];
        let add = |ps: &Vec<ExprId>, cuts: &mut Vec<u32>| { let mut off = 0; for &p in ps { cuts.push(off); off += width(p); } };
        add(&pa, &mut cuts); add(&pb, &mut cuts); cuts.sort(); cuts.dedup();
        let mut ra = vec![]; let mut rb = vec![]; let mut cond = tru(); let mut dropped = false;
        for i in 0..cuts.len() - 1 {
            let (lo, len) = (cuts[i], cuts[i + 1] - cuts[i]);
            let (p, q) = (extract(a, lo, len), extract(b, lo, len));
            if p == q { dropped = true; continue }
            if is_const(p) || is_const(q) { let e = eq(p, q); if e == fls() { return e } cond = and1(cond, e); dropped = true; continue }
            ra.push(p); rb.push(q);
        }
        if dropped {
            if ra.is_empty() { return cond }
            return and1(cond, eq(concat(&ra), concat(&rb)));
        }
    }
    mk(1, N::Eq(a, b))
}

pub fn ult(a: ExprId, b: ExprId) -> ExprId {
    if a == b { return fls() }
    let w = width(a);
    let (x, y) = (info(a), info(b));
    if x.uhi < y.ulo { return tru() }
    if x.ulo >= y.uhi { return fls() }
    // a comparison of the high bits, before they are dropped: terms stay shared
    if let Some(k) = as_const(b) { if k > 1 && k.is_power_of_two() { let t = k.trailing_zeros(); return eq(extract(a, t, w - t), cst(w - t, 0)) } }
    if let Some(k) = as_const(a) { if k > 0 && k < mask(w) && (k + 1).is_power_of_two() { let t = (k + 1).trailing_zeros(); return not(eq(extract(b, t, w - t), cst(w - t, 0))) } }
    // drop common high zero bits
    let m = x.uhi.max(y.uhi); let nb = (128 - m.leading_zeros()).max(1);
    if nb < w { return ult(extract(a, 0, nb), extract(b, 0, nb)) }
    if let Some(k) = as_const(b) {
        if k == 1 { return eq(a, cst(w, 0)) }
        if k == mask(w) { return not(eq(a, b)) }
        if k.is_power_of_two() { let t = k.trailing_zeros(); return eq(extract(a, t, w - t), cst(w - t, 0)) }
        // drop low bits when the bound is aligned
        let tz = k.trailing_zeros(); if tz > 0 { return ult(extract(a, tz, w - tz), cst(w - tz, k >> tz)) }
        if let N::Ite(c, t, f) = node(a).clone() { if is_const(t) || is_const(f) { return ite(c, ult(t, b), ult(f, b)) } }
    }
    if let Some(k) = as_const(a) {
        if k == 0 { return not(eq(b, a)) }
        let k1 = k + 1; // k < b  <=>  !(b < k+1)
        if k1 <= mask(w) { return not(ult(b, cst(w, k1))) }
        return fls();
    }
    // equal high parts
    mk(1, N::Ult(a, b))
}
pub fn slt(a: ExprId, b: ExprId) -> ExprId {
    if a == b { return fls() }
    let w = width(a);
    let (x, y) = (info(a), info(b));
    if x.shi < y.slo { return tru() }
    if x.slo >= y.shi { return fls() }
    if x.slo >= 0 && y.slo >= 0 { return ult(a, b) }
    if let Some(k) = as_const(b) { if k == 0 { return extract(a, w - 1, 1) } }
    if let Some(k) = as_const(a) {
        if k == mask(w) { return not(extract(b, w - 1, 1)) }
        // k < b <=> !(b < k+1)
        if w < 128 && k != mask(w) >> 1 { return not(slt(b, cst(w, k + 1))) }
    }
    match (node(a), node(b)) {
        (N::SExt(p), N::SExt(q)) => { let (p, q) = (*p, *q); let nw = width(p).max(width(q)); return slt(sext(p, nw), sext(q, nw)) }
        (N::SExt(p), N::Const(k)) => { let wp = width(*p); if sx(*k, w) == sx(k & mask(wp), wp) { return slt(*p, cst(wp, *k)) } }
        (N::Const(k), N::SExt(q)) => { let wq = width(*q); if sx(*k, w) == sx(k & mask(wq), wq) { return slt(cst(wq, *k), *q) } }
        (N::Ite(c, t, f), N::Const(_)) if is_const(*t) || is_const(*f) => { let (c, t, f) = (*c, *t, *f); return ite(c, slt(t, b), slt(f, b)) }
        _ => {}
    }
    mk(1, N::Slt(a, b))
}

pub fn ite(c: ExprId, a: ExprId, b: ExprId) -> ExprId {
    if a == b { return a }
    match node(c).clone() { N::Const(v) => return if v == 1 { a } else { b }, N::Not(x) => return ite(x, b, a), _ => {} }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return or1(c, b),
            (Some(0), _) => return and1(not(c), b),
            (_, Some(0)) => return and1(c, a),
            (_, Some(1)) => return or1(not(c), a),
            _ => {}
        }
    }
    if let N::Ite(c2, x, _) = node(a) { if *c2 == c { let x = *x; return ite(c, x, b) } }
    if let N::Ite(c2, _, y) = node(b) { if *c2 == c { let y = *y; return ite(c, a, y) } }
    if let N::Ite(c2, x, y) = node(b).clone() { if x == a { return ite(or1(c, c2), a, y) } if y == a { return ite(bitop(BinOp::And, not(c), c2), x, a) } }
    // factor common constant pieces (typically zero extension)
    let (pa, pb) = (pieces(a), pieces(b));
    let (ta, tb) = (*pa.last().unwrap(), *pb.last().unwrap());
    let (za, zb) = (info(a).uhi, info(b).uhi);
    let m = za | zb; let nb = (128 - m.leading_zeros()).max(1);
    if nb < w { return zext(ite(c, extract(a, 0, nb), extract(b, 0, nb)), w) }
    if pa.len() > 1 && pb.len() > 1 {
        if ta == tb { let tw = width(ta); return concat(&[ite(c, extract(a, 0, w - tw), extract(b, 0, w - tw)), ta]) }
        if pa[0] == pb[0] { let tw = width(pa[0]); return concat(&[pa[0], ite(c, extract(a, tw, w - tw), extract(b, tw, w - tw))]) }
    }
    mk(w, N::Ite(c, a, b))
}

// c[0], c[0] + s, c[0] + 2 s, ...
fn progression(c: &[u128], idx: ExprId, w: u32) -> Option<ExprId> {
    let n = c.len();
    if n < 2 { return None }
    let s = c[1].wrapping_sub(c[0]) & mask(w);
    if !(1..n).all(|i| c[i].wrapping_sub(c[i - 1]) & mask(w) == s) { return None }
    let iw = width(idx);
    let i2 = if iw >= w { extract(idx, 0, w) } else { zext(idx, w) };
    // keep only the meaningful index bits so that the range is known
    let nb = (usize::BITS - (n - 1).leading_zeros()).min(w);
    let i3 = zext(extract(i2, 0, nb), w);
    let k = if s == 0 { 0 } else { s.trailing_zeros() };
    if k > 0 && k < w {
        // the low bits never change
        let hi = bin(BinOp::Add, bin(BinOp::Mul, extract(i3, 0, w - k), cst(w - k, s >> k)), cst(w - k, (c[0] & mask(w)) >> k));
        return Some(concat(&[cst(k, c[0] & mask(k)), hi]));
    }
    Some(bin(BinOp::Add, bin(BinOp::Mul, i3, cst(w, s)), cst(w, c[0])))
}

pub fn lookup(ents: Vec<ExprId>, idx: ExprId) -> ExprId {
    // value ents[idx]; the caller guarantees idx < ents.len()
    if let Some(i) = as_const(idx) { return ents[i as usize] }
    let w = width(ents[0]);
    if ents.iter().all(|&x| x == ents[0]) { return ents[0] }
    let inf = info(idx);
    if inf.ulo > 0 || inf.uhi < (ents.len() as u128) - 1 {
        let lo = inf.ulo as usize; let hi = (inf.uhi as usize).min(ents.len() - 1);
        if lo > 0 || hi + 1 < ents.len() {
            // constant high bits are handled by the compression below; otherwise cut the top only
            if hi + 1 < ents.len() { return lookup(ents[..=hi].to_vec(), idx) }
        }
    }
    if let N::Ite(c, t, f) = node(idx).clone() { if is_const(t) || is_const(f) {
        let okt = info(t).uhi < ents.len() as u128; let okf = info(f).uhi < ents.len() as u128;
        if okt && okf { return ite(c, lookup(ents.clone(), t), lookup(ents, f)) }
    } }
    // compress to the symbolic bits
    let ps = pieces(idx);
    if ps.len() > 1 && ps.iter().any(|&p| is_const(p)) {
        let sbits: u32 = ps.iter().filter(|&&p| !is_const(p)).map(|&p| width(p)).sum();
        if sbits <= 17 {
            let n = 1usize << sbits;
            let mut t = Vec::with_capacity(n);
            for j in 0..n {
                let mut v: u128 = 0; let mut off = 0; let mut used = 0;
                for &p in &ps { let pw = width(p); if let Some(c) = as_const(p) { v |= c << off } else { v |= ((j as u128 >> used) & mask(pw)) << off; used += pw; } off += pw; }
                // combinations beyond the table are excluded by the path condition
                t.push(if (v as usize) < ents.len() { ents[v as usize] } else { *t.last().unwrap_or(&ents[0]) });
            }
            let ci = concat(&ps.iter().cloned().filter(|&p| !is_const(p)).collect::<Vec<_>>());
            return lookup(t, ci);
        }
    }
    let n = ents.len();
    let all_const = ents.iter().all(|&e| is_const(e));
    if all_const && n > 2 {
        let c: Vec<u128> = ents.iter().map(|&e| as_const(e).unwrap()).collect();
        if let Some(r) = progression(&c, idx, w) { return r }
        if n.is_power_of_two() && info(idx).uhi < n as u128 {
            let nb = n.trailing_zeros();
            let id = if width(idx) > nb { extract(idx, 0, nb) } else { idx };
            if width(id) == nb {
                // bits of the index that do not matter
                let keep: Vec<u32> = (0..nb).filter(|&b| (0..n).any(|i| i >> b & 1 == 0 && c[i] != c[i | 1 << b])).collect();
                if keep.len() < nb as usize {
                    let m = 1usize << keep.len();
                    let t: Vec<ExprId> = (0..m).map(|j| { let mut i = 0; for (k, &b) in keep.iter().enumerate() { i |= (j >> k & 1) << b } ents[i] }).collect();
                    let ps: Vec<ExprId> = keep.iter().map(|&b| extract(id, b, 1)).collect();
                    return lookup(t, concat(&ps));
                }
                // two progressions, as for numbers with an implied sign
                if n > 4 {
                    let (lo, hi) = (extract(id, 0, nb - 1), extract(id, nb - 1, 1));
                    if let (Some(a), Some(b)) = (progression(&c[..n / 2], lo, w), progression(&c[n / 2..], lo, w)) { return ite(hi, b, a) }
                }
            }
        }
    }
    let nb = usize::BITS - (n - 1).leading_zeros();
    let idx = if width(idx) > nb { extract(idx, 0, nb) } else { idx };
    if n <= 16 { return mux(&ents, idx) }
    // entries below the least index do not matter
    let mut ents = ents;
    let least = (inf.ulo as usize).min(n - 1);
    if least > 0 && all_const && ents[..least].iter().any(|&e| e != ents[least]) { let f = ents[least]; for e in &mut ents[..least] { *e = f } }
    let c = cx();
    let t = if let Some(&t) = c.tablemap.get(&ents) { t } else {
        let t = c.tables.len() as u32;
        let (mut ulo, mut uhi, mut slo, mut shi) = (u128::MAX, 0, i128::MAX, i128::MIN);
        for &e in &ents { let i = info(e); ulo = ulo.min(i.ulo); uhi = uhi.max(i.uhi); slo = slo.min(i.slo); shi = shi.max(i.shi); }
        c.tables.push(Table { w, ent: ents.clone(), all_const, ulo, uhi, slo, shi });
        c.tablemap.insert(ents, t);
        t
    };
    mk(w, N::Lookup(t, idx))
}

// ---------------------------------------------------------------- floats
pub fn f32v(v: u128) -> f32 { f32::from_bits(v as u32) }
pub fn f64v(v: u128) -> f64 { f64::from_bits(v as u64) }
fn fget(w: u32, v: u128) -> f64 { if w == 32 { f32v(v) as f64 } else { f64v(v) } }

pub fn ffold(op: FOp, w: u32, x: u128, y: u128) -> u128 {
    if w == 32 {
        let (a, b) = (f32v(x), f32v(y));
        (match op { FOp::Add => a + b, FOp::Sub => a - b, FOp::Mul => a * b, FOp::Div => a / b, FOp::Rem => a % b }).to_bits() as u128
    } else {
        let (a, b) = (f64v(x), f64v(y));
        (match op { FOp::Add => a + b, FOp::Sub => a - b, FOp::Mul => a * b, FOp::Div => a / b, FOp::Rem => a % b }).to_bits() as u128
    }
}
pub fn fcmpfold(p: FPred, w: u32, x: u128, y: u128) -> bool {
    let (a, b) = (fget(w, x), fget(w, y));
    let r = if a.is_nan() || b.is_nan() { 8 } else if a == b { 1 } else if a > b { 2 } else { 4 };
    p & r != 0
}
// the float as an exact integer: (signed integer expression of 64 bits)
fn exact_int(e: ExprId) -> Option<ExprId> {
    let w = width(e);
    let lim: i128 = if w == 32 { 1 << 24 } else { 1 << 52 };
    match node(e) {
        N::FFromU(x) => { let x = *x; let i = info(x); if i.uhi <= lim as u128 && i.w <= 64 { Some(zext(x, 64)) } else { None } }
        N::FFromS(x) => { let x = *x; let i = info(x); if i.slo >= -lim && i.shi <= lim && i.w <= 64 { Some(sext(x, 64)) } else { None } }
        N::Const(v) => { let f = fget(w, *v); if f == f.trunc() && f.abs() <= lim as f64 && !(f == 0.0 && f.is_sign_negative()) { Some(cst(64, (f as i64) as u128 & mask(64))) } else { None } }
        _ => None,
    }
}
fn from_int(w: u32, x: ExprId) -> ExprId {
    // x: 64-bit signed, canonical narrow form
    let i = info(x);
    if let Some(v) = as_const(x) { let f = sx(v, 64); return if w == 32 { cst(32, (f as f32).to_bits() as u128) } else { cst(64, (f as f64).to_bits() as u128) } }
    if i.slo >= 0 { let nb = (128 - i.uhi.leading_zeros()).max(1); let n = extract(x, 0, nb); return mk(w, N::FFromU(n)) }
    let mut nb = 2; while nb < 64 && !(i.slo >= -(1i128 << (nb - 1)) && i.shi < (1i128 << (nb - 1))) { nb += 1 }
    mk(w, N::FFromS(extract(x, 0, nb)))
}
pub fn frange(e: ExprId) -> (f64, f64) {
    // bounds when the value is known not to be NaN; (-inf, inf) otherwise
    let (l, h, n) = fiv(e);
    if n { (f64::NEG_INFINITY, f64::INFINITY) } else { (l, h) }
}
// bounds of what is not NaN, and whether it may be NaN.  Rounding is monotone, so the rounded ends bound
// the rounded values.
pub fn fiv(e: ExprId) -> (f64, f64, bool) {
    const INF: f64 = f64::INFINITY;
    let w = width(e);
    let hull = |v: &[f64]| (v.iter().cloned().fold(INF, f64::min), v.iter().cloned().fold(-INF, f64::max));
    if let N::Const(v) = node(e) { let f = fget(w, *v); return if f.is_nan() { (-INF, INF, true) } else { (f, f, false) } }
    if let Some(r) = cx().fivs.get(&e) { return *r }
    let r = match node(e).clone() {
        N::FFromU(x) => { let i = info(x); (rnd(w, i.ulo as f64), rnd(w, i.uhi as f64), false) }
        N::FFromS(x) => { let i = info(x); (rnd(w, i.slo as f64), rnd(w, i.shi as f64), false) }
        N::Lookup(t, _) if cx().tables[t as usize].all_const => { let (mut l, mut h) = (INF, -INF); let mut n = false; for &x in &cx().tables[t as usize].ent { let f = fget(w, as_const(x).unwrap()); if f.is_nan() { n = true } else { l = l.min(f); h = h.max(f) } } if l > h { (-INF, INF, true) } else { (l, h, n) } }
        N::Ite(_, a, b) => { let (x, y) = (fiv(a), fiv(b)); (x.0.min(y.0), x.1.max(y.1), x.2 | y.2) }
        N::FConv(a) => { let x = fiv(a); (rnd(w, x.0), rnd(w, x.1), x.2) }
        N::FMinMax(mx, a, b) => {
            let (x, y) = (fiv(a), fiv(b));
            let mut r = if mx { (x.0.max(y.0), x.1.max(y.1), x.2 & y.2) } else { (x.0.min(y.0), x.1.min(y.1), x.2 & y.2) };
            if x.2 { r.0 = r.0.min(y.0); r.1 = r.1.max(y.1) }
            if y.2 { r.0 = r.0.min(x.0); r.1 = r.1.max(x.1) }
            r
        }
        N::FUnary(k, a) => { let x = fiv(a); match k { FUn::Floor => (x.0.floor(), x.1.floor(), x.2), FUn::Ceil => (x.0.ceil(), x.1.ceil(), x.2), FUn::Trunc => (x.0.trunc(), x.1.trunc(), x.2), _ => (-INF, INF, true) } }
        N::FBin(op, a, b) => {
            let (x, y) = (fiv(a), fiv(b));
            let infs = |v: (f64, f64, bool)| v.0 == -INF || v.1 == INF;
            let zero = |v: (f64, f64, bool)| v.0 <= 0.0 && v.1 >= 0.0;
            let nan = x.2 | y.2;
            match op {
                FOp::Add | FOp::Sub => {
                    let (yl, yh) = if op == FOp::Add { (y.0, y.1) } else { (-y.1, -y.0) };
                    let n = nan | (x.1 == INF && yl == -INF) | (x.0 == -INF && yh == INF);
                    let (l, h) = (x.0 + yl, x.1 + yh);
                    (if l.is_nan() { -INF } else { rnd(w, l) }, if h.is_nan() { INF } else { rnd(w, h) }, n)
                }
                FOp::Mul => {
                    let n = nan | (infs(x) && zero(y)) | (infs(y) && zero(x));
                    let v = [x.0 * y.0, x.0 * y.1, x.1 * y.0, x.1 * y.1];
                    if v.iter().any(|f| f.is_nan()) { (-INF, INF, n) } else { let (l, h) = hull(&v); (rnd(w, l), rnd(w, h), n) }
                }
                FOp::Div => {
                    let n = nan | (infs(x) && infs(y)) | (zero(x) && zero(y));
                    if zero(y) { (-INF, INF, n) } else {
                        let v = [x.0 / y.0, x.0 / y.1, x.1 / y.0, x.1 / y.1];
                        if v.iter().any(|f| f.is_nan()) { (-INF, INF, n) } else { let (l, h) = hull(&v); (rnd(w, l), rnd(w, h), n) }
                    }
                }
                _ => (-INF, INF, true),
            }
        }
        _ => (-INF, INF, true),
    };
    cx().fivs.insert(e, r);
    r
}
fn rnd(w: u32, f: f64) -> f64 { if w == 32 { f as f32 as f64 } else { f } }

pub fn fbin(op: FOp, a: ExprId, b: ExprId) -> ExprId {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) { return cst(w, ffold(op, w, x, y)) }
    let lim: i128 = if w == 32 { 1 << 24 } else { 1 << 52 };
    if matches!(op, FOp::Add | FOp::Sub | FOp::Mul) {
        if let (Some(x), Some(y)) = (exact_int(a), exact_int(b)) {
            let neg0 = op == FOp::Mul && (info(x).slo < 0 || info(y).slo < 0);
            if !neg0 {
                let r = bin(match op { FOp::Add => BinOp::Add, FOp::Sub => BinOp::Sub, _ => BinOp::Mul }, x, y);
                let i = info(r);
                if i.slo >= -lim && i.shi <= lim { return from_int(w, r) }
            }
        }
    }
    if op == FOp::Mul || op == FOp::Div { if let Some(y) = as_const(b) { if fget(w, y) == 1.0 { return a } } }
    if op == FOp::Mul { if let Some(x) = as_const(a) { if fget(w, x) == 1.0 { return b } } }
    // x + 0.0 for a value that is never -0.0
    if op == FOp::Add { if let (Some(y), true) = (as_const(b), never_neg0(a)) { if fget(w, y) == 0.0 { return a } } if let (Some(x), true) = (as_const(a), never_neg0(b)) { if fget(w, x) == 0.0 { return b } } }
    if op == FOp::Sub { if let Some(y) = as_const(b) { if y == 0 { return a } } }
    let (a, b) = if (op == FOp::Add || op == FOp::Mul) && (is_const(a) || (!is_const(b) && a > b)) { (b, a) } else { (a, b) };
    mk(w, N::FBin(op, a, b))
}
fn never_neg0(e: ExprId) -> bool { match node(e) { N::FFromU(_) | N::FFromS(_) => true, N::FBin(FOp::Add, a, b) => never_neg0(*a) || never_neg0(*b), N::FBin(FOp::Mul | FOp::Div, a, b) => nonneg(*a) && nonneg(*b), _ => nonneg(e) } }
fn nonneg(e: ExprId) -> bool { let w = width(e); match node(e) { N::FFromU(_) => true, N::Const(v) => (v >> (w - 1)) & 1 == 0, N::FBin(FOp::Add | FOp::Mul | FOp::Div, a, b) => nonneg(*a) && nonneg(*b), _ => false } }
pub fn fcmp(p: FPred, a: ExprId, b: ExprId) -> ExprId {
    let w = width(a);
    if p == 0 { return fls() } if p == 15 { return tru() }
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) { return cst(1, fcmpfold(p, w, x, y) as u128) }
    if let (Some(x), Some(y)) = (exact_int(a), exact_int(b)) {
        let mut r = fls();
        if p & 1 != 0 { r = or1(r, eq(x, y)) }
        if p & 2 != 0 && p & 4 != 0 { r = or1(r, not(eq(x, y))) }
        else if p & 2 != 0 { r = if p & 1 != 0 { not(slt(x, y)) } else { slt(y, x) } }
        else if p & 4 != 0 { r = if p & 1 != 0 { not(slt(y, x)) } else { slt(x, y) } }
        return r;
    }
    // integer against a constant with a fraction
    if let (Some(x), Some(k)) = (exact_int(a), as_const(b)) {
        let f = fget(w, k);
        if f.is_nan() { return cst(1, (p & 8 != 0) as u128) }
        if f.abs() < 1e15 {
            let fl = f.floor() as i64; // x < f  <=> x <= fl (f is not an integer in range, or huge)
            if f != f.floor() {
                let lt = slt(x, cst(64, (fl + 1) as u64 as u128));
                let mut r = fls();
                if p & 4 != 0 { r = or1(r, lt) }
                if p & 2 != 0 { r = or1(r, not(lt)) }
                return r;
            }
        } else { return cst(1, ((if f > 0.0 { p & 4 } else { p & 2 }) != 0) as u128) }
    }
    if a == b && p & 9 == 9 { return tru() }
    let (x, y) = (fiv(a), fiv(b));
    if !x.2 && !y.2 {
        if x.1 < y.0 { return cst(1, (p & 4 != 0) as u128) }
        if x.0 > y.1 { return cst(1, (p & 2 != 0) as u128) }
        if x.1 <= y.0 { if p & 5 == 5 { return tru() } if p & 5 == 0 { return fls() } }
        if x.0 >= y.1 { if p & 3 == 3 { return tru() } if p & 3 == 0 { return fls() } }
    }
    mk(1, N::FCmp(p, a, b))
}
pub fn fminmax(max: bool, a: ExprId, b: ExprId) -> ExprId {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) { return cst(w, fminmaxfold(max, w, x, y)) }
    if let (Some(x), Some(y)) = (exact_int(a), exact_int(b)) {
        let c = slt(x, y);
        return from_int(w, if max { ite(c, y, x) } else { ite(c, x, y) });
    }
    if a == b { return a }
    let (a, b) = if is_const(a) || (!is_const(b) && a > b) { (b, a) } else { (a, b) };
    mk(w, N::FMinMax(max, a, b))
}
fn fminmaxfold(max: bool, w: u32, x: u128, y: u128) -> u128 {
    if w == 32 { let (a, b) = (f32v(x), f32v(y)); (if max { a.max(b) } else { a.min(b) }).to_bits() as u128 }
    else { let (a, b) = (f64v(x), f64v(y)); (if max { a.max(b) } else { a.min(b) }).to_bits() as u128 }
}
pub fn ffrom(signed: bool, x: ExprId, w: u32) -> ExprId {
    if let Some(v) = as_const(x) { return cst(w, ffromfold(signed, width(x), v, w)) }
    let i = info(x);
    let lim: i128 = if w == 32 { 1 << 24 } else { 1 << 52 };
    if i.w <= 64 {
        if !signed && i.uhi <= lim as u128 { return from_int(w, zext(x, 64)) }
        if signed && i.slo >= -lim && i.shi <= lim { return from_int(w, sext(x, 64)) }
    }
    if signed && i.slo < 0 { mk(w, N::FFromS(x)) } else { mk(w, N::FFromU(x)) }
}
fn ffromfold(signed: bool, wx: u32, v: u128, w: u32) -> u128 {
    if w == 32 { (if signed { sx(v, wx) as f32 } else { v as f32 }).to_bits() as u128 } else { (if signed { sx(v, wx) as f64 } else { v as f64 }).to_bits() as u128 }
}
pub fn fto(signed: bool, x: ExprId, w: u32) -> ExprId {
    let wx = width(x);
    if let Some(v) = as_const(x) { return cst(w, ftofold(signed, wx, v, w)) }
    if let Some(i) = exact_int(x) {
        let inf = info(i);
        if !signed && inf.slo >= 0 && inf.shi <= mask(w.min(64)) as i128 { return if w >= 64 { zext(i, w) } else { extract(i, 0, w) } }
        if signed && (w >= 64 || (inf.slo >= -(1i128 << (w - 1)) && inf.shi < (1i128 << (w - 1)))) { return if w >= 64 { sext(i, w) } else { extract(i, 0, w) } }
    }
    if signed { mk(w, N::FToS(x)) } else { mk(w, N::FToU(x)) }
}
fn ftofold(signed: bool, wx: u32, v: u128, w: u32) -> u128 {
    let f = fget(wx, v);
    if f.is_nan() { return 0 }
    if signed {
        let lo = if w >= 128 { i128::MIN } else { -(1i128 << (w - 1)) }; let hi = if w >= 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 };
        (f as i128).max(lo).min(hi) as u128 & mask(w)
    } else { (f as u128).min(mask(w)) }
}
pub fn fconv(x: ExprId, w: u32) -> ExprId {
    if width(x) == w { return x }
    if let Some(v) = as_const(x) { return cst(w, fconvfold(v, w)) }
    if let Some(i) = exact_int(x) { if w == 64 || (info(i).slo >= -(1 << 24) && info(i).shi <= 1 << 24) { return from_int(w, i) } }
    mk(w, N::FConv(x))
}
fn fconvfold(v: u128, w: u32) -> u128 { if w == 64 { (f32v(v) as f64).to_bits() as u128 } else { (f64v(v) as f32).to_bits() as u128 } }
pub fn funary(k: FUn, x: ExprId) -> ExprId {
    let w = width(x);
    if let Some(v) = as_const(x) { return cst(w, funaryfold(k, w, v)) }
    if k != FUn::Sqrt && exact_int(x).is_some() { return x }
    mk(w, N::FUnary(k, x))
}
fn funaryfold(k: FUn, w: u32, v: u128) -> u128 {
    macro_rules! g { ($f:expr) => {{ let f = $f; match k { FUn::Floor => f.floor(), FUn::Ceil => f.ceil(), FUn::Trunc => f.trunc(), FUn::Rint => f.round_ties_even(), FUn::Round => f.round(), FUn::Sqrt => f.sqrt() } }} }
    if w == 32 { g!(f32v(v)).to_bits() as u128 } else { g!(f64v(v)).to_bits() as u128 }
}
extern "C" { fn powf(a: f32, b: f32) -> f32; fn cbrtf(a: f32) -> f32; fn pow(a: f64, b: f64) -> f64; fn cbrt(a: f64) -> f64; fn expf(a: f32) -> f32; fn logf(a: f32) -> f32; fn exp(a: f64) -> f64; fn log(a: f64) -> f64; fn log2f(a: f32) -> f32; fn exp2f(a: f32) -> f32; }
pub const FCALLS: &[&str] = &["powf", "cbrtf", "pow", "cbrt", "expf", "logf", "exp", "log", "log2f", "exp2f"];
pub fn fcall(f: u32, a: ExprId, b: ExprId) -> ExprId {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) { return cst(w, fcallfold(f, x, y)) }
    mk(w, N::FCall(f, a, b))
}
pub fn fcallfold(f: u32, x: u128, y: u128) -> u128 {
    unsafe {
        match f {
            0 => powf(f32v(x), f32v(y)).to_bits() as u128,
            1 => cbrtf(f32v(x)).to_bits() as u128,
            2 => pow(f64v(x), f64v(y)).to_bits() as u128,
            3 => cbrt(f64v(x)).to_bits() as u128,
            4 => expf(f32v(x)).to_bits() as u128,
            5 => logf(f32v(x)).to_bits() as u128,
            6 => exp(f64v(x)).to_bits() as u128,
            7 => log(f64v(x)).to_bits() as u128,
            8 => log2f(f32v(x)).to_bits() as u128,
            _ => exp2f(f32v(x)).to_bits() as u128,
        }
    }
}

// ---------------------------------------------------------------- evaluation under an assignment
pub struct Eval<'a> { pub model: &'a HashMap<u32, u128>, memo: HashMap<ExprId, u128> }
impl<'a> Eval<'a> {
    pub fn new(model: &'a HashMap<u32, u128>) -> Eval<'a> { Eval { model, memo: HashMap::new() } }
    pub fn eval(&mut self, e: ExprId) -> u128 {
        if let N::Const(v) = node(e) { return *v }
        if let Some(&v) = self.memo.get(&e) { return v }
        // iterative to avoid deep recursion
        let mut stack = vec![(e, false)];
        while let Some((x, ready)) = stack.pop() {
            if self.memo.contains_key(&x) || is_const(x) { continue }
            if !ready { stack.push((x, true)); for k in children(x) { if !self.memo.contains_key(&k) && !is_const(k) { stack.push((k, false)) } } continue }
            let v = self.step(x);
            self.memo.insert(x, v);
        }
        self.memo[&e]
    }
    fn v(&self, e: ExprId) -> u128 { if let N::Const(v) = node(e) { *v } else { self.memo[&e] } }
    fn step(&mut self, e: ExprId) -> u128 {
        let w = width(e);
        match node(e).clone() {
            N::Const(v) => v,
            N::Var(i) => self.model.get(&i).cloned().unwrap_or(0) & mask(w),
            N::Concat(ps) => { let mut r = 0; let mut off = 0; for &p in ps.iter() { r |= self.v(p) << off; off += width(p); } r }
            N::Extract(b, lo) => (self.v(b) >> lo) & mask(w),
            N::SExt(b) => sx(self.v(b), width(b)) as u128 & mask(w),
            N::Bin(op, a, b) => { let (x, y) = (self.v(a), self.v(b)); fold(op, w, x, y).unwrap_or_else(|| match op { BinOp::UDiv => mask(w), BinOp::URem | BinOp::SRem => x, _ => if sx(x, w) < 0 { 1 } else { mask(w) } }) }
            N::Not(a) => !self.v(a) & mask(w),
            N::Ite(c, a, b) => if self.v(c) == 1 { self.v(a) } else { self.v(b) },
            N::Eq(a, b) => (self.v(a) == self.v(b)) as u128,
            N::Ult(a, b) => (self.v(a) < self.v(b)) as u128,
            N::Slt(a, b) => (sx(self.v(a), width(a)) < sx(self.v(b), width(b))) as u128,
            N::Lookup(t, i) => { let i = self.v(i) as usize; let t = &cx().tables[t as usize]; if i < t.ent.len() { let x = t.ent[i]; if is_const(x) { self.v(x) } else { self.v(x) } } else { 0 } }
            N::FBin(op, a, b) => ffold(op, w, self.v(a), self.v(b)),
            N::FMinMax(m, a, b) => fminmaxfold(m, w, self.v(a), self.v(b)),
            N::FCmp(p, a, b) => fcmpfold(p, width(a), self.v(a), self.v(b)) as u128,
            N::FFromU(a) => ffromfold(false, width(a), self.v(a), w),
            N::FFromS(a) => ffromfold(true, width(a), self.v(a), w),
            N::FToU(a) => ftofold(false, width(a), self.v(a), w),
            N::FToS(a) => ftofold(true, width(a), self.v(a), w),
            N::FConv(a) => fconvfold(self.v(a), w),
            N::FUnary(k, a) => funaryfold(k, w, self.v(a)),
            N::FCall(f, a, b) => fcallfold(f, self.v(a), self.v(b)),
        }
    }
}
pub fn children(e: ExprId) -> Vec<ExprId> {
    match node(e) {
        N::Const(_) | N::Var(_) => vec![],
        N::Concat(ps) => ps.to_vec(),
        N::Extract(a, _) | N::SExt(a) | N::Not(a) | N::FFromU(a) | N::FFromS(a) | N::FToU(a) | N::FToS(a) | N::FConv(a) | N::FUnary(_, a) => vec![*a],
        N::Lookup(t, i) => { let t = &cx().tables[*t as usize]; if t.all_const { vec![*i] } else { let mut v = t.ent.clone(); v.push(*i); v } }
        N::Bin(_, a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) | N::FBin(_, a, b) | N::FMinMax(_, a, b) | N::FCmp(_, a, b) | N::FCall(_, a, b) => vec![*a, *b],
        N::Ite(c, a, b) => vec![*c, *a, *b],
    }
}

// abbreviated rendering, for diagnostics
pub fn show(e: ExprId, d: u32) -> String {
    let w = width(e);
    if let Some(v) = as_const(e) { return format!("{:#x}:{}", v, w) }
    if let N::Var(i) = node(e) { return cx().vars[*i as usize].0.clone() }
    let name = match node(e) { N::Concat(_) => "concat".to_string(), N::Extract(_, lo) => format!("bits{}+{}", lo, w), N::SExt(_) => "sext".into(), N::Bin(o, _, _) => format!("{:?}", o), N::Not(_) => "not".into(), N::Ite(..) => "ite".into(), N::Eq(..) => "eq".into(), N::Ult(..) => "ult".into(), N::Slt(..) => "slt".into(), N::Lookup(t, _) => format!("table{}[{}]", t, cx().tables[*t as usize].ent.len()), _ => "float".into() };
    if d == 0 { return format!("{}:{}#{}", name, w, e) }
    let ch: Vec<ExprId> = match node(e) { N::Lookup(_, i) => vec![*i], _ => children(e) };
    let name = if std::env::var_os("SYMIR_RANGE").is_some() { let i = info(e); format!("{}<{}..{}>", name, i.slo, i.shi) } else { name };
    format!("({}:{} {})", name, w, ch.iter().take(9).map(|c| show(*c, d - 1)).collect::<Vec<_>>().join(" "))
}
