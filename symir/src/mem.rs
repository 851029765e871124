// Object memory: every object owns the address window (id << 32); contents are concrete
// bytes with an optional per-byte symbolic overlay.  Forked states share objects (copy on write).
use crate::expr::*;
use crate::ir::{ExprId, Val};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Cell { pub e: ExprId, pub i: u8 } // byte i of expression e; e == NOEXPR: concrete
pub const NOEXPR: ExprId = u32::MAX;

#[derive(Clone)]
pub struct Obj { pub bytes: Vec<u8>, pub sym: Option<Box<Vec<Cell>>>, pub constant: bool, pub heap: bool }

const CH: usize = 64;
#[derive(Clone)]
struct Chunk { o: [Option<Rc<Obj>>; CH] }
impl Chunk { fn new() -> Chunk { Chunk { o: std::array::from_fn(|_| None) } } }

#[derive(Clone)]
pub struct Mem { chunks: Vec<Option<Rc<Chunk>>>, pub next: u64, free: Vec<u64>, pub live: u64 }

impl Mem {
    pub fn new(first: u64) -> Mem { Mem { chunks: vec![], next: first, free: vec![], live: 0 } }
    pub fn get(&self, id: u64) -> Option<&Obj> {
        let c = (id as usize) / CH;
        match self.chunks.get(c) { Some(Some(ch)) => ch.o[id as usize % CH].as_deref(), _ => None }
    }
    pub fn get_rc(&self, id: u64) -> Option<Rc<Obj>> {
        let c = (id as usize) / CH;
        match self.chunks.get(c) { Some(Some(ch)) => ch.o[id as usize % CH].clone(), _ => None }
    }
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        let c = (id as usize) / CH;
        match self.chunks.get_mut(c) {
            Some(Some(ch)) => {
                if ch.o[id as usize % CH].is_none() { return None }
                let ch = Rc::make_mut(ch);
                ch.o[id as usize % CH].as_mut().map(|r| Rc::make_mut(r))
            }
            _ => None,
        }
    }
    pub fn put(&mut self, id: u64, o: Obj) {
        let c = (id as usize) / CH;
        while self.chunks.len() <= c { self.chunks.push(None) }
        let ch = self.chunks[c].get_or_insert_with(|| Rc::new(Chunk::new()));
        Rc::make_mut(ch).o[id as usize % CH] = Some(Rc::new(o));
    }
    pub fn put_rc(&mut self, id: u64, o: Rc<Obj>) {
        let c = (id as usize) / CH;
        while self.chunks.len() <= c { self.chunks.push(None) }
        let ch = self.chunks[c].get_or_insert_with(|| Rc::new(Chunk::new()));
        Rc::make_mut(ch).o[id as usize % CH] = Some(o);
    }
    pub fn alloc(&mut self, size: u64, heap: bool) -> u64 {
        let id = self.next; self.next += 1;
        self.live += size;
        self.put(id, Obj { bytes: vec![0; size as usize], sym: None, constant: false, heap });
        id << 32
    }
    pub fn remove(&mut self, id: u64) -> bool {
        let c = (id as usize) / CH;
        if let Some(Some(ch)) = self.chunks.get_mut(c) {
            let ch = Rc::make_mut(ch);
            if let Some(o) = ch.o[id as usize % CH].take() { self.live -= o.bytes.len() as u64; if self.free.is_empty() {} return true }
        }
        false
    }
}

impl Obj {
    pub fn is_sym(&self, off: usize, n: usize) -> bool { match &self.sym { None => false, Some(s) => s[off..off + n].iter().any(|c| c.e != NOEXPR) } }
    pub fn load(&self, off: usize, n: usize, w: u32) -> Val {
        if let Some(s) = &self.sym {
            let cs = &s[off..off + n];
            if cs.iter().any(|c| c.e != NOEXPR) {
                let c0 = cs[0];
                if c0.e != NOEXPR && c0.i == 0 {
                    let we = width(c0.e);
                    if (we as usize + 7) / 8 == n && cs.iter().enumerate().all(|(k, c)| c.e == c0.e && c.i as usize == k) {
                        let e = c0.e;
                        return norm(if we == w { e } else if we > w { extract(e, 0, w) } else { zext(e, w) });
                    }
                }
                let mut ps = vec![]; let mut k = 0;
                while k < n {
                    let c = cs[k];
                    if c.e == NOEXPR { ps.push(cst(8, self.bytes[off + k] as u128)); k += 1; continue }
                    // run of consecutive bytes of one expression
                    let mut j = k + 1;
                    while j < n && cs[j].e == c.e && cs[j].i as usize == c.i as usize + (j - k) { j += 1 }
                    let lo = c.i as u32 * 8; let we = width(c.e);
                    let len = ((j - k) as u32 * 8).min(we - lo);
                    ps.push(extract(c.e, lo, len));
                    let pad = (j - k) as u32 * 8 - len;
                    if pad > 0 { ps.push(cst(pad, 0)) }
                    k = j;
                }
                let e = concat(&ps);
                let we = width(e);
                return norm(if we == w { e } else { extract(e, 0, w) });
            }
        }
        if n <= 8 {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&self.bytes[off..off + n]);
            Val::C(u64::from_le_bytes(b) & mask64(w))
        } else {
            let mut v = 0u128;
            for k in 0..n { v |= (self.bytes[off + k] as u128) << (8 * k) }
            Val::E(cst(w, v))
        }
    }
    pub fn store(&mut self, off: usize, n: usize, v: &Val) {
        match v {
            Val::C(x) => {
                let b = x.to_le_bytes();
                self.bytes[off..off + n].copy_from_slice(&b[..n]);
                if let Some(s) = &mut self.sym { for c in &mut s[off..off + n] { c.e = NOEXPR } }
            }
            Val::E(e) => {
                if let Some(x) = as_const(*e) {
                    for k in 0..n { self.bytes[off + k] = (x >> (8 * k)) as u8 }
                    if let Some(s) = &mut self.sym { for c in &mut s[off..off + n] { c.e = NOEXPR } }
                    return;
                }
                let len = self.bytes.len();
                let s = self.sym.get_or_insert_with(|| Box::new(vec![Cell { e: NOEXPR, i: 0 }; len]));
                for k in 0..n { s[off + k] = Cell { e: *e, i: k as u8 } }
            }
            Val::A(_) => panic!("store of aggregate"),
        }
    }
    pub fn cells(&self, off: usize, n: usize) -> (Vec<u8>, Option<Vec<Cell>>) {
        (self.bytes[off..off + n].to_vec(), self.sym.as_ref().map(|s| s[off..off + n].to_vec()))
    }
    pub fn set_cells(&mut self, off: usize, b: &[u8], s: Option<&[Cell]>) {
        let n = b.len();
        self.bytes[off..off + n].copy_from_slice(b);
        match s {
            Some(cs) if cs.iter().any(|c| c.e != NOEXPR) => {
                let len = self.bytes.len();
                let t = self.sym.get_or_insert_with(|| Box::new(vec![Cell { e: NOEXPR, i: 0 }; len]));
                t[off..off + n].copy_from_slice(cs);
            }
            _ => { if let Some(t) = &mut self.sym { for c in &mut t[off..off + n] { c.e = NOEXPR } } }
        }
    }
}
pub fn norm(e: ExprId) -> Val { if width(e) <= 64 { if let Some(v) = as_const(e) { return Val::C(v as u64) } } Val::E(e) }
