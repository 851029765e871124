// Builders of well-formed input files, and small reference helpers.
use crate::api::*;
use rawloader::decoders::*;
use std::collections::BTreeMap;
use toml::Value;

// ------------------------------------------------------------------ cameras
pub fn int(v: i64) -> Value { Value::Integer(v) }
pub fn ints(v: &[i64]) -> Value { Value::Array(v.iter().map(|x| Value::Integer(*x)).collect()) }
pub fn text(v: &str) -> Value { Value::String(v.to_string()) }
pub fn texts(v: &[&str]) -> Value { Value::Array(v.iter().map(|x| Value::String(x.to_string())).collect()) }
pub fn cam(make: &str, model: &str, mode: &str, kv: &[(&str, Value)]) -> Camera {
    let mut t: BTreeMap<String, Value> = BTreeMap::new();
    t.insert("make".into(), text(make));
    t.insert("model".into(), text(model));
    t.insert("mode".into(), text(mode));
    t.insert("clean_make".into(), text("CleanMake"));
    t.insert("clean_model".into(), text("CleanModel"));
    t.insert("whitepoint".into(), int(4095));
    t.insert("blackpoint".into(), int(17));
    t.insert("color_pattern".into(), text("RGGB"));
    for (k, v) in kv { t.insert(k.to_string(), v.clone()); }
    let mut c = Camera::new();
    c.update_from_toml(&t);
    c
}
pub fn loader(cams: Vec<Camera>) -> RawLoader {
    let mut l = RawLoader { cameras: Default::default(), naked: Default::default() };
    for c in cams {
        l.cameras.insert((c.make.clone(), c.model.clone(), c.mode.clone()), c.clone());
        if c.filesize > 0 { l.naked.insert(c.filesize, c); }
    }
    l
}
pub fn hints(h: &[&str]) -> (&'static str, Value) { ("hints", texts(h)) }

// ------------------------------------------------------------------ decoding
pub fn decode(l: &RawLoader, f: &[u8]) -> Result<RawImage, String> { let mut r = f; l.decode(&mut r) }
// decode a file that must be accepted
pub fn valid(l: &RawLoader, f: &[u8], what: &str) -> Option<RawImage> {
    match caught(|| decode(l, f)) {
        Some(Ok(i)) => { cover(what); Some(i) }
        Some(Err(_e)) => { #[cfg(feature = "native")] eprintln!("{}", _e); fail(&(what.to_string() + ": a valid file is rejected")); None }
        None => { fail(&(what.to_string() + ": decoding a valid file panics")); None }
    }
}
pub fn dims(i: &RawImage, w: usize, h: usize, cpp: usize, what: &str) -> bool {
    let ok = i.width == w && i.height == h && i.cpp == cpp && i.data.len() == w * h * cpp;
    check(ok, &(what.to_string() + ": width, height, samples per pixel or the amount of data is wrong"));
    ok
}
pub fn same(got: &[u16], want: &[u16], what: &str) {
    check(got.len() == want.len(), &(what.to_string() + ": wrong number of samples"));
    for k in 0..want.len() { eq(got[k] as u64, want[k] as u64, what) }
}

// ------------------------------------------------------------------ TIFF files
#[derive(Clone)]
pub struct Ent { pub tag: u16, pub typ: u16, pub count: u32, pub data: Vec<u8>, pub sub: Vec<Ifd> }
#[derive(Clone)]
pub struct Ifd { pub big: bool, pub e: Vec<Ent> }
pub fn p16(big: bool, v: u16) -> [u8; 2] { if big { v.to_be_bytes() } else { v.to_le_bytes() } }
pub fn p32(big: bool, v: u32) -> [u8; 4] { if big { v.to_be_bytes() } else { v.to_le_bytes() } }
pub static VARIANT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn variant(v: usize) { VARIANT.store(v, std::sync::atomic::Ordering::Relaxed) }
impl Ifd {
    pub fn new(big: bool) -> Ifd { Ifd { big, e: vec![] } }
    pub fn raw(&mut self, tag: u16, typ: u16, count: u32, data: Vec<u8>) -> &mut Ifd { self.e.push(Ent { tag, typ, count, data, sub: vec![] }); self }
    pub fn bytes(&mut self, tag: u16, v: &[u8]) -> &mut Ifd { self.raw(tag, 1, v.len() as u32, v.to_vec()) }
    pub fn undef(&mut self, tag: u16, v: &[u8]) -> &mut Ifd { self.raw(tag, 7, v.len() as u32, v.to_vec()) }
    pub fn ascii(&mut self, tag: u16, v: &str) -> &mut Ifd { let mut d = v.as_bytes().to_vec(); d.push(0); let n = d.len() as u32; self.raw(tag, 2, n, d) }
    pub fn short(&mut self, tag: u16, v: &[u16]) -> &mut Ifd { let b = self.big; let d = v.iter().flat_map(|x| p16(b, *x)).collect(); self.raw(tag, 3, v.len() as u32, d) }
    pub fn long(&mut self, tag: u16, v: &[u32]) -> &mut Ifd { let b = self.big; let d = v.iter().flat_map(|x| p32(b, *x)).collect(); self.raw(tag, 4, v.len() as u32, d) }
    pub fn rational(&mut self, tag: u16, typ: u16, v: &[(u32, u32)]) -> &mut Ifd { let b = self.big; let mut d = vec![]; for (x, y) in v { d.extend(p32(b, *x)); d.extend(p32(b, *y)); } self.raw(tag, typ, v.len() as u32, d) }
    pub fn sub(&mut self, tag: u16, v: Vec<Ifd>) -> &mut Ifd { self.e.push(Ent { tag, typ: 4, count: v.len() as u32, data: vec![], sub: v }); self }
    fn patch32(f: &mut Vec<u8>, at: usize, b: bool, v: u32) { f[at..at + 4].copy_from_slice(&p32(b, v)) }
    // appends the directory; offsets are relative to `base`; returns the position of its "next" field
    pub fn put(&self, f: &mut Vec<u8>, base: usize) -> usize {
        let v = VARIANT.load(std::sync::atomic::Ordering::Relaxed);
        if v != 0 {
            // the same directory with its entries in another order, or with entries nobody knows
            let mut d = self.clone();
            if v & 1 != 0 { d.e.reverse() }
            if v & 2 != 0 { d.e.insert(0, Ent { tag: 0x9003, typ: 3, count: 1, data: vec![7, 7], sub: vec![] }); d.e.push(Ent { tag: 0x5505, typ: 2, count: 9, data: b"12345678\0".to_vec(), sub: vec![] }); let m = d.e.len() / 2; d.e.insert(m, Ent { tag: 0xe001, typ: 99, count: 4, data: vec![255; 4], sub: vec![] }); }
            return d.put_as(f, base)
        }
        self.put_as(f, base)
    }
    fn put_as(&self, f: &mut Vec<u8>, base: usize) -> usize {
        let b = self.big;
        f.extend(p16(b, self.e.len() as u16));
        let at = f.len();
        for e in &self.e { f.extend(p16(b, e.tag)); f.extend(p16(b, e.typ)); f.extend(p32(b, e.count)); f.extend([0u8; 4]); }
        let next = f.len();
        f.extend([0u8; 4]);
        for (i, e) in self.e.iter().enumerate() {
            let v = at + i * 12 + 8;
            if !e.sub.is_empty() {
                if e.sub.len() == 1 { let o = f.len() - base; Self::patch32(f, v, b, o as u32); e.sub[0].put(f, base); }
                else {
                    let o = f.len(); Self::patch32(f, v, b, (o - base) as u32);
                    f.extend(vec![0u8; 4 * e.sub.len()]);
                    for (k, s) in e.sub.iter().enumerate() { let p = f.len() - base; Self::patch32(f, o + 4 * k, b, p as u32); s.put(f, base); }
                }
            } else if e.data.len() <= 4 { f[v..v + e.data.len()].copy_from_slice(&e.data) }
            else { let o = f.len() - base; Self::patch32(f, v, b, o as u32); f.extend_from_slice(&e.data); }
        }
        next
    }
}
// a chain of directories behind a TIFF header, appended to f
pub fn put_tiff(f: &mut Vec<u8>, ifds: &[Ifd]) {
    let base = f.len();
    let big = ifds[0].big;
    f.extend(if big { *b"MM" } else { *b"II" });
    f.extend(p16(big, 42));
    f.extend(p32(big, 8));
    let mut next = 0;
    for (i, d) in ifds.iter().enumerate() {
        if i > 0 { let o = f.len() - base; f[next..next + 4].copy_from_slice(&p32(big, o as u32)); }
        next = d.put(f, base);
    }
}
// the file, zero-filled up to `at`, where the payload goes
pub fn tiff_file(ifds: &[Ifd], at: usize, payload: &[u8]) -> Vec<u8> {
    let mut f = vec![];
    put_tiff(&mut f, ifds);
    pad(&mut f, at);
    f.extend_from_slice(payload);
    f
}
pub fn pad(f: &mut Vec<u8>, at: usize) { assert!(f.len() <= at, "harness: header longer than expected"); f.resize(at, 0) }

// tags
pub const WIDTH: u16 = 0x100; pub const LENGTH: u16 = 0x101; pub const BPS: u16 = 0x102; pub const COMPRESSION: u16 = 0x103; pub const PHOTOMETRIC: u16 = 0x106;
pub const MAKE: u16 = 0x10f; pub const MODEL: u16 = 0x110; pub const STRIPS: u16 = 0x111; pub const ORIENTATION: u16 = 0x112; pub const SPP: u16 = 0x115; pub const STRIPBYTES: u16 = 0x117;
pub const SUBIFDS: u16 = 0x14a; pub const CFAPATTERN: u16 = 0x828e; pub const EXIF: u16 = 0x8769; pub const MAKERNOTE: u16 = 0x927c;

// ------------------------------------------------------------------ reference bit readers
// bit p of an MSB-first stream
pub fn bit_msb(s: &[u8], p: usize) -> u16 { ((s[p / 8] >> (7 - p % 8)) & 1) as u16 }
pub fn bit_lsb(s: &[u8], p: usize) -> u16 { ((s[p / 8] >> (p % 8)) & 1) as u16 }
pub fn bits_msb(s: &[u8], p: usize, n: usize) -> u16 { let mut v = 0; for k in 0..n { v = v << 1 | bit_msb(s, p + k) } v }
pub fn bits_lsb(s: &[u8], p: usize, n: usize) -> u16 { let mut v = 0; for k in 0..n { v |= bit_lsb(s, p + k) << k } v }
// the stream obtained by reversing the bytes of every n-byte word
pub fn swap_words(s: &[u8], n: usize) -> Vec<u8> { let mut o = s.to_vec(); for c in o.chunks_mut(n) { c.reverse() } o }
