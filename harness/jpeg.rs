// Lossless JPEG: an encoder (with symbolic differences) and the files that carry such data.
use crate::api::*;
use crate::formats::*;
use crate::util::*;

// ------------------------------------------------------------------ bits
// Bits, most significant first; every entry is 0 or 1, possibly symbolic.  `known` tells which are not.
pub struct Bits { pub b: Vec<u8>, pub known: Vec<bool> }
impl Bits {
    pub fn new() -> Bits { Bits { b: vec![], known: vec![] } }
    pub fn code(&mut self, v: u32, n: usize) { for k in (0..n).rev() { self.b.push((v >> k & 1) as u8); self.known.push(true) } }
    pub fn sym(&mut self, v: u16, n: usize) { for k in (0..n).rev() { self.b.push((v >> k) as u8 & 1); self.known.push(false) } }
    pub fn len(&self) -> usize { self.b.len() }
    fn byte(&self, k: usize) -> (u8, bool) { let (mut v, mut known) = (0, true); for j in 0..8 { v |= self.b[8 * k + j] << (7 - j); known &= self.known[8 * k + j] } (v, known) }
    pub fn pad(&mut self, fill: u8) { while self.b.len() % 8 != 0 { self.b.push(fill); self.known.push(true) } }
    // plain bytes
    pub fn bytes(mut self) -> Vec<u8> { self.pad(0); (0..self.b.len() / 8).map(|k| self.byte(k).0).collect() }
    // as in a JPEG: padded with ones, and a zero after every 0xff; where it is not known whether a byte
    // is 0xff it is not
    pub fn stuffed(mut self) -> Vec<u8> {
        self.pad(1);
        let mut o = vec![]; let mut ok = true;
        for k in 0..self.b.len() / 8 {
            let (v, known) = self.byte(k);
            o.push(v);
            if known { if v == 0xff { o.push(0) } } else {
                // only when no known zero keeps it from being 0xff
                let zero = (0..8).any(|j| self.known[8 * k + j] && self.b[8 * k + j] == 0);
                if !zero { assume(v != 0xff) }
            }
        }
        let _ = &mut ok;
        o
    }
}
// ------------------------------------------------------------------ Huffman tables
#[derive(Clone)]
pub struct Huff { pub bits: [u8; 16], pub val: Vec<u8> }
impl Huff {
    // the code of a symbol: by length, then in the order of the values
    pub fn find(&self, sym: u8) -> (u32, usize) {
        let (mut code, mut at) = (0u32, 0);
        for l in 1..17 { for _ in 0..self.bits[l - 1] { if self.val[at] == sym { return (code, l) } code += 1; at += 1 } code <<= 1 }
        panic!("harness: no such symbol")
    }
    pub fn has(&self, sym: u8) -> bool { self.val.contains(&sym) }
}
pub fn table(k: usize) -> Huff {
    match k {
        // lengths 2 to 14, all categories
        0 => Huff { bits: [0, 1, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0], val: vec![4, 5, 3, 6, 2, 7, 1, 8, 0, 9, 10, 16, 11, 12, 13, 14, 15] },
        // all codes of 5 bits
        1 => Huff { bits: [0, 0, 0, 0, 17, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], val: (0..17).rev().collect() },
        // all lengths from 1 to 12
        2 => Huff { bits: [1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0], val: vec![14, 0, 3, 9, 12, 1, 8, 13, 2, 7, 11, 5] },
        // two codes of 14 bits that differ in the last, one of them for the largest difference
        4 => Huff { bits: [0, 1, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 2, 0, 0], val: vec![7, 5, 3, 6, 2, 4, 1, 8, 0, 9, 10, 11, 12, 13, 14, 16, 15] },
        // lengths 4 and 12
        _ => Huff { bits: [0, 0, 0, 12, 0, 0, 0, 0, 0, 0, 0, 5, 0, 0, 0, 0], val: vec![0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 12, 13, 4, 11, 14, 15, 16] },
    }
}
// ------------------------------------------------------------------ differences
// what the n bits v of a difference mean
pub fn extend(v: u16, n: usize) -> u16 { if n == 0 { return 0 } if n == 16 { return 32768 } let top = v >> (n - 1) & 1; v.wrapping_sub((1 - top) * ((1u16 << n) - 1)) }
pub struct Coder { pub b: Bits, pub bug: bool, pool: Vec<u8>, used: usize, cat: usize, step: usize, ones: usize, n: usize }
impl Coder {
    // categories run through 0..=16 by step from cat; every `ones`th one of the larger differences is all ones
    pub fn new(cat: usize, step: usize, ones: usize) -> Coder { Coder { b: Bits::new(), bug: false, pool: vec![], used: 0, cat, step, ones, n: 0 } }
    pub fn raw(&mut self, n: usize) -> u16 { if n == 0 { return 0 } if self.used + 2 > self.pool.len() { self.pool = bytes(64); self.used = 0 } let v = self.pool[self.used] as u16 | (self.pool[self.used + 1] as u16) << 8; self.used += 2; v & ((1u32 << n) - 1) as u16 }
    pub fn next(&mut self, h: &Huff) -> usize { loop { let c = self.cat % 17; let has = h.has(c as u8); self.cat += if has { self.step } else { self.step.max(1) }; if has { return c } } }
    pub fn diff(&mut self, h: &Huff) -> u16 { let c = self.next(h); self.put(h, c) }
    pub fn put(&mut self, h: &Huff, c: usize) -> u16 {
        let (code, l) = h.find(c as u8);
        self.b.code(code, l);
        self.tail(c)
    }
    pub fn tail(&mut self, c: usize) -> u16 {
        self.n += 1;
        if c == 16 { if self.bug { let v = self.raw(16); self.b.sym(v, 16) } return 32768 }
        if c > 8 && self.ones > 0 && self.n % self.ones == 0 { self.b.code((1 << c) - 1, c); return ((1u32 << c) - 1) as u16 }
        let v = self.raw(c);
        self.b.sym(v, c);
        extend(v, c)
    }
}
// ------------------------------------------------------------------ the JPEG structure
pub struct Frame { pub w: usize, pub h: usize, pub prec: usize, pub tables: Vec<Huff>, pub sel: Vec<usize>, pub sup: u8, pub pred: u8, pub pt: u8, pub ids: bool }
pub fn header(f: &Frame) -> Vec<u8> {
    let mut o = vec![0xff, 0xd8];
    o.extend([0xff, 0xe0, 0, 6, 1, 2, 3, 4]); // something to skip
    let mut d = vec![];
    for (k, t) in f.tables.iter().enumerate() { d.push(k as u8); d.extend(&t.bits); d.extend(&t.val); }
    o.extend([0xff, 0xc4]); o.extend(((d.len() + 2) as u16).to_be_bytes()); o.extend(d);
    let n = f.sel.len();
    o.extend([0xff, 0xc3]); o.extend(((8 + 3 * n) as u16).to_be_bytes()); o.push(f.prec as u8); o.extend((f.h as u16).to_be_bytes()); o.extend((f.w as u16).to_be_bytes()); o.push(n as u8);
    for k in 0..n { o.extend([if f.ids { k as u8 } else { k as u8 + 1 }, if k == 0 { f.sup } else { 0x11 }, 0]) }
    o.extend([0xff, 0xda]); o.extend(((6 + 2 * n) as u16).to_be_bytes()); o.push(n as u8);
    for k in 0..n { o.extend([if f.ids { k as u8 + 7 } else { k as u8 + 1 }, (f.sel[k] as u8) << 4]) }
    o.extend([f.pred, 0, f.pt]);
    o
}
// the samples of the frame (n components side by side) and the file
pub fn encode(f: &Frame, c: &mut Coder) -> (Vec<u8>, Vec<u16>) {
    let n = f.sel.len(); let w = f.w * n;
    let mut v = vec![0u16; w * f.h];
    for y in 0..f.h { for x in 0..w {
        let p = if x >= n { v[y * w + x - n] } else if y > 0 { v[(y - 1) * w + x] } else { 1u16 << (f.prec - f.pt as usize - 1) };
        v[y * w + x] = p.wrapping_add(c.diff(&f.tables[f.sel[x % n]]));
    } }
    let mut o = header(f);
    let b = std::mem::replace(&mut c.b, Bits::new());
    o.extend(b.stuffed()); o.extend([0xff, 0xd9]);
    (o, v)
}
fn tables(k: usize, n: usize) -> (Vec<Huff>, Vec<usize>) {
    match k % 5 { 4 => (vec![table(4), table(1)], (0..n).map(|c| c % 2).collect()), 0 => (vec![table(0)], vec![0; n]), 1 => (vec![table(1), table(2)], (0..n).map(|c| c % 2).collect()), 2 => (vec![table(3), table(0), table(1), table(2)], (0..n).map(|c| 3 - c % 4).collect()), _ => (vec![table(0), table(3)], (0..n).map(|c| (c + 1) % 2).collect()) }
}
const STEPS: [(usize, usize, usize); 8] = [(0, 1, 0), (5, 3, 0), (9, 7, 0), (12, 0, 0), (2, 0, 0), (15, 5, 2), (14, 16, 3), (8, 13, 1)];

// small images without anything symbolic
pub fn tiny() -> Vec<u8> { encode(&Frame { w: 1, h: 2, prec: 14, tables: vec![table(0)], sel: vec![0, 0], sup: 0x11, pred: 1, pt: 0, ids: false }, &mut Coder::new(0, 0, 0)).0 }
pub fn tiny_pairs() -> Vec<u8> {
    let t = table(0); let mut c = Coder::new(0, 0, 0);
    for _ in 0..2 { let (v, n) = t.find(0); c.b.code(v, n) }
    let mut b = c.b.bytes(); while b.len() % 4 != 0 { b.push(0) }
    let mut px = header(&Frame { w: 1, h: 1, prec: 16, tables: vec![t], sel: vec![0, 0], sup: 0x11, pred: 8, pt: 0, ids: false }); px.extend(swap_words(&b, 4)); px
}
// ------------------------------------------------------------------ DNG
pub fn dng_strip() {
    let k = case(24);
    let n = [2, 3, 4][k % 3];
    let (cat, step, ones) = STEPS[k / 3];
    for (w, h, extra, rows) in [(1usize, 3usize, 0usize, 0usize), (3, 2, 0, 0), (4, 3, 1, 2), (5, 4, 3, 0)] {
        let (tables, sel) = tables(k + w, n);
        let f = Frame { w: w + extra, h: h + rows, prec: [14, 16, 12][(k + h) % 3].max(14), tables, sel, sup: 0x11, pred: 1, pt: [0, 0, 2][w % 3], ids: false };
        let (px, v) = encode(&f, &mut Coder::new(cat, step, ones));
        let what = match n { 2 => "DNG, lossless JPEG, 2 components", 3 => "DNG, lossless JPEG, 3 components", _ => "DNG, lossless JPEG, 4 components" };
        let cpp = if n == 3 { 3 } else { 1 };
        let s = dng(&Dng { big: k % 2 == 0, w: w * n / cpp, h, cpp: cpp as u16, bps: 16, comp: 7, px: &px, table: None, tiles: None });
        let i = match valid(&s.loader, &s.file, what) { Some(i) => i, None => return };
        if !dims(&i, w * n / cpp, h, cpp, what) { return }
        for y in 0..h { for x in 0..w * n { eq(i.data[y * w * n + x] as u64, v[y * (w + extra) * n + x] as u64, what) } }
    }
}
pub fn dng_tiles() {
    let k = case(24);
    let n = [2, 3, 4][k % 3];
    let (cat, step, ones) = STEPS[k / 3];
    let cpp = if n == 3 { 3 } else { 1 };
    let what = match n { 2 => "DNG, tiles of lossless JPEG, 2 components", 3 => "DNG, tiles of lossless JPEG, 3 components", _ => "DNG, tiles of lossless JPEG, 4 components" };
    // in units of n samples: image, tile
    for (w, h, tw, th) in [(3usize, 3usize, 2usize, 2usize), (4, 2, 2, 2), (2, 5, 3, 2), (5, 3, 2, 3)] {
        let (iw, tws) = (w * n, tw * n);
        let (cols, rows) = ((w + tw - 1) / tw, (h + th - 1) / th);
        let mut px = vec![]; let mut off = vec![]; let mut want = vec![0u16; iw * h];
        for t in 0..cols * rows {
            let (tables, sel) = tables(k + w + t, n);
            let f = Frame { w: tw, h: th, prec: [14, 16][(k + h) % 2], tables, sel, sup: 0x11, pred: 1, pt: [0, 0, 2][t % 3], ids: false };
            let (d, v) = encode(&f, &mut Coder::new(cat + t, step, ones));
            off.push((DNGAT + px.len()) as u32);
            px.extend(d);
            let (cx, cy) = (t % cols, t / cols);
            for y in 0..th { for x in 0..tws { let (ox, oy) = (cx * tws + x, cy * th + y); if ox < iw && oy < h { want[oy * iw + ox] = v[y * tws + x] } } }
        }
        if off.len() == 1 { off.push(0) }
        let s = dng(&Dng { big: k % 2 == 0, w: iw / cpp, h, cpp: cpp as u16, bps: 16, comp: 7, px: &px, table: None, tiles: Some((tws / cpp, th, off)) });
        let i = match valid(&s.loader, &s.file, what) { Some(i) => i, None => return };
        if !dims(&i, iw / cpp, h, cpp, what) { return }
        same(&i.data, &want, what);
    }
}
// ------------------------------------------------------------------ CR2
pub fn cr2_plain() {
    let k = case(32);
    let n = [2, 4][k % 2];
    let (cat, step, ones) = STEPS[k / 2 % 8];
    for (w, h, find, stripes, double) in [(3usize, 2usize, 0usize, None, false), (2, 4, 2, None, true), (6, 3, 1, Some([1usize, 2, 4]), false), (4, 2, 0, Some([2, 1, 2]), false), (4, 3, 0, Some([1, 1, 1]), true), (3, 3, 0, Some([0, 0, 0]), false)] {
        let (tables, sel) = tables(k + w, n);
        let f = Frame { w, h, prec: [14, 16][(k + w + h) % 2], tables, sel, sup: 0x11, pred: 1, pt: 0, ids: false };
        let (px, v) = encode(&f, &mut Coder::new(cat, step, ones));
        let what = match (stripes, double) { (None, false) => "CR2", (None, true) => "CR2, two lines in one", (_, false) => "CR2, stripes", _ => "CR2, stripes, two lines in one" };
        let (ow, oh) = if double { (w * n / 2, 2 * h) } else { (w * n, h) };
        let mut want = v.clone();
        let st = stripes.map(|s: [usize; 3]| [s[0] as u16, (s[1] * n) as u16, (s[2] * n) as u16]);
        if let Some(s) = stripes { if s[0] > 0 {
            // the samples fill one stripe after the other, top to bottom
            let mut at = 0; let mut x0 = 0;
            for t in 0..s[0] + 1 { let sw = if t < s[0] { s[1] * n } else { s[2] * n }; for y in 0..oh { for x in 0..sw { want[y * ow + x0 + x] = v[at]; at += 1 } } x0 += sw }
            if x0 != ow { panic!("harness: stripes") }
        } }
        let kv = if double { vec![hints(&["double_line"])] } else { vec![] };
        let s = cr2(&Cr2 { big: k / 16 == 1, find, stripes: st, size: if k % 3 == 0 { Some((77, 99)) } else { None }, px: &px, kv, wb: vec![1024; 80], curve: None });
        let i = match valid(&s.loader, &s.file, what) { Some(i) => i, None => return };
        if !dims(&i, ow, oh, 1, what) { return }
        same(&i.data, &want, what);
    }
}
// luminance at full resolution, colour differences for 2x1 or 2x2 pixels
fn encode_yuv(f: &Frame, c: &mut Coder) -> (Vec<u8>, Vec<u16>) {
    let v2 = if f.sup == 0x22 { 2 } else { 1 };
    let base = 1u16 << (f.prec - f.pt as usize - 1);
    let w = f.w;
    let mut o = vec![0u16; w * f.h * 3];
    let mut start = [base; 3];
    for y in (0..f.h).step_by(v2) {
        let mut p = start;
        for x in (0..w).step_by(2) {
            for k in 0..2 * v2 { p[0] = p[0].wrapping_add(c.diff(&f.tables[f.sel[0]])); o[((y + k / 2) * w + x + k % 2) * 3] = p[0]; if x == 0 && k == 0 { start[0] = p[0] } }
            for q in 1..3 { p[q] = p[q].wrapping_add(c.diff(&f.tables[f.sel[q]])); if x == 0 { start[q] = p[q] } for k in 0..2 * v2 { o[((y + k / 2) * w + x + k % 2) * 3 + q] = p[q] } }
        }
    }
    let mut b = header(f);
    let bits = std::mem::replace(&mut c.b, Bits::new());
    b.extend(bits.stuffed()); b.extend([0xff, 0xd9]);
    (b, o)
}
fn sraw_rgb(p: &[u16], c: [i32; 3], yoff: i32) -> [u16; 3] {
    let (y, cb, cr) = (p[0] as i32 - yoff, p[1] as i32 - 16383, p[2] as i32 - 16383);
    let f = |v: i32| { let v = v >> 8; (if v >> 16 == 0 { v } else { !(v >> 31) }) as u16 };
    [f(c[0] * (y + cr)), f(c[1] * (y + ((-778 * cb - (cr << 11)) >> 12))), f(c[2] * (y + cb))]
}
pub fn cr2_sraw() {
    let k = case(16);
    let v2 = k / 8 == 1;
    let (cat, step, _) = STEPS[if v2 { [0, 2, 2, 3, 4, 5, 6, 4][k % 8] } else { k % 8 }];
    for (w, h, swap, stripes, yuv) in [(4usize, 4usize, 0usize, None, false), (2, 4, 2, None, true), (6, 4, 1, None, false), (8, 4, 1, Some((1usize, 2usize)), false), (6, 6, 1, Some((2, 2)), true)] {
        let (tables, sel) = tables(k + w, 3);
        let f = Frame { w, h, prec: [15, 16][k % 2], tables, sel, sup: if v2 { 0x22 } else { 0x21 }, pred: 1, pt: [1, 2][k / 2 % 2], ids: false };
        let (px, v) = encode_yuv(&f, &mut Coder::new(cat, step, 0));
        let what = match (v2, stripes.is_some()) { (false, false) => "CR2, sRAW with colour for 2x1 pixels", (true, false) => "CR2, sRAW with colour for 2x2 pixels", (false, true) => "CR2, sRAW with colour for 2x1 pixels, stripes", _ => "CR2, sRAW with colour for 2x2 pixels, stripes" };
        let mut wb = vec![0u16; 80];
        let (o, levels) = if k % 3 == 0 { (63, [1999u16, 1023, 1531]) } else { (70, [1213, 1029, 1931]) };
        wb[o] = levels[0]; wb[o + 1] = levels[1]; wb[o + 2] = 99; wb[o + 3] = levels[2];
        let c = [1048576 / levels[0] as i32, levels[1] as i32, 1048576 / levels[2] as i32];
        let rgb: Vec<u16> = v.chunks(3).flat_map(|p| sraw_rgb(p, c, if yuv { 512 } else { 0 })).collect();
        let (ow, oh) = match swap { 2 => (h, w), _ => (w, h) };
        let mut want = rgb.clone(); let mut st = None;
        if let Some((n, each)) = stripes {
            let last = w - n * each;
            if v2 {
                // all stripes have the same width
                let each = w / (n + 1);
                st = Some([n as u16, each as u16 * 3, each as u16 * 3]);
                let mut seq = vec![]; for y in (0..h).step_by(2) { for x in 0..w { seq.push((y, x)) } }
                let mut at = 0;
                for t in 0..n + 1 { for y in (0..h).step_by(2) { for x in 0..each { let (sy, sx) = seq[at]; at += 1; for q in 0..2 { for z in 0..3 { want[((y + q) * w + t * each + x) * 3 + z] = rgb[((sy + q) * w + sx) * 3 + z] } } } } }
            } else {
                st = Some([n as u16, each as u16 * 2, last as u16 * 2]);
                let mut at = 0; let mut x0 = 0;
                for t in 0..n + 1 { let sw = if t < n { each } else { last } * 3; for y in 0..h { for x in 0..sw { want[y * w * 3 + x0 + x] = rgb[at]; at += 1 } } x0 += sw }
            }
        }
        let mut kv = if yuv { vec![hints(&["40d_yuv"])] } else { vec![] };
        if o != 63 { kv.push(("wb_offset", int(o as i64))) }
        let s = cr2(&Cr2 { big: k % 2 == 1, find: 0, stripes: st, size: if swap == 1 { Some((w, h)) } else { None }, px: &px, kv, wb, curve: None });
        let i = match valid(&s.loader, &s.file, what) { Some(i) => i, None => return };
        if !dims(&i, ow, oh, 3, what) { return }
        same(&i.data, &want, what);
    }
}
// ------------------------------------------------------------------ Hasselblad
pub fn tfr_run() {
    let k = case(16);
    let (cat, step, _) = STEPS[k % 8];
    for (w, h) in [(2usize, 2usize), (4, 3), (10, 2), (6, 5)] {
        let t = table([0, 1, 2, 3, 4][(k + w) % 5]);
        let f = Frame { w: w / 2, h, prec: 16, tables: vec![t.clone()], sel: vec![0, 0], sup: 0x11, pred: 8, pt: 0, ids: false };
        let mut c = Coder::new(cat + k / 8, step, 0); c.bug = true;
        let mut want = vec![];
        for _ in 0..h {
            let mut p = [0x8000u16; 2];
            for _ in 0..w / 2 {
                let l = [c.next(&t), c.next(&t)];
                for z in 0..2 { let (v, n) = t.find(l[z] as u8); c.b.code(v, n) }
                for z in 0..2 { p[z] = p[z].wrapping_add(c.tail(l[z])); want.push(p[z]) }
            }
        }
        let mut b = std::mem::replace(&mut c.b, Bits::new()).bytes();
        while b.len() % 4 != 0 { b.push(0) }
        let mut px = header(&f); px.extend(swap_words(&b, 4));
        let what = "3FR, lossless JPEG with pairs of differences";
        let s = tfr(k % 2 == 0, w, h, &px, &[(1, 2), (1, 1), (2, 3)]);
        let i = match valid(&s.loader, &s.file, what) { Some(i) => i, None => return };
        if !dims(&i, w, h, 1, what) { return }
        same(&i.data, &want, what);
    }
}
// ------------------------------------------------------------------ Leaf
pub fn mos_run() {
    let k = case(16);
    let (cat, step, ones) = STEPS[k % 8];
    for (w, h) in [(4usize, 3usize), (2, 8), (2, 9), (4, 17)] {
        let (tables, sel) = tables(k + w, 2);
        let f = Frame { w: w / 2, h, prec: [14, 16][(k + w) % 2], tables, sel, sup: 0x11, pred: 1, pt: 0, ids: true };
        let mut px = header(&f); let mut want = vec![];
        let base = 1u16 << (f.prec - 1);
        let mut c = Coder::new(cat + k / 8, step, ones); c.bug = true;
        for (n, s) in (0..h).step_by(8).enumerate() {
            if n > 0 { px.extend([0xff, 0xd0 + (n as u8 - 1) % 8]) }
            let mut v: Vec<u16> = vec![];
            for y in s..(s + 8).min(h) { for x in 0..w {
                let y = y - s;
                let p = if x >= 2 { v[y * w + x - 2] } else if y > 0 { v[(y - 1) * w + x] } else { base };
                let d = c.diff(&f.tables[f.sel[x % 2]]);
                v.push(p.wrapping_add(d));
            } }
            want.extend(v);
            px.extend(std::mem::replace(&mut c.b, Bits::new()).stuffed());
        }
        px.extend([0xff, 0xd9, 0, 0, 0, 0]);
        let inter = (k + h) % 2 == 0;
        let what = if inter { "MOS, lossless JPEG, interlaced" } else { "MOS, lossless JPEG" };
        if inter { let v = want.clone(); for y in 0..h { let o = if y % 2 == 1 { h - 1 - y / 2 } else { y / 2 }; for x in 0..w { want[o * w + x] = v[y * w + x] } } }
        let s = mos(k % 2 == 0, w, h, [7, 99][k / 2 % 2], &px, if inter { &["interlaced"] } else { &[] }, "1\n2\n3\n4");
        let i = match valid(&s.loader, &s.file, what) { Some(i) => i, None => return };
        if !dims(&i, w, h, 1, what) { return }
        same(&i.data, &want, what);
    }
}
