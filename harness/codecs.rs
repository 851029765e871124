// The makers' own compressions: encoders with symbolic differences, written from the formats' public descriptions.
use crate::api::*;
use crate::formats::*;
use crate::jpeg::{extend, Bits, Huff};
use crate::packed::{dither, steps};
use crate::util::*;

const WB: [u16; 4] = [100, 200, 300, 400];
// symbolic bits, in supply
pub struct Pool { v: Vec<u8>, at: usize }
impl Pool {
    pub fn new() -> Pool { Pool { v: vec![], at: 0 } }
    pub fn get(&mut self, n: usize) -> u16 {
        if n == 0 { return 0 }
        if self.at + 2 > self.v.len() { self.v = bytes(64); self.at = 0 }
        let r = self.v[self.at] as u16 | (self.v[self.at + 1] as u16) << 8;
        self.at += 2;
        r & ((1u32 << n) - 1) as u16
    }
}
// the categories met: all of 0..=max, in one of several orders
fn cats(k: usize, max: usize, n: usize) -> Vec<usize> {
    let m = max + 1;
    (0..n).map(|i| match k % 6 { 0 => i % m, 1 => (i * 3 + 5) % m, 2 => m - 1 - i % m, 3 => (i * 7 + 2) % m, 4 => if i % 3 == 0 { max } else { i % 4 }, _ => (i * i + 1) % m }).collect()
}
fn out(i: Option<rawloader::decoders::RawImage>, w: usize, h: usize, want: &[u16], what: &str) { if let Some(i) = i { if dims(&i, w, h, 1, what) { same(&i.data, want, what) } } }
fn put(b: &mut Bits, t: &Huff, p: &mut Pool, c: usize) -> u16 { let (v, n) = t.find(c as u8); b.code(v, n); let x = p.get(c); b.sym(x, c); extend(x, c) }

// ------------------------------------------------------------------ Pentax and Nikon: a pair of predictors, from two lines above
fn pairs(w: usize, h: usize, up: [[u16; 2]; 2], next: &mut dyn FnMut(usize, usize) -> u16) -> Vec<u16> {
    let mut up = up; let mut o = vec![0u16; w * h];
    for y in 0..h { for x in 0..w {
        let p = if x < 2 { up[y % 2][x] } else { o[y * w + x - 2] };
        let v = p.wrapping_add(next(y, x));
        if x < 2 { up[y % 2][x] = v }
        o[y * w + x] = v;
    } }
    o
}
pub fn pentax() {
    let k = case(12); let big = k % 2 == 0;
    let legacy = Huff { bits: [0, 2, 3, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0], val: vec![3, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12] };
    let other = [Huff { bits: [1, 0, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0], val: vec![5, 4, 6, 3, 7, 2, 8, 1, 0, 9, 10, 11, 12] }, Huff { bits: [0, 2, 3, 1, 1, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0], val: vec![2, 3, 1, 4, 0, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14] }];
    let t = match k / 2 % 3 { 0 => legacy.clone(), n => other[n - 1].clone() };
    let depth = t.val.len();
    let max = depth - 1;
    for (w, h) in [(6usize, 4usize), (2, 3), (10, 3)] {
        let mut b = Bits::new(); let mut p = Pool::new();
        let c = cats(k + w, max, w * h); let mut n = 0;
        let want = pairs(w, h, [[0; 2]; 2], &mut |_, _| { n += 1; put(&mut b, &t, &mut p, c[n - 1]) });
        let mut px = b.bytes(); px.extend([0; 8]);
        // the table of the maker note: number of codes less 12, codes in 12 bits, lengths
        let mut e = Ifd::new(big); let _ = &mut e;
        let mut d = p16(big, ((depth + 4) % 16) as u16).to_vec(); d.extend([0; 12]);
        for s in 0..depth { let (v, l) = t.find(s as u8); d.extend(p16(big, (v << (12 - l)) as u16)) }
        for s in 0..depth { d.push(t.find(s as u8).1 as u8) }
        let own = k / 2 % 3 != 0;
        let what = if own { "PEF, compressed, own table" } else { "PEF, compressed" };
        let s = pef(big, w, h, 65535, &px, &|e| { if own { e.undef(0x220, &d); } }, &WB);
        out(valid(&s.loader, &s.file, what), w, h, &want, what);
    }
}
// (codes, values): a value holds the length of the difference and how many of its low bits are not stored
fn nikon_tree(n: usize) -> Huff {
    let (b, v): (&[u8], &[u8]) = match n {
        0 => (&[0, 1, 5, 1, 1, 1, 1, 1, 1, 2], &[5, 4, 3, 6, 2, 7, 1, 0, 8, 9, 11, 10, 12]),
        1 => (&[0, 1, 5, 1, 1, 1, 1, 1, 1, 2], &[0x39, 0x5a, 0x38, 0x27, 0x16, 5, 4, 3, 2, 1, 0, 11, 12, 12]),
        2 => (&[0, 1, 4, 2, 3, 1, 2], &[5, 4, 6, 3, 7, 2, 8, 1, 9, 0, 10, 11, 12]),
        3 => (&[0, 1, 4, 3, 1, 1, 1, 1, 1, 2], &[5, 6, 4, 7, 8, 3, 9, 2, 1, 0, 10, 11, 12, 13, 14]),
        4 => (&[0, 1, 5, 1, 1, 1, 1, 1, 1, 1, 2], &[8, 0x5c, 0x4b, 0x3a, 0x29, 7, 6, 5, 4, 3, 2, 1, 0, 13, 14]),
        _ => (&[0, 1, 4, 2, 2, 3, 1, 2], &[7, 6, 8, 5, 9, 4, 10, 3, 11, 12, 2, 0, 1, 13, 14]),
    };
    let mut bits = [0; 16]; bits[..b.len()].copy_from_slice(b);
    Huff { bits, val: v.to_vec() }
}
pub fn nikon() {
    let k = case(20); let big = k % 2 == 0;
    let (kind, b14) = (k / 4, k / 2 % 2 == 1);
    let bps = if b14 { 14 } else { 12 }; let full = 1usize << bps;
    let mut first = if b14 { 3 } else { 0 };
    let (w, h) = if kind == 2 { (6, 4) } else { (6usize, 3usize) };
    let mid = (full / 2) as u16;
    let up = [[mid, mid + 3], [7, full as u16 - 9]];
    let mut meta = vec![]; let s16 = |m: &mut Vec<u8>, v: usize| m.extend(p16(big, v as u16));
    let preds = |m: &mut Vec<u8>| { for v in [up[0][0], up[1][0], up[0][1], up[1][1]] { m.extend(p16(big, v)) } };
    let mut split = h;
    let curve: Vec<u16>;
    let what;
    match kind {
        0 => { what = "NEF, lossless"; first += 2; meta.extend([70, 48]); preds(&mut meta); s16(&mut meta, 0); curve = (0..full).map(|v| v as u16).collect(); }
        1 => { what = "NEF, with a full curve"; meta.extend([68, 16]); preds(&mut meta); s16(&mut meta, full);
            curve = (0..full).map(|v| (v + v / 3) as u16).collect(); for v in &curve { s16(&mut meta, *v as usize) } }
        2 | 3 => { what = if kind == 2 { "NEF, two parts" } else { "NEF, with a curve of few points" }; meta.extend([68, 32]); preds(&mut meta);
            let n = if b14 { 257 } else { 33 }; let step = full / (n - 1);
            let pt = |i: usize| i * step + i * i / 4;
            s16(&mut meta, n); for i in 0..n { s16(&mut meta, pt(i)) }
            curve = (0..full).map(|v| { let (i, r) = (v / step, v % step); ((pt(i) * (step - r) + pt(i + 1) * r) / step) as u16 }).collect();
            meta.resize(562, 0);
            if kind == 2 { split = 2; s16(&mut meta, 2) } else { s16(&mut meta, 0) } }
        _ => { what = "NEF, curve behind a long header"; meta.extend(if b14 { [73, 1] } else { [1, 88] }); meta.resize(2112, 3); preds(&mut meta); s16(&mut meta, full);
            curve = (0..full).map(|v| (full - 1 - (full - 1 - v) * 3 / 4) as u16).collect(); for v in &curve { s16(&mut meta, *v as usize) } }
    }
    let table = steps(&curve);
    let (mut b, mut p) = (Bits::new(), Pool::new());
    let mut n = 0;
    let trees = [nikon_tree(first), nikon_tree(if split < h { first + 1 } else { first })];
    // the first bits seed the noise; keep them known
    let mut range = [[[mid as i32; 2]; 2]; 2];
    for i in 0..4 { range[i / 2][i % 2] = [up[i / 2][i % 2] as i32; 2] }
    let mut cur = [[0i32; 2]; 2];
    let vals = pairs(w, h, up, &mut |y, x| {
        let t = &trees[(y >= split) as usize];
        let m = t.val.len();
        let r = if x < 2 { range[y % 2][x] } else { cur[x % 2] };
        let from = if n < 6 { m - 4 } else { (n * [1, 5, 3, 7][k % 4] + k) % m }; n += 1;
        // the next difference that stays within the range: large ones are known and lead towards the middle
        for j in 0..m {
            let sym = t.val[(from + j) % m];
            let (len, shl) = ((sym & 15) as usize, (sym >> 4) as usize);
            let known = n <= 6 || len > 9 + (b14 && shl > 0) as usize;
            let up = r[0] + r[1] < full as i32;
            let e = if len == 0 { 0 } else { n % 5 * (1 << shl) % (1 << (len - 1)) };
            let v = (if len == 0 { 0 } else if up { (1usize << (len - 1)) + e } else { (1 << (len - 1)) - 1 - e }) >> shl;
            let c = whole(v as u16, len, shl) as i16 as i32;
            let q = if known { [r[0] + c, r[1] + c] } else { [r[0] - (1 << len), r[1] + (1 << len)] };
            if q[0] < 0 || q[1] >= full as i32 { continue }
            cur[x % 2] = q; if x < 2 { range[y % 2][x] = q }
            let (code, l) = t.find(sym); b.code(code, l);
            if known { b.code(v as u32, len - shl); return c as u16 }
            let v = p.get(len - shl); b.sym(v, len - shl);
            return whole(v, len, shl)
        }
        panic!("harness: no difference fits")
    });
    let mut px = b.bytes();
    let mut rand = (px[0] as u32) << 16 | (px[1] as u32) << 8 | px[2] as u32;
    px.extend([0; 8]);
    let mut want = vec![];
    for v in &vals {
        want.push(dither(&table, *v as usize, &mut rand));
    }
    let tag = if kind % 2 == 0 { 0x96 } else { 0x8c };
    let s = nef(big, w, h, bps as u16, 34713, &px, px.len() + 999, "M1", &|d| { nefwb(d, [(3, 2), (5, 4)]); if tag == 0x96 { d.undef(0x8c, &[9; 20]); } d.undef(tag, &meta); }, 0xc000);
    out(valid(&s.loader, &s.file, what), w, h, &want, what);
}
// the difference of len bits of which the low shl ones are missing: the middle of what it may be
fn whole(v: u16, len: usize, shl: usize) -> u16 {
    if len == 0 { return 0 }
    let d = ((v as i32) << 1 | 1) << shl >> 1;
    let neg = (d & (1 << (len - 1)) == 0) as i32;
    (d - neg * ((1 << len) - (shl == 0) as i32)) as u16
}

// ------------------------------------------------------------------ Sony
pub fn arw1() {
    let k = case(8);
    for (w, h) in [(3usize, 4usize), (2, 6), (4, 2)] {
        let (mut b, mut p) = (Bits::new(), Pool::new());
        let stored = h + 8;
        let c = cats(k + w, [13, 12, 9, 17][k % 4], w * stored); let mut n = 0;
        let mut sum = 0u16; let mut want = vec![0u16; w * stored];
        for x in (0..w).rev() { for half in 0..2 { for y in (half..stored).step_by(2) {
            // only some of the differences are symbolic: a tenth
            let l = c[n]; n += 1;
            match l { 1 => b.code(3, 2), 2 => b.code(2, 2), 0 => b.code(3, 3), 3 => b.code(2, 3), l if l <= 16 => b.code(1, l - 1), _ => b.code(0, 15) }
            if l > 15 { let v = 1 << 12 | 77; b.code(v, l); sum = sum.wrapping_add((v as u32).wrapping_sub((1u32 << l) - 1) as u16) } else { let v = p.get(l); b.sym(v, l); sum = sum.wrapping_add(extend(v, l)); }
            want[y * w + x] = sum;
        } } }
        let mut px = b.bytes(); px.extend([0; 8]);
        let s = arw(w, h, 12, 32767, &px, px.len() + 1, "M1", &[0; 4], 0x7303, &WB);
        out(valid(&s.loader, &s.file, "ARW 1"), w, stored, &want, "ARW 1");
    }
}
pub fn arw2() {
    let k = case(16);
    let knots: [u16; 4] = [[0, 0, 0, 0], [8000, 10400, 12900, 14100], [4, 8, 16300, 16380], [0x4000 + 4000, 8000, 12000, 16000]][k % 4];
    let curve = { // slope doubles at each of the knots, in twelve bit
        let e = |i: usize| match i { 0 => 0usize, 5 => 4095, i => (knots[i - 1] >> 2 & 0xfff) as usize };
        let mut t = vec![0u16; 4096];
        for i in 0..5 { for j in e(i) + 1..e(i + 1) + 1 { t[j] = t[j - 1].wrapping_add(1 << i) } }
        steps(&t)
    };
    // (largest, smallest, place of the largest, of the smallest)
    let blocks: [[u16; 4]; 4] = match k / 4 { 0 => [[2047, 0, 0, 15], [64, 1, 3, 2], [255, 128, 15, 0], [130, 2, 7, 6]], 1 => [[1027, 3, 5, 6], [600, 88, 14, 1], [127, 0, 0, 1], [128, 0, 1, 0]], 2 => [[2040, 1500, 8, 9], [2000, 2000, 2, 13], [512, 0, 4, 12], [2047, 1023, 15, 14]], _ => [[257, 1, 11, 0], [1, 0, 0, 15], [2047, 1919, 9, 10], [1024, 1, 12, 3]] };
    let (w, h) = (32usize, 2usize);
    let mut p = Pool::new(); let mut px = vec![]; let mut want = vec![];
    for r in 0..h {
        let mut bits: Vec<u8> = vec![]; let mut vals = vec![0u16; 32];
        let mut put = |v: u16, n: usize| for i in 0..n { bits.push((v >> i) as u8 & 1) };
        for j in 0..2 {
            let [max, min, imax, imin] = blocks[2 * r + j];
            put(max, 11); put(min, 11); put(imax, 4); put(imin, 4);
            let mut sh = 0; while sh < 4 && (128u16 << sh) <= max - min { sh += 1 }
            let m = (imax == imin) as usize;
            for i in 0..16 {
                vals[2 * i + j] = if i == imax as usize { max } else if i == imin as usize { min } else { let v = p.get(7); put(v, 7); (((v as u32) << sh) + min as u32).min(2047) as u16 };
            }
            // where both are the same there is one more difference than fits
            let _ = m;
        }
        let line: Vec<u8> = (0..w).map(|i| (0..8).map(|j| if 8 * i + j < bits.len() { bits[8 * i + j] << j } else { 0 }).sum()).collect();
        let mut rand = line[0] as u32 | (line[1] as u32) << 8 | (line[2] as u32) << 16;
        let mut o = vec![0u16; 32];
        for j in 0..2 { for i in 0..16 { o[2 * i + j] = dither(&curve, 2 * vals[2 * i + j] as usize, &mut rand) } }
        want.extend(o);
        px.extend(line);
    }
    px.extend([0; 16]);
    let s = arw(w, h, 8, 32767, &px, w * h, "M1", &knots, 0x7303, &WB);
    out(valid(&s.loader, &s.file, "ARW 2"), w, h, &want, "ARW 2");
}
pub fn srf() {
    let (w, h) = (4usize, 3usize);
    let px = bytes(w * h * 2);
    let keypos = [0u8, 3, 200][case(3)] as usize;
    let (k1, k2) = (0x12345678u32, 0xc0ffee11u32);
    let mut d = id(false, "SONY", "M1"); d.long(WIDTH, &[w as u32]).long(LENGTH, &[h as u32]);
    let mut f = vec![]; put_tiff(&mut f, &[d]);
    f.resize(862144, 0);
    f[200896] = keypos as u8; f[200896 + 4 * keypos..200900 + 4 * keypos].copy_from_slice(&k1.to_be_bytes());
    if keypos == 0 { f[200896] = 0; }
    let k1 = u32::from_be_bytes([f[200896 + 4 * keypos], f[200897 + 4 * keypos], f[200898 + 4 * keypos], f[200899 + 4 * keypos]]);
    let mut head = vec![7u8; 44]; head[22..26].copy_from_slice(&k2.to_le_bytes());
    f[164600..164644].copy_from_slice(&sony_crypt(&head, k1));
    f.extend(sony_crypt(&px, k2)); f.extend([0; 8]);
    let s = shot("SONY", "M1", "", &[], f);
    let want: Vec<u16> = (0..w * h).map(|k| (px[2 * k] as u16) << 8 | px[2 * k + 1] as u16).collect();
    out(valid(&s.loader, &s.file, "SRF"), w, h, &want, "SRF");
}

// ------------------------------------------------------------------ Samsung
fn sext(v: u16, n: usize) -> u16 { if n == 0 { return 0 } let s = v >> (n - 1) & 1; v.wrapping_sub((s as u32 * (1u32 << n)) as u16) }
fn align(b: &mut Vec<u8>, n: usize) { while b.len() % n != 0 { b.push(0) } }
fn lv() -> ([u32; 4], [u32; 4]) { ([10, 20, 30, 40], [1, 2, 3, 4]) }
pub fn srw1() {
    let k = case(8);
    let (l, bl) = lv();
    for (w, h) in [(16usize, 4usize), (36, 4)] {
        let mut p = Pool::new(); let mut px = vec![]; let mut off = vec![];
        let mut o = vec![0u16; w * h + 32];
        let mut n = k;
        for y in 0..h {
            let mut b = Bits::new();
            let mut len = [if y < 2 { 7usize } else { 4 }; 4];
            for x in (0..w).step_by(16) {
                n += 1;
                let up = y >= 2 && (n / 2) % 2 == 0;
                b.code(up as u32, 1);
                let op: Vec<usize> = (0..4).map(|i| { let q = (n * 5 + i * 3 + k) % 4; if q == 2 && len[i] == 0 || q == 1 && len[i] > 11 { 0 } else { q } }).collect();
                for i in 0..4 { b.code(op[i] as u32, 2) }
                // new lengths follow the four operations
                for i in 0..4 { match op[i] { 3 => { len[i] = (n * 3 + i * 7) % 13; b.code(len[i] as u32, 4) } 2 => len[i] -= 1, 1 => len[i] += 1, _ => {} } }
                for odd in 0..2 { for c in (odd..16).step_by(2) {
                    let q = len[2 * odd + c / 8];
                    let v = p.get(q); b.sym(v, q);
                    if x + c >= w { continue }
                    let pred = if up { o[(y - 1 - odd) * w + x + c] } else if x == 0 { 128 } else { o[y * w + x - 2 + odd] };
                    o[y * w + x + c] = pred.wrapping_add(sext(v, q));
                } }
            }
            off.push(px.len() as u32);
            let mut d = b.bytes(); align(&mut d, 4); px.extend(swap_words(&d, 4));
            // lines need not follow each other closely
            px.extend(vec![0; 4 * (y % 2)]);
        }
        px.extend([0; 8]);
        o.truncate(w * h);
        for y in (0..h).step_by(2) { for x in (0..w).step_by(2) { o.swap(y * w + x + 1, (y + 1) * w + x) } }
        let areas = AT + px.len();
        for v in off { px.extend(v.to_le_bytes()) }
        let s = srw(k % 2 == 0, w, h, 12, 32770, &px, Some(areas), &[], &l, &bl);
        out(valid(&s.loader, &s.file, "SRW 1"), w, h, &o, "SRW 1");
    }
}
pub fn srw2() {
    let k = case(8);
    let (l, bl) = lv();
    // number of bits of the code, and of the difference; the codes count up
    let tab: [(usize, usize); 14] = [(3, 4), (3, 7), (2, 6), (2, 5), (4, 3), (6, 0), (7, 9), (8, 10), (9, 11), (10, 12), (10, 13), (5, 1), (4, 8), (4, 2)];
    for (w, h) in [(6usize, 5usize), (10, 3), (2, 4)] {
        let (mut b, mut p) = (Bits::new(), Pool::new());
        let c = cats(k + w, 13, w * h); let mut n = 0;
        let want = pairs(w, h, [[0; 2]; 2], &mut |_, _| {
            let i = c[n]; n += 1;
            let start: usize = tab[..i].iter().map(|t| 1024 >> t.0).sum();
            b.code((start >> (10 - tab[i].0)) as u32, tab[i].0);
            let v = p.get(tab[i].1); b.sym(v, tab[i].1); extend(v, tab[i].1)
        });
        let mut px = b.bytes(); px.extend([0; 8]);
        let s = srw(k % 2 == 0, w, h, 12, 32772, &px, None, &[], &l, &bl);
        out(valid(&s.loader, &s.file, "SRW 2"), w, h, &want, "SRW 2");
    }
}
pub fn srw3() {
    let k = case(16);
    let (l, bl) = lv();
    let opt = k % 8;
    let (skip, mv, qp) = (opt & 1 != 0, opt & 2 != 0, opt & 4 != 0);
    let (w, h) = if qp { (48usize, 5usize) } else { (80, 4) };
    let depth = [12usize, 14][k / 8]; let top = (1i32 << depth) - 1;
    let init = [2000u16, 9000][k / 8];
    let mut p = Pool::new();
    let mut b = Bits::new();
    b.code(0x1234, 16); b.code(3, 4); b.code(depth as u32 - 1, 4); b.code(9, 4); b.code(5, 4); b.code(w as u32, 16); b.code(h as u32, 16); b.code(77, 16); b.code(1, 4); b.code(opt as u32, 4);
    b.code(7, 8); b.code(1, 8); b.code(2, 8); b.code(1, 2); b.code(init as u32, 14);
    let mut px = b.bytes(); align(&mut px, 16);
    let mut o = vec![0u16; w * h]; let mut r = vec![[0i32; 2]; w * h];
    let mut n = k;
    for y in 0..h {
        let mut b = Bits::new();
        let mut mode = 7usize; let mut scale = 0i32;
        let mut hist = [[if y < 2 { 7usize } else { 4 }; 2]; 3];
        for x in (0..w).step_by(16) {
            n += 1;
            if !qp && x % 64 == 0 {
                let i = [0, 2, 3, 1, 0, 3][(n + y) % 6];
                let i = if i == 1 && scale < 2 { 0 } else { i };
                b.code(i as u32, 2);
                match i { 1 => scale -= 2, 2 => scale += 2, 3 => { scale = ((n * 5 + k) % 4) as i32; b.code(scale as u32, 12) } _ => {} }
            }
            // the reference: 7 is the last pixels of the line, others lines above
            let m = if y < 2 { 7 } else if mv { [3, 7, 3][n % 3] } else { (n * 5 + y + k) % 8 };
            // keep within the lines above
            let m = if m < 3 && x == 0 || m > 3 && m < 7 && x + 16 >= w { 3 } else { m };
            if mv { b.code((m == 3) as u32, 1); mode = m }
            else if m == mode && n % 2 == 0 { b.code(1, 1) } else { b.code(0, 1); b.code(m as u32, 3); mode = m }
            let mut len = [0usize; 4];
            if skip || n % 4 != 3 {
                if !skip { b.code(0, 1) }
                let mut hs = hist;
                let mut flags = [0usize; 4];
                for i in 0..4 {
                    let c = if y % 2 == 1 { i / 2 } else { (i / 2 + 2) % 3 };
                    let mut f = (n + i * 3 + k) % 4;
                    if f == 1 && hs[c][0] > 7 || f == 2 && hs[c][0] == 0 { f = 0 }
                    len[i] = match f { 0 => hs[c][0], 1 => hs[c][0] + 1, 2 => hs[c][0] - 1, _ => (n * 7 + i) % 8 };
                    flags[i] = f;
                    hs[c][0] = hs[c][1]; hs[c][1] = len[i];
                }
                hist = hs;
                for i in 0..4 { b.code(flags[i] as u32, 2) }
                for i in 0..4 { if flags[i] == 3 { b.code(len[i] as u32, 4) } }
            } else { b.code(1, 1) }
            for i in 0..16 {
                // of the sixteen pixels first those of even, then those of odd columns; in odd lines the other way round
                let c = if y % 2 == 1 { (i % 8) * 2 + 1 - i / 8 } else { (i % 8) * 2 + i / 8 };
                let pred = if m == 7 { if x == 0 { init } else { o[y * w + x - 2 + c % 2] } } else {
                    let at = |d: isize| if (y + c) % 2 == 1 { o[((y - 2) * w + x + c) as isize as usize + 4 - (4 - d) as usize] } else { o[((y - 1) * w + x + c) as isize as usize + if c % 2 == 1 { 3 } else { 5 } - (4 - d) as usize] };
                    match m { 0 => at(-4), 1 => at(-2), 2 => mean(at(-2), at(0)), 3 => at(0), 4 => mean(at(0), at(2)), 5 => at(2), _ => at(4) }
                };
                let q = len[i / 4];
                // known differences where a pixel may reach the limits, but in the last line
                let f = |v: i32| v * (2 * scale + 1) + scale;
                let from = if m == 7 { if x == 0 { [init as i32; 2] } else { r[y * w + x - 2 + c % 2] } } else { let mut e = [9999999, 0]; for u in (y - 2) * w..y * w { e = [r[u][0].min(e[0]), r[u][1].max(e[1])] } e };
                let e = [from[0] + f(if q == 0 { 0 } else { -(1 << (q - 1)) }), from[1] + f(if q == 0 { 0 } else { (1 << (q - 1)) - 1 })];
                let within = e[0] >= 0 && e[1] <= top;
                let symbolic = within || y == h - 1 && i % 8 == 7 && x + 16 >= w;
                let low = if i % 5 == 0 && scale == 0 { q } else { q.min(3) };
                let v = if symbolic { let top = if q > low { (n * 7 + i) & ((1 << (q - low)) - 1) } else { 0 }; b.code(top as u32, q - low); let v = p.get(low); b.sym(v, low); (top << low) as u16 | v } else { let v = if q == 0 { 0 } else if from[0] + from[1] > top { 1u16 << (q - 1) } else { (1 << (q - 1)) - 1 }; b.code(v as u32, q); v };
                let known = sext(v, q) as i16 as i32;
                let e = if symbolic { e } else { [from[0] + f(known), from[1] + f(known)] };
                r[y * w + x + c] = [e[0].max(0).min(top), e[1].max(0).min(top)];
                let s = pred as i32 + f(known);
                // limited to the range
                o[y * w + x + c] = s.max(0).min(top) as u16;
            }
        }
        let mut d = b.bytes(); align(&mut d, 16); px.extend(d);
    }
    px.extend([0; 16]);
    let px = swap_words(&px, 4);
    let s = srw(k % 2 == 0, w, h, 12, 32773, &px, None, &[], &l, &bl);
    out(valid(&s.loader, &s.file, "SRW 3"), w, h, &o, "SRW 3");
}
fn mean(a: u16, b: u16) -> u16 { ((a as u32 + b as u32 + 1) / 2) as u16 }

// ------------------------------------------------------------------ Phase One
pub fn phase() {
    let k = case(10);
    let lens = [8usize, 7, 6, 9, 11, 10, 5, 12, 14, 13];
    for (w, h) in [(8usize, 2usize), (19, 3), (7, 2), (32, 2)] {
        let mut p = Pool::new(); let mut px = vec![]; let mut off = vec![]; let mut want = vec![];
        let mut n = k;
        for y in 0..h {
            let mut b = Bits::new(); let mut len = [0usize; 2]; let mut pred = [0u16; 2]; let mut r = [[0i32; 2]; 2];
            for x in 0..w {
                if x >= w & !7 { len = [14, 14] }
                else if x % 8 == 0 { for i in 0..2 {
                    n += 1;
                    // start with whole values, or with small ones
                    let q = if x == 0 { if y == 0 || i == 0 { 8 } else { 7 } } else { (n * 3 + i + k) % 11 };
                    if q == 10 { b.code(1, 1) } else { for _ in 0..q / 2 + 1 { b.code(0, 1) } if q / 2 < 4 { b.code(1, 1) } b.code((q % 2) as u32, 1); len[i] = lens[q] }
                } }
                let l = len[x % 2];
                if l == 14 {
                    // a whole value, free where nothing follows
                    if x >= w & !7 { let v = p.get(16); b.sym(v, 16); pred[x % 2] = v }
                    else { let t = [5u16, 9, 3, 12][(n + x) % 4]; b.code(t as u32, 4); let v = p.get(12); b.sym(v, 12); pred[x % 2] = t << 12 | v; r[x % 2] = [(t as i32) << 12, (t as i32) << 12 | 4095] }
                } else {
                    let q = r[x % 2]; let half = 1i32 << (l - 1);
                    let d = if q[0] + 1 - half >= 0 && q[1] + half < 65536 { let v = p.get(l); b.sym(v, l); r[x % 2] = [q[0] + 1 - half, q[1] + half]; v as i32 + 1 - half }
                        else { let v = if q[0] + q[1] < 65536 { half + 3 } else { 2 }; b.code(v as u32, l); let d = v + 1 - half; r[x % 2] = [q[0] + d, q[1] + d]; d };
                    pred[x % 2] = (pred[x % 2] as i32 + d) as u16;
                }
                want.push(pred[x % 2]);
            }
            off.push(px.len() as u32);
            let mut d = b.bytes(); align(&mut d, 4); px.extend(swap_words(&d, 4)); px.extend([0; 4]);
        }
        let s = iiq("Phase One A/S", w, h, &off, &px, &[0; 12], 0);
        out(valid(&s.loader, &s.file, "IIQ"), w, h, &want, "IIQ");
    }
}

// ------------------------------------------------------------------ Kodak
pub fn kodak() {
    let k = case(8);
    let curve: Vec<u16> = (0..4096usize).map(|v| match k % 2 { 0 => v as u16, _ => (v + v * v / 300) as u16 }).collect();
    let table = steps(&curve);
    let mut rand = 0u32;
    let (w, h) = [(12usize, 3usize), (8, 2), (260, 1), (4, 3)][k / 2];
    let mut p = Pool::new(); let mut px = vec![]; let mut want = vec![];
    let mut n = k;
    for _ in 0..h { for x in (0..w).step_by(256) {
        let size = (w - x).min(256);
        let len: Vec<usize> = (0..size).map(|i| { n += 1; if i < 2 { 12 } else if size > 20 && i % 16 > 2 { 0 } else { (n * 5 + k) % 11 } }).collect();
        for c in len.chunks(2) { px.push((c[0] | c[1] << 4) as u8) }
        // least significant bit first in big endian words of 16 bits
        let mut bits: Vec<u8> = vec![]; let mut loaded = if size % 8 == 4 { 16 } else { 0 };
        let mut pred = [0u16; 2];
        let mut r = [[0i32; 2]; 2];
        for i in 0..size {
            // differences that stay within the range; large ones are known
            let (l, q) = (len[i], r[i % 2]);
            let free = l < 9 && q[0] - (1 << l) >= 0 && q[1] + (1 << l) < 4096;
            let v = if l == 0 { 0 } else if free { p.get(l) } else { let e = (n + i) as u16 % 37 % (1 << (l - 1)); if q[0] + q[1] < 4096 { (1 << (l - 1)) + if l == 12 { 0 } else { e } } else { (1 << (l - 1)) - 1 - e } };
            for j in 0..l { bits.push((v >> j) as u8 & 1) }
            if loaded < bits.len() { loaded += 32 }
            let d = extend(v, l);
            r[i % 2] = if free { [q[0] - (1 << l), q[1] + (1 << l)] } else { [q[0] + d as i16 as i32, q[1] + d as i16 as i32] };
            pred[i % 2] = pred[i % 2].wrapping_add(d);
            want.push(dither(&table, pred[i % 2] as usize, &mut rand));
        }
        let d: Vec<u8> = (0..loaded / 8).map(|i| (0..8).map(|j| { let q = 8 * i + j; if q < bits.len() { bits[q] << j } else { 0 } }).sum()).collect();
        px.extend(swap_words(&d, 2));
    } }
    px.extend([0; 8]);
    let s = dcr(k % 4 < 2, w, h, &px, &curve, &[5; 45]);
    out(valid(&s.loader, &s.file, "DCR"), w, h, &want, "DCR");
}

// ------------------------------------------------------------------ Olympus
// the sign, the two lowest bits, and the rest in a number of bits that follows from what came before
pub fn olympus() {
    let k = case(8);
    for (w, h) in [(8usize, 2usize), (4, 5), (12, 6)] {
        let (mut b, mut p) = (Bits::new(), Pool::new());
        let mut o = vec![0u16; w * h];
        let mut r = vec![[0i32; 2]; w * h]; // the least and the largest that each can be
        let mut n = k;
        for y in 0..h {
            let mut carry = [[0i32; 3]; 2];
            for x in 0..w {
                let s = x % 2; let c = &mut carry[s];
                n += 1;
                let i = if c[2] < 3 { 2 } else { 0 };
                let mut nb = 2 + i; while (c[0] as u32 & 0xffff) >> (nb + i) > 0 { nb += 1 }
                // the size of the difference is known, its last bits are not
                let big = y < 2 && x < 2;
                let high = if big || nb < 4 && n % 3 == 1 { 12 } else if nb > 6 { 0 } else { [0, 1, 0, 2, 0, 0, 1][(n + k) % 7] };
                let symbolic = if w < 12 { y < 2 || x < 2 || n % 3 == 0 } else { n % 5 == 0 };
                let low = if symbolic { p.get(2) } else { (n % 4) as u16 };
                let rest = if high == 12 { if big { [31, 27][s] } else { 12 + (n % 5) as i32 } } else { high };
                // at the end all of it is free: no size follows from it
                let end = x >= w - 2 && y == h - 1 && !big;
                let last = if end { p.get(nb) as i32 } else { ((n * 3 + k) & ((1 << nb) - 1)) as i32 };
                c[0] = rest << nb | last;
                let all = if end { [rest << nb, rest << nb | ((1 << nb) - 1)] } else { [c[0]; 2] };
                let near = |y: usize, x: usize| r[y * w + x];
                let (l, u) = if y < 2 && x < 2 { ([0; 2], [0; 2]) } else if y < 2 { (near(y, x - 2), near(y, x - 2)) } else if x < 2 { (near(y - 2, x), near(y - 2, x)) } else { (near(y, x - 2), near(y - 2, x)) };
                let q = [l[0].min(u[0]), l[1].max(u[1])];
                // the sign that stays in the range
                let mut sign = if big { 0 } else { ((n / 2 + k) % 2) as i32 };
                let span = |sign: i32, c1: i32| { let (a, b) = (((all[0] ^ -sign) + c1) << 2, ((all[1] ^ -sign) + c1) << 2); [a.min(b), a.max(b)] };
                for _ in 0..2 { let d = span(sign, c[1]); if q[0] + d[0] < 0 || q[1] + d[1] + 3 > 4095 { sign = 1 - sign } }
                let range = span(sign, c[1]);
                b.code(sign as u32, 1); if symbolic { b.sym(low, 2) } else { b.code(low as u32, 2) }
                if high == 12 { b.code(0, 12); b.code((rest as u32) << 1, 16 - nb) } else { b.code(1, high as usize + 1) }
                if end { b.sym(last as u16, nb) } else { b.code(last as u32, nb) }
                let d = (c[0] ^ -sign) + c[1];
                c[1] = (d * 3 + c[1]) >> 5;
                if !end { c[2] = if c[0] > 16 { 0 } else { c[2] + 1 } }
                let e = if symbolic { [0, 3] } else { [low as i32; 2] };
                r[y * w + x] = [q[0] + range[0] + e[0], q[1] + range[1] + e[1]];
                if r[y * w + x][0] < 0 || r[y * w + x][1] > 4095 { panic!("harness: ORF out of range {:?}", r[y * w + x]) }
                let at = |y: usize, x: usize| o[y * w + x] as i32;
                let pred = if y < 2 && x < 2 { 0 } else if y < 2 { at(y, x - 2) } else if x < 2 { at(y - 2, x) } else {
                    let (l, u, q) = (at(y, x - 2), at(y - 2, x), at(y - 2, x - 2));
                    let between = ((l < q) & (q < u)) | ((u < q) & (q < l));
                    let (dl, du) = (abs(l - q), abs(u - q));
                    let far = (dl > 32) | (du > 32);
                    let a = l + u - q; let m = (l + u) >> 1; let e = sel(dl > du, l, u);
                    sel(between, sel(far, a, m), e)
                };
                o[y * w + x] = (pred + ((d << 2) | low as i32)) as u16;
            }
        }
        let mut px = vec![9u8; 7]; px.extend(b.bytes()); px.extend([0; 8]);
        let s = orf(k % 2 == 0, w, h, &px, 0, [1, 2]);
        out(valid(&s.loader, &s.file, "ORF, compressed"), w, h, &o, "ORF, compressed");
    }
}
fn abs(v: i32) -> i32 { sel(v < 0, -v, v) }
fn sel(c: bool, a: i32, b: i32) -> i32 { let m = -(c as i32); (a & m) | (b & !m) }

// ------------------------------------------------------------------ Panasonic
pub fn panasonic() {
    let k = case(8);
    let split = k % 2 == 1;
    // five lines of 14 * 210 pixels and a little: blocks of 16384 bytes hold 1024 groups of 14 pixels
    let (w, h) = (14 * 210, 8usize);
    let groups = w / 14 * h;
    let blocks = (groups + 1023) / 1024;
    let mut buf = vec![0u8; blocks * 0x4000];
    let mut p = Pool::new();
    let mut want = vec![0u16; w * h];
    // groups with contents: at the edges of lines and blocks, and where the halves of a split block meet
    let mut list = vec![0usize, 1, 209, 210, 1023, 1024, groups - 1, 511];
    if k / 2 % 2 == 1 { list = vec![5, 512, 1049, 1050, 1255, 510, 1535] }
    let mut n = k;
    for g in list {
        n += 1;
        let zero = if g == 512 { k / 4 * 2 } else { (n * 3 + k) % 6 }; // which of the pixels start from zero
        let mut bits: Vec<u8> = vec![];
        let mut put = |v: u16, m: usize| for i in (0..m).rev() { bits.push((v >> i) as u8 & 1) };
        let mut pred = [0i32; 2]; let mut seen = [false; 2]; let mut sh = 0;
        let mut r = [[0i32; 2]; 2]; let mut turns = [0; 2];
        for i in 0..14 {
            if i % 3 == 2 { let q = (n + i) % 4; put(q as u16, 2); sh = [0, 1, 2, 4][q] }
            let c = i % 2;
            if seen[c] {
                // whether the least value is reached stays open once only
                let open = sh < 4 && r[c][0] < 128 << sh && r[c][1] >= 128 << sh;
                if (n + i) % 7 == 6 || open && turns[c] > 0 { put(0, 8) }
                else {
                    turns[c] += open as usize;
                    // not zero: one of the bits is set
                    let one = 1u16 << (i + n) % 8; let j = (p.get(8) | one) as i32; put(j as u16, 8);
                    let d = pred[c] - (128 << sh); let m = (1 << sh) - 1;
                    let least = (d < 0) | (sh == 4);
                    pred[c] = if open { sel(least, d & m, d) } else if sh == 4 || r[c][1] < 128 << sh { d & m } else { d };
                    let (lo, hi) = (one as i32, 255);
                    r[c] = if open || sh == 4 || r[c][1] < 128 << sh { [lo << sh, (hi << sh) + if open { m.max(r[c][1] - (128 << sh)) } else { m }] } else { [r[c][0] - (128 << sh) + (lo << sh), r[c][1] - (128 << sh) + (hi << sh)] };
                    pred[c] += j << sh;
                }
            } else {
                seen[c] = first_known(zero, i);
                let one = 1u16 << (i + n) % 8;
                let first = if seen[c] { p.get(8) | one } else { 0 };
                put(first, 8);
                if i > 11 || seen[c] { let v = p.get(4); put(v, 4); pred[c] = ((first << 4) | v) as i32; r[c] = [(one as i32) << 4, 4095] }
            }
            want[g * 14 + i] = pred[c] as u16;
        }
        // the first bit of a group is the highest of its sixteen bytes, highest bytes first
        bits.resize(128, 0);
        let at = g / 1024 * 0x4000; let base = g % 1024 * 16;
        for b in 0..16 { let v = (0..8).map(|j| bits[127 - (8 * b + j)] << j).sum(); let q = base + b; buf[at + if split { (q + 0x4000 - 0x2008) % 0x4000 } else { q }] = v }
    }
    let what = if split { "RW2, compressed, split blocks" } else { "RW2, compressed" };
    let mut s = rw2(w, h, &buf, "16:9", split, true, &[1, 2, 3]);
    s.file.truncate(AT + buf.len());
    out(valid(&s.loader, &s.file, what), w, h, &want, what);
}
fn first_known(zero: usize, i: usize) -> bool { let c = i % 2; !(zero == 1 && i < 2 || zero == 2 && c == 0 && i < 9 || zero == 3 && c == 1 || zero == 4 && i < 11) }

// ------------------------------------------------------------------ Canon's first
pub fn canon() {
    let k = case(12);
    let table = k % 3; let low = k / 3 % 2 == 0;
    let (w, h) = if k == 5 { (2672usize, 4usize) } else { (32, 6) };
    let (mut b, mut p) = (Bits::new(), Pool::new());
    let (t1, t2) = (&crate::tables::CRW1[table], &crate::tables::CRW2[table]);
    let lows = if low { bytes(w * h / 4) } else { vec![] };
    let mut want = vec![0u16; w * h]; let mut base = [512u16; 2]; let mut carry = 0u16;
    let mut n = k;
    for blk in 0..w * h / 64 {
        let mut d = [0u16; 64]; let mut i = 0;
        while i < 64 {
            n += 1;
            let t: &[u8] = if i == 0 { &t1[..] } else { &t2[..] };
            let leafs = &t[16..]; let total: usize = t[..16].iter().map(|x| *x as usize).sum();
            let mut leaf = leafs[(n * 7 + blk * 3 + k) % total.min(leafs.len())];
            if w > 100 && blk % 60 != 5 { leaf = 0 }
            if i > 0 && n % 9 == 8 { leaf = 0 }
            if i == 0 && leaf == 0xff { leaf = 0 }
            if leaf & 15 > 9 && leaf != 0xff { leaf = if i == 0 { 5 } else { leaf & 0xf0 | 4 }; if !leafs.contains(&leaf) { leaf = leafs[0] } }
            let (code, l) = crw_code(t, leaf); b.code(code, l);
            if leaf == 0 && i > 0 { break }
            if leaf == 0xff { i += 1; continue }
            i += (leaf >> 4) as usize;
            let c = (leaf & 15) as usize;
            if c == 0 { i += 1; continue }
            let v = p.get(c); b.sym(v, c);
            if i < 64 { d[i] = extend(v, c) }
            i += 1;
        }
        d[0] = d[0].wrapping_add(carry); carry = d[0];
        for i in 0..64 {
            let q = blk * 64 + i;
            if q % w == 0 { base = [512; 2] }
            base[i % 2] = base[i % 2].wrapping_add(d[i]);
            want[q] = base[i % 2];
        }
    }
    for q in 0..w * h { if low {
        let v = want[q] << 2 | (lows[q / 4] >> (q % 4 * 2) & 3) as u16;
        want[q] = if w == 2672 { v + 2 * (v < 512) as u16 } else { v };
    } }
    let mut body = lows; body.extend(vec![0; 514]); body.extend(b.stuffed()); body.extend([0; 16]);
    let kv = if low { vec![] } else { vec![hints(&["nolowbits"])] };
    let s = crw(w, h, &body, table as u32, &[], &kv);
    out(valid(&s.loader, &s.file, "CRW"), w, h, &want, "CRW");
}
fn crw_code(t: &[u8], leaf: u8) -> (u32, usize) {
    let (mut code, mut at) = (0u32, 16);
    for l in 1..17 { for _ in 0..t[l - 1] { if t[at] == leaf { return (code, l) } code += 1; at += 1 } code <<= 1 }
    panic!("harness: no such leaf")
}
