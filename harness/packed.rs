// Uncompressed layouts: every sample of the decoded image equals the bits of the file that hold it.
use crate::api::*;
use crate::formats::*;
use crate::util::*;

pub enum Lay { Msb(usize), Lsb12, Swap16(usize), Swap32(usize), CtlMsb, CtlLsb, Aligned16, Un(bool, u16, u32), Skip, Field(usize) }

// n bits from bit p on of the stream whose words are stored with their bytes in the opposite order
fn swapped(s: &[u8], p: usize, n: usize, x: usize) -> u16 { let mut v = 0; for q in p..p + n { let k = q / 8 ^ x; v = v << 1 | (if k < s.len() { s[k] >> (7 - q % 8) & 1 } else { 0 }) as u16 } v }
// sample (row, col) of a w x h image stored in s
pub fn sample(s: &[u8], l: &Lay, w: usize, h: usize, row: usize, col: usize) -> u16 {
    match *l {
        Lay::Msb(n) => bits_msb(&s[row * w * n / 8..], col * n, n),
        Lay::Lsb12 => bits_lsb(&s[row * w * 12 / 8..], col * 12, 12),
        Lay::Swap16(n) => swapped(s, (row * w + col) * n, n, 1),
        Lay::Swap32(n) => swapped(s, (row * w + col) * n, n, 3),
        Lay::CtlMsb | Lay::CtlLsb => {
            let line = w * 12 / 8 + (w + 2) / 10;
            let g = &s[row * line + col / 10 * 16..];
            if let Lay::CtlMsb = *l { bits_msb(g, col % 10 * 12, 12) } else { bits_lsb(g, col % 10 * 12, 12) }
        }
        Lay::Aligned16 => { let bytes = w * 12 / 8; let line = bytes + bytes % 2; bits_msb(&s[row * line..], col * 12, 12) }
        Lay::Un(big, mask, shift) => { let p = (row * w + col) * 2; let v = if big { (s[p] as u16) << 8 | s[p + 1] as u16 } else { (s[p + 1] as u16) << 8 | s[p] as u16 }; (v & mask) >> shift }
        Lay::Skip => { let p = (row * 2 * w + col) * 2; (s[p + 1] as u16) << 8 | s[p] as u16 }
        // two fields: even rows first, odd rows from the given byte offset on
        Lay::Field(second) => { let f = if row % 2 == 0 { s } else { &s[second..] }; let _ = h; bits_msb(&f[row / 2 * w * 12 / 8..], col * 12, 12) }
    }
}
pub fn expect(img: &rawloader::decoders::RawImage, s: &[u8], l: &Lay, w: usize, h: usize, what: &str) {
    if !dims(img, w, h, 1, what) { return }
    for r in 0..h { for c in 0..w { eq(img.data[r * w + c] as u64, sample(s, l, w, h, r, c) as u64, what) } }
}

fn naked() {
    let one = |w: usize, h: usize, n: usize, hint: bool, l: Lay, what: &str| {
        let s = bytes(n); s0(&s);
        let mut kv = vec![("filesize", int(n as i64)), ("raw_width", int(w as i64)), ("raw_height", int(h as i64))];
        if hint { kv.push(hints(&["12le_16bitaligned"])) }
        let ld = loader(vec![cam("Naked", "N", "", &kv)]);
        if let Some(i) = valid(&ld, &s, what) { expect(&i, &s, &l, w, h, what) }
    };
    match choice(3) {
        0 => for (w, h) in [(8, 1), (16, 3), (24, 2), (40, 4), (96, 2)] { one(w, h, w * h * 10 / 8, false, Lay::Swap16(10), "naked 10 bit") },
        1 => for (w, h) in [(12, 4), (6, 4), (2, 10), (10, 6), (14, 2), (8, 3), (5, 4), (7, 8), (102, 2)] { one(w, h, w * h * 12 / 8, false, Lay::Swap16(12), "naked 12 bit") },
        _ => for (w, h) in [(6, 4), (8, 4), (10, 3), (2, 5), (12, 2), (14, 7), (102, 2)] { let line = w * 12 / 8; one(w, h, (line + line % 2) * h, true, Lay::Aligned16, "naked aligned") },
    }
}
// the payload is not the beginning of some other format
fn s0(s: &[u8]) { assume(s[0] != 0); assume(s[0] != b'I'); assume(s[0] != b'M'); assume(s[0] != b'A'); assume(s[0] != b'F'); assume(s[6] != b'H'); }


fn go(s: Shot, px: &[u8], l: Lay, w: usize, h: usize, what: &str) {
    if let Some(i) = valid(&s.loader, &s.file, what) { expect(&i, px, &l, w, h, what) }
}
// image sizes: every way a row can end in a partial group
const S: [(usize, usize); 12] = [(2, 1), (4, 3), (6, 5), (8, 2), (10, 2), (14, 3), (16, 6), (18, 4), (22, 1), (30, 3), (34, 8), (66, 2)];
const CTL: [(usize, usize); 11] = [(10, 2), (12, 3), (14, 2), (16, 4), (18, 3), (20, 3), (24, 4), (28, 5), (30, 2), (38, 3), (60, 2)];
const WB: [u16; 4] = [100, 200, 300, 400];
// sizes in pixels: several widths, so that partial groups at the end of a line occur
fn simple() {
    let big = choice(2) == 1;
    match choice(2) {
        0 => for (w, h) in S { let px = bytes(w * h * 3 / 2); go(mef(big, w, h, &px), &px, Lay::Msb(12), w, h, "MEF 12 bit"); },
        _ => for (w, h) in CTL { let px = bytes(h * (w * 12 / 8 + (w + 2) / 10) + 16); go(erf(big, w, h, &px, &[1, 2, 3, 4]), &px, Lay::CtlMsb, w, h, "ERF 12 bit with control bytes"); },
    }
}
fn kodak() {
    match choice(3) {
        0 => { let (w, h) = (82, 71); let px = bytes(w * h * 3 / 2); go(kdc(choice(2) == 1, w, h, &px, Ok([1, 2, 3]), false), &px, Lay::Msb(12), w, h, "KDC 12 bit"); }
        1 => { let (w, h) = (82, 72); let px = bytes(w * h * 3 / 2); go(kdc(true, w, h, &px, Err([1, 2, 3, 4]), true), &px, Lay::Msb(12), w, h, "KDC 12 bit at a fixed offset"); }
        _ => {
            // the table is a curve that puts 8 apart: dithering interpolates within a quarter around the point
            let (w, h) = (1002, 2);
            let mut px = bytes(w * h);
            for r in 0..h { for k in 0..4 { px[r * w + k] = (17 * k + 90 * r) as u8 } }
            let t: Vec<u16> = (0..256).map(|k| (k * 8 + 5) as u16).collect();
            let s = dcs(choice(2) == 1, w, h, &px, &t);
            if let Some(i) = valid(&s.loader, &s.file, "DCS 8 bit") { if dims(&i, w, h, 1, "DCS 8 bit") { let want = wtable(&px, &t, w, h); same(&i.data, &want, "DCS 8 bit"); } }
        }
    }
}
// a curve with dithering: (start, width) of the interval around every point
pub fn steps(t: &[u16]) -> (Vec<u16>, Vec<u16>) {
    let n = t.len();
    let (mut b, mut d) = (vec![], vec![]);
    for v in 0..n {
        let (c, lo, hi) = (t[v] as u32, t[if v > 0 { v - 1 } else { 0 }] as u32, t[if v + 1 < n { v + 1 } else { n - 1 }] as u32);
        b.push(c.wrapping_sub(hi.wrapping_sub(lo).wrapping_add(2) / 4).wrapping_mul((c != 0) as u32) as u16); d.push(hi.wrapping_sub(lo) as u16);
    }
    (b, d)
}
pub fn dither(t: &(Vec<u16>, Vec<u16>), v: usize, rand: &mut u32) -> u16 {
    let out = t.0[v] as u32 + ((t.1[v] as u32 * (*rand & 2047) + 1024) >> 12);
    *rand = 15700 * (*rand & 65535) + (*rand >> 16);
    out as u16
}
// 8 bit samples through such a curve, the noise seeded from the line
fn wtable(px: &[u8], t: &[u16], w: usize, h: usize) -> Vec<u16> {
    let mut o = vec![];
    let t = steps(t);
    let at = |k: usize| if k < px.len() { px[k] as u32 } else { 0 };
    for r in 0..h {
        let b = r * w; let mut rand = at(b) | at(b + 1) << 8 | at(b + 2) << 16 | at(b + 3) << 24;
        for c in 0..w { o.push(dither(&t, px[b + c] as usize, &mut rand)) }
    }
    o
}
fn minolta() {
    let packed = choice(2) == 1;
    for (w, h) in S {
        let px = bytes(if packed { w * h * 3 / 2 } else { w * h * 2 });
        go(mrw(w, h, &px, packed, &WB, false), &px, if packed { Lay::Msb(12) } else { Lay::Un(true, 0xfff, 0) }, w, h, if packed { "MRW packed" } else { "MRW unpacked" });
    }
}
fn arri() { for (w, h) in [(8, 1), (16, 3), (24, 4), (40, 2), (4, 4), (12, 6), (20, 2), (2, 12)] { let px = bytes(w * h * 3 / 2); go(ari(w, h, &px, &[1; 12]), &px, Lay::Swap32(12), w, h, "ARI 12 bit"); } }
fn olympus() {
    match choice(5) {
        0 => for (w, h) in S { let px = bytes(w * h * 2); go(orf(true, w, h, &px, px.len(), [1, 2]), &px, Lay::Un(true, 0xfff0, 4), w, h, "ORF unpacked, big endian"); },
        1 => for (w, h) in S { let px = bytes(w * h * 2); go(orf(false, w, h, &px, px.len(), [1, 2]), &px, Lay::Un(false, 0xfff0, 4), w, h, "ORF unpacked, little endian"); },
        2 => for (w, h) in CTL { let line = w * 12 / 8 + (w + 2) / 10; let px = bytes(line * h); go(orf(false, w, h, &px, w * h / 10 * 16 + w % 3, [1, 2]), &px, Lay::CtlLsb, w, h, "ORF with control bytes"); },
        3 => for (w, h) in [(20, 4), (24, 5), (20, 3), (10, 6), (500, 6), (2048, 3), (1366, 5)] {
            let half = (h + 1) / 2; let second = (half * w * 3 / 2 / 2048 + 1) * 2048;
            let px = bytes(second + h / 2 * w * 3 / 2);
            go(orf(false, w, h, &px, w * h * 3 / 2, [1, 2]), &px, Lay::Field(second), w, h, "ORF interlaced"); },
        _ => { let (w, h) = (3504, 2); let px = bytes(w * h * 3 / 2); go(orf(false, w, h, &px, px.len(), [1, 2]), &px, Lay::Swap32(12), w, h, "ORF 32 bit words"); }
    }
}
fn sony() {
    let k = choice(3);
    for (w, h) in S { match k {
        0 => { let px = bytes(w * h * 2); go(arw(w, h, 14, 1, &px, px.len(), "M1", &[0; 4], 0x7313, &WB), &px, Lay::Un(false, 0xffff, 0), w, h, "ARW uncompressed"); }
        1 => { let px = bytes(w * h * 2); go(arw(w, h, 14, 1, &px, px.len(), "DSC-R1", &[0; 4], 0x7303, &WB), &px, Lay::Un(true, 0x3fff, 0), w, h, "ARW DSC-R1"); }
        _ => { let px = bytes(w * h * 3 / 2); go(arw(w, h, 12, 32767, &px, px.len(), "M1", &[0; 4], 0x7303, &WB), &px, Lay::Lsb12, w, h, "ARW 12 bit"); }
    } }
}
fn samsung() {
    let (l, b) = ([10, 20, 30, 40], [1, 2, 3, 4]);
    let big = choice(2) == 1;
    let k = choice(5);
    for (w, h) in S { match k {
        0 => { let px = bytes(w * h * 2); go(srw(big, w, h, 12, 32769, &px, None, &[], &l, &b), &px, Lay::Un(false, 0xfff, 0), w, h, "SRW 12 bit unpacked"); }
        1 => { let px = bytes(w * h * 2); go(srw(big, w, h, 14, 32769, &px, None, &[], &l, &b), &px, Lay::Un(false, 0x3fff, 0), w, h, "SRW 14 bit unpacked"); }
        2 => { let px = bytes(w * h * 3 / 2); go(srw(big, w, h, 12, 32770, &px, None, &[], &l, &b), &px, Lay::Msb(12), w, h, "SRW 12 bit packed"); }
        3 => { let px = bytes(w * h * 3 / 2); go(srw(big, w, h, 12, 32770, &px, None, &["little_endian"], &l, &b), &px, Lay::Lsb12, w, h, "SRW 12 bit packed, little endian"); }
        _ => { let px = bytes(w * h * 2); go(srw(big, w, h, 14, 32770, &px, None, &[], &l, &b), &px, Lay::Un(false, 0x3fff, 0), w, h, "SRW 14 bit"); }
    } }
}
fn fujifilm() {
    let big = choice(2) == 1;
    let k = choice(9); let alt = k == 8;
    for (w, h) in S {
        let f = |bps: Option<u16>, px: &[u8], kv: Vec<(&str, toml::Value)>, old: bool| raf(&Raf { big, w, h, bps, px, kv, old, wb: WB });
        match k {
            0 => { let px = bytes(w * h * 3 / 2); go(f(Some(12), &px, vec![], false), &px, Lay::Lsb12, w, h, "RAF 12 bit"); }
            1 => { let px = bytes(w * h * 2); go(f(Some(14), &px, vec![], false), &px, Lay::Un(false, 0x3fff, 0), w, h, "RAF 14 bit"); }
            2 => { let px = bytes(w * h * 2); go(f(Some(16), &px, vec![], false), &px, Lay::Un(big, 0xffff, 0), w, h, "RAF 16 bit"); }
            3 => { let px = bytes(w * h * 2); go(f(None, &px, vec![], false), &px, Lay::Un(big, 0xffff, 0), w, h, "RAF without a sample size"); }
            4 => { let px = bytes(w * h * 2); assume(px[0] != b'I'); assume(px[0] != b'M'); go(f(None, &px, vec![], true), &px, Lay::Un(big, 0xffff, 0), w, h, "RAF, old structure"); }
            5 => { let px = bytes(w * h * 4); go(f(Some(16), &px, vec![hints(&["double_width"])], false), &px, Lay::Skip, w, h, "RAF with two images side by side"); }
            6 => { let (w, h) = (16, 3); let px = bytes(w * h * 3 / 2); let s = raf(&Raf { big, w, h, bps: Some(12), px: &px, kv: vec![hints(&["jpeg32"])], old: false, wb: WB }); go(s, &px, Lay::Swap32(12), w, h, "RAF 32 bit words"); }
            _ => {
                // the area that is rotated has an even number of lines and columns
                let (w, h) = (w + 4, 2 * h + 2);
                let px = bytes(w * h * 2);
                let s = raf(&Raf { big, w, h, bps: Some(16), px: &px, kv: vec![hints(&[if alt { "fuji_rotation_alt" } else { "fuji_rotation" }]), ("crops", ints(&[1, 3, 1, 1]))], old: false, wb: WB });
                let what = if alt { "RAF rotated (alt)" } else { "RAF rotated" };
                if let Some(i) = valid(&s.loader, &s.file, what) {
                    let (cw, ch) = (w - 4, h - 2);
                    let rw = if alt { ch + cw / 2 } else { cw + ch / 2 };
                    if dims(&i, rw, rw - 1, 1, what) {
                        let mut want = vec![0u16; rw * (rw - 1)];
                        for r in 0..ch { for c in 0..cw { let (y, x) = if alt { fuji_alt(ch, cw, r, c) } else { fuji(ch, cw, r, c) }; want[y * rw + x] = sample(&px, &Lay::Un(big, 0xffff, 0), w, h, r + 1, c + 1) } }
                        same(&i.data, &want, what);
                    }
                }
            }
        }
    }
}
fn panasonic() {
    match choice(2) {
        0 => for (w, h, m) in [(4, 3, "4:3"), (12, 10, "1:1"), (18, 10, "16:9"), (6, 4, "3:2")] { let px = bytes(w * h * 2); go(rw2(w, h, &px, m, false, false, &[1, 2, 3]), &px, Lay::Un(false, 0xfff0, 4), w, h, "RW2 unpacked"); },
        _ => for (w, h) in [(20, 11), (40, 22)] { let px = bytes(w * h / 10 * 16); go(rw2(w, h, &px, "16:9", false, true, &[1, 2, 3]), &px, Lay::CtlLsb, w, h, "RW2 with control bytes"); },
    }
}
fn nikon() {
    let big = choice(2) == 1;
    let wb = |d: &mut Ifd| nefwb(d, [(3, 2), (5, 4)]);
    match choice(3) {
        0 => { let k = choice(3); for (w, h) in S { match k {
            0 => { let px = bytes(w * h * 2); go(nef(big, w, h, 14, 1, &px, px.len(), "M1", &wb, AT), &px, Lay::Un(big, 0x3fff, 0), w, h, "NEF 14 bit"); }
            1 => { let px = bytes(w * h * 3 / 2); go(nef(big, w, h, 12, 1, &px, px.len(), "M1", &wb, AT), &px, if big { Lay::Msb(12) } else { Lay::Lsb12 }, w, h, "NEF 12 bit"); }
            _ => { let px = bytes(w * h * 3 / 2); go(nef(big, w, h, 12, 34713, &px, px.len(), "M1", &wb, AT), &px, if big { Lay::Msb(12) } else { Lay::Lsb12 }, w, h, "NEF 12 bit, not really compressed"); }
        } } },
        1 => { let (w, h) = (3040, 2); let px = bytes(h * 3040 / 10 * 16); go(nef(big, 3034, h, 12, 1, &px, px.len(), "NIKON D100", &wb, AT), &px, Lay::CtlMsb, w, h, "NEF D100"); }
        _ => {
            let (w, h) = (1008, 3);
            match choice(3) {
                0 => { let px = bytes(w * h * 3 / 2); go(nrw(big, w, h, &px, &[], &wb, AT), &px, Lay::Msb(12), w, h, "NRW 12 bit"); }
                1 => { let px = bytes(w * h * 3 / 2); go(nrw(big, w, h, &px, &["msb32"], &wb, AT), &px, Lay::Swap32(12), w, h, "NRW 32 bit words"); }
                _ => { let px = bytes(w * h * 3 / 2); go(nrw(big, w, h, &px, &["coolpixsplit", "nowb"], &|_| {}, AT), &px, Lay::Field(2 * w * 3 / 2), w, h, "NRW in two fields"); }
            }
        }
    }
}
fn pentax() {
    let big = choice(2) == 1;
    let k = choice(2);
    for (w, h) in S { match k {
        0 => { let px = bytes(w * h * 2); go(pef(big, w, h, 1, &px, &|_| {}, &WB), &px, Lay::Un(true, 0xffff, 0), w, h, "PEF 16 bit"); }
        _ => { let px = bytes(w * h * 3 / 2); go(pef(big, w, h, 32773, &px, &|_| {}, &WB), &px, Lay::Msb(12), w, h, "PEF 12 bit"); }
    } }
}
fn leaf() { let big = choice(2) == 1; for (w, h) in S { let px = bytes(w * h * 2); go(mos(big, w, h, 1, &px, &[], "1\n2\n4\n8"), &px, Lay::Un(big, 0xffff, 0), w, h, "MOS 16 bit"); } }
fn adobe(window: Option<usize>) {
    let f = |big: bool, w: usize, h: usize, bps: u16, cpp: u16, px: &[u8], t: Option<Vec<u16>>| dng(&Dng { big, w, h, cpp, bps, comp: 1, px, table: t, tiles: None });
    match match window { Some(_) => 5, None => choice(5) } {
        0 => { let big = choice(2) == 1; for (w, h) in S { let px = bytes(w * h * 2); go(f(big, w, h, 16, 1, &px, None), &px, Lay::Un(big, 0xffff, 0), w, h, "DNG 16 bit"); } }
        1 => for (k, (w, h)) in S.into_iter().enumerate() { let px = bytes(w * h * 3 / 2); go(f(k == 1, w, h, 12, 1, &px, None), &px, Lay::Msb(12), w, h, "DNG 12 bit"); },
        2 => for (k, (w, h)) in [(4, 3), (12, 2), (20, 4)].into_iter().enumerate() { let px = bytes(w * h * 5 / 4); go(f(k == 1, w, h, 10, 1, &px, None), &px, Lay::Msb(10), w, h, "DNG 10 bit"); },
        3 => { // three samples per pixel
            let (w, h) = (4, 3); let px = bytes(w * h * 6); let s = f(false, w, h, 16, 3, &px, None);
            if let Some(i) = valid(&s.loader, &s.file, "DNG linear") { if dims(&i, w, h, 3, "DNG linear") { for k in 0..w * h * 3 { eq(i.data[k] as u64, (px[2 * k] as u64) | (px[2 * k + 1] as u64) << 8, "DNG linear") } } }
        }
        4 => { // any 8 bit samples, some curves
            let (w, h) = (5, 2); let px = bytes(w * h);
            let c = choice(3);
            let t: Vec<u16> = (0..256u32).map(|k| match c { 0 => k as u16, 1 => (k * 200) as u16, _ => ((k * k) & 0xffff) as u16 }).collect();
            let s = f(choice(2) == 1, w, h, 8, 1, &px, Some(t.clone()));
            if let Some(i) = valid(&s.loader, &s.file, "DNG 8 bit") { if dims(&i, w, h, 1, "DNG 8 bit") { same(&i.data, &wtable(&px, &t, w, h), "DNG 8 bit") } }
        }
        _ => { // any non-decreasing curve, every 8 bit sample
            let (w, h) = (16, 16); let px: Vec<u8> = (0..256).map(|k| k as u8).collect();
            let mut t: Vec<u16> = (0..256).map(|k| (k * 60 + 600) as u16).collect();
            let window = window.unwrap_or(0); let at = [0, 100, 251][window];
            for k in at..at + 5 { t[k] = u16s(); if k > 0 { assume(t[k] >= t[k - 1]) } }
            if at + 5 < 256 { assume(t[at + 5] >= t[at + 4]) }
            // no step is so steep that the interval around a point would begin below zero
            for k in 0..256 { let (l, u) = (t[if k > 0 { k - 1 } else { 0 }] as u32, t[if k < 255 { k + 1 } else { 255 }] as u32); assume(u < 65530 + l); assume((t[k] == 0) | (t[k] as u32 * 4 + l >= u + 2)) }
            let s = f(window == 1, w, h, 8, 1, &px, Some(t.clone()));
            if let Some(i) = valid(&s.loader, &s.file, "DNG 8 bit, any curve") { if dims(&i, w, h, 1, "DNG 8 bit, any curve") { same(&i.data, &wtable(&px, &t, w, h), "DNG 8 bit, any curve") } }
        }
    }
}
pub fn run() {
    match case(17) { 0 => naked(), 1 => simple(), 2 => kodak(), 3 => minolta(), 4 => arri(), 5 => olympus(), 6 => sony(), 7 => samsung(), 8 => fujifilm(), 9 => panasonic(), 10 => nikon(), 11 => pentax(), 12 => leaf(), k => adobe(if k == 13 { None } else { Some(k - 14) }) }
}
