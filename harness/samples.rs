// One small file of every kind, from the same symbolic contents each time; comparison of whole results.
use crate::api::*;
use crate::formats::*;
use crate::jpeg;
use crate::util::*;
use rawloader::decoders::*;

pub struct Pool { pub px: Vec<u8>, pub lj: Vec<u8>, pub off: Vec<u32>, pub wb: [u16; 4], pub seed: usize }
fn frame(w: usize, h: usize, n: usize, prec: usize, ids: bool) -> jpeg::Frame { jpeg::Frame { w, h, prec, tables: vec![jpeg::table(0)], sel: vec![0; n], sup: 0x11, pred: 1, pt: 0, ids } }
pub const KINDS: usize = 31;
pub fn pool(k: usize) -> Pool {
    let mut p = Pool { px: bytes(64), lj: vec![], off: vec![], wb: [u16s(), u16s(), u16s(), u16s()], seed: 0 };
    for v in p.wb { assume(v != 0) }
    match k {
        16 => { p.px[2] = 5; p.px[3] = 0; p.px[18] = 9; p.px[19] = 0 } // the lengths of the differences
        20 => for k in 0..16 { p.px[k] = (37 * k) as u8 },
        23 => for t in 0..4 { p.off.push((DNGAT + p.lj.len()) as u32); p.lj.extend(jpeg::encode(&frame(2, 2, 2, 14, false), &mut jpeg::Coder::new(3 * t, 1, 3)).0) },
        14 => p.lj = jpeg::encode(&frame(2, 3, 2, 14, false), &mut jpeg::Coder::new(2, 1, 3)).0,
        30 => p.lj = jpeg::encode(&frame(2, 3, 2, 14, false), &mut jpeg::Coder::new(5, 1, 3)).0,
        _ => {}
    }
    p
}
// concrete contents
pub fn other(seed: usize) -> Pool { Pool { px: vec![(seed * 40 & 255) as u8; 64], lj: vec![], off: vec![0; 4], wb: [3, 7, 11, 13], seed } }
fn fixed(n: usize, seed: usize) -> Vec<u8> { (0..n).map(|k| ((k * 97 + k / 7 * 13 + seed * 31) & 255) as u8).collect() }
pub fn sample(k: usize, big: bool, p: &Pool) -> Shot {
    let x = &p.px; let w = &p.wb;
    let t: Vec<u16> = (0..256u32).map(|k| (k * 200) as u16 + p.seed as u16).collect();
    match k {
        0 => mef(big, 4, 4, &x[..24]),
        1 => erf(big, 10, 3, &x[..64], &[x[0], x[1], x[2], x[3]]),
        2 => kdc(big, 82, 72, &fixed(82 * 72 * 3 / 2, 1 + p.seed), Ok([w[0] as u32, w[1] as u32, w[2] as u32]), false),
        3 => dcs(big, 1002, 3, &fixed(3006, 2 + p.seed), &t),
        4 => orf(big, 4, 4, &x[..32], 32, [w[0], w[1]]),
        5 => arw(4, 4, 14, 1, &x[..32], 32, "M1", &[0; 4], 0x7313, w),
        6 => srw(big, 4, 4, 12, 32770, &x[..24], None, &[], &[w[0] as u32, 20, 30, w[1] as u32], &[1, 2, 3, 4]),
        7 => raf(&Raf { big, w: 4, h: 4, bps: Some(12), px: &x[..24], kv: vec![], old: false, wb: *w }),
        8 => rw2(4, 3, &x[..24], "4:3", false, true, &[w[0], w[1], w[2]]),
        9 => nef(big, 4, 4, 12, 1, &x[..24], 24, "M1", &|d| nefwb(d, [(w[0] as u32, w[1] as u32), (w[2] as u32, w[3] as u32)]), AT),
        10 => { let mut t = vec![1u8; 1600]; t[1248..1250].copy_from_slice(&w[0].to_be_bytes()); nrw(big, 1008, 3, &fixed(1008 * 9 / 2, 3 + p.seed), &[], &|d| { d.undef(0x14, &t); }, 0x900) }
        11 => pef(big, 4, 4, 32773, &x[..24], &|d| { d.short(0x200, &[w[3], 2, 3, w[1]]); }, w),
        12 => mos(big, 4, 4, 1, &x[..32], &[], "1\n2\n4\n8"),
        13 => dng(&Dng { big, w: 4, h: 4, cpp: 1, bps: 12, comp: 1, px: &x[..24], table: None, tiles: None }),
        14 => { let mut wb = vec![9u16; 80]; wb[63..67].copy_from_slice(w); cr2(&Cr2 { big, find: 0, stripes: None, size: Some((4, 3)), px: &p.lj, kv: vec![], wb, curve: None }) }
        15 => tfr(big, 2, 1, &jpeg::tiny_pairs(), &[(w[0] as u32, 2), (3, w[1] as u32), (w[2] as u32, 5)]),
        16 => iiq("Phase One A/S", 8, 2, &[0, 16], &x[..64], &[x[0], x[1], x[2], 0x40, x[4], x[5], x[6], 0x40, x[8], x[9], x[10], 0x41], 400),
        17 => dcr(big, 8, 3, &(0..24usize).map(|k| match k % 8 { 0 => 0x88u8, 4 | 5 => 0x80 + (k * 7 + p.seed * 5 & 63) as u8, _ => 0 }).chain([0; 8]).collect::<Vec<u8>>(), &t, &{ let mut t = vec![7u8; 46]; t[40..42].copy_from_slice(&w[0].to_be_bytes()); t }),
        18 => mrw(4, 4, &x[..24], true, w, false),
        19 => ari(8, 3, &x[..36], &[x[40], x[41], x[42], 0x40, x[44], x[45], x[46], 0x40, x[48], x[49], x[50], 0x41]),
        20 => Shot { loader: loader(vec![cam("Naked", "M1", "", &[("filesize", int(30)), ("raw_width", int(8)), ("raw_height", int(3))])]), file: x[..30].to_vec() },
        21 => { let mut body = vec![0u8; 514 + 64]; for b in body.iter_mut().skip(514) { *b = 0xff } let mut t = vec![7u16; 12]; t[3] = w[0]; t[6] = w[2]; crw(8, 8, &body, 0, &[(0x10a9, shorts(&t))], &[hints(&["nolowbits"]), ("wb_offset", int(3))]) }
        22 => dng(&Dng { big, w: 16, h: 4, cpp: 1, bps: 8, comp: 1, px: &{ let mut v = fixed(64, 5 + p.seed); for b in &mut v[..4] { *b = 0 } for b in &mut v[32..36] { *b = 0 } v }, // lines that begin black
            table: Some(t), tiles: None }),
        23 => dng(&Dng { big, w: 6, h: 4, cpp: 1, bps: 16, comp: 7, px: &p.lj, table: None, tiles: Some((4, 2, p.off.clone())) }),
        24 => { let t: Vec<u8> = (0..8usize).flat_map(|k| (1500u128 | 200 << 11 | (k as u128 + 3) << 22 | 9 * (k as u128 % 2) << 26 | fixed(98, k + p.seed).iter().fold(0u128, |v, b| v << 1 | (b & 1) as u128) << 30).to_le_bytes()).collect(); arw(32, 4, 8, 32767, &t, t.len(), "M1", &[8000, 10400, 12900, 14100], 0x7303, w) }
        25 => rw2(42, 10, &fixed(0x4000, 8 + p.seed), "16:9", true, true, &[w[0], w[1], w[2]]),
        26 => erf(big, 12, 4, &fixed(18 * 4 + 30, 9 + p.seed), &[1, 2, 3, 4]),
        27 => raf(&Raf { big, w: 8, h: 6, bps: Some(16), px: &fixed(96, 4 + p.seed), kv: vec![hints(&["fuji_rotation"])], old: false, wb: *w }),
        28 => orf(big, 20, 4, &fixed(2048 + 200, 6 + p.seed), 20 * 4 * 3 / 2, [w[0], w[1]]),
        29 => dng(&Dng { big, w: 2, h: 3, cpp: 3, bps: 16, comp: 1, px: &x[..36], table: None, tiles: None }),
        _ => dng(&Dng { big, w: 4, h: 3, cpp: 1, bps: 16, comp: 7, px: &p.lj, table: None, tiles: None }),
    }
}
pub fn name(k: usize) -> &'static str { ["MEF", "ERF", "KDC", "DCS", "ORF", "ARW", "SRW", "RAF", "RW2", "NEF", "NRW", "PEF", "MOS", "DNG", "CR2", "3FR", "IIQ", "DCR", "MRW", "ARI", "naked", "CRW", "DNG with a curve", "DNG of tiles", "ARW 2", "RW2, compressed", "ERF of 12 columns", "RAF, turned", "ORF, interlaced", "DNG of three colours", "DNG of one strip"][k] }
pub fn tiff_kind(k: usize) -> bool { !matches!(k, 18 | 19 | 20 | 21) }
// every field of two images
pub fn alike(a: &RawImage, b: &RawImage, what: &str) {
    check(a.width == b.width && a.height == b.height && a.cpp == b.cpp && a.data.len() == b.data.len(), &(what.to_string() + ": size"));
    check(a.make == b.make && a.model == b.model && a.clean_make == b.clean_make && a.clean_model == b.clean_model, &(what.to_string() + ": names"));
    check(a.crops == b.crops && a.orientation == b.orientation, &(what.to_string() + ": crops or orientation"));
    for k in 0..4 {
        eq(a.whitelevels[k] as u64, b.whitelevels[k] as u64, &(what.to_string() + ": white levels")); eq(a.blacklevels[k] as u64, b.blacklevels[k] as u64, &(what.to_string() + ": black levels"));
        feq(a.wb_coeffs[k], b.wb_coeffs[k], &(what.to_string() + ": white balance"));
        for j in 0..3 { feq(a.xyz_to_cam[k][j], b.xyz_to_cam[k][j], &(what.to_string() + ": colour matrix")) }
    }
    check(a.cfa.is_valid() == b.cfa.is_valid() && (!a.cfa.is_valid() || (0..144).all(|k| a.cfa.color_at(k / 12, k % 12) == b.cfa.color_at(k / 12, k % 12))), &(what.to_string() + ": pattern"));
    same(&a.data, &b.data, &(what.to_string() + ": samples"));
}
// all of an image as bytes
pub fn ser(i: &RawImage) -> Vec<u8> {
    let mut v = vec![];
    for n in [i.width, i.height, i.cpp, i.data.len(), i.crops[0], i.crops[1], i.crops[2], i.crops[3], i.orientation as usize] { v.extend((n as u32).to_le_bytes()) }
    for t in [&i.make, &i.model, &i.clean_make, &i.clean_model] { v.extend((t.len() as u32).to_le_bytes()); v.extend(t.as_bytes()) }
    for k in 0..4 { v.extend(i.whitelevels[k].to_le_bytes()); v.extend(i.blacklevels[k].to_le_bytes()); v.extend(i.wb_coeffs[k].to_bits().to_le_bytes()); for x in i.xyz_to_cam[k] { v.extend(x.to_bits().to_le_bytes()) } }
    v.extend([i.cfa.is_valid() as u8]);
    if i.cfa.is_valid() { for k in 0..144 { v.push(i.cfa.color_at(k / 12, k % 12) as u8) } }
    for x in &i.data { v.extend(x.to_le_bytes()) }
    v
}
pub fn equal(a: &[u8], b: &[u8], what: &str) {
    check(a.len() == b.len(), &(what.to_string() + ": size"));
    for (x, y) in a.chunks(4).zip(b.chunks(4)) {
        let n = |c: &[u8]| c.iter().rev().fold(0u64, |v, b| v << 8 | *b as u64);
        eq(n(x), n(y), what)
    }
}
