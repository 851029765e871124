// One builder per camera maker: a well-formed file (structure concrete, values and pixels as given)
// and the loader that knows the camera.
use crate::util::*;
use rawloader::decoders::*;
use toml::Value;

pub struct Shot { pub loader: RawLoader, pub file: Vec<u8> }
pub fn shot(make: &str, model: &str, mode: &str, kv: &[(&str, Value)], file: Vec<u8>) -> Shot { Shot { loader: loader(vec![cam(make, model, mode, kv)]), file } }

pub fn id(big: bool, make: &str, model: &str) -> Ifd { let mut d = Ifd::new(big); d.ascii(MAKE, make).ascii(MODEL, model); d }
// the usual description of the raw image
pub fn img(d: &mut Ifd, w: usize, h: usize, bps: u16, comp: u16, off: usize, len: usize) {
    d.long(WIDTH, &[w as u32]).long(LENGTH, &[h as u32]).short(BPS, &[bps]).short(COMPRESSION, &[comp]).long(STRIPS, &[off as u32]).long(STRIPBYTES, &[len as u32]);
}
pub const AT: usize = 0x400;

pub fn mef(big: bool, w: usize, h: usize, px: &[u8]) -> Shot {
    let mut d = id(big, "Mamiya-OP Co.,Ltd.", "M1"); let mut r = Ifd::new(big);
    img(&mut r, w, h, 12, 1, AT, px.len()); r.bytes(CFAPATTERN, &[0, 1, 1, 2]);
    d.sub(SUBIFDS, vec![r]);
    shot("Mamiya-OP Co.,Ltd.", "M1", "", &[], tiff_file(&[d], AT, px))
}
pub fn erf(big: bool, w: usize, h: usize, px: &[u8], wb: &[u8; 4]) -> Shot {
    let mut d = id(big, "SEIKO EPSON CORP.", "M1"); let mut r = Ifd::new(big);
    img(&mut r, w, h, 12, 1, AT, px.len()); r.bytes(CFAPATTERN, &[0, 1, 1, 2]);
    let mut t = vec![0u8; 256]; t[48..52].copy_from_slice(wb);
    d.undef(0xe80, &t).sub(SUBIFDS, vec![r]);
    shot("SEIKO EPSON CORP.", "M1", "", &[], tiff_file(&[d], AT, px))
}
// where the pixels are: at split into the two parts the offset is the sum of; new = KdcWB, else KodakWB
pub fn kdc(big: bool, w: usize, h: usize, px: &[u8], wb: Result<[u32; 3], [u8; 4]>, hack: bool) -> Shot {
    let at = if hack { 0x15000 } else { 0xc00 };
    let mut d = id(big, "EASTMAN KODAK COMPANY", "M1"); let mut r = Ifd::new(big);
    let mut o = [7u32; 13]; o[4] = 0xb00; o[12] = 0x100;
    r.long(0xfd00, &[(w - 80) as u32]).long(0xfd01, &[(h - 70) as u32]).long(0xfd04, &o);
    match wb { Ok(v) => { r.long(0xfa2a, &v); } Err(v) => { let mut t = vec![0u8; 734]; t[148..152].copy_from_slice(&v); r.undef(0xf00, &t); } }
    d.sub(0xfe00, vec![r]);
    let kv = if hack { vec![hints(&["easyshare_offset_hack"])] } else { vec![] };
    shot("EASTMAN KODAK COMPANY", "M1", "", &kv, tiff_file(&[d], at, px))
}
pub fn dcs(big: bool, w: usize, h: usize, px: &[u8], table: &[u16]) -> Shot {
    let mut d = id(big, "KODAK", "M1");
    // a thumbnail first: it has strips, too, but is small
    img(&mut d, 100, 80, 8, 1, 8, 8);
    let mut r = Ifd::new(big);
    img(&mut r, w, h, 8, 1, AT, px.len()); r.short(0x123, table);
    shot("KODAK", "M1", "", &[], tiff_file(&[d, r], AT, px))
}
pub fn mrw(w: usize, h: usize, px: &[u8], packed: bool, wb: &[u16; 4], swapped: bool) -> Shot {
    let mut t = vec![]; put_tiff(&mut t, &[id(true, "MINOLTA", "M1")]);
    let mut f = b"\0MRM\0\0\0\0".to_vec();
    f.extend(b"\0PRD"); f.extend(24u32.to_be_bytes()); f.extend([9u8; 8]);
    f.extend((h as u16).to_be_bytes()); f.extend((w as u16).to_be_bytes()); f.extend([8u8; 4]); f.extend([if packed { 12 } else { 16 }, 12, 0x59, 0, 1, 0, 0, 1]);
    f.extend(b"\0WBG"); f.extend(12u32.to_be_bytes()); f.extend([4u8; 4]); for v in wb { f.extend(v.to_be_bytes()) }
    f.extend(b"\0TTW"); f.extend((t.len() as u32).to_be_bytes()); f.extend(t);
    f.extend(b"\0PAD"); f.extend(20u32.to_be_bytes()); f.extend([0u8; 20]);
    let n = f.len() as u32 - 8; f[4..8].copy_from_slice(&n.to_be_bytes());
    f.extend_from_slice(px);
    let kv = if swapped { vec![hints(&["swapped_wb"])] } else { vec![] };
    shot("MINOLTA", "M1", "", &kv, f)
}
pub fn ari(w: usize, h: usize, px: &[u8], wb: &[u8]) -> Shot {
    // the pixels lie before the model name, which the decoder reads as text up to the end of the file
    let mut f = vec![0u8; 0x400]; let at = 112 + 7;
    assert!(at + px.len() <= 668, "harness: too many pixels");
    f[0..4].copy_from_slice(b"ARRI"); f[8..12].copy_from_slice(&(at as u32).to_le_bytes()); f[20..24].copy_from_slice(&(w as u32).to_le_bytes()); f[24..28].copy_from_slice(&(h as u32).to_le_bytes());
    f[100..112].copy_from_slice(wb); f[668..670].copy_from_slice(b"M1");
    f[at..at + px.len()].copy_from_slice(px);
    shot("ARRI", "M1", "", &[], f)
}
pub fn orf(big: bool, w: usize, h: usize, px: &[u8], size: usize, wb: [u16; 2]) -> Shot {
    let mut d = id(big, "OLYMPUS IMAGING CORP.", "M1");
    img(&mut d, w, h, 16, 1, AT, 0);
    d.e.pop();
    d.long(STRIPBYTES, &[(size / 3) as u32, (size - size / 3) as u32]).short(0x1017, &[wb[0], 3]).short(0x1018, &[wb[1], 4]);
    shot("OLYMPUS IMAGING CORP.", "M1", "", &[], tiff_file(&[d], AT, px))
}
// the encryption of Sony's private directories
pub fn sony_crypt(data: &[u8], key: u32) -> Vec<u8> {
    let mut pad = [0u32; 128]; let mut k = key;
    for p in 0..4 { k = k.wrapping_mul(48828125).wrapping_add(1); pad[p] = k; }
    pad[3] = pad[3] << 1 | (pad[0] ^ pad[2]) >> 31;
    for p in 4..127 { pad[p] = (pad[p - 4] ^ pad[p - 2]) << 1 | (pad[p - 3] ^ pad[p - 1]) >> 31 }
    for p in 0..127 { pad[p] = pad[p].swap_bytes() }
    let mut o = vec![];
    for (i, c) in data.chunks(4).enumerate() {
        let p = i + 127;
        pad[p & 127] = pad[(p + 1) & 127] ^ pad[(p + 65) & 127];
        for (j, b) in c.iter().enumerate() { o.push(b ^ (pad[p & 127] >> (8 * j)) as u8) }
    }
    o
}
// what carries the white balance of an ARW file: a private directory at `at` that points to the encrypted one
pub fn sony_private(f: &mut Vec<u8>, tag: u16, wb: &[u16; 4], key: u32) {
    // positions are patched below: the order stays as it is
    let v = VARIANT.load(std::sync::atomic::Ordering::Relaxed); variant(0);
    let at = f.len();
    let mut inner = Ifd::new(false); inner.short(tag, wb);
    let mut plain = vec![]; inner.put(&mut plain, 0);
    // offsets in the encrypted directory count from the start of the file
    let n = plain.len(); let p = (n - 8 + at + 128) as u32;
    plain[2 + 8..2 + 12].copy_from_slice(&p.to_le_bytes());
    plain.resize(n + 4, 0);
    let mut outer = Ifd::new(false); outer.long(0x7200, &[(at + 128) as u32]).long(0x7201, &[plain.len() as u32]).long(0x7221, &[key]);
    outer.put(f, 0);
    f.resize(at + 128, 0);
    f.extend(sony_crypt(&plain, key));
    variant(v);
}
pub fn arw(w: usize, h: usize, bps: u16, comp: u16, px: &[u8], len: usize, model: &str, curve: &[u16; 4], wbtag: u16, wb: &[u16; 4]) -> Shot { arw_k(w, h, bps, comp, px, len, model, curve, wbtag, wb, 0x3a6d91c5) }
pub fn arw_k(w: usize, h: usize, bps: u16, comp: u16, px: &[u8], len: usize, model: &str, curve: &[u16; 4], wbtag: u16, wb: &[u16; 4], key: u32) -> Shot {
    let at = 0x400;
    let mut d = id(false, "SONY", model); let mut r = Ifd::new(false);
    img(&mut r, w, h, bps, comp, at, len); r.short(0x7010, curve);
    d.bytes(0xc634, &0x200u32.to_le_bytes()).sub(SUBIFDS, vec![r]);
    let mut f = vec![]; put_tiff(&mut f, &[d]); pad(&mut f, 0x200);
    sony_private(&mut f, wbtag, wb, key);
    pad(&mut f, at); f.extend_from_slice(px);
    shot("SONY", model, "", &[], f)
}
// areas: position of the row offsets
pub fn srw(big: bool, w: usize, h: usize, bps: u16, comp: u16, px: &[u8], areas: Option<usize>, hint: &[&str], levels: &[u32; 4], blacks: &[u32; 4]) -> Shot {
    let mut d = id(big, "SAMSUNG", "M1"); let mut r = Ifd::new(big);
    img(&mut r, w, h, bps, comp, AT, px.len());
    if let Some(a) = areas { r.long(0xa010, &[a as u32]); }
    // the levels live in a directory of their own whose offsets count from that directory
    let mut m = Ifd::new(big); m.long(0xa021, levels).long(0xa028, blacks);
    let mut f = vec![];
    let mut note = vec![]; m.put(&mut note, 0);
    // offsets in a maker note without a header count from the start of the file for the reader
    d.sub(SUBIFDS, vec![r]);
    d.undef(MAKERNOTE, &note);
    put_tiff(&mut f, &[d]);
    pad(&mut f, AT); f.extend_from_slice(px);
    let kv = if hint.is_empty() { vec![] } else { vec![hints(hint)] };
    shot("SAMSUNG", "M1", "", &kv, f)
}
pub struct Raf<'a> { pub big: bool, pub w: usize, pub h: usize, pub bps: Option<u16>, pub px: &'a [u8], pub kv: Vec<(&'a str, Value)>, pub old: bool, pub wb: [u16; 4] }
pub fn raf(o: &Raf) -> Shot {
    let (first, second, third, data) = (0x200usize, 0x600usize, 0x900usize, 0xa00usize);
    let mut f = b"FUJIFILMCCD-RAW ".to_vec(); f.resize(first, 0);
    let p = |f: &mut Vec<u8>, at: usize, v: usize| f[at..at + 4].copy_from_slice(&(v as u32).to_be_bytes());
    p(&mut f, 84, first - 12);
    p(&mut f, 92, third);
    put_tiff(&mut f, &[id(o.big, "FUJIFILM", "M1")]);
    if o.old {
        // no second TIFF structure: the offset itself points to the pixels
        p(&mut f, 100, data);
    } else {
        pad(&mut f, second);
        p(&mut f, 100, second);
        let mut r = Ifd::new(o.big);
        r.long(0xf001, &[o.w as u32]).long(0xf002, &[o.h as u32]).long(0xf007, &[(data - second) as u32]);
        if let Some(b) = o.bps { r.long(0xf003, &[b as u32]); }
        r.short(0xf00e, &o.wb[..3]);
        let mut d = Ifd::new(o.big); d.sub(0xf000, vec![r]);
        put_tiff(&mut f, &[d]);
    }
    pad(&mut f, third);
    f.extend(3u32.to_be_bytes());
    f.extend(0x130u16.to_be_bytes()); f.extend(6u16.to_be_bytes()); f.extend([1u8; 6]);
    f.extend(0x100u16.to_be_bytes()); f.extend(4u16.to_be_bytes()); f.extend((o.h as u16).to_be_bytes()); f.extend((o.w as u16).to_be_bytes());
    f.extend(0x2ff0u16.to_be_bytes()); f.extend(8u16.to_be_bytes()); for v in &o.wb { f.extend(v.to_be_bytes()) }
    pad(&mut f, data);
    f.extend_from_slice(o.px);
    shot("FUJIFILM", "M1", "", &o.kv, f)
}
pub fn rw2(w: usize, h: usize, px: &[u8], mode: &str, split: bool, wb2: bool, wb: &[u16; 3]) -> Shot {
    let mut d = Ifd::new(false);
    d.short(2, &[w as u16]).short(3, &[h as u16]);
    if wb2 { d.short(0x24, &wb[0..1]).short(0x25, &wb[1..2]).short(0x26, &wb[2..3]); } else { d.short(0x11, &wb[0..1]).short(0x12, &wb[2..3]); }
    d.ascii(MAKE, "Panasonic").ascii(MODEL, "M1");
    if split { d.long(0x118, &[AT as u32]); } else { d.long(STRIPS, &[AT as u32]); }
    shot("Panasonic", "M1", mode, &[], tiff_file(&[d], AT, px))
}
pub fn nef(big: bool, w: usize, h: usize, bps: u16, comp: u16, px: &[u8], len: usize, model: &str, more: &dyn Fn(&mut Ifd), at: usize) -> Shot {
    let mut d = id(big, "NIKON CORPORATION", model); let mut r = Ifd::new(big);
    img(&mut r, w, h, bps, comp, at, len); r.bytes(CFAPATTERN, &[0, 1, 1, 2]);
    d.sub(SUBIFDS, vec![r]);
    more(&mut d);
    let mode = if bps == 14 { "14bit" } else { "12bit" };
    shot("NIKON CORPORATION", model, mode, &[], tiff_file(&[d], at, px))
}
pub fn nefwb(d: &mut Ifd, wb: [(u32, u32); 2]) { d.rational(0xc, 5, &[wb[0], wb[1], (1, 1), (1, 1)]); }
pub fn nrw(big: bool, w: usize, h: usize, px: &[u8], hint: &[&str], more: &dyn Fn(&mut Ifd), at: usize) -> Shot {
    let mut d = id(big, "NIKON", "M1");
    // a small image with a mosaic first
    let mut s = Ifd::new(big); img(&mut s, 640, 480, 8, 1, 8, 8); s.bytes(CFAPATTERN, &[0, 1, 1, 2]);
    let mut r = Ifd::new(big); img(&mut r, w, h, 12, 1, at, px.len()); r.bytes(CFAPATTERN, &[0, 1, 1, 2]);
    d.sub(SUBIFDS, vec![s, r]);
    more(&mut d);
    let kv = if hint.is_empty() { vec![] } else { vec![hints(hint)] };
    shot("NIKON", "M1", "", &kv, tiff_file(&[d], at, px))
}
pub fn pef(big: bool, w: usize, h: usize, comp: u16, px: &[u8], more: &dyn Fn(&mut Ifd), wb: &[u16; 4]) -> Shot {
    let mut d = id(big, "PENTAX", "M1");
    img(&mut d, w, h, 16, comp, AT, px.len()); d.short(0x201, wb);
    more(&mut d);
    shot("PENTAX", "M1", "", &[], tiff_file(&[d], AT, px))
}
pub fn mos(big: bool, w: usize, h: usize, comp: u16, px: &[u8], hint: &[&str], neutrals: &str) -> Shot {
    let mut d = Ifd::new(big);
    d.ascii(0x131, "Camera Library");
    let x = "<x><tiff:Make>Leaf</tiff:Make><tiff:Model>M1(LF1234)/x</tiff:Model></x>";
    d.bytes(0x2bc, x.as_bytes());
    let mut m = b"PKTS....xxxNeutObj_neutrals".to_vec(); m.resize(11 + 44, b'.'); m.extend(neutrals.as_bytes()); m.extend([0u8; 5]);
    m.extend([1u8; 24]);
    d.undef(0x8606, &m);
    d.long(WIDTH, &[w as u32]).long(LENGTH, &[h as u32]).short(COMPRESSION, &[comp]).long(0x144, &[AT as u32]);
    let kv = if hint.is_empty() { vec![] } else { vec![hints(hint)] };
    shot("Leaf", "M1", "", &kv, tiff_file(&[d], AT, px))
}
pub struct Dng<'a> { pub big: bool, pub w: usize, pub h: usize, pub cpp: u16, pub bps: u16, pub comp: u16, pub px: &'a [u8], pub table: Option<Vec<u16>>, pub tiles: Option<(usize, usize, Vec<u32>)> }
pub const DNGAT: usize = 0x600;
pub fn dng_ifds(o: &Dng) -> (Ifd, Ifd) {
    let mut d = id(o.big, "Maker", "M1"); let mut r = Ifd::new(o.big);
    d.bytes(0xc612, &[1, 4, 0, 0]);
    // a preview
    img(&mut d, 16, 16, 8, 1, 8, 8); d.long(0xfe, &[1]);
    r.long(0xfe, &[0]);
    match &o.tiles {
        None => img(&mut r, o.w, o.h, o.bps, o.comp, DNGAT, o.px.len()),
        Some((tw, th, t)) => { r.long(WIDTH, &[o.w as u32]).long(LENGTH, &[o.h as u32]).short(BPS, &[o.bps]).short(COMPRESSION, &[o.comp]).long(0x142, &[*tw as u32]).long(0x143, &[*th as u32]).long(0x144, t); }
    }
    r.short(SPP, &[o.cpp]).short(PHOTOMETRIC, &[if o.cpp == 1 { 32803 } else { 34892 }]).long(0xc61d, &[4000]).bytes(CFAPATTERN, &[0, 1, 1, 2]);
    if let Some(t) = &o.table { r.short(0xc618, t); }
    (d, r)
}
pub fn dng(o: &Dng) -> Shot {
    let (mut d, r) = dng_ifds(o);
    d.sub(SUBIFDS, vec![r]);
    shot("Maker", "M1", "", &[], tiff_file(&[d], DNGAT, o.px))
}
// the image after Fuji's 45 degree rotation: where sample (row, col) of the cropped image goes
pub fn fuji_alt(h: usize, w: usize, row: usize, col: usize) -> (usize, usize) { let rw = h + w / 2; (rw - (h + 1 - row + (col >> 1)), ((col + 1) >> 1) + row) }
pub fn fuji(_h: usize, w: usize, row: usize, col: usize) -> (usize, usize) { (w - 1 - col + (row >> 1), ((row + 1) >> 1) + col) }
// find: how the raw data is announced (0 by an identifier, 1 by the mosaic, 2 by the old offset)
pub struct Cr2<'a> { pub big: bool, pub find: usize, pub stripes: Option<[u16; 3]>, pub size: Option<(usize, usize)>, pub px: &'a [u8], pub kv: Vec<(&'a str, Value)>, pub wb: Vec<u16>, pub curve: Option<Vec<u16>> }
pub const CR2AT: usize = 0x4000;
pub fn cr2(o: &Cr2) -> Shot {
    let mut d = id(o.big, "Canon", "M1"); let mut r = Ifd::new(o.big);
    d.long(STRIPS, &[0x100]);
    if !o.wb.is_empty() { d.short(0x4001, &o.wb); }
    if let Some(c) = &o.curve { d.short(0x123, c); }
    if let Some((w, h)) = o.size { r.long(WIDTH, &[w as u32]).long(LENGTH, &[h as u32]); }
    r.long(STRIPS, &[CR2AT as u32]);
    if let Some(s) = &o.stripes { r.short(0xc640, s); }
    let mut thumb = Ifd::new(o.big); thumb.long(WIDTH, &[160]).long(STRIPS, &[0x200]);
    let ifds = match o.find {
        0 => { r.short(0xc5d8, &[1]); vec![d, thumb, r] }
        1 => { r.bytes(CFAPATTERN, &[0, 1, 1, 2]); vec![d, thumb, r] }
        _ => { d.long(0x81, &[CR2AT as u32]); vec![d, thumb] }
    };
    shot("Canon", "M1", "", &o.kv, tiff_file(&ifds, CR2AT, o.px))
}
pub fn tfr(big: bool, w: usize, h: usize, px: &[u8], neutral: &[(u32, u32); 3]) -> Shot {
    let mut d = id(big, "Hasselblad", "M1"); let mut r = Ifd::new(big);
    img(&mut d, 160, 120, 8, 1, 0x100, 8);
    d.rational(0xc628, 5, neutral);
    img(&mut r, w, h, 16, 7, AT, px.len()); r.long(0xc61d, &[65000]);
    d.sub(SUBIFDS, vec![r]);
    shot("Hasselblad", "M1", "", &[], tiff_file(&[d], AT, px))
}
// rows: where each row starts, counted from the beginning of the data; the data lies at IIQAT
pub const IIQAT: usize = 0x300;
pub fn iiq(make: &str, w: usize, h: usize, rows: &[u32], px: &[u8], wb: &[u8], black: u32) -> Shot {
    let mut f = vec![]; f.extend(b"II"); f.extend(42u16.to_le_bytes()); f.extend(0x20u32.to_le_bytes()); f.extend(b"IIIITwaR"); f.extend((0x100u32 - 8).to_le_bytes()); pad(&mut f, 0x20);
    id(false, make, "M1").put(&mut f, 0);
    pad(&mut f, 0x100);
    let tags: [(u32, u32); 8] = [(0x100, 77), (0x107, 0x1c0 - 8), (0x108, w as u32), (0x109, h as u32), (0x10f, IIQAT as u32 - 8), (0x110, 99), (0x21c, 0x1d0 - 8), (0x21d, black)];
    f.extend((tags.len() as u32).to_le_bytes()); f.extend([3u8; 4]);
    for (t, v) in tags { f.extend(t.to_le_bytes()); f.extend([2u8; 8]); f.extend(v.to_le_bytes()) }
    pad(&mut f, 0x1c0); f.extend_from_slice(wb);
    pad(&mut f, 0x1d0); for r in rows { f.extend(r.to_le_bytes()) }
    pad(&mut f, IIQAT); f.extend_from_slice(px);
    shot(make, "M1", "", &[], f)
}
// value area and directory of a CIFF heap; (tag with type, data)
pub fn ciff(out: &mut Vec<u8>, start: usize, e: &[(u16, Vec<u8>)]) {
    let mut at = vec![];
    for (_, d) in e { at.push(out.len() - start); out.extend_from_slice(d) }
    let dir = out.len() - start;
    out.extend((e.len() as u16).to_le_bytes());
    for (k, (t, d)) in e.iter().enumerate() {
        if t & 0xc000 == 0x4000 { out.extend(t.to_le_bytes()); let mut v = d.clone(); v.resize(8, 0); out.extend(v) }
        else { out.extend(t.to_le_bytes()); out.extend((d.len() as u32).to_le_bytes()); out.extend((at[k] as u32).to_le_bytes()) }
    }
    out.extend((dir as u32).to_le_bytes());
}
pub fn shorts(v: &[u16]) -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes()).collect() }
// body: everything from byte 26 on (low bits, then the compressed data)
pub fn crw(w: usize, h: usize, body: &[u8], table: u32, more: &[(u16, Vec<u8>)], kv: &[(&str, Value)]) -> Shot {
    let mut f = b"II\x1a\0\0\0HEAPCCDR".to_vec(); f.resize(26, 0);
    f.extend_from_slice(body);
    // a nested heap
    let mut sub = vec![];
    let mut e = vec![(0x1031u16, shorts(&[34, w as u16, h as u16, 1, 1])), (0x5835, table.to_le_bytes().to_vec())];
    e.extend(more.iter().cloned());
    ciff(&mut sub, 0, &e);
    let mut name = b"Canon\0M1\0".to_vec(); name.resize(32, 0);
    ciff_tail(&mut f, &[(0x080a, name), (0x300a, sub)]);
    shot("Canon", "M1", "", kv, f)
}
fn ciff_tail(f: &mut Vec<u8>, e: &[(u16, Vec<u8>)]) { ciff(f, 26, e) }
pub fn dcr(big: bool, w: usize, h: usize, px: &[u8], table: &[u16], wb: &[u8]) -> Shot {
    let mut d = id(big, "Kodak", "M1"); let mut r = Ifd::new(big);
    img(&mut r, w, h, 12, 65000, DCRAT, px.len()); r.bytes(CFAPATTERN, &[0, 1, 1, 2]);
    let mut k = Ifd::new(big); k.short(0x90d, table).undef(0x3fd, wb);
    d.sub(SUBIFDS, vec![r]).sub(0x8290, vec![k]);
    shot("Kodak", "M1", "", &[], tiff_file(&[d], DCRAT, px))
}
pub const DCRAT: usize = 0x2400;
