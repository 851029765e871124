// Containers: where and how a file stores something makes no difference, and each file gets its decoder.
use crate::api::*;
use crate::formats::*;
use crate::util::*;
use rawloader::decoders::*;
use std::f32::NAN;

// ------------------------------------------------------------------ a small DNG with symbolic contents
struct Want { px: Vec<u8>, n: [u16; 3], d: [u16; 3], blacks: [u16; 4], white: u16 }
fn want() -> Want {
    let w = Want { px: bytes(12), n: [u16s(), u16s(), u16s()], d: [u16s(), u16s(), u16s()], blacks: [u16s(), u16s(), u16s(), u16s()], white: u16s() };
    for k in 0..3 { assume((w.n[k] != 0) & (w.d[k] != 0)) }
    w
}
fn neutral(w: &Want) -> Vec<(u32, u32)> { (0..3).map(|k| (w.n[k] as u32, w.d[k] as u32)).collect() }
fn names(d: &mut Ifd) { d.ascii(MAKE, "Maker").ascii(MODEL, "M1").bytes(0xc612, &[1, 4, 0, 0]); }
fn head(big: bool, w: &Want) -> Ifd { let mut d = Ifd::new(big); names(&mut d); d.rational(0xc628, 5, &neutral(w)); d }
fn raw(big: bool, w: &Want) -> Ifd {
    let mut r = Ifd::new(big);
    r.long(0xfe, &[0]); img(&mut r, 4, 2, 12, 1, DNGAT, 12);
    r.short(SPP, &[1]).short(PHOTOMETRIC, &[32803]).long(0xc61d, &[w.white as u32]).bytes(CFAPATTERN, &[0, 1, 1, 2]).short(0xc61a, &w.blacks);
    r
}
// a reduced image with a description of its own
fn preview(big: bool) -> Ifd {
    let mut r = Ifd::new(big);
    r.long(0xfe, &[1]); img(&mut r, 16, 16, 8, 1, 8, 8);
    r.short(SPP, &[3]).short(PHOTOMETRIC, &[2]).long(0xc61d, &[255]).bytes(CFAPATTERN, &[2, 1, 1, 0]).short(0xc61a, &[1, 2, 3, 4]);
    r
}
fn ld() -> RawLoader { loader(vec![cam("Maker", "M1", "", &[])]) }
fn pixels(i: &RawImage, px: &[u8], what: &str) { for k in 0..8 { eq(i.data[k] as u64, bits_msb(px, 12 * k, 12) as u64, &(what.to_string() + ": samples")) } }
fn confirm(l: &RawLoader, f: &[u8], w: &Want, what: &str) {
    let i = match valid(l, f, what) { Some(i) => i, None => return };
    if !dims(&i, 4, 2, 1, what) { return }
    pixels(&i, &w.px, what);
    for k in 0..4 { eq(i.whitelevels[k] as u64, w.white as u64, &(what.to_string() + ": white levels")); eq(i.blacklevels[k] as u64, w.blacks[k] as u64, &(what.to_string() + ": black levels")) }
    for k in 0..3 { feq(i.wb_coeffs[k], 1.0 / (w.n[k] as f32 / w.d[k] as f32), &(what.to_string() + ": white balance")) }
    check((0..4).all(|k| i.cfa.color_at(k / 2, k % 2) == [0, 1, 1, 2][k]), &(what.to_string() + ": pattern"));
    check(i.make == "Maker" && i.model == "M1" && i.clean_make == "CleanMake" && i.clean_model == "CleanModel", &(what.to_string() + ": names"));
}
fn go(ifds: &[Ifd], w: &Want, what: &str) { confirm(&ld(), &tiff_file(ifds, DNGAT, &w.px), w, what) }
// directories one in the other; every level also has something of no interest
fn nest(r: Ifd, levels: usize, tag: u16) -> Ifd { let mut x = r; for k in 1..levels { let mut o = Ifd::new(x.big); o.short(0x9000 + k as u16, &[1, 2, 3]).sub(tag, vec![x]); x = o } x }

fn places(k: usize) {
    let big = choice(2) == 1;
    let w = want();
    let mut d = head(big, &w); let r = raw(big, &w);
    match k {
        0 => match choice(4) {
            0 => go(&[d, r], &w, "image in the second directory"),
            1 => { d.e.extend(r.e); go(&[d], &w, "one directory") }
            2 => { d.sub(EXIF, vec![Ifd::new(big)]); go(&[preview(big), d, preview(big), r], &w, "image in the fourth directory") }
            _ => { let mut n = Ifd::new(big); names(&mut n); let mut e = Ifd::new(big); e.rational(0xc628, 5, &neutral(&w)); let mut p = preview(big); p.sub(EXIF, vec![e]); go(&[r, n, p], &w, "image first, white balance in the subdirectory of the last") }
        },
        1 => {
            let levels = [1, 2, 3, 9, 10][choice(5)];
            let tag = if levels == 2 { [EXIF, 0x8290, 0xfe00, 0xf000][choice(4)] } else { SUBIFDS };
            if levels == 1 { d.e.insert(1, Ent { tag, typ: 4, count: 1, data: vec![], sub: vec![r] }); } else { let x = nest(r, levels, tag); d.sub(tag, vec![x]); }
            go(&[d], &w, "image in nested subdirectories")
        }
        2 => { // several subdirectories, one of them broken
            let mut bad = Ifd::new(big); bad.short(0x9000, &[1]);
            d.sub(SUBIFDS, vec![preview(big), bad, r, preview(big)]);
            let mut f = tiff_file(&[d.clone()], DNGAT, &w.px);
            if choice(2) == 1 {
                let n = u16s(); assume(n > 4000);
                // the second subdirectory starts where the list of their positions says
                let at = d.e.len() - 1; let v = 10 + at * 12 + 8;
                let g = |f: &[u8], p: usize| { let b = [f[p], f[p + 1], f[p + 2], f[p + 3]]; (if big { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) }) as usize };
                let list = g(&f, v); let bad = g(&f, list + 4);
                f[bad..bad + 2].copy_from_slice(&p16(big, n));
            }
            confirm(&ld(), &f, &w, "several subdirectories");
        }
        3 => { // a chain of directories, closed to a ring or not
            let ring = choice(2) == 1; let n = if ring { 6 } else { 40 };
            let mut v = vec![d]; for k in 0..n { let mut e = Ifd::new(big); e.short(0x9001 + k as u16, &[7]); v.push(e) } v.push(r);
            let mut f = vec![]; put_tiff(&mut f, &v);
            if ring { // the last directory is followed by the second
                let mut one = vec![]; put_tiff(&mut one, &v[..1]); let second = one.len() as u32;
                let mut cut = vec![]; put_tiff(&mut cut, &v[..v.len() - 1]);
                let next = cut.len() + 2 + 12 * v[v.len() - 1].e.len(); f[next..next + 4].copy_from_slice(&p32(big, second));
            }
            pad(&mut f, DNGAT); f.extend_from_slice(&w.px);
            confirm(&ld(), &f, &w, "chain of directories");
        }
        4 => { // a directory that names itself as one of its subdirectories
            d.sub(SUBIFDS, vec![Ifd::new(big), r]);
            let mut f = tiff_file(&[d.clone()], DNGAT, &w.px);
            let v = 10 + (d.e.len() - 1) * 12 + 8; let b = [f[v], f[v + 1], f[v + 2], f[v + 3]];
            let list = (if big { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) }) as usize;
            f[list..list + 4].copy_from_slice(&p32(big, 8));
            confirm(&ld(), &f, &w, "directory within itself");
        }
        5 => { // data before the directories that describe them; the order of the file reversed
            let mut f = vec![]; put_tiff(&mut f, &[Ifd::new(big)]); pad(&mut f, 32); f.extend_from_slice(&w.px); f.resize(0x80, 0);
            let mut r = r; for e in r.e.iter_mut() { if e.tag == STRIPS { e.data = p32(big, 32).to_vec() } }
            let rat = f.len(); r.put(&mut f, 0);
            let mark = 0x01020304u32; let mut sub = Ifd::new(big); sub.e = vec![]; d.long(SUBIFDS, &[mark]);
            let dat = f.len(); d.put(&mut f, 0);
            let p = (dat..f.len() - 3).find(|p| f[*p..*p + 2] == p16(big, SUBIFDS)[..] && f[*p + 8..*p + 12] == p32(big, mark)[..]).unwrap();
            f[p + 8..p + 12].copy_from_slice(&p32(big, rat as u32));
            f[4..8].copy_from_slice(&p32(big, dat as u32));
            confirm(&ld(), &f, &w, "directories behind the data");
        }
        6 => { // entries in another order
            let n = choice(4);
            d.sub(SUBIFDS, vec![r]);
            let turn = |v: &mut Vec<Ent>| { if n & 1 == 1 { v.reverse() } let m = v.len(); v.rotate_left(if n & 2 == 2 { m / 2 } else { 0 }) };
            for e in d.e.iter_mut() { for s in e.sub.iter_mut() { turn(&mut s.e) } }
            turn(&mut d.e);
            go(&[d], &w, "order of the entries");
        }
        _ => { // unknown entries with any contents
            let mut r = r;
            let mut any = |d: &mut Ifd, at: usize, hi: u8| {
                let b = bytes(11);
                d.e.insert(at, Ent { tag: 0, typ: 3, count: 1, data: vec![], sub: vec![] });
                (at, hi, b)
            };
            let a = any(&mut d, 0, 0x31); let c = any(&mut d, 3, 0xe1); let n = d.e.len(); let e = any(&mut d, n, 0x90);
            let x = any(&mut r, 0, 0x02); let y = any(&mut r, 5, 0xc0); let n = r.e.len(); let z = any(&mut r, n, 0x55);
            let mut f = vec![]; put_tiff(&mut f, &[d, r]);
            let g = |f: &[u8], p: usize| { let b = [f[p], f[p + 1], f[p + 2], f[p + 3]]; (if big { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) }) as usize };
            let nd = if big { f[8] as usize * 256 + f[9] as usize } else { f[8] as usize + 256 * f[9] as usize };
            let second = g(&f, 10 + 12 * nd);
            for (dir, list) in [(8, [a, c, e]), (second, [x, y, z])] {
                for (at, hi, b) in list.iter() {
                    let p = dir + 2 + 12 * at;
                    // the low byte of the tag is free as well, but for 0x02xx (0x0200.. and 0x02bc are known) and 0xc0xx
                    let lo = if *hi == 0x02 { b[0] & 0x1f | 0x40 } else { b[0] };
                    f[p..p + 2].copy_from_slice(&p16(big, (*hi as u16) << 8 | lo as u16));
                    f[p + 2..p + 12].copy_from_slice(&b[1..]);
                }
            }
            pad(&mut f, DNGAT); f.extend_from_slice(&w.px);
            confirm(&ld(), &f, &w, "unknown entries");
        }
    }
}
fn set(d: &mut Ifd, tag: u16, typ: u16, count: u32, data: Vec<u8>) { for e in d.e.iter_mut() { if e.tag == tag { e.typ = typ; e.count = count; e.data = data.clone() } } }
fn types(k: usize) {
    let big = choice(2) == 1;
    let mut w = want();
    let (mut d, mut r) = (head(big, &w), raw(big, &w));
    let p = |v: u16| p16(big, v).to_vec(); let q = |v: u32| p32(big, v).to_vec();
    match k {
        0 => match choice(7) { // the white level in every type
            0 => { let v = u8s(); w.white = v as u16; set(&mut r, 0xc61d, 1, 1, vec![v]) }
            1 => set(&mut r, 0xc61d, 3, 1, p(w.white)),
            2 => set(&mut r, 0xc61d, 8, 1, p(w.white)),
            3 => set(&mut r, 0xc61d, 9, 1, q(w.white as u32)),
            4 => set(&mut r, 0xc61d, 13, 1, q(w.white as u32)),
            5 => set(&mut r, 0xc61d, 7, 4, q(w.white as u32)),
            // one that is out of line, of which the first counts
            _ => { let o = u16s(); let mut v = p(w.white); v.extend(p(o)); v.extend(p(o)); set(&mut r, 0xc61d, 3, 3, v) }
        },
        1 => { // a type that does not exist stands for bytes
            let t = u16s(); assume((t == 0) | (t > 13));
            let v = [u8s(), u8s(), u8s(), u8s()];
            for k in 0..4 { w.blacks[k] = v[k] as u16 }
            set(&mut r, 0xc61a, t, 4, v.to_vec());
        }
        2 => match choice(6) { // black levels, in and out of line
            0 => { let v = [u8s(), u8s(), u8s(), u8s()]; for k in 0..4 { w.blacks[k] = v[k] as u16 } set(&mut r, 0xc61a, 1, 4, v.to_vec()) }
            1 => { let v = bytes(9); for k in 0..4 { w.blacks[k] = v[k] as u16 } set(&mut r, 0xc61a, 1, 9, v) }
            2 => set(&mut r, 0xc61a, 4, 4, (0..4).flat_map(|k| p32(big, w.blacks[k] as u32)).collect()),
            3 => { w.blacks = [w.blacks[1]; 4]; set(&mut r, 0xc61a, 4, 1, q(w.blacks[1] as u32)) }
            4 => { let b = w.blacks; w.blacks = [b[2]; 4]; set(&mut r, 0xc61a, 3, 2, [p(b[2]), p(b[0])].concat()) }
            _ => set(&mut r, 0xc61a, 5, 4, (0..4).flat_map(|k| [p32(big, w.blacks[k] as u32), p32(big, 1)].concat()).collect()),
        },
        3 => match choice(5) { // the neutral in every type a number can have
            0 => { let v = bytes(3); for k in 0..3 { w.n[k] = v[k] as u16; w.d[k] = 1 } set(&mut d, 0xc628, 1, 3, v) }
            1 => { w.d = [1; 3]; set(&mut d, 0xc628, 3, 3, (0..3).flat_map(|k| p(w.n[k])).collect()) }
            2 => { w.d = [1; 3]; set(&mut d, 0xc628, 4, 3, (0..3).flat_map(|k| q(w.n[k] as u32)).collect()) }
            3 => set(&mut d, 0xc628, 10, 3, (0..3).flat_map(|k| [q(w.n[k] as u32), q(w.d[k] as u32)].concat()).collect()),
            _ => { // both negative: the quotient is the same
                w.n = [3, 65535, 1]; w.d = [7, 2, 4096];
                set(&mut d, 0xc628, 10, 3, (0..3).flat_map(|k| [q((w.n[k] as u32).wrapping_neg()), q((w.d[k] as u32).wrapping_neg())].concat()).collect())
            }
        },
        4 => { // sizes and positions
            match choice(4) {
                0 => { for t in [WIDTH, LENGTH, BPS] { let v = match t { WIDTH => 4, LENGTH => 2, _ => 12 }; set(&mut r, t, 3, 1, p(v)) } set(&mut r, STRIPS, 3, 1, p(DNGAT as u16)) }
                1 => { set(&mut r, WIDTH, 1, 1, vec![4]); set(&mut r, LENGTH, 1, 1, vec![2]); set(&mut r, COMPRESSION, 1, 1, vec![1]); set(&mut r, SPP, 1, 1, vec![1]) }
                2 => { set(&mut r, BPS, 4, 1, q(12)); set(&mut r, COMPRESSION, 4, 1, q(1)); set(&mut r, 0xfe, 3, 1, p(0)); set(&mut r, PHOTOMETRIC, 4, 1, q(32803)) }
                _ => { set(&mut r, WIDTH, 9, 1, q(4)); set(&mut r, LENGTH, 8, 1, p(2)); set(&mut r, STRIPS, 13, 1, q(DNGAT as u32)) }
            }
        }
        _ => { // text: what follows its end, and spaces around it, do not count
            let n = choice(4);
            let t = bytes(5);
            match n {
                0 => { let mut v = b"Maker\0".to_vec(); v.extend(&t); set(&mut d, MAKE, 2, 11, v); set(&mut d, MODEL, 2, 2, b"M1".to_vec()) }
                1 => { set(&mut d, MAKE, 2, 5, b"Maker".to_vec()); let mut v = b"M1\0".to_vec(); v.push(t[0]); set(&mut d, MODEL, 2, 4, v) }
                2 => { set(&mut d, MAKE, 2, 12, b"  Maker    \0".to_vec()); set(&mut d, MODEL, 2, 8, b"M1     \0".to_vec()) }
                _ => { let mut v = b"Maker \0".to_vec(); v.extend(&t); set(&mut d, MAKE, 7, 12, v); let mut v = b" M1 ".to_vec(); v.extend([0, 0]); v.extend(&t); set(&mut d, MODEL, 1, 11, v) }
            }
        }
    }
    if choice(2) == 0 { d.sub(SUBIFDS, vec![r]); go(&[d], &w, "types of entries") } else { go(&[d, r], &w, "types of entries, second directory") }
}
// the white balance in the note of a maker, in each of the forms of notes
fn notes() {
    let big = choice(2) == 1;
    let mut w = want();
    let form = choice(10);
    let own = if form >= 4 { choice(2) == 1 } else { big }; // without an order of its own a note follows the file
    let x = bytes(3);
    let order: &[u8] = if own { b"MM" } else { b"II" };
    let at: usize = 0x300;
    // what precedes the directory, and from where its positions count
    let (pre, base): (Vec<u8>, usize) = match form {
        0 => (vec![], 0),
        1 => ([b"OLYMP\0", &x[..2]].concat(), 0),
        2 => ([b"OLYMPUS\0", order, &x[..2]].concat(), 0),
        3 => ([b"EPSON\0", &x[..2]].concat(), 0),
        4 => ([b"AOC\0", order].concat(), 0),
        5 => (order.to_vec(), 0),
        6 => ([b"PENTAX \0", order].concat(), at),
        7 => ([b"Nikon\0\x02", &x[..3], order, &p16(own, 42), &p32(own, 8)].concat(), at + 10),
        8 => ([b"PENTAX", &x[..2], order].concat(), at),
        _ => ([b"OLYMP\0", &x[..2], order].concat(), 0),
    };
    let mut n = Ifd::new(own);
    n.short(0x9003, &[5, 6, 7]);
    if choice(2) == 0 { // in line, or not
        let b = bytes(3); for k in 0..3 { assume(b[k] != 0); w.n[k] = b[k] as u16; w.d[k] = 1 }
        n.bytes(0xc628, &b);
    } else { n.rational(0xc628, 5, &neutral(&w)); }
    let mut note = vec![0u8; at]; note.extend(&pre);
    n.put(&mut note, base);
    let note = &note[at..];
    let (mut d, r) = (head(big, &w), raw(big, &w));
    d.e.retain(|e| e.tag != 0xc628);
    let mut e = Ifd::new(big);
    e.raw(MAKERNOTE, 7, note.len() as u32, p32(big, at as u32).to_vec());
    d.sub(EXIF, vec![e]).sub(SUBIFDS, vec![r]);
    let mut f = vec![]; put_tiff(&mut f, &[d]);
    pad(&mut f, at); f.extend_from_slice(note); pad(&mut f, DNGAT); f.extend_from_slice(&w.px);
    confirm(&ld(), &f, &w, "note of the maker");
}
// ------------------------------------------------------------------ which decoder
const MAKES: [&str; 22] = ["SONY", "Mamiya-OP Co.,Ltd.", "OLYMPUS IMAGING CORP.", "OLYMPUS CORPORATION", "OLYMPUS OPTICAL CO.,LTD", "SAMSUNG", "SEIKO EPSON CORP.", "EASTMAN KODAK COMPANY", "KODAK", "Kodak", "Panasonic", "LEICA", "FUJIFILM", "PENTAX Corporation", "RICOH IMAGING COMPANY, LTD.", "PENTAX", "Leaf", "Hasselblad", "NIKON CORPORATION", "NIKON", "Canon", "Phase One A/S"];
fn rename(s: Shot, from: &str, to: &str) -> Shot {
    let p = (0..s.file.len() - from.len()).find(|p| s.file[*p..*p + from.len() + 1] == *[from.as_bytes(), b"\0"].concat()).unwrap();
    let mut file = s.file; let n = file.len();
    // the new name lies behind everything else
    let _ = n;
    for (k, b) in to.bytes().chain(std::iter::repeat(0)).take(from.len()).enumerate() { file[p + k] = b }
    let mut c: Vec<Camera> = s.loader.cameras.values().cloned().collect();
    for c in c.iter_mut() { c.make = to.to_string() }
    Shot { loader: loader(c), file }
}
fn image(s: &Shot, w: usize, h: usize, make: &str, want: &dyn Fn(usize) -> u64, what: &str) {
    if let Some(i) = valid(&s.loader, &s.file, what) {
        if !dims(&i, w, h, 1, what) { return }
        check(i.make == make && i.model == "M1" && i.clean_make == "CleanMake" && i.clean_model == "CleanModel", &(what.to_string() + ": names"));
        for k in 0..w * h { eq(i.data[k] as u64, want(k), &(what.to_string() + ": samples")) }
    }
}
fn le(px: &[u8], k: usize) -> u64 { px[2 * k] as u64 | (px[2 * k + 1] as u64) << 8 }
fn makes() {
    let big = choice(2) == 1;
    match choice(6) {
        0 => { // other names of one maker
            let px = bytes(4 * 2 * 2);
            let m = ["OLYMPUS IMAGING CORP.", "OLYMPUS CORPORATION"][choice(2)];
            image(&rename(orf(big, 4, 2, &px, 16, [256, 256]), "OLYMPUS IMAGING CORP.", m), 4, 2, m, &|k| (if big { (px[2 * k] as u64) << 8 | px[2 * k + 1] as u64 } else { le(&px, k) }) >> 4, "ORF");
        }
        1 => {
            let px = bytes(12); let m = ["PENTAX", "RICOH IMAGING COMPANY, LTD.", "PENTAX Corporation"][choice(3)];
            let mut d = id(big, m, "M1"); img(&mut d, 4, 2, 12, 32773, AT, 12); d.short(0x201, &[1; 4]);
            image(&shot(m, "M1", "", &[], tiff_file(&[d], AT, &px)), 4, 2, m, &|k| bits_msb(&px, 12 * k, 12) as u64, "PEF");
        }
        2 => {
            let px = bytes(16); let m = ["Panasonic", "LEICA"][choice(2)];
            let s = rw2(4, 2, &px, "16:9", false, false, &[1, 2, 3]);
            image(&rename(s, "Panasonic", m), 4, 2, m, &|k| le(&px, k) >> 4, "RW2");
        }
        3 => { // a DNG is one under every name
            let mut w = want(); w.white = 4000;
            let m = MAKES[choice(22)];
            let mut d = head(big, &w); let v = m.as_bytes().to_vec(); let n = v.len() as u32; set(&mut d, MAKE, 2, n, v);
            d.sub(SUBIFDS, vec![raw(big, &w)]);
            let s = Shot { loader: loader(vec![cam(m, "M1", "", &[])]), file: tiff_file(&[d], DNGAT, &w.px) };
            image(&s, 4, 2, m, &|k| bits_msb(&w.px, 12 * k, 12) as u64, "DNG of another maker");
        }
        4 => { // unknown makers and cameras
            let w = want();
            let m = ["Somebody", "SONY2", "sony", "NIKON CORP", "Canon Inc.", "", "PENTAX CORPORATION", "leica"][choice(8)];
            let mut d = Ifd::new(big); d.ascii(MAKE, m).ascii(MODEL, "M1"); img(&mut d, 4, 2, 12, 1, DNGAT, 12);
            let f = tiff_file(&[d], DNGAT, &w.px);
            check(matches!(caught(|| decode(&loader(vec![cam(m, "M1", "", &[]), cam("SONY", "M1", "", &[])]), &f)), Some(Err(_))), "a file of an unknown maker is rejected with an error");
        }
        _ => { // what is known of other cameras is not used
            let px = bytes(12);
            let s = mef(big, 4, 2, &px);
            let l = match choice(4) { 0 => loader(vec![]), 1 => loader(vec![cam("Mamiya-OP Co.,Ltd.", "M2", "", &[]), cam("Mamiya", "M1", "", &[])]), 2 => loader(vec![cam("Mamiya-OP Co.,Ltd.", "M1", "other", &[])]), _ => loader(vec![cam("Mamiya-OP Co.,Ltd.", "M", "", &[]), cam("Mamiya-OP Co.,Ltd.", "M11", "", &[])]) };
            check(matches!(caught(|| decode(&l, &s.file)), Some(Err(_))), "a file of an unknown camera is rejected with an error");
        }
    }
}
fn special() {
    let big = choice(2) == 1;
    match choice(6) {
        0 => { // files known by their size alone, whatever they begin with
            let n = choice(4);
            let mut px = bytes(20); let head: &[u8] = [&[200u8, 1, 2, 3][..], b"II*\0", b"MM\0*", b"IIU\0"][n];
            px[..4].copy_from_slice(head); for k in 4..16 { px[k] = if n > 0 { 0 } else { (37 * k) as u8 } }
            let l = loader(vec![cam("Naked", "M1", "", &[("filesize", int(20)), ("raw_width", int(8)), ("raw_height", int(2))]), cam("Naked", "M2", "", &[("filesize", int(21)), ("raw_width", int(8)), ("raw_height", int(2))])]);
            let _ = big;
            image(&Shot { loader: l.clone(), file: px.clone() }, 8, 2, "Naked", &|k| bits_msb(&swap_words(&px, 2), 10 * k, 10) as u64, "file known by its size");
        }
        1 => { // unknown size
            let px = bytes(19);
            let mut px = px; for k in 0..16 { px[k] = 78 }
            let l = loader(vec![cam("Naked", "M1", "", &[("filesize", int(20)), ("raw_width", int(8)), ("raw_height", int(2))])]);
            check(matches!(caught(|| decode(&l, &px)), Some(Err(_))), "a file that is nothing known is rejected with an error");
        }
        2 => { // a file with a structure is not taken by its size
            let px = bytes(12);
            let s = mef(big, 4, 2, &px);
            let l = loader(vec![cam("Mamiya-OP Co.,Ltd.", "M1", "", &[]), cam("Naked", "M1", "", &[("filesize", int(s.file.len() as i64)), ("raw_width", int(8)), ("raw_height", int(2))])]);
            image(&Shot { loader: l, file: s.file }, 4, 2, "Mamiya-OP Co.,Ltd.", &|k| bits_msb(&px, 12 * k, 12) as u64, "file with a structure and a known size");
        }
        3 => { // several cameras: the one with this name
            let px = bytes(12);
            let s = mef(big, 4, 2, &px);
            let other = |mk: &str, m: &str, mode: &str| cam(mk, m, mode, &[("whitepoint", int(99)), ("blackpoint", int(98)), ("clean_model", text("Wrong")), ("crops", ints(&[1, 1, 1, 1]))]);
            let l = loader(vec![other("Mamiya-OP Co.,Ltd.", "M", ""), other("Mamiya-OP Co.,Ltd.", "M1", "12"), other("Mamiya", "M1", ""), cam("Mamiya-OP Co.,Ltd.", "M1", "", &[]), other("Mamiya-OP Co.,Ltd.", "M11", ""), other("", "M1", "")]);
            if let Some(i) = valid(&l, &s.file, "several cameras") {
                check(i.clean_model == "CleanModel" && i.whitelevels == [4095; 4] && i.blacklevels == [17; 4] && i.crops == [0; 4], "several cameras: the description of another one is used");
            }
        }
        4 => { // the mode selects the description
            let px = bytes(16);
            let bits = choice(2);
            let mk = |mode: &str, w: i64| cam("NIKON CORPORATION", "M1", mode, &[("whitepoint", int(w))]);
            let s = nef(big, 4, 2, if bits == 0 { 12 } else { 14 }, 1, &px, 16, "M1", &|d| nefwb(d, [(1, 1), (1, 1)]), AT);
            let l = loader(vec![mk("12bit", 120), mk("14bit", 140), mk("", 1)]);
            if let Some(i) = valid(&l, &s.file, "mode") { check(i.whitelevels == [if bits == 0 { 120 } else { 140 }; 4], "mode: the description of another mode is used") }
        }
        _ => { // Leaf files without the name of a maker are known by their software
            let px = bytes(16);
            image(&mos(big, 4, 2, 1, &px, &[], "1\n2\n4\n8"), 4, 2, "Leaf", &|k| if big { (px[2 * k] as u64) << 8 | px[2 * k + 1] as u64 } else { le(&px, k) }, "MOS");
        }
    }
}
// ------------------------------------------------------------------ other containers
fn heaps() {
    let k = choice(4);
    let v = [u16s(), u16s(), u16s()];
    let x = bytes(24);
    let mut body = vec![0u8; 514 + 64]; for b in body.iter_mut().skip(514) { *b = 0xff }
    let mut t = vec![7u16; 12]; t[3] = v[0]; t[4] = v[1]; t[6] = v[2];
    let mut name = b"Canon\0M1\0".to_vec(); name.extend(b"\0xyz\xff\0 ");
    let sensor = (0x1031u16, shorts(&[34, 8, 8, 1, 1]));
    let table = (0x5835u16, vec![0u8; 8]);
    let white = (0x10a9u16, shorts(&t));
    let junk = [(0x0005u16, x[..5].to_vec()), (0x5029, x[5..13].to_vec()), (0x1033, x[13..17].to_vec()), (0x1834, x[16..24].to_vec()), (0x4ff0, x[3..11].to_vec())];
    let heap = |e: &[(u16, Vec<u8>)]| { let mut o = vec![]; ciff(&mut o, 0, e); o };
    let dirs = [0x300au16, 0x2807, 0x300b, 0x2fff, 0x3004];
    let top: Vec<(u16, Vec<u8>)> = match k {
        0 => vec![(0x080a, name), sensor, table, white], // all in one heap
        1 => { // nested
            let n = [1, 2, 5, 9][choice(4)];
            let mut e = vec![white, sensor, table];
            for k in 1..n { e = vec![junk[k % 5].clone(), (dirs[k % 5], heap(&e))] }
            vec![(0x300a, heap(&e)), (0x080a, name)]
        }
        2 => { // in several heaps, between entries of no interest
            let a = heap(&[junk[0].clone(), table, junk[1].clone()]);
            let b = heap(&[junk[2].clone(), junk[3].clone(), sensor]);
            let c = heap(&[(0x080a, name), junk[4].clone(), (0x2807, heap(&[junk[1].clone(), white]))]);
            vec![junk[1].clone(), (0x2807, a), junk[0].clone(), (0x300a, b), junk[3].clone(), (0x300b, c), junk[2].clone()]
        }
        _ => { // a heap that cannot be read; values out of line that could be in line
            let bad = heap(&[(0x8005, vec![1, 2, 3, 4])]);
            vec![(0x300b, bad), (0x1835, vec![0, 0, 0, 0]), sensor, (0x080a, name), (0x300a, heap(&[white]))]
        }
    };
    let mut f = b"II\x1a\0\0\0HEAPCCDR".to_vec(); f.resize(26, 0);
    f.extend(&body);
    ciff(&mut f, 26, &top);
    let s = shot("Canon", "M1", "", &[hints(&["nolowbits"]), ("wb_offset", int(3))], f);
    if let Some(i) = valid(&s.loader, &s.file, "CRW") {
        if dims(&i, 8, 8, 1, "CRW") { for k in 0..3 { feq(i.wb_coeffs[k], v[k] as f32, "CRW: white balance") } check(i.wb_coeffs[3].is_nan(), "CRW: fourth multiplier") }
    }
}
fn blocks() {
    let packed = choice(2) == 1;
    let px = bytes(if packed { 12 } else { 16 });
    let v = [u16s(), u16s(), u16s(), u16s()];
    let x = bytes(30);
    let mut t = vec![]; put_tiff(&mut t, &[id(true, "MINOLTA", "M1")]);
    let block = |n: &[u8; 4], d: &[u8]| [&n[..], &(d.len() as u32).to_be_bytes(), d].concat();
    let mut prd = x[..8].to_vec(); prd.extend([0, 2, 0, 4]); prd.extend(&x[8..12]); prd.extend([if packed { 12 } else { 16 }]); prd.extend(&x[12..19]);
    let mut wbg = x[19..23].to_vec(); for k in v { wbg.extend(k.to_be_bytes()) }
    let (p, w, t) = (block(b"\0PRD", &prd), block(b"\0WBG", &wbg), block(b"\0TTW", &t));
    let (a, b) = (block(b"\0RIF", &x[..17]), block(b"\0PAD", &x[10..30]));
    let order: Vec<&Vec<u8>> = match choice(6) { 0 => vec![&p, &t, &w, &a, &b], 1 => vec![&a, &t, &b, &p, &w, &b], 2 => vec![&w, &a, &p, &t], 3 => vec![&t, &w, &p], 4 => vec![&p, &t, &w], _ => vec![&b, &w, &b, &t, &a, &p] };
    let mut f = b"\0MRM\0\0\0\0".to_vec();
    for o in order { f.extend(o) }
    let n = f.len() as u32 - 8; f[4..8].copy_from_slice(&n.to_be_bytes());
    f.extend(&px);
    let s = shot("MINOLTA", "M1", "", &[], f);
    if let Some(i) = valid(&s.loader, &s.file, "MRW") {
        if !dims(&i, 4, 2, 1, "MRW") { return }
        for k in 0..8 { eq(i.data[k] as u64, if packed { bits_msb(&px, 12 * k, 12) as u64 } else { (px[2 * k] as u64 & 15) << 8 | px[2 * k + 1] as u64 }, "MRW: samples") }
        for (k, n) in [0, 1, 3].iter().enumerate() { feq(i.wb_coeffs[k], v[*n] as f32, "MRW: white balance") }
    }
}
fn fujis() {
    let big = choice(2) == 1; let old = choice(2) == 1;
    let mut px = bytes(16); px[0] = 0x77; let wb = [u16s(), u16s(), u16s(), u16s()];
    let x = bytes(12);
    let s = raf(&Raf { big, w: 4, h: 2, bps: if old { None } else { Some(16) }, px: &px, kv: vec![], old, wb });
    let mut f = s.file;
    // the third directory again, with more entries in another order
    let third = f[92..96].iter().fold(0usize, |a, b| a << 8 | *b as usize);
    let ent = |t: u16, d: &[u8]| [&t.to_be_bytes()[..], &(d.len() as u16).to_be_bytes(), d].concat();
    let size = ent(0x100, &[0, 2, 0, 4]); let white = ent(0x2ff0, &wb.iter().flat_map(|v| v.to_be_bytes()).collect::<Vec<u8>>());
    let (a, b, c) = (ent(0x131, &x[..5]), ent(0x9200, &x[5..12]), ent(0xc000, &[0u8; 60]));
    let e = match choice(5) { 0 => vec![size, white], 1 => vec![white, size, a, b], 2 => vec![a, size, b, white, c], 3 => vec![c, b, white, a, size], _ => { let long = ent(0xc000, &vec![0u8; 65534]); vec![long, white, size] } };
    let mut t = (e.len() as u32).to_be_bytes().to_vec(); for v in e { t.extend(v) }
    let at = if t.len() > 0x100 { let n = f.len(); f[92..96].copy_from_slice(&(n as u32).to_be_bytes()); n } else { third };
    if at == f.len() { f.extend(&t) } else { f[at..at + t.len()].copy_from_slice(&t) }
    let s = Shot { loader: s.loader, file: f };
    if let Some(i) = valid(&s.loader, &s.file, "RAF") {
        if !dims(&i, 4, 2, 1, "RAF") { return }
        for k in 0..8 { eq(i.data[k] as u64, if big { (px[2 * k] as u64) << 8 | px[2 * k + 1] as u64 } else { le(&px, k) }, "RAF: samples") }
        let want = if old { [wb[1], wb[0], wb[3]] } else { [wb[1], wb[0], wb[2]] };
        for k in 0..3 { feq(i.wb_coeffs[k], want[k] as f32, "RAF: white balance") }
    }
}
pub fn run() {
    match case(20) { k @ 0..=7 => places(k), k @ 8..=13 => types(k - 8), 14 => notes(), 15 => makes(), 16 => special(), 17 => heaps(), 18 => blocks(), _ => fujis() }
}

// every format: the same contents in directories with another order and with unknown entries
pub fn variants() {
    use crate::samples::*;
    let k = case(KINDS);
    if !tiff_kind(k) { return }
    let big = choice(2) == 1; let v = 1 + choice(3);
    let p = pool(k);
    let a = sample(k, big, &p);
    variant(v);
    let b = sample(k, big, &p);
    variant(0);
    check(a.file.len() == b.file.len() || matches!(k, 3 | 7 | 27 | 10 | 2 | 6), "harness: builder");
    if let (Some(x), Some(y)) = (valid(&a.loader, &a.file, name(k)), valid(&b.loader, &b.file, name(k))) { alike(&x, &y, name(k)) }
}
