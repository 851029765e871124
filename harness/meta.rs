// Metadata: white balance, levels, crops, pattern, orientation and names come out as the file states them.
use crate::api::*;
use crate::formats::*;
use crate::util::*;
use rawloader::decoders::*;

use crate::tables::*;
use std::f32::NAN;

const PX: [u8; 4096] = [0; 4096];
fn be(v: u16) -> [u8; 2] { v.to_be_bytes() }
fn wbs(i: &RawImage, want: [f32; 4], what: &str) { for k in 0..4 { feq(i.wb_coeffs[k], want[k], &(what.to_string() + ": white balance")) } }
// what comes from the description of the camera
fn base(i: &RawImage, make: &str, model: &str, what: &str) {
    check(i.make == make && i.model == model && i.clean_make == "CleanMake" && i.clean_model == "CleanModel", &(what.to_string() + ": names"));
    check(i.whitelevels == [4095; 4], &(what.to_string() + ": white levels"));
}
fn go(s: &Shot, make: &str, want: [f32; 4], what: &str) -> Option<RawImage> {
    let i = valid(&s.loader, &s.file, what)?;
    base(&i, make, "M1", what);
    wbs(&i, want, what);
    Some(i)
}
fn blacks(i: &RawImage, want: [u64; 4], what: &str) { for k in 0..4 { eq(i.blacklevels[k] as u64, want[k], &(what.to_string() + ": black levels")) } }
fn plain(s: &Shot, make: &str, want: [f32; 4], what: &str) {
    if let Some(i) = go(s, make, want, what) {
        blacks(&i, [17; 4], what);
        check(i.crops == [0; 4], &(what.to_string() + ": crops"));
        check(mosaic(&i, "RGGB"), &(what.to_string() + ": pattern"));
        check(i.orientation == Orientation::Unknown, &(what.to_string() + ": orientation"));
    }
}
fn u(v: u16) -> f32 { v as f32 }
fn four() -> [u16; 4] { [u16s(), u16s(), u16s(), u16s()] }

fn none() {
    let big = choice(2) == 1;
    plain(&mef(big, 2, 2, &PX[..6]), "Mamiya-OP Co.,Ltd.", [NAN; 4], "MEF");
    let t: Vec<u16> = (0..256).collect();
    plain(&dcs(big, 1002, 1, &PX[..1002], &t), "KODAK", [NAN; 4], "DCS");
    let mut px = vec![9u8; 20]; px[0] = 200;
    let ld = loader(vec![cam("Naked", "M1", "", &[("filesize", int(20)), ("raw_width", int(8)), ("raw_height", int(2))])]);
    plain(&Shot { loader: ld, file: px }, "Naked", [NAN; 4], "naked");
}
fn epson() {
    let big = choice(2) == 1; let (r, b) = (u16s(), u16s());
    let (x, y) = (be(r), be(b));
    plain(&erf(big, 10, 2, &PX[..64], &[x[0], x[1], y[0], y[1]]), "SEIKO EPSON CORP.", [u(r) * 508.0 * 1.078 / 65536.0, 1.0, u(b) * 382.0 * 1.173 / 65536.0, NAN], "ERF");
}
fn kodak() {
    let big = choice(2) == 1;
    let px = vec![0u8; 82 * 72 * 3 / 2];
    match choice(4) {
        0 => { let v = [u32s(), u32s(), u32s()]; plain(&kdc(big, 82, 72, &px, Ok(v), false), "EASTMAN KODAK COMPANY", [v[0] as f32, v[1] as f32, v[2] as f32, NAN], "KDC"); }
        1 => { let (r, b) = (u16s(), u16s()); let (x, y) = (be(r), be(b)); plain(&kdc(big, 82, 72, &px, Err([x[0], x[1], y[0], y[1]]), false), "EASTMAN KODAK COMPANY", [u(r) / 256.0, 1.0, u(b) / 256.0, NAN], "KDC, old"); }
        2 => {
            let v = [u16s(), u16s(), u16s()];
            let mut t = vec![7u8; 46]; for k in 0..3 { t[40 + 2 * k..42 + 2 * k].copy_from_slice(&be(v[k])) }
            for k in 0..3 { assume(v[k] != 0) }
            plain(&dcr(big, 2, 1, &PX[..16], &[0, 1, 2, 3], &t), "Kodak", [2048.0 / u(v[0]), 2048.0 / u(v[1]), 2048.0 / u(v[2]), NAN], "DCR");
        }
        _ => plain(&dcr(big, 2, 1, &PX[..16], &[0, 1, 2, 3], &[5u8; 45]), "Kodak", [NAN; 4], "DCR without white balance"),
    }
}
fn minolta() {
    let v = four();
    if choice(2) == 0 { plain(&mrw(4, 2, &PX[..12], true, &v, false), "MINOLTA", [u(v[0]), u(v[1]), u(v[3]), NAN], "MRW") }
    else { plain(&mrw(4, 2, &PX[..16], false, &v, true), "MINOLTA", [u(v[2]), u(v[0]), u(v[1]), NAN], "MRW, other order") }
}
fn floats(b: &[u8], k: usize) -> f32 { f32::from_bits(u32::from_le_bytes([b[4 * k], b[4 * k + 1], b[4 * k + 2], b[4 * k + 3]])) }
fn arri() {
    let b = bytes(12);
    plain(&ari(8, 1, &PX[..12], &b), "ARRI", [floats(&b, 0), floats(&b, 1), floats(&b, 2), NAN], "ARI");
}
fn phase() {
    let b = bytes(12); let black = u32s();
    let make = ["Leaf", "Phase One A/S"][choice(2)];
    let s = iiq(make, 8, 2, &[0, 16], &PX[..64], &b, black);
    if let Some(i) = go(&s, make, [floats(&b, 0), floats(&b, 1), floats(&b, 2), NAN], "IIQ") { blacks(&i, [(black >> 2) as u16 as u64; 4], "IIQ") }
}
fn olympus() {
    let big = choice(2) == 1; let wb = [u16s(), u16s()];
    let make = "OLYMPUS IMAGING CORP.";
    let want = [u(wb[0]), 256.0, u(wb[1]), NAN];
    match choice(3) {
        0 => plain(&orf(big, 4, 2, &PX[..16], 16, wb), make, want, "ORF"),
        k => {
            // in the maker note: a directory of its own; offsets count from the start of the note
            let mut d = id(big, make, "M1");
            img(&mut d, 4, 2, 16, 1, AT, 16);
            let mut note = if big { b"OLYMPUS\0MM\0\x03".to_vec() } else { b"OLYMPUS\0II\x03\0".to_vec() };
            let mut m = Ifd::new(big); m.long(0x2040, &[60]);
            m.put(&mut note, 0); note.resize(60, 0);
            let mut p = Ifd::new(big);
            if k == 1 { p.short(0x100, &wb); } else { p.short(0x100, &[wb[0], wb[1], 5, 6]); }
            p.put(&mut note, 0);
            d.undef(MAKERNOTE, &note);
            plain(&shot(make, "M1", "", &[], tiff_file(&[d], AT, &PX[..16])), make, want, if k == 1 { "ORF, settings" } else { "ORF, settings of four" });
        }
    }
}
fn sony() {
    let wb = four(); let key = [0x3a6d91c5, 0, 0xffffffff][choice(3)];
    if choice(2) == 0 { plain(&arw_k(4, 2, 14, 1, &PX[..16], 16, "M1", &[0; 4], 0x7303, &wb, key), "SONY", [u(wb[1]), u(wb[0]), u(wb[2]), NAN], "ARW GRBG") }
    else { plain(&arw_k(4, 2, 14, 1, &PX[..16], 16, "M1", &[0; 4], 0x7313, &wb, key), "SONY", [u(wb[0]), u(wb[1]), u(wb[3]), NAN], "ARW RGGB") }
}
fn samsung() {
    let big = choice(2) == 1;
    let (l, b) = ([u16s() as u32, u16s() as u32, 7, u16s() as u32], [u16s() as u32, u16s() as u32, 7, u16s() as u32]);
    let d = |k: usize| l[k] as f32 - b[k] as f32;
    plain(&srw(big, 4, 2, 12, 32769, &PX[..16], None, &[], &l, &b), "SAMSUNG", [d(0), d(1), d(3), NAN], "SRW");
}
fn fujifilm() {
    let big = choice(2) == 1; let wb = four(); let old = choice(2) == 1;
    let s = raf(&Raf { big, w: 4, h: 2, bps: if old { None } else { Some(16) }, px: &PX[..16], kv: vec![], old, wb });
    plain(&s, "FUJIFILM", [u(wb[1]), u(wb[0]), if old { u(wb[3]) } else { u(wb[2]) }, NAN], if old { "RAF, old" } else { "RAF" });
    // turned by 45 degrees: crops are applied while turning
    let s = raf(&Raf { big, w: 8, h: 6, bps: Some(16), px: &PX[..96], kv: vec![hints(&[if old { "fuji_rotation" } else { "fuji_rotation_alt" }]), ("crops", ints(&[1, 1, 1, 1]))], old: false, wb });
    if let Some(i) = go(&s, "FUJIFILM", [u(wb[1]), u(wb[0]), u(wb[2]), NAN], "RAF, turned") { check(i.crops == [0; 4], "RAF, turned: crops are applied twice"); }
}
fn panasonic() {
    let wb = [u16s(), u16s(), u16s()]; let two = choice(2) == 1;
    let make = "Panasonic";
    for (w, h, m) in [(10, 10, "1:1"), (24, 20, "1:1"), (50, 40, "4:3"), (4, 3, "4:3"), (144, 100, "4:3"), (145, 100, "3:2"), (3, 2, "3:2"), (164, 100, "3:2"), (165, 100, "16:9"), (16, 9, "16:9")] {
        let px = vec![0u8; w * h * 2];
        plain(&rw2(w, h, &px, m, false, two, &wb), make, [u(wb[0]), if two { u(wb[1]) } else { 256.0 }, u(wb[2]), NAN], "RW2");
    }
}
fn pentax() {
    let big = choice(2) == 1; let (wb, b) = (four(), four());
    let want = [u(wb[0]), u(wb[1]), u(wb[3]), NAN];
    plain(&pef(big, 4, 2, 1, &PX[..16], &|_| {}, &wb), "PENTAX", want, "PEF");
    if let Some(i) = go(&pef(big, 4, 2, 1, &PX[..16], &|d| { d.short(0x200, &b); }, &wb), "PENTAX", want, "PEF with black levels") { blacks(&i, [b[0] as u64, b[1] as u64, b[2] as u64, b[3] as u64], "PEF with black levels") }
    // white balance in the maker note of either kind
    let k = choice(3);
    let mut d = id(big, "PENTAX", "M1"); img(&mut d, 4, 2, 16, 1, AT, 16);
    let mut m = Ifd::new(big); m.short(0x201, &wb).short(0x200, &b);
    let at = note_at(&d);
    let note = match k {
        0 => { let mut n = vec![0u8; at]; n.extend(b"AOC\0"); n.extend(if big { *b"MM" } else { *b"II" }); m.put(&mut n, 0); n[at..].to_vec() }
        1 => { let mut n = b"PENTAX \0".to_vec(); n.extend(if big { *b"MM" } else { *b"II" }); m.put(&mut n, 0); n }
        _ => { let mut m = Ifd::new(!big); m.short(0x201, &wb).short(0x200, &b); let mut n = vec![0u8; at]; n.extend(b"AOC\0"); n.extend(if big { *b"II" } else { *b"MM" }); m.put(&mut n, 0); n[at..].to_vec() }
    };
    d.undef(MAKERNOTE, &note);
    if let Some(i) = go(&shot("PENTAX", "M1", "", &[], tiff_file(&[d], AT, &PX[..16])), "PENTAX", want, "PEF, maker note") { blacks(&i, [b[0] as u64, b[1] as u64, b[2] as u64, b[3] as u64], "PEF, maker note") }
}
// where the data of an entry added last to a single directory will lie
fn note_at(d: &Ifd) -> usize { let mut f = vec![]; let mut x = d.clone(); x.undef(MAKERNOTE, &[0; 5]); put_tiff(&mut f, &[x]); f.len() - 5 }
fn leaf() {
    let big = choice(2) == 1;
    for (t, want) in [("1\n2\n4\n8", [0.5, 0.25, 0.125, NAN]), ("100\n80\n100\n64", [1.25, 1.0, 1.5625, NAN]), ("1\n2\n4", [NAN; 4]), ("1\nx\n2\n4", [NAN, 0.5, 0.25, NAN])] {
        plain(&mos(big, 4, 2, 1, &PX[..16], &[], t), "Leaf", want, "MOS");
    }
}
// 280 bytes hidden by Nikon, the tables as published
fn nikon_hide(v: &[u8], ci: u8, cj: u8) -> Vec<u8> { let mut c = cj; let mut k = 0x60u8; v.iter().map(|b| { c = c.wrapping_add(ci.wrapping_mul(k)); k = k.wrapping_add(1); b ^ c }).collect() }
fn nikon(k: usize) {
    let big = choice(2) == 1; let k = if k < 5 { k } else { [0, 1, 2, 5, 6, 7][choice(6)] };
    let make = "NIKON CORPORATION";
    let v = [u16s(), u16s(), u16s(), u16s()];
    let at = 0x900;
    let put = |t: &mut Vec<u8>, k: usize, x: u16| { let b = p16(big, x); t[2 * k] = b[0]; t[2 * k + 1] = b[1] };
    let go = |more: &dyn Fn(&mut Ifd), want: [f32; 4], what: &str| plain(&nef(big, 4, 2, 12, 1, &PX[..12], 12, "M1", more, at), make, want, what);
    let want = [u(v[0]), u(v[1]), u(v[2]), NAN];
    match k {
        0 => { for x in v { assume(x != 0) } go(&|d| nefwb(d, [(v[0] as u32, v[1] as u32), (v[2] as u32, v[3] as u32)]), [u(v[0]) / u(v[1]), 1.0, u(v[2]) / u(v[3]), NAN], "NEF"); }
        1 => { let mut t = vec![0u8; 100]; t[..4].copy_from_slice(b"0100"); put(&mut t, 36, v[0]); put(&mut t, 38, v[1]); put(&mut t, 37, v[2]); go(&|d| { d.undef(0x97, &t); }, want, "NEF 0100"); }
        2 => { let mut t = vec![0u8; 100]; t[..4].copy_from_slice(b"0103"); put(&mut t, 10, v[0]); put(&mut t, 11, v[1]); put(&mut t, 12, v[2]); go(&|d| { d.undef(0x97, &t); }, want, "NEF 0103"); }
        3 | 4 => {
            // serial numbers and keys with the table entries that belong to them
            let (ver, off, src) = if k == 3 { (b"0204", 6, 284) } else { (b"0205", 14, 4) };
            let serial: &[u8] = [&b"0000001"[..], b"255", b"0", b"511\0999", b"2572"][choice(5)];
            let mut key = [3, 0xf0, 0x0f, 0]; key[choice(4)] = u8s();
            let (ci, cj) = nikon_tables(serial, &key);
            let mut plain = vec![0u8; 280];
            for (p, x) in [(0, v[0]), (2, v[1]), (6, v[2])] { plain[off + p..off + p + 2].copy_from_slice(&be(x)) }
            let mut t = vec![0u8; src]; t[..4].copy_from_slice(ver); t.extend(nikon_hide(&plain, ci, cj));
            go(&|d| { d.undef(0x97, &t).raw(0x1d, 2, serial.len() as u32 + 1, [serial, &[0]].concat()).bytes(0xa7, &key); }, want, "NEF, hidden");
        }
        _ => {
            let make = "NIKON";
            let w = 1008; let px = &PX[..w * 3 / 2];
            let go = |more: &dyn Fn(&mut Ifd), hint: &[&str], want: [f32; 4], what: &str| plain(&nrw(big, w, 1, px, hint, more, at), make, want, what);
            match k {
                5 => { let mut t = vec![0u8; 1600]; t[..8].copy_from_slice(b"NRW 0100");
                    let x = [u16s() as u32, u16s() as u32, u16s() as u32, u16s() as u32];
                    for i in 0..4 { t[1556 + 4 * i..1560 + 4 * i].copy_from_slice(&x[i].to_le_bytes()) }
                    go(&|d| { d.undef(0x14, &t); }, &[], [(x[0] << 2) as f32, (x[1] + x[2]) as f32, (x[3] << 2) as f32, NAN], "NRW 0100"); }
                6 => { let mut t = vec![0u8; 1600]; t[..8].copy_from_slice(b"NRW 0102");
                    let x = [u16s() as u32, u16s() as u32, u16s() as u32, u16s() as u32];
                    for i in 0..4 { t[56 + 4 * i..60 + 4 * i].copy_from_slice(&x[i].to_le_bytes()) }
                    go(&|d| { d.undef(0x14, &t); }, &[], [(x[0] << 2) as f32, (x[1] + x[2]) as f32, (x[3] << 2) as f32, NAN], "NRW"); }
                _ => {
                    let mut t = vec![1u8; 1600]; t[1248..1250].copy_from_slice(&be(v[0])); t[1250..1252].copy_from_slice(&be(v[1]));
                    go(&|d| { d.undef(0x14, &t); }, &[], [u(v[0]), 256.0, u(v[1]), NAN], "NRW, old");
                    go(&|d| { d.undef(0x14, &t); }, &["nowb"], [NAN; 4], "NRW without white balance");
                    for x in v { assume(x != 0) }
                    go(&|d| nefwb(d, [(v[0] as u32, v[1] as u32), (v[2] as u32, v[3] as u32)]), &[], [u(v[0]) / u(v[1]), 1.0, u(v[2]) / u(v[3]), NAN], "NRW, rational");
                }
            }
        }
    }
}
// in the maker note of a Nikon file offsets count from its own header
fn nikon_note() {
    let big = choice(2) == 1; let other = choice(2) == 1;
    let v = four(); for x in v { assume(x != 0) }
    let mut d = id(big, "NIKON CORPORATION", "M1"); let mut r = Ifd::new(big);
    img(&mut r, 4, 2, 12, 1, AT, 12); r.bytes(CFAPATTERN, &[0, 1, 1, 2]);
    let nb = big != other;
    let mut n = b"Nikon\0\x02\x10\0\0".to_vec(); let mut t = vec![];
    let mut m = Ifd::new(nb); m.rational(0xc, 5, &[(v[0] as u32, v[1] as u32), (v[2] as u32, v[3] as u32), (1, 1), (1, 1)]);
    put_tiff(&mut t, &[m]); n.extend(t);
    let mut e = Ifd::new(big); e.undef(MAKERNOTE, &n);
    d.sub(SUBIFDS, vec![r]).sub(EXIF, vec![e]);
    plain(&shot("NIKON CORPORATION", "M1", "12bit", &[], tiff_file(&[d], AT, &PX[..12])), "NIKON CORPORATION", [u(v[0]) / u(v[1]), 1.0, u(v[2]) / u(v[3]), NAN], "NEF, maker note");
}
fn nikon_tables(serial: &[u8], key: &[u8; 4]) -> (u8, u8) {
    let mut n = 0u32; for b in serial { if *b == 0 { break } n = n.wrapping_mul(10).wrapping_add((*b - b'0') as u32) }
    (NSERIAL[(n & 255) as usize], NKEY[(key[0] ^ key[1] ^ key[2] ^ key[3]) as usize])
}
fn canon() {
    let big = choice(2) == 1;
    let j = crate::jpeg::tiny();
    let v = [u16s(), u16s(), u16s(), u16s()];
    let w32 = [u32s(), u32s(), u32s()];
    let k = choice(5);
    let mut d = id(big, "Canon", "M1"); let mut r = Ifd::new(big);
    d.long(STRIPS, &[0x100]); r.long(WIDTH, &[2]).long(LENGTH, &[2]).long(STRIPS, &[AT as u32]).bytes(CFAPATTERN, &[0, 1, 1, 2]);
    let mut kv = vec![];
    let want = match k {
        0 | 1 => {
            let o = if k == 0 { 63 } else { 25 }; if k == 1 { kv.push(("wb_offset", int(25))) }
            let mut t = vec![9u16; 80]; for i in 0..4 { t[o + i] = v[i] }
            d.short(0x4001, &t);
            [u(v[0]), u(v[1]), u(v[3]), NAN]
        }
        2 => { d.long(0x29, &[1, 2, w32[1], w32[0], w32[2]]); [w32[0] as f32, w32[1] as f32, w32[2] as f32, NAN] }
        3 => { d.short(0xa4, &v); [u(v[0]), u(v[1]), u(v[2]), NAN] }
        _ => [NAN; 4],
    };
    let s = shot("Canon", "M1", "", &kv, tiff_file(&[d, r], AT, &j));
    plain(&s, "Canon", want, "CR2");
}
fn canon_old() {
    let k = choice(7);
    let v = four();
    let mut body = vec![0u8; 514 + 64]; for b in body.iter_mut().skip(514) { *b = 0xff }
    let mut kv = vec![hints(&["nolowbits"])];
    let (more, want): (Vec<(u16, Vec<u8>)>, [f32; 4]) = match k {
        0 => { let mut t = vec![7u16; 12]; t[3] = v[0]; t[4] = v[1]; t[6] = v[2]; kv.push(("wb_offset", int(3))); (vec![(0x10a9, shorts(&t))], [u(v[0]), u(v[1]), u(v[2]), NAN]) }
        1 => { let mut t = vec![513u16; 70]; t[62] = v[0]; t[63] = v[1]; t[60] = v[2]; t[61] = v[3]; (vec![(0x102c, shorts(&t))], [u(v[0]), u(v[1]), u(v[2]), u(v[3])]) }
        2 => { let mut t = vec![512u16; 70]; t[51] = v[0]; t[50] = v[1]; t[53] = v[2]; t[52] = v[3]; (vec![(0x102c, shorts(&t))], [u(v[0]), (u(v[1]) + u(v[2])) / 2.0, u(v[3]), NAN]) }
        3 => { let mut t = vec![512u16; 384]; t[36] = v[0]; t[37] = v[1]; t[39] = v[2]; for k in 0..3 { assume(v[k] != 0) } (vec![(0x0032, shorts(&t))], [1024.0 / u(v[0]), 1024.0 / u(v[1]), 1024.0 / u(v[2]), NAN]) }
        4 => { let mut t = vec![512u16; 20]; t[6] = v[0]; t[5] = v[1]; t[7] = v[2]; kv.push(("wb_offset", int(5))); (vec![(0x0032, shorts(&t))], [u(v[0]), u(v[1]), u(v[2]), NAN]) }
        5 => { let mut t = vec![512u16; 20]; t[6] = v[0]; t[5] = v[1]; t[7] = v[2]; let c = vec![513u16; 70]; kv = vec![hints(&["nolowbits", "wb_mangle", "nocinfo2"]), ("wb_offset", int(5))]; (vec![(0x102c, shorts(&c)), (0x0032, shorts(&t))], [u(v[0] ^ 0x45f3), u(v[1] ^ 0x410), u(v[2] ^ 0x410), NAN]) }
        _ => (vec![], [NAN; 4]),
    };
    plain(&crw(8, 8, &body, 0, &more, &kv), "Canon", want, "CRW");
}
fn hasselblad() {
    let big = choice(2) == 1;
    let n = [u16s(), u16s(), u16s(), u16s(), u16s(), u16s()]; for x in n { assume(x != 0) }
    let s = tfr(big, 2, 1, &crate::jpeg::tiny_pairs(), &[(n[0] as u32, n[1] as u32), (n[2] as u32, n[3] as u32), (n[4] as u32, n[5] as u32)]);
    let f = |k: usize| 1.0 / (u(n[2 * k]) / u(n[2 * k + 1]));
    if let Some(i) = go_levels(&s, "3FR", [f(0), f(1), f(2), NAN]) { let _ = i; }
}
fn go_levels(s: &Shot, what: &str, want: [f32; 4]) -> Option<RawImage> { let i = valid(&s.loader, &s.file, what)?; wbs(&i, want, what); Some(i) }
fn adobe() {
    let big = choice(2) == 1; let known = choice(2) == 1;
    let n = [u16s(), u16s(), u16s(), u16s(), u16s(), u16s()]; for x in n { assume(x != 0) }
    let white = u16s(); let b = four();
    let (w, h) = (10, 9);
    let px = &PX[..w * h * 2];
    let o = Dng { big, w, h, cpp: 1, bps: 16, comp: 1, px, table: None, tiles: None };
    let k = choice(6);
    let (mut d, mut r) = dng_ifds(&o);
    d.short(ORIENTATION, &[6]);
    d.rational(0xc628, 5, &[(n[0] as u32, n[1] as u32), (n[2] as u32, n[3] as u32), (n[4] as u32, n[5] as u32)]);
    for e in r.e.iter_mut() { if e.tag == 0xc61d { e.data = p32(big, white as u32).to_vec() } }
    let (mut want_b, mut crops, mut pattern) = ([0u64; 4], [0usize; 4], "RGGB");
    let mut m = [[0.412453, 0.357580, 0.180423], [0.212671, 0.715160, 0.072169], [0.019334, 0.119193, 0.950227], [0.0, 0.0, 0.0]];
    let q = [u32s() as i32, u32s() as i32, u32s() as i32, u32s() as i32];
    let sq = |v: i32| (v as u32, 10000u32);
    let f = |v: i32| v as f32 / 10000.0;
    match k {
        0 => { r.short(0xc61a, &b); want_b = [b[0] as u64, b[1] as u64, b[2] as u64, b[3] as u64]; pattern = "GBRG"; for e in r.e.iter_mut() { if e.tag == CFAPATTERN { e.data = vec![1, 2, 0, 1] } } }
        1 => { r.short(0xc61a, &b[..2]); want_b = [b[0] as u64; 4]; pattern = "BGGR"; for e in r.e.iter_mut() { if e.tag == CFAPATTERN { e.data = vec![2, 1, 1, 0] } } }
        2 => { r.rational(0xc61a, 5, &[(b[0] as u32, 1), (b[1] as u32, 2), (b[2] as u32, 4), (b[3] as u32, 1)]); want_b = [b[0] as u64, (b[1] / 2) as u64, (b[2] / 4) as u64, b[3] as u64]; }
        3 => { r.long(0xc68d, &[2, 3, 8, 5]); crops = [2, 5, 1, 3]; }
        4 => {
            d.rational(0xc621, 10, &[sq(1), sq(2), sq(3), sq(4), sq(5), sq(6), sq(7), sq(8), sq(9)]);
            d.rational(0xc622, 10, &[sq(q[0]), sq(q[1]), sq(q[2]), sq(q[3]), sq(50), sq(60), sq(70), sq(80), sq(90)]);
            m = [[f(q[0]), f(q[1]), f(q[2])], [f(q[3]), f(50), f(60)], [f(70), f(80), f(90)], [0.0; 3]];
        }
        _ => {
            let mut t: Vec<(u32, u32)> = (0..12).map(|k| sq(100 * k as i32)).collect(); t[11] = sq(q[0]); t[0] = sq(q[1]);
            d.rational(0xc621, 10, &t);
            for k in 0..12 { m[k / 3][k % 3] = f(100 * k as i32) } m[3][2] = f(q[0]); m[0][0] = f(q[1]);
        }
    }
    d.sub(SUBIFDS, vec![r]);
    let s = if known { shot("Maker", "M1", "", &[], tiff_file(&[d], DNGAT, px)) } else { shot("Other", "M1", "", &[], tiff_file(&[d], DNGAT, px)) };
    if let Some(i) = valid(&s.loader, &s.file, "DNG") {
        let fr = |k: usize| 1.0 / (u(n[2 * k]) / u(n[2 * k + 1]));
        wbs(&i, [fr(0), fr(1), fr(2), NAN], "DNG");
        blacks(&i, want_b, "DNG");
        for k in 0..4 { eq(i.whitelevels[k] as u64, white as u64, "DNG: white levels") }
        check(i.crops == crops, "DNG: crops");
        check(mosaic(&i, pattern), "DNG: pattern");
        check(i.orientation == Orientation::Rotate90, "DNG: orientation");
        for a in 0..4 { for b in 0..3 { feq(i.xyz_to_cam[a][b], m[a][b], "DNG: colour matrix") } }
        check(i.make == "Maker" && i.model == "M1" && i.clean_make == if known { "CleanMake" } else { "Maker" } && i.clean_model == if known { "CleanModel" } else { "M1" }, "DNG: names");
    }
}
fn orientation() {
    let big = choice(2) == 1; let v = u16s();
    let want = [Orientation::Normal, Orientation::HorizontalFlip, Orientation::Rotate180, Orientation::VerticalFlip, Orientation::Transpose, Orientation::Rotate90, Orientation::Transverse, Orientation::Rotate270];
    let s = match choice(4) {
        0 => pef(big, 4, 2, 1, &PX[..16], &|d| { d.short(ORIENTATION, &[v]); }, &[1; 4]),
        1 => nef(big, 4, 2, 12, 1, &PX[..12], 12, "M1", &|d| { nefwb(d, [(1, 1), (1, 1)]); d.short(ORIENTATION, &[v]); }, AT),
        2 => { let mut d = id(big, "Mamiya-OP Co.,Ltd.", "M1"); d.short(ORIENTATION, &[v]); let mut r = Ifd::new(big); img(&mut r, 2, 2, 12, 1, AT, 6); r.bytes(CFAPATTERN, &[0, 1, 1, 2]); d.sub(SUBIFDS, vec![r]); shot("Mamiya-OP Co.,Ltd.", "M1", "", &[], tiff_file(&[d], AT, &PX[..6])) }
        _ => { let o = Dng { big, w: 4, h: 2, cpp: 1, bps: 16, comp: 1, px: &PX[..16], table: None, tiles: None }; let (mut d, r) = dng_ifds(&o); d.short(ORIENTATION, &[v]).sub(SUBIFDS, vec![r]); shot("Maker", "Mx", "", &[], tiff_file(&[d], DNGAT, &PX[..16])) }
    };
    if let Some(i) = valid(&s.loader, &s.file, "orientation") {
        for k in 0..8 { check((i.orientation == want[k]) == (v as usize == k + 1), "orientation") }
        check((i.orientation == Orientation::Unknown) == (v == 0 || v > 8), "orientation: unknown");
    }
}
pub fn run() {
    match case(20) { 0 => none(), 1 => epson(), 2 => kodak(), 3 => minolta(), 4 => arri(), 5 => phase(), 6 => olympus(), 7 => sony(), 8 => samsung(), 9 => fujifilm(), 10 => panasonic(), 11 => pentax(), 12 => leaf(), 13 => nikon(9), 18 => nikon(3), 19 => nikon(4), 14 => { nikon_note(); hasselblad() } 15 => canon(), 16 => canon_old(), _ => if choice(2) == 0 { adobe() } else { orientation() } }
}
fn mosaic(i: &RawImage, p: &str) -> bool { i.cfa.is_valid() && (0..16).all(|k| i.cfa.color_at(k / 4, k % 4) == match p.as_bytes()[k / 4 % 2 * 2 + k % 2] { b'R' => 0, b'G' => 1, _ => 2 }) }
