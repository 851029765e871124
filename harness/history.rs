// Schedules of the parallel work, histories of calls, and ways to read a file make no difference.
use crate::api::*;
use crate::formats::*;
use crate::samples::*;
use crate::util::*;
use crate::imgs::*;
use rawloader::decoders::*;
use rawloader::imageops::*;
use std::io::Read;

// the order in which rows and tiles are decoded
pub fn schedules() {
    let k = case(KINDS); let big = choice(2) == 1;
    let p = pool(k);
    let s = sample(k, big, &p);
    let first = match valid(&s.loader, &s.file, name(k)) { Some(i) => i, None => return };
    // all orders of three or four pieces, and the reverse and some others of more
    for o in [1, 2, 3, 4, 5, 7, 10, 14, 17, 23, 119, 719, 5039] {
        schedule(o);
        let again = valid(&s.loader, &s.file, name(k));
        schedule(0);
        match again { Some(i) => alike(&first, &i, name(k)), None => return }
    }
}
pub fn rendering() {
    let k = case(12);
    let kinds = [(5, 4, 1, "RGGB"), (7, 5, 1, crate::cfa::XTRANS), (4, 4, 1, "RGEB"), (4, 3, 3, ""), (4, 3, 1, ""), (8, 6, 1, "GBRG")];
    let make = |k: usize, wb: [f32; 4], o: Orientation, data: Option<Vec<u16>>| {
        let (w, h, cpp, pat) = kinds[k];
        let mut i = image(w, h, cpp, pat);
        i.orientation = o; i.wb_coeffs = wb;
        i.blacklevels = [k as u16 * 3 + (wb[1] * 4.0) as u16; 4]; i.whitelevels = [4000 + 100 * k as u16 + (wb[2] * 64.0) as u16; 4];
        for r in 0..3 { i.xyz_to_cam[r][r] = 0.5 + k as f32 / 16.0 + wb[0] / 8.0 }
        i.data = match data { Some(d) => d, None => (0..w * h * cpp).map(|n| (n * 37 % 999) as u16).collect() };
        i
    };
    let (w, h, cpp, _) = kinds[k % 6];
    let o = [Orientation::Normal, Orientation::Rotate90, Orientation::Transverse][choice(3)];
    let (mw, mh) = if k < 6 { (0, 0) } else { (3, 2) };
    // the whole way with one open sample, the part up to the levels with all of them open
    let all = choice(2) == 1;
    let mut i = make(k % 6, [1.0, 0.5, 0.75, 0.25], o, None);
    if all { i.data = crate::render::samples(w * h * cpp) } else { i.data[0] = 300 + 40 * (u8s() & 1) as u16 }
    let go = |linear: bool| if all { let b = gofloat::convert(&i); let mut c = demosaic::demosaic_and_scale(&i, &b, mw, mh); level::level_and_balance(&i, &mut c); transform::rotate(&i, &c) } else if linear { simple_decode_linear(&i, mw, mh) } else { simple_decode(&i, mw, mh) };
    let bits = |o: OpBuffer| -> Vec<u8> { let mut v = vec![]; for n in [o.width, o.height, o.colors, o.data.len()] { v.extend((n as u32).to_le_bytes()) } for x in &o.data { v.extend(x.to_bits().to_le_bytes()) } v };
    let linear = all || choice(2) == 1;
    {
        let alone = pristine(|| match nopanic("rendering panics", || go(linear)) { Some(o) => bits(o), None => vec![] });
        if alone.is_empty() { return }
        cover("rendering");
        for s in [0, 1, 2, 5, 23, 119] {
            if s == 0 { // after other images, some of them with the same size or of the same model
                for j in 0..7 {
                    let mut x = make(if j >= 6 { k % 6 } else { j }, [0.3 + 0.1 * j as f32, 0.6, 0.9, 1.2], Orientation::Rotate180, None);
                    if j % 2 == 1 { x.model = "M2".to_string(); x.clean_model = "M2".to_string() }
                    let _ = caught(|| { simple_decode(&x, j, j + 1); simple_decode_linear(&x, 0, 0) });
                }
            }
            schedule(s);
            let b = nopanic("rendering panics", || go(linear));
            schedule(0);
            let b = match b { Some(b) => bits(b), None => return };
            equal(&alone, &b, if s == 0 { "rendering depends on what was rendered before" } else { "rendering depends on the order of the work" });
        }
    }
}
// decoding a file after any other file and after failures, and again, compared with a process that decodes it alone
pub fn sequences() {
    let k = case(KINDS); let big = choice(2) == 1;
    let p = pool(k);
    let s = sample(k, big, &p);
    let alone = pristine(|| match valid(&s.loader, &s.file, name(k)) { Some(i) => ser(&i), None => vec![] });
    if alone.is_empty() { return }
    // the same loader for all of them
    let others: Vec<Shot> = (0..KINDS).map(|j| sample(j, if j == k { big } else { !big }, &other(j + 1))).collect();
    let mut l = loader(vec![]);
    for t in others.iter().chain([&s]) { for (n, c) in &t.loader.cameras { l.cameras.insert(n.clone(), c.clone()); } for (n, c) in &t.loader.naked { l.naked.insert(*n, c.clone()); } }
    for (j, t) in others.iter().enumerate() {
        let cut = t.file.len() * (j % 3 + 1) / 4;
        let _ = caught(|| decode(&l, &t.file));
        if j % 2 == 0 { let _ = caught(|| decode(&l, &t.file[..cut])); }
    }
    for n in 0..2 {
        if let Some(i) = valid(&l, &s.file, name(k)) { equal(&alone, &ser(&i), &(name(k).to_string() + ": decoding depends on what was decoded before")) }
        // now with one of its own kind just before
        if n == 0 { let _ = caught(|| decode(&l, &others[k].file)); }
    }
}
// a source that gives a few bytes at a time
struct Bits<'a> { v: &'a [u8], n: usize, at: usize, turn: usize, fail: Option<usize> }
impl<'a> Read for Bits<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.turn += 1;
        if let Some(f) = self.fail { if self.at >= f { return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof)) } }
        if self.turn % 3 == 0 { return Err(std::io::Error::from(std::io::ErrorKind::Interrupted)) }
        let n = self.n.min(b.len()).min(self.v.len() - self.at);
        b[..n].copy_from_slice(&self.v[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
pub fn reading() {
    let k = case(KINDS); let big = choice(2) == 1;
    let p = pool(k);
    let s = sample(k, big, &p);
    let first = match valid(&s.loader, &s.file, name(k)) { Some(i) => i, None => return };
    match choice(4) {
        0 => { let mut r = Bits { v: &s.file, n: 100, at: 0, turn: 0, fail: None }; match caught(|| s.loader.decode(&mut r)) { Some(Ok(i)) => alike(&first, &i, name(k)), _ => fail("a file that is read in pieces is not decoded") } }
        1 => { let mut r = Bits { v: &s.file, n: 700, at: 0, turn: 0, fail: Some(s.file.len() / 2) }; check(matches!(caught(|| s.loader.decode(&mut r)), Some(Err(_))), "an error while reading is not reported"); }
        2 => { let f = file(&s.file); match s.loader.decode_safe(&f) { Ok(i) => alike(&first, &i, name(k)), _ => fail("a file given by its path is not decoded") } }
        _ => { check(s.loader.decode_safe("/nonexistent/file.raw").is_err(), "a file that does not exist gives no error"); }
    }
}
