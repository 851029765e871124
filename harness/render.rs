// From raw samples to an RGB image: crop, demosaic, scale.
use crate::api::*;
use crate::cfa::XTRANS;
use crate::imgs::*;
use rawloader::decoders::RawImage;
use rawloader::imageops::*;

pub fn samples(n: usize) -> Vec<u16> { let b = bytes(2 * n); (0..n).map(|k| b[2 * k] as u16 | (b[2 * k + 1] as u16) << 8).collect() }
fn obuf(w: usize, h: usize, colors: usize, v: &[u16]) -> OpBuffer { OpBuffer { width: w, height: h, colors, data: v.iter().map(|x| *x as f32).collect() } }
fn shape(o: &OpBuffer, w: usize, h: usize, c: usize, what: &str) -> bool { let ok = o.width == w && o.height == h && o.colors == c && o.data.len() == w * h * c; check(ok, &(what.to_string() + ": size of the result")); ok }

// the cropped area, as floats
pub fn crop() {
    let cpp = [1, 1, 3][case(3)];
    let k = choice(2);
    for (w, h) in [(3, 2), (4, 5), (7, 3)] { for (t, r, b, l) in [(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 1, 0, 1), (0, 1, 1, 1)] {
        let mut i = image(w, h, cpp, if cpp == 1 && k == 0 { "RGGB" } else { "" });
        i.data = samples(w * h * cpp); i.crops = [t, r, b, l];
        let (cw, ch) = (w - l - r, h - t - b);
        let what = if cpp == 3 { "crop of an RGB image" } else if k == 0 { "crop of a mosaic" } else { "crop of a monochrome image" };
        let o = match nopanic("cropping panics", || gofloat::convert(&i)) { Some(o) => o, None => return };
        cover(what);
        let colors = if cpp == 1 && k == 0 { 1 } else { 4 };
        if !shape(&o, cw, ch, colors, what) { return }
        for y in 0..ch { for x in 0..cw {
            let p = (y + t) * w + x + l;
            match (cpp, colors) {
                (1, 1) => feq(o.data[y * cw + x], i.data[p] as f32, what),
                (1, _) => { for c in 0..3 { feq(o.data[(y * cw + x) * 4 + c], i.data[p] as f32, what) } feq(o.data[(y * cw + x) * 4 + 3], 0.0, what) }
                _ => { for c in 0..3 { feq(o.data[(y * cw + x) * 4 + c], i.data[p * 3 + c] as f32, what) } feq(o.data[(y * cw + x) * 4 + 3], 0.0, what) }
            }
        } }
    } }
}
pub const PATTERNS: [&str; 6] = ["RGGB", "GBRG", "RGEB", "EBGRBERGEBRGBEGR", XTRANS, "RBGBRGGGRGGBGGBGGRBRGRBGGGBGGRGGRGGB"];
// at full size
pub fn full() {
    let pat = PATTERNS[case(6)];
    let k = choice(2);
    for (w, h) in [(1, 1), (1, 4), (5, 1), (2, 2), (5, 3), (3, 6), (8, 7), (13, 9)] { for (t, l) in [(0, 0), (1, 0), (0, 1), (3, 2)] {
        let mut i = image(w + l, h + t, 1, pat);
        i.crops = [t, 0, 0, l];
        let v = samples(w * h);
        let b = obuf(w, h, 1, &v);
        let what = "demosaic";
        let o = match nopanic("demosaicing panics", || if k == 0 { demosaic::full(&i, &b) } else { demosaic::demosaic_and_scale(&i, &b, 0, 0) }) { Some(o) => o, None => return };
        cover(what);
        if !shape(&o, w, h, 4, what) { return }
        let want = filled(&i, &v, w, h, t, l);
        for y in 0..h { for x in 0..w {
            let own = i.cfa.color_at(y + t, x + l);
            feq(o.data[(y * w + x) * 4 + own], v[y * w + x] as f32, "demosaic: a pixel keeps its own sample");
            for c in 0..4 { if c != own { fclose(o.data[(y * w + x) * 4 + c], want[(y * w + x) * 4 + c], 0.02, "demosaic: a missing colour is the average of its neighbours") } }
        } }
    } }
}
// all four colours of every pixel: its own sample, and the average of the neighbours of each other colour
fn filled(i: &RawImage, v: &[u16], w: usize, h: usize, t: usize, l: usize) -> Vec<f32> {
    let at = |y: usize, x: usize| i.cfa.color_at(y + t, x + l);
    let mut o = vec![];
    for y in 0..h { for x in 0..w { for c in 0..4 {
        if at(y, x) == c { o.push(v[y * w + x] as f32); continue }
        let (mut s, mut n) = (0f32, 0);
        for yy in y.max(1) - 1..(y + 2).min(h) { for xx in x.max(1) - 1..(x + 2).min(w) { if at(yy, xx) == c { s += v[yy * w + xx] as f32; n += 1 } } }
        o.push(if n == 0 { 0.0 } else { s / n as f32 });
    } } }
    o
}
// the size of the result, for every image size and limit
fn fits(w: usize, h: usize, mw: usize, mh: usize, ow: usize, oh: usize) -> bool {
    if mw == 0 || mh == 0 || (w <= mw && h <= mh) { return ow == w && oh == h }
    // one side takes the limit, the other one follows, rounded down but never to nothing
    // f32 arithmetic may fall short of a whole number
    let near = |a: usize, num: usize, den: usize| { let q = num / den; a == q.max(1) || (num % den == 0 && a + 1 == q) };
    (ow <= mw && oh <= mh) && ((oh == mh && near(ow, w * mh, h)) || (ow == mw && near(oh, h * mw, w)))
}
pub fn size() {
    let k = case(8);
    let (cpp, pat) = [(1, "RGGB"), (1, XTRANS), (1, ""), (3, "")][k % 4];
    let _ = cpp;
    let colors = if pat == "" { 4 } else { 1 };
    for (n, (w, h)) in [(1, 1), (2, 3), (7, 5), (5, 12), (16, 9), (24, 16), (16, 24), (30, 2), (3, 40), (31, 17)].into_iter().enumerate() { if n % 2 == k / 4 {
        let i = image(w, h, 1, pat);
        let b = obuf(w, h, colors, &vec![1000; w * h * colors]);
        for mw in [0, 1, 2, 3, 5, 8, 15, 16, 17, 40] { for mh in [0, 1, 2, 4, 7, 9, 12, 16, 40] {
            let o = match nopanic("scaling panics", || demosaic::demosaic_and_scale(&i, &b, mw, mh)) { Some(o) => o, None => return };
            cover("size");
            check(o.colors == 4 && o.data.len() == o.width * o.height * 4, "scaling: amount of data");
            check(fits(w, h, mw, mh, o.width, o.height), "scaling: the result is as large as the limits allow, keeps the ratio and is never enlarged");
        } }
    } }
}
// limits that the image respects already
pub fn limits() {
    let pat = ["RGGB", XTRANS, ""][case(3)];
    let colors = if pat == "" { 4 } else { 1 };
    {
        let (w, h) = (7, 5);
        let i = image(w, h, 1, pat); let b = obuf(w, h, colors, &vec![1000; w * h * colors]);
        let (mw, mh) = (u16s() as usize, u16s() as usize);
        assume((mw >= w) & (mh >= h));
        let o = match nopanic("scaling panics", || demosaic::demosaic_and_scale(&i, &b, mw, mh)) { Some(o) => o, None => return };
        cover("limits beyond the size");
        check((o.width == w) & (o.height == h) & (o.data.len() == w * h * 4), "scaling: an image within the limits keeps its size");
    }
}
// what a scaled down pixel is made of
pub fn scaled() {
    let k = case(8);
    let pat = ["RGGB", "GBRG", "EBGRBERGEBRGBEGR", XTRANS, "", "", "RGGB", XTRANS][k];
    let colors = if pat == "" { 4 } else { 1 };
    let (t, l) = if k % 2 == 0 { (0, 0) } else { (1, 2) };
    let list: &[(usize, usize, usize, usize)] = match k { 4 => &[(5, 4, 3, 3), (3, 6, 2, 5), (6, 4, 3, 2), (4, 8, 4, 4)], 5 => &[(6, 3, 2, 9), (4, 7, 9, 2), (9, 3, 3, 3), (2, 6, 2, 3), (7, 1, 3, 1)], 6 => &[(11, 5, 4, 9), (6, 11, 9, 3), (9, 8, 4, 4), (12, 8, 6, 4), (5, 16, 9, 7)], 7 => &[(13, 7, 4, 9), (7, 14, 3, 4), (12, 12, 4, 4), (9, 15, 3, 5), (12, 6, 8, 4)], _ => &[(6, 6, 2, 2), (8, 4, 3, 3), (5, 9, 9, 3), (8, 8, 4, 4), (12, 8, 3, 2), (6, 9, 2, 3), (10, 6, 7, 6)] };
    let &(w, h, mw, mh) = &list[choice(list.len())];
    let mut i = image(w + l, h + t, 1, pat); i.crops = [t, 0, 0, l];
    let v = samples(w * h * colors);
    let b = obuf(w, h, colors, &v);
    let o = match nopanic("scaling panics", || demosaic::demosaic_and_scale(&i, &b, mw, mh)) { Some(o) => o, None => return };
    if !(o.colors == 4 && o.data.len() == o.width * o.height * 4 && o.width > 0 && o.height > 0) { fail("scaling: amount of data"); return }
    // a mosaic that is scaled by little is demosaiced first
    let first = if colors == 1 && (w as f32 / mw as f32).max(h as f32 / mh as f32) < if pat.len() == 36 { 3.0 } else { 2.0 } { true } else { false };
    cover(if first { "scaled after demosaicing" } else if colors == 1 { "scaled while demosaicing" } else { "scaled" });
    let all = if first { filled(&i, &v, w, h, t, l) } else { vec![] };
    for y in 0..o.height { for x in 0..o.width { for c in 0..4 {
        let span = |k: usize, n: usize, m: usize| (k * n / m, (((k + 1) * n + m - 1) / m).min(n));
        let inner = |k: usize, n: usize, m: usize| ((k * n + m - 1) / m, (k + 1) * n / m);
        let ((y0, y1), (x0, x1)) = (span(y, h, o.height), span(x, w, o.width));
        let ((iy0, iy1), (ix0, ix1)) = (inner(y, h, o.height), inner(x, w, o.width));
        let mut own = vec![]; let mut inside = vec![];
        for yy in y0..y1 { for xx in x0..x1 {
            let s = if colors == 4 { v[(yy * w + xx) * 4 + c] as f32 } else if first { all[(yy * w + xx) * 4 + c] } else if i.cfa.color_at(yy + t, xx + l) == c { v[yy * w + xx] as f32 } else { continue };
            own.push(s);
            if yy >= iy0 && yy < iy1 && xx >= ix0 && xx < ix1 { inside.push(s) }
        } }
        let p = o.data[(y * o.width + x) * 4 + c];
        if own.is_empty() { feq(p, 0.0, "scaling: a colour that does not occur is zero"); continue }
        // weighted mean of the samples of that colour in the area of the pixel
        check(own.iter().fold(false, |a, s| a | (*s <= p + 0.05)), "scaling: a pixel is a mean of the samples it covers");
        check(own.iter().fold(false, |a, s| a | (*s >= p - 0.05)), "scaling: a pixel is a mean of the samples it covers");
        let n = own.len() as f32;
        if w % o.width == 0 && h % o.height == 0 { cover("whole blocks"); fclose(p, own.iter().fold(0f32, |a, s| a + *s) / n, 0.05, "scaling: by a whole ratio, a pixel is the mean of its block") }
        for s in &inside { check(p + 0.05 >= *s / n, "scaling: every sample a pixel covers counts") }
    } } }
}
