// From demosaiced pixels to the result: levels, white balance, gamma, orientation, output.
use crate::api::*;
use crate::imgs::*;
use crate::render::samples;
use crate::util::*;
use rawloader::decoders::*;
use rawloader::imageops::*;

const M: [[[f32; 3]; 4]; 3] = [
    [[0.7, 0.1, 0.05], [0.2, 0.8, 0.1], [0.02, 0.1, 0.9], [0.0, 0.0, 0.0]],
    [[0.6941, -0.1164, -0.0857], [-0.3813, 1.1242, 0.2919], [-0.0416, 0.1234, 0.6172], [0.0, 0.0, 0.0]],
    [[0.9, -0.2, -0.1], [-0.4, 1.2, 0.2], [-0.1, 0.2, 0.7], [0.3, 0.5, 0.1]],
];
// multipliers without a usable white balance: what makes the sRGB white neutral, green being 1
fn neutral(m: &[[f32; 3]; 4]) -> [f32; 4] {
    let t = [[0.412453f64, 0.357580, 0.180423], [0.212671, 0.715160, 0.072169], [0.019334, 0.119193, 0.950227]];
    let mut s = [0f64; 4];
    for i in 0..4 { for k in 0..3 { for j in 0..3 { s[i] += m[i][k] as f64 * t[k][j] } } }
    let f = |i: usize| if s[i] == 0.0 { 1.0 } else { (s[1] / s[i]) as f32 };
    [f(0), 1.0, f(2), f(3)]
}
// 24 bit fixed point
fn values(n: usize) -> Vec<f32> { let b = bytes(3 * n); (0..n).map(|k| (b[3 * k] as u32 | (b[3 * k + 1] as u32) << 8 | (b[3 * k + 2] as u32) << 16) as f32 / 256.0).collect() }
pub fn levels() {
    let k = case(24);
    let nan = f32::NAN;
    let wb = [[2.0, 1.0, 1.5, nan], [1.7, 1.0, 1.3, 1.1], [512.0, 256.0, 400.0, 0.0], [0.5, 2.0, 3.0, 4.0], [nan, nan, nan, nan], [0.0, 1.0, 1.0, nan], [1.0, nan, 2.0, 1.0], [3.0, 1.0, f32::INFINITY, 1.0], [2.0, 1.0, 1e-40, nan], [1.0, 1.0, 1.0, 1.0], [2.0, 0.0, 1.5, 1.0], [1.25, 1.0, 0.0, nan]][k % 12];
    let (cpp, pat) = [(1, "RGGB"), (3, ""), (1, ""), (1, "RGEB")][(k / 12 * 2 + k % 3) % 4];
    let mut i = image(8, 8, cpp, pat);
    i.wb_coeffs = wb; i.xyz_to_cam = M[k % 3];
    let (b, w) = [([0u16, 0, 0, 0], [65535u16, 65535, 65535, 65535]), ([100, 200, 300, 400], [4095, 4000, 3900, 3800]), ([1024, 1023, 1024, 1023], [16383, 15000, 16383, 15000])][k / 4 % 3];
    i.blacklevels = b; i.whitelevels = w;
    let ok = wb[0].is_normal() && wb[1].is_normal() && wb[2].is_normal();
    let (what, m) = if cpp == 1 && pat == "" { ("levels of a monochrome image", [1.0; 4]) }
        else if !ok { ("levels without a white balance", neutral(&i.xyz_to_cam)) }
        else { ("levels and white balance", [wb[0] / wb[1], 1.0, wb[2] / wb[1], if wb[3].is_normal() { wb[3] / wb[1] } else { 1.0 }]) };
    for (pw, ph) in [(1usize, 1usize), (3, 2), (1, 3)] {
        let v = values(pw * ph * 4);
        let mut o = OpBuffer { width: pw, height: ph, colors: 4, data: v.clone() };
        if nopanic("applying the levels panics", || level::level_and_balance(&i, &mut o)).is_none() { return }
        cover(what);
        check(o.width == pw && o.height == ph && o.colors == 4 && o.data.len() == v.len(), "levels: size of the result");
        if o.data.len() != v.len() { return }
        for n in 0..v.len() {
            let c = n % 4;
            let x = (v[n] - b[c] as f32) / (w[c] as f32 - b[c] as f32) * m[c];
            let x = if x < 1.0 { x } else { 1.0 };
            fclose(o.data[n], x, 0.0001 * m[c].max(1.0), what);
        }
    }
}
// the black level measured on masked rows and columns
pub fn masked() {
    let k = case(12);
    let pat = ["RGGB", "GBRG", "RGEB", "BGGR"][k % 4];
    let (w, h, hz, vt) = [(6usize, 4usize, (1i64, 2i64), (0i64, 0i64)), (4, 5, (0, 0), (3, 1)), (5, 4, (2, 2), (1, 3))][k / 4];
    let c = cam("Make", "M1", "", &[("color_pattern", text(pat)), ("blackareah", ints(&[hz.0, hz.1])), ("blackareav", ints(&[vt.0, vt.1]))]);
    let v = samples(w * h);
    let pattern = rawloader::CFA::new(pat);
    let i = match nopanic("measuring the black level panics", || RawImage::new(c, w, h, [1.0; 4], v.clone())) { Some(i) => i, None => return };
    cover("black level of masked areas");
    check(i.width == w && i.height == h && i.cpp == 1, "black level of masked areas: the image is kept");
    same(&i.data, &v, "black level of masked areas: the image is kept");
    for c in 0..4 {
        let (mut s, mut n) = (0f32, 0f32);
        for y in hz.0 as usize..(hz.0 + hz.1) as usize { for x in 0..w { if pattern.color_at(y, x) == c { s += v[y * w + x] as f32; n += 1.0 } } }
        for y in 0..h { for x in vt.0 as usize..(vt.0 + vt.1) as usize { if pattern.color_at(y, x) == c { s += v[y * w + x] as f32; n += 1.0 } } }
        let b = i.blacklevels[c] as f32;
        if n == 0.0 { eq(i.blacklevels[c] as u64, 0, "black level of masked areas: a colour that does not occur has none") } else { fclose(b, s / n - 0.5, 0.51, "black level of masked areas: the mean of the samples of each colour") }
    }
}
// ------------------------------------------------------------------ orientation
pub const TURNS: [Orientation; 9] = [Orientation::Normal, Orientation::HorizontalFlip, Orientation::Rotate180, Orientation::VerticalFlip, Orientation::Transpose, Orientation::Rotate90, Orientation::Transverse, Orientation::Rotate270, Orientation::Unknown];
// the size after turning, and where the pixel (y, x) of the result comes from
fn turned(k: usize, w: usize, h: usize) -> (usize, usize) { if k >= 4 && k < 8 { (h, w) } else { (w, h) } }
fn source(k: usize, w: usize, h: usize, y: usize, x: usize) -> (usize, usize) {
    match k { 1 => (y, w - 1 - x), 2 => (h - 1 - y, w - 1 - x), 3 => (h - 1 - y, x), 4 => (x, y), 5 => (h - 1 - x, y), 6 => (h - 1 - x, w - 1 - y), 7 => (x, w - 1 - y), _ => (y, x) }
}
pub fn orient() {
    let k = case(9);
    for (w, h, c) in [(1usize, 1usize, 3usize), (4, 3, 3), (2, 5, 3), (5, 1, 4), (1, 3, 1), (7, 6, 3)] {
        let mut i = image(w, h, 1, "RGGB"); i.orientation = TURNS[k];
        let v: Vec<f32> = samples(w * h * c).into_iter().map(|x| x as f32).collect();
        let b = OpBuffer { width: w, height: h, colors: c, data: v.clone() };
        let o = match nopanic("turning an image panics", || transform::rotate(&i, &b)) { Some(o) => o, None => return };
        cover("orientation");
        let (tw, th) = turned(k, w, h);
        let ok = o.width == tw && o.height == th && o.colors == c && o.data.len() == w * h * c;
        check(ok, "orientation: size of the result"); if !ok { return }
        for y in 0..th { for x in 0..tw { let (sy, sx) = source(k, w, h, y, x); for z in 0..c { feq(o.data[(y * tw + x) * c + z], v[(sy * w + sx) * c + z], "orientation: every pixel is where the orientation puts it") } } }
    }
}
// ------------------------------------------------------------------ the whole way
// dark, middle and bright samples
fn tones(n: usize, at: u16) -> Vec<u16> { let b = bytes(n); b.iter().map(|x| at + (*x as u16 & 63)).collect() }
fn scene(k: usize, w: usize, h: usize) -> RawImage {
    let (cpp, pat) = [(1, "RGGB"), (1, "GBRG"), (3, ""), (1, "")][k % 4];
    let mut i = image(w, h, cpp, pat);
    i.data = tones(w * h * cpp, [40, 9000, 33000, 20000][(k + w) % 4]);
    i.blacklevels = [8, 9, 10, 7]; i.whitelevels = [65000, 65100, 65200, 65300]; i.wb_coeffs = [1.3, 1.0, 1.2, f32::NAN]; i.crops = [1, 0, 0, 2];
    i.xyz_to_cam = M[k % 2];
    i
}
fn stages(i: &RawImage, mw: usize, mh: usize, linear: bool) -> OpBuffer {
    let f = gofloat::convert(i);
    let mut c = demosaic::demosaic_and_scale(i, &f, mw, mh);
    level::level_and_balance(i, &mut c);
    let mut d = colorspaces::camera_to_lab(i, &c);
    curves::base(i, &mut d);
    colorspaces::lab_to_rec709(i, &mut d);
    if !linear { gamma::gamma(i, &mut d) }
    d
}
pub fn output() {
    let k = case(18);
    let t = k % 9;
    let kind = (k / 9 + t) % 4;
    let (w, h) = if k / 9 == 0 { (5, 4) } else { (5, 7) };
    let mut i = scene(kind, w, h);
    i.orientation = TURNS[t];
    // limits apply to the result as it is turned
    for (mw, mh) in [(0usize, 0usize), (9, 2), (2, 9)] {
        let lim = if t >= 4 && t < 8 { (mh, mw) } else { (mw, mh) };
        for linear in [false, true] {
            let want = stages(&i, lim.0, lim.1, linear);
            let what = match (linear, t == 0 || t == 8) { (false, true) => "output", (true, true) => "linear output", (false, false) => "turned output", _ => "turned linear output" };
            let o = match nopanic("converting an image panics", || if linear { i.to_linear_rgb(mw, mh) } else { i.to_rgb(mw, mh) }) { Some(Ok(o)) => o, Some(Err(_)) => { fail("converting an image fails"); return } None => return };
            cover(what);
            let (tw, th) = turned(t, want.width, want.height);
            let ok = o.width == tw && o.height == th && o.data.len() == tw * th * 3;
            check(ok, "output: size of the result, limited as it is turned"); if !ok { return }
            for y in 0..th { for x in 0..tw { let (sy, sx) = source(t, want.width, want.height, y, x); for z in 0..3 { fclose(o.data[(y * tw + x) * 3 + z], want.data[(sy * want.width + sx) * 3 + z], 0.0001, "output: the steps in their order, then turned") } } }
            if !linear {
                let s = match nopanic("converting an image panics", || i.to_srgb(mw, mh)) { Some(Ok(o)) => o, Some(Err(_)) => { fail("converting an image fails"); return } None => return };
                cover("8 bit output");
                let ok = s.width == tw && s.height == th && s.data.len() == tw * th * 3;
                check(ok, "8 bit output: size of the result"); if !ok { return }
                for n in 0..s.data.len() {
                    let b = s.data[n] as f32;
                    fclose(b, o.data[n] * 255.0 - 0.5, 0.51, "8 bit output: 255 times the value, rounded down");
                }
            }
        }
    }
}
// ------------------------------------------------------------------ gamma
fn curve(v: f64) -> f64 { if v <= 0.0 { 0.0 } else if v >= 1.0 { 1.0 } else if v <= 0.018 { 4.5 * v } else { 1.099 * v.powf(0.45) - 0.099 } }
pub fn gamma_curve() {
    let k = case(34);
    let i = image(4, 4, 1, "RGGB");
    if k >= 32 {
        // anything outside of the range, also what is not a number
        let v: Vec<f32> = if k == 32 { vec![f32::NAN, -0.0, -1.0, f32::NEG_INFINITY, 1e-40, -1e-40] } else { vec![1.0, 1.5, 1e30, f32::INFINITY, f32::MAX, 1.0000001] };
        let mut o = OpBuffer { width: 2, height: 1, colors: 3, data: v };
        if nopanic("the gamma curve panics", || gamma::gamma(&i, &mut o)).is_none() { return }
        cover("gamma outside of the range");
        for x in &o.data { fclose(*x, if k == 32 { 0.0 } else { 1.0 }, 0.001, "gamma: values outside of the range give its ends") }
        return
    }
    // 16 bit steps and between them, in 32 parts
    let b = bytes(2);
    let u = ((b[0] as u32 | (b[1] as u32) << 8) & 0x7fff) as f32 / 32768.0;
    let (lo, hi) = (k as f32 / 32.0, (k + 1) as f32 / 32.0);
    let v = lo + u / 32.0;
    let mut o = OpBuffer { width: 1, height: 1, colors: 3, data: vec![v, v, v] };
    if nopanic("the gamma curve panics", || gamma::gamma(&i, &mut o)).is_none() { return }
    cover("gamma");
    let (a, z) = (curve(lo as f64), curve(hi as f64));
    // near the chord of the curve, from below not at all
    let mut far = 0f64; for n in 0..64 { let t = n as f64 / 64.0; let d = (curve(lo as f64 + t / 32.0) - (a + (z - a) * t)).abs(); if d > far { far = d } }
    let far = far as f32 + 0.001;
    for c in 0..3 {
        let x = o.data[c];
        check((x >= 0.0) & (x <= 1.0), "gamma: the result is between 0 and 1");
        fclose(x, a as f32 + (z - a) as f32 * u, far, "gamma: the curve of BT.709");
    }
}
// ------------------------------------------------------------------ colours
const RGB: [[f64; 3]; 3] = [[0.412453, 0.357580, 0.180423], [0.212671, 0.715160, 0.072169], [0.019334, 0.119193, 0.950227]];
fn det(m: &[[f64; 3]; 3]) -> f64 { m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]) }
// by Cramer's rule
fn inv(m: &[[f64; 3]; 3]) -> [[f64; 3]; 3] {
    let d = det(m); let mut o = [[0f64; 3]; 3];
    for j in 0..3 { for i in 0..3 { let mut t = *m; for k in 0..3 { t[k][i] = if k == j { 1.0 } else { 0.0 } } o[i][j] = det(&t) / d } }
    o
}
// camera to XYZ (its white being 1): the least squares inverse of the camera's matrix, made so that equal camera values are the sRGB white
fn to_xyz(m: &[[f32; 3]; 4]) -> [[f64; 4]; 3] {
    let mut n = [[0f64; 3]; 4];
    for i in 0..4 { let mut s = 0.0; for j in 0..3 { for k in 0..3 { n[i][j] += m[i][k] as f64 * RGB[k][j] } s += n[i][j] } for j in 0..3 { n[i][j] = if s == 0.0 { 0.0 } else { n[i][j] / s } } }
    let mut g = [[0f64; 3]; 3];
    for i in 0..3 { for j in 0..3 { for k in 0..4 { g[i][j] += n[k][i] * n[k][j] } } }
    let g = inv(&g);
    let white = [0.9547, 1.0, 1.08883];
    let mut o = [[0f64; 4]; 3];
    for r in 0..3 { for c in 0..4 { for i in 0..3 { for j in 0..3 { o[r][c] += RGB[r][i] * g[i][j] * n[c][j] / white[r] } } } }
    o
}
pub fn colors() {
    let k = case(45);
    let mut i = image(4, 4, 1, if k % 3 == 2 { "RGEB" } else { "RGGB" });
    i.xyz_to_cam = M[k % 3];
    let c = to_xyz(&i.xyz_to_cam);
    let m = i.cam_to_xyz();
    for r in 0..3 { for q in 0..4 { fclose(m[r][q], c[r][q] as f32, 0.0005, "colours: the matrix from camera to XYZ") } }
    let base: [f32; 4] = [[0.002, 0.002, 0.002, 0.002], [0.1, 0.1, 0.1, 0.1], [0.3, 0.2, 0.25, 0.2], [0.2, 0.3, 0.4, 0.3], [0.5, 0.5, 0.5, 0.5], [0.6, 0.3, 0.2, 0.4], [0.15, 0.2, 0.4, 0.3], [0.75, 0.7, 0.7, 0.7], [0.014, 0.014, 0.014, 0.014], [0.02, 0.02, 0.02, 0.02], [0.03, 0.03, 0.03, 0.03], [0.045, 0.045, 0.045, 0.045], [0.065, 0.065, 0.065, 0.065], [0.05, 0.07, 0.12, 0.08], [0.17, 0.15, 0.14, 0.16]][k / 3];
    let step = if k / 3 == 0 { 1.0 / 524288.0 } else { 1.0 / 65536.0 };
    for n in [1usize, 2] {
        let b = bytes(4 * n);
        let p: Vec<f32> = (0..4 * n).map(|j| base[j % 4] + b[j] as f32 * step).collect();
        let buf = OpBuffer { width: 1, height: n, colors: 4, data: p.clone() };
        let mut o = match nopanic("converting colours panics", || colorspaces::camera_to_lab(&i, &buf)) { Some(o) => o, None => return };
        let ok = o.width == 1 && o.height == n && o.colors == 3 && o.data.len() == 3 * n;
        check(ok, "colours: size of the result"); if !ok { return }
        // lightness and the colour axes around the middle of the range
        if k / 3 == 0 { for j in 0..n {
            let y: f32 = (0..4).fold(0.0, |s, q| s + c[1][q] as f32 * p[4 * j + q]);
            fclose(o.data[3 * j], y * 9.03297, 0.0005, "colours: lightness of dark pixels");
        } }
        if nopanic("converting colours panics", || colorspaces::lab_to_rec709(&i, &mut o)).is_none() { return }
        cover(if k / 3 == 0 { "colours of dark pixels" } else { "colours" });
        let back = inv(&RGB);
        for j in 0..n { for r in 0..3 {
            let mut want = 0f32;
            for q in 0..4 { let mut f = 0f64; for t in 0..3 { f += back[r][t] * c[t][q] } want += f as f32 * p[4 * j + q] }
            fclose(o.data[3 * j + r], want, if k / 3 == 0 { 0.0002 } else { 0.003 }, "colours: linear RGB is the product of the matrices");
        } }
    }
}
// the curve on the lightness
pub fn base_curve() {
    let k = case(42);
    let i = image(4, 4, 1, "RGGB");
    let b = bytes(6);
    let t = (b[0] as u32 | (b[1] as u32) << 8) as f32 / 65536.0;
    let (a, z) = ((b[2] as u32 | (b[3] as u32) << 8) as f32 / 65536.0, (b[4] as u32 | (b[5] as u32) << 8) as f32 / 32768.0);
    let x = if k < 40 { (k as f32 + t) / 40.0 } else if k == 40 { 1.0 + t } else { 1.0 };
    let mut o = OpBuffer { width: 1, height: 1, colors: 3, data: vec![x, a, z] };
    if nopanic("the curve panics", || curves::base(&i, &mut o)).is_none() { return }
    cover("base curve");
    feq(o.data[1], a, "base curve: the colour is kept"); feq(o.data[2], z, "base curve: the colour is kept");
    if k >= 40 { feq(o.data[0], 1.0, "base curve: white is the upper end"); return }
    let (xs, ys) = ([0.0f64, 0.3, 0.5, 0.7, 1.0], [0.0f64, 0.25, 0.5, 0.75, 1.0]);
    let curve = |v: f64| -> f64 {
        let m: Vec<f64> = (0..4).map(|j| (ys[j + 1] - ys[j]) / (xs[j + 1] - xs[j])).collect();
        let s: Vec<f64> = (0..5).map(|j| if j == 0 { m[0] } else if j == 4 { m[3] } else { let (p, q) = (xs[j] - xs[j - 1], xs[j + 1] - xs[j]); 3.0 * (p + q) / ((2.0 * q + p) / m[j - 1] + (q + 2.0 * p) / m[j]) }).collect();
        let j = (0..4).filter(|&j| xs[j] <= v + 1e-12).last().unwrap();
        let h = xs[j + 1] - xs[j]; let u = (v - xs[j]) / h;
        (2.0 * u * u * u - 3.0 * u * u + 1.0) * ys[j] + (u * u * u - 2.0 * u * u + u) * h * s[j] + (3.0 * u * u - 2.0 * u * u * u) * ys[j + 1] + (u * u * u - u * u) * h * s[j + 1]
    };
    let (l, h) = (curve(k as f64 / 40.0), curve((k + 1) as f64 / 40.0));
    fclose(o.data[0], l as f32 + (h - l) as f32 * t, 0.0012, "base curve: a monotone curve through its points");
}
