// The colour filter pattern: periodic, shifts with the crop, survives copying.
use crate::api::*;
use crate::imgs::*;
use rawloader::CFA;

fn code(c: u8) -> usize { match c { b'R' => 0, b'G' => 1, b'B' => 2, b'E' => 3, b'M' => 1, _ => 3 } }
pub const XTRANS: &str = "GBGGRGRGRBGBGBGGRGGRGGBGBGBRGRGRGGBG";
fn big() -> String { let mut s = String::new(); for k in 0..144usize { s.push(b"RGBE"[(k * 7 + k / 12 * 5 + k / 17) % 4] as char) } s }
fn shape(n: usize) -> (usize, usize) { match n { 4 => (2, 2), 16 => (2, 8), 36 => (6, 6), _ => (12, 12) } }

pub fn run() {
    match case(10) {
        0 => { // any 2x2 pattern
            let mut p = String::new();
            for _ in 0..4 { p.push(b"RGBEMY"[choice(6)] as char) }
            let c = CFA::new(&p); cover("2x2 pattern");
            check(c.is_valid() && c.width == 2 && c.height == 2, "2x2 pattern: size");
            for r in 0..5 { for x in 0..5 { eq(c.color_at(r, x) as u64, code(p.as_bytes()[r % 2 * 2 + x % 2]) as u64, "2x2 pattern: colour") } }
            let d = c.clone();
            for (dx, dy) in [(0, 1), (1, 0), (1, 1), (3, 2)] { let s = c.shift(dx, dy); check(s.is_valid() && s.width == 2 && s.height == 2, "2x2 pattern: size after a shift"); for r in 0..3 { for x in 0..3 { eq(s.color_at(r, x) as u64, d.color_at(r + dy, x + dx) as u64, "2x2 pattern: colour after a shift") } } }
        }
        k @ 1..=4 => { // colour at any position
            let p = [String::from("GBRG"), String::from("RGBERGBEGRBEEBGR"), XTRANS.to_string(), big()][k - 1].clone();
            let (w, h) = shape(p.len());
            let c = CFA::new(&p);
            check(c.is_valid() && c.width == w && c.height == h, "pattern: size");
            let (r, x) = (pos(), pos());
            cover("any position");
            let t: Vec<u8> = p.bytes().map(|b| code(b) as u8).collect();
            let want = t[r % h * w + x % w];
            eq(c.color_at(r, x) as u64, want as u64, "pattern: colour at any position");
            let d = c.clone();
            check(d.width == w && d.height == h && d.name == c.name, "pattern: a copy has the same size and name");
            eq(d.color_at(r, x) as u64, want as u64, "pattern: colour at any position of a copy");
        }
        k @ 5..=8 => { // any shift
            let p = [String::from("GBRG"), String::from("RGBERGBEGRBEEBGR"), XTRANS.to_string(), big()][k - 5].clone();
            let (w, h) = shape(p.len());
            let c = CFA::new(&p);
            let t: Vec<u8> = p.bytes().map(|b| code(b) as u8).collect();
            let m = choice(2);
            let mut img = image(4, 4, 1, &p);
            let big = [(47, 48), (49, 100), (1003, 2777), (200, 33)];
            for k in 0..169 + big.len() {
                let (dx, dy) = if k < 169 { (k % 13, k / 13) } else { big[k - 169] };
                let s = if m == 0 { cover("shift"); c.shift(dx, dy) } else { cover("crop"); img.crops = [dy, 3, 2, dx]; img.cropped_cfa() };
                check(s.is_valid() && s.width == w && s.height == h, "shifted pattern: size");
                for r in 0..h { for x in 0..w { eq(s.color_at(r, x) as u64, t[(r + dy) % h * w + (x + dx) % w] as u64, "shifted pattern: colour") } }
                if k == 8 || k > 170 {
                    // shifting twice is shifting by the sum
                    let z = s.shift(3, 5);
                    for r in 40..40 + h { for x in 50..50 + w { eq(z.color_at(r, x) as u64, t[(r + dy + 5) % h * w + (x + dx + 3) % w] as u64, "pattern shifted twice: colour") } }
                }
                if k == 6 || k == 171 {
                    let (r, x) = (pos(), pos());
                    eq(s.color_at(r, x) as u64, t[(r + dy) % h * w + (x + dx) % w] as u64, "shifted pattern: colour at any position");
                }
            }
        }
        _ => {
            let c = CFA::new(""); cover("no pattern");
            check(!c.is_valid(), "an empty pattern is not valid");
            check(!c.shift(1, 2).is_valid() && !c.clone().is_valid(), "an empty pattern stays invalid");
            for (cpp, p, mono) in [(1, "", true), (1, "RGGB", false), (3, "", false), (3, "RGGB", false)] { check(image(4, 4, cpp, p).is_monochrome() == mono, "monochrome images are those with one sample per pixel and no pattern") }
        }
    }
}
fn pos() -> usize { u8s() as usize }
