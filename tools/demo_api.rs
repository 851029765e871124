// what the builders and comparisons need, in plain form: inputs are pseudo-random
use std::cell::Cell;
thread_local! { static CASE: Cell<usize> = Cell::new(0); static CASES: Cell<usize> = Cell::new(1); static SEED: Cell<u32> = Cell::new(1); }
pub struct Skip;
fn bad(m: String) -> ! { println!("FAILED: {}", m); std::process::exit(1) }
pub fn check(c: bool, m: &str) { if !c { bad(m.to_string()) } }
pub fn eq(a: u64, b: u64, m: &str) { if a != b { bad(format!("{}: {} instead of {}", m, a, b)) } }
pub fn feq(a: f32, b: f32, m: &str) { if a != b && !(a.is_nan() && b.is_nan()) { bad(format!("{}: {} instead of {}", m, a, b)) } }
pub fn fclose(a: f32, b: f32, t: f32, m: &str) { if !((a - b).abs() <= t) { bad(format!("{}: {} instead of {}", m, a, b)) } }
pub fn fail(m: &str) { check(false, m) }
pub fn cover(_: &str) {}
pub fn note(_: &str, _: u64) {}
pub fn assume(c: bool) { if !c { std::panic::panic_any(Skip) } }
pub fn fill(v: &mut [u8]) { for x in v.iter_mut() { SEED.with(|s| { let n = s.get().wrapping_mul(1664525).wrapping_add(1013904223); s.set(n); *x = (n >> 24) as u8 }) } }
pub fn bytes(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; fill(&mut v); v }
pub fn u8s() -> u8 { bytes(1)[0] }
pub fn u16s() -> u16 { let b = bytes(2); u16::from_le_bytes([b[0], b[1]]) }
pub fn u32s() -> u32 { let b = bytes(4); u32::from_le_bytes([b[0], b[1], b[2], b[3]]) }
pub fn case(n: usize) -> usize { CASES.with(|c| c.set(n)); CASE.with(|c| c.get()) % n }
pub fn choice(n: usize) -> usize { u8s() as usize % n }
pub fn schedule(_: usize) {}
pub fn caught<T, F: FnOnce() -> T>(f: F) -> Option<T> { match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(v) => Some(v), Err(e) => { if e.is::<Skip>() { std::panic::resume_unwind(e) } None } } }
pub fn nopanic<T, F: FnOnce() -> T>(m: &str, f: F) -> Option<T> { let r = caught(f); if r.is_none() { fail(m) } r }
pub fn file(v: &[u8]) -> String { let p = std::env::temp_dir().join(format!("demo-{}.raw", std::process::id())); std::fs::write(&p, v).unwrap(); p.to_string_lossy().to_string() }
mod imp {
    // in a child, so that nothing it leaves behind is seen here
    extern "C" { fn fork() -> i32; fn pipe(p: *mut i32) -> i32; fn read(f: i32, p: *mut u8, n: usize) -> isize; fn write(f: i32, p: *const u8, n: usize) -> isize; fn close(f: i32) -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; }
    pub fn alone<F: FnOnce() -> Vec<u8>>(f: F) -> Vec<u8> { unsafe {
        let mut p = [0i32; 2];
        if pipe(p.as_mut_ptr()) != 0 { std::process::exit(4) }
        let c = fork();
        if c == 0 {
            let v = f();
            let mut k = 0;
            while k < v.len() { let n = write(p[1], v.as_ptr().add(k), v.len() - k); if n <= 0 { _exit(4) } k += n as usize }
            _exit(0)
        }
        close(p[1]);
        let (mut v, mut b) = (vec![], [0u8; 4096]);
        loop { let n = read(p[0], b.as_mut_ptr(), 4096); if n <= 0 { break } v.extend_from_slice(&b[..n as usize]) }
        close(p[0]);
        let mut s = 0; waitpid(c, &mut s, 0);
        if s != 0 { std::process::exit(if s & 127 != 0 { 4 } else { s >> 8 & 255 }) }
        v
    } }
}
pub fn pristine<F: FnOnce() -> Vec<u8>>(f: F) -> Vec<u8> { imp::alone(f) }
// every case with a number of inputs, each in a process of its own
pub fn each(name: &str, seeds: u32, cases: usize, f: fn()) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut ran = 0;
    for k in 0..cases { for s in 0..seeds {
        let v = imp::alone(|| {
            SEED.with(|x| x.set(77 * s + 13 * k as u32 + 5)); CASE.with(|c| c.set(k));
            match std::panic::catch_unwind(f) { Ok(()) => vec![1], Err(e) => { if !e.is::<Skip>() { bad(format!("{}: panic in case {}", name, k)) } vec![] } }
        });
        ran += v.len();
    } }
    println!("{}: {} runs", name, ran);
    if ran == 0 { println!("FAILED: nothing ran"); std::process::exit(98) }
}
// every case with a number of inputs
pub fn all(name: &str, seeds: u32, f: fn()) {
    std::panic::set_hook(Box::new(|_| {}));
    CASES.with(|c| c.set(1));
    let mut k = 0; let mut ran = 0;
    while k < CASES.with(|c| c.get()) {
        for s in 0..seeds {
            SEED.with(|x| x.set(77 * s + 13 * k as u32 + 5)); CASE.with(|c| c.set(k));
            match std::panic::catch_unwind(f) { Ok(()) => ran += 1, Err(e) => if !e.is::<Skip>() { bad(format!("{}: panic in case {}", name, k)) } }
        }
        k += 1;
    }
    println!("{}: {} runs", name, ran);
    if ran == 0 { println!("FAILED: nothing ran"); std::process::exit(98) }
}
