// What a harness uses to talk to its environment.  Under the symbolic executor the sym_*
// functions are interpreted by the engine; in the native build they read a recorded
// counterexample and check the same assertions against the real compiled code.

#[cfg(feature = "ir")]
mod imp {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_choice(n: u64) -> u64;
        pub fn sym_case(n: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, m: *const u8, l: usize);
        pub fn sym_eq(a: u64, b: u64, m: *const u8, l: usize);
        pub fn sym_feq(a: f32, b: f32, m: *const u8, l: usize);
        pub fn sym_fclose(a: f32, b: f32, tol: f32, m: *const u8, l: usize);
        pub fn sym_cover(m: *const u8, l: usize);
        pub fn sym_note(m: *const u8, l: usize, v: u64);
        pub fn sym_file(p: *const u8, n: usize);
        pub fn sym_enter();
        pub fn sym_leave();
    }
}
#[cfg(feature = "native")]
mod imp {
    use std::sync::Mutex;
    pub static INPUT: Mutex<Vec<String>> = Mutex::new(Vec::new());
    pub static FILE: Mutex<String> = Mutex::new(String::new());
    fn next() -> String { let mut v = INPUT.lock().unwrap(); if v.is_empty() { eprintln!("replay: inputs exhausted"); std::process::exit(4) } v.remove(0) }
    unsafe fn text(m: *const u8, l: usize) -> String { String::from_utf8_lossy(std::slice::from_raw_parts(m, l)).to_string() }
    pub unsafe fn sym_bytes(p: *mut u8, n: usize) {
        let l = next();
        let h = match l.strip_prefix("b ") { Some(h) => h.trim(), None => { eprintln!("replay: bytes expected"); std::process::exit(4) } };
        if h.len() != 2 * n { eprintln!("replay: {} bytes expected", n); std::process::exit(4) }
        for k in 0..n { *p.add(k) = u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap() }
    }
    pub unsafe fn sym_choice(_: u64) -> u64 { let l = next(); match l.strip_prefix("c ") { Some(h) => h.trim().parse().unwrap(), None => { eprintln!("replay: choice expected"); std::process::exit(4) } } }
    pub unsafe fn sym_case(n: u64) -> u64 { sym_choice(n) }
    pub unsafe fn sym_assume(c: bool) { if !c { eprintln!("replay: assumption not met"); std::process::exit(3) } }
    pub unsafe fn sym_assert(c: bool, m: *const u8, l: usize) { if !c { println!("FAILED: {}", text(m, l)); std::process::exit(1) } }
    pub unsafe fn sym_eq(a: u64, b: u64, m: *const u8, l: usize) { if a != b { println!("FAILED: {} ({} instead of {})", text(m, l), a, b); std::process::exit(1) } }
    pub unsafe fn sym_feq(a: f32, b: f32, m: *const u8, l: usize) { if a != b && !(a.is_nan() && b.is_nan()) { println!("FAILED: {} ({} instead of {})", text(m, l), a, b); std::process::exit(1) } }
    pub unsafe fn sym_fclose(a: f32, b: f32, tol: f32, m: *const u8, l: usize) { if !((a - b).abs() <= tol) { println!("FAILED: {} ({} instead of {})", text(m, l), a, b); std::process::exit(1) } }
    pub unsafe fn sym_cover(_: *const u8, _: usize) {}
    pub unsafe fn sym_note(m: *const u8, l: usize, v: u64) { eprintln!("note {}={}", text(m, l), v) }
    pub unsafe fn sym_file(p: *const u8, n: usize) {
        let f = std::env::temp_dir().join(format!("hnative-{}.raw", std::process::id()));
        std::fs::write(&f, std::slice::from_raw_parts(p, n)).unwrap();
        *FILE.lock().unwrap() = f.to_string_lossy().to_string();
    }
    // in a child, so that nothing it leaves behind is seen here
    extern "C" { fn fork() -> i32; fn pipe(p: *mut i32) -> i32; fn read(f: i32, p: *mut u8, n: usize) -> isize; fn write(f: i32, p: *const u8, n: usize) -> isize; fn close(f: i32) -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; }
    pub fn alone<F: FnOnce() -> Vec<u8>>(f: F) -> Vec<u8> { unsafe {
        let mut p = [0i32; 2];
        if pipe(p.as_mut_ptr()) != 0 { std::process::exit(4) }
        let c = fork();
        if c == 0 {
            let v = f();
            let mut k = 0;
            while k < v.len() { let n = write(p[1], v.as_ptr().add(k), v.len() - k); if n <= 0 { _exit(4) } k += n as usize }
            _exit(0)
        }
        close(p[1]);
        let (mut v, mut b) = (vec![], [0u8; 4096]);
        loop { let n = read(p[0], b.as_mut_ptr(), 4096); if n <= 0 { break } v.extend_from_slice(&b[..n as usize]) }
        close(p[0]);
        let mut s = 0; waitpid(c, &mut s, 0);
        if s != 0 { std::process::exit(if s & 127 != 0 { 4 } else { s >> 8 & 255 }) }
        v
    } }
}
#[cfg(feature = "native")]
pub use self::imp::{FILE, INPUT};
// what a process of its own would compute; only as the first thing
#[cfg(feature = "native")]
pub fn pristine<F: FnOnce() -> Vec<u8>>(f: F) -> Vec<u8> { imp::alone(f) }
#[cfg(feature = "ir")]
pub fn pristine<F: FnOnce() -> Vec<u8>>(f: F) -> Vec<u8> { unsafe { imp::sym_enter() } let v = f(); unsafe { imp::sym_leave() } v }

#[inline(never)]
pub fn bytes(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; fill(&mut v); v }
pub fn fill(v: &mut [u8]) { unsafe { imp::sym_bytes(v.as_mut_ptr(), v.len()) } }
pub fn u8s() -> u8 { let mut b = [0u8; 1]; fill(&mut b); b[0] }
pub fn u16s() -> u16 { let mut b = [0u8; 2]; fill(&mut b); u16::from_le_bytes(b) }
pub fn u32s() -> u32 { let mut b = [0u8; 4]; fill(&mut b); u32::from_le_bytes(b) }
pub fn u64s() -> u64 { let mut b = [0u8; 8]; fill(&mut b); u64::from_le_bytes(b) }
// n concrete alternatives, explored one by one
pub fn choice(n: usize) -> usize { unsafe { imp::sym_choice(n as u64) as usize } }
// same, but the alternatives are distributed over worker processes
pub fn case(n: usize) -> usize { unsafe { imp::sym_case(n as u64) as usize } }
pub fn assume(c: bool) { unsafe { imp::sym_assume(c) } }
pub fn check(c: bool, m: &str) { unsafe { imp::sym_assert(c, m.as_ptr(), m.len()) } }
pub fn eq(a: u64, b: u64, m: &str) { unsafe { imp::sym_eq(a, b, m.as_ptr(), m.len()) } }
pub fn feq(a: f32, b: f32, m: &str) { unsafe { imp::sym_feq(a, b, m.as_ptr(), m.len()) } }
pub fn fclose(a: f32, b: f32, tol: f32, m: &str) { unsafe { imp::sym_fclose(a, b, tol, m.as_ptr(), m.len()) } }
pub fn fail(m: &str) { check(false, m) }
pub fn cover(m: &str) { unsafe { imp::sym_cover(m.as_ptr(), m.len()) } }
#[allow(dead_code)]
pub fn note(m: &str, v: u64) { unsafe { imp::sym_note(m.as_ptr(), m.len(), v) } }
// make the bytes readable as a file; returns its path
#[cfg(feature = "ir")]
pub fn file(v: &[u8]) -> String { unsafe { imp::sym_file(v.as_ptr(), v.len()) } "/sym/file.raw".to_string() }
#[cfg(feature = "native")]
pub fn file(v: &[u8]) -> String { unsafe { imp::sym_file(v.as_ptr(), v.len()) } FILE.lock().unwrap().clone() }

// run something that must not panic
#[cfg(feature = "ir")]
pub fn quiet() { std::panic::set_hook(Box::new(|_| {})); }
#[cfg(feature = "native")]
pub fn quiet() { if std::env::var_os("HLOUD").is_none() { std::panic::set_hook(Box::new(|_| {})); } }
pub fn nopanic<T, F: FnOnce() -> T>(m: &str, f: F) -> Option<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(v) => Some(v), Err(_) => { fail(m); None } }
}
pub fn caught<T, F: FnOnce() -> T>(f: F) -> Option<T> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }
#[cfg(any(feature = "ir", feature = "seq"))]
pub fn schedule(k: usize) { rayon::ORDER.store(k, std::sync::atomic::Ordering::Relaxed) }
#[cfg(all(feature = "native", not(feature = "seq")))]
pub fn schedule(_: usize) {}
