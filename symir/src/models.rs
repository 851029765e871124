// Models of the LLVM intrinsics, of the C library functions the Rust standard library calls,
// and of the sym_* functions through which a harness talks to the engine.
use crate::exec::*;
use crate::expr::{self, *};
use crate::ir::*;
use crate::mem::*;
use std::rc::Rc;

type R<T> = Result<T, Stop>;
fn eng<T>(s: impl Into<String>) -> R<T> { Err(Stop::Engine(s.into())) }
pub const ERRNO_OBJ: u64 = 3;
pub const MAX_ALLOC: u64 = 1 << 30;

impl Engine {
    pub fn classify(&mut self, sym: u32) -> B {
        let n = self.m.syms[sym as usize].clone();
        if let Some(i) = n.strip_prefix("llvm.") {
            let has = |p: &str| i.starts_with(p);
            if has("lifetime") || has("assume") || has("experimental.noalias") || has("dbg.") || has("x86.sse2.pause") || has("donothing") || has("prefetch") || has("invariant.") || has("sideeffect") || has("pseudoprobe") { return if has("assume") { B::Assume } else { B::Nop } }
            if has("memcpy") || has("memmove") { return B::Memcpy }
            if has("memset") { return B::Memset }
            if has("ctlz") { return B::Ctlz }
            if has("cttz") { return B::Cttz }
            if has("ctpop") { return B::Ctpop }
            if has("bswap") { return B::Bswap }
            if has("bitreverse") { return B::Bitrev }
            if has("fshl") { return B::Fshl }
            if has("fshr") { return B::Fshr }
            if has("umin.") { return B::UMin }
            if has("umax.") { return B::UMax }
            if has("smin.") { return B::SMin }
            if has("smax.") { return B::SMax }
            if has("abs.") { return B::Abs }
            if has("uadd.sat") { return B::UAddSat }
            if has("usub.sat") { return B::USubSat }
            if has("sadd.sat") { return B::SAddSat }
            if has("ssub.sat") { return B::SSubSat }
            if has("uadd.with") { return B::AddOv(false) }
            if has("sadd.with") { return B::AddOv(true) }
            if has("usub.with") { return B::SubOv(false) }
            if has("ssub.with") { return B::SubOv(true) }
            if has("umul.with") { return B::MulOv(false) }
            if has("smul.with") { return B::MulOv(true) }
            if has("ucmp.") { return B::UCmp }
            if has("scmp.") { return B::SCmp }
            if has("fptoui.sat") { return B::FPToUISat }
            if has("fptosi.sat") { return B::FPToSISat }
            if has("is.fpclass.") { return B::FPClass }
            if has("floor.") { return B::F1(FUn::Floor) }
            if has("ceil.") { return B::F1(FUn::Ceil) }
            if has("trunc.") { return B::F1(FUn::Trunc) }
            if has("rint.") || has("nearbyint.") || has("roundeven.") { return B::F1(FUn::Rint) }
            if has("round.") { return B::F1(FUn::Round) }
            if has("sqrt.") { return B::F1(FUn::Sqrt) }
            if has("fabs.") { return B::FAbs }
            if has("copysign.") { return B::FCopysign }
            if has("minnum.") || has("minimumnum.") { return B::FMin }
            if has("maxnum.") || has("maximumnum.") { return B::FMax }
            if has("pow.f32") { return B::FCall(0) }
            if has("pow.f64") { return B::FCall(2) }
            if has("exp.f32") { return B::FCall(4) }
            if has("log.f32") { return B::FCall(5) }
            if has("exp.f64") { return B::FCall(6) }
            if has("log.f64") { return B::FCall(7) }
            if has("log2.f32") { return B::FCall(8) }
            if has("exp2.f32") { return B::FCall(9) }
            if has("powi.") { return B::Powi }
            if has("fma.") || has("fmuladd.") { return B::FMulAdd }
            if has("threadlocal.address") { return B::ThreadLocal }
            if has("trap") || has("ubsantrap") || has("debugtrap") { return B::Trap }
            if has("expect") { return B::Expect }
            if has("vector.reduce.") { for k in ["add", "mul", "and", "or", "xor", "umax", "umin", "smax", "smin"] { if i["vector.reduce.".len()..].starts_with(k) { return B::VReduce(k) } } }
            if has("is.constant") { return B::IsConst }
            return B::Ext("?");
        }
        if self.m.func_of_sym.contains_key(&sym) { return B::None }
        const EXT: &[&str] = &["sym_bytes", "sym_choice", "sym_case", "sym_assume", "sym_assert", "sym_eq", "sym_cover", "sym_file", "sym_enter", "sym_leave", "sym_note", "sym_fclose", "sym_concrete", "sym_feq",
            "malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "bcmp", "memcmp", "strlen", "memchr",
            "_Unwind_RaiseException", "_Unwind_DeleteException", "abort", "__errno_location", "syscall", "getenv", "getcwd", "write", "writev", "read", "open64", "open", "close", "lseek64", "fstat64", "stat64", "statx", "getrandom", "fcntl", "fcntl64", "gettid",
            "__cxa_thread_atexit_impl", "pthread_key_create", "pthread_key_delete", "pthread_setspecific", "pthread_getspecific", "clock_gettime", "_Unwind_Backtrace", "sched_yield", "exit", "_exit", "fmodf", "fmod"];
        for e in EXT { if *e == n { return B::Ext(e) } }
        for (k, f) in FCALLS.iter().enumerate() { if *f == n { return B::FCall(k as u32) } }
        for (nm, k) in [("floorf", FUn::Floor), ("floor", FUn::Floor), ("ceilf", FUn::Ceil), ("ceil", FUn::Ceil), ("truncf", FUn::Trunc), ("trunc", FUn::Trunc), ("roundf", FUn::Round), ("round", FUn::Round), ("rintf", FUn::Rint), ("rint", FUn::Rint), ("sqrtf", FUn::Sqrt), ("sqrt", FUn::Sqrt)] { if nm == n { return B::F1(k) } }
        if n == "fminf" || n == "fmin" { return B::FMin }
        if n == "fmaxf" || n == "fmax" { return B::FMax }
        if n == "memcpy" || n == "memmove" { return B::Memcpy }
        if n == "memset" { return B::Memset }
        B::Ext("?")
    }

    fn vec1(&mut self, args: &[Val], f: &mut dyn FnMut(&mut Engine, &[Val]) -> R<Val>) -> R<Val> {
        // apply lane-wise when the first argument is a vector
        if let Val::A(l) = &args[0] {
            let mut out = vec![];
            for i in 0..l.len() { let a: Vec<Val> = args.iter().map(|x| match x { Val::A(v) => v[i].clone(), o => o.clone() }).collect(); out.push(f(self, &a)?) }
            return Ok(Val::A(Rc::new(out)));
        }
        f(self, args)
    }

    pub fn call_builtin(&mut self, st: &mut State, b: B, sym: u32, ci: &CallInfo, args: &[Val]) -> R<Ret> {
        let w0 = if ci.args.is_empty() { 0 } else { match self.m.tys[ci.args[0].0 as usize] { Ty::Int(w) => w, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, Ty::Vector(_, e) => self.m.width(e), _ => 0 } };
        let m = mask64(w0);
        let v = match b {
            B::None => return Ok(Ret::Call),
            B::Nop => Val::C(0),
            B::Assume => Val::C(0),
            B::Expect => args[0].clone(),
            B::IsConst => Val::C(0),
            B::ThreadLocal => args[0].clone(),
            B::Trap => return Err(Stop::Fail("the process traps".into())),
            B::Memcpy => { self.memcpy(st, &args[0], &args[1], &args[2])?; args[0].clone() }
            B::Memset => {
                let n = self.cz(st, &args[2])?;
                if n > 0 {
                    let d = self.cz(st, &args[0])?;
                    let (id, off) = (d >> 32, (d & 0xffff_ffff) as usize);
                    let ok = match st.mem.get(id) { Some(o) => off + n as usize <= o.bytes.len() && !o.constant, None => false };
                    if !ok { return Err(Stop::Fail(format!("memory error: fill of {} bytes at object {} offset {}", n, id, off))) }
                    let o = st.mem.get_mut(id).unwrap();
                    match &args[1] {
                        Val::C(x) => {
                            for t in &mut o.bytes[off..off + n as usize] { *t = *x as u8 }
                            if let Some(s) = &mut o.sym { for c in &mut s[off..off + n as usize] { c.e = NOEXPR } }
                        }
                        Val::E(e) => { let e = if width(*e) == 8 { *e } else { extract(*e, 0, 8) }; for k in 0..n as usize { o.store(off + k, 1, &norm(e)) } }
                        _ => return eng("memset"),
                    }
                }
                args[0].clone()
            }
            B::AddOv(s) | B::SubOv(s) | B::MulOv(s) => {
                if let (Val::C(x), Val::C(y)) = (&args[0], &args[1]) {
                    let (r, o) = if s {
                        let (x, y) = (sext64(*x, w0) as i128, sext64(*y, w0) as i128);
                        let r = match b { B::AddOv(_) => x + y, B::SubOv(_) => x - y, _ => x * y };
                        let rt = (r as u64) & m;
                        (rt, sext64(rt, w0) as i128 != r)
                    } else {
                        let (x, y) = (*x as u128, *y as u128);
                        match b { B::AddOv(_) => { let r = x + y; ((r as u64) & m, r > m as u128) } B::SubOv(_) => ((x.wrapping_sub(y) as u64) & m, y > x), _ => { let r = x * y; ((r as u64) & m, r > m as u128) } }
                    };
                    Val::A(Rc::new(vec![Val::C(r), Val::C(o as u64)]))
                } else {
                    let (x, y) = (self.ex(&args[0], w0), self.ex(&args[1], w0));
                    let op = match b { B::AddOv(_) => BinOp::Add, B::SubOv(_) => BinOp::Sub, _ => BinOp::Mul };
                    let r = bin(op, x, y);
                    let (ix, iy) = (info(x), info(y));
                    let o = if s {
                        let lim = 1i128 << (w0 - 1);
                        let c = match op {
                            BinOp::Add => (ix.slo + iy.slo, ix.shi + iy.shi),
                            BinOp::Sub => (ix.slo - iy.shi, ix.shi - iy.slo),
                            _ => { let p = [ix.slo.checked_mul(iy.slo), ix.slo.checked_mul(iy.shi), ix.shi.checked_mul(iy.slo), ix.shi.checked_mul(iy.shi)]; if p.iter().any(|x| x.is_none()) { (i128::MIN, i128::MAX) } else { (p.iter().map(|x| x.unwrap()).min().unwrap(), p.iter().map(|x| x.unwrap()).max().unwrap()) } }
                        };
                        if c.0 >= -lim && c.1 < lim { fls() } else {
                            let ww = if op == BinOp::Mul { 2 * w0 } else { w0 + 1 };
                            let wide = bin(op, sext(x, ww), sext(y, ww));
                            expr::not(eq(sext(r, ww), wide))
                        }
                    } else {
                        match op {
                            BinOp::Add => if ix.uhi + iy.uhi <= m as u128 { fls() } else if ix.ulo + iy.ulo > m as u128 { tru() } else { let wide = bin(op, zext(x, w0 + 1), zext(y, w0 + 1)); extract(wide, w0, 1) },
                            BinOp::Sub => ult(x, y),
                            _ => match ix.uhi.checked_mul(iy.uhi) { Some(p) if p <= m as u128 => fls(), _ => { let wide = bin(op, zext(x, 2 * w0), zext(y, 2 * w0)); expr::not(eq(extract(wide, w0, w0), cst(w0, 0))) } },
                        }
                    };
                    Val::A(Rc::new(vec![norm(r), norm(o)]))
                }
            }
            B::UMin | B::UMax | B::SMin | B::SMax => self.vec1(args, &mut |en, a| {
                let p = match b { B::UMin => IPred::Ult, B::UMax => IPred::Ugt, B::SMin => IPred::Slt, _ => IPred::Sgt };
                let c = en.icmp(p, w0, &a[0], &a[1]);
                Ok(match c { Val::C(1) => a[0].clone(), Val::C(_) => a[1].clone(), Val::E(e) => norm(ite(e, en.ex(&a[0], w0), en.ex(&a[1], w0))), _ => unreachable!() })
            })?,
            B::Abs => self.vec1(args, &mut |en, a| {
                if let Val::C(x) = a[0] { return Ok(Val::C(sext64(x, w0).wrapping_abs() as u64 & m)) }
                let x = en.ex(&a[0], w0);
                Ok(norm(ite(slt(x, cst(w0, 0)), bin(BinOp::Sub, cst(w0, 0), x), x)))
            })?,
            B::UAddSat => self.vec1(args, &mut |en, a| {
                let (x, y) = (en.ex(&a[0], w0), en.ex(&a[1], w0));
                let r = bin(BinOp::Add, x, y);
                let ov = if info(x).uhi + info(y).uhi <= m as u128 { fls() } else { extract(bin(BinOp::Add, zext(x, w0 + 1), zext(y, w0 + 1)), w0, 1) };
                Ok(norm(ite(ov, cst(w0, m as u128), r)))
            })?,
            B::USubSat => self.vec1(args, &mut |en, a| { let (x, y) = (en.ex(&a[0], w0), en.ex(&a[1], w0)); Ok(norm(ite(ult(x, y), cst(w0, 0), bin(BinOp::Sub, x, y)))) })?,
            B::SAddSat | B::SSubSat => self.vec1(args, &mut |en, a| {
                let (x, y) = (sext(en.ex(&a[0], w0), w0 + 1), sext(en.ex(&a[1], w0), w0 + 1));
                let r = bin(if b == B::SAddSat { BinOp::Add } else { BinOp::Sub }, x, y);
                let (hi, lo) = (mask(w0) >> 1, (mask(w0 + 1) >> (w0 - 1)) << (w0 - 1));
                let t = ite(slt(cst(w0 + 1, hi), r), cst(w0 + 1, hi), ite(slt(r, cst(w0 + 1, lo)), cst(w0 + 1, lo), r));
                Ok(norm(extract(t, 0, w0)))
            })?,
            B::UShlSat => return eng("ushl.sat"),
            B::UCmp | B::SCmp => {
                let rw = self.m.width(ci.ret);
                let (lt, gt) = if b == B::UCmp { (self.icmp(IPred::Ult, w0, &args[0], &args[1]), self.icmp(IPred::Ugt, w0, &args[0], &args[1])) } else { (self.icmp(IPred::Slt, w0, &args[0], &args[1]), self.icmp(IPred::Sgt, w0, &args[0], &args[1])) };
                let (l, g) = (self.ex(&lt, 1), self.ex(&gt, 1));
                norm(ite(l, cst(rw, mask(rw)), ite(g, cst(rw, 1), cst(rw, 0))))
            }
            B::Ctlz => self.vec1(args, &mut |en, a| {
                if let Val::C(x) = a[0] { return Ok(Val::C(if x == 0 { w0 as u64 } else { x.leading_zeros() as u64 - (64 - w0 as u64) })) }
                let x = en.ex(&a[0], w0);
                let mut r = cst(w0, w0 as u128);
                for i in 0..w0 { r = ite(extract(x, i, 1), cst(w0, (w0 - 1 - i) as u128), r) }
                Ok(norm(r))
            })?,
            B::Cttz => self.vec1(args, &mut |en, a| {
                if let Val::C(x) = a[0] { return Ok(Val::C(if x == 0 { w0 as u64 } else { x.trailing_zeros() as u64 })) }
                let x = en.ex(&a[0], w0);
                let mut r = cst(w0, w0 as u128);
                for i in (0..w0).rev() { r = ite(extract(x, i, 1), cst(w0, i as u128), r) }
                Ok(norm(r))
            })?,
            B::Ctpop => self.vec1(args, &mut |en, a| {
                if let Val::C(x) = a[0] { return Ok(Val::C(x.count_ones() as u64)) }
                let x = en.ex(&a[0], w0);
                let mut r = cst(w0, 0);
                for i in 0..w0 { r = bin(BinOp::Add, r, zext(extract(x, i, 1), w0)) }
                Ok(norm(r))
            })?,
            B::Bswap => self.vec1(args, &mut |en, a| { let x = en.ex(&a[0], w0); let n = w0 / 8; let ps: Vec<ExprId> = (0..n).rev().map(|i| extract(x, i * 8, 8)).collect(); Ok(norm(concat(&ps))) })?,
            B::Bitrev => self.vec1(args, &mut |en, a| { let x = en.ex(&a[0], w0); let ps: Vec<ExprId> = (0..w0).rev().map(|i| extract(x, i, 1)).collect(); Ok(norm(concat(&ps))) })?,
            B::Fshl | B::Fshr => self.vec1(args, &mut |en, a| {
                let (x, y) = (en.ex(&a[0], w0), en.ex(&a[1], w0));
                match &a[2] {
                    Val::C(s) => {
                        let s = (*s % w0 as u64) as u32;
                        let both = concat(&[y, x]); // x is the high half
                        Ok(norm(if b == B::Fshl { if s == 0 { x } else { extract(both, w0 - s, w0) } } else { extract(both, s, w0) }))
                    }
                    s => {
                        let s = en.ex(s, w0);
                        if !w0.is_power_of_two() { return eng("funnel shift of odd width") }
                        let k = bin(BinOp::And, s, cst(w0, w0 as u128 - 1));
                        let both = concat(&[y, x]); let k2 = zext(k, 2 * w0);
                        Ok(norm(if b == B::Fshl { extract(bin(BinOp::Shl, both, k2), w0, w0) } else { extract(bin(BinOp::LShr, both, k2), 0, w0) }))
                    }
                }
            })?,
            B::FPClass => {
                let m = match &args[1] { Val::C(m) => *m as u32, _ => return eng("is.fpclass of a symbolic class") };
                let x = self.ex(&args[0], w0);
                let (mb, eb) = if w0 == 32 { (23, 8) } else { (52, 11) };
                let (man, ex, neg) = (extract(x, 0, mb), extract(x, mb, eb), extract(x, w0 - 1, 1));
                let (m0, e0, e1) = (eq(man, cst(mb, 0)), eq(ex, cst(eb, 0)), eq(ex, cst(eb, mask(eb))));
                let q = extract(x, mb - 1, 1);
                let pos = expr::not(neg);
                let normal = and1(expr::not(e0), expr::not(e1)); let sub = and1(e0, expr::not(m0)); let zero = and1(e0, m0); let inf = and1(e1, m0); let nan = and1(e1, expr::not(m0));
                let mut r = fls();
                for (bit, c) in [(1u32, and1(nan, expr::not(q))), (2, and1(nan, q)), (4, and1(neg, inf)), (8, and1(neg, normal)), (16, and1(neg, sub)), (32, and1(neg, zero)), (64, and1(pos, zero)), (128, and1(pos, sub)), (256, and1(pos, normal)), (512, and1(pos, inf))] { if m & bit != 0 { r = or1(r, c) } }
                norm(r)
            }
            B::FPToUISat | B::FPToSISat => { let tw = match self.m.tys[ci.ret as usize] { Ty::Vector(_, e) => self.m.width(e), _ => self.m.width(ci.ret) }; self.vec1(args, &mut |en, a| { let x = en.ex(&a[0], w0); Ok(norm(fto(b == B::FPToSISat, x, tw))) })? }
            B::F1(k) => self.vec1(args, &mut |en, a| { let x = en.ex(&a[0], w0); Ok(norm(funary(k, x))) })?,
            B::FAbs => self.vec1(args, &mut |en, a| { let x = en.ex(&a[0], w0); Ok(norm(concat(&[extract(x, 0, w0 - 1), cst(1, 0)]))) })?,
            B::FCopysign => self.vec1(args, &mut |en, a| { let (x, y) = (en.ex(&a[0], w0), en.ex(&a[1], w0)); Ok(norm(concat(&[extract(x, 0, w0 - 1), extract(y, w0 - 1, 1)]))) })?,
            B::FMin | B::FMax => self.vec1(args, &mut |en, a| { let (x, y) = (en.ex(&a[0], w0), en.ex(&a[1], w0)); Ok(norm(fminmax(b == B::FMax, x, y))) })?,
            B::FCall(k) => { let x = self.ex(&args[0], w0); let y = if args.len() > 1 { self.ex(&args[1], w0) } else { cst(w0, 0) }; norm(fcall(k, x, y)) }
            B::Powi => match (&args[0], &args[1]) { (Val::C(x), Val::C(n)) => { let n = sext64(*n, 32) as i32; if w0 == 32 { Val::C(f32::from_bits(*x as u32).powi(n).to_bits() as u64) } else { Val::C(f64::from_bits(*x).powi(n).to_bits()) } } _ => return eng("powi of a symbolic value") },
            B::FMulAdd => match (&args[0], &args[1], &args[2]) { (Val::C(x), Val::C(y), Val::C(z)) => if w0 == 32 { Val::C(f32::from_bits(*x as u32).mul_add(f32::from_bits(*y as u32), f32::from_bits(*z as u32)).to_bits() as u64) } else { Val::C(f64::from_bits(*x).mul_add(f64::from_bits(*y), f64::from_bits(*z)).to_bits()) }, _ => return eng("fma of symbolic values") },
            B::VReduce(k) => {
                let l = match &args[0] { Val::A(l) => l.clone(), _ => return eng("reduce") };
                let mut acc = l[0].clone();
                for x in l[1..].iter() {
                    acc = match k {
                        "add" => self.binop(BinOp::Add, w0, &acc, x)?, "mul" => self.binop(BinOp::Mul, w0, &acc, x)?, "and" => self.binop(BinOp::And, w0, &acc, x)?, "or" => self.binop(BinOp::Or, w0, &acc, x)?, "xor" => self.binop(BinOp::Xor, w0, &acc, x)?,
                        _ => { let p = match k { "umax" => IPred::Ugt, "umin" => IPred::Ult, "smax" => IPred::Sgt, _ => IPred::Slt }; let c = self.icmp(p, w0, &acc, x); let ce = self.ex(&c, 1); let (u, v) = (self.ex(&acc, w0), self.ex(x, w0)); norm(ite(ce, u, v)) }
                    }
                }
                acc
            }
            B::PMovMskB | B::FClass => return eng("intrinsic"),
            B::Ext(name) => return self.call_ext(st, name, sym, ci, args),
        };
        Ok(Ret::Val(v))
    }

    fn text(&mut self, st: &mut State, p: &Val, n: &Val) -> R<String> {
        let (p, n) = (self.cz(st, p)?, self.cz(st, n)?);
        let b = self.read_bytes(st, p, n)?;
        Ok(String::from_utf8_lossy(&b).to_string())
    }
    fn alloc(&mut self, st: &mut State, n: u64) -> R<u64> {
        if n > MAX_ALLOC { return Err(Stop::Fail(format!("allocation of {} bytes (more than {})", n, MAX_ALLOC))) }
        if st.mem.live + n > 6 << 30 { return eng("memory of a path exceeds 6 GiB") }
        Ok(st.mem.alloc(n, true))
    }
    fn errno(&mut self, st: &mut State, e: u64) -> R<()> { self.store_c(st, ERRNO_OBJ << 32, 4, &Val::C(e)) }

    fn add_assert(&mut self, st: &mut State, c: ExprId, msg: String) -> R<()> {
        self.asserts += 1;
        match as_const(c) {
            Some(1) => { self.asserts_rewrite += 1; Ok(()) }
            Some(_) => { self.flush(st)?; Err(Stop::Fail(msg)) }
            None => { st.pending.push((c, msg)); if st.pending.len() > 4096 { self.flush(st)?; } Ok(()) }
        }
    }

    fn call_ext(&mut self, st: &mut State, name: &'static str, sym: u32, ci: &CallInfo, args: &[Val]) -> R<Ret> {
        let rw = match self.m.tys[ci.ret as usize] { Ty::Int(w) => w, Ty::Ptr => 64, _ => 0 };
        let neg1 = Val::C(mask64(rw));
        let v = match name {
            "sym_bytes" => {
                let (p, n) = (self.cz(st, &args[0])?, self.cz(st, &args[1])?);
                if let Some(ins) = &self.concrete {
                    let b = match ins.get(st.inputs.len()) { Some(Input2::Bytes(b)) if b.len() as u64 == n => b.clone(), _ => return eng("replay: inputs do not match") };
                    for (k, x) in b.iter().enumerate() { self.store_c(st, p + k as u64, 1, &Val::C(*x as u64))?; }
                    st.inputs.push(Input::Bytes(b.iter().map(|x| cst(8, *x as u128)).collect()));
                    Val::C(0)
                } else {
                    self.sym_live = true;
                    let mut es = Vec::with_capacity(n as usize);
                    for k in 0..n {
                        let i = st.nsym as usize; st.nsym += 1;
                        while self.symvars.len() <= i { let x = var(&format!("s{}", self.symvars.len()), 8); self.symvars.push(x) }
                        let e = self.symvars[i];
                        es.push(e);
                        self.store_c(st, p + k, 1, &Val::E(e))?;
                    }
                    st.inputs.push(Input::Bytes(es));
                    Val::C(0)
                }
            }
            "sym_choice" | "sym_case" => {
                let n = self.cz(st, &args[0])?;
                if n == 0 { return Err(Stop::Infeasible) }
                if let Some(ins) = &self.concrete {
                    let c = match ins.get(st.inputs.len()) { Some(Input2::Choice(c)) => *c, _ => return eng("replay: inputs do not match") };
                    st.inputs.push(Input::Choice(c));
                    return Ok(Ret::Val(Val::C(c)));
                }
                if let Some(c) = st.forced.take() { st.inputs.push(Input::Choice(c)); return Ok(Ret::Val(Val::C(c))) }
                if name == "sym_case" && self.master {
                    self.flush(st)?;
                    for c in 0..n { if let Some(only) = &self.cases { if !only.contains(&c) { continue } } let mut s = st.clone(); s.forced = Some(c); self.queue.push((c, s)) }
                    return Err(Stop::Split);
                }
                for c in (1..n).rev() { let mut s = st.clone(); s.forced = Some(c); self.work.push(s) }
                if n > 1 { self.choice_forks += n - 1; }
                st.inputs.push(Input::Choice(0));
                Val::C(0)
            }
            "sym_assume" => {
                match &args[0] {
                    Val::C(x) => if x & 1 == 0 { return Err(Stop::Infeasible) },
                    Val::E(e) => {
                        let e = if width(*e) == 1 { *e } else { extract(*e, 0, 1) };
                        self.flush(st)?;
                        match self.model_ok(st, e) {
                            Some(true) => st.pc.push(e),
                            _ => match self.solver.sat(&st.pc, e) {
                                crate::solver::Res::Sat(mo) => { st.pc.push(e); let mo = self.complete(st, mo); st.model = Some(Rc::new(mo)); }
                                crate::solver::Res::Unsat => return Err(Stop::Infeasible),
                                crate::solver::Res::Unknown(u) => return eng(format!("solver inconclusive on an assumption ({})", u)),
                            },
                        }
                    }
                    _ => return eng("assume"),
                }
                Val::C(0)
            }
            "sym_assert" => {
                let msg = self.text(st, &args[1], &args[2])?;
                let c = match &args[0] { Val::C(x) => cst(1, (*x & 1) as u128), Val::E(e) => if width(*e) == 1 { *e } else { extract(*e, 0, 1) }, _ => return eng("assert") };
                self.add_assert(st, c, msg)?;
                Val::C(0)
            }
            "sym_eq" => {
                let c = match (&args[0], &args[1]) { (Val::C(x), Val::C(y)) => cst(1, (x == y) as u128), _ => { let (x, y) = (self.ex(&args[0], 64), self.ex(&args[1], 64)); self.simplify_eq(eq(x, y)) } };
                if as_const(c) == Some(1) { self.asserts += 1; self.asserts_rewrite += 1; return Ok(Ret::Val(Val::C(0))) }
                let msg = self.text(st, &args[2], &args[3])?;
                self.add_assert(st, c, msg)?;
                Val::C(0)
            }
            "sym_feq" => {
                // equality of two f32 as numbers (NaN equals NaN), decided structurally first
                let (x, y) = (self.ex(&args[0], 32), self.ex(&args[1], 32));
                let c = if x == y { tru() } else { let both = and1(fcmp(8, x, x), fcmp(8, y, y)); or1(or1(eq(x, y), fcmp(1, x, y)), both) };
                if as_const(c) == Some(1) { self.asserts += 1; self.asserts_rewrite += 1; return Ok(Ret::Val(Val::C(0))) }
                let msg = self.text(st, &args[2], &args[3])?;
                self.add_assert(st, c, msg)?;
                Val::C(0)
            }
            "sym_fclose" => {
                let msg = self.text(st, &args[3], &args[4])?;
                let (x, y, t) = (self.ex(&args[0], 32), self.ex(&args[1], 32), self.ex(&args[2], 32));
                let tol = match as_const(t) { Some(b) => f32::from_bits(b as u32) as f64, None => return eng("symbolic tolerance") };
                self.asserts += 1;
                if x == y { self.asserts_rewrite += 1 } else { self.fclose(st, x, y, tol, msg)? }
                Val::C(0)
            }
            "sym_concrete" => { Val::C(match &args[0] { Val::C(_) => 1, _ => 0 }) }
            "sym_cover" => {
                let msg = self.text(st, &args[0], &args[1])?;
                st.covers.push(msg.clone());
                *self.covered.entry(msg).or_insert(0) += 1;
                Val::C(0)
            }
            "sym_note" => { let msg = self.text(st, &args[0], &args[1])?; let x = match &args[2] { Val::C(x) => format!("{}", x), Val::E(e) => { let i = info(*e); format!("symbolic[{:#x}..{:#x}]", i.ulo, i.uhi) } _ => "?".into() }; self.notes.push(format!("{}={}", msg, x)); if self.verbose { eprintln!("note {}={}", msg, x); } Val::C(0) }
            // between the two the program runs in a process of its own: what it leaves in static variables is undone
            "sym_enter" => { st.snap = Some(Rc::new(st.mem.clone())); Val::C(0) }
            "sym_leave" => {
                let old = match st.snap.take() { Some(o) => o, None => return Err(Stop::Engine("sym_leave without sym_enter".into())) };
                for g in &self.m.globals {
                    if g.constant { continue }
                    let id = SYM_BASE + g.sym as u64;
                    if let Some(o) = old.get_rc(id) { st.mem.put_rc(id, o) }
                }
                Val::C(0)
            }
            "sym_file" => {
                let (p, n) = (self.cz(st, &args[0])?, self.cz(st, &args[1])?);
                let (id, off) = (p >> 32, (p & 0xffff_ffff) as usize);
                let (b, c) = if n == 0 { (vec![], None) } else { st.mem.get(id).unwrap().cells(off, n as usize) };
                st.vfile = Some((Rc::new(b), c.map(Rc::new)));
                st.vpos = 0;
                Val::C(0)
            }
            "malloc" => { let n = self.cz(st, &args[0])?; Val::C(self.alloc(st, n)?) }
            "calloc" => { let (a, b) = (self.cz(st, &args[0])?, self.cz(st, &args[1])?); let n = match a.checked_mul(b) { Some(n) => n, None => return Ok(Ret::Val(Val::C(0))) }; Val::C(self.alloc(st, n)?) }
            "aligned_alloc" => { let n = self.cz(st, &args[1])?; Val::C(self.alloc(st, n)?) }
            "posix_memalign" => { let n = self.cz(st, &args[2])?; let p = self.alloc(st, n)?; self.store(st, &args[0], 8, 64, &Val::C(p))?; Val::C(0) }
            "realloc" => {
                let (p, n) = (self.cz(st, &args[0])?, self.cz(st, &args[1])?);
                let q = self.alloc(st, n)?;
                if p != 0 {
                    let old = match st.mem.get(p >> 32) { Some(o) if o.heap && p & 0xffff_ffff == 0 => o.bytes.len() as u64, _ => return Err(Stop::Fail("realloc of an invalid pointer".into())) };
                    let k = old.min(n);
                    self.memcpy(st, &Val::C(q), &Val::C(p), &Val::C(k))?;
                    st.mem.remove(p >> 32);
                }
                Val::C(q)
            }
            "free" => {
                let p = self.cz(st, &args[0])?;
                if p != 0 {
                    let ok = match st.mem.get(p >> 32) { Some(o) => o.heap && p & 0xffff_ffff == 0, None => false };
                    if !ok { return Err(Stop::Fail("free of an invalid pointer".into())) }
                    st.mem.remove(p >> 32);
                }
                Val::C(0)
            }
            "bcmp" | "memcmp" => {
                let n = self.cz(st, &args[2])?;
                let (a, b) = if n == 0 { (0, 0) } else { (self.cz(st, &args[0])?, self.cz(st, &args[1])?) };
                let mut r = cst(32, 0);
                let mut all = tru();
                for k in (0..n).rev() {
                    let (x, y) = (self.load_c(st, a + k, 1, 8)?, self.load_c(st, b + k, 1, 8)?);
                    if name == "bcmp" {
                        let c = self.icmp(IPred::Eq, 8, &x, &y); let ce = self.ex(&c, 1);
                        all = and1(all, ce);
                        if all == fls() { break }
                    } else {
                        let (x, y) = (self.ex(&x, 8), self.ex(&y, 8));
                        r = ite(eq(x, y), r, ite(ult(x, y), cst(32, 0xffff_ffff), cst(32, 1)));
                    }
                }
                if name == "bcmp" { norm(ite(all, cst(32, 0), cst(32, 1))) } else { norm(r) }
            }
            "memchr" => {
                let (a, n) = (self.cz(st, &args[0])?, self.cz(st, &args[2])?);
                let ch = match &args[1] { Val::C(x) => Val::C(x & 0xff), Val::E(e) => norm(extract(*e, 0, 8)), _ => return eng("memchr") };
                let mut r = cst(64, 0);
                for k in (0..n).rev() { let x = self.load_c(st, a + k, 1, 8)?; let c = self.icmp(IPred::Eq, 8, &x, &ch); let ce = self.ex(&c, 1); r = ite(ce, cst(64, (a + k) as u128), r) }
                norm(r)
            }
            "strlen" => { let a = self.cz(st, &args[0])?; let mut k = 0; loop { let x = self.load_c(st, a + k, 1, 8)?; if self.cz(st, &x)? == 0 { break } k += 1 } Val::C(k) }
            "_Unwind_RaiseException" => return Ok(Ret::Unwind(args[0].clone())),
            "_Unwind_DeleteException" => Val::C(0),
            "_Unwind_Backtrace" => Val::C(5),
            "abort" => return Err(Stop::Fail("the process aborts".into())),
            "exit" | "_exit" => return Err(Stop::Fail("the process exits".into())),
            "__errno_location" => Val::C(ERRNO_OBJ << 32),
            "syscall" => {
                let nr = self.cz(st, &args[0])?;
                if nr == 202 { let op = self.cz(st, &args[2])? & 0x7f; if op == 1 { Val::C(0) } else { return eng("futex wait: the single thread would block") } } else { self.errno(st, 38)?; neg1 }
            }
            "getenv" | "getcwd" => Val::C(0),
            "write" => args[2].clone(),
            "writev" => {
                let (p, n) = (self.cz(st, &args[1])?, self.cz(st, &args[2])?);
                let mut t = 0; for k in 0..n { let x = self.load_c(st, p + 16 * k + 8, 8, 64)?; t += self.cz(st, &x)? }
                Val::C(t)
            }
            "open64" | "open" => { if st.vfile.is_some() { st.vpos = 0; Val::C(7) } else { self.errno(st, 2)?; neg1 } }
            "close" => Val::C(0),
            "read" => {
                let (fd, p, n) = (self.cz(st, &args[0])?, self.cz(st, &args[1])?, self.cz(st, &args[2])?);
                if fd != 7 || st.vfile.is_none() { self.errno(st, 9)?; neg1 } else {
                    let (b, c) = st.vfile.clone().unwrap();
                    let k = n.min(b.len() as u64 - st.vpos);
                    if k > 0 {
                        let lo = st.vpos as usize; let hi = lo + k as usize;
                        let (id, off) = (p >> 32, (p & 0xffff_ffff) as usize);
                        match st.mem.get_mut(id) { Some(o) if off + k as usize <= o.bytes.len() => o.set_cells(off, &b[lo..hi], c.as_ref().map(|c| &c[lo..hi])), _ => return Err(Stop::Fail("read() into an invalid buffer".into())) }
                        st.vpos += k;
                    }
                    Val::C(k)
                }
            }
            "lseek64" => Val::C(st.vpos),
            "statx" => { self.errno(st, 38)?; neg1 }
            "stat64" => { self.errno(st, 2)?; neg1 }
            "fstat64" => {
                let p = self.cz(st, &args[1])?;
                let sz = st.vfile.as_ref().map(|v| v.0.len() as u64).unwrap_or(0);
                for k in 0..18 { self.store_c(st, p + 8 * k, 8, &Val::C(0))?; }
                self.store_c(st, p + 24, 4, &Val::C(0o100644))?;
                self.store_c(st, p + 48, 8, &Val::C(sz))?;
                Val::C(0)
            }
            "getrandom" => { let (p, n) = (self.cz(st, &args[0])?, self.cz(st, &args[1])?); for k in 0..n { self.store_c(st, p + k, 1, &Val::C((k * 37 + 11) & 0xff))?; } Val::C(n) }
            "fcntl" | "fcntl64" => Val::C(0),
            "gettid" => Val::C(1),
            "__cxa_thread_atexit_impl" => Val::C(0),
            "pthread_key_create" => { self.store(st, &args[0], 4, 32, &Val::C(1))?; Val::C(0) }
            "pthread_key_delete" | "pthread_setspecific" | "pthread_getspecific" | "sched_yield" => Val::C(0),
            "clock_gettime" => { st.clock += 1000; let p = self.cz(st, &args[1])?; let c = st.clock; self.store_c(st, p, 8, &Val::C(c / 1_000_000_000))?; self.store_c(st, p + 8, 8, &Val::C(c % 1_000_000_000))?; Val::C(0) }
            "fmodf" | "fmod" => { let w = if name == "fmodf" { 32 } else { 64 }; let (x, y) = (self.ex(&args[0], w), self.ex(&args[1], w)); norm(fbin(FOp::Rem, x, y)) }
            _ => return eng(format!("call of an unmodelled function: {}", self.m.syms[sym as usize])),
        };
        Ok(Ret::Val(v))
    }

    // equalities through linear normal forms
    fn simplify_eq(&mut self, c: ExprId) -> ExprId {
        if let N::Eq(a, b) = node(c).clone() {
            if let Some(r) = self.forms.equal(a, b) { if is_const(r) { return r } }
            let (x, y) = (self.forms.canon(a), self.forms.canon(b));
            if x == y { return tru() }
            let r = self.forms.equal(x, y);
            let r = r.unwrap_or_else(|| eq(x, y));
            if !is_const(r) {
                // the samples both sides are made of may be anything
                let mut last = None;
                for level in 0..3 {
                    if let Some((p, q)) = crate::lin::cut(a, b, level, &mut self.cuts) {
                        let n = not(eq(p, q));
                        if n == fls() { return tru() }
                        if last == Some(n) { continue }
                        last = Some(n);
                        if let crate::solver::Res::Unsat = self.solver.check(&[n]) { return tru() }
                        if self.verbose { eprintln!("cut {} {}", level, show(n, 12)) }
                    }
                }
            }
            if self.verbose && !is_const(r) { eprintln!("eq {}", show(r, if std::env::var_os("SYMIR_RANGE").is_some() { 20 } else { 9 })) }
            return r
        }
        c
    }
    // |x - y| <= tol for all values
    fn fclose(&mut self, st: &mut State, x: ExprId, y: ExprId, tol: f64, msg: String) -> R<()> {
        let w = width(x);
        let t = |v: f64| if w == 32 { cst(32, (v as f32).to_bits() as u128) } else { cst(64, v.to_bits() as u128) };
        let d = fbin(FOp::Sub, x, y);
        // ordered: -tol <= d <= tol
        let c = and1(fcmp(1 | 4, d, t(tol)), fcmp(1 | 2, d, t(-tol)));
        if self.verbose { eprintln!("close {} {}", show(x, 14), show(y, 9)) }
        match as_const(c) { Some(1) => { self.asserts_rewrite += 1; Ok(()) } Some(_) => { self.flush(st)?; Err(Stop::Fail(msg)) } None => { st.pending.push((c, msg)); Ok(()) } }
    }
}
