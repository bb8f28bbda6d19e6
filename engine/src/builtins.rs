//! Models of libc / runtime functions, LLVM intrinsics and the harness interface.
use crate::exec::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::Res;
use crate::term::*;
use std::rc::Rc;

const NAMES: &[&str] = &[
    "?", "malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen", "memchr", "memrchr",
    "write", "writev", "abort", "exit", "_exit", "__errno_location", "sched_yield", "getenv", "sysconf", "syscall", "__cxa_thread_atexit_impl", "__cxa_atexit", "getpid", "gettid",
    "pthread_self", "pthread_key_create", "pthread_key_delete", "pthread_setspecific", "pthread_getspecific", "signal", "sigaction", "sigaltstack", "isatty", "open", "open64", "read", "close", "getcwd", "gnu_get_libc_version",
    "__sx_any", "__sx_assume", "__sx_check", "__sx_reach", "__sx_note", "__sx_choose", "__sx_thread_new", "__sx_switch", "__sx_concretize", "__sx_symbolic", "__sx_is_sym", "__sx_end", "__sx_dbg",
    "#panic_fmt", "#panic", "__rust_no_alloc_shim_is_unstable_v2", "__sx_violation", "poll", "dl_iterate_phdr", "sched_getaffinity", "getauxval", "__sx_cstr_eq", "mmap", "munmap", "mprotect", "dlsym",
];
const INTRS: &[&str] = &[
    "memcpy", "memmove", "memset", "umin", "umax", "smin", "smax", "abs", "ctlz", "cttz", "ctpop", "bswap", "bitreverse", "fshl", "fshr",
    "sadd.with.overflow", "uadd.with.overflow", "ssub.with.overflow", "usub.with.overflow", "smul.with.overflow", "umul.with.overflow",
    "sadd.sat", "uadd.sat", "ssub.sat", "usub.sat", "expect", "threadlocal.address", "trap", "debugtrap", "ubsantrap", "is.constant", "objectsize", "ptrmask", "stacksave", "stackrestore",
    "fabs", "floor", "ceil", "trunc", "sqrt", "round", "rint", "nearbyint", "roundeven", "copysign", "minnum", "maxnum", "minimumnum", "maximumnum", "fptosi.sat", "fptoui.sat", "fma", "fmuladd",
    "vector.reduce.or", "vector.reduce.and", "vector.reduce.add", "vector.reduce.xor", "vector.reduce.umax", "vector.reduce.umin", "x86.sse2.pmovmskb.128", "ucmp", "scmp", "load.relative", "type.test", "public.type.test", "frameaddress", "returnaddress",
    "x86.sse2.pause", "smul.fix", "launder.invariant.group", "strip.invariant.group", "annotation", "ssa.copy", "is.fpclass", "x86.ssse3.pshuf.b.128", "vector.reduce.smax", "vector.reduce.smin", "vector.reduce.mul", "memcpy.inline", "memset.inline", "expect.with.probability", "pdep", "va_start", "va_end", "ptr.annotation",
];
fn base(n: &str) -> &str {
    // strip "llvm." and the trailing type suffixes
    let s = &n[5..];
    if let Some(x) = INTRS.iter().filter(|i| s == **i || (s.starts_with(**i) && s.as_bytes()[i.len()] == b'.')).max_by_key(|i| i.len()) { return x; }
    s
}
pub fn intr_id(n: &str) -> Option<u32> { let b = base(n); INTRS.iter().position(|x| *x == b).map(|x| x as u32) }
pub fn known(n: &str) -> bool { NAMES.contains(&n) }
pub fn id_of(n: &str, is_decl: bool) -> Option<u32> {
    let p = |s: &str| NAMES.iter().position(|x| *x == s).map(|x| x as u32);
    if n.starts_with("__sx_") || is_decl { if let Some(i) = p(n) { return Some(i); } }
    if !is_decl {
        if n.contains("4core9panicking9panic_fmt") || n.contains("4core9panicking18panic_nounwind_fmt") { return p("#panic_fmt"); }
        if n.contains("4core9panicking") && (n.contains("19panic_cannot_unwind") || n.contains("16panic_in_cleanup")) { return p("#panic"); }
        if n.ends_with("17rust_begin_unwind") || n.contains("3std9panicking15panic_with_hook") || n.contains("3std9panicking20rust_panic_with_hook") || n == "rust_panic" || n.contains("11begin_panic") || n.contains("5alloc5alloc18handle_alloc_error") { return p("#panic"); }
        if n == "memcpy" || n == "memmove" || n == "memset" || n == "memcmp" || n == "bcmp" || n == "strlen" { return p(n); }
        return None;
    }
    None
}

impl Ex {
    fn location(&mut self, st: &mut State, p: u64) -> String {
        let f = (|| -> Rs<String> {
            let a = match self.read_int(st, p, 64)? { V::I(x) => x, _ => 0 };
            let n = match self.read_int(st, p + 8, 64)? { V::I(x) => x, _ => 0 };
            let l = match self.read_int(st, p + 16, 32)? { V::I(x) => x, _ => 0 };
            if n > 500 { return Ok("?".into()); }
            let s = self.cstr_args(st, a, n)?;
            Ok(format!("{}:{}", s.trim_end_matches('\0'), l))
        })();
        f.unwrap_or_else(|_| "?".into())
    }
    pub fn builtin(&mut self, st: &mut State, id: u32, name: &str, args: &[V], c: &CallI) -> Rs<Option<V>> {
        let a = |i: usize| -> V { args[i].clone() };
        macro_rules! n { ($i:expr) => {{ let x = a($i); self.conc64(st, &x)? }}; }
        Ok(match NAMES[id as usize] {
            "malloc" => { let s = n!(0); Some(V::I(self.alloc(st, s, K_HEAP)?)) }
            "calloc" => { let s = n!(0); let k = n!(1); Some(V::I(self.alloc(st, s * k, K_HEAP)?)) }
            "aligned_alloc" => { let s = n!(1); Some(V::I(self.alloc(st, s, K_HEAP)?)) }
            "posix_memalign" => { let p = n!(0); let s = n!(2); self.acc(st, p, 8, "store")?; let x = self.alloc(st, s, K_HEAP)?; self.write_int(st, p, &V::I(x), 64)?; Some(V::I(0)) }
            "realloc" => {
                let p = n!(0); let s = n!(1);
                if p == 0 { return Ok(Some(V::I(self.alloc(st, s, K_HEAP)?))); }
                let (i, o) = self.acc(st, p, 0, "realloc")?;
                if o != 0 { return viol("memory", "realloc of an interior pointer"); }
                let old = st.mem.get(i).unwrap().size;
                let x = self.alloc(st, s, K_HEAP)?;
                self.copy(st, x, p, old.min(s))?;
                st.mem.free(i);
                Some(V::I(x))
            }
            "free" => {
                let p = n!(0);
                if p != 0 {
                    let (i, o) = (p >> OFF_BITS, p & OFF_MASK);
                    match st.mem.get(i) {
                        Some(ob) if ob.kind == K_HEAP && o == 0 => { st.mem.free(i); }
                        _ => return viol("memory", format!("invalid or double free of {:#x}", p)),
                    }
                }
                None
            }
            "memcpy" | "memmove" => { let k = n!(2); let d = n!(0); let s = n!(1); self.copy(st, d, s, k)?; Some(V::I(d)) }
            "memset" => { let k = n!(2); let d = n!(0); self.memset(st, d, &a(1), k)?; Some(V::I(d)) }
            "memcmp" | "bcmp" => { let k = n!(2); let p = n!(0); let q = n!(1); Some(self.memcmp(st, p, q, k, NAMES[id as usize] == "bcmp")?) }
            "strlen" => {
                let p = n!(0);
                let mut i = 0;
                loop { let b = self.read_int(st, p + i, 8)?; if self.conc64(st, &b)? == 0 { break; } i += 1; }
                Some(V::I(i))
            }
            "memchr" | "memrchr" => {
                let p = n!(0); let k = n!(2);
                let ch = a(1);
                let ch = match ch { V::I(x) => V::I(x & 255), V::S(t) => { let t = self.ts.extract(t, 0, 8); self.val(t) } x => x };
                let rev = NAMES[id as usize] == "memrchr";
                let mut r = V::I(0);
                let it: Vec<u64> = if rev { (0..k).collect() } else { (0..k).rev().collect() };
                for i in it {
                    let b = self.read_int(st, p + i, 8)?;
                    let e = self.icmp(32, 8, &b, &ch);
                    r = self.sel(&e, &Ty::Ptr, &V::I(p + i), &r)?;
                }
                Some(r)
            }
            "write" => { let p = n!(1); let k = n!(2); let _ = n!(0); let s = self.cstr_args(st, p, k)?; if self.trace { eprint!("{}", s); } Some(V::I(k)) }
            "writev" => {
                let p = n!(1); let k = n!(2);
                let mut tot = 0;
                for i in 0..k { let l = self.read_int(st, p + 16 * i + 8, 64)?; let b = self.read_int(st, p + 16 * i, 64)?; let l = self.conc64(st, &l)?; let b = self.conc64(st, &b)?; if self.trace { let s = self.cstr_args(st, b, l)?; eprint!("{}", s); } tot += l; }
                Some(V::I(tot))
            }
            "abort" => return viol("abort", "the program aborts"),
            "exit" | "_exit" => return viol("abort", "the program exits"),
            "__errno_location" => {
                let g = u32::MAX;
                let th = &st.threads[st.cur];
                let o = match th.tls.get(&g) { Some(o) => *o, None => { let o = st.mem.alloc(Obj::new(8, K_GLOBAL)); Rc::make_mut(&mut st.threads[st.cur].tls).insert(g, o); o } };
                Some(V::I(o << OFF_BITS))
            }
            "sched_yield" | "signal" | "sigaction" | "sigaltstack" | "isatty" | "pthread_key_delete" | "close" | "poll" | "__cxa_atexit" | "dl_iterate_phdr" | "sched_getaffinity" | "munmap" | "mprotect" => Some(V::I(0)),
            "getenv" | "getauxval" | "getcwd" => Some(V::I(0)),
            "open" | "open64" | "read" => Some(V::I(u64::MAX & mask(c.rty.bits().unwrap_or(64)) as u64)),
            "dlsym" => {
                let p = n!(1);
                let mut w = String::new();
                for i in 0..128 { let b = self.read_int(st, p + i, 8)?; let b = self.conc64(st, &b)? as u8; if b == 0 { break; } w.push(b as char); }
                Some(V::I(match self.md.fname.get(&w) { Some(f) => self.md.func_addr(*f), None => 0 }))
            }
            "sysconf" => Some(V::I(4096)),
            "getpid" | "gettid" => Some(V::I(4242)),
            "pthread_self" => Some(V::I(1 + st.cur as u64)),
            "__cxa_thread_atexit_impl" => Some(V::I(0)),
            "pthread_key_create" => { let p = n!(0); let k = st.forks as u64 * 0 + 1000 + st.mem.next; self.write_int(st, p, &V::I(k & 0x7fffffff), 32)?; Some(V::I(0)) }
            "pthread_setspecific" => {
                let k = n!(0) as u32 | 0x8000_0000; let v = n!(1);
                let o = match st.threads[st.cur].tls.get(&k) { Some(o) => *o, None => { let o = st.mem.alloc(Obj::new(8, K_GLOBAL)); Rc::make_mut(&mut st.threads[st.cur].tls).insert(k, o); o } };
                self.write_int(st, o << OFF_BITS, &V::I(v), 64)?; Some(V::I(0))
            }
            "pthread_getspecific" => { let k = n!(0) as u32 | 0x8000_0000; match st.threads[st.cur].tls.get(&k).copied() { Some(o) => Some(self.read_int(st, o << OFF_BITS, 64)?), None => Some(V::I(0)) } }
            "syscall" => {
                let k = n!(0);
                if k == 202 { // futex
                    let op = n!(2) & 127;
                    if op == 1 || op == 10 { return Ok(Some(V::I(0))); }
                    return eng("futex wait: the code under test blocks an engine thread outside the scheduler");
                }
                if k == 186 { return Ok(Some(V::I(4242))); }
                return eng(format!("syscall {}", k));
            }
            "__rust_no_alloc_shim_is_unstable_v2" => None,
            "__sx_any" => { let w = n!(0) as u16; let v = self.new_var(st, w); Some(if w < 64 { self.cast(Cst::ZExt, &Ty::Int(w), &Ty::Int(64), &v)? } else { v }) }
            "__sx_choose" => {
                let k = n!(0);
                if k == 0 { return eng("choose(0)"); }
                if k == 1 { return Ok(Some(V::I(0))); }
                if let Some(x) = st.pending.take() { return Ok(Some(V::I(x))); }
                return Err(Box::new(Stop::Choose(k as u32)));
            }
            "__sx_assume" => { let v = self.low1(&a(0)); self.assume(st, &v)?; None }
            "__sx_check" => {
                let p = n!(1); let k = n!(2);
                let msg = self.cstr_args(st, p, k)?;
                if !self.relevant(&msg) { return Ok(None); }
                let v = self.low1(&a(0));
                self.check(st, &v, &msg)?;
                None
            }
            "__sx_violation" => { let p = n!(0); let k = n!(1); let msg = self.cstr_args(st, p, k)?; if !self.relevant(&msg) { return Err(Box::new(Stop::Done)); } return viol("assertion", msg); }
            "__sx_reach" => { let p = n!(0); let k = n!(1); let s = self.cstr_args(st, p, k)?; st.labels.insert(s.into()); None }
            "__sx_note" => { let p = n!(0); let k = n!(1); let s = self.cstr_args(st, p, k)?; if self.trace { eprintln!("[note] {}", s); } st.notes.push(s.into()); None }
            "__sx_dbg" => { let p = n!(0); let k = n!(1); let s = self.cstr_args(st, p, k)?; if self.trace { eprintln!("[dbg] {}", s); } None }
            "__sx_thread_new" => {
                let f = n!(0); let arg = a(1);
                let fi = (f >> OFF_BITS) as u32 - 1;
                let cur = st.cur;
                st.threads.push(Thread { frames: vec![], tls: Default::default(), dtors: vec![] });
                let t = st.threads.len() - 1;
                st.cur = t;
                let r = self.push_frame(st, fi, vec![arg], NOREG, None, false);
                st.cur = cur;
                r?;
                Some(V::I(t as u64))
            }
            "__sx_switch" => { let t = n!(0) as usize; if t >= st.threads.len() { return eng("switch to unknown thread"); } st.cur = t; None }
            "__sx_concretize" => { let v = n!(0); Some(V::I(v)) }
            "__sx_is_sym" => Some(V::I(matches!(args[0], V::S(_)) as u64)),
            "__sx_symbolic" => Some(V::I(1)),
            "__sx_end" => return Err(Box::new(Stop::Done)),
            "#panic_fmt" => { let l = if args.len() >= 2 { let p = n!(args.len() - 1); self.location(st, p) } else { "?".into() }; return viol("panic", format!("panic at {}", l)); }
            "#panic" => {
                let l = match args.last() { Some(V::I(p)) if *p >> OFF_BITS != 0 => { let p = *p; self.location(st, p) } _ => "?".into() };
                return viol("panic", format!("panic in {} at {}", name, l));
            }
            _ => return eng(format!("external function {}", name)),
        })
    }
    fn low1(&mut self, v: &V) -> V { match v { V::I(x) => V::I(x & 1), V::S(t) => { let t = self.ts.extract(*t, 0, 1); self.val(t) } x => x.clone() } }
    pub fn memset(&mut self, st: &mut State, d: u64, v: &V, k: u64) -> Rs<()> {
        if k == 0 { return Ok(()); }
        let (i, o) = self.acc(st, d, k, "memset")?;
        let ob = st.mem.get_mut(i).unwrap();
        match v {
            V::I(x) => { ob.clear_sym(o, k); ob.data[o as usize..(o + k) as usize].fill(*x as u8); }
            V::S(t) => { let t = self.ts.extract(*t, 0, 8); for j in 0..k { ob.set_byte_sym(o + j, t, &self.ts); } }
            _ => return eng("memset"),
        }
        Ok(())
    }
    fn memcmp(&mut self, st: &mut State, p: u64, q: u64, k: u64, eq: bool) -> Rs<V> {
        if k == 0 { return Ok(V::I(0)); }
        let (pi, po) = self.acc(st, p, k, "memcmp")?;
        let (qi, qo) = self.acc(st, q, k, "memcmp")?;
        let (x, y) = (st.mem.get(pi).unwrap().clone(), st.mem.get(qi).unwrap().clone());
        if !x.has_sym(po, k) && !y.has_sym(qo, k) {
            let (s, t) = (&x.data[po as usize..(po + k) as usize], &y.data[qo as usize..(qo + k) as usize]);
            return Ok(V::I(match s.cmp(t) { std::cmp::Ordering::Less => 0xffff_ffff, std::cmp::Ordering::Equal => 0, _ => 1 }));
        }
        if eq {
            let mut all = self.ts.c(1, 1);
            for i in 0..k { let (b, c) = (x.byte(po + i, &mut self.ts), y.byte(qo + i, &mut self.ts)); let e = self.ts.bin(Op::Eq, b, c); all = self.ts.bin(Op::And, all, e); }
            let n = self.ts.not(all);
            let r = self.ts.zext(n, 32);
            return Ok(self.val(r));
        }
        let mut r = self.ts.c(0, 32);
        let (one, neg) = (self.ts.c(1, 32), self.ts.c(0xffff_ffff, 32));
        for i in (0..k).rev() {
            let (b, c) = (x.byte(po + i, &mut self.ts), y.byte(qo + i, &mut self.ts));
            let lt = self.ts.bin(Op::Ult, b, c);
            let e = self.ts.bin(Op::Eq, b, c);
            let d = self.ts.ite(lt, neg, one);
            r = self.ts.ite(e, r, d);
        }
        Ok(self.val(r))
    }

    pub fn intr(&mut self, st: &mut State, k: u32, name: &str, args: &[V], tys: &[TyR], rty: &Ty) -> Rs<Option<V>> {
        let b = INTRS[k as usize];
        // element-wise lifting over vectors
        if let Ty::Vec(n, e) = rty {
            if !b.starts_with("x86") && !b.starts_with("vector.") && !b.contains("with.overflow") {
                let mut o = vec![];
                for i in 0..*n as usize {
                    let aa: Vec<V> = args.iter().map(|v| match v { V::A(x) => x[i].clone(), x => x.clone() }).collect();
                    let et: Vec<TyR> = tys.iter().map(|t| match t { Ty::Vec(_, e) => *e, t => *t }).collect();
                    match self.intr(st, k, name, &aa, &et, e)? { Some(v) => o.push(v), None => return eng("vector intrinsic") }
                }
                return Ok(Some(V::A(o.into())));
            }
        }
        let w = tys.get(0).and_then(|t| t.bits()).unwrap_or(64);
        macro_rules! n { ($i:expr) => {{ let x = args[$i].clone(); self.conc64(st, &x)? }}; }
        Ok(match b {
            "memcpy" | "memmove" | "memcpy.inline" => { let l = n!(2); let d = n!(0); let s = n!(1); self.copy(st, d, s, l)?; None }
            "memset" | "memset.inline" => { let l = n!(2); let d = n!(0); self.memset(st, d, &args[1], l)?; None }
            "umin" => { let c = self.icmp(36, w, &args[0], &args[1]); Some(self.sel(&c, tys[0], &args[0], &args[1])?) }
            "umax" => { let c = self.icmp(34, w, &args[0], &args[1]); Some(self.sel(&c, tys[0], &args[0], &args[1])?) }
            "smin" => { let c = self.icmp(40, w, &args[0], &args[1]); Some(self.sel(&c, tys[0], &args[0], &args[1])?) }
            "smax" => { let c = self.icmp(38, w, &args[0], &args[1]); Some(self.sel(&c, tys[0], &args[0], &args[1])?) }
            "abs" => { let z = Self::mkval(0, w); let ng = self.bin(Bop::Sub, w, &z, &args[0]); let c = self.icmp(40, w, &args[0], &z); Some(self.sel(&c, tys[0], &ng, &args[0])?) }
            "ucmp" | "scmp" => {
                let rw = rty.bits().unwrap();
                let lt = self.icmp(if b == "ucmp" { 36 } else { 40 }, w, &args[0], &args[1]);
                let gt = self.icmp(if b == "ucmp" { 34 } else { 38 }, w, &args[0], &args[1]);
                let (m1, one, z) = (Self::mkval(mask(rw), rw), Self::mkval(1, rw), Self::mkval(0, rw));
                let x = self.sel(&gt, rty, &one, &z)?;
                Some(self.sel(&lt, rty, &m1, &x)?)
            }
            "ctlz" | "cttz" | "ctpop" => {
                match Self::conc_of(&args[0]) {
                    Some(x) => Some(Self::mkval(match b { "ctlz" => (x.leading_zeros() as u128).saturating_sub(128 - w as u128), "cttz" => (x.trailing_zeros() as u128).min(w as u128), _ => x.count_ones() as u128 }, w)),
                    None => {
                        let t = self.term(&args[0], w);
                        let mut r;
                        if b == "ctpop" {
                            r = self.ts.c(0, w);
                            for i in 0..w { let bit = self.ts.extract(t, i, 1); let z = self.ts.zext(bit, w); r = self.ts.bin(Op::Add, r, z); }
                        } else {
                            r = self.ts.c(w as u128, w);
                            for j in 0..w {
                                let (i, val) = if b == "cttz" { (w - 1 - j, w - 1 - j) } else { (j, w - 1 - j) };
                                let bit = self.ts.extract(t, i, 1);
                                let kv = self.ts.c(val as u128, w);
                                r = self.ts.ite(bit, kv, r);
                            }
                        }
                        Some(self.val(r))
                    }
                }
            }
            "bswap" | "bitreverse" => {
                let u = if b == "bswap" { 8 } else { 1 };
                match Self::conc_of(&args[0]) {
                    Some(x) => { let mut r = 0u128; for i in 0..w / u { r |= ((x >> (i * u)) & mask(u)) << (w - u - i * u); } Some(Self::mkval(r, w)) }
                    None => { let t = self.term(&args[0], w); let mut r = self.ts.extract(t, 0, u); for i in 1..w / u { let e = self.ts.extract(t, i * u, u); r = self.ts.concat(r, e); } Some(self.val(r)) }
                }
            }
            "fshl" | "fshr" => {
                let wv = Self::mkval(w as u128, w);
                let s = self.bin(Bop::URem, w, &args[2], &wv);
                let z = Self::mkval(0, w);
                let is0 = self.icmp(32, w, &s, &z);
                let inv = self.bin(Bop::Sub, w, &wv, &s);
                let r = if b == "fshl" { let l = self.bin(Bop::Shl, w, &args[0], &s); let r = self.bin(Bop::LShr, w, &args[1], &inv); let o = self.bin(Bop::Or, w, &l, &r); self.sel(&is0, tys[0], &args[0], &o)? }
                else { let r = self.bin(Bop::LShr, w, &args[1], &s); let l = self.bin(Bop::Shl, w, &args[0], &inv); let o = self.bin(Bop::Or, w, &l, &r); self.sel(&is0, tys[0], &args[1], &o)? };
                Some(r)
            }
            "uadd.with.overflow" => { let r = self.bin(Bop::Add, w, &args[0], &args[1]); let o = self.icmp(36, w, &r, &args[0]); Some(V::A(vec![r, o].into())) }
            "usub.with.overflow" => { let r = self.bin(Bop::Sub, w, &args[0], &args[1]); let o = self.icmp(36, w, &args[0], &args[1]); Some(V::A(vec![r, o].into())) }
            "sadd.with.overflow" | "ssub.with.overflow" => {
                let add = b.starts_with("sadd");
                let r = self.bin(if add { Bop::Add } else { Bop::Sub }, w, &args[0], &args[1]);
                let x = self.bin(Bop::Xor, w, &args[0], &r);
                let y = if add { self.bin(Bop::Xor, w, &args[1], &r) } else { self.bin(Bop::Xor, w, &args[0], &args[1]) };
                let t = self.bin(Bop::And, w, &x, &y);
                let z = Self::mkval(0, w);
                let o = self.icmp(40, w, &t, &z);
                Some(V::A(vec![r, o].into()))
            }
            "umul.with.overflow" | "smul.with.overflow" => {
                let s = b.starts_with('s');
                if let (Some(x), Some(y)) = (Self::conc_of(&args[0]), Self::conc_of(&args[1])) {
                    let (r, o) = if s { let (p, ov) = sext(x, w).overflowing_mul(sext(y, w)); let r = p as u128 & mask(w); (r, ov || sext(r, w) != p) } else { let (p, ov) = x.overflowing_mul(y); (p & mask(w), ov || p & !mask(w) != 0) };
                    return Ok(Some(V::A(vec![Self::mkval(r, w), V::I(o as u64)].into())));
                }
                if w > 64 { return eng("wide symbolic mul overflow"); }
                let (x, y) = (self.term(&args[0], w), self.term(&args[1], w));
                let (x2, y2) = if s { (self.ts.sext(x, 2 * w), self.ts.sext(y, 2 * w)) } else { (self.ts.zext(x, 2 * w), self.ts.zext(y, 2 * w)) };
                let p = self.ts.bin(Op::Mul, x2, y2);
                let r = self.ts.extract(p, 0, w);
                let rx = if s { self.ts.sext(r, 2 * w) } else { self.ts.zext(r, 2 * w) };
                let e = self.ts.bin(Op::Eq, rx, p);
                let o = self.ts.not(e);
                Some(V::A(vec![self.val(r), self.val(o)].into()))
            }
            "uadd.sat" => { let r = self.bin(Bop::Add, w, &args[0], &args[1]); let o = self.icmp(36, w, &r, &args[0]); let m = Self::mkval(mask(w), w); Some(self.sel(&o, tys[0], &m, &r)?) }
            "usub.sat" => { let r = self.bin(Bop::Sub, w, &args[0], &args[1]); let o = self.icmp(36, w, &args[0], &args[1]); let m = Self::mkval(0, w); Some(self.sel(&o, tys[0], &m, &r)?) }
            "sadd.sat" | "ssub.sat" => match (Self::conc_of(&args[0]), Self::conc_of(&args[1])) {
                (Some(x), Some(y)) => { let (x, y) = (sext(x, w), sext(y, w)); let r = if b == "sadd.sat" { x.saturating_add(y) } else { x.saturating_sub(y) }; let hi = (mask(w) >> 1) as i128; Some(Self::mkval(r.clamp(-hi - 1, hi) as u128 & mask(w), w)) }
                _ => return eng("symbolic signed saturation"),
            },
            "expect" | "launder.invariant.group" | "strip.invariant.group" | "ssa.copy" | "annotation" | "ptr.annotation" | "expect.with.probability" => Some(args[0].clone()),
            "threadlocal.address" => { let p = n!(0); Some(V::I(self.tls_addr(st, p)?)) }
            "trap" | "debugtrap" | "ubsantrap" => return viol("abort", "trap"),
            "is.constant" => Some(V::I(0)),
            "type.test" | "public.type.test" => Some(V::I(1)),
            "objectsize" => { let z = n!(1); Some(V::I(if z == 1 { 0 } else { u64::MAX })) }
            "ptrmask" => Some(self.bin(Bop::And, 64, &args[0], &args[1])),
            "stacksave" | "frameaddress" | "returnaddress" => Some(V::I(0)),
            "stackrestore" | "x86.sse2.pause" | "va_start" | "va_end" => None,
            "fabs" | "floor" | "ceil" | "trunc" | "sqrt" | "round" | "rint" | "nearbyint" | "roundeven" => Some(self.fop1(b, &args[0], tys[0])?),
            "copysign" | "minnum" | "maxnum" | "minimumnum" | "maximumnum" => Some(self.fop2(b, &args[0], &args[1], tys[0])?),
            "fptosi.sat" => Some(self.f2i_sat(true, &args[0], tys[0], rty.bits().unwrap())?),
            "fptoui.sat" => Some(self.f2i_sat(false, &args[0], tys[0], rty.bits().unwrap())?),
            "vector.reduce.or" | "vector.reduce.and" | "vector.reduce.add" | "vector.reduce.xor" | "vector.reduce.umax" | "vector.reduce.umin" | "vector.reduce.smax" | "vector.reduce.smin" | "vector.reduce.mul" => {
                let (x, e) = match (&args[0], tys[0]) { (V::A(x), Ty::Vec(_, e)) => (x.clone(), *e), _ => return eng("reduce") };
                let ew = e.bits().unwrap();
                let mut r = x[0].clone();
                for y in x.iter().skip(1) {
                    r = match b {
                        "vector.reduce.or" => self.bin(Bop::Or, ew, &r, y), "vector.reduce.and" => self.bin(Bop::And, ew, &r, y), "vector.reduce.add" => self.bin(Bop::Add, ew, &r, y), "vector.reduce.xor" => self.bin(Bop::Xor, ew, &r, y), "vector.reduce.mul" => self.bin(Bop::Mul, ew, &r, y),
                        _ => { let p = match b { "vector.reduce.umax" => 34, "vector.reduce.umin" => 36, "vector.reduce.smax" => 38, _ => 40 }; let c = self.icmp(p, ew, &r, y); self.sel(&c, e, &r, y)? }
                    };
                }
                Some(r)
            }
            "x86.sse2.pmovmskb.128" => {
                if let V::A(x) = &args[0] {
                    let mut o = vec![];
                    for e in x.iter() { let z = self.icmp(40, 8, e, &V::I(0)); o.push(z); }
                    let j = self.join_vec(&o, 1)?;
                    Some(self.cast(Cst::ZExt, &Ty::Int(16), &Ty::Int(32), &j)?)
                } else { return eng("pmovmskb") }
            }
            "load.relative" => { let p = n!(0); let o = n!(1); let v = self.read_int(st, p + o, 32)?; let v = self.conc64(st, &v)?; Some(V::I(p.wrapping_add(v as u32 as i32 as i64 as u64))) }
            _ => return eng(format!("intrinsic {}", name)),
        })
    }
}
#[allow(unused)]
fn unused(_: Res) {}
