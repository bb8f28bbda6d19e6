//! Z3 back end: lowering of terms, sliced and cached satisfiability queries.
use crate::term::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    panic!("z3 error: {:?}", m);
}

pub fn z3_version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

pub enum Res { Sat(Rc<HashMap<u32, u128>>), Unsat, Unknown }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cache_hits: u64, pub time_us: u64, pub max_us: u64 }

pub struct Solver {
    c: P,
    s: P,
    bvs: FxMap<T, P>,
    bools: FxMap<T, P>,
    sorts: HashMap<u16, P>,
    cache: HashMap<Vec<T>, Option<Rc<HashMap<u32, u128>>>>,
    pub st: Stats,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Solver { c, s, bvs: Default::default(), bools: Default::default(), sorts: HashMap::new(), cache: HashMap::new(), st: Default::default() }
        }
    }
    fn sort(&mut self, w: u16) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { let s = Z3_mk_bv_sort(c, w as c_uint); Z3_inc_ref(c, s); s })
    }
    fn num(&mut self, v: u128, w: u16) -> P {
        unsafe {
            if w <= 64 {
                let s = self.sort(w);
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let sl = self.sort(64);
                let sh = self.sort(w - 64);
                let lo = Z3_mk_unsigned_int64(self.c, v as u64, sl);
                Z3_inc_ref(self.c, lo);
                let hi = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, sh);
                Z3_inc_ref(self.c, hi);
                Z3_mk_concat(self.c, hi, lo)
            }
        }
    }
    fn prep(&mut self, ts: &Terms, t: T) {
        // iterative lowering to avoid deep recursion
        let mut st = vec![(t, false)];
        while let Some((x, done)) = st.pop() {
            if self.bvs.contains_key(&x) || self.bools.contains_key(&x) { continue; }
            let n = *ts.n(x);
            if !done {
                st.push((x, true));
                let k = Terms::nargs(n.op);
                if k > 0 { st.push((n.a, false)); }
                if k > 1 { st.push((n.b, false)); }
                if k > 2 { st.push((n.c, false)); }
                continue;
            }
            self.lower(ts, x);
        }
    }
    fn bv(&mut self, ts: &Terms, t: T) -> P {
        if let Some(&p) = self.bvs.get(&t) { return p; }
        // bool -> bv1
        let b = self.bools[&t];
        let _ = ts;
        unsafe {
            let o = self.num(1, 1); Z3_inc_ref(self.c, o);
            let z = self.num(0, 1); Z3_inc_ref(self.c, z);
            let r = Z3_mk_ite(self.c, b, o, z);
            Z3_inc_ref(self.c, r);
            self.bvs.insert(t, r);
            r
        }
    }
    fn bool_(&mut self, ts: &Terms, t: T) -> P {
        if let Some(&p) = self.bools.get(&t) { return p; }
        let b = self.bvs[&t];
        let _ = ts;
        unsafe {
            let o = self.num(1, 1); Z3_inc_ref(self.c, o);
            let r = Z3_mk_eq(self.c, b, o);
            Z3_inc_ref(self.c, r);
            self.bools.insert(t, r);
            r
        }
    }
    fn lower(&mut self, ts: &Terms, t: T) {
        let n = *ts.n(t);
        let c = self.c;
        unsafe {
            let (r, isb): (P, bool) = match n.op {
                Op::Const => if n.w == 1 { (if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) }, true) } else { (self.num(n.k, n.w), false) },
                Op::Var => { let s = self.sort(n.w); (Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), s), false) }
                Op::And | Op::Or | Op::Xor if n.w == 1 => {
                    let a = self.bool_(ts, n.a); let b = self.bool_(ts, n.b);
                    let arr = [a, b];
                    (match n.op {
                        Op::And => Z3_mk_and(c, 2, arr.as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, arr.as_ptr()),
                        _ => if ts.cv(n.b) == Some(1) { Z3_mk_not(c, a) } else { Z3_mk_xor(c, a, b) },
                    }, true)
                }
                Op::Ite => {
                    let cc = self.bool_(ts, n.a);
                    if n.w == 1 { let a = self.bool_(ts, n.b); let b = self.bool_(ts, n.c); (Z3_mk_ite(c, cc, a, b), true) }
                    else { let a = self.bv(ts, n.b); let b = self.bv(ts, n.c); (Z3_mk_ite(c, cc, a, b), false) }
                }
                Op::Eq if ts.w(n.a) == 1 => { let a = self.bool_(ts, n.a); let b = self.bool_(ts, n.b); (Z3_mk_eq(c, a, b), true) }
                Op::ZExt => { let a = self.bv(ts, n.a); (Z3_mk_zero_ext(c, (n.w - ts.w(n.a)) as c_uint, a), false) }
                Op::SExt => { let a = self.bv(ts, n.a); (Z3_mk_sign_ext(c, (n.w - ts.w(n.a)) as c_uint, a), false) }
                Op::Extract => { let a = self.bv(ts, n.a); (Z3_mk_extract(c, (n.k as u16 + n.w - 1) as c_uint, n.k as c_uint, a), false) }
                op => {
                    let a = self.bv(ts, n.a); let b = self.bv(ts, n.b);
                    match op {
                        Op::Add => (Z3_mk_bvadd(c, a, b), false),
                        Op::Sub => (Z3_mk_bvsub(c, a, b), false),
                        Op::Mul => (Z3_mk_bvmul(c, a, b), false),
                        Op::UDiv => (Z3_mk_bvudiv(c, a, b), false),
                        Op::SDiv => (Z3_mk_bvsdiv(c, a, b), false),
                        Op::URem => (Z3_mk_bvurem(c, a, b), false),
                        Op::SRem => (Z3_mk_bvsrem(c, a, b), false),
                        Op::And => (Z3_mk_bvand(c, a, b), false),
                        Op::Or => (Z3_mk_bvor(c, a, b), false),
                        Op::Xor => (Z3_mk_bvxor(c, a, b), false),
                        Op::Shl => (Z3_mk_bvshl(c, a, b), false),
                        Op::LShr => (Z3_mk_bvlshr(c, a, b), false),
                        Op::AShr => (Z3_mk_bvashr(c, a, b), false),
                        Op::Eq => (Z3_mk_eq(c, a, b), true),
                        Op::Ult => (Z3_mk_bvult(c, a, b), true),
                        Op::Ule => (Z3_mk_bvule(c, a, b), true),
                        Op::Slt => (Z3_mk_bvslt(c, a, b), true),
                        Op::Sle => (Z3_mk_bvsle(c, a, b), true),
                        Op::Concat => (Z3_mk_concat(c, a, b), false),
                        _ => unreachable!(),
                    }
                }
            };
            Z3_inc_ref(c, r);
            if isb { self.bools.insert(t, r); } else { self.bvs.insert(t, r); }
        }
    }

    /// Is (conjunction of `pc` relevant to `q`) and `q` satisfiable?
    pub fn check(&mut self, ts: &Terms, pc: &[T], q: T) -> Res {
        if let Some(v) = ts.cv(q) { if v == 0 { return Res::Unsat; } }
        // slice
        let mut vars: std::collections::HashSet<u32> = ts.vars_of[q as usize].iter().cloned().collect();
        let mut sel: Vec<T> = vec![q];
        let mut rest: Vec<T> = pc.to_vec();
        loop {
            let before = rest.len();
            let mut keep = Vec::with_capacity(rest.len());
            for t in rest {
                let vs = &ts.vars_of[t as usize];
                if vs.iter().any(|v| vars.contains(v)) {
                    for v in vs.iter() { vars.insert(*v); }
                    sel.push(t);
                } else { keep.push(t); }
            }
            rest = keep;
            if rest.len() == before { break; }
        }
        sel.sort(); sel.dedup();
        if let Some(r) = self.cache.get(&sel) {
            self.st.cache_hits += 1;
            return match r { Some(m) => Res::Sat(m.clone()), None => Res::Unsat };
        }
        let t0 = std::time::Instant::now();
        for &t in &sel { self.prep(ts, t); }
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for &t in &sel { let b = self.bool_(ts, t); Z3_solver_assert(self.c, self.s, b); }
            let r = Z3_solver_check(self.c, self.s);
            let out = if r == 1 {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut h = HashMap::new();
                for v in &vars {
                    let w = ts.var_w[*v as usize];
                    let srt = self.sort(w);
                    let x = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, *v as c_int), srt);
                    Z3_inc_ref(self.c, x);
                    let mut o: P = std::ptr::null_mut();
                    if Z3_model_eval(self.c, m, x, true, &mut o) {
                        Z3_inc_ref(self.c, o);
                        let mut u = 0u64;
                        Z3_get_numeral_uint64(self.c, o, &mut u);
                        h.insert(*v, u as u128);
                    }
                }
                Z3_model_dec_ref(self.c, m);
                Res::Sat(Rc::new(h))
            } else if r == -1 { Res::Unsat } else { Res::Unknown };
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        let us = t0.elapsed().as_micros() as u64;
        self.st.queries += 1;
        self.st.time_us += us;
        self.st.max_us = self.st.max_us.max(us);
        match &r {
            Res::Sat(m) => { self.st.sat += 1; self.cache.insert(sel, Some(m.clone())); }
            Res::Unsat => { self.st.unsat += 1; self.cache.insert(sel, None); }
            Res::Unknown => { self.st.unknown += 1; }
        }
        r
    }
}
