//! The interpreter: executes one path until it ends or must be split.
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub struct Frame { pub f: &'static Func, pub pc: u32, pub regs: Vec<V>, pub d: u32, pub edge: Option<&'static Edge>, pub allocas: Vec<u64>, pub boot: bool }
impl Clone for Frame {
    fn clone(&self) -> Frame { Frame { f: self.f, pc: self.pc, regs: self.regs.clone(), d: self.d, edge: self.edge, allocas: self.allocas.clone(), boot: self.boot } }
}
#[derive(Clone)]
pub struct Thread { pub frames: Vec<Frame>, pub tls: Rc<HashMap<u32, u64>>, pub dtors: Vec<(u64, u64)> }

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub pc: Vec<T>,
    pub model: Rc<HashMap<u32, u128>>,
    pub known: FxMap<T, u128>,
    pub vars: Vec<(u16, Option<u32>, u64)>, // width, solver var (None: chosen value)
    pub nvars: u32,
    pub icount: u64,
    pub notes: Vec<Rc<str>>,
    pub labels: BTreeSet<Rc<str>>,
    pub forks: u32,
    pub pending: Option<u64>,
}
impl State {
    fn assert(&mut self, ts: &mut Terms, c: T, v: bool) {
        let nc = ts.not(c);
        let (t, f) = if v { (c, nc) } else { (nc, c) };
        if ts.cv(t).is_some() { return; }
        self.known.insert(t, 1);
        self.known.insert(f, 0);
        let n = *ts.n(t);
        if n.op == Op::And && n.w == 1 {
            self.assert(ts, n.a, true);
            self.assert(ts, n.b, true);
            return;
        }
        if n.op == Op::Eq { if let Some(k) = ts.cv(n.b) { self.known.insert(n.a, k); } }
        // not(or(a,b)) appears as xor(or,1)
        if n.op == Op::Xor && n.w == 1 && ts.cv(n.b) == Some(1) {
            let m = *ts.n(n.a);
            if m.op == Op::Or { self.assert(ts, m.a, false); self.assert(ts, m.b, false); return; }
        }
        self.pc.push(t);
    }
    fn merge_model(&mut self, m: &HashMap<u32, u128>) {
        let h = Rc::make_mut(&mut self.model);
        for (k, v) in m { h.insert(*k, *v); }
    }
}

#[derive(Debug)]
pub enum Stop {
    Fork { c: T, v: bool, m: Rc<HashMap<u32, u128>> },
    Choose(u32),
    Infeasible,
    Violation(String, String),
    Engine(String),
    Done,
    Limit(String),
    Frame, // frame stack changed, refetch
}
pub type Rs<T> = Result<T, Box<Stop>>;
#[cold]
pub fn eng<X>(s: impl Into<String>) -> Rs<X> { Err(Box::new(Stop::Engine(s.into()))) }
#[cold]
pub fn viol<X>(k: &str, s: impl Into<String>) -> Rs<X> { Err(Box::new(Stop::Violation(k.into(), s.into()))) }

#[derive(Default, Clone, Debug)]
pub struct PStats { pub paths: u64, pub infeasible: u64, pub instrs: u64, pub forks: u64, pub choices: u64, pub checks_conc: u64, pub checks_sym: u64, pub max_path: u64, pub vars_max: u64 }

#[derive(Clone, Debug)]
pub struct Viol { pub kind: String, pub msg: String, pub values: Vec<(u16, u128)>, pub stack: Vec<String>, pub notes: Vec<String> }

pub struct Ex {
    pub md: Module,
    pub ts: Terms,
    pub sol: Solver,
    pub templates: Vec<Option<Rc<Obj>>>,
    memo: FxMap<T, u128>,
    memo_m: Rc<HashMap<u32, u128>>,
    pub ps: PStats,
    pub viols: Vec<Viol>,
    pub max_instr: u64,
    pub checked: BTreeMap<String, (u64, u64)>,
    pub labels: BTreeMap<String, u64>,
    pub profile: Option<HashMap<u32, u64>>,
    pub fork_sites: HashMap<String, u64>,
    pub trace: bool,
    pub prop: String,
}

pub fn sgn(p: u8) -> bool { p >= 38 }

impl Ex {
    pub fn new(md: Module, timeout_ms: u32) -> Ex {
        let n = md.globals.len();
        Ex { md, ts: Terms::new(), sol: Solver::new(timeout_ms), templates: vec![None; n], memo: Default::default(), memo_m: Default::default(), ps: Default::default(), viols: vec![], max_instr: 50_000_000, checked: Default::default(), labels: Default::default(), profile: None, fork_sites: Default::default(), trace: false, prop: String::new() }
    }
    // ---- values ----
    #[inline]
    pub fn term(&mut self, v: &V, w: u16) -> T {
        match v {
            V::I(x) => self.ts.c(*x as u128, w),
            V::W(x) => self.ts.c(**x, w),
            V::S(t) => { debug_assert_eq!(self.ts.w(*t), w); *t }
            V::A(_) => panic!("aggregate as term"),
        }
    }
    #[inline]
    pub fn val(&self, t: T) -> V {
        let n = self.ts.n(t);
        if n.op == Op::Const { if n.w <= 64 { V::I(n.k as u64) } else { V::W(Rc::new(n.k)) } } else { V::S(t) }
    }
    #[inline]
    pub fn mkval(v: u128, w: u16) -> V { if w <= 64 { V::I(v as u64) } else { V::W(Rc::new(v)) } }
    #[inline]
    pub fn conc_of(v: &V) -> Option<u128> { match v { V::I(x) => Some(*x as u128), V::W(x) => Some(**x), _ => None } }
    pub fn eval(&mut self, st: &State, t: T) -> u128 {
        if !Rc::ptr_eq(&self.memo_m, &st.model) { self.memo.clear(); self.memo_m = st.model.clone(); }
        let m = Model { m: st.model.clone() };
        let mut memo = std::mem::take(&mut self.memo);
        let r = self.ts.eval(t, &m, &mut memo);
        self.memo = memo;
        r
    }
    pub fn decide(&mut self, st: &mut State, c: T) -> Rs<bool> {
        if let Some(k) = self.ts.cv(c) { return Ok(k == 1); }
        if let Some(&k) = st.known.get(&c) { return Ok(k == 1); }
        let v = self.eval(st, c) == 1;
        let q = if v { self.ts.not(c) } else { c };
        match self.sol.check(&self.ts, &st.pc, q) {
            Res::Unsat => { st.known.insert(c, v as u128); Ok(v) }
            Res::Sat(m) => Err(Box::new(Stop::Fork { c, v, m })),
            Res::Unknown => eng("solver returned unknown"),
        }
    }
    pub fn decide_v(&mut self, st: &mut State, v: &V) -> Rs<bool> {
        match v { V::I(x) => Ok(x & 1 == 1), V::S(t) => self.decide(st, *t), _ => eng("bool aggregate") }
    }
    pub fn concretize(&mut self, st: &mut State, v: &V) -> Rs<u128> {
        match v {
            V::I(x) => Ok(*x as u128),
            V::W(x) => Ok(**x),
            V::A(_) => eng("concretize aggregate"),
            V::S(t) => {
                if let Some(&k) = st.known.get(t) { return Ok(k); }
                let k = self.eval(st, *t);
                let w = self.ts.w(*t);
                let kc = self.ts.c(k, w);
                let c = self.ts.bin(Op::Eq, *t, kc);
                if self.decide(st, c)? { st.known.insert(*t, k); Ok(k) } else { eng("concretize: model disagrees") }
            }
        }
    }
    pub fn conc64(&mut self, st: &mut State, v: &V) -> Rs<u64> { Ok(self.concretize(st, v)? as u64) }

    // ---- memory ----
    pub fn template(&mut self, gi: u32) -> Rs<Rc<Obj>> {
        if let Some(o) = &self.templates[gi as usize] { return Ok(o.clone()); }
        match global_template(&mut self.md, gi) {
            Ok(o) => { self.templates[gi as usize] = Some(o.clone()); Ok(o) }
            Err(e) => eng(format!("global {}: {}", self.md.globals[gi as usize].name, e)),
        }
    }
    /// make sure object `id` is present; Err = not a live object
    #[inline]
    pub fn ensure(&mut self, st: &mut State, id: u64) -> Rs<bool> {
        if st.mem.get(id).is_some() { return Ok(true); }
        let g0 = self.md.funcs.len() as u64 + 1;
        if id >= g0 && id < g0 + self.md.globals.len() as u64 {
            let gi = (id - g0) as u32;
            if !self.md.globals[gi as usize].has_init { return eng(format!("access to external global {}", self.md.globals[gi as usize].name)); }
            let t = self.template(gi)?;
            st.mem.put(id, t);
            return Ok(true);
        }
        Ok(false)
    }
    fn bad(&self, st: &State, id: u64, off: u64, n: u64, what: &str) -> Box<Stop> {
        let s = match st.mem.get(id) { Some(o) => format!("{} of {} bytes at offset {} of a {}-byte object", what, n, off as i64, o.size), None => if id == 0 { format!("{} of {} bytes at address {:#x}", what, n, off) } else { format!("{} of {} bytes in a dead or unknown object {:#x}", what, n, id) } };
        Box::new(Stop::Violation("memory".into(), s))
    }
    #[inline]
    pub fn acc(&mut self, st: &mut State, a: u64, n: u64, what: &str) -> Rs<(u64, u64)> {
        let (id, off) = (a >> OFF_BITS, a & OFF_MASK);
        if !self.ensure(st, id)? { return Err(self.bad(st, id, off, n, what)); }
        let sz = st.mem.get(id).unwrap().size;
        if off + n > sz { return Err(self.bad(st, id, off, n, what)); }
        Ok((id, off))
    }
    #[inline]
    pub fn read_int(&mut self, st: &mut State, a: u64, w: u16) -> Rs<V> {
        let n = ((w + 7) / 8) as u64;
        let (id, off) = self.acc(st, a, n, "load")?;
        let o = st.mem.get(id).unwrap();
        if o.sym.is_none() || !o.has_sym(off, n) {
            let d = &o.data[off as usize..(off + n) as usize];
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n as usize].copy_from_slice(d);
                let mut x = u64::from_le_bytes(b);
                if w < 64 { x &= (1u64 << w) - 1; }
                return Ok(V::I(x));
            }
            if n > 16 { return eng("wide load"); }
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(d);
            return Ok(V::W(Rc::new(u128::from_le_bytes(b) & mask(w))));
        }
        if n > 16 { return eng("wide load"); }
        let o = o.clone();
        let mut t = o.byte(off + n - 1, &mut self.ts);
        for i in (0..n - 1).rev() { let b = o.byte(off + i, &mut self.ts); t = self.ts.concat(t, b); }
        if (n * 8) as u16 != w { t = self.ts.extract(t, 0, w); }
        Ok(self.val(t))
    }
    pub fn write_int(&mut self, st: &mut State, a: u64, v: &V, w: u16) -> Rs<()> {
        let n = ((w + 7) / 8) as u64;
        let (id, off) = self.acc(st, a, n, "store")?;
        let o = st.mem.get_mut(id).unwrap();
        if o.ro { return Err(self.bad(st, id, off, n, "store to read-only memory:")); }
        match v {
            V::I(x) => {
                if o.sym.is_some() { o.clear_sym(off, n); }
                if n <= 8 { o.data[off as usize..(off + n) as usize].copy_from_slice(&x.to_le_bytes()[..n as usize]); }
                else { let b = (*x as u128).to_le_bytes(); o.data[off as usize..(off + n) as usize].copy_from_slice(&b[..n as usize]); }
            }
            V::W(x) => { if o.sym.is_some() { o.clear_sym(off, n); } o.data[off as usize..(off + n) as usize].copy_from_slice(&x.to_le_bytes()[..n as usize]); }
            V::S(t) => {
                let mut t = *t;
                if (n * 8) as u16 != w { t = self.ts.zext(t, (n * 8) as u16); }
                for i in 0..n { let b = self.ts.extract(t, (i * 8) as u16, 8); o.set_byte_sym(off + i, b, &self.ts); }
            }
            V::A(_) => return eng("store aggregate as int"),
        }
        Ok(())
    }
    pub fn read_val(&mut self, st: &mut State, a: u64, ty: &Ty) -> Rs<V> {
        match ty {
            Ty::Int(w) => self.read_int(st, a, *w),
            Ty::Ptr | Ty::F64 => self.read_int(st, a, 64),
            Ty::F32 => self.read_int(st, a, 32),
            Ty::Struct(f) => { let mut v = Vec::with_capacity(f.len()); for (t, o) in f { v.push(self.read_val(st, a + o, t)?); } Ok(V::A(v.into())) }
            Ty::Arr(n, e, s) => { let mut v = Vec::with_capacity(*n as usize); for i in 0..*n { v.push(self.read_val(st, a + s * i, e)?); } Ok(V::A(v.into())) }
            Ty::Vec(n, e) => {
                let w = match e.bits() { Some(w) => w, None => return eng("vector element") };
                if w % 8 != 0 {
                    let tot = *n as u16 * w;
                    let x = self.read_int(st, a, tot)?;
                    return self.split_vec(&x, tot, *n, w);
                }
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n as u64 { v.push(self.read_int(st, a + i * (w as u64 / 8), w)?); }
                Ok(V::A(v.into()))
            }
            Ty::Void | Ty::Other => eng("load type"),
        }
    }
    pub fn split_vec(&mut self, x: &V, tot: u16, n: u32, w: u16) -> Rs<V> {
        let mut v = Vec::with_capacity(n as usize);
        match Self::conc_of(x) {
            Some(c) => for i in 0..n as u16 { v.push(Self::mkval((c >> (i * w)) & mask(w), w)); },
            None => { let t = self.term(x, tot); for i in 0..n as u16 { let e = self.ts.extract(t, i * w, w); v.push(self.val(e)); } }
        }
        Ok(V::A(v.into()))
    }
    pub fn join_vec(&mut self, x: &[V], w: u16) -> Rs<V> {
        let tot = x.len() as u16 * w;
        if tot > 128 { return eng("vector too wide for bitcast"); }
        if x.iter().all(|e| !matches!(e, V::S(_))) {
            let mut c = 0u128;
            for (i, e) in x.iter().enumerate() { c |= Self::conc_of(e).unwrap() << (i as u16 * w); }
            return Ok(Self::mkval(c, tot));
        }
        let mut t = self.term(&x[x.len() - 1], w);
        for e in x[..x.len() - 1].iter().rev() { let b = self.term(e, w); t = self.ts.concat(t, b); }
        Ok(self.val(t))
    }
    pub fn write_val(&mut self, st: &mut State, a: u64, v: &V, ty: &Ty) -> Rs<()> {
        match ty {
            Ty::Int(w) => self.write_int(st, a, v, *w),
            Ty::Ptr | Ty::F64 => self.write_int(st, a, v, 64),
            Ty::F32 => self.write_int(st, a, v, 32),
            Ty::Struct(f) => { if let V::A(x) = v { for ((t, o), e) in f.iter().zip(x.iter()) { self.write_val(st, a + o, e, t)?; } Ok(()) } else { eng("store struct") } }
            Ty::Arr(_, e, s) => { if let V::A(x) = v { for (i, y) in x.iter().enumerate() { self.write_val(st, a + s * i as u64, y, e)?; } Ok(()) } else { eng("store array") } }
            Ty::Vec(n, e) => {
                let w = match e.bits() { Some(w) => w, None => return eng("vector element") };
                if let V::A(x) = v {
                    if w % 8 != 0 { let j = self.join_vec(x, w)?; return self.write_int(st, a, &j, *n as u16 * w); }
                    for (i, y) in x.iter().enumerate() { self.write_int(st, a + i as u64 * (w as u64 / 8), y, w)?; }
                    Ok(())
                } else { eng("store vector") }
            }
            _ => eng("store type"),
        }
    }
    fn ty_size(ty: &Ty) -> u64 {
        match ty {
            Ty::Int(w) => ((*w + 7) / 8) as u64, Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Vec(n, e) => (*n as u64 * e.bits().unwrap_or(8) as u64 + 7) / 8,
            Ty::Arr(n, _, s) => n * s,
            Ty::Struct(f) => f.iter().map(|(t, o)| o + Self::ty_size(t)).max().unwrap_or(0),
            _ => 0,
        }
    }
    fn tz(&self, t: T) -> u16 {
        let n = self.ts.n(t);
        match n.op {
            Op::Const => if n.k == 0 { n.w } else { n.k.trailing_zeros() as u16 },
            Op::Concat => { let l = self.tz(n.b); if l == self.ts.w(n.b) { l + self.tz(n.a) } else { l } }
            Op::ZExt | Op::SExt => { let l = self.tz(n.a); if l == self.ts.w(n.a) { n.w } else { l } }
            Op::Add | Op::Sub | Op::Or | Op::Xor => self.tz(n.a).min(self.tz(n.b)),
            Op::And => self.tz(n.a).max(self.tz(n.b)),
            Op::Mul => (self.tz(n.a) + self.tz(n.b)).min(n.w),
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            _ => 0,
        }
    }
    /// load through a symbolic pointer
    fn load_sym(&mut self, st: &mut State, p: T, ty: &Ty) -> Rs<V> {
        if let Some(&k) = st.known.get(&p) { return self.read_val(st, k as u64, ty); }
        let n = Self::ty_size(ty);
        let a = self.eval(st, p) as u64;
        let id = a >> OFF_BITS;
        let (base, size) = if self.ensure(st, id)? { (id << OFF_BITS, st.mem.get(id).unwrap().size) } else { return Err(self.bad(st, id, a & OFF_MASK, n, "load")); };
        if size < n { return Err(self.bad(st, id, a & OFF_MASK, n, "load")); }
        let bt = self.ts.c(base as u128, 64);
        let off = self.ts.bin(Op::Sub, p, bt);
        let lim = self.ts.c((size - n) as u128, 64);
        let inb = self.ts.bin(Op::Ule, off, lim);
        if !self.decide(st, inb)? {
            // the model's address is not inside this object
            return Err(self.bad(st, id, a & OFF_MASK, n, "load"));
        }
        let z = self.tz(off).min(16);
        let step = 1u64 << z;
        let cnt = (size - n) / step + 1;
        if cnt > 320 || ty.bits().is_none() {
            let k = self.concretize(st, &V::S(p))? as u64;
            return self.read_val(st, k, ty);
        }
        let w = ty.bits().unwrap();
        // group equal values to keep the chain short
        let mut groups: Vec<(T, Vec<u64>)> = vec![];
        let mut gi: FxMap<T, usize> = Default::default();
        for i in 0..cnt {
            let v = self.read_int(st, base + i * step, w)?;
            let t = self.term(&v, w);
            let g = *gi.entry(t).or_insert_with(|| { groups.push((t, vec![])); groups.len() - 1 });
            groups[g].1.push(i * step);
        }
        groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
        let mut r = groups[0].0;
        for (t, offs) in groups.iter().skip(1) {
            let mut c = None;
            for o in offs { let k = self.ts.c(*o as u128, 64); let e = self.ts.bin(Op::Eq, off, k); c = Some(match c { None => e, Some(x) => self.ts.bin(Op::Or, x, e) }); }
            r = self.ts.ite(c.unwrap(), *t, r);
        }
        Ok(self.val(r))
    }
    pub fn read_bytes(&mut self, st: &mut State, a: u64, n: u64) -> Rs<Vec<u8>> {
        if n == 0 { return Ok(vec![]); }
        let (id, off) = self.acc(st, a, n, "load")?;
        let o = st.mem.get(id).unwrap().clone();
        if !o.has_sym(off, n) { return Ok(o.data[off as usize..(off + n) as usize].to_vec()); }
        let mut r = vec![];
        for i in 0..n { let t = o.byte(off + i, &mut self.ts); r.push(self.eval(st, t) as u8); }
        Ok(r)
    }
    pub fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Rs<()> {
        if n == 0 { return Ok(()); }
        let (si, so) = self.acc(st, s, n, "memcpy load")?;
        let (di, dof) = self.acc(st, d, n, "memcpy store")?;
        let src = st.mem.get(si).unwrap().clone();
        let dst = st.mem.get_mut(di).unwrap();
        if dst.ro { return Err(self.bad(st, di, dof, n, "memcpy to read-only memory:")); }
        if src.has_sym(so, n) {
            let mut b = Vec::with_capacity(n as usize);
            for i in 0..n { b.push(src.byte(so + i, &mut self.ts)); }
            for (i, t) in b.into_iter().enumerate() { dst.set_byte_sym(dof + i as u64, t, &self.ts); }
        } else {
            if dst.sym.is_some() { dst.clear_sym(dof, n); }
            dst.data[dof as usize..(dof + n) as usize].copy_from_slice(&src.data[so as usize..(so + n) as usize]);
        }
        Ok(())
    }
    pub fn alloc(&mut self, st: &mut State, size: u64, kind: u8) -> Rs<u64> {
        if size >= 1 << OFF_BITS { return eng(format!("allocation of {} bytes", size)); }
        Ok(st.mem.alloc(Obj::new(size, kind)) << OFF_BITS)
    }
    pub fn tls_addr(&mut self, st: &mut State, p: u64) -> Rs<u64> {
        let gi = ((p >> OFF_BITS) - self.md.funcs.len() as u64 - 1) as u32;
        if let Some(o) = st.threads[st.cur].tls.get(&gi) { return Ok(o << OFF_BITS); }
        let t = self.template(gi)?;
        let id = st.mem.alloc((*t).clone());
        Rc::make_mut(&mut st.threads[st.cur].tls).insert(gi, id);
        Ok(id << OFF_BITS)
    }
    pub fn cstr_args(&mut self, st: &mut State, p: u64, n: u64) -> Rs<String> { Ok(String::from_utf8_lossy(&self.read_bytes(st, p, n)?).into_owned()) }

    // ---- scalar ops ----
    pub fn bin(&mut self, op: Bop, w: u16, a: &V, b: &V) -> V {
        let top = match op { Bop::Add => Op::Add, Bop::Sub => Op::Sub, Bop::Mul => Op::Mul, Bop::UDiv => Op::UDiv, Bop::SDiv => Op::SDiv, Bop::URem => Op::URem, Bop::SRem => Op::SRem, Bop::Shl => Op::Shl, Bop::LShr => Op::LShr, Bop::AShr => Op::AShr, Bop::And => Op::And, Bop::Or => Op::Or, Bop::Xor => Op::Xor };
        if let (V::I(x), V::I(y)) = (a, b) {
            if w <= 64 {
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let r = match op {
                    Bop::Add => x.wrapping_add(*y), Bop::Sub => x.wrapping_sub(*y), Bop::Mul => x.wrapping_mul(*y),
                    Bop::And => x & y, Bop::Or => x | y, Bop::Xor => x ^ y,
                    Bop::Shl => if *y >= w as u64 { 0 } else { x << y },
                    Bop::LShr => if *y >= w as u64 { 0 } else { x >> y },
                    _ => Terms::fold(top, w, *x as u128, *y as u128) as u64,
                };
                return V::I(r & m);
            }
        }
        if let (Some(x), Some(y)) = (Self::conc_of(a), Self::conc_of(b)) { return Self::mkval(Terms::fold(top, w, x, y), w); }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let t = self.ts.bin(top, x, y);
        self.val(t)
    }
    pub fn icmp(&mut self, p: u8, w: u16, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (sx, sy) = if sgn(p) { (sext(*x as u128, w) as i64, sext(*y as u128, w) as i64) } else { (0, 0) };
            return V::I(match p { 32 => x == y, 33 => x != y, 34 => x > y, 35 => x >= y, 36 => x < y, 37 => x <= y, 38 => sx > sy, 39 => sx >= sy, 40 => sx < sy, _ => sx <= sy } as u64);
        }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let (op, s, n) = match p { 32 => (Op::Eq, false, false), 33 => (Op::Eq, false, true), 34 => (Op::Ult, true, false), 35 => (Op::Ule, true, false), 36 => (Op::Ult, false, false), 37 => (Op::Ule, false, false), 38 => (Op::Slt, true, false), 39 => (Op::Sle, true, false), 40 => (Op::Slt, false, false), _ => (Op::Sle, false, false) };
        let mut t = if s { self.ts.bin(op, y, x) } else { self.ts.bin(op, x, y) };
        if n { t = self.ts.not(t); }
        self.val(t)
    }
    pub fn sel(&mut self, c: &V, ty: &Ty, a: &V, b: &V) -> Rs<V> {
        match c {
            V::I(x) => Ok(if x & 1 == 1 { a.clone() } else { b.clone() }),
            V::S(t) => match (a, b) {
                (V::A(x), V::A(y)) => {
                    let mut o = Vec::with_capacity(x.len());
                    for i in 0..x.len() {
                        let et = match ty { Ty::Struct(f) => f[i].0, Ty::Vec(_, e) | Ty::Arr(_, e, _) => e, _ => return eng("select agg") };
                        o.push(self.sel(c, et, &x[i], &y[i])?);
                    }
                    Ok(V::A(o.into()))
                }
                _ => {
                    let w = match ty.bits() { Some(w) => w, None => return eng("select type") };
                    let (x, y) = (self.term(a, w), self.term(b, w));
                    let r = self.ts.ite(*t, x, y);
                    Ok(self.val(r))
                }
            },
            _ => eng("select cond"),
        }
    }
    fn fval(&self, v: &V, ty: &Ty) -> Rs<f64> {
        match (v, ty) { (V::I(x), Ty::F64) => Ok(f64::from_bits(*x)), (V::I(x), Ty::F32) => Ok(f32::from_bits(*x as u32) as f64), _ => eng("symbolic floating point") }
    }
    fn fmk(v: f64, ty: &Ty) -> V { match ty { Ty::F32 => V::I((v as f32).to_bits() as u64), _ => V::I(v.to_bits()) } }
    pub fn cast(&mut self, k: Cst, f: &Ty, t: &Ty, a: &V) -> Rs<V> {
        if let (Ty::Vec(n, fe), Ty::Vec(m, te), V::A(x)) = (f, t, a) {
            if k != Cst::Bit || (n == m) {
                let mut o = Vec::with_capacity(*n as usize);
                for e in x.iter() { o.push(self.cast(k, fe, te, e)?); }
                return Ok(V::A(o.into()));
            }
            let (fw, tw) = (fe.bits().unwrap(), te.bits().unwrap());
            // lane regrouping
            if (*n as u16 * fw) <= 128 {
                let j = self.join_vec(x, fw)?;
                return self.split_vec(&j, *n as u16 * fw, *m, tw);
            }
            return eng("wide vector bitcast");
        }
        match k {
            Cst::Trunc => { let w = t.bits().unwrap(); match a { V::I(x) => Ok(V::I(*x & mask(w) as u64)), V::W(x) => Ok(Self::mkval(**x & mask(w), w)), V::S(s) => { let r = self.ts.extract(*s, 0, w); Ok(self.val(r)) } _ => eng("trunc") } }
            Cst::ZExt => { let w = t.bits().unwrap(); match a { V::I(x) => Ok(Self::mkval(*x as u128, w)), V::W(_) => Ok(a.clone()), V::S(s) => { let r = self.ts.zext(*s, w); Ok(self.val(r)) } _ => eng("zext") } }
            Cst::SExt => { let (fw, w) = (f.bits().unwrap(), t.bits().unwrap()); match a { V::I(x) => Ok(Self::mkval(sext(*x as u128, fw) as u128 & mask(w), w)), V::W(x) => Ok(Self::mkval(sext(**x, fw) as u128 & mask(w), w)), V::S(s) => { let r = self.ts.sext(*s, w); Ok(self.val(r)) } _ => eng("sext") } }
            Cst::Bit => match (f, t, a) {
                (Ty::Vec(_, e), _, V::A(x)) if t.bits().is_some() => self.join_vec(x, e.bits().unwrap()),
                (_, Ty::Vec(n, e), _) if f.bits().is_some() => self.split_vec(a, f.bits().unwrap(), *n, e.bits().unwrap()),
                _ => Ok(a.clone()),
            },
            Cst::FPToUI => { let w = t.bits().unwrap(); let v = self.fval(a, f)?; Ok(Self::mkval((v as u128) & mask(w), w)) }
            Cst::FPToSI => { let w = t.bits().unwrap(); let v = self.fval(a, f)?; Ok(Self::mkval((v as i128) as u128 & mask(w), w)) }
            Cst::UIToFP => match Self::conc_of(a) { Some(x) => Ok(match t { Ty::F32 => V::I((x as f32).to_bits() as u64), _ => V::I((x as f64).to_bits()) }), None => eng("symbolic uitofp") },
            Cst::SIToFP => match Self::conc_of(a) { Some(x) => { let s = sext(x, f.bits().unwrap()); Ok(match t { Ty::F32 => V::I((s as f32).to_bits() as u64), _ => V::I((s as f64).to_bits()) }) } None => eng("symbolic sitofp") },
            Cst::FPTrunc | Cst::FPExt => { let v = self.fval(a, f)?; Ok(Self::fmk(v, t)) }
        }
    }
    fn fcmp(p: u8, a: f64, b: f64) -> bool {
        let un = a.is_nan() || b.is_nan();
        match p { 0 => false, 1 => a == b, 2 => a > b, 3 => a >= b, 4 => a < b, 5 => a <= b, 6 => !un && a != b, 7 => !un, 8 => un, 9 => un || a == b, 10 => un || a > b, 11 => un || a >= b, 12 => un || a < b, 13 => un || a <= b, 14 => un || a != b, _ => true }
    }
    pub fn fop1(&self, name: &str, v: &V, ty: &Ty) -> Rs<V> {
        let x = self.fval(v, ty)?;
        Ok(Self::fmk(match name { "fabs" => x.abs(), "floor" => x.floor(), "ceil" => x.ceil(), "trunc" => x.trunc(), "sqrt" => x.sqrt(), "round" => x.round(), "rint" | "nearbyint" | "roundeven" => x.round_ties_even(), _ => return eng("fop") }, ty))
    }
    pub fn fop2(&self, name: &str, a: &V, b: &V, ty: &Ty) -> Rs<V> {
        let (x, y) = (self.fval(a, ty)?, self.fval(b, ty)?);
        Ok(Self::fmk(match name { "copysign" => x.copysign(y), "minnum" | "minimumnum" => x.min(y), "maxnum" | "maximumnum" => x.max(y), _ => return eng("fop2") }, ty))
    }
    pub fn f2i_sat(&self, signed: bool, v: &V, f: &Ty, w: u16) -> Rs<V> {
        let x = self.fval(v, f)?;
        let r = if signed { let lo = -(1i128 << (w - 1)); let hi = (1i128 << (w - 1)) - 1; ((x as i128).clamp(lo, hi)) as u128 & mask(w) } else { (x as u128).min(mask(w)) };
        Ok(Self::mkval(r, w))
    }

    pub fn stack(&self, st: &State) -> Vec<String> {
        let mut v: Vec<String> = st.threads[st.cur].frames.iter().rev().map(|f| f.f.name.clone()).take(40).collect();
        v.insert(0, format!("thread {}", st.cur));
        v
    }
    pub fn values(&mut self, st: &State, m: &HashMap<u32, u128>) -> Vec<(u16, u128)> {
        st.vars.iter().map(|(w, id, k)| match id { None => (*w, *k as u128), Some(i) => (*w, m.get(i).copied().unwrap_or_else(|| st.model.get(i).copied().unwrap_or(0))) }).collect()
    }
    pub fn record(&mut self, st: &State, kind: &str, msg: &str, m: Option<&HashMap<u32, u128>>) {
        let e = HashMap::new();
        let values = self.values(st, m.unwrap_or(&e));
        let stack = self.stack(st);
        if self.viols.iter().filter(|v| v.msg == msg).count() >= 2 { return; }
        self.viols.push(Viol { kind: kind.into(), msg: msg.into(), values, stack, notes: st.notes.iter().map(|s| s.to_string()).collect() });
    }

    pub fn push_frame(&mut self, st: &mut State, fi: u32, args: Vec<V>, d: u32, edge: Option<&'static Edge>, boot: bool) -> Rs<()> {
        let f = self.md.get_func(fi);
        if f.code.is_empty() { return eng(format!("call of empty function {}", f.name)); }
        let mut regs = args;
        if regs.len() > f.nparams as usize { regs.truncate(f.nparams as usize); }
        regs.resize(f.nregs as usize, V::I(0));
        let th = &mut st.threads[st.cur];
        if th.frames.len() > 4000 { return viol("stack overflow", "call depth exceeds 4000"); }
        th.frames.push(Frame { f, pc: 0, regs, d, edge, allocas: vec![], boot });
        Ok(())
    }
    pub fn start(&mut self, entry: &str) -> Rs<State> {
        let mut st = State { mem: Mem::new(self.md.first_dyn()), threads: vec![Thread { frames: vec![], tls: Default::default(), dtors: vec![] }], cur: 0, pc: vec![], model: Default::default(), known: Default::default(), vars: vec![], nvars: 0, icount: 0, notes: vec![], labels: Default::default(), forks: 0, pending: None };
        let fi = match self.md.fname.get(entry) { Some(f) => *f, None => return eng(format!("no entry {}", entry)) };
        self.push_frame(&mut st, fi, vec![], NOREG, None, false)?;
        for g in self.md.ctors.clone().into_iter().rev() {
            let t = self.template(g)?;
            for c in t.data.chunks(8).rev() {
                let a = u64::from_le_bytes(c.try_into().unwrap());
                if a == 0 || a == u64::MAX { continue; }
                let fi = (a >> OFF_BITS) as u32 - 1;
                if self.md.funcs[fi as usize].1.contains("sys4args") { continue; }
                self.push_frame(&mut st, fi, vec![V::I(0), V::I(0), V::I(0)], NOREG, None, true)?;
            }
        }
        Ok(st)
    }

    /// Run until the path stops. A Fork leaves `st` at the instruction that must be re-executed.
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.run_frame(st) {
                Ok(()) => continue,
                Err(s) => match *s { Stop::Frame => continue, s => return s },
            }
        }
    }
    pub fn apply_fork(&mut self, st: &mut State, c: T, v: bool, m: &HashMap<u32, u128>) -> State {
        let mut o = st.clone();
        o.assert(&mut self.ts, c, !v);
        o.merge_model(m);
        o.forks += 1;
        st.assert(&mut self.ts, c, v);
        st.forks += 1;
        self.ps.forks += 1;
        if self.profile.is_some() { let k = self.stack(st).into_iter().skip(1).take(4).collect::<Vec<_>>().join(" < "); *self.fork_sites.entry(k).or_default() += 1; }
        o
    }
    pub fn assume(&mut self, st: &mut State, v: &V) -> Rs<()> {
        match v {
            V::I(x) => if x & 1 == 1 { Ok(()) } else { Err(Box::new(Stop::Infeasible)) },
            V::S(t) => {
                let t = if self.ts.w(*t) == 1 { *t } else { self.ts.extract(*t, 0, 1) };
                if let Some(k) = self.ts.cv(t) { return if k == 1 { Ok(()) } else { Err(Box::new(Stop::Infeasible)) }; }
                if let Some(&k) = st.known.get(&t) { return if k == 1 { Ok(()) } else { Err(Box::new(Stop::Infeasible)) }; }
                if self.eval(st, t) == 1 { st.assert(&mut self.ts, t, true); return Ok(()); }
                match self.sol.check(&self.ts, &st.pc, t) {
                    Res::Sat(m) => { st.merge_model(&m); st.assert(&mut self.ts, t, true); Ok(()) }
                    Res::Unsat => Err(Box::new(Stop::Infeasible)),
                    Res::Unknown => eng("solver returned unknown"),
                }
            }
            _ => eng("assume"),
        }
    }
    /// an assertion tagged "[P1,P2] ..." counts only when one of those properties is being decided
    pub fn relevant(&self, msg: &str) -> bool {
        if self.prop.is_empty() || !msg.starts_with('[') { return true; }
        match msg.find(']') { Some(e) => msg[1..e].split(',').any(|p| p == self.prop), None => true }
    }
    pub fn check(&mut self, st: &mut State, v: &V, msg: &str) -> Rs<()> {
        let e = self.checked.entry(msg.to_string()).or_default();
        match v {
            V::I(x) => {
                e.0 += 1;
                self.ps.checks_conc += 1;
                if x & 1 == 1 { Ok(()) } else { viol("assertion", msg) }
            }
            V::S(t) => {
                let t = if self.ts.w(*t) == 1 { *t } else { self.ts.extract(*t, 0, 1) };
                if let Some(k) = self.ts.cv(t) { return self.check(st, &V::I(k as u64), msg); }
                if let Some(&k) = st.known.get(&t) { return self.check(st, &V::I(k as u64), msg); }
                e.1 += 1;
                self.ps.checks_sym += 1;
                let n = self.ts.not(t);
                match self.sol.check(&self.ts, &st.pc, n) {
                    Res::Unsat => { st.known.insert(t, 1); Ok(()) }
                    Res::Sat(m) => { self.record(st, "assertion", msg, Some(&m)); self.assume(st, &V::S(t)) }
                    Res::Unknown => eng("solver returned unknown"),
                }
            }
            _ => eng("check"),
        }
    }
    pub fn new_var(&mut self, st: &mut State, w: u16) -> V {
        let t = self.ts.var(st.nvars, w);
        let id = self.ts.n(t).k as u32;
        st.nvars += 1;
        st.vars.push((w, Some(id), 0));
        V::S(t)
    }

    fn run_frame(&mut self, st: &mut State) -> Rs<()> {
        let cur = st.cur;
        let fr: &mut Frame = unsafe { &mut *(st.threads[cur].frames.last_mut().unwrap() as *mut Frame) };
        let f: &'static Func = fr.f;
        macro_rules! g { ($o:expr) => {{ let o = $o; if o & KBIT != 0 { &f.consts[(o & !KBIT) as usize] } else { unsafe { &*(fr.regs.get_unchecked(o as usize) as *const V) } } }}; }
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; fr.regs[$d as usize] = v; }}; }
        macro_rules! go { ($e:expr) => {{ let e: &Edge = $e; match e.moves.len() { 0 => {} 1 => { let v = g!(e.moves[0].1).clone(); fr.regs[e.moves[0].0 as usize] = v; } _ => { let vs: Vec<V> = e.moves.iter().map(|m| g!(m.1).clone()).collect(); for (m, v) in e.moves.iter().zip(vs) { fr.regs[m.0 as usize] = v; } } } fr.pc = f.blocks[e.to as usize]; continue; }}; }
        let count0 = st.icount;
        if st.icount > self.max_instr { return Err(Box::new(Stop::Limit(format!("more than {} instructions on one path", self.max_instr)))); }
        let mut n = 0u64;
        if let Some(p) = &mut self.profile { *p.entry(f.id).or_default() += 1; }
        let r: Rs<()> = (|| -> Rs<()> { loop {
            n += 1;
            if n & 0xfffff == 0 && count0 + n > self.max_instr { return Err(Box::new(Stop::Limit(format!("more than {} instructions on one path", self.max_instr)))); }
            let ins = unsafe { f.code.get_unchecked(fr.pc as usize) };
            match ins {
                I::Bin { op, w, a, b, d } => { let v = self.bin(*op, *w, g!(*a), g!(*b)); set!(*d, v); }
                I::ICmp { p, w, a, b, d } => { let v = self.icmp(*p, *w, g!(*a), g!(*b)); set!(*d, v); }
                I::Load { ty, p, d } => {
                    let v = match g!(*p) { V::I(a) => self.read_val(st, *a, ty)?, V::S(t) => { let t = *t; self.load_sym(st, t, ty)? } _ => return eng("load ptr") };
                    set!(*d, v);
                }
                I::Store { ty, v, p } => {
                    let a = match g!(*p) { V::I(a) => *a, x => { let x = x.clone(); self.conc64(st, &x)? } };
                    self.write_val(st, a, g!(*v), ty)?;
                }
                I::Gep { base, off, idx, d } => {
                    let mut acc = match g!(*base) { V::I(b) => V::I(b.wrapping_add(*off as u64)), x => { let x = x.clone(); self.bin(Bop::Add, 64, &x, &V::I(*off as u64)) } };
                    for (o, s, w) in idx.iter() {
                        let x = g!(*o);
                        match (&acc, x) {
                            (V::I(b), V::I(i)) => { acc = V::I(b.wrapping_add((sext(*i as u128, *w) as i64).wrapping_mul(*s) as u64)); }
                            _ => {
                                let x = x.clone();
                                let e = if *w < 64 { self.cast(Cst::SExt, &Ty::Int(*w), &Ty::Int(64), &x)? } else { x };
                                let m = self.bin(Bop::Mul, 64, &e, &V::I(*s as u64));
                                acc = self.bin(Bop::Add, 64, &acc, &m);
                            }
                        }
                    }
                    set!(*d, acc);
                }
                I::Br(e) => go!(e),
                I::CondBr { c, t, f: fe } => {
                    let b = match g!(*c) { V::I(x) => x & 1 == 1, V::S(x) => { let x = *x; self.decide(st, x)? } _ => return eng("br") };
                    if b { go!(t) } else { go!(fe) }
                }
                I::Switch { w, v, cases, edges } => {
                    let x = g!(*v).clone();
                    let k = match Self::conc_of(&x) { Some(k) => k, None => { let t = self.term(&x, *w); if let Some(&k) = st.known.get(&t) { k } else { self.eval(st, t) } } };
                    let ei = match cases.binary_search_by_key(&k, |c| c.0) { Ok(i) => cases[i].1, Err(_) => 0 };
                    if let V::S(t) = x {
                        if !st.known.contains_key(&t) {
                            let mut any: Option<T> = None;
                            for (cv, e) in cases.iter() {
                                if (ei == 0 && *e != 0) || (ei != 0 && *e == ei) {
                                    let kc = self.ts.c(*cv, *w);
                                    let q = self.ts.bin(Op::Eq, t, kc);
                                    any = Some(match any { None => q, Some(a) => self.ts.bin(Op::Or, a, q) });
                                }
                            }
                            let want = ei != 0;
                            if let Some(a) = any { if self.decide(st, a)? != want { return eng("switch: model disagrees"); } }
                        }
                    }
                    go!(&edges[ei as usize])
                }
                I::Select { c, cv, ty, a, b, d } => {
                    let (c, a, b) = (g!(*c), g!(*a), g!(*b));
                    let v = if *cv {
                        if let (V::A(cs), V::A(x), V::A(y), Ty::Vec(_, e)) = (c, a, b, ty) {
                            let mut o = Vec::with_capacity(cs.len());
                            for i in 0..cs.len() { o.push(self.sel(&cs[i], e, &x[i], &y[i])?); }
                            V::A(o.into())
                        } else { return eng("vselect") }
                    } else { self.sel(c, ty, a, b)? };
                    set!(*d, v);
                }
                I::Cast { k, f: ft, t, a, d } => {
                    let x = g!(*a);
                    let v = match (k, x, t) { (Cst::ZExt, V::I(y), Ty::Int(w)) if *w <= 64 => V::I(*y), (Cst::Trunc, V::I(y), Ty::Int(w)) => V::I(*y & mask(*w) as u64), _ => self.cast(*k, ft, t, x)? };
                    set!(*d, v);
                }
                I::Call(c) => {
                    let c: &'static CallI = unsafe { &*(&**c as *const CallI) };
                    let fi = match &c.callee {
                        Callee::Func(fi) => *fi,
                        Callee::Builtin(b, name) => {
                            let args: Vec<V> = c.args.iter().map(|o| g!(*o).clone()).collect();
                            let r = self.builtin(st, *b, name, &args, c)?;
                            if c.d != NOREG { match r { Some(v) => set!(c.d, v), None => set!(c.d, Module::zero(c.rty)) } }
                            match &c.edge { Some(e) => { match e.moves.len() { 0 => {} _ => { let vs: Vec<V> = e.moves.iter().map(|m| g!(m.1).clone()).collect(); for (m, v) in e.moves.iter().zip(vs) { fr.regs[m.0 as usize] = v; } } } fr.pc = f.blocks[e.to as usize]; } None => fr.pc += 1 }
                            if st.cur != cur { return Err(Box::new(Stop::Frame)); }
                            continue;
                        }
                        Callee::Dyn(o) => {
                            let x = g!(*o).clone();
                            let a = self.conc64(st, &x)?;
                            let id = a >> OFF_BITS;
                            if a & OFF_MASK != 0 || id == 0 || id > self.md.funcs.len() as u64 { return viol("memory", format!("call through bad function pointer {:#x}", a)); }
                            let fi = (id - 1) as u32;
                            let decl = self.md.funcs[fi as usize].2;
                            let nm = self.md.funcs[fi as usize].1.clone();
                            if let Some(b) = crate::builtins::id_of(&nm, decl) {
                                let args: Vec<V> = c.args.iter().map(|o| g!(*o).clone()).collect();
                                let r = self.builtin(st, b, &nm, &args, c)?;
                                if c.d != NOREG { match r { Some(v) => set!(c.d, v), None => set!(c.d, Module::zero(c.rty)) } }
                                match &c.edge { Some(e) => { let vs: Vec<V> = e.moves.iter().map(|m| g!(m.1).clone()).collect(); for (m, v) in e.moves.iter().zip(vs) { fr.regs[m.0 as usize] = v; } fr.pc = f.blocks[e.to as usize]; } None => fr.pc += 1 }
                                if st.cur != cur { return Err(Box::new(Stop::Frame)); }
                                continue;
                            }
                            if decl { return eng(format!("call of external function {}", nm)); }
                            fi
                        }
                        Callee::Asm(s) => {
                            let args: Vec<V> = c.args.iter().map(|o| g!(*o).clone()).collect();
                            let v = self.asm(s, &args, c)?;
                            if c.d != NOREG { set!(c.d, v); }
                            fr.pc += 1;
                            continue;
                        }
                    };
                    let mut regs = Vec::with_capacity(8);
                    for o in c.args.iter() { regs.push(g!(*o).clone()); }
                    self.push_frame(st, fi, regs, c.d, unsafe { std::mem::transmute::<Option<&Edge>, Option<&'static Edge>>(c.edge.as_ref()) }, false)?;
                    return Ok(());
                }
                I::Ret(_) | I::RetVoid => {
                    let v = match ins { I::Ret(o) => Some(g!(*o).clone()), _ => None };
                    let th = &mut st.threads[cur];
                    let fr = th.frames.pop().unwrap();
                    for a in &fr.allocas { st.mem.free(*a); }
                    let th = &mut st.threads[cur];
                    if fr.boot { return Ok(()); }
                    if th.frames.is_empty() {
                        if cur == 0 { return Err(Box::new(Stop::Done)); }
                        return eng("an engine thread returned");
                    }
                    let caller = th.frames.last_mut().unwrap();
                    if fr.d != NOREG { if let Some(v) = v { caller.regs[fr.d as usize] = v; } }
                    match fr.edge {
                        None => caller.pc += 1,
                        Some(e) => {
                            let cf = caller.f;
                            let vs: Vec<V> = e.moves.iter().map(|m| if m.1 & KBIT != 0 { cf.consts[(m.1 & !KBIT) as usize].clone() } else { caller.regs[m.1 as usize].clone() }).collect();
                            for (m, v) in e.moves.iter().zip(vs) { caller.regs[m.0 as usize] = v; }
                            caller.pc = cf.blocks[e.to as usize];
                        }
                    }
                    return Ok(());
                }
                I::Intr { k, name, args, tys, rty, d } => {
                    let a: Vec<V> = args.iter().map(|o| g!(*o).clone()).collect();
                    let r = self.intr(st, *k, name, &a, tys, rty)?;
                    if *d != NOREG { match r { Some(v) => set!(*d, v), None => return eng(format!("intrinsic {} without value", name)) } }
                }
                I::ExtractValue { a, idx, d } => {
                    let mut v = g!(*a);
                    for i in idx.iter() { match v { V::A(x) => v = &x[*i as usize], _ => return eng("extractvalue") } }
                    let v = v.clone();
                    set!(*d, v);
                }
                I::InsertValue { a, v, idx, ty, d } => {
                    let base = g!(*a).clone();
                    let nv = g!(*v).clone();
                    let _ = ty;
                    fn ins(b: &V, idx: &[u32], nv: V) -> V {
                        if idx.is_empty() { return nv; }
                        match b { V::A(x) => { let mut y: Vec<V> = x.to_vec(); y[idx[0] as usize] = ins(&x[idx[0] as usize], &idx[1..], nv); V::A(y.into()) } _ => panic!("insertvalue") }
                    }
                    set!(*d, ins(&base, idx, nv));
                }
                I::Alloca { size, n, nw: _, d } => {
                    let x = g!(*n).clone();
                    let c = self.conc64(st, &x)?;
                    let a = self.alloc(st, size * c, K_STACK)?;
                    fr.allocas.push(a >> OFF_BITS);
                    set!(*d, V::I(a));
                }
                I::Copy { a, d } => { let v = g!(*a).clone(); set!(*d, v); }
                I::Nop => {}
                I::VBin { op, w, n: _, a, b, d } => {
                    if let (V::A(x), V::A(y)) = (g!(*a).clone(), g!(*b).clone()) {
                        let mut o = Vec::with_capacity(x.len());
                        for i in 0..x.len() { o.push(self.bin(*op, *w, &x[i], &y[i])); }
                        set!(*d, V::A(o.into()));
                    } else { return eng("vbin") }
                }
                I::VICmp { p, w, n: _, a, b, d } => {
                    if let (V::A(x), V::A(y)) = (g!(*a).clone(), g!(*b).clone()) {
                        let mut o = Vec::with_capacity(x.len());
                        for i in 0..x.len() { o.push(self.icmp(*p, *w, &x[i], &y[i])); }
                        set!(*d, V::A(o.into()));
                    } else { return eng("vicmp") }
                }
                I::FBin { op, ty, a, b, d } => {
                    let (x, y) = (self.fval(g!(*a), ty)?, self.fval(g!(*b), ty)?);
                    let r = if let Ty::F32 = ty {
                        let (x, y) = (x as f32, y as f32);
                        V::I(match op { Fop::Add => x + y, Fop::Sub => x - y, Fop::Mul => x * y, Fop::Div => x / y, Fop::Rem => x % y }.to_bits() as u64)
                    } else { V::I(match op { Fop::Add => x + y, Fop::Sub => x - y, Fop::Mul => x * y, Fop::Div => x / y, Fop::Rem => x % y }.to_bits()) };
                    set!(*d, r);
                }
                I::FNeg { ty, a, d } => { let x = self.fval(g!(*a), ty)?; set!(*d, Self::fmk(-x, ty)); }
                I::FCmp { p, ty, a, b, d } => { let (x, y) = (self.fval(g!(*a), ty)?, self.fval(g!(*b), ty)?); set!(*d, V::I(Self::fcmp(*p, x, y) as u64)); }
                I::ExtractElem { a, i, d } => {
                    let ix = g!(*i).clone();
                    let k = self.conc64(st, &ix)? as usize;
                    match g!(*a) { V::A(x) => { let v = x.get(k).cloned().unwrap_or(V::I(0)); set!(*d, v); } _ => return eng("extractelement") }
                }
                I::InsertElem { a, v, i, d } => {
                    let ix = g!(*i).clone();
                    let k = self.conc64(st, &ix)? as usize;
                    match g!(*a) { V::A(x) => { let mut y = x.to_vec(); if k < y.len() { y[k] = g!(*v).clone(); } set!(*d, V::A(y.into())); } _ => return eng("insertelement") }
                }
                I::Shuffle { a, b, n: nn, mask: m, d } => {
                    let (x, y) = match (g!(*a), g!(*b)) { (V::A(x), V::A(y)) => (x.clone(), y.clone()), _ => return eng("shuffle") };
                    let o: Vec<V> = m.iter().map(|i| if *i < 0 { V::I(0) } else if (*i as u32) < *nn { x[*i as usize].clone() } else { y[*i as usize - *nn as usize].clone() }).collect();
                    set!(*d, V::A(o.into()));
                }
                I::CmpXchg { ty, p, e, n: nv, d } => {
                    let x = g!(*p).clone();
                    let a = self.conc64(st, &x)?;
                    let old = self.read_val(st, a, ty)?;
                    let w = ty.bits().unwrap();
                    let c = self.icmp(32, w, &old, &g!(*e).clone());
                    let ok = self.decide_v(st, &c)?;
                    if ok { self.write_val(st, a, &g!(*nv).clone(), ty)?; }
                    set!(*d, V::A(vec![old, V::I(ok as u64)].into()));
                }
                I::Rmw { op, ty, p, v, d } => {
                    let x = g!(*p).clone();
                    let a = self.conc64(st, &x)?;
                    let old = self.read_val(st, a, ty)?;
                    let w = ty.bits().unwrap();
                    let y = g!(*v).clone();
                    let nv = match op {
                        0 => y, 1 => self.bin(Bop::Add, w, &old, &y), 2 => self.bin(Bop::Sub, w, &old, &y), 3 => self.bin(Bop::And, w, &old, &y),
                        4 => { let t = self.bin(Bop::And, w, &old, &y); let m = Self::mkval(mask(w), w); self.bin(Bop::Xor, w, &t, &m) }
                        5 => self.bin(Bop::Or, w, &old, &y), 6 => self.bin(Bop::Xor, w, &old, &y),
                        7 | 8 | 9 | 10 => { let c = self.icmp(match op { 7 => 38, 8 => 40, 9 => 34, _ => 36 }, w, &old, &y); self.sel(&c, ty, &old, &y)? }
                        _ => return eng("atomicrmw op"),
                    };
                    self.write_val(st, a, &nv, ty)?;
                    set!(*d, old);
                }
                I::Unreachable => return viol("unreachable", "an unreachable instruction was executed"),
                I::VGep { text } => return eng(format!("vector gep {}", text)),
                I::Unsup(s) => return eng(format!("unsupported: {}", s)),
            }
            fr.pc += 1;
        } })();
        st.icount += n;
        self.ps.instrs += n;
        r
    }
    fn asm(&mut self, s: &str, args: &[V], c: &CallI) -> Rs<V> {
        if s.contains("cpuid") || s.contains("xgetbv") || s.contains("rdtsc") { return Ok(Module::zero(c.rty)); }
        let t = s.trim();
        if t.is_empty() || t.starts_with("/*") && t.ends_with("*/") && t.matches("*/").count() == 1 { return Ok(if args.len() == 1 && !matches!(c.rty, Ty::Void) { args[0].clone() } else { Module::zero(c.rty) }); }
        if s.trim() == "pause" || s.starts_with("// ") { return Ok(Module::zero(c.rty)); }
        eng(format!("inline asm {:?}", s))
    }
}
