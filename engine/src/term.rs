//! Hash-consed bit-vector terms (width 1..=128) with local simplification.
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, // k
    Var,   // k = index
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, ZExt, SExt,
    Extract, // k = low bit
    Concat,  // a = high, b = low
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u128,
}

#[derive(Default)]
struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
}
#[derive(Default, Clone)]
pub struct BuildFx;
impl std::hash::BuildHasher for BuildFx {
    type Hasher = FxHasher;
    fn build_hasher(&self) -> FxHasher { FxHasher(FxH(0)) }
}
#[allow(private_interfaces)]
pub struct FxHasher(FxH);
impl std::hash::Hasher for FxHasher {
    fn finish(&self) -> u64 { let x = self.0 .0; x ^ (x >> 29) }
    fn write(&mut self, b: &[u8]) { self.0.write(b) }
    fn write_u8(&mut self, x: u8) { self.0.write_u8(x) }
    fn write_u16(&mut self, x: u16) { self.0.write_u16(x) }
    fn write_u32(&mut self, x: u32) { self.0.write_u32(x) }
    fn write_u64(&mut self, x: u64) { self.0.write_u64(x) }
    fn write_u128(&mut self, x: u128) { self.0.write_u128(x) }
    fn write_usize(&mut self, x: usize) { self.0.write_u64(x as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildFx>;

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub struct Terms {
    pub nodes: Vec<Node>,
    pub vars_of: Vec<std::rc::Rc<[u32]>>, // sorted var ids
    pub rng: Vec<(u128, u128)>,           // unsigned bounds implied by the structure alone
    map: FxMap<Node, T>,
    var_set: FxMap<(T, T, T), std::rc::Rc<[u32]>>,
    pub var_w: Vec<u16>,
    var_ids: HashMap<(u32, u16), u32>, // (path index, width) -> var id
    empty: std::rc::Rc<[u32]>,
}

impl Terms {
    pub fn new() -> Self {
        Terms { nodes: vec![], vars_of: vec![], rng: vec![], map: Default::default(), var_set: Default::default(), var_w: vec![], var_ids: HashMap::new(), empty: std::rc::Rc::from(vec![]) }
    }
    #[inline]
    pub fn n(&self, t: T) -> &Node { &self.nodes[t as usize] }
    #[inline]
    pub fn w(&self, t: T) -> u16 { self.nodes[t as usize].w }
    #[inline]
    pub fn cv(&self, t: T) -> Option<u128> {
        let n = self.n(t);
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    fn mk(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) { return t; }
        if matches!(n.op, Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::Eq) {
            let ((al, ah), (bl, bh)) = (self.rng[n.a as usize], self.rng[n.b as usize]);
            // signed comparison equals unsigned comparison while both sign bits are known to be clear
            let half = mask(self.nodes[n.a as usize].w - 1);
            let pos = ah <= half && bh <= half;
            let d = match n.op {
                Op::Ult if ah < bl => Some(1), Op::Ult if al >= bh => Some(0),
                Op::Ule if ah <= bl => Some(1), Op::Ule if al > bh => Some(0),
                Op::Slt if pos && ah < bl => Some(1), Op::Slt if pos && al >= bh => Some(0),
                Op::Sle if pos && ah <= bl => Some(1), Op::Sle if pos && al > bh => Some(0),
                Op::Eq if ah < bl || bh < al => Some(0),
                _ => None,
            };
            if let Some(v) = d { return self.c(v, 1); }
        }
        let t = self.nodes.len() as T;
        let vs: std::rc::Rc<[u32]> = match n.op {
            Op::Const => self.empty.clone(),
            Op::Var => std::rc::Rc::from(vec![n.k as u32]),
            _ => {
                let (a, b, c) = (n.a, n.b, n.c);
                let nargs = Self::nargs(n.op);
                let mut sets: Vec<std::rc::Rc<[u32]>> = vec![self.vars_of[a as usize].clone()];
                if nargs > 1 { sets.push(self.vars_of[b as usize].clone()); }
                if nargs > 2 { sets.push(self.vars_of[c as usize].clone()); }
                sets.retain(|s| !s.is_empty());
                sets.dedup();
                if sets.is_empty() { self.empty.clone() }
                else if sets.len() == 1 { sets.pop().unwrap() }
                else {
                    let key = (sets[0].as_ptr() as usize as u32, sets[1].as_ptr() as usize as u32, 0);
                    let _ = key;
                    let mut v: Vec<u32> = sets.iter().flat_map(|s| s.iter().cloned()).collect();
                    v.sort(); v.dedup();
                    let mut r = None;
                    for s in &sets { if s.len() == v.len() { r = Some(s.clone()); break; } }
                    r.unwrap_or_else(|| std::rc::Rc::from(v))
                }
            }
        };
        let _ = &self.var_set;
        let r = self.range(&n);
        self.rng.push(r);
        self.nodes.push(n);
        self.vars_of.push(vs);
        self.map.insert(n, t);
        t
    }
    fn range(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let r = |t: T| self.rng[t as usize];
        let k = Self::nargs(n.op);
        let a = if k > 0 { r(n.a) } else { (0, m) };
        let b = if k > 1 { r(n.b) } else { (0, m) };
        let bits = |v: u128| mask((128 - v.leading_zeros()) as u16);
        match n.op {
            Op::Const => (n.k, n.k),
            Op::Add => match a.1.checked_add(b.1) { Some(h) if h <= m => (a.0 + b.0, h), _ => (0, m) },
            Op::Sub if a.0 >= b.1 => (a.0 - b.1, a.1 - b.0),
            Op::Mul => match a.1.checked_mul(b.1) { Some(h) if h <= m => (a.0 * b.0, h), _ => (0, m) },
            Op::UDiv if b.0 > 0 => (a.0 / b.1, a.1 / b.0),
            Op::URem if b.0 > 0 => (0, a.1.min(b.1 - 1)),
            Op::And => (0, a.1.min(b.1)),
            Op::Or => (a.0.max(b.0), bits(a.1) | bits(b.1)),
            Op::Xor => (0, bits(a.1) | bits(b.1)),
            Op::LShr if b.0 == b.1 && b.0 < 128 => (a.0 >> b.0, a.1 >> b.0),
            Op::Shl if b.0 == b.1 && b.0 < 128 && a.1 <= (m >> b.0) => (a.0 << b.0, a.1 << b.0),
            Op::Ite => { let (x, y) = (b, r(n.c)); (x.0.min(y.0), x.1.max(y.1)) }
            Op::ZExt => a,
            Op::Extract if n.k == 0 && a.1 <= m => a,
            Op::Concat => { let w = self.nodes[n.b as usize].w; (a.0 << w | b.0, a.1 << w | b.1) }
            _ => (0, m),
        }
    }
    pub fn nargs(op: Op) -> usize {
        match op {
            Op::Const | Op::Var => 0,
            Op::ZExt | Op::SExt | Op::Extract => 1,
            Op::Ite => 3,
            _ => 2,
        }
    }
    pub fn c(&mut self, v: u128, w: u16) -> T {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn var(&mut self, idx: u32, w: u16) -> T {
        let id = match self.var_ids.get(&(idx, w)) {
            Some(&i) => i,
            None => {
                let i = self.var_w.len() as u32;
                self.var_w.push(w);
                self.var_ids.insert((idx, w), i);
                i
            }
        };
        self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id as u128 })
    }
    fn n2(&mut self, op: Op, w: u16, a: T, b: T) -> T { self.mk(Node { op, w, a, b, c: 0, k: 0 }) }
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        let m = self.c(mask(w), w);
        self.bin(Op::Xor, a, m)
    }
    pub fn fold(op: Op, w: u16, x: u128, y: u128) -> u128 {
        let m = mask(w);
        let r = match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => if y == 0 { m } else { x / y },
            Op::URem => if y == 0 { x } else { x % y },
            Op::SDiv => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { if a < 0 { 1 } else { m } } else { a.wrapping_div(b) as u128 } }
            Op::SRem => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { x } else { a.wrapping_rem(b) as u128 } }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => if y >= w as u128 { 0 } else { x << y },
            Op::LShr => if y >= w as u128 { 0 } else { x >> y },
            Op::AShr => { let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 }; (sext(x, w) >> s) as u128 }
            Op::Eq => (x == y) as u128,
            Op::Ult => (x < y) as u128,
            Op::Ule => (x <= y) as u128,
            Op::Slt => (sext(x, w) < sext(y, w)) as u128,
            Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
            _ => unreachable!(),
        };
        match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => r & 1, _ => r & m }
    }
    /// upper bound on number of significant low bits
    fn sigbits(&self, t: T) -> u16 {
        let n = self.n(t);
        match n.op {
            Op::Const => 128 - n.k.leading_zeros() as u16,
            Op::ZExt => self.w(n.a),
            Op::And => self.sigbits(n.a).min(self.sigbits(n.b)),
            Op::Or | Op::Xor => self.sigbits(n.a).max(self.sigbits(n.b)),
            Op::Ite => self.sigbits(n.b).max(self.sigbits(n.c)),
            _ => n.w,
        }
    }
    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.cv(a), self.cv(b));
        let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => w };
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = Self::fold(op, w, x, y);
            return self.c(v, rw);
        }
        let m = mask(w);
        // commutative: constant to the right
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) { return self.bin_c(op, b, a, rw, m); }
        self.bin_c(op, a, b, rw, m)
    }
    fn bin_c(&mut self, op: Op, a: T, b: T, rw: u16, m: u128) -> T {
        let w = self.w(a);
        let ca = self.cv(a);
        let cb = self.cv(b);
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    let n = *self.n(a);
                    if n.op == Op::Add { if let Some(x) = self.cv(n.b) { let k = self.c(x.wrapping_add(y), w); return self.bin(Op::Add, n.a, k); } }
                    if let Some(r) = self.push_ite_const(op, a, y) { return r; }
                }
            }
            Op::Sub => {
                if a == b { return self.c(0, w); }
                if let Some(y) = cb { let k = self.c(y.wrapping_neg(), w); return self.bin(Op::Add, a, k); }
            }
            Op::Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.c(y.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, k); } }
            }
            Op::And => {
                if a == b { return a; }
                if cb == Some(0) { return b; }
                if cb == Some(m) { return a; }
                if let Some(y) = cb {
                    let n = *self.n(a);
                    if n.op == Op::And { if let Some(x) = self.cv(n.b) { let k = self.c(x & y, w); return self.bin(Op::And, n.a, k); } }
                    // low mask
                    if (y & (y + 1)) == 0 {
                        let bits = 128 - y.leading_zeros() as u16;
                        if self.sigbits(a) <= bits { return a; }
                        let lo = self.extract(a, 0, bits);
                        return self.zext(lo, w);
                    }
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        let k = self.c(y, iw);
                        let i = self.bin(Op::And, n.a, k);
                        return self.zext(i, w);
                    }
                    if let Some(r) = self.push_ite_const(op, a, y) { return r; }
                }
                if w == 1 {
                    // x & !x
                    if self.is_not_of(a, b) { return self.c(0, 1); }
                }
            }
            Op::Or => {
                if a == b { return a; }
                if cb == Some(0) { return a; }
                if cb == Some(m) { return b; }
                if w == 1 && self.is_not_of(a, b) { return self.c(1, 1); }
                if let Some(r) = self.or_concat(a, b) { return r; }
                if let Some(y) = cb { if let Some(r) = self.push_ite_const(op, a, y) { return r; } }
            }
            Op::Xor => {
                if a == b { return self.c(0, w); }
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    let n = *self.n(a);
                    if n.op == Op::Xor { if let Some(x) = self.cv(n.b) { let k = self.c(x ^ y, w); return self.bin(Op::Xor, n.a, k); } }
                    if w == 1 && y == 1 {
                        match n.op {
                            Op::Ult => return self.bin(Op::Ule, n.b, n.a),
                            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
                            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
                            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
                            _ => {}
                        }
                    }
                    if let Some(r) = self.push_ite_const(op, a, y) { return r; }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) { return a; }
                if ca == Some(0) { return a; }
                if let Some(y) = cb {
                    if y >= w as u128 { if op != Op::AShr { return self.c(0, w); } }
                    else {
                        let s = y as u16;
                        match op {
                            Op::LShr => { let hi = self.extract(a, s, w - s); return self.zext(hi, w); }
                            Op::Shl => { let lo = self.extract(a, 0, w - s); let z = self.c(0, s); return self.concat(lo, z); }
                            _ => { let hi = self.extract(a, s, w - s); return self.sext(hi, w); }
                        }
                    }
                }
            }
            Op::UDiv => { if cb == Some(1) { return a; }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.c(y.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, k); } } }
            Op::URem => { if let Some(y) = cb { if y.is_power_of_two() { let k = self.c(y - 1, w); return self.bin(Op::And, a, k); } } }
            Op::Eq => {
                if a == b { return self.c(1, 1); }
                if w == 1 {
                    if cb == Some(1) { return a; }
                    if cb == Some(0) { return self.not(a); }
                }
                if let Some(y) = cb {
                    let n = *self.n(a);
                    match n.op {
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            if y & !mask(iw) != 0 { return self.c(0, 1); }
                            let k = self.c(y, iw);
                            return self.bin(Op::Eq, n.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(n.a);
                            if (sext(y & mask(iw), iw) as u128) & m != y { return self.c(0, 1); }
                            let k = self.c(y, iw);
                            return self.bin(Op::Eq, n.a, k);
                        }
                        Op::Add => if let Some(x) = self.cv(n.b) { let k = self.c(y.wrapping_sub(x), w); return self.bin(Op::Eq, n.a, k); },
                        Op::Xor => if let Some(x) = self.cv(n.b) { let k = self.c(y ^ x, w); return self.bin(Op::Eq, n.a, k); },
                        Op::Concat => {
                            let lw = self.w(n.b);
                            let hw = self.w(n.a);
                            let kl = self.c(y & mask(lw), lw);
                            let kh = self.c(y >> lw, hw);
                            let e1 = self.bin(Op::Eq, n.a, kh);
                            let e2 = self.bin(Op::Eq, n.b, kl);
                            return self.bin(Op::And, e1, e2);
                        }
                        Op::Ite => {
                            let (cx, cy) = (self.cv(n.b), self.cv(n.c));
                            if cx.is_some() || cy.is_some() {
                                let e1 = self.bin(Op::Eq, n.b, b);
                                let e2 = self.bin(Op::Eq, n.c, b);
                                return self.ite(n.a, e1, e2);
                            }
                        }
                        Op::And | Op::Or => {}
                        _ => {}
                    }
                    if self.sigbits(a) < w && (y >> self.sigbits(a)) != 0 { return self.c(0, 1); }
                } else {
                    let (na, nb) = (*self.n(a), *self.n(b));
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
                }
            }
            Op::Ult => {
                if a == b { return self.c(0, 1); }
                if cb == Some(0) { return self.c(0, 1); }
                if cb == Some(1) { let z = self.c(0, w); return self.bin(Op::Eq, a, z); }
                if ca == Some(m) { return self.c(0, 1); }
                if ca == Some(0) { let z = self.c(0, w); let e = self.bin(Op::Eq, b, z); return self.not(e); }
                if let Some(y) = cb {
                    let sb = self.sigbits(a);
                    if sb < 128 && (1u128 << sb) <= y { return self.c(1, 1); }
                    let n = *self.n(a);
                    if n.op == Op::ZExt { let iw = self.w(n.a); let k = self.c(y, iw); return self.bin(Op::Ult, n.a, k); }
                    if let Some(r) = self.push_ite_const(op, a, y) { return r; }
                }
                if let Some(x) = ca {
                    let n = *self.n(b);
                    let sb = self.sigbits(b);
                    if sb < 128 && mask(sb) <= x { return self.c(0, 1); }
                    if n.op == Op::ZExt { let iw = self.w(n.a); let k = self.c(x, iw); return self.bin(Op::Ult, k, n.a); }
                }
            }
            Op::Ule => {
                if a == b { return self.c(1, 1); }
                if ca == Some(0) || cb == Some(m) { return self.c(1, 1); }
                if cb == Some(0) { return self.bin(Op::Eq, a, b); }
                if let Some(y) = cb { let k = self.c(y + 1, w); return self.bin(Op::Ult, a, k); }
                if let Some(x) = ca { let k = self.c(x - 1, w); return self.bin(Op::Ult, k, b); }
            }
            Op::Slt => { if a == b { return self.c(0, 1); }
                if let Some(y) = cb {
                    let n = *self.n(a);
                    if n.op == Op::ZExt && self.w(n.a) < w {
                        if sext(y, w) <= 0 { return self.c(0, 1); }
                        return self.bin(Op::Ult, a, b);
                    }
                    if let Some(r) = self.push_ite_const(op, a, y) { return r; }
                } }
            Op::Sle => { if a == b { return self.c(1, 1); } }
            _ => {}
        }
        self.n2(op, rw, a, b)
    }
    fn is_not_of(&self, a: T, b: T) -> bool {
        let (na, nb) = (self.n(a), self.n(b));
        (na.op == Op::Xor && na.a == b && self.cv(na.b) == Some(1)) || (nb.op == Op::Xor && nb.a == a && self.cv(nb.b) == Some(1))
    }
    /// op(ite(c,k1,k2), y) -> ite(c, k1 op y, k2 op y) when both branches constant
    fn push_ite_const(&mut self, op: Op, a: T, y: u128) -> Option<T> {
        let n = *self.n(a);
        if n.op != Op::Ite { return None; }
        let w = n.w;
        let x1 = self.cv(n.b);
        let x2 = self.cv(n.c);
        if x1.is_none() && x2.is_none() { return None; }
        if x1.is_none() || x2.is_none() {
            // allow when the other branch is itself an ite (chain)
            let o = if x1.is_none() { n.b } else { n.c };
            if self.n(o).op != Op::Ite { return None; }
        }
        let k = self.c(y, w);
        let r1 = self.bin(op, n.b, k);
        let r2 = self.bin(op, n.c, k);
        Some(self.ite(n.a, r1, r2))
    }
    /// or of disjoint zext / shl pieces -> concat
    fn or_concat(&mut self, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        let try1 = |s: &mut Self, hi: T, lo: T| -> Option<T> {
            // hi = concat(x, 0_k), lo has sigbits <= k
            let n = *s.n(hi);
            if n.op == Op::Concat {
                if s.cv(n.b) == Some(0) {
                    let k = s.w(n.b);
                    if s.sigbits(lo) <= k {
                        let l = s.extract(lo, 0, k);
                        return Some(s.concat(n.a, l));
                    }
                }
            }
            if n.op == Op::ZExt {
                let m = *s.n(n.a);
                if m.op == Op::Concat && s.cv(m.b) == Some(0) && s.sigbits(lo) <= s.w(m.b) {
                    let k = s.w(m.b);
                    let l = s.extract(lo, 0, k);
                    let c = s.concat(m.a, l);
                    return Some(s.zext(c, w));
                }
            }
            None
        };
        if let Some(r) = try1(self, a, b) { return Some(r); }
        try1(self, b, a)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b { return a; }
        if let Some(v) = self.cv(c) { return if v == 1 { a } else { b }; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let n = *self.n(c);
        if n.op == Op::Xor && self.cv(n.b) == Some(1) { return self.ite(n.a, b, a); }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let nc = self.not(c); return self.bin(Op::And, nc, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let nc = self.not(c); return self.bin(Op::Or, nc, a); }
                _ => {}
            }
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn zext(&mut self, a: T, w: u16) -> T {
        let aw = self.w(a);
        if aw == w { return a; }
        debug_assert!(aw < w);
        let n = *self.n(a);
        match n.op {
            Op::Const => return self.c(n.k, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => { let x = self.zext(n.b, w); let y = self.zext(n.c, w); return self.ite(n.a, x, y); }
            _ => {}
        }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: T, w: u16) -> T {
        let aw = self.w(a);
        if aw == w { return a; }
        let n = *self.n(a);
        match n.op {
            Op::Const => return self.c(sext(n.k, aw) as u128, w),
            Op::ZExt => return self.zext(a, w),
            Op::SExt => return self.sext(n.a, w),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => { let x = self.sext(n.b, w); let y = self.sext(n.c, w); return self.ite(n.a, x, y); }
            _ => {}
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: T, lo: u16, w: u16) -> T {
        let aw = self.w(a);
        if lo == 0 && w == aw { return a; }
        debug_assert!(lo + w <= aw);
        let n = *self.n(a);
        match n.op {
            Op::Const => return self.c(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, n.k as u16 + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.c(0, w); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let l = self.extract(n.a, lo, iw - lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo == 0 { return self.sext(n.a, w); }
            }
            Op::Ite => {
                if self.cv(n.b).is_some() || self.cv(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        assert!(w <= 128, "concat too wide");
        let (nh, nl) = (*self.n(hi), *self.n(lo));
        if nh.op == Op::Const && nl.op == Op::Const { return self.c((nh.k << lw) | nl.k, w); }
        if nh.op == Op::Const && nh.k == 0 { return self.zext(lo, w); }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + lw as u128 {
            return self.extract(nh.a, nl.k as u16, w);
        }
        // extract(x, lo) ++ x[0..lo) where low is whole-trunc of x
        if nh.op == Op::Extract && nh.a == lo && nh.k == 0 { /* no */ }
        // concat(h, concat(l1,l2)) -> join h,l1 if adjacent
        if nl.op == Op::Concat {
            let m = *self.n(nl.a);
            if nh.op == Op::Extract && m.op == Op::Extract && nh.a == m.a && nh.k == m.k + m.w as u128 {
                let j = self.extract(nh.a, m.k as u16, hw + m.w);
                return self.concat(j, nl.b);
            }
            if nh.op == Op::Const && m.op == Op::Const {
                let j = self.concat(hi, nl.a);
                return self.concat(j, nl.b);
            }
        }
        if nh.op == Op::Concat {
            // ((a ++ b) ++ lo) -> a ++ (b ++ lo)  (right-assoc normal form)
            let r = self.concat(nh.b, lo);
            return self.concat(nh.a, r);
        }
        if nh.op == Op::ZExt && nl.op == Op::Extract {
            // zext(extract(x, k, n)) ++ extract(x, 0..k)
            let m = *self.n(nh.a);
            if m.op == Op::Extract && m.a == nl.a && m.k == nl.k + lw as u128 {
                let j = self.extract(m.a, nl.k as u16, m.w + lw);
                return self.zext(j, w);
            }
        }
        self.n2(Op::Concat, w, hi, lo)
    }
    pub fn eval(&self, t: T, model: &Model, memo: &mut FxMap<T, u128>) -> u128 {
        // iterative post-order
        if let Some(v) = self.cv(t) { return v; }
        if let Some(&v) = memo.get(&t) { return v; }
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if memo.contains_key(&x) { continue; }
            let n = *self.n(x);
            match n.op {
                Op::Const => { memo.insert(x, n.k); continue; }
                Op::Var => { memo.insert(x, model.get(n.k as u32)); continue; }
                _ => {}
            }
            if !done {
                stack.push((x, true));
                let na = Self::nargs(n.op);
                stack.push((n.a, false));
                if na > 1 { stack.push((n.b, false)); }
                if na > 2 { stack.push((n.c, false)); }
                continue;
            }
            let a = memo[&n.a];
            let v = match n.op {
                Op::Ite => if a == 1 { memo[&n.b] } else { memo[&n.c] },
                Op::ZExt => a,
                Op::SExt => (sext(a, self.w(n.a)) as u128) & mask(n.w),
                Op::Extract => (a >> n.k) & mask(n.w),
                Op::Concat => (a << self.w(n.b)) | memo[&n.b],
                op => Self::fold(op, self.w(n.a), a, memo[&n.b]),
            };
            memo.insert(x, v);
        }
        memo[&t]
    }
}

#[derive(Clone, Default, Debug)]
pub struct Model { pub m: std::rc::Rc<HashMap<u32, u128>> }
impl Model {
    #[inline]
    pub fn get(&self, v: u32) -> u128 { self.m.get(&v).copied().unwrap_or(0) }
}
