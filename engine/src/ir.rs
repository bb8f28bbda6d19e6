//! Internal instruction form and the lazy translator from LLVM IR.
use crate::llvm::*;
use crate::term::{mask, T};
use std::collections::HashMap;
use std::ffi::CStr;
use std::rc::Rc;

pub const OFF_BITS: u32 = 28;
pub const OFF_MASK: u64 = (1 << OFF_BITS) - 1;

#[derive(Clone, Debug)]
pub enum V {
    I(u64),        // concrete, width <= 64 (ints, pointers, float bits)
    W(Rc<u128>),   // concrete, 64 < width <= 128
    S(T),          // symbolic term (never a Const node)
    A(Rc<[V]>),    // struct / array / vector
}

#[derive(Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Vec(u32, &'static Ty),
    Arr(u64, &'static Ty, u64),
    Struct(Vec<(&'static Ty, u64)>),
    Other,
}
pub type TyR = &'static Ty;
impl Ty {
    pub fn bits(&self) -> Option<u16> {
        match self { Ty::Int(w) => Some(*w), Ty::Ptr | Ty::F64 => Some(64), Ty::F32 => Some(32), _ => None }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bop { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fop { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cst { Trunc, ZExt, SExt, FPToUI, FPToSI, UIToFP, SIToFP, FPTrunc, FPExt, Bit }

pub type O = u32; // operand: high bit set = constant pool index
pub const KBIT: u32 = 1 << 31;
pub const NOREG: u32 = u32::MAX;

#[derive(Debug)]
pub struct Edge { pub to: u32, pub moves: Box<[(u32, O)]> }

#[derive(Debug)]
pub enum Callee { Func(u32), Builtin(u32, String), Dyn(O), Asm(String) }

#[derive(Debug)]
pub struct CallI { pub callee: Callee, pub args: Box<[O]>, pub arg_tys: Box<[TyR]>, pub d: u32, pub rty: TyR, pub edge: Option<Edge> }

#[derive(Debug)]
pub enum I {
    Bin { op: Bop, w: u16, a: O, b: O, d: u32 },
    VBin { op: Bop, w: u16, n: u32, a: O, b: O, d: u32 },
    FBin { op: Fop, ty: TyR, a: O, b: O, d: u32 },
    FNeg { ty: TyR, a: O, d: u32 },
    ICmp { p: u8, w: u16, a: O, b: O, d: u32 },
    VICmp { p: u8, w: u16, n: u32, a: O, b: O, d: u32 },
    FCmp { p: u8, ty: TyR, a: O, b: O, d: u32 },
    Cast { k: Cst, f: TyR, t: TyR, a: O, d: u32 },
    Select { c: O, cv: bool, ty: TyR, a: O, b: O, d: u32 },
    Load { ty: TyR, p: O, d: u32 },
    Store { ty: TyR, v: O, p: O },
    Gep { base: O, off: i64, idx: Box<[(O, i64, u16)]>, d: u32 },
    VGep { text: String },
    Alloca { size: u64, n: O, nw: u16, d: u32 },
    Br(Edge),
    CondBr { c: O, t: Edge, f: Edge },
    Switch { w: u16, v: O, cases: Box<[(u128, u32)]>, edges: Box<[Edge]> }, // edges[0] = default
    Ret(O),
    RetVoid,
    Unreachable,
    Call(Box<CallI>),
    Intr { k: u32, name: Rc<str>, args: Box<[O]>, tys: Box<[TyR]>, rty: TyR, d: u32 },
    ExtractValue { a: O, idx: Box<[u32]>, d: u32 },
    InsertValue { a: O, v: O, idx: Box<[u32]>, ty: TyR, d: u32 },
    ExtractElem { a: O, i: O, d: u32 },
    InsertElem { a: O, v: O, i: O, d: u32 },
    Shuffle { a: O, b: O, n: u32, mask: Box<[i32]>, d: u32 },
    CmpXchg { ty: TyR, p: O, e: O, n: O, d: u32 },
    Rmw { op: u8, ty: TyR, p: O, v: O, d: u32 },
    Nop,
    Copy { a: O, d: u32 },
    Unsup(String),
}

pub struct Func {
    pub id: u32,
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub code: Vec<I>,
    pub blocks: Vec<u32>,
    pub consts: Vec<V>,
}

pub struct GlobalInfo { pub v: R, pub name: String, pub size: u64, pub ro: bool, pub tls: bool, pub has_init: bool }

pub struct Module {
    pub m: R,
    pub td: R,
    pub funcs: Vec<(R, String, bool)>, // value, name, is_decl
    pub fidx: HashMap<usize, u32>,
    pub fname: HashMap<String, u32>,
    pub trans: Vec<Option<&'static Func>>,
    pub globals: Vec<GlobalInfo>,
    pub gidx: HashMap<usize, u32>,
    pub tys: HashMap<usize, TyR>,
    pub encoded: Vec<u32>,
    pub ctors: Vec<u32>,
}
// object ids: 1..=nfuncs functions; then globals; then dynamic
impl Module {
    pub fn load(path: &str) -> Module {
        unsafe {
            let m = parse(path);
            let td = LLVMGetModuleDataLayout(m);
            let mut md = Module { m, td, funcs: vec![], fidx: HashMap::new(), fname: HashMap::new(), trans: vec![], globals: vec![], gidx: HashMap::new(), tys: HashMap::new(), encoded: vec![], ctors: vec![] };
            let mut f = LLVMGetFirstFunction(m);
            while !f.is_null() {
                let n = name(f);
                let i = md.funcs.len() as u32;
                md.fidx.insert(f as usize, i);
                md.fname.insert(n.clone(), i);
                md.funcs.push((f, n, LLVMIsDeclaration(f) != 0));
                md.trans.push(None);
                f = LLVMGetNextFunction(f);
            }
            let mut g = LLVMGetFirstGlobal(m);
            let mut ctor_globals = vec![];
            while !g.is_null() {
                let i = md.globals.len() as u32;
                let n = name(g);
                let decl = LLVMIsDeclaration(g) != 0;
                let vt = LLVMGlobalGetValueType(g);
                let size = if decl { 64 } else { LLVMABISizeOfType(td, vt) };
                md.gidx.insert(g as usize, i);
                let s = LLVMGetSection(g);
                if !s.is_null() && CStr::from_ptr(s).to_bytes().starts_with(b".init_array") { ctor_globals.push(i); }
                md.globals.push(GlobalInfo { v: g, name: n, size, ro: LLVMIsGlobalConstant(g) != 0, tls: LLVMIsThreadLocal(g) != 0, has_init: !decl });
                g = LLVMGetNextGlobal(g);
            }
            md.ctors = ctor_globals;
            md
        }
    }
    pub fn func_addr(&self, i: u32) -> u64 { ((i as u64) + 1) << OFF_BITS }
    pub fn global_obj(&self, i: u32) -> u64 { self.funcs.len() as u64 + 1 + i as u64 }
    pub fn first_dyn(&self) -> u64 { self.funcs.len() as u64 + self.globals.len() as u64 + 2 }

    pub fn ty(&mut self, t: R) -> TyR {
        if let Some(x) = self.tys.get(&(t as usize)) { return x; }
        let r: Ty = unsafe {
            match LLVMGetTypeKind(t) {
                0 => Ty::Void,
                2 => Ty::F32,
                3 => Ty::F64,
                8 => Ty::Int(LLVMGetIntTypeWidth(t) as u16),
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    let mut v = vec![];
                    for i in 0..n {
                        let e = self.ty(LLVMStructGetTypeAtIndex(t, i));
                        v.push((e, LLVMOffsetOfElement(self.td, t, i)));
                    }
                    Ty::Struct(v)
                }
                11 => { let e = LLVMGetElementType(t); Ty::Arr(LLVMGetArrayLength2(t), self.ty(e), LLVMABISizeOfType(self.td, e)) }
                12 => Ty::Ptr,
                13 => { let e = LLVMGetElementType(t); Ty::Vec(LLVMGetVectorSize(t), self.ty(e)) }
                _ => Ty::Other,
            }
        };
        let b: TyR = Box::leak(Box::new(r));
        self.tys.insert(t as usize, b);
        b
    }
    pub fn zero(ty: &Ty) -> V {
        match ty {
            Ty::Int(w) if *w > 64 => V::W(Rc::new(0)),
            Ty::Vec(n, e) => V::A((0..*n).map(|_| Self::zero(e)).collect::<Vec<_>>().into()),
            Ty::Arr(n, e, _) => V::A((0..*n).map(|_| Self::zero(e)).collect::<Vec<_>>().into()),
            Ty::Struct(f) => V::A(f.iter().map(|(t, _)| Self::zero(t)).collect::<Vec<_>>().into()),
            _ => V::I(0),
        }
    }
    fn wide_int(v: R) -> u128 {
        let s = show(v);
        let t = s.rsplit(' ').next().unwrap();
        if let Some(h) = t.strip_prefix("-") { (h.parse::<u128>().unwrap() as i128).wrapping_neg() as u128 }
        else { t.parse::<u128>().unwrap_or_else(|_| panic!("wide int {}", s)) }
    }
    pub fn konst(&mut self, v: R) -> Result<V, String> {
        unsafe {
            let ty = self.ty(LLVMTypeOf(v));
            if LLVMIsUndef(v) != 0 || LLVMIsPoison(v) != 0 { return Ok(Self::zero(ty)); }
            if !LLVMIsAConstantInt(v).is_null() {
                return Ok(match ty {
                    Ty::Int(w) if *w > 128 => return Err(format!("int width {}", w)),
                    Ty::Int(w) if *w > 64 => V::W(Rc::new(Self::wide_int(v) & mask(*w))),
                    Ty::Int(_) => V::I(LLVMConstIntGetZExtValue(v)),
                    Ty::Vec(n, _) => { let x = V::I(LLVMConstIntGetZExtValue(v)); V::A(vec![x; *n as usize].into()) }
                    _ => return Err("constint ty".into()),
                });
            }
            if !LLVMIsAConstantFP(v).is_null() {
                let mut l = 0;
                let d = LLVMConstRealGetDouble(v, &mut l);
                return Ok(match ty { Ty::F32 => V::I((d as f32).to_bits() as u64), _ => V::I(d.to_bits()) });
            }
            if !LLVMIsAConstantPointerNull(v).is_null() { return Ok(V::I(0)); }
            if !LLVMIsAConstantAggregateZero(v).is_null() { return Ok(Self::zero(ty)); }
            if !LLVMIsAFunction(v).is_null() { return Ok(V::I(self.fn_value(self.fidx[&(v as usize)]))); }
            if !LLVMIsAGlobalVariable(v).is_null() {
                let gi = self.gidx[&(v as usize)];
                if !self.globals[gi as usize].has_init && LLVMGetLinkage(v) == 12 { return Ok(V::I(0)); }
                return Ok(V::I(self.global_obj(gi) << OFF_BITS));
            }
            if !LLVMIsAGlobalAlias(v).is_null() { return self.konst(LLVMAliasGetAliasee(v)); }
            if !LLVMIsAConstantDataSequential(v).is_null() {
                let n = match ty { Ty::Arr(n, _, _) => *n as u32, Ty::Vec(n, _) => *n, _ => 0 };
                let mut o = Vec::with_capacity(n as usize);
                for i in 0..n { o.push(self.konst(LLVMGetAggregateElement(v, i))?); }
                return Ok(V::A(o.into()));
            }
            if !LLVMIsAConstantStruct(v).is_null() || !LLVMIsAConstantArray(v).is_null() || !LLVMIsAConstantVector(v).is_null() {
                let n = LLVMGetNumOperands(v) as u32;
                let mut o = Vec::with_capacity(n as usize);
                for i in 0..n { o.push(self.konst(LLVMGetOperand(v, i))?); }
                return Ok(V::A(o.into()));
            }
            if !LLVMIsAConstantExpr(v).is_null() {
                let op = LLVMGetConstOpcode(v);
                match op {
                    29 => {
                        let b = match self.konst(LLVMGetOperand(v, 0))? { V::I(x) => x, _ => return Err("const gep base".into()) };
                        let src = LLVMGetGEPSourceElementType(v);
                        let n = LLVMGetNumOperands(v) as u32;
                        let mut off: i64 = 0;
                        let mut cur = src;
                        for i in 1..n {
                            let ix = self.konst(LLVMGetOperand(v, i))?;
                            let w = match self.ty(LLVMTypeOf(LLVMGetOperand(v, i))) { Ty::Int(w) => *w, _ => 64 };
                            let k = match ix { V::I(x) => crate::term::sext(x as u128, w) as i64, _ => return Err("const gep idx".into()) };
                            if i == 1 { off += k * LLVMABISizeOfType(self.td, src) as i64; }
                            else if LLVMGetTypeKind(cur) == 10 {
                                off += LLVMOffsetOfElement(self.td, cur, k as u32) as i64;
                                cur = LLVMStructGetTypeAtIndex(cur, k as u32);
                            } else {
                                cur = LLVMGetElementType(cur);
                                off += k * LLVMABISizeOfType(self.td, cur) as i64;
                            }
                        }
                        return Ok(V::I(b.wrapping_add(off as u64)));
                    }
                    39 | 40 | 41 | 60 | 69 | 70 | 71 => {
                        // ptrtoint / inttoptr / bitcast / addrspacecast / ptrtoaddr
                        let b = self.konst(LLVMGetOperand(v, 0))?;
                        if let (V::I(x), Ty::Int(w)) = (&b, ty) { return Ok(V::I(*x & mask(*w) as u64)); }
                        return Ok(b);
                    }
                    30 => {
                        let b = self.konst(LLVMGetOperand(v, 0))?;
                        if let (V::I(x), Ty::Int(w)) = (&b, ty) { return Ok(V::I(*x & mask(*w) as u64)); }
                        return Err("const trunc".into());
                    }
                    8 | 10 | 28 => {
                        let a = self.konst(LLVMGetOperand(v, 0))?;
                        let b = self.konst(LLVMGetOperand(v, 1))?;
                        if let (V::I(x), V::I(y), Ty::Int(w)) = (&a, &b, ty) {
                            let r = match op { 8 => x.wrapping_add(*y), 10 => x.wrapping_sub(*y), _ => x ^ y };
                            return Ok(V::I(r & mask(*w) as u64));
                        }
                        return Err("const arith".into());
                    }
                    _ => return Err(format!("const expr opcode {}: {}", op, show(v))),
                }
            }
            if LLVMIsNull(v) != 0 { return Ok(Self::zero(ty)); }
            Err(format!("constant: {}", show(v).chars().take(200).collect::<String>()))
        }
    }
    /// value of a function reference: null for undefined weak symbols we do not model
    pub fn fn_value(&self, i: u32) -> u64 {
        let (v, n, decl) = &self.funcs[i as usize];
        if *decl && unsafe { LLVMGetLinkage(*v) } == 12 && !crate::builtins::known(n) { return 0; }
        self.func_addr(i)
    }
    pub fn get_func(&mut self, i: u32) -> &'static Func {
        if let Some(f) = self.trans[i as usize] { return f; }
        let f: &'static Func = Box::leak(Box::new(self.translate(i)));
        self.trans[i as usize] = Some(f);
        self.encoded.push(i);
        f
    }
    fn translate(&mut self, fi: u32) -> Func {
        unsafe {
            let f = self.funcs[fi as usize].0;
            let np = LLVMCountParams(f);
            let mut regs: HashMap<usize, u32> = HashMap::new();
            let mut nregs = 0u32;
            for i in 0..np { regs.insert(LLVMGetParam(f, i) as usize, nregs); nregs += 1; }
            let mut bbs: HashMap<usize, u32> = HashMap::new();
            let mut bl = vec![];
            let mut b = LLVMGetFirstBasicBlock(f);
            while !b.is_null() {
                bbs.insert(b as usize, bl.len() as u32);
                bl.push(b);
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    if LLVMGetTypeKind(LLVMTypeOf(i)) != 0 { regs.insert(i as usize, nregs); nregs += 1; }
                    i = LLVMGetNextInstruction(i);
                }
                b = LLVMGetNextBasicBlock(b);
            }
            let mut tr = Tr { md: self, regs, bbs, consts: vec![], cmap: HashMap::new(), code: vec![] };
            let mut blocks = vec![];
            for b in &bl {
                blocks.push(tr.code.len() as u32);
                let mut i = LLVMGetFirstInstruction(*b);
                while !i.is_null() {
                    tr.inst(i, *b);
                    i = LLVMGetNextInstruction(i);
                }
            }
            let Tr { consts, code, .. } = tr;
            Func { id: fi, name: self.funcs[fi as usize].1.clone(), nparams: np, nregs, code, blocks, consts }
        }
    }
}

struct Tr<'a> { md: &'a mut Module, regs: HashMap<usize, u32>, bbs: HashMap<usize, u32>, consts: Vec<V>, cmap: HashMap<usize, u32>, code: Vec<I> }
impl<'a> Tr<'a> {
    fn op(&mut self, v: R) -> Result<O, String> {
        if let Some(r) = self.regs.get(&(v as usize)) { return Ok(*r); }
        if let Some(r) = self.cmap.get(&(v as usize)) { return Ok(*r); }
        if unsafe { !LLVMIsAMetadataAsValue(v).is_null() } { return Ok(self.k(V::I(0))); }
        let k = self.md.konst(v)?;
        let o = self.k(k);
        self.cmap.insert(v as usize, o);
        Ok(o)
    }
    fn k(&mut self, v: V) -> O { self.consts.push(v); (self.consts.len() as u32 - 1) | KBIT }
    fn opn(&mut self, i: R, n: u32) -> Result<O, String> { let v = unsafe { LLVMGetOperand(i, n) }; self.op(v) }
    fn edge(&mut self, from: R, to: R) -> Result<Edge, String> {
        unsafe {
            let mut moves = vec![];
            let mut i = LLVMGetFirstInstruction(to);
            while !i.is_null() && LLVMGetInstructionOpcode(i) == 44 {
                let n = LLVMCountIncoming(i);
                for j in 0..n {
                    if LLVMGetIncomingBlock(i, j) == from {
                        let o = self.op(LLVMGetIncomingValue(i, j))?;
                        moves.push((self.regs[&(i as usize)], o));
                        break;
                    }
                }
                i = LLVMGetNextInstruction(i);
            }
            Ok(Edge { to: self.bbs[&(to as usize)], moves: moves.into() })
        }
    }
    fn inst(&mut self, i: R, b: R) {
        match self.inst1(i, b) {
            Ok(Some(x)) => self.code.push(x),
            Ok(None) => {}
            Err(e) => self.code.push(I::Unsup(format!("{} in `{}`", e, show(i).chars().take(300).collect::<String>()))),
        }
    }
    fn inst1(&mut self, i: R, b: R) -> Result<Option<I>, String> {
        unsafe {
            let opc = LLVMGetInstructionOpcode(i);
            let d = self.regs.get(&(i as usize)).copied().unwrap_or(NOREG);
            let ty = self.md.ty(LLVMTypeOf(i));
            let bop = |o| Some(match o { 8 => Bop::Add, 10 => Bop::Sub, 12 => Bop::Mul, 14 => Bop::UDiv, 15 => Bop::SDiv, 17 => Bop::URem, 18 => Bop::SRem, 20 => Bop::Shl, 21 => Bop::LShr, 22 => Bop::AShr, 23 => Bop::And, 24 => Bop::Or, 25 => (Bop::Xor), 26 => return None, _ => return None });
            // opcodes: And=23, Or=24, Xor=25 in LLVM-C
            if let Some(o) = bop(opc) {
                let (a, bb) = (self.opn(i, 0)?, self.opn(i, 1)?);
                return Ok(Some(match ty {
                    Ty::Int(w) => { if *w > 128 { return Err("wide int".into()); } I::Bin { op: o, w: *w, a, b: bb, d } }
                    Ty::Vec(n, Ty::Int(w)) => I::VBin { op: o, w: *w, n: *n, a, b: bb, d },
                    _ => return Err("bin type".into()),
                }));
            }
            Ok(Some(match opc {
                1 => if LLVMGetNumOperands(i) == 0 { I::RetVoid } else { I::Ret(self.opn(i, 0)?) },
                70 | 71 => {
                    let ns = LLVMGetNumSuccessors(i);
                    if ns == 1 { let e = self.edge(b, LLVMGetSuccessor(i, 0))?; I::Br(e) }
                    else {
                        let c = self.op(LLVMGetOperand(i, 0))?;
                        let t = self.edge(b, LLVMGetSuccessor(i, 0))?;
                        let f = self.edge(b, LLVMGetSuccessor(i, 1))?;
                        I::CondBr { c, t, f }
                    }
                }
                3 => {
                    let v = self.op(LLVMGetOperand(i, 0))?;
                    let w = match self.md.ty(LLVMTypeOf(LLVMGetOperand(i, 0))) { Ty::Int(w) => *w, _ => return Err("switch ty".into()) };
                    let ns = LLVMGetNumSuccessors(i);
                    let dd = LLVMGetSwitchDefaultDest(i);
                    let mut edges = vec![self.edge(b, dd)?];
                    let mut idx: HashMap<usize, u32> = HashMap::new();
                    idx.insert(dd as usize, 0);
                    let mut cases = vec![];
                    for k in 1..ns {
                        let to = LLVMGetSuccessor(i, k);
                        let e = match idx.get(&(to as usize)) { Some(e) => *e, None => { edges.push(self.edge(b, to)?); idx.insert(to as usize, edges.len() as u32 - 1); edges.len() as u32 - 1 } };
                        let cv = match self.md.konst(LLVMGetSwitchCaseValue(i, k))? { V::I(x) => x as u128, V::W(x) => *x, _ => return Err("case".into()) };
                        cases.push((cv, e));
                    }
                    cases.sort();
                    I::Switch { w, v, cases: cases.into(), edges: edges.into() }
                }
                7 => I::Unreachable,
                44 => return Ok(None),
                9 | 11 | 13 | 16 | 19 => {
                    let op = match opc { 9 => Fop::Add, 11 => Fop::Sub, 13 => Fop::Mul, 16 => Fop::Div, _ => Fop::Rem };
                    I::FBin { op, ty, a: self.opn(i, 0)?, b: self.opn(i, 1)?, d }
                }
                66 => I::FNeg { ty, a: self.opn(i, 0)?, d },
                26 => {
                    let at = LLVMGetAllocatedType(i);
                    let size = LLVMABISizeOfType(self.md.td, at);
                    let nv = LLVMGetOperand(i, 0);
                    let nw = match self.md.ty(LLVMTypeOf(nv)) { Ty::Int(w) => *w, _ => 64 };
                    I::Alloca { size, n: self.op(nv)?, nw, d }
                }
                27 => I::Load { ty, p: self.opn(i, 0)?, d },
                28 => { let vt = self.md.ty(LLVMTypeOf(LLVMGetOperand(i, 0))); I::Store { ty: vt, v: self.opn(i, 0)?, p: self.opn(i, 1)? } }
                29 => {
                    let bt = self.md.ty(LLVMTypeOf(LLVMGetOperand(i, 0)));
                    if !matches!(ty, Ty::Ptr) || !matches!(bt, Ty::Ptr) { return Ok(Some(I::VGep { text: show(i) })); }
                    let base = self.opn(i, 0)?;
                    let src = LLVMGetGEPSourceElementType(i);
                    let n = LLVMGetNumOperands(i) as u32;
                    let mut off = 0i64;
                    let mut idx = vec![];
                    let mut cur = src;
                    for k in 1..n {
                        let ov = LLVMGetOperand(i, k);
                        let w = match self.md.ty(LLVMTypeOf(ov)) { Ty::Int(w) => *w, _ => return Err("gep idx".into()) };
                        let scale: i64;
                        if k == 1 { scale = LLVMABISizeOfType(self.md.td, src) as i64; }
                        else if LLVMGetTypeKind(cur) == 10 {
                            let c = LLVMConstIntGetZExtValue(ov) as u32;
                            off += LLVMOffsetOfElement(self.md.td, cur, c) as i64;
                            cur = LLVMStructGetTypeAtIndex(cur, c);
                            continue;
                        } else {
                            cur = LLVMGetElementType(cur);
                            scale = LLVMABISizeOfType(self.md.td, cur) as i64;
                        }
                        if !LLVMIsAConstantInt(ov).is_null() {
                            off += crate::term::sext(LLVMConstIntGetZExtValue(ov) as u128, w) as i64 * scale;
                        } else {
                            let o = self.op(ov)?;
                            idx.push((o, scale, w));
                        }
                    }
                    I::Gep { base, off, idx: idx.into(), d }
                }
                30..=41 | 60 | 69 => {
                    let f = self.md.ty(LLVMTypeOf(LLVMGetOperand(i, 0)));
                    let a = self.opn(i, 0)?;
                    let k = match opc { 30 => Cst::Trunc, 31 => Cst::ZExt, 32 => Cst::SExt, 33 => Cst::FPToUI, 34 => Cst::FPToSI, 35 => Cst::UIToFP, 36 => Cst::SIToFP, 37 => Cst::FPTrunc, 38 => Cst::FPExt,
                        39 | 69 => { if let Ty::Int(w) = ty { if *w < 64 { Cst::Trunc } else if *w > 64 { Cst::ZExt } else { Cst::Bit } } else { Cst::Bit } }
                        40 => { if let Ty::Int(w) = f { if *w < 64 { Cst::ZExt } else if *w > 64 { Cst::Trunc } else { Cst::Bit } } else { Cst::Bit } }
                        _ => Cst::Bit };
                    I::Cast { k, f, t: ty, a, d }
                }
                42 => {
                    let t = self.md.ty(LLVMTypeOf(LLVMGetOperand(i, 0)));
                    let p = LLVMGetICmpPredicate(i) as u8;
                    let (a, bb) = (self.opn(i, 0)?, self.opn(i, 1)?);
                    match t {
                        Ty::Vec(n, e) => I::VICmp { p, w: e.bits().ok_or("vicmp")?, n: *n, a, b: bb, d },
                        t => { let w = t.bits().ok_or("icmp")?; if w > 128 { return Err("wide icmp".into()); } I::ICmp { p, w, a, b: bb, d } }
                    }
                }
                43 => { let t = self.md.ty(LLVMTypeOf(LLVMGetOperand(i, 0))); I::FCmp { p: LLVMGetFCmpPredicate(i) as u8, ty: t, a: self.opn(i, 0)?, b: self.opn(i, 1)?, d } }
                46 => { let ct = self.md.ty(LLVMTypeOf(LLVMGetOperand(i, 0))); I::Select { c: self.opn(i, 0)?, cv: matches!(ct, Ty::Vec(..)), ty, a: self.opn(i, 1)?, b: self.opn(i, 2)?, d } }
                68 => I::Copy { a: self.opn(i, 0)?, d },
                50 => I::ExtractElem { a: self.opn(i, 0)?, i: self.opn(i, 1)?, d },
                51 => I::InsertElem { a: self.opn(i, 0)?, v: self.opn(i, 1)?, i: self.opn(i, 2)?, d },
                52 => {
                    let n = match self.md.ty(LLVMTypeOf(LLVMGetOperand(i, 0))) { Ty::Vec(n, _) => *n, _ => return Err("shuffle".into()) };
                    let m: Vec<i32> = (0..LLVMGetNumMaskElements(i)).map(|k| LLVMGetMaskValue(i, k)).collect();
                    I::Shuffle { a: self.opn(i, 0)?, b: self.opn(i, 1)?, n, mask: m.into(), d }
                }
                53 => { let n = LLVMGetNumIndices(i); let ix: Vec<u32> = std::slice::from_raw_parts(LLVMGetIndices(i), n as usize).to_vec(); I::ExtractValue { a: self.opn(i, 0)?, idx: ix.into(), d } }
                54 => { let n = LLVMGetNumIndices(i); let ix: Vec<u32> = std::slice::from_raw_parts(LLVMGetIndices(i), n as usize).to_vec(); I::InsertValue { a: self.opn(i, 0)?, v: self.opn(i, 1)?, idx: ix.into(), ty, d } }
                55 => I::Nop,
                56 => { let t = self.md.ty(LLVMTypeOf(LLVMGetOperand(i, 1))); I::CmpXchg { ty: t, p: self.opn(i, 0)?, e: self.opn(i, 1)?, n: self.opn(i, 2)?, d } }
                57 => { let t = self.md.ty(LLVMTypeOf(LLVMGetOperand(i, 1))); I::Rmw { op: LLVMGetAtomicRMWBinOp(i) as u8, ty: t, p: self.opn(i, 0)?, v: self.opn(i, 1)?, d } }
                59 => I::Copy { a: { let z = Module::zero(ty); self.k(z) }, d },
                58 => I::Unreachable,
                45 | 5 => {
                    let cv = LLVMGetCalledValue(i);
                    let na = LLVMGetNumArgOperands(i);
                    let mut args = vec![];
                    let mut tys = vec![];
                    let edge = if opc == 5 { let nd = LLVMGetNormalDest(i); Some(self.edge(b, nd)?) } else { None };
                    let mut cf = cv;
                    while !LLVMIsAGlobalAlias(cf).is_null() { cf = LLVMAliasGetAliasee(cf); }
                    let isf = !LLVMIsAFunction(cf).is_null();
                    if isf {
                        let n = name(cf);
                        if n.starts_with("llvm.dbg.") || n.starts_with("llvm.lifetime.") || n == "llvm.assume" || n.starts_with("llvm.experimental.noalias") || n == "llvm.donothing" || n.starts_with("llvm.invariant.") || n.starts_with("llvm.prefetch") || n == "llvm.sideeffect" {
                            return Ok(match edge { Some(e) => Some(I::Br(e)), None => None });
                        }
                    }
                    for k in 0..na {
                        let a = LLVMGetOperand(i, k);
                        tys.push(if LLVMIsAMetadataAsValue(a).is_null() { self.md.ty(LLVMTypeOf(a)) } else { &Ty::Other });
                        args.push(self.op(a)?);
                    }
                    if isf {
                        let n = name(cf);
                        let fi = self.md.fidx[&(cf as usize)];
                        if n.starts_with("llvm.") {
                            let k = crate::builtins::intr_id(&n).ok_or_else(|| format!("intrinsic {}", n))?;
                            let ins = I::Intr { k, name: n.as_str().into(), args: args.into(), tys: tys.into(), rty: ty, d };
                            if let Some(e) = edge { self.code.push(ins); return Ok(Some(I::Br(e))); }
                            return Ok(Some(ins));
                        }
                        let callee = match crate::builtins::id_of(&n, self.md.funcs[fi as usize].2) {
                            Some(bid) => Callee::Builtin(bid, n),
                            None => if self.md.funcs[fi as usize].2 { Callee::Builtin(0, n) } else { Callee::Func(fi) },
                        };
                        return Ok(Some(I::Call(Box::new(CallI { callee, args: args.into(), arg_tys: tys.into(), d, rty: ty, edge }))));
                    }
                    if !LLVMIsAInlineAsm(cv).is_null() {
                        let mut n = 0;
                        let p = LLVMGetInlineAsmAsmString(cv, &mut n);
                        let s = String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned();
                        return Ok(Some(I::Call(Box::new(CallI { callee: Callee::Asm(s), args: args.into(), arg_tys: tys.into(), d, rty: ty, edge }))));
                    }
                    let o = self.op(cv)?;
                    I::Call(Box::new(CallI { callee: Callee::Dyn(o), args: args.into(), arg_tys: tys.into(), d, rty: ty, edge }))
                }
                _ => return Err(format!("opcode {}", opc)),
            }))
        }
    }
}

/// opcode numbers of this libLLVM, with one example each
pub fn dump_ops(p: &str) {
    unsafe {
        let m = crate::llvm::parse(p);
        let mut seen = HashMap::new();
        let mut f = LLVMGetFirstFunction(m);
        while !f.is_null() {
            let mut b = LLVMGetFirstBasicBlock(f);
            while !b.is_null() {
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() { seen.entry((LLVMGetInstructionOpcode(i), LLVMGetNumSuccessors(if LLVMGetBasicBlockTerminator(b) == i { i } else { LLVMGetBasicBlockTerminator(b) }).min(3))).or_insert_with(|| show(i)); i = LLVMGetNextInstruction(i); }
                b = LLVMGetNextBasicBlock(b);
            }
            f = LLVMGetNextFunction(f);
        }
        let mut v: Vec<_> = seen.into_iter().collect();
        v.sort();
        for (k, s) in v { println!("{:?} {}", k, s.chars().take(110).collect::<String>()); }
    }
}
