//! Byte-level object memory with copy-on-write sharing between path states.
use crate::ir::*;
use crate::llvm::*;
use crate::term::*;
use std::rc::Rc;

pub const CH: usize = 128;
#[derive(Clone)]
pub struct Obj { pub size: u64, pub data: Vec<u8>, pub sym: Option<Box<FxMap<u32, T>>>, pub ro: bool, pub kind: u8 }
pub const K_HEAP: u8 = 0;
pub const K_STACK: u8 = 1;
pub const K_GLOBAL: u8 = 2;
pub type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct Mem { pub chunks: Vec<Rc<Chunk>>, pub next: u64 }

impl Obj {
    pub fn new(size: u64, kind: u8) -> Obj { Obj { size, data: vec![0; size as usize], sym: None, ro: false, kind } }
    #[inline]
    pub fn has_sym(&self, off: u64, n: u64) -> bool {
        match &self.sym {
            None => false,
            Some(m) => if m.is_empty() { false } else if n > 64 && (m.len() as u64) < n { m.keys().any(|k| (*k as u64) >= off && (*k as u64) < off + n) } else { (off..off + n).any(|o| m.contains_key(&(o as u32))) },
        }
    }
    pub fn clear_sym(&mut self, off: u64, n: u64) {
        if let Some(m) = &mut self.sym {
            if (m.len() as u64) < n { m.retain(|k, _| (*k as u64) < off || (*k as u64) >= off + n); }
            else { for o in off..off + n { m.remove(&(o as u32)); } }
            if m.is_empty() { self.sym = None; }
        }
    }
    pub fn byte(&self, off: u64, ts: &mut Terms) -> T {
        if let Some(m) = &self.sym { if let Some(t) = m.get(&(off as u32)) { return *t; } }
        ts.c(self.data[off as usize] as u128, 8)
    }
    pub fn set_byte_sym(&mut self, off: u64, t: T, ts: &Terms) {
        if let Some(v) = ts.cv(t) {
            if let Some(m) = &mut self.sym { m.remove(&(off as u32)); }
            self.data[off as usize] = v as u8;
        } else {
            self.sym.get_or_insert_with(Default::default).insert(off as u32, t);
        }
    }
}

impl Mem {
    pub fn new(first_dyn: u64) -> Mem {
        let empty: Rc<Chunk> = Rc::new(vec![None; CH]);
        let n = (first_dyn as usize) / CH + 1;
        Mem { chunks: vec![empty; n], next: first_dyn }
    }
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let id = self.next;
        self.next += 1;
        let c = id as usize / CH;
        while self.chunks.len() <= c { self.chunks.push(Rc::new(vec![None; CH])); }
        Rc::make_mut(&mut self.chunks[c])[id as usize % CH] = Some(Rc::new(o));
        id
    }
    #[inline]
    pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH).and_then(|c| c[id as usize % CH].as_ref())
    }
    #[inline]
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        let ch = Rc::make_mut(c);
        ch[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    pub fn put(&mut self, id: u64, o: Rc<Obj>) {
        let c = id as usize / CH;
        Rc::make_mut(&mut self.chunks[c])[id as usize % CH] = Some(o);
    }
    pub fn free(&mut self, id: u64) -> Option<Rc<Obj>> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        Rc::make_mut(c)[id as usize % CH].take()
    }
}

pub fn write_const(md: &mut Module, data: &mut [u8], v: R, ty: R, off: u64) -> Result<(), String> {
    unsafe {
        if LLVMIsUndef(v) != 0 || LLVMIsPoison(v) != 0 || !LLVMIsAConstantAggregateZero(v).is_null() { return Ok(()); }
        if !LLVMIsAConstantDataSequential(v).is_null() {
            let mut n = 0usize;
            let p = LLVMGetRawDataValues(v, &mut n);
            std::ptr::copy_nonoverlapping(p as *const u8, data[off as usize..].as_mut_ptr(), n.min(data.len() - off as usize));
            return Ok(());
        }
        let k = LLVMGetTypeKind(ty);
        if !LLVMIsAConstantStruct(v).is_null() {
            let n = LLVMGetNumOperands(v) as u32;
            for i in 0..n {
                let o = LLVMOffsetOfElement(md.td, ty, i);
                write_const(md, data, LLVMGetOperand(v, i), LLVMStructGetTypeAtIndex(ty, i), off + o)?;
            }
            return Ok(());
        }
        if !LLVMIsAConstantArray(v).is_null() {
            let e = LLVMGetElementType(ty);
            let sz = LLVMABISizeOfType(md.td, e);
            let n = LLVMGetNumOperands(v) as u32;
            for i in 0..n { write_const(md, data, LLVMGetOperand(v, i), e, off + sz * i as u64)?; }
            return Ok(());
        }
        let _ = k;
        let c = md.konst(v)?;
        let t = md.ty(ty);
        put_val(data, off, &c, t)
    }
}
fn put_val(data: &mut [u8], off: u64, c: &V, t: &Ty) -> Result<(), String> {
    match (c, t) {
        (V::A(e), Ty::Vec(_, et)) => { let b = et.bits().unwrap() as u64 / 8; for (i, x) in e.iter().enumerate() { put_val(data, off + b * i as u64, x, et)?; } }
        (V::A(e), Ty::Struct(f)) => for (x, (t, o)) in e.iter().zip(f) { put_val(data, off + o, x, t)?; },
        (V::A(e), Ty::Arr(_, et, s)) => for (i, x) in e.iter().enumerate() { put_val(data, off + s * i as u64, x, et)?; },
        (V::I(x), t) => { let n = (t.bits().ok_or("const ty")? as usize + 7) / 8; data[off as usize..off as usize + n].copy_from_slice(&x.to_le_bytes()[..n]); }
        (V::W(x), t) => { let n = (t.bits().ok_or("const ty")? as usize + 7) / 8; data[off as usize..off as usize + n].copy_from_slice(&x.to_le_bytes()[..n]); }
        _ => return Err("put_val".into()),
    }
    Ok(())
}
pub fn global_template(md: &mut Module, gi: u32) -> Result<Rc<Obj>, String> {
    let (v, size, ro, has) = { let g = &md.globals[gi as usize]; (g.v, g.size, g.ro, g.has_init) };
    let mut o = Obj::new(size, K_GLOBAL);
    if has {
        let (init, vt) = unsafe { (LLVMGetInitializer(v), LLVMGlobalGetValueType(v)) };
        let mut data = std::mem::take(&mut o.data);
        write_const(md, &mut data, init, vt, 0)?;
        o.data = data;
    }
    o.ro = ro;
    Ok(Rc::new(o))
}
