//! Minimal LLVM-C bindings (the libLLVM shipped with the pinned stable rustc).
#![allow(non_snake_case)]
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
pub type R = *mut c_void; // any LLVM*Ref
extern "C" {
    pub fn LLVMContextCreate() -> R;
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut R, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMParseBitcodeInContext2(ctx: R, buf: R, out: *mut R) -> c_int;
    pub fn LLVMGetModuleDataLayout(m: R) -> R;
    pub fn LLVMGetFirstFunction(m: R) -> R;
    pub fn LLVMGetNextFunction(f: R) -> R;
    pub fn LLVMGetFirstGlobal(m: R) -> R;
    pub fn LLVMGetNextGlobal(g: R) -> R;
    pub fn LLVMGetFirstGlobalAlias(m: R) -> R;
    pub fn LLVMGetNextGlobalAlias(g: R) -> R;
    pub fn LLVMAliasGetAliasee(g: R) -> R;
    pub fn LLVMGetValueName2(v: R, len: *mut usize) -> *const c_char;
    pub fn LLVMIsDeclaration(v: R) -> c_int;
    pub fn LLVMGetLinkage(v: R) -> c_int;
    pub fn LLVMGetSection(v: R) -> *const c_char;
    pub fn LLVMGetInitializer(v: R) -> R;
    pub fn LLVMIsThreadLocal(v: R) -> c_int;
    pub fn LLVMIsGlobalConstant(v: R) -> c_int;
    pub fn LLVMGlobalGetValueType(v: R) -> R;
    pub fn LLVMCountParams(f: R) -> c_uint;
    pub fn LLVMGetParam(f: R, i: c_uint) -> R;
    pub fn LLVMGetFirstBasicBlock(f: R) -> R;
    pub fn LLVMGetNextBasicBlock(b: R) -> R;
    pub fn LLVMBasicBlockAsValue(b: R) -> R;
    pub fn LLVMGetFirstInstruction(b: R) -> R;
    pub fn LLVMGetNextInstruction(i: R) -> R;
    pub fn LLVMGetBasicBlockTerminator(b: R) -> R;
    pub fn LLVMGetInstructionOpcode(i: R) -> c_int;
    pub fn LLVMGetConstOpcode(i: R) -> c_int;
    pub fn LLVMGetNumOperands(v: R) -> c_int;
    pub fn LLVMGetOperand(v: R, i: c_uint) -> R;
    pub fn LLVMTypeOf(v: R) -> R;
    pub fn LLVMGetTypeKind(t: R) -> c_int;
    pub fn LLVMGetIntTypeWidth(t: R) -> c_uint;
    pub fn LLVMGetElementType(t: R) -> R;
    pub fn LLVMGetArrayLength2(t: R) -> u64;
    pub fn LLVMGetVectorSize(t: R) -> c_uint;
    pub fn LLVMCountStructElementTypes(t: R) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: R, i: c_uint) -> R;
    pub fn LLVMOffsetOfElement(td: R, t: R, i: c_uint) -> u64;
    pub fn LLVMABISizeOfType(td: R, t: R) -> u64;
    pub fn LLVMABIAlignmentOfType(td: R, t: R) -> c_uint;
    pub fn LLVMGetReturnType(t: R) -> R;
    pub fn LLVMGetSuccessor(t: R, i: c_uint) -> R;
    pub fn LLVMGetNumSuccessors(t: R) -> c_uint;
    pub fn LLVMGetCondition(t: R) -> R;
    pub fn LLVMGetSwitchCaseValue(t: R, i: c_uint) -> R;
    pub fn LLVMGetSwitchDefaultDest(t: R) -> R;
    pub fn LLVMGetNormalDest(t: R) -> R;
    pub fn LLVMCountIncoming(p: R) -> c_uint;
    pub fn LLVMGetIncomingValue(p: R, i: c_uint) -> R;
    pub fn LLVMGetIncomingBlock(p: R, i: c_uint) -> R;
    pub fn LLVMGetCalledValue(c: R) -> R;
    pub fn LLVMGetCalledFunctionType(c: R) -> R;
    pub fn LLVMGetNumArgOperands(c: R) -> c_uint;
    pub fn LLVMGetICmpPredicate(c: R) -> c_int;
    pub fn LLVMGetFCmpPredicate(c: R) -> c_int;
    pub fn LLVMGetAtomicRMWBinOp(c: R) -> c_int;
    pub fn LLVMGetAllocatedType(a: R) -> R;
    pub fn LLVMGetAlignment(a: R) -> c_uint;
    pub fn LLVMGetGEPSourceElementType(g: R) -> R;
    pub fn LLVMGetNumIndices(i: R) -> c_uint;
    pub fn LLVMGetIndices(i: R) -> *const c_uint;
    pub fn LLVMGetNumMaskElements(i: R) -> c_uint;
    pub fn LLVMGetMaskValue(i: R, n: c_uint) -> c_int;
    pub fn LLVMConstIntGetZExtValue(v: R) -> u64;
    pub fn LLVMConstRealGetDouble(v: R, l: *mut c_int) -> f64;
    pub fn LLVMGetAggregateElement(v: R, i: c_uint) -> R;
    pub fn LLVMGetRawDataValues(v: R, n: *mut usize) -> *const c_char;
    pub fn LLVMIsAConstantInt(v: R) -> R;
    pub fn LLVMIsAConstantFP(v: R) -> R;
    pub fn LLVMIsAConstantPointerNull(v: R) -> R;
    pub fn LLVMIsAConstantAggregateZero(v: R) -> R;
    pub fn LLVMIsAConstantDataSequential(v: R) -> R;
    pub fn LLVMIsAConstantStruct(v: R) -> R;
    pub fn LLVMIsAConstantArray(v: R) -> R;
    pub fn LLVMIsAConstantVector(v: R) -> R;
    pub fn LLVMIsAConstantExpr(v: R) -> R;
    pub fn LLVMIsAGlobalVariable(v: R) -> R;
    pub fn LLVMIsAGlobalAlias(v: R) -> R;
    pub fn LLVMIsAFunction(v: R) -> R;
    pub fn LLVMIsUndef(v: R) -> c_int;
    pub fn LLVMIsPoison(v: R) -> c_int;
    pub fn LLVMIsNull(v: R) -> c_int;
    pub fn LLVMIsConstant(v: R) -> c_int;
    pub fn LLVMIsAInlineAsm(v: R) -> R;
    pub fn LLVMGetInlineAsmAsmString(v: R, n: *mut usize) -> *const c_char;
    pub fn LLVMPrintValueToString(v: R) -> *mut c_char;
    pub fn LLVMPrintTypeToString(v: R) -> *mut c_char;
    pub fn LLVMDisposeMessage(m: *mut c_char);
    pub fn LLVMGetNumContainedTypes(t: R) -> c_uint;
}
pub fn name(v: R) -> String {
    unsafe {
        let mut n = 0;
        let p = LLVMGetValueName2(v, &mut n);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
    }
}
pub fn show(v: R) -> String {
    unsafe {
        let p = LLVMPrintValueToString(v);
        let s = CStr::from_ptr(p).to_string_lossy().into_owned();
        LLVMDisposeMessage(p);
        s
    }
}
pub fn show_ty(v: R) -> String {
    unsafe {
        let p = LLVMPrintTypeToString(v);
        let s = CStr::from_ptr(p).to_string_lossy().into_owned();
        LLVMDisposeMessage(p);
        s
    }
}
pub fn parse(path: &str) -> R {
    unsafe {
        let ctx = LLVMContextCreate();
        let p = CString::new(path).unwrap();
        let mut buf: R = std::ptr::null_mut();
        let mut msg: *mut c_char = std::ptr::null_mut();
        if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut buf, &mut msg) != 0 {
            panic!("cannot read {}: {:?}", path, CStr::from_ptr(msg));
        }
        let mut m: R = std::ptr::null_mut();
        if LLVMParseBitcodeInContext2(ctx, buf, &mut m) != 0 { panic!("cannot parse bitcode {}", path); }
        m
    }
}
/// metadata operands have the metadata type kind
pub unsafe fn LLVMIsAMetadataAsValue(v: R) -> R { if LLVMGetTypeKind(LLVMTypeOf(v)) == 14 { v } else { std::ptr::null_mut() } }
