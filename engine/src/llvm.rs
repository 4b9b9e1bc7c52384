//! Reads LLVM bitcode through the LLVM C API of the Rust toolchain's own
//! libLLVM (dlopen) and decodes it into the compact program form that the
//! symbolic executor interprets.
#![allow(non_camel_case_types, non_snake_case)]
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type R = *mut c_void;

extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}

macro_rules! api {
    ($( fn $name:ident ( $($a:ident : $t:ty),* ) $(-> $r:ty)? ; )*) => {
        pub struct Api { $( $name: unsafe extern "C" fn($($t),*) $(-> $r)?, )* }
        impl Api {
            pub fn load(path: &str) -> Result<Api, String> {
                unsafe {
                    let c = CString::new(path).unwrap();
                    let h = dlopen(c.as_ptr(), 2);
                    if h.is_null() {
                        return Err(format!("dlopen {}: {}", path, CStr::from_ptr(dlerror()).to_string_lossy()));
                    }
                    Ok(Api { $( $name: {
                        let s = CString::new(stringify!($name)).unwrap();
                        let p = dlsym(h, s.as_ptr());
                        if p.is_null() { return Err(format!("symbol {} missing", stringify!($name))); }
                        std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($t),*) $(-> $r)?>(p)
                    }, )* })
                }
            }
        }
    };
}

api! {
    fn LLVMContextCreate() -> R;
    fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut R, msg: *mut *mut c_char) -> c_int;
    fn LLVMParseBitcodeInContext2(c: R, b: R, m: *mut R) -> c_int;
    fn LLVMGetFirstFunction(m: R) -> R;
    fn LLVMGetNextFunction(f: R) -> R;
    fn LLVMGetFirstGlobal(m: R) -> R;
    fn LLVMGetNextGlobal(f: R) -> R;
    fn LLVMGetFirstGlobalAlias(m: R) -> R;
    fn LLVMGetNextGlobalAlias(f: R) -> R;
    fn LLVMAliasGetAliasee(f: R) -> R;
    fn LLVMGetValueName2(v: R, n: *mut usize) -> *const c_char;
    fn LLVMIsDeclaration(v: R) -> c_int;
    fn LLVMGetFirstBasicBlock(f: R) -> R;
    fn LLVMGetNextBasicBlock(b: R) -> R;
    fn LLVMGetFirstInstruction(b: R) -> R;
    fn LLVMGetNextInstruction(i: R) -> R;
    fn LLVMGetInstructionOpcode(i: R) -> c_int;
    fn LLVMGetNumOperands(i: R) -> c_int;
    fn LLVMGetOperand(i: R, n: c_uint) -> R;
    fn LLVMTypeOf(v: R) -> R;
    fn LLVMGetTypeKind(t: R) -> c_int;
    fn LLVMGetIntTypeWidth(t: R) -> c_uint;
    fn LLVMGetICmpPredicate(i: R) -> c_int;
    fn LLVMGetFCmpPredicate(i: R) -> c_int;
    fn LLVMCountIncoming(i: R) -> c_uint;
    fn LLVMGetIncomingValue(i: R, n: c_uint) -> R;
    fn LLVMGetIncomingBlock(i: R, n: c_uint) -> R;
    fn LLVMGetCalledValue(i: R) -> R;
    fn LLVMGetNumArgOperands(i: R) -> c_uint;
    fn LLVMGetNumIndices(i: R) -> c_uint;
    fn LLVMGetIndices(i: R) -> *const c_uint;
    fn LLVMGetAllocatedType(i: R) -> R;
    fn LLVMGetGEPSourceElementType(i: R) -> R;
    fn LLVMGetModuleDataLayout(m: R) -> R;
    fn LLVMABISizeOfType(d: R, t: R) -> u64;
    fn LLVMABIAlignmentOfType(d: R, t: R) -> c_uint;
    fn LLVMOffsetOfElement(d: R, t: R, n: c_uint) -> u64;
    fn LLVMGetStructElementTypes(t: R, out: *mut R);
    fn LLVMCountStructElementTypes(t: R) -> c_uint;
    fn LLVMGetElementType(t: R) -> R;
    fn LLVMGetArrayLength2(t: R) -> u64;
    fn LLVMGetVectorSize(t: R) -> c_uint;
    fn LLVMIsConstant(v: R) -> c_int;
    fn LLVMIsAConstantInt(v: R) -> R;
    fn LLVMIsAConstantFP(v: R) -> R;
    fn LLVMConstRealGetDouble(v: R, lost: *mut c_int) -> f64;
    fn LLVMConstIntGetZExtValue(v: R) -> u64;
    fn LLVMIsUndef(v: R) -> c_int;
    fn LLVMIsNull(v: R) -> c_int;
    fn LLVMIsAConstantDataSequential(v: R) -> R;
    fn LLVMGetRawDataValues(v: R, n: *mut usize) -> *const u8;
    fn LLVMGetAggregateElement(v: R, n: c_uint) -> R;
    fn LLVMIsAConstantExpr(v: R) -> R;
    fn LLVMGetConstOpcode(v: R) -> c_int;
    fn LLVMGetInitializer(v: R) -> R;
    fn LLVMIsGlobalConstant(v: R) -> c_int;
    fn LLVMGlobalGetValueType(v: R) -> R;
    fn LLVMIsAGlobalVariable(v: R) -> R;
    fn LLVMIsAFunction(v: R) -> R;
    fn LLVMIsAInlineAsm(v: R) -> R;
    fn LLVMGetInlineAsmAsmString(v: R, n: *mut usize) -> *const c_char;
    fn LLVMGetAtomicRMWBinOp(v: R) -> c_int;
    fn LLVMGetNumMaskElements(v: R) -> c_uint;
    fn LLVMGetMaskValue(v: R, n: c_uint) -> c_int;
    fn LLVMGetNumSuccessors(v: R) -> c_uint;
    fn LLVMGetSuccessor(v: R, n: c_uint) -> R;
    fn LLVMGetCondition(v: R) -> R;
    fn LLVMIsACondBrInst(v: R) -> R;
    fn LLVMIsAUncondBrInst(v: R) -> R;
    fn LLVMGetSwitchCaseValue(v: R, n: c_uint) -> R;
    fn LLVMGetNormalDest(v: R) -> R;
    fn LLVMPrintValueToString(v: R) -> *mut c_char;
    fn LLVMGetDebugLocLine(v: R) -> c_uint;
    fn LLVMGetDebugLocFilename(v: R, n: *mut c_uint) -> *const c_char;
    fn LLVMGetDebugLocDirectory(v: R, n: *mut c_uint) -> *const c_char;
    fn LLVMCountParams(f: R) -> c_uint;
    fn LLVMGetParam(f: R, n: c_uint) -> R;
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Struct(Vec<(Ty, u64)>, u64),
    Array(Box<Ty>, u64, u64),
    Vec(Box<Ty>, u64),
    Other,
}

impl Ty {
    /// Width in bits of a scalar.
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(e, n) => e.bits() * *n as u32,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Array(..) | Ty::Vec(..))
    }
}

#[derive(Clone, Debug)]
pub enum CVal {
    Int(u128, u32),
    Agg(Vec<CVal>),
}

#[derive(Clone, Copy, Debug)]
pub enum Opd {
    Reg(u32),
    Const(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Bit, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt }

#[derive(Debug)]
pub enum Callee {
    Func(u32),
    Ind(Opd),
    Ext(u32),
    Nop,
}

#[derive(Debug)]
pub enum Ins {
    Bin(Bin, Ty, Opd, Opd),
    ICmp(Pred, Ty, Opd, Opd),
    FCmp(i32, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    Cast(Cast, Ty, Ty, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, i64, Vec<(Opd, u32, i64)>),
    Select(Opd, Opd, Opd, Ty, bool),
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Opd, Opd, Vec<u32>),
    ExtractElement(Opd, Opd),
    InsertElement(Opd, Opd, Opd),
    Shuffle(Opd, Opd, Vec<i32>),
    Alloca(u64, Opd),
    Freeze(Opd),
    Call(Callee, Vec<Opd>, Ty, Vec<Ty>, Option<u32>),
    AtomicRmw(i32, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Nop,
    Zero(Ty),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Unsupported(String),
}

pub struct Instr {
    pub ins: Ins,
    pub dst: u32,
    pub loc: u32,
}

pub struct Block {
    /// For each predecessor block index: the parallel copies of the phis.
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<Instr>,
}

pub struct Func {
    pub name: String,
    pub params: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub entry: u32,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub data: Vec<u8>,
    pub writable: bool,
}

pub struct Program {
    pub funcs: Vec<Func>,
    pub func_by_name: HashMap<String, u32>,
    pub ext: Vec<String>,
    pub consts: Vec<CVal>,
    pub globals: Vec<Global>,
    /// addr -> function (Ok) or external (Err) index
    pub func_at: HashMap<u64, Result<u32, u32>>,
    /// (file, line)
    pub locs: Vec<(String, u32)>,
}

pub const FUNC_BASE: u64 = 0x0100_0000;
pub const GLOBAL_BASE: u64 = 0x1000_0000;

struct Dec<'a> {
    a: &'a Api,
    dl: R,
    addr: HashMap<usize, u64>,
    consts: Vec<CVal>,
    const_ix: HashMap<usize, u32>,
    tys: HashMap<usize, Ty>,
    locs: Vec<(String, u32)>,
    loc_ix: HashMap<(String, u32), u32>,
}

impl<'a> Dec<'a> {
    fn name(&self, v: R) -> String {
        unsafe {
            let mut n = 0usize;
            let p = (self.a.LLVMGetValueName2)(v, &mut n);
            String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
        }
    }
    fn print(&self, v: R) -> String {
        unsafe { CStr::from_ptr((self.a.LLVMPrintValueToString)(v)).to_string_lossy().into_owned() }
    }
    fn ty(&mut self, t: R) -> Ty {
        if let Some(x) = self.tys.get(&(t as usize)) {
            return x.clone();
        }
        let a = self.a;
        let r = unsafe {
            match (a.LLVMGetTypeKind)(t) {
                0 => Ty::Void,
                2 => Ty::F32,
                3 => Ty::F64,
                8 => Ty::Int((a.LLVMGetIntTypeWidth)(t)),
                12 => Ty::Ptr,
                10 => {
                    let n = (a.LLVMCountStructElementTypes)(t);
                    let mut el = vec![std::ptr::null_mut(); n as usize];
                    (a.LLVMGetStructElementTypes)(t, el.as_mut_ptr());
                    let size = (a.LLVMABISizeOfType)(self.dl, t);
                    let mut v = vec![];
                    for (i, e) in el.into_iter().enumerate() {
                        let off = (a.LLVMOffsetOfElement)(self.dl, t, i as u32);
                        v.push((self.ty(e), off));
                    }
                    Ty::Struct(v, size)
                }
                11 => {
                    let e = (a.LLVMGetElementType)(t);
                    let n = (a.LLVMGetArrayLength2)(t);
                    let stride = (a.LLVMABISizeOfType)(self.dl, e);
                    Ty::Array(Box::new(self.ty(e)), n, stride)
                }
                13 => {
                    let e = (a.LLVMGetElementType)(t);
                    let n = (a.LLVMGetVectorSize)(t) as u64;
                    Ty::Vec(Box::new(self.ty(e)), n)
                }
                _ => Ty::Other,
            }
        };
        self.tys.insert(t as usize, r.clone());
        r
    }
    fn size(&self, t: R) -> u64 {
        unsafe { (self.a.LLVMABISizeOfType)(self.dl, t) }
    }
    fn zero(&self, t: &Ty) -> CVal {
        match t {
            Ty::Struct(f, _) => CVal::Agg(f.iter().map(|x| self.zero(&x.0)).collect()),
            Ty::Array(e, n, _) | Ty::Vec(e, n) if { let _ = n; true } => {
                CVal::Agg((0..*n).map(|_| self.zero(e)).collect())
            }
            t => CVal::Int(0, t.bits()),
        }
    }
    fn gep_const(&mut self, v: R) -> Result<u64, String> {
        // constant expression GEP
        let a = self.a;
        unsafe {
            let base = match self.cval((a.LLVMGetOperand)(v, 0))? {
                CVal::Int(b, _) => b as u64,
                _ => return Err("gep base".into()),
            };
            let (off, dynamic) = self.gep_off(v)?;
            if !dynamic.is_empty() {
                return Err("dynamic constant gep".into());
            }
            Ok(base.wrapping_add(off as u64))
        }
    }
    /// (constant offset, [(index value, index width, scale)])
    fn gep_off(&mut self, v: R) -> Result<(i64, Vec<(R, u32, i64)>), String> {
        let a = self.a;
        unsafe {
            let n = (a.LLVMGetNumOperands)(v) as u32;
            let mut cur = (a.LLVMGetGEPSourceElementType)(v);
            let mut off = 0i64;
            let mut dynv = vec![];
            for i in 1..n {
                let ix = (a.LLVMGetOperand)(v, i);
                let it = (a.LLVMTypeOf)(ix);
                let w = match self.ty(it) {
                    Ty::Int(w) => w,
                    _ => return Err("vector gep".into()),
                };
                let konst = if (a.LLVMIsConstant)(ix) != 0 {
                    match self.cval(ix)? {
                        CVal::Int(c, _) => Some(sext(c as u64, w)),
                        _ => return Err("gep index".into()),
                    }
                } else {
                    None
                };
                if i == 1 {
                    let s = self.size(cur) as i64;
                    match konst {
                        Some(c) => off = off.wrapping_add(c.wrapping_mul(s)),
                        None => dynv.push((ix, w, s)),
                    }
                } else {
                    match (a.LLVMGetTypeKind)(cur) {
                        10 => {
                            let c = konst.ok_or("struct index")? as u32;
                            off += (a.LLVMOffsetOfElement)(self.dl, cur, c) as i64;
                            let m = (a.LLVMCountStructElementTypes)(cur);
                            let mut el = vec![std::ptr::null_mut(); m as usize];
                            (a.LLVMGetStructElementTypes)(cur, el.as_mut_ptr());
                            cur = el[c as usize];
                        }
                        11 | 13 => {
                            cur = (a.LLVMGetElementType)(cur);
                            let s = self.size(cur) as i64;
                            match konst {
                                Some(c) => off = off.wrapping_add(c.wrapping_mul(s)),
                                None => dynv.push((ix, w, s)),
                            }
                        }
                        k => return Err(format!("gep into kind {}", k)),
                    }
                }
            }
            Ok((off, dynv))
        }
    }
    fn cval(&mut self, v: R) -> Result<CVal, String> {
        let a = self.a;
        unsafe {
            if let Some(ad) = self.addr.get(&(v as usize)) {
                return Ok(CVal::Int(*ad as u128, 64));
            }
            let tr = (a.LLVMTypeOf)(v);
            let t = self.ty(tr);
            if !(a.LLVMIsAConstantInt)(v).is_null() {
                let w = t.bits();
                if w <= 64 {
                    let x = (a.LLVMConstIntGetZExtValue)(v) as u128;
                    return Ok(CVal::Int(x & mask(w), w));
                }
                let s = self.print(v);
                let num = s.split_whitespace().last().unwrap_or("").to_string();
                if w > 128 {
                    return Err(format!("wide const {}", s));
                }
                let x = match num.parse::<i128>() {
                    Ok(x) => x as u128,
                    Err(_) => num.parse::<u128>().map_err(|_| format!("const {}", s))?,
                };
                return Ok(CVal::Int(x & mask(w), w));
            }
            if (a.LLVMIsUndef)(v) != 0 || (a.LLVMIsNull)(v) != 0 {
                return Ok(self.zero(&t));
            }
            if !(a.LLVMIsAConstantFP)(v).is_null() {
                let mut l = 0;
                let d = (a.LLVMConstRealGetDouble)(v, &mut l);
                return Ok(match t {
                    Ty::F32 => CVal::Int((d as f32).to_bits() as u128, 32),
                    Ty::F64 => CVal::Int(d.to_bits() as u128, 64),
                    _ => return Err("fp const".into()),
                });
            }
            if !(a.LLVMIsAConstantExpr)(v).is_null() {
                let op = (a.LLVMGetConstOpcode)(v);
                let get = |s: &mut Self, n| -> Result<u128, String> {
                    match s.cval((a.LLVMGetOperand)(v, n))? {
                        CVal::Int(x, _) => Ok(x),
                        _ => Err("const operand".into()),
                    }
                };
                let w = t.bits();
                let r = match op {
                    29 => self.gep_const(v)? as u128,
                    39 | 40 | 41 | 30 | 60 | 69 => get(self, 0)?,
                    8 => get(self, 0)?.wrapping_add(get(self, 1)?),
                    10 => get(self, 0)?.wrapping_sub(get(self, 1)?),
                    25 => get(self, 0)? ^ get(self, 1)?,
                    _ => return Err(format!("constexpr {}: {}", op, self.print(v))),
                };
                return Ok(CVal::Int(r & mask(w), w));
            }
            match t {
                Ty::Struct(ref f, _) => {
                    let mut o = vec![];
                    for i in 0..f.len() {
                        o.push(self.cval((a.LLVMGetAggregateElement)(v, i as u32))?);
                    }
                    Ok(CVal::Agg(o))
                }
                Ty::Array(_, n, _) | Ty::Vec(_, n) => {
                    let mut o = vec![];
                    for i in 0..n {
                        o.push(self.cval((a.LLVMGetAggregateElement)(v, i as u32))?);
                    }
                    Ok(CVal::Agg(o))
                }
                _ => {
                    // e.g. aliases, no_cfi, dso_local_equivalent, blockaddress
                    Err(format!("constant {}", self.print(v)))
                }
            }
        }
    }
    fn write_init(&mut self, v: R, out: &mut [u8]) -> Result<(), String> {
        let a = self.a;
        unsafe {
            if (a.LLVMIsUndef)(v) != 0 || (a.LLVMIsNull)(v) != 0 {
                return Ok(());
            }
            if !(a.LLVMIsAConstantDataSequential)(v).is_null() {
                let mut n = 0usize;
                let p = (a.LLVMGetRawDataValues)(v, &mut n);
                out[..n].copy_from_slice(std::slice::from_raw_parts(p, n));
                return Ok(());
            }
            let tr = (a.LLVMTypeOf)(v);
            let t = self.ty(tr);
            match t {
                Ty::Struct(ref f, _) => {
                    for (i, (_, off)) in f.iter().enumerate() {
                        let e = (a.LLVMGetAggregateElement)(v, i as u32);
                        self.write_init(e, &mut out[*off as usize..])?;
                    }
                }
                Ty::Array(_, n, s) => {
                    for i in 0..n {
                        let e = (a.LLVMGetAggregateElement)(v, i as u32);
                        self.write_init(e, &mut out[(i * s) as usize..])?;
                    }
                }
                _ => match self.cval(v)? {
                    CVal::Int(x, w) => {
                        let nb = ((w + 7) / 8) as usize;
                        out[..nb].copy_from_slice(&x.to_le_bytes()[..nb]);
                    }
                    CVal::Agg(_) => return Err("vector init".into()),
                },
            }
            Ok(())
        }
    }
    fn constant(&mut self, v: R) -> Result<Opd, String> {
        if let Some(i) = self.const_ix.get(&(v as usize)) {
            return Ok(Opd::Const(*i));
        }
        let c = self.cval(v)?;
        let i = self.consts.len() as u32;
        self.consts.push(c);
        self.const_ix.insert(v as usize, i);
        Ok(Opd::Const(i))
    }
    fn loc(&mut self, i: R) -> u32 {
        let a = self.a;
        unsafe {
            let line = (a.LLVMGetDebugLocLine)(i);
            if line == 0 {
                return 0;
            }
            let mut n = 0u32;
            let p = (a.LLVMGetDebugLocFilename)(i, &mut n);
            if p.is_null() {
                return 0;
            }
            let f = String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n as usize)).into_owned();
            let f = if f.starts_with('/') {
                f
            } else {
                let p = (a.LLVMGetDebugLocDirectory)(i, &mut n);
                if p.is_null() { f } else {
                    format!("{}/{}", String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n as usize)), f)
                }
            };
            let k = (f, line);
            if let Some(i) = self.loc_ix.get(&k) {
                return *i;
            }
            let ix = self.locs.len() as u32;
            self.locs.push(k.clone());
            self.loc_ix.insert(k, ix);
            ix
        }
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext(x: u64, w: u32) -> i64 {
    if w >= 64 { x as i64 } else { ((x << (64 - w)) as i64) >> (64 - w) }
}

pub fn load(lib: &str, path: &str) -> Result<Program, String> {
    let api = Api::load(lib)?;
    let a = &api;
    unsafe {
        let ctx = (a.LLVMContextCreate)();
        let mut buf = std::ptr::null_mut();
        let mut msg = std::ptr::null_mut();
        let c = CString::new(path).unwrap();
        if (a.LLVMCreateMemoryBufferWithContentsOfFile)(c.as_ptr(), &mut buf, &mut msg) != 0 {
            return Err(format!("cannot read {}", path));
        }
        let mut m = std::ptr::null_mut();
        if (a.LLVMParseBitcodeInContext2)(ctx, buf, &mut m) != 0 {
            return Err("cannot parse bitcode".into());
        }
        let dl = (a.LLVMGetModuleDataLayout)(m);
        let mut d = Dec {
            a, dl, addr: HashMap::new(), consts: vec![], const_ix: HashMap::new(), tys: HashMap::new(),
            locs: vec![(String::new(), 0)], loc_ix: HashMap::new(),
        };
        let mut funcs = vec![];
        let mut ext = vec![];
        let mut func_at = HashMap::new();
        let mut defs = vec![];
        let mut def_ix: HashMap<usize, u32> = HashMap::new();
        let mut ext_ix: HashMap<usize, u32> = HashMap::new();
        let mut f = (a.LLVMGetFirstFunction)(m);
        let mut ad = FUNC_BASE;
        while !f.is_null() {
            d.addr.insert(f as usize, ad);
            if (a.LLVMIsDeclaration)(f) != 0 {
                func_at.insert(ad, Err(ext.len() as u32));
                ext_ix.insert(f as usize, ext.len() as u32);
                ext.push(d.name(f));
            } else {
                func_at.insert(ad, Ok(defs.len() as u32));
                def_ix.insert(f as usize, defs.len() as u32);
                defs.push(f);
            }
            ad += 16;
            f = (a.LLVMGetNextFunction)(f);
        }
        let mut gl = vec![];
        let mut g = (a.LLVMGetFirstGlobal)(m);
        let mut ga = GLOBAL_BASE;
        while !g.is_null() {
            let t = (a.LLVMGlobalGetValueType)(g);
            let size = d.size(t);
            d.addr.insert(g as usize, ga);
            gl.push((g, ga, size));
            ga += ((size + 63) / 64 + 1) * 64;
            g = (a.LLVMGetNextGlobal)(g);
        }
        let mut al = (a.LLVMGetFirstGlobalAlias)(m);
        while !al.is_null() {
            let t = (a.LLVMAliasGetAliasee)(al);
            if let Ok(CVal::Int(x, _)) = d.cval(t) {
                d.addr.insert(al as usize, x as u64);
            }
            if let Some(ix) = def_ix.get(&(t as usize)).copied() {
                def_ix.insert(al as usize, ix);
            }
            al = (a.LLVMGetNextGlobalAlias)(al);
        }
        let mut globals = vec![];
        for (g, addr, size) in gl {
            let mut data = vec![0u8; size as usize];
            let decl = (a.LLVMIsDeclaration)(g) != 0;
            if !decl {
                let init = (a.LLVMGetInitializer)(g);
                if !init.is_null() {
                    d.write_init(init, &mut data).map_err(|e| format!("init of {}: {}", d.name(g), e))?;
                }
            }
            globals.push(Global { name: d.name(g), addr, data, writable: (a.LLVMIsGlobalConstant)(g) == 0 });
        }
        let mut func_by_name = HashMap::new();
        for (ix, f) in defs.iter().enumerate() {
            let fun = decode_func(&mut d, *f, &def_ix, &ext_ix, &ext)?;
            func_by_name.insert(fun.name.clone(), ix as u32);
            funcs.push(fun);
        }
        Ok(Program { funcs, func_by_name, ext, consts: d.consts, globals, func_at, locs: d.locs })
    }
}

fn nop_name(n: &str) -> bool {
    n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias")
        || n.starts_with("llvm.invariant") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.fake.use")
        || n.starts_with("llvm.donothing") || n.starts_with("llvm.pseudoprobe") || n.starts_with("llvm.x86.sse2.pause")
}

unsafe fn decode_func(d: &mut Dec, f: R, defs: &HashMap<usize, u32>, exts: &HashMap<usize, u32>, extn: &[String]) -> Result<Func, String> {
    let a = d.a;
    let name = d.name(f);
    let mut reg: HashMap<usize, u32> = HashMap::new();
    let np = (a.LLVMCountParams)(f);
    for i in 0..np {
        reg.insert((a.LLVMGetParam)(f, i) as usize, i);
    }
    let mut n = np;
    let mut bix: HashMap<usize, u32> = HashMap::new();
    let mut bl = vec![];
    let mut b = (a.LLVMGetFirstBasicBlock)(f);
    // LLVMGetFirstBasicBlock yields BasicBlockRef; successors are BasicBlockRef too
    while !b.is_null() {
        bix.insert(b as usize, bl.len() as u32);
        bl.push(b);
        let mut i = (a.LLVMGetFirstInstruction)(b);
        while !i.is_null() {
            reg.insert(i as usize, n);
            n += 1;
            i = (a.LLVMGetNextInstruction)(i);
        }
        b = (a.LLVMGetNextBasicBlock)(b);
    }
    let mut blocks = vec![];
    for b in bl.iter() {
        let mut phis: HashMap<u32, Vec<(u32, Opd)>> = HashMap::new();
        let mut ins = vec![];
        let mut i = (a.LLVMGetFirstInstruction)(*b);
        while !i.is_null() {
            let dst = reg[&(i as usize)];
            let op = (a.LLVMGetInstructionOpcode)(i);
            let loc = d.loc(i);
            if op == 44 {
                let c = (a.LLVMCountIncoming)(i);
                for k in 0..c {
                    let v = (a.LLVMGetIncomingValue)(i, k);
                    let pb = bix[&((a.LLVMGetIncomingBlock)(i, k) as usize)];
                    let o = match reg.get(&(v as usize)) {
                        Some(r) => Opd::Reg(*r),
                        None => d.constant(v).map_err(|e| format!("{}: phi: {}", name, e))?,
                    };
                    let l = phis.entry(pb).or_default();
                    if !l.iter().any(|x| x.0 == dst) {
                        l.push((dst, o));
                    }
                }
            } else {
                let r = decode_ins(d, i, op, &reg, &bix, defs, exts, extn);
                let r = match r {
                    Ok(x) => x,
                    Err(e) => Ins::Unsupported(format!("{}: {}", e, d.print(i))),
                };
                let is_invoke = op == 5;
                ins.push(Instr { ins: r, dst, loc });
                if is_invoke {
                    let nd = (a.LLVMGetNormalDest)(i);
                    ins.push(Instr { ins: Ins::Br(bix[&(nd as usize)]), dst: 0, loc });
                }
            }
            i = (a.LLVMGetNextInstruction)(i);
        }
        blocks.push(Block { phis: phis.into_iter().collect(), ins });
    }
    Ok(Func { name, params: np, nregs: n, blocks, entry: 0 })
}

#[allow(clippy::too_many_arguments)]
unsafe fn decode_ins(
    d: &mut Dec, i: R, op: c_int, reg: &HashMap<usize, u32>, bix: &HashMap<usize, u32>,
    defs: &HashMap<usize, u32>, exts: &HashMap<usize, u32>, extn: &[String],
) -> Result<Ins, String> {
    let a = d.a;
    let opd = |d: &mut Dec, v: R| -> Result<Opd, String> {
        match reg.get(&(v as usize)) {
            Some(r) => Ok(Opd::Reg(*r)),
            None => d.constant(v),
        }
    };
    let o = |d: &mut Dec, n: u32| -> Result<Opd, String> { opd(d, (a.LLVMGetOperand)(i, n)) };
    let vt = |d: &mut Dec, v: R| -> Ty { let t = (a.LLVMTypeOf)(v); d.ty(t) };
    let opt = |d: &mut Dec, n: u32| -> Ty { vt(d, (a.LLVMGetOperand)(i, n)) };
    let self_ty = vt(d, i);
    if !(a.LLVMIsACondBrInst)(i).is_null() {
        let c = opd(d, (a.LLVMGetCondition)(i))?;
        return Ok(Ins::CondBr(c, bix[&((a.LLVMGetSuccessor)(i, 0) as usize)], bix[&((a.LLVMGetSuccessor)(i, 1) as usize)]));
    }
    if !(a.LLVMIsAUncondBrInst)(i).is_null() {
        return Ok(Ins::Br(bix[&((a.LLVMGetSuccessor)(i, 0) as usize)]));
    }
    let bin = |b: Bin, d: &mut Dec| -> Result<Ins, String> { Ok(Ins::Bin(b, self_ty.clone(), o(d, 0)?, o(d, 1)?)) };
    let cast = |c: Cast, d: &mut Dec| -> Result<Ins, String> { let f = opt(d, 0); Ok(Ins::Cast(c, f, self_ty.clone(), o(d, 0)?)) };
    Ok(match op {
        1 => {
            if (a.LLVMGetNumOperands)(i) == 0 { Ins::Ret(None) } else { Ins::Ret(Some(o(d, 0)?)) }
        }
        3 => {
            let c = o(d, 0)?;
            let w = opt(d, 0).bits();
            let n = (a.LLVMGetNumSuccessors)(i);
            let def = bix[&((a.LLVMGetSuccessor)(i, 0) as usize)];
            let mut cs = vec![];
            for k in 1..n {
                let v = match d.cval((a.LLVMGetSwitchCaseValue)(i, k))? {
                    CVal::Int(x, _) => x,
                    _ => return Err("case".into()),
                };
                cs.push((v, bix[&((a.LLVMGetSuccessor)(i, k) as usize)]));
            }
            Ins::Switch(c, w, def, cs)
        }
        7 => Ins::Unreachable,
        8 => bin(Bin::Add, d)?,
        9 => bin(Bin::FAdd, d)?,
        10 => bin(Bin::Sub, d)?,
        11 => bin(Bin::FSub, d)?,
        12 => bin(Bin::Mul, d)?,
        13 => bin(Bin::FMul, d)?,
        14 => bin(Bin::UDiv, d)?,
        15 => bin(Bin::SDiv, d)?,
        16 => bin(Bin::FDiv, d)?,
        17 => bin(Bin::URem, d)?,
        18 => bin(Bin::SRem, d)?,
        19 => bin(Bin::FRem, d)?,
        20 => bin(Bin::Shl, d)?,
        21 => bin(Bin::LShr, d)?,
        22 => bin(Bin::AShr, d)?,
        23 => bin(Bin::And, d)?,
        24 => bin(Bin::Or, d)?,
        25 => bin(Bin::Xor, d)?,
        66 => Ins::FNeg(self_ty.clone(), o(d, 0)?),
        26 => {
            let t = (a.LLVMGetAllocatedType)(i);
            Ins::Alloca(d.size(t), o(d, 0)?)
        }
        27 => Ins::Load(self_ty.clone(), o(d, 0)?),
        28 => Ins::Store(opt(d, 0), o(d, 0)?, o(d, 1)?),
        29 => {
            let base = o(d, 0)?;
            let (off, dy) = d.gep_off(i)?;
            let mut l = vec![];
            for (v, w, s) in dy {
                l.push((opd(d, v)?, w, s));
            }
            Ins::Gep(base, off, l)
        }
        30 => cast(Cast::Trunc, d)?,
        31 => cast(Cast::ZExt, d)?,
        32 => cast(Cast::SExt, d)?,
        33 => cast(Cast::FpToUi, d)?,
        34 => cast(Cast::FpToSi, d)?,
        35 => cast(Cast::UiToFp, d)?,
        36 => cast(Cast::SiToFp, d)?,
        37 => cast(Cast::FpTrunc, d)?,
        38 => cast(Cast::FpExt, d)?,
        39 | 40 | 41 | 60 | 69 => {
            let f = opt(d, 0);
            let (fb, tb) = (f.bits(), self_ty.bits());
            if !f.is_agg() && !self_ty.is_agg() && fb != tb {
                let c = if fb < tb { Cast::ZExt } else { Cast::Trunc };
                Ins::Cast(c, f, self_ty.clone(), o(d, 0)?)
            } else {
                Ins::Cast(Cast::Bit, f, self_ty.clone(), o(d, 0)?)
            }
        }
        42 => {
            let p = match (a.LLVMGetICmpPredicate)(i) {
                32 => Pred::Eq, 33 => Pred::Ne, 34 => Pred::Ugt, 35 => Pred::Uge, 36 => Pred::Ult,
                37 => Pred::Ule, 38 => Pred::Sgt, 39 => Pred::Sge, 40 => Pred::Slt, 41 => Pred::Sle,
                p => return Err(format!("icmp {}", p)),
            };
            Ins::ICmp(p, opt(d, 0), o(d, 0)?, o(d, 1)?)
        }
        43 => Ins::FCmp((a.LLVMGetFCmpPredicate)(i), opt(d, 0), o(d, 0)?, o(d, 1)?),
        45 | 5 => {
            let cv = (a.LLVMGetCalledValue)(i);
            let n = (a.LLVMGetNumArgOperands)(i);
            if !(a.LLVMIsAInlineAsm)(cv).is_null() {
                if self_ty == Ty::Void { return Ok(Ins::Nop); }
                let mut len = 0usize;
                let t = (a.LLVMGetInlineAsmAsmString)(cv, &mut len);
                let t = String::from_utf8_lossy(std::slice::from_raw_parts(t as *const u8, len)).into_owned();
                // CPU feature detection: a processor without any optional feature
                if t.contains("cpuid") { return Ok(Ins::Zero(self_ty)); }
                return Err("inline asm".into());
            }
            let callee = if let Some(ix) = defs.get(&(cv as usize)) {
                Callee::Func(*ix)
            } else if let Some(ix) = exts.get(&(cv as usize)) {
                if nop_name(&extn[*ix as usize]) { return Ok(Ins::Nop); }
                Callee::Ext(*ix)
            } else {
                Callee::Ind(opd(d, cv)?)
            };
            let mut args = vec![];
            let mut tys = vec![];
            for k in 0..n {
                let v = (a.LLVMGetOperand)(i, k);
                let t = vt(d, v);
                args.push(opd(d, v)?);
                tys.push(t);
            }
            Ins::Call(callee, args, self_ty.clone(), tys, None)
        }
        46 => {
            let ct = opt(d, 0);
            Ins::Select(o(d, 0)?, o(d, 1)?, o(d, 2)?, self_ty.clone(), ct.is_agg())
        }
        50 => Ins::ExtractElement(o(d, 0)?, o(d, 1)?),
        51 => Ins::InsertElement(o(d, 0)?, o(d, 1)?, o(d, 2)?),
        52 => {
            let n = (a.LLVMGetNumMaskElements)(i);
            let m = (0..n).map(|k| (a.LLVMGetMaskValue)(i, k)).collect();
            Ins::Shuffle(o(d, 0)?, o(d, 1)?, m)
        }
        53 | 54 => {
            let n = (a.LLVMGetNumIndices)(i) as usize;
            let p = (a.LLVMGetIndices)(i);
            let ix = std::slice::from_raw_parts(p, n).to_vec();
            if op == 53 { Ins::ExtractValue(o(d, 0)?, ix) } else { Ins::InsertValue(o(d, 0)?, o(d, 1)?, ix) }
        }
        55 => Ins::Nop,
        56 => Ins::CmpXchg(opt(d, 1), o(d, 0)?, o(d, 1)?, o(d, 2)?),
        57 => Ins::AtomicRmw((a.LLVMGetAtomicRMWBinOp)(i), opt(d, 1), o(d, 0)?, o(d, 1)?),
        58 | 59 => Ins::Unsupported("unwinding".into()),
        68 => Ins::Freeze(o(d, 0)?),
        _ => return Err(format!("opcode {}", op)),
    })
}
