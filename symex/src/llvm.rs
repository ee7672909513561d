//! Loads LLVM bitcode through the LLVM C API of the toolchain that produced it
//! and lowers it to a compact internal representation.
use crate::expr::mask;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_ulonglong, c_void, CStr, CString};

type P = *mut c_void;

extern "C" {
    fn LLVMContextCreate() -> P;
    fn LLVMCreateMemoryBufferWithContentsOfFile(path: *const c_char, out: *mut P, msg: *mut *mut c_char) -> c_int;
    fn LLVMParseIRInContext(ctx: P, buf: P, out: *mut P, msg: *mut *mut c_char) -> c_int;
    fn LLVMGetModuleDataLayout(m: P) -> P;
    fn LLVMGetFirstFunction(m: P) -> P;
    fn LLVMGetNextFunction(f: P) -> P;
    fn LLVMGetFirstGlobal(m: P) -> P;
    fn LLVMGetNextGlobal(f: P) -> P;
    fn LLVMGetFirstGlobalAlias(m: P) -> P;
    fn LLVMGetNextGlobalAlias(f: P) -> P;
    fn LLVMAliasGetAliasee(f: P) -> P;
    fn LLVMGetInitializer(g: P) -> P;
    fn LLVMIsGlobalConstant(g: P) -> c_int;
    fn LLVMGlobalGetValueType(g: P) -> P;
    fn LLVMGetValueName2(v: P, len: *mut usize) -> *const c_char;
    fn LLVMIsDeclaration(f: P) -> c_int;
    fn LLVMCountParams(f: P) -> c_uint;
    fn LLVMGetParam(f: P, i: c_uint) -> P;
    fn LLVMGetFirstBasicBlock(f: P) -> P;
    fn LLVMGetNextBasicBlock(f: P) -> P;
    fn LLVMGetFirstInstruction(f: P) -> P;
    fn LLVMGetNextInstruction(f: P) -> P;
    fn LLVMGetInstructionOpcode(i: P) -> c_int;
    fn LLVMTypeOf(v: P) -> P;
    fn LLVMGetTypeKind(t: P) -> c_int;
    fn LLVMGetIntTypeWidth(t: P) -> c_uint;
    fn LLVMGetElementType(t: P) -> P;
    fn LLVMGetVectorSize(t: P) -> c_uint;
    fn LLVMGetArrayLength2(t: P) -> u64;
    fn LLVMCountStructElementTypes(t: P) -> c_uint;
    fn LLVMStructGetTypeAtIndex(t: P, i: c_uint) -> P;
    fn LLVMOffsetOfElement(td: P, t: P, i: c_uint) -> c_ulonglong;
    fn LLVMABISizeOfType(td: P, t: P) -> c_ulonglong;
    fn LLVMABIAlignmentOfType(td: P, t: P) -> c_uint;
    fn LLVMGetNumOperands(v: P) -> c_int;
    fn LLVMGetOperand(v: P, i: c_uint) -> P;
    fn LLVMIsAFunction(v: P) -> P;
    fn LLVMIsAGlobalAlias(v: P) -> P;
    fn LLVMIsAGlobalVariable(v: P) -> P;
    fn LLVMIsAConstantExpr(v: P) -> P;
    fn LLVMIsAConstantArray(v: P) -> P;
    fn LLVMIsAConstantStruct(v: P) -> P;
    fn LLVMIsAConstantVector(v: P) -> P;
    fn LLVMIsAConstantAggregateZero(v: P) -> P;
    fn LLVMIsAConstantDataArray(v: P) -> P;
    fn LLVMIsAConstantDataVector(v: P) -> P;
    fn LLVMIsAConstantInt(v: P) -> P;
    fn LLVMIsAConstantFP(v: P) -> P;
    fn LLVMIsAConstantPointerNull(v: P) -> P;
    fn LLVMIsAInlineAsm(v: P) -> P;
    fn LLVMIsAUndefValue(v: P) -> P;
    fn LLVMGetConstOpcode(v: P) -> c_int;
    fn LLVMConstIntGetZExtValue(v: P) -> c_ulonglong;
    fn LLVMConstRealGetDouble(v: P, loses: *mut c_int) -> f64;
    fn LLVMGetAggregateElement(c: P, i: c_uint) -> P;
    fn LLVMPrintValueToString(v: P) -> *mut c_char;
    fn LLVMDisposeMessage(m: *mut c_char);
    fn LLVMGetICmpPredicate(v: P) -> c_int;
    fn LLVMGetFCmpPredicate(v: P) -> c_int;
    fn LLVMGetCalledValue(v: P) -> P;
    fn LLVMGetNumArgOperands(v: P) -> c_uint;
    fn LLVMGetNormalDest(v: P) -> P;
    fn LLVMGetNumSuccessors(v: P) -> c_uint;
    fn LLVMGetSuccessor(v: P, i: c_uint) -> P;
    fn LLVMGetCondition(v: P) -> P;
    fn LLVMGetSwitchDefaultDest(v: P) -> P;
    fn LLVMGetSwitchCaseValue(v: P, i: c_uint) -> P;
    fn LLVMCountIncoming(v: P) -> c_uint;
    fn LLVMGetIncomingValue(v: P, i: c_uint) -> P;
    fn LLVMGetIncomingBlock(v: P, i: c_uint) -> P;
    fn LLVMGetNumIndices(v: P) -> c_uint;
    fn LLVMGetIndices(v: P) -> *const c_uint;
    fn LLVMGetGEPSourceElementType(v: P) -> P;
    fn LLVMGetAllocatedType(v: P) -> P;
    fn LLVMGetAlignment(v: P) -> c_uint;
    fn LLVMGetNumMaskElements(v: P) -> c_uint;
    fn LLVMGetMaskValue(v: P, i: c_uint) -> c_int;
    fn LLVMGetAtomicRMWBinOp(v: P) -> c_int;
    fn LLVMGetEnumAttributeKindForName(n: *const c_char, l: usize) -> c_uint;
    fn LLVMGetEnumAttributeAtIndex(f: P, idx: c_uint, kind: c_uint) -> P;
    fn LLVMGetDebugLocLine(v: P) -> c_uint;
    fn LLVMGetDebugLocFilename(v: P, len: *mut c_uint) -> *const c_char;
    fn LLVMGetDebugLocDirectory(v: P, len: *mut c_uint) -> *const c_char;
}

pub const GLOBAL_TAG: u64 = 1;
pub const HEAP_TAG: u64 = 2;
pub const STACK_TAG: u64 = 3;
pub const FUNC_TAG: u64 = 4;
pub const BASE_OFF: u64 = 0x10000;

pub fn addr(tag: u64, id: u64) -> u64 {
    (tag << 60) | (id << 32) | BASE_OFF
}

#[derive(Clone, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Agg(Vec<(u64, Ty)>, u64), // (offset, type), total size; structs and arrays
    Vec(u32, Box<Ty>),
    Other,
}

/// Kind of a value, independent of the numbering of the C enumeration.
unsafe fn vkind(v: P) -> c_int {
    let t: [(unsafe extern "C" fn(P) -> P, c_int); 15] = [
        (LLVMIsAConstantInt, 18),
        (LLVMIsAFunction, 5),
        (LLVMIsAGlobalVariable, 8),
        (LLVMIsAGlobalAlias, 6),
        (LLVMIsAConstantExpr, 10),
        (LLVMIsAUndefValue, 14),
        (LLVMIsAConstantAggregateZero, 15),
        (LLVMIsAConstantArray, 11),
        (LLVMIsAConstantStruct, 12),
        (LLVMIsAConstantVector, 13),
        (LLVMIsAConstantDataArray, 16),
        (LLVMIsAConstantDataVector, 17),
        (LLVMIsAConstantFP, 19),
        (LLVMIsAConstantPointerNull, 20),
        (LLVMIsAInlineAsm, 23),
    ];
    t.iter().find(|(f, _)| !f(v).is_null()).map_or(-1, |x| x.1)
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 => 64,
            Ty::Ptr => 64,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Agg(_, s) => *s,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    I(u128, u32),
    Agg(Vec<Const>),
    Undef(Ty),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(u32), // index into module constants
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    NotIntr,
    Nop,
    Memcpy,
    Memmove,
    Memset,
    Umax,
    Umin,
    Smax,
    Smin,
    Abs,
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    Fshl,
    Fshr,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Ucmp,
    Scmp,
    FptosiSat,
    FptouiSat,
    Round,
    RoundEven,
    Floor,
    Ceil,
    Trunc,
    Fabs,
    Copysign,
    Assume,
    IsConstant,
    Expect,
    LoadRelative,
    ThreadlocalAddress,
    Trap,
    VecReduceOr,
    VecReduceAnd,
    VecReduceAdd,
    Unknown,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Indirect(Opd),
}

#[derive(Clone, Debug)]
pub enum Op {
    Ret(Option<Opd>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, Vec<(u128, u32)>, u32),
    Call { callee: Callee, args: Vec<Opd>, normal: Option<u32>, noreturn: bool },
    Unreachable,
    Bin(c_int, Opd, Opd),
    FNeg(Opd),
    ICmp(c_int, Opd, Opd),
    FCmp(c_int, Opd, Opd),
    Cast(c_int, Opd, Ty), // source type
    Alloca(u64, Opd),
    Load(Opd),
    Store(Opd, Opd, Ty),
    Gep { base: Opd, off: i64, idx: Vec<(Opd, i64)> },
    Select(Opd, Opd, Opd),
    Freeze(Opd),
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Opd, Opd, Vec<u32>),
    ExtractElement(Opd, Opd),
    InsertElement(Opd, Opd, Opd),
    Shuffle(Opd, Opd, Vec<i32>),
    CmpXchg(Opd, Opd, Opd),
    Rmw(c_int, Opd, Opd),
    Nop,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub op: Op,
    pub dst: u32,
    pub ty: Ty,
    pub loc: u32,
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub decl: bool,
    pub noreturn: bool,
    pub intr: Intr,
}

pub struct Global {
    pub name: String,
    pub bytes: Vec<u8>,
    pub constant: bool,
    pub external: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    /// Globals share one flat region so that 32-bit relative references work.
    pub gaddrs: Vec<u64>,
    pub consts: Vec<Const>,
    pub locs: Vec<(String, u32)>,
    pub by_name: HashMap<String, u32>,
    pub ninsts: usize,
}

struct Loader {
    td: P,
    gaddr: HashMap<usize, u64>,
    fidx: HashMap<usize, u32>,
    consts: Vec<Const>,
    const_map: HashMap<usize, u32>,
    locs: Vec<(String, u32)>,
    loc_map: HashMap<(String, u32), u32>,
    noreturn_kind: c_uint,
}

unsafe fn name(v: P) -> String {
    let mut n = 0usize;
    let p = LLVMGetValueName2(v, &mut n);
    String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
}

unsafe fn print(v: P) -> String {
    let s = LLVMPrintValueToString(v);
    let r = CStr::from_ptr(s).to_string_lossy().into_owned();
    LLVMDisposeMessage(s);
    r
}

fn intrinsic(n: &str) -> Intr {
    let t: &[(&str, Intr)] = &[
        ("llvm.memcpy", Intr::Memcpy),
        ("llvm.memmove", Intr::Memmove),
        ("llvm.memset", Intr::Memset),
        ("llvm.umax.", Intr::Umax),
        ("llvm.umin.", Intr::Umin),
        ("llvm.smax.", Intr::Smax),
        ("llvm.smin.", Intr::Smin),
        ("llvm.abs.", Intr::Abs),
        ("llvm.uadd.sat", Intr::UaddSat),
        ("llvm.usub.sat", Intr::UsubSat),
        ("llvm.sadd.sat", Intr::SaddSat),
        ("llvm.ssub.sat", Intr::SsubSat),
        ("llvm.uadd.with", Intr::UaddO),
        ("llvm.usub.with", Intr::UsubO),
        ("llvm.umul.with", Intr::UmulO),
        ("llvm.sadd.with", Intr::SaddO),
        ("llvm.ssub.with", Intr::SsubO),
        ("llvm.smul.with", Intr::SmulO),
        ("llvm.fshl.", Intr::Fshl),
        ("llvm.fshr.", Intr::Fshr),
        ("llvm.ctlz", Intr::Ctlz),
        ("llvm.cttz", Intr::Cttz),
        ("llvm.ctpop", Intr::Ctpop),
        ("llvm.bswap", Intr::Bswap),
        ("llvm.bitreverse", Intr::Bitreverse),
        ("llvm.ucmp", Intr::Ucmp),
        ("llvm.scmp", Intr::Scmp),
        ("llvm.fptosi.sat", Intr::FptosiSat),
        ("llvm.fptoui.sat", Intr::FptouiSat),
        ("llvm.roundeven.", Intr::RoundEven),
        ("llvm.rint.", Intr::RoundEven),
        ("llvm.nearbyint.", Intr::RoundEven),
        ("llvm.round.", Intr::Round),
        ("llvm.floor.", Intr::Floor),
        ("llvm.ceil.", Intr::Ceil),
        ("llvm.trunc.", Intr::Trunc),
        ("llvm.fabs.", Intr::Fabs),
        ("llvm.copysign.", Intr::Copysign),
        ("llvm.assume", Intr::Assume),
        ("llvm.is.constant", Intr::IsConstant),
        ("llvm.expect", Intr::Expect),
        ("llvm.load.relative", Intr::LoadRelative),
        ("llvm.threadlocal.address", Intr::ThreadlocalAddress),
        ("llvm.trap", Intr::Trap),
        ("llvm.ubsantrap", Intr::Trap),
        ("llvm.vector.reduce.or", Intr::VecReduceOr),
        ("llvm.vector.reduce.and", Intr::VecReduceAnd),
        ("llvm.vector.reduce.add", Intr::VecReduceAdd),
        ("llvm.lifetime", Intr::Nop),
        ("llvm.experimental.noalias", Intr::Nop),
        ("llvm.dbg", Intr::Nop),
        ("llvm.donothing", Intr::Nop),
        ("llvm.prefetch", Intr::Nop),
        ("llvm.fake.use", Intr::Nop),
    ];
    for (p, i) in t {
        if n.starts_with(p) {
            return *i;
        }
    }
    if n.starts_with("llvm.") {
        Intr::Unknown
    } else {
        Intr::NotIntr
    }
}

impl Loader {
    unsafe fn ty(&self, t: P) -> Ty {
        match LLVMGetTypeKind(t) {
            0 => Ty::Void,
            2 => Ty::F32,
            3 => Ty::F64,
            8 => Ty::Int(LLVMGetIntTypeWidth(t)),
            12 => Ty::Ptr,
            10 => {
                let n = LLVMCountStructElementTypes(t);
                let mut v = Vec::new();
                for i in 0..n {
                    v.push((LLVMOffsetOfElement(self.td, t, i), self.ty(LLVMStructGetTypeAtIndex(t, i))));
                }
                Ty::Agg(v, LLVMABISizeOfType(self.td, t))
            }
            11 => {
                let n = LLVMGetArrayLength2(t);
                let e = LLVMGetElementType(t);
                let s = LLVMABISizeOfType(self.td, e);
                let et = self.ty(e);
                if n > 4096 {
                    return Ty::Other;
                }
                Ty::Agg((0..n).map(|i| (i * s, et.clone())).collect(), n * s)
            }
            13 => Ty::Vec(LLVMGetVectorSize(t), Box::new(self.ty(LLVMGetElementType(t)))),
            _ => Ty::Other,
        }
    }

    unsafe fn const_int(&self, v: P) -> (u128, u32) {
        let t = LLVMTypeOf(v);
        let w = LLVMGetIntTypeWidth(t);
        if w <= 64 {
            return (LLVMConstIntGetZExtValue(v) as u128 & mask(w), w);
        }
        let s = print(v);
        let n = s.rsplit(' ').next().unwrap();
        let x: i128 = n.parse().unwrap_or_else(|_| n.parse::<u128>().unwrap() as i128);
        (x as u128 & mask(w), w)
    }

    unsafe fn constant(&self, v: P) -> Const {
        let kind = vkind(v);
        let t = LLVMTypeOf(v);
        match kind {
            5 | 6 | 8 => {
                let a = *self.gaddr.get(&(v as usize)).unwrap_or_else(|| panic!("no address for {}", name(v)));
                Const::I(a as u128, 64)
            }
            10 => {
                let op = LLVMGetConstOpcode(v);
                let o = |i| match self.constant(LLVMGetOperand(v, i)) {
                    Const::I(a, w) => (a, w),
                    c => panic!("const expr operand {:?}", c),
                };
                match op {
                    29 => {
                        let (base, _) = o(0);
                        let (off, idx) = self.gep(v, |_, x| match self.constant(x) {
                            Const::I(a, w) => (a, w),
                            _ => panic!(),
                        });
                        assert!(idx.is_empty());
                        Const::I(base.wrapping_add(off as i128 as u128) & mask(64), 64)
                    }
                    8 => Const::I(o(0).0.wrapping_add(o(1).0) & mask(o(0).1), o(0).1),
                    10 => Const::I(o(0).0.wrapping_sub(o(1).0) & mask(o(0).1), o(0).1),
                    28 => Const::I((o(0).0 ^ o(1).0) & mask(o(0).1), o(0).1),
                    30 | 39 | 40 | 41 => {
                        let w = self.ty(t).bits();
                        Const::I(o(0).0 & mask(w), w)
                    }
                    _ => panic!("const expr opcode {} {}", op, print(v)),
                }
            }
            11 | 12 | 13 | 16 | 17 => {
                let n = match LLVMGetTypeKind(t) {
                    10 => LLVMCountStructElementTypes(t) as u64,
                    11 => LLVMGetArrayLength2(t),
                    _ => LLVMGetVectorSize(t) as u64,
                };
                Const::Agg((0..n).map(|i| self.constant(LLVMGetAggregateElement(v, i as c_uint))).collect())
            }
            14 | 25 => Const::Undef(self.ty(t)),
            15 => Const::Undef(self.ty(t)), // zero initialised: undef is modelled as zero
            18 => {
                if LLVMGetTypeKind(t) == 13 {
                    // splat constants of vector type
                    let n = LLVMGetVectorSize(t);
                    return Const::Agg((0..n).map(|i| self.constant(LLVMGetAggregateElement(v, i))).collect());
                }
                let (a, w) = self.const_int(v);
                Const::I(a, w)
            }
            19 => {
                if LLVMGetTypeKind(t) == 13 {
                    let n = LLVMGetVectorSize(t);
                    return Const::Agg((0..n).map(|i| self.constant(LLVMGetAggregateElement(v, i))).collect());
                }
                let mut l = 0;
                let d = LLVMConstRealGetDouble(v, &mut l);
                match LLVMGetTypeKind(t) {
                    2 => Const::I((d as f32).to_bits() as u128, 32),
                    3 => Const::I(d.to_bits() as u128, 64),
                    _ => Const::Undef(Ty::Other),
                }
            }
            20 => Const::I(0, 64),
            k => panic!("constant kind {} {}", k, print(v)),
        }
    }

    /// Constant offset and variable indices of a GEP; `cst` evaluates constant operands.
    unsafe fn gep(&self, v: P, cst: impl Fn(&Self, P) -> (u128, u32)) -> (i64, Vec<(P, i64)>) {
        let n = LLVMGetNumOperands(v) as c_uint;
        let mut t = LLVMGetGEPSourceElementType(v);
        let mut off = 0i64;
        let mut idx = Vec::new();
        for i in 1..n {
            let o = LLVMGetOperand(v, i);
            let is_const = vkind(o) == 18 || vkind(o) == 10;
            if i > 1 {
                match LLVMGetTypeKind(t) {
                    10 => {
                        let k = LLVMConstIntGetZExtValue(o) as c_uint;
                        off += LLVMOffsetOfElement(self.td, t, k) as i64;
                        t = LLVMStructGetTypeAtIndex(t, k);
                        continue;
                    }
                    11 | 13 => t = LLVMGetElementType(t),
                    k => panic!("gep into type kind {}", k),
                }
            }
            let sz = LLVMABISizeOfType(self.td, t) as i64;
            if is_const {
                let (c, w) = cst(self, o);
                off = off.wrapping_add((crate::expr::sx(c, w) as i64).wrapping_mul(sz));
            } else {
                idx.push((o, sz));
            }
        }
        (off, idx)
    }

    unsafe fn write(&self, c: &Const, t: &Ty, out: &mut [u8]) {
        match (c, t) {
            (Const::I(v, _), _) => {
                let n = t.size() as usize;
                out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            (Const::Agg(v), Ty::Agg(f, _)) => {
                for (c, (o, t)) in v.iter().zip(f) {
                    self.write(c, t, &mut out[*o as usize..]);
                }
            }
            (Const::Agg(v), Ty::Vec(_, e)) => {
                let s = e.size() as usize;
                for (i, c) in v.iter().enumerate() {
                    self.write(c, e, &mut out[i * s..]);
                }
            }
            _ => {}
        }
    }

    unsafe fn global_bytes(&self, init: P, out: &mut [u8]) {
        // Arrays of bytes can be large; handle them without building types.
        let t = LLVMTypeOf(init);
        match (LLVMGetTypeKind(t), vkind(init)) {
            (11, k) if k != 14 && k != 15 && k != 25 => {
                let n = LLVMGetArrayLength2(t);
                let s = LLVMABISizeOfType(self.td, LLVMGetElementType(t)) as usize;
                for i in 0..n {
                    self.global_bytes(LLVMGetAggregateElement(init, i as c_uint), &mut out[i as usize * s..]);
                }
            }
            (10, k) if k != 14 && k != 15 && k != 25 => {
                for i in 0..LLVMCountStructElementTypes(t) {
                    let o = LLVMOffsetOfElement(self.td, t, i) as usize;
                    self.global_bytes(LLVMGetAggregateElement(init, i), &mut out[o..]);
                }
            }
            (_, 14 | 15 | 25) => {}
            _ => {
                let c = self.constant(init);
                self.write(&c, &self.ty(t), out);
            }
        }
    }

    unsafe fn opd(&mut self, v: P, regs: &HashMap<usize, u32>) -> Opd {
        if let Some(&r) = regs.get(&(v as usize)) {
            return Opd::Reg(r);
        }
        if let Some(&c) = self.const_map.get(&(v as usize)) {
            return Opd::C(c);
        }
        let c = self.constant(v);
        let i = self.consts.len() as u32;
        self.consts.push(c);
        self.const_map.insert(v as usize, i);
        Opd::C(i)
    }

    unsafe fn loc(&mut self, i: P) -> u32 {
        let line = LLVMGetDebugLocLine(i);
        let mut n = 0;
        let p = LLVMGetDebugLocFilename(i, &mut n);
        if p.is_null() || line == 0 {
            return 0;
        }
        let f = String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n as usize)).into_owned();
        let mut dn = 0;
        let dp = LLVMGetDebugLocDirectory(i, &mut dn);
        let f = if f.starts_with('/') || dp.is_null() {
            f
        } else {
            format!("{}/{}", String::from_utf8_lossy(std::slice::from_raw_parts(dp as *const u8, dn as usize)), f)
        };
        let k = (f, line);
        if let Some(&l) = self.loc_map.get(&k) {
            return l;
        }
        let l = self.locs.len() as u32;
        self.locs.push(k.clone());
        self.loc_map.insert(k, l);
        l
    }

    unsafe fn func(&mut self, f: P) -> Func {
        let nm = name(f);
        let nparams = LLVMCountParams(f);
        let decl = LLVMIsDeclaration(f) != 0;
        let noreturn = !LLVMGetEnumAttributeAtIndex(f, !0, self.noreturn_kind).is_null();
        let intr = intrinsic(&nm);
        let mut out = Func { name: nm, nparams, nregs: nparams, blocks: Vec::new(), decl, noreturn, intr };
        if decl {
            return out;
        }
        let mut regs: HashMap<usize, u32> = HashMap::new();
        let mut blocks: HashMap<usize, u32> = HashMap::new();
        for i in 0..nparams {
            regs.insert(LLVMGetParam(f, i) as usize, i);
        }
        let mut n = nparams;
        let mut b = LLVMGetFirstBasicBlock(f);
        while !b.is_null() {
            blocks.insert(b as usize, blocks.len() as u32);
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() {
                if LLVMGetTypeKind(LLVMTypeOf(i)) != 0 {
                    regs.insert(i as usize, n);
                    n += 1;
                }
                i = LLVMGetNextInstruction(i);
            }
            b = LLVMGetNextBasicBlock(b);
        }
        out.nregs = n;
        let mut b = LLVMGetFirstBasicBlock(f);
        while !b.is_null() {
            let mut blk = Block { phis: Vec::new(), insts: Vec::new() };
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() {
                let opc = LLVMGetInstructionOpcode(i);
                let dst = regs.get(&(i as usize)).copied().unwrap_or(u32::MAX);
                let t = LLVMTypeOf(i);
                if opc == 44 {
                    let mut inc = Vec::new();
                    for k in 0..LLVMCountIncoming(i) {
                        let bb = blocks[&(LLVMGetIncomingBlock(i, k) as usize)];
                        inc.push((bb, self.opd(LLVMGetIncomingValue(i, k), &regs)));
                    }
                    blk.phis.push((dst, inc));
                    i = LLVMGetNextInstruction(i);
                    continue;
                }
                let ty = self.ty(t);
                let loc = self.loc(i);
                let op = self.inst(i, opc, &regs, &blocks);
                blk.insts.push(Inst { op, dst, ty, loc });
                i = LLVMGetNextInstruction(i);
            }
            out.blocks.push(blk);
            b = LLVMGetNextBasicBlock(b);
        }
        out
    }

    unsafe fn inst(&mut self, i: P, opc: c_int, regs: &HashMap<usize, u32>, blocks: &HashMap<usize, u32>) -> Op {
        macro_rules! o {
            ($k:expr) => {{
                let v = LLVMGetOperand(i, $k);
                self.opd(v, regs)
            }};
        }
        let blk = |p: P| blocks[&(p as usize)];
        match opc {
            1 => {
                if LLVMGetNumOperands(i) == 0 {
                    Op::Ret(None)
                } else {
                    Op::Ret(Some(o!(0)))
                }
            }
            5 | 45 => {
                let callee = LLVMGetCalledValue(i);
                let mut noreturn = false;
                let c = if vkind(callee) == 5 {
                    Callee::Func(self.fidx[&(callee as usize)])
                } else if vkind(callee) == 23 {
                    return if print(i).contains("\"\"") { Op::Nop } else { Op::Unsupported(print(i)) };
                } else {
                    Callee::Indirect(self.opd(callee, regs))
                };
                if let Callee::Func(k) = c {
                    let _ = k;
                    noreturn = !LLVMGetEnumAttributeAtIndex(callee, !0, self.noreturn_kind).is_null();
                }
                let nm = name(callee);
                let n = LLVMGetNumArgOperands(i);
                let mut args = Vec::new();
                if !nm.starts_with("llvm.experimental.noalias") && !nm.starts_with("llvm.dbg") {
                    for k in 0..n {
                        args.push(o!(k));
                    }
                }
                let normal = if opc == 5 { Some(blk(LLVMGetNormalDest(i))) } else { None };
                Op::Call { callee: c, args, normal, noreturn }
            }
            3 => {
                let cond = o!(0);
                let n = LLVMGetNumSuccessors(i);
                let def = blk(LLVMGetSwitchDefaultDest(i));
                let mut cases = Vec::new();
                for k in 1..n {
                    let v = self.const_int(LLVMGetSwitchCaseValue(i, k)).0;
                    cases.push((v, blk(LLVMGetSuccessor(i, k))));
                }
                Op::Switch(cond, cases, def)
            }
            7 => Op::Unreachable,
            8..=25 => Op::Bin(opc, o!(0), o!(1)),
            _ => self.inst2(i, opc, regs, blocks),
        }
    }

    unsafe fn inst2(&mut self, i: P, opc: c_int, regs: &HashMap<usize, u32>, blocks: &HashMap<usize, u32>) -> Op {
        macro_rules! o {
            ($k:expr) => {{
                let v = LLVMGetOperand(i, $k);
                self.opd(v, regs)
            }};
        }
        let blk = |p: P| blocks[&(p as usize)];
        match opc {
            26 => {
                let t = LLVMGetAllocatedType(i);
                let _ = LLVMABIAlignmentOfType(self.td, t);
                let _ = LLVMGetAlignment(i);
                Op::Alloca(LLVMABISizeOfType(self.td, t), o!(0))
            }
            27 => Op::Load(o!(0)),
            28 => {
                let t = self.ty(LLVMTypeOf(LLVMGetOperand(i, 0)));
                Op::Store(o!(0), o!(1), t)
            }
            29 => {
                let base = o!(0);
                let (off, idx) = self.gep(i, |s, x| match s.constant(x) {
                    Const::I(a, w) => (a, w),
                    _ => panic!(),
                });
                let idx = idx.into_iter().map(|(p, s)| (self.opd(p, regs), s)).collect();
                Op::Gep { base, off, idx }
            }
            30..=41 | 60 => {
                let t = self.ty(LLVMTypeOf(LLVMGetOperand(i, 0)));
                Op::Cast(opc, o!(0), t)
            }
            42 => Op::ICmp(LLVMGetICmpPredicate(i), o!(0), o!(1)),
            43 => Op::FCmp(LLVMGetFCmpPredicate(i), o!(0), o!(1)),
            46 => Op::Select(o!(0), o!(1), o!(2)),
            50 => Op::ExtractElement(o!(0), o!(1)),
            51 => Op::InsertElement(o!(0), o!(1), o!(2)),
            52 => {
                let n = LLVMGetNumMaskElements(i);
                Op::Shuffle(o!(0), o!(1), (0..n).map(|k| LLVMGetMaskValue(i, k)).collect())
            }
            53 => {
                let n = LLVMGetNumIndices(i) as usize;
                let ix = std::slice::from_raw_parts(LLVMGetIndices(i), n).to_vec();
                Op::ExtractValue(o!(0), ix)
            }
            54 => {
                let n = LLVMGetNumIndices(i) as usize;
                let ix = std::slice::from_raw_parts(LLVMGetIndices(i), n).to_vec();
                Op::InsertValue(o!(0), o!(1), ix)
            }
            55 => Op::Nop,
            56 => Op::CmpXchg(o!(0), o!(1), o!(2)),
            57 => Op::Rmw(LLVMGetAtomicRMWBinOp(i), o!(0), o!(1)),
            59 => Op::Nop,
            66 => Op::FNeg(o!(0)),
            68 => Op::Freeze(o!(0)),
            _ => {
                // Branches: the C API opcode for these changed across releases.
                let n = LLVMGetNumSuccessors(i);
                let s = print(i);
                if s.trim_start().starts_with("br ") {
                    if n == 1 {
                        return Op::Br(blk(LLVMGetSuccessor(i, 0)));
                    }
                    let c = LLVMGetCondition(i);
                    let c = self.opd(c, regs);
                    return Op::CondBr(c, blk(LLVMGetSuccessor(i, 0)), blk(LLVMGetSuccessor(i, 1)));
                }
                Op::Unsupported(format!("opcode {}: {}", opc, s))
            }
        }
    }
}

pub fn load(path: &str) -> Module {
    unsafe {
        let ctx = LLVMContextCreate();
        let p = CString::new(path).unwrap();
        let mut buf: P = std::ptr::null_mut();
        let mut msg: *mut c_char = std::ptr::null_mut();
        if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut buf, &mut msg) != 0 {
            panic!("{}", CStr::from_ptr(msg).to_string_lossy());
        }
        let mut m: P = std::ptr::null_mut();
        if LLVMParseIRInContext(ctx, buf, &mut m, &mut msg) != 0 {
            panic!("{}", CStr::from_ptr(msg).to_string_lossy());
        }
        let td = LLVMGetModuleDataLayout(m);
        let nr = "noreturn";
        let mut l = Loader {
            td,
            gaddr: HashMap::new(),
            fidx: HashMap::new(),
            consts: Vec::new(),
            const_map: HashMap::new(),
            locs: vec![(String::new(), 0)],
            loc_map: HashMap::new(),
            noreturn_kind: LLVMGetEnumAttributeKindForName(nr.as_ptr() as *const c_char, nr.len()),
        };
        let mut fs = Vec::new();
        let mut f = LLVMGetFirstFunction(m);
        while !f.is_null() {
            l.fidx.insert(f as usize, fs.len() as u32);
            l.gaddr.insert(f as usize, addr(FUNC_TAG, fs.len() as u64));
            fs.push(f);
            f = LLVMGetNextFunction(f);
        }
        let mut gs = Vec::new();
        let mut gaddrs = Vec::new();
        let mut gnext = addr(GLOBAL_TAG, 0);
        let mut g = LLVMGetFirstGlobal(m);
        while !g.is_null() {
            let size = LLVMABISizeOfType(td, LLVMGlobalGetValueType(g));
            gaddrs.push(gnext);
            l.gaddr.insert(g as usize, gnext);
            gnext += (size + 64 + 63) & !63;
            gs.push(g);
            g = LLVMGetNextGlobal(g);
        }
        let mut al = LLVMGetFirstGlobalAlias(m);
        while !al.is_null() {
            let c = l.constant(LLVMAliasGetAliasee(al));
            if let Const::I(a, _) = c {
                l.gaddr.insert(al as usize, a as u64);
            }
            al = LLVMGetNextGlobalAlias(al);
        }
        let mut globals = Vec::new();
        for &g in &gs {
            let t = LLVMGlobalGetValueType(g);
            let external = LLVMIsDeclaration(g) != 0;
            let size = LLVMABISizeOfType(td, t) as usize;
            let mut bytes = vec![0u8; size];
            if !external {
                l.global_bytes(LLVMGetInitializer(g), &mut bytes);
            }
            globals.push(Global { name: name(g), bytes, constant: LLVMIsGlobalConstant(g) != 0, external });
        }
        let mut funcs = Vec::new();
        let mut by_name = HashMap::new();
        let mut ninsts = 0;
        for &f in &fs {
            let fun = l.func(f);
            ninsts += fun.blocks.iter().map(|b| b.insts.len() + b.phis.len()).sum::<usize>();
            by_name.insert(fun.name.clone(), funcs.len() as u32);
            funcs.push(fun);
        }
        Module { funcs, globals, gaddrs, consts: l.consts, locs: l.locs, by_name, ninsts }
    }
}
