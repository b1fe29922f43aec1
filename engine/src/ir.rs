//! In-memory form of the LLVM module the interpreter runs.

use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Array(Arc<Ty>, u64),
    Struct(Arc<Vec<Ty>>, bool),
    Vec(Arc<Ty>, u32),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            t => panic!("bits of {t:?}"),
        }
    }
    pub fn scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    /// Number of bytes a store of the type writes.
    pub fn store(&self) -> u64 {
        match self {
            Ty::Vec(t, n) => (t.bits() as u64 * *n as u64).div_ceil(8),
            Ty::Array(..) | Ty::Struct(..) => self.size(),
            Ty::Void | Ty::Other => 0,
            t => (t.bits() as u64).div_ceil(8),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Array(t, _) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed { 1 } else { f.iter().map(Ty::align).max().unwrap_or(1) }
            }
            Ty::Vec(..) => self.store().next_power_of_two(),
            Ty::Void | Ty::Other => 1,
        }
    }
    /// Allocation size (stride in arrays).
    pub fn size(&self) -> u64 {
        match self {
            Ty::Array(t, n) => t.size() * n,
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !packed {
                        o = o.next_multiple_of(t.align());
                    }
                    o += t.size();
                }
                o.next_multiple_of(self.align())
            }
            t => t.store().next_multiple_of(t.align()),
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        o = o.next_multiple_of(t.align());
                    }
                    if j as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field {i} of {self:?}")
            }
            Ty::Array(t, _) => (t.size() * i, (**t).clone()),
            Ty::Vec(t, _) => (t.size() * i, (**t).clone()),
            t => panic!("field of {t:?}"),
        }
    }
}

/// A run-time value: the concrete value under the current input, plus (for scalars) the symbolic
/// expression it is an instance of, `0` when it does not depend on the input.
#[derive(Clone, Debug)]
pub enum Val {
    I(u128, u32),
    A(Arc<Vec<Val>>),
}

impl Val {
    pub fn int(v: u128) -> Self {
        Val::I(v, 0)
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Opd {
    R(u32),
    C(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    /// bitcast, ptrtoint, inttoptr between equal sizes
    Bit,
    FpToSi,
    FpToUi,
    SiToFp,
    UiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Clone, Debug)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Abs,
    UMin,
    UMax,
    SMin,
    SMax,
    USubSat,
    UAddSat,
    SSubSat,
    SAddSat,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    Fshl,
    Fshr,
    Ucmp,
    Scmp,
    First,
    Trap,
    IsConst,
    FAbs,
    FRound(char),
    FpToSat(bool),
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    ReduceUMax,
    ReduceXor,
    Psad,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Intr(Intr),
    Dyn(Opd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(crate::expr::Op, Ty, u32, Opd, Opd),
    FBin(FOp, u32, u32, Opd, Opd),
    FNeg(u32, u32, Opd),
    ICmp(Pred, Ty, u32, Opd, Opd),
    FCmp(String, u32, u32, Opd, Opd),
    Cast(CastK, Ty, Ty, u32, Opd),
    Select(u32, Ty, Opd, Opd, Opd),
    Alloca(u32, u64, u64),
    Load(Ty, u32, Opd),
    Store(Ty, Opd, Opd),
    /// dst, base, constant offset, scaled indices (operand, index width, scale)
    Gep(u32, Opd, u64, Vec<(Opd, u32, u64)>),
    ExtractV(u32, Opd, Vec<u32>),
    InsertV(u32, Opd, Opd, Vec<u32>),
    ExtractE(u32, Opd, Opd),
    InsertE(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<Option<u32>>),
    Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Opd, Ty)> },
    Rmw(String, Ty, u32, Opd, Opd),
    CmpXchg(Ty, u32, Opd, Opd, Opd),
    Copy(u32, Opd),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub preds: Vec<u32>,
    /// (dst, one operand per predecessor)
    pub phis: Vec<(u32, Vec<Opd>)>,
    pub ins: Vec<Ins>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: u32,
    pub nregs: u32,
    pub consts: Vec<Val>,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub init: Vec<u8>,
    pub constant: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
}

pub const FUNC_BASE: u64 = 0x1000_0000;
pub const GLOBAL_BASE: u64 = 0x2000_0000;
pub const HEAP_BASE: u64 = 0x10_0000_0000;
pub const STACK_BASE: u64 = 0x7f00_0000_0000;

impl Module {
    pub fn func_at(&self, addr: u64) -> Option<u32> {
        if addr < FUNC_BASE || addr % 16 != 0 {
            return None;
        }
        let i = (addr - FUNC_BASE) / 16;
        (i < self.funcs.len() as u64).then_some(i as u32)
    }
}
