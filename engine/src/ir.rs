//! Decoded IR.
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Fp(u32),
    Array(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Vec(u32, Arc<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Fp(w) => (*w as u64) / 8,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Vec(n, t) => match &**t {
                Ty::Int(w) => ((*n as u64) * (*w as u64) + 7) / 8,
                t => *n as u64 * t.store_size(),
            },
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(_) | Ty::Vec(..) => {
                let s = self.store_size();
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Fp(w) => (*w as u64) / 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                for t in f.iter() {
                    let a = if *packed { 1 } else { t.align() };
                    al = al.max(a);
                    o = (o + a - 1) / a * a;
                    o += t.size();
                }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    o = (o + a - 1) / a * a;
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Array(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("field of scalar"),
        }
    }
    pub fn n_fields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    /// Bit width of a scalar.
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Fp(w) => *w,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Fp(_))
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(u128),
    Agg(Arc<Vec<Opd>>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Intr(Intr),
    Ind(Opd),
    Unknown(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    Assume,
    Expect,
    Min(bool), // signed
    Max(bool),
    Abs,
    AddOv(bool),
    SubOv(bool),
    MulOv(bool),
    USubSat,
    UAddSat,
    SSubSat,
    SAddSat,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Cmp3(bool),
    IsConstant,
    Tls,
    Trap,
    ObjectSize,
    PtrMask,
    VecReduce(BinOp),
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    KeyCreate,
    RustAlloc,
    RustAllocZeroed,
    RustDealloc,
    RustRealloc,
    Panic,
    // harness
    SxU64,
    SxRange,
    SxFork,
    SxBool,
    SxAssume,
    SxAssert,
    SxOut,
    SxReach,
    SxParam,
    SxSymbolic,
    /// The decimal digits of a 128-bit integer, by a stand-in (see exec.rs).
    Fmt128,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(BinOp, u32, Opd, Opd),
    /// element type width, pred, a, b; lanes (0 = scalar)
    ICmp(Pred, u32, Opd, Opd),
    Cast(CastOp, u32, u32, Opd),
    Select(Opd, Opd, Opd, Ty),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Alloca(u64, Opd),
    /// base, constant offset, (index, index width, scale)
    Gep(Opd, u64, Vec<(Opd, u32, u64)>),
    Call(Callee, Vec<(Ty, Opd)>, Ty),
    Ret(Option<Opd>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Unreachable,
    Extract(Opd, Vec<u32>),
    Insert(Opd, Opd, Vec<u32>),
    ExtractEl(Opd, Opd),
    InsertEl(Opd, Opd, Opd),
    Shuffle(Opd, Opd, u32, Vec<u32>),
    Freeze(Opd),
    AtomicRmw(String, u32, Opd, Opd),
    CmpXchg(u32, Opd, Opd, Opd),
    Nop,
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Block {
    /// (dest, per predecessor block operand)
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<(Option<u32>, Ins)>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub has_alloca: bool,
    pub ninstr: usize,
}
