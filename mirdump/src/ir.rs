//! The intermediate representation shared by the driver (which writes it) and the analyser.
use serde::{Deserialize, Serialize};

pub type TyId = usize;
pub type FnId = usize;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum TyKind {
    Bool,
    Char,
    Int { signed: bool, bits: u32 },
    Float,
    Never,
    Str,
    /// `variants[i].fields` are field types, `discr` the discriminant value.
    Adt { path: String, args: Vec<TyId>, kind: String, variants: Vec<Variant> },
    Tuple(Vec<TyId>),
    Array(TyId, u64),
    Slice(TyId),
    Ptr { pointee: TyId, mutable: bool, is_ref: bool },
    FnDef(FnId),
    FnPtr,
    Closure { path: String, upvars: Vec<TyId> },
    Dyn(String),
    Other(String),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Variant {
    pub name: String,
    pub discr: u128,
    pub fields: Vec<(String, TyId)>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Ty {
    pub name: String,
    pub kind: TyKind,
    pub size: Option<u64>,
    pub align: u64,
    pub needs_drop: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Proj {
    Deref,
    Field(usize, TyId),
    Index(usize),
    ConstIndex { offset: u64, from_end: bool },
    Subslice { from: u64, to: u64, from_end: bool },
    Downcast(usize),
    Cast(TyId),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Place {
    pub local: usize,
    pub proj: Vec<Proj>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum ConstVal {
    Zst,
    Fn(FnId),
    Scalar(u128),
    /// A reference to constant memory: bytes of the pointee when it holds no pointers.
    RefBytes(Vec<Option<u8>>, Option<u64>),
    Bytes(Vec<Option<u8>>),
    Static(String),
    Opaque(String),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Operand {
    Copy(Place),
    Move(Place),
    Const { ty: TyId, val: ConstVal },
    RuntimeCheck(String),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Rvalue {
    Use(Operand),
    Ref(bool, Place),
    AddrOf(bool, Place),
    Aggregate(Agg, Vec<Operand>),
    Bin(String, Operand, Operand),
    Checked(String, Operand, Operand),
    Un(String, Operand),
    Cast(String, Operand, TyId),
    Discr(Place),
    Len(Place),
    Repeat(Operand, u64),
    ThreadLocal(String),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Agg {
    Array(TyId),
    Tuple,
    Adt { ty: TyId, variant: usize, union_field: Option<usize> },
    Closure(TyId),
    RawPtr(TyId),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Stmt {
    Assign(Place, Rvalue),
    SetDiscr(Place, usize),
    StorageLive(usize),
    StorageDead(usize),
    Assume(Operand),
    CopyNonOverlapping(Operand, Operand, Operand),
    Nop,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Unwind {
    Continue,
    Unreachable,
    Terminate,
    Cleanup(usize),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Callee {
    Direct(FnId),
    /// Through a function pointer or otherwise unresolved.
    Indirect(Operand),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Term {
    Goto(usize),
    Switch { discr: Operand, ty: TyId, branches: Vec<(u128, usize)>, otherwise: usize },
    Resume,
    Abort,
    Return,
    Unreachable,
    Drop { place: Place, glue: Option<FnId>, target: usize, unwind: Unwind },
    Call { callee: Callee, rust_call: bool, args: Vec<Operand>, dest: Place, target: Option<usize>, unwind: Unwind },
    Assert { cond: Operand, expected: bool, msg: String, target: usize, unwind: Unwind },
    Asm,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Block {
    pub stmts: Vec<(Stmt, u32)>,
    pub term: Term,
    pub line: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Body {
    pub locals: Vec<TyId>,
    pub names: Vec<Option<String>>,
    pub arg_count: usize,
    pub spread: Option<usize>,
    pub blocks: Vec<Block>,
    pub file: String,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Func {
    /// Path without generic arguments (from the definition).
    pub path: String,
    /// Path with generic arguments.
    pub full: String,
    pub krate: String,
    /// item, intrinsic, foreign, shim, virtual
    pub kind: String,
    pub args: Vec<TyId>,
    pub sig: Vec<TyId>,
    pub ret: Option<TyId>,
    pub body: Option<Body>,
    /// For functions whose body is left out: closures among the generic arguments and their bodies.
    pub callbacks: Vec<(TyId, FnId)>,
    pub is_closure: bool,
    pub unsafe_: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Program {
    pub types: Vec<Ty>,
    pub funcs: Vec<Func>,
    pub entries: Vec<FnId>,
    pub statics: Vec<String>,
}
