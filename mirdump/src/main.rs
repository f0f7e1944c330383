#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
use rustc_public::CrateDefType;
use rustc_public_bridge::IndexedVal;

mod ir;
use ir::*;
use rustc_public::CrateDef;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::{self, AggregateKind, NonDivergingIntrinsic, ProjectionElem, StatementKind, TerminatorKind, UnwindAction};
use rustc_public::ty::{self, ClosureKind, ConstantKind, FnDef, GenericArgs, RigidTy, Span, Ty as RTy, TyKind as RTyKind};
use std::collections::HashMap;
use std::ops::ControlFlow;

struct Cx {
    p: Program,
    tys: HashMap<RTy, TyId>,
    fns: HashMap<Instance, FnId>,
    queue: Vec<(FnId, Instance)>,
}

/// Crates and paths whose bodies the analyser models and the dump leaves out.
fn is_opaque(path: &str, krate: &str) -> bool {
    if matches!(krate, "rayon" | "rayon_core" | "stacker" | "psm" | "crossbeam_deque" | "crossbeam_epoch" | "crossbeam_utils") {
        return true;
    }
    const OPAQUE: &[&str] = &[
        "core::panicking", "std::panicking", "core::fmt", "alloc::fmt", "std::rt", "alloc::raw_vec", "std::thread", "core::slice::sort", "alloc::alloc::handle_alloc_error",
        "core::slice::index::slice_", "core::option::expect_failed", "core::option::unwrap_failed", "core::result::unwrap_failed", "std::backtrace",
    ];
    OPAQUE.iter().any(|o| path.starts_with(o))
}

impl Cx {
    fn ty(&mut self, t: RTy) -> TyId {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let id = self.p.types.len();
        self.tys.insert(t, id);
        let (size, align) = match t.layout() {
            Ok(l) => {
                let s = l.shape();
                (if s.is_sized() { Some(s.size.bytes() as u64) } else { None }, s.abi_align)
            }
            Err(_) => (None, 1),
        };
        self.p.types.push(Ty { name: format!("{t}"), kind: TyKind::Other(String::new()), size, align: align as u64, needs_drop: false });
        let kind = match t.kind() {
            RTyKind::RigidTy(r) => match r {
                RigidTy::Bool => TyKind::Bool,
                RigidTy::Char => TyKind::Char,
                RigidTy::Int(i) => TyKind::Int { signed: true, bits: 8 * i.num_bytes() as u32 },
                RigidTy::Uint(i) => TyKind::Int { signed: false, bits: 8 * i.num_bytes() as u32 },
                RigidTy::Float(_) => TyKind::Float,
                RigidTy::Never => TyKind::Never,
                RigidTy::Str => TyKind::Str,
                RigidTy::Adt(def, args) => {
                    let a = self.generic_tys(&args);
                    let kind = format!("{:?}", def.kind()).to_lowercase();
                    let mut vs = vec![];
                    for v in def.variants_iter() {
                        let discr = if kind == "enum" { def.discriminant_for_variant(v.idx()).val } else { 0 };
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            fs.push((f.name.to_string(), self.ty(ft)));
                        }
                        vs.push(Variant { name: v.name().to_string(), discr, fields: fs });
                    }
                    TyKind::Adt { path: def.name().to_string(), args: a, kind, variants: vs }
                }
                RigidTy::Tuple(ts) => TyKind::Tuple(ts.into_iter().map(|t| self.ty(t)).collect()),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    TyKind::Array(e, n.eval_target_usize().unwrap_or(u64::MAX))
                }
                RigidTy::Pat(e, _) => {
                    let e = self.ty(e);
                    TyKind::Other(format!("pat {e}"))
                }
                RigidTy::Slice(e) => TyKind::Slice(self.ty(e)),
                RigidTy::RawPtr(e, m) => TyKind::Ptr { pointee: self.ty(e), mutable: m == mir::Mutability::Mut, is_ref: false },
                RigidTy::Ref(_, e, m) => TyKind::Ptr { pointee: self.ty(e), mutable: m == mir::Mutability::Mut, is_ref: true },
                RigidTy::FnDef(d, a) => match Instance::resolve(d, &a) {
                    Ok(i) => TyKind::FnDef(self.func(i)),
                    Err(_) => TyKind::Other("fndef".into()),
                },
                RigidTy::FnPtr(_) => TyKind::FnPtr,
                RigidTy::Closure(d, a) => {
                    let mut up = vec![];
                    if let Some(ty::GenericArgKind::Type(t)) = a.0.last() {
                        if let RTyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                            for t in ts {
                                up.push(self.ty(t));
                            }
                        }
                    }
                    TyKind::Closure { path: d.name().to_string(), upvars: up }
                }
                RigidTy::Dynamic(..) => TyKind::Dyn(format!("{t}")),
                o => TyKind::Other(format!("{o:?}")),
            },
            o => TyKind::Other(format!("{o:?}")),
        };
        self.p.types[id].kind = kind;
        id
    }
    fn generic_tys(&mut self, a: &GenericArgs) -> Vec<TyId> {
        a.0.iter().filter_map(|g| if let ty::GenericArgKind::Type(t) = g { Some(self.ty(*t)) } else { None }).collect()
    }
    fn func(&mut self, i: Instance) -> FnId {
        if let Some(&f) = self.fns.get(&i) {
            return f;
        }
        let id = self.p.funcs.len();
        self.fns.insert(i, id);
        let kind = match i.kind {
            InstanceKind::Item => if i.is_foreign_item() { "foreign" } else { "item" },
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let full = i.name().to_string();
        let def = i.def.def_id();
        let path = def.name().to_string();
        let krate = i.def.krate().name.to_string();
        let is_closure = path.ends_with("}") && path.contains("{closure");
        self.p.funcs.push(Func { path, full, krate, kind: kind.into(), args: vec![], sig: vec![], ret: None, body: None, callbacks: vec![], is_closure, unsafe_: false });
        self.queue.push((id, i));
        id
    }
    fn line(&self, s: &Span) -> u32 {
        s.get_lines().start_line as u32
    }
    fn place(&mut self, p: &mir::Place) -> Place {
        let mut proj = vec![];
        for e in &p.projection {
            proj.push(match e {
                ProjectionElem::Deref => Proj::Deref,
                ProjectionElem::Field(f, t) => Proj::Field(*f, self.ty(*t)),
                ProjectionElem::Index(l) => Proj::Index(*l),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => Proj::ConstIndex { offset: *offset, from_end: *from_end },
                ProjectionElem::Subslice { from, to, from_end } => Proj::Subslice { from: *from, to: *to, from_end: *from_end },
                ProjectionElem::Downcast(v) => Proj::Downcast(v.to_index()),
                ProjectionElem::OpaqueCast(t) => Proj::Cast(self.ty(*t)),
            });
        }
        Place { local: p.local, proj }
    }
    fn alloc_bytes(a: &ty::Allocation) -> Vec<Option<u8>> {
        a.bytes.clone()
    }
    fn konst(&mut self, c: &ty::MirConst) -> ConstVal {
        let t = c.ty();
        if let RTyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
            return match Instance::resolve(d, &a) {
                Ok(i) => ConstVal::Fn(self.func(i)),
                Err(_) => ConstVal::Opaque("unresolved fn".into()),
            };
        }
        match c.kind() {
            ConstantKind::ZeroSized => ConstVal::Zst,
            ConstantKind::Allocated(a) => self.alloc_const(t, a),
            ConstantKind::Ty(tc) => match tc.kind() {
                ty::TyConstKind::Value(t, a) => self.alloc_const(*t, a),
                ty::TyConstKind::ZSTValue(_) => ConstVal::Zst,
                o => ConstVal::Opaque(format!("{o:?}")),
            },
            o => ConstVal::Opaque(format!("{o:?}")),
        }
    }
    fn alloc_const(&mut self, t: RTy, a: &ty::Allocation) -> ConstVal {
        use mir::alloc::GlobalAlloc;
        if a.bytes.is_empty() {
            return ConstVal::Zst;
        }
        if let Some((_, prov)) = a.provenance.ptrs.first() {
            return match GlobalAlloc::from(prov.0) {
                GlobalAlloc::Memory(m) if m.provenance.ptrs.is_empty() => {
                    let len = if a.bytes.len() == 16 { Some(u64::from_le_bytes(std::array::from_fn(|i| a.bytes[8 + i].unwrap_or(0)))) } else { None };
                    ConstVal::RefBytes(Self::alloc_bytes(&m), len)
                }
                GlobalAlloc::Static(s) => {
                    let n = s.name().to_string();
                    if !self.p.statics.contains(&n) {
                        self.p.statics.push(n.clone());
                    }
                    ConstVal::Static(n)
                }
                GlobalAlloc::Function(i) => ConstVal::Fn(self.func(i)),
                _ => ConstVal::Opaque("ref".into()),
            };
        }
        match t.kind() {
            RTyKind::RigidTy(RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::RawPtr(..)) => match a.read_uint() {
                Ok(v) => ConstVal::Scalar(v),
                Err(_) => ConstVal::Bytes(Self::alloc_bytes(a)),
            },
            _ => ConstVal::Bytes(Self::alloc_bytes(a)),
        }
    }
    fn op(&mut self, o: &mir::Operand) -> Operand {
        match o {
            mir::Operand::Copy(p) => Operand::Copy(self.place(p)),
            mir::Operand::Move(p) => Operand::Move(self.place(p)),
            mir::Operand::Constant(c) => Operand::Const { ty: self.ty(c.const_.ty()), val: self.konst(&c.const_) },
            mir::Operand::RuntimeChecks(r) => Operand::RuntimeCheck(format!("{r:?}")),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> Unwind {
        match u {
            UnwindAction::Continue => Unwind::Continue,
            UnwindAction::Unreachable => Unwind::Unreachable,
            UnwindAction::Terminate => Unwind::Terminate,
            UnwindAction::Cleanup(b) => Unwind::Cleanup(*b),
        }
    }
    fn rvalue(&mut self, r: &mir::Rvalue, locals: &[mir::LocalDecl]) -> Rvalue {
        match r {
            mir::Rvalue::Use(o, _) => Rvalue::Use(self.op(o)),
            mir::Rvalue::CopyForDeref(p) => Rvalue::Use(Operand::Copy(self.place(p))),
            mir::Rvalue::Reborrow(_, m, p) => {
                let _ = m;
                Rvalue::Use(Operand::Copy(self.place(p)))
            }
            mir::Rvalue::Ref(_, k, p) => Rvalue::Ref(k.to_mutable_lossy() == mir::Mutability::Mut, self.place(p)),
            mir::Rvalue::AddressOf(k, p) => Rvalue::AddrOf(k.to_mutable_lossy() == mir::Mutability::Mut, self.place(p)),
            mir::Rvalue::Aggregate(k, ops) => {
                let ty = r.ty(locals);
                let ops = ops.iter().map(|o| self.op(o)).collect();
                let agg = match k {
                    AggregateKind::Array(t) => Agg::Array(self.ty(*t)),
                    AggregateKind::Tuple => Agg::Tuple,
                    AggregateKind::Adt(_, v, _, _, f) => Agg::Adt { ty: self.ty(ty.unwrap()), variant: v.to_index(), union_field: *f },
                    AggregateKind::Closure(..) => Agg::Closure(self.ty(ty.unwrap())),
                    AggregateKind::RawPtr(t, _) => Agg::RawPtr(self.ty(*t)),
                    _ => Agg::Tuple,
                };
                Rvalue::Aggregate(agg, ops)
            }
            mir::Rvalue::BinaryOp(b, x, y) => Rvalue::Bin(format!("{b:?}"), self.op(x), self.op(y)),
            mir::Rvalue::CheckedBinaryOp(b, x, y) => Rvalue::Checked(format!("{b:?}"), self.op(x), self.op(y)),
            mir::Rvalue::UnaryOp(u, x) => Rvalue::Un(format!("{u:?}"), self.op(x)),
            mir::Rvalue::Cast(k, o, t) => Rvalue::Cast(format!("{k:?}"), self.op(o), self.ty(*t)),
            mir::Rvalue::Discriminant(p) => Rvalue::Discr(self.place(p)),
            mir::Rvalue::Len(p) => Rvalue::Len(self.place(p)),
            mir::Rvalue::Repeat(o, n) => Rvalue::Repeat(self.op(o), n.eval_target_usize().unwrap_or(u64::MAX)),
            mir::Rvalue::ThreadLocalRef(c) => Rvalue::ThreadLocal(c.name().to_string()),
        }
    }
    fn body(&mut self, b: &mir::Body) -> Body {
        let locals = b.locals();
        let mut names = vec![None; locals.len()];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names[l] = Some(v.name.to_string());
            }
        }
        let ltys = locals.iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut stmts = vec![];
            for s in &bb.statements {
                let k = match &s.kind {
                    StatementKind::Assign(p, r) => Stmt::Assign(self.place(p), self.rvalue(r, locals)),
                    StatementKind::SetDiscriminant { place, variant_index } => Stmt::SetDiscr(self.place(place), variant_index.to_index()),
                    StatementKind::StorageLive(l) => Stmt::StorageLive(*l),
                    StatementKind::StorageDead(l) => Stmt::StorageDead(*l),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => Stmt::Assume(self.op(o)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => Stmt::CopyNonOverlapping(self.op(&c.src), self.op(&c.dst), self.op(&c.count)),
                    _ => continue,
                };
                stmts.push((k, self.line(&s.source_info.span)));
            }
            let term = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => Term::Goto(*target),
                TerminatorKind::SwitchInt { discr, targets } => Term::Switch {
                    ty: self.ty(discr.ty(locals).unwrap()),
                    discr: self.op(discr),
                    branches: targets.branches().collect(),
                    otherwise: targets.otherwise(),
                },
                TerminatorKind::Resume => Term::Resume,
                TerminatorKind::Abort => Term::Abort,
                TerminatorKind::Return => Term::Return,
                TerminatorKind::Unreachable => Term::Unreachable,
                TerminatorKind::Drop { place, target, unwind } => {
                    let t = place.ty(locals).unwrap();
                    let i = Instance::resolve_drop_in_place(t);
                    let glue = if i.is_empty_shim() { None } else { Some(self.func(i)) };
                    let tid = self.ty(t);
                    self.p.types[tid].needs_drop = glue.is_some();
                    Term::Drop { place: self.place(place), glue, target: *target, unwind: self.unwind(unwind) }
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let ft = func.ty(locals).unwrap();
                    let mut rust_call = false;
                    let callee = match ft.kind() {
                        RTyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                            rust_call = is_fn_trait_method(d);
                            match Instance::resolve(d, &a) {
                                Ok(i) => Callee::Direct(self.func(i)),
                                Err(_) => Callee::Indirect(self.op(func)),
                            }
                        }
                        _ => Callee::Indirect(self.op(func)),
                    };
                    Term::Call {
                        callee,
                        rust_call,
                        args: args.iter().map(|o| self.op(o)).collect(),
                        dest: self.place(destination),
                        target: *target,
                        unwind: self.unwind(unwind),
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => Term::Assert {
                    cond: self.op(cond),
                    expected: *expected,
                    msg: msg.description().unwrap_or("assert").to_string(),
                    target: *target,
                    unwind: self.unwind(unwind),
                },
                TerminatorKind::InlineAsm { .. } => Term::Asm,
            };
            blocks.push(Block { stmts, term, line: self.line(&bb.terminator.source_info.span) });
        }
        Body { locals: ltys, names, arg_count: b.arg_locals().len(), spread: b.spread_arg(), blocks, file: b.span.get_filename().to_string() }
    }
    fn process(&mut self, id: FnId, i: Instance) {
        let args = i.args();
        let a = self.generic_tys(&args);
        self.p.funcs[id].args = a;
        let t = i.ty();
        if let Some(sig) = t.kind().fn_sig() {
            let sig = sig.skip_binder();
            self.p.funcs[id].unsafe_ = format!("{:?}", sig.safety) == "Unsafe";
        }
        let (path, krate) = (self.p.funcs[id].path.clone(), self.p.funcs[id].krate.clone());
        let opaque = is_opaque(&path, &krate) && self.p.funcs[id].kind != "shim";
        let body = if opaque || matches!(i.kind, InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic | InstanceKind::Virtual { .. }) || i.is_foreign_item() { None } else { i.body() };
        if let Some(b) = body {
            let b = self.body(&b);
            self.p.funcs[id].sig = b.locals[1..=b.arg_count].to_vec();
            self.p.funcs[id].ret = Some(b.locals[0]);
            self.p.funcs[id].body = Some(b);
        } else {
            // closures handed to a function whose body is not available
            let mut cbs = vec![];
            let mut seen = vec![];
            let mut todo: Vec<RTy> = args.0.iter().filter_map(|g| if let ty::GenericArgKind::Type(t) = g { Some(*t) } else { None }).collect();
            while let Some(t) = todo.pop() {
                if seen.contains(&t) {
                    continue;
                }
                seen.push(t);
                match t.kind() {
                    RTyKind::RigidTy(RigidTy::Closure(d, a)) => {
                        if let Ok(ci) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                            let tid = self.ty(t);
                            let fid = self.func(ci);
                            cbs.push((tid, fid));
                        }
                        for g in &a.0 {
                            if let ty::GenericArgKind::Type(t) = g {
                                todo.push(*t);
                            }
                        }
                    }
                    RTyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                        if let Ok(ci) = Instance::resolve(d, &a) {
                            let tid = self.ty(t);
                            let fid = self.func(ci);
                            cbs.push((tid, fid));
                        }
                    }
                    RTyKind::RigidTy(RigidTy::Adt(_, a)) => {
                        for g in &a.0 {
                            if let ty::GenericArgKind::Type(t) = g {
                                todo.push(*t);
                            }
                        }
                    }
                    RTyKind::RigidTy(RigidTy::Tuple(ts)) => todo.extend(ts),
                    RTyKind::RigidTy(RigidTy::Ref(_, t, _)) => todo.push(t),
                    _ => {}
                }
            }
            self.p.funcs[id].callbacks = cbs;
        }
    }
}

fn is_fn_trait_method(d: FnDef) -> bool {
    let n = d.name().to_string();
    matches!(n.rsplit("::").next(), Some("call" | "call_mut" | "call_once")) && (n.contains("ops::function::Fn") || n.contains("ops::Fn"))
}

fn dump() -> ControlFlow<(), ()> {
    let mut cx = Cx { p: Program::default(), tys: HashMap::new(), fns: HashMap::new(), queue: vec![] };
    for it in rustc_public::all_local_items() {
        let n = it.name().to_string();
        let last = n.rsplit("::").next().unwrap_or("");
        if last.starts_with("entry_") {
            if let Ok(i) = Instance::try_from(it) {
                let f = cx.func(i);
                cx.p.entries.push(f);
            }
        }
    }
    while let Some((id, i)) = cx.queue.pop() {
        cx.process(id, i);
    }
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    std::fs::write(&out, serde_json::to_vec(&cx.p).unwrap()).unwrap();
    eprintln!("mirdump: {} entries, {} functions, {} types", cx.p.entries.len(), cx.p.funcs.len(), cx.p.types.len());
    ControlFlow::Continue(())
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path.
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "harness".into());
    if name == target {
        let r = run!(&args, dump);
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        let s = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(s.code().unwrap_or(1));
    }
}
