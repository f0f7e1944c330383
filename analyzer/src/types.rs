//! The program with derived facts: normalised type shapes, per-body control-flow structure and liveness.
use crate::ir::*;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Shape {
    Unit,
    Int { signed: bool, bits: u32 },
    Bool,
    Thin(TyId),
    Fat(TyId),
    /// an element (false) or a key (true)
    Elem(bool),
    /// a wrapper with one non-trivial field
    Trans(usize, TyId),
    Struct(Vec<TyId>),
    Enum(Vec<(u128, Vec<TyId>)>),
    Array(TyId, u64),
    Other,
}

pub struct Body2 {
    pub wto: Vec<Wto>,
    pub live_in: Vec<Vec<bool>>,
    pub boxed: Vec<bool>,
    pub has_loop: bool,
    pub preds: Vec<usize>,
}
#[derive(Debug, Clone)]
pub enum Wto {
    V(usize),
    C(usize, Vec<Wto>),
}

pub struct Prog {
    pub p: Program,
    shapes: RefCell<HashMap<TyId, Shape>>,
    bodies: RefCell<HashMap<FnId, Rc<Body2>>>,
    pub names: Vec<String>,
    pub usize_ty: TyId,
}

impl Prog {
    pub fn new(p: Program) -> Prog {
        let usize_ty = p.types.iter().position(|t| t.name == "usize").unwrap();
        let names = p.funcs.iter().map(|f| short(&f.path)).collect();
        Prog { p, shapes: Default::default(), bodies: Default::default(), names, usize_ty }
    }
    pub fn ty(&self, t: TyId) -> &Ty {
        &self.p.types[t]
    }
    pub fn unsized_(&self, t: TyId) -> bool {
        self.ty(t).size.is_none()
    }
    pub fn shape(&self, t: TyId) -> Shape {
        if let Some(s) = self.shapes.borrow().get(&t) {
            return s.clone();
        }
        let s = self.shape_(t);
        self.shapes.borrow_mut().insert(t, s.clone());
        s
    }
    fn fields(&self, f: &[TyId]) -> Shape {
        let nz: Vec<usize> = (0..f.len()).filter(|&i| self.ty(f[i]).size != Some(0)).collect();
        match nz.len() {
            0 => Shape::Unit,
            1 => Shape::Trans(nz[0], f[nz[0]]),
            _ => Shape::Struct(f.to_vec()),
        }
    }
    fn shape_(&self, t: TyId) -> Shape {
        let ty = self.ty(t);
        if ty.size == Some(0) {
            return Shape::Unit;
        }
        match &ty.kind {
            TyKind::Bool => Shape::Bool,
            TyKind::Char => Shape::Int { signed: false, bits: 32 },
            TyKind::Int { signed, bits } => Shape::Int { signed: *signed, bits: *bits },
            TyKind::Ptr { pointee, .. } => {
                if self.unsized_(*pointee) {
                    Shape::Fat(*pointee)
                } else {
                    Shape::Thin(*pointee)
                }
            }
            TyKind::Tuple(f) => self.fields(f),
            TyKind::Closure { upvars, .. } => self.fields(upvars),
            TyKind::Array(e, n) => {
                if *n == 1 {
                    Shape::Trans(0, *e)
                } else {
                    Shape::Array(*e, *n)
                }
            }
            TyKind::Adt { kind, variants, path, .. } => {
                match path.as_str() {
                    "harness::E" | "harness::ES" | "harness::Z" => return Shape::Elem(false),
                    "std::mem::alignment::AlignmentEnum" | "core::mem::alignment::AlignmentEnum" => return Shape::Int { signed: false, bits: 64 },
                    "harness::K" | "harness::K1" | "harness::K2" | "harness::K4" => return Shape::Elem(true),
                    _ => {}
                }
                if kind == "enum" {
                    Shape::Enum(variants.iter().map(|v| (v.discr, v.fields.iter().map(|f| f.1).collect())).collect())
                } else if variants.len() == 1 {
                    self.fields(&variants[0].fields.iter().map(|f| f.1).collect::<Vec<_>>())
                } else {
                    Shape::Other
                }
            }
            TyKind::Other(s) if s.starts_with("pat ") => match s[4..].trim().parse::<TyId>() {
                Ok(u) => Shape::Trans(0, u),
                Err(_) => Shape::Other,
            },
            _ => Shape::Other,
        }
    }
    /// Through transparent wrappers.
    pub fn core(&self, mut t: TyId) -> TyId {
        while let Shape::Trans(_, u) = self.shape(t) {
            t = u;
        }
        t
    }
    pub fn is_elem(&self, t: TyId) -> bool {
        matches!(self.shape(self.core(t)), Shape::Elem(_))
    }
    fn inhabited(&self, t: TyId) -> bool {
        let ty = self.ty(t);
        match &ty.kind {
            TyKind::Adt { kind, variants, .. } if kind == "enum" => variants.iter().any(|v| v.fields.iter().all(|f| self.inhabited(f.1))),
            TyKind::Adt { variants, .. } => variants.iter().all(|v| v.fields.iter().all(|f| self.inhabited(f.1))),
            TyKind::Tuple(f) => f.iter().all(|&x| self.inhabited(x)),
            _ => ty.name != "!",
        }
    }
    /// The discriminant of the one possible variant of a zero-sized enum.
    pub fn only_variant(&self, t: TyId) -> u128 {
        match &self.ty(t).kind {
            TyKind::Adt { kind, variants, .. } if kind == "enum" => variants.iter().find(|v| v.fields.iter().all(|f| self.inhabited(f.1))).map(|v| v.discr).unwrap_or(0),
            _ => 0,
        }
    }
    pub fn size(&self, t: TyId) -> u64 {
        self.ty(t).size.unwrap_or(0)
    }
    pub fn int_info(&self, t: TyId) -> Option<(bool, u32)> {
        match self.shape(self.core(t)) {
            Shape::Int { signed, bits } => Some((signed, bits)),
            _ => None,
        }
    }
    pub fn place_ty(&self, b: &Body, p: &Place) -> TyId {
        let mut t = b.locals[p.local];
        for x in &p.proj {
            t = self.proj_ty(t, x);
        }
        t
    }
    pub fn proj_ty(&self, t: TyId, x: &Proj) -> TyId {
        match x {
            Proj::Deref => match &self.ty(t).kind {
                TyKind::Ptr { pointee, .. } => *pointee,
                TyKind::Adt { args, .. } => args[0],
                _ => t,
            },
            Proj::Field(_, u) | Proj::Cast(u) => *u,
            Proj::Index(_) | Proj::ConstIndex { .. } => match &self.ty(t).kind {
                TyKind::Array(e, _) | TyKind::Slice(e) => *e,
                _ => t,
            },
            Proj::Subslice { .. } | Proj::Downcast(_) => t,
        }
    }
    pub fn body2(&self, f: FnId) -> Rc<Body2> {
        if let Some(b) = self.bodies.borrow().get(&f) {
            return b.clone();
        }
        let b = Rc::new(self.analyse(self.p.funcs[f].body.as_ref().unwrap()));
        self.bodies.borrow_mut().insert(f, b.clone());
        b
    }
    fn analyse(&self, b: &Body) -> Body2 {
        let n = b.blocks.len();
        let succ: Vec<Vec<usize>> = b.blocks.iter().map(|x| succs(&x.term)).collect();
        let mut preds = vec![0; n];
        for s in &succ {
            for &t in s {
                preds[t] += 1;
            }
        }
        let wto = wto(n, &succ);
        fn any(w: &[Wto]) -> bool {
            w.iter().any(|x| matches!(x, Wto::C(..)))
        }
        // liveness
        let nl = b.locals.len();
        let mut boxed = vec![false; nl];
        for x in &b.blocks {
            for (s, _) in &x.stmts {
                if let Stmt::Assign(_, Rvalue::Ref(_, p) | Rvalue::AddrOf(_, p)) = s
                    && !p.proj.iter().any(|x| matches!(x, Proj::Deref))
                {
                    boxed[p.local] = true;
                }
            }
            if let Term::Drop { place, glue: Some(_), .. } = &x.term
                && !place.proj.iter().any(|x| matches!(x, Proj::Deref))
            {
                boxed[place.local] = true;
            }
        }
        for (i, t) in b.locals.iter().enumerate() {
            if self.ty(*t).size == Some(0) {
                boxed[i] = false;
            }
        }
        let mut live_in = vec![vec![false; nl]; n];
        let mut changed = true;
        while changed {
            changed = false;
            for i in (0..n).rev() {
                let mut l = vec![false; nl];
                for &s in &succ[i] {
                    for k in 0..nl {
                        l[k] |= live_in[s][k];
                    }
                }
                live_term(&b.blocks[i].term, &mut l);
                for (s, _) in b.blocks[i].stmts.iter().rev() {
                    live_stmt(s, &mut l);
                }
                if l != live_in[i] {
                    live_in[i] = l;
                    changed = true;
                }
            }
        }
        Body2 { has_loop: any(&wto), wto, live_in, boxed, preds }
    }
}
pub fn short(p: &str) -> String {
    p.replace("ndarray_slice::ndarray::", "ndarray::")
}
pub fn succs(t: &Term) -> Vec<usize> {
    let mut v = vec![];
    let uw = |u: &Unwind, v: &mut Vec<usize>| {
        if let Unwind::Cleanup(c) = u {
            v.push(*c)
        }
    };
    match t {
        Term::Goto(b) => v.push(*b),
        Term::Switch { branches, otherwise, .. } => {
            v.extend(branches.iter().map(|x| x.1));
            v.push(*otherwise);
        }
        Term::Drop { target, unwind, .. } | Term::Assert { target, unwind, .. } => {
            v.push(*target);
            uw(unwind, &mut v);
        }
        Term::Call { target, unwind, .. } => {
            v.extend(target.iter());
            uw(unwind, &mut v);
        }
        _ => {}
    }
    v
}
fn use_place(p: &Place, l: &mut [bool]) {
    l[p.local] = true;
    for x in &p.proj {
        if let Proj::Index(i) = x {
            l[*i] = true;
        }
    }
}
fn use_op(o: &Operand, l: &mut [bool]) {
    if let Operand::Copy(p) | Operand::Move(p) = o {
        use_place(p, l);
    }
}
fn def_place(p: &Place, l: &mut [bool]) {
    if p.proj.is_empty() {
        l[p.local] = false;
    } else {
        use_place(p, l);
    }
}
fn live_stmt(s: &Stmt, l: &mut [bool]) {
    match s {
        Stmt::Assign(p, r) => {
            def_place(p, l);
            match r {
                Rvalue::Use(o) | Rvalue::Un(_, o) | Rvalue::Cast(_, o, _) | Rvalue::Repeat(o, _) => use_op(o, l),
                Rvalue::Ref(_, q) | Rvalue::AddrOf(_, q) | Rvalue::Discr(q) | Rvalue::Len(q) => use_place(q, l),
                Rvalue::Aggregate(_, os) => os.iter().for_each(|o| use_op(o, l)),
                Rvalue::Bin(_, a, b) | Rvalue::Checked(_, a, b) => {
                    use_op(a, l);
                    use_op(b, l);
                }
                Rvalue::ThreadLocal(_) => {}
            }
        }
        Stmt::SetDiscr(p, _) => use_place(p, l),
        Stmt::StorageLive(x) | Stmt::StorageDead(x) => l[*x] = false,
        Stmt::Assume(o) => use_op(o, l),
        Stmt::CopyNonOverlapping(a, b, c) => {
            use_op(a, l);
            use_op(b, l);
            use_op(c, l);
        }
        Stmt::Nop => {}
    }
}
fn live_term(t: &Term, l: &mut [bool]) {
    match t {
        Term::Switch { discr, .. } => use_op(discr, l),
        Term::Drop { place, .. } => use_place(place, l),
        Term::Call { callee, args, dest, .. } => {
            def_place(dest, l);
            args.iter().for_each(|o| use_op(o, l));
            if let Callee::Indirect(o) = callee {
                use_op(o, l);
            }
        }
        Term::Assert { cond, .. } => use_op(cond, l),
        Term::Return => l[0] = true,
        _ => {}
    }
}
/// Weak topological order (Bourdoncle).
fn wto(n: usize, succ: &[Vec<usize>]) -> Vec<Wto> {
    struct S<'a> {
        dfn: Vec<usize>,
        num: usize,
        stack: Vec<usize>,
        succ: &'a [Vec<usize>],
    }
    const INF: usize = usize::MAX;
    impl S<'_> {
        fn component(&mut self, v: usize) -> Wto {
            let mut part = vec![];
            for &s in &self.succ[v] {
                if self.dfn[s] == 0 {
                    self.visit(s, &mut part);
                }
            }
            part.reverse();
            Wto::C(v, part)
        }
        fn visit(&mut self, v: usize, part: &mut Vec<Wto>) -> usize {
            self.stack.push(v);
            self.num += 1;
            self.dfn[v] = self.num;
            let mut head = self.num;
            let mut loop_ = false;
            for &s in self.succ[v].iter() {
                let min = if self.dfn[s] == 0 { self.visit(s, part) } else { self.dfn[s] };
                if min != INF && min <= head {
                    head = min;
                    loop_ = true;
                }
            }
            if head == self.dfn[v] {
                self.dfn[v] = INF;
                let mut e = self.stack.pop().unwrap();
                if loop_ {
                    while e != v {
                        self.dfn[e] = 0;
                        e = self.stack.pop().unwrap();
                    }
                    let c = self.component(v);
                    part.push(c);
                } else {
                    part.push(Wto::V(v));
                }
            }
            head
        }
    }
    let mut s = S { dfn: vec![0; n], num: 0, stack: vec![], succ };
    let mut part = vec![];
    if n > 0 {
        s.visit(0, &mut part);
    }
    part.reverse();
    part
}
pub fn wto_blocks(w: &Wto, out: &mut BTreeSet<usize>) {
    match w {
        Wto::V(b) => {
            out.insert(*b);
        }
        Wto::C(h, v) => {
            out.insert(*h);
            v.iter().for_each(|x| wto_blocks(x, out));
        }
    }
}
