//! Statement and control-flow interpretation over the abstract memory.
use crate::ir::*;
use crate::mem::*;
use crate::num::*;
use crate::state::*;
use crate::types::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Exit {
    Ret,
    /// a user callback panicked
    Cb,
    /// the crate panicked: index into `sites`
    Panic(u32),
}
#[derive(Clone, Debug)]
pub struct Out {
    pub exit: Exit,
    pub val: Val,
    pub st: State,
}
#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct Event {
    /// not just unproved: wrong, or off by a small constant
    pub firm: bool,
    pub prop: String,
    pub func: String,
    pub file: String,
    pub line: u32,
    pub msg: String,
}
#[derive(Default, Clone)]
pub struct Stats {
    pub inlined: u64,
    pub blocks: u64,
    pub joins: u64,
    pub loops: BTreeSet<(FnId, usize)>,
    pub funcs: BTreeSet<FnId>,
    pub summaries: u64,
    pub obls: BTreeSet<(&'static str, FnId, u32)>,
}
pub struct Interp<'a> {
    pub p: &'a Prog,
    pub cur: Vec<FnId>,
    pub lines: Vec<u32>,
    pub ev: Vec<Event>,
    pub sites: Vec<(String, String, u32)>,
    pub looks: u64,
    /// accesses to a view other than reads
    pub touches: u64,
    pub firm: bool,
    pub dbg: bool,
    pub trace: bool,
    pub stats: Stats,
    pub sums: crate::summary::Sums,
    pub opts: Opts,
    pub ret_ty: TyId,
    pub deadline: std::time::Instant,
    pub timed_out: bool,
    /// when the first report of the property under check was made
    pub first: Option<std::time::Instant>,
    /// reports of the property under check, those of unfinished rounds included
    pub all: BTreeSet<Event>,
    pub prof: HashMap<FnId, (f64, u64)>,
}
#[derive(Clone, Default)]
pub struct Opts {
    pub termination: bool,
    /// the property under check, if only one counts
    pub want: String,
    /// second attempt: paths end at a report, and functions of the crate must keep the views they are given whole
    pub strict: bool,
    /// the order of elements 1 and 2 that every callback answers by
    pub fix: Option<i32>,
}
pub type In = BTreeMap<usize, Vec<State>>;
const CAP: usize = 10;
/// ... leaving a body without loops
const SMALL: usize = 4;

impl<'a> Interp<'a> {
    pub fn new(p: &'a Prog) -> Self {
        Interp {
            p,
            cur: vec![],
            lines: vec![],
            ev: vec![],
            sites: vec![],
            looks: 0,
            touches: 0,
            firm: false,
            dbg: std::env::var("DBG").is_ok(),
            trace: std::env::var("TRACE").is_ok(),
            stats: Default::default(),
            sums: Default::default(),
            opts: Default::default(),
            ret_ty: 0,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(600),
            timed_out: false,
            first: None,
            all: Default::default(),
            prof: Default::default(),
        }
    }
    pub fn body(&self) -> &'a Body {
        self.p.p.funcs[*self.cur.last().unwrap()].body.as_ref().unwrap()
    }
    /// The innermost frame that belongs to the crate under analysis.
    pub fn site(&self) -> (String, String, u32) {
        for i in (0..self.cur.len()).rev() {
            let f = &self.p.p.funcs[self.cur[i]];
            if f.krate == "ndarray_slice"
                && let Some(b) = &f.body
            {
                return (self.p.names[self.cur[i]].clone(), b.file.clone(), self.lines[i]);
            }
        }
        match self.cur.last() {
            Some(&f) => (self.p.names[f].clone(), String::new(), *self.lines.last().unwrap()),
            None => Default::default(),
        }
    }
    pub fn bad(&mut self, prop: &str, msg: &str) {
        let (func, file, line) = self.site();
        if self.dbg {
            let ch: Vec<String> = self.cur.iter().zip(&self.lines).map(|(f, l)| format!("{}:{l}", self.p.names[*f].rsplit("::").next().unwrap())).collect();
            eprintln!("BAD {prop} {msg} @ {}", ch.join(" > "));
        }
        let firm = std::mem::replace(&mut self.firm, false);
        let e = Event { firm, prop: prop.into(), func, file, line, msg: msg.into() };
        if prop == self.opts.want {
            self.first.get_or_insert_with(std::time::Instant::now);
            self.all.insert(e.clone());
        }
        self.ev.push(e);
    }
    /// Whether a path ends at a report of this property.
    pub fn fatal(&self, prop: &str) -> bool {
        self.opts.want == prop || self.opts.strict && self.opts.want != "C02" && self.opts.want != "C03"
    }
    fn whole(st: &State) -> bool {
        st.objs.values().all(|o| match o.as_ref() {
            Obj::Region(r) => r.kind != RKind::View || !r.elems || r.segs.iter().all(|s| s.own == Own::Live),
            _ => true,
        })
    }
    /// Second attempt: a function that was given whole views must leave them whole.
    fn heal(&mut self, outs: &mut [Out]) {
        for o in outs.iter_mut() {
            if Self::whole(&o.st) {
                continue;
            }
            if o.exit == Exit::Ret {
                self.bad("C03", "an element may be missing or doubled when the function returns");
            } else {
                self.bad("C02", "an element may be missing or doubled when a panic leaves the function");
            }
            let regs: Vec<ObjId> = o.st.objs.iter().filter(|x| matches!(x.1.as_ref(), Obj::Region(r) if r.kind == RKind::View && r.elems)).map(|x| *x.0).collect();
            for r in regs {
                let r = o.st.region_mut(r).unwrap();
                let hi = r.len.clone();
                r.segs = vec![Seg { hi, own: Own::Live, val: SVal::Elems, node: 0 }];
            }
        }
    }
    /// Counts an obligation at the innermost place of the crate.
    pub fn ob(&mut self, prop: &'static str) {
        for i in (0..self.cur.len()).rev() {
            if self.p.p.funcs[self.cur[i]].krate == "ndarray_slice" {
                self.stats.obls.insert((prop, self.cur[i], self.lines[i]));
                return;
            }
        }
        self.stats.obls.insert((prop, self.cur[0], *self.lines.last().unwrap()));
    }
    /// Something outside the analyser's understanding.
    pub fn unknown(&mut self, msg: &str) {
        self.bad("??", msg);
    }

    // ---- values
    pub fn operand(&mut self, st: State, o: &Operand) -> Flow<Val> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let body = self.body();
                let ty = self.p.place_ty(body, p);
                let mv = matches!(o, Operand::Move(_));
                let mut out = vec![];
                for (s, l) in self.resolve_(st, p) {
                    out.extend(self.load(s, &l, ty, mv));
                }
                out
            }
            Operand::Const { ty, val } => {
                let mut st = st;
                let v = self.constant(&mut st, *ty, val);
                self.finish_load(st, v, *ty)
            }
            Operand::RuntimeCheck(_) => vec![(st, Val::bool(false))],
        }
    }
    pub fn resolve_(&mut self, st: State, p: &Place) -> Flow<Loc> {
        let mut st = st;
        self.ensure(&mut st, p.local);
        self.resolve(st, p)
    }
    pub fn ensure(&mut self, st: &mut State, l: usize) {
        let fid = *self.cur.last().unwrap();
        let b2 = self.p.body2(fid);
        if b2.boxed[l]
            && let Slot::V(v) = &st.frames.last().unwrap().locals[l]
        {
            let v = v.clone();
            let o = st.new_obj(Obj::Cell(v));
            st.frame().locals[l] = Slot::Boxed(o);
        }
    }
    fn signed(v: u128, signed: bool, bits: u32) -> i128 {
        if signed && bits < 128 && v >> (bits - 1) & 1 == 1 { v as i128 - (1i128 << bits) } else { v as i128 }
    }
    fn constant(&mut self, st: &mut State, ty: TyId, v: &ConstVal) -> Val {
        match (self.p.shape(ty), v) {
            (Shape::Unit, _) | (_, ConstVal::Zst | ConstVal::Fn(_)) => Val::Unit,
            (Shape::Trans(_, u), _) => self.constant(st, u, v),
            (Shape::Int { signed, bits }, ConstVal::Scalar(x)) => Val::int(Self::signed(*x, signed, bits)),
            (Shape::Bool, ConstVal::Scalar(x)) => Val::bool(*x != 0),
            (Shape::Thin(_), ConstVal::Scalar(x)) => Val::int(*x as i128),
            (Shape::Enum(vs), ConstVal::Scalar(x)) => {
                let bits = self.p.size(ty) as u32 * 8;
                let mask = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
                if vs.iter().all(|v| v.1.iter().all(|&t| self.p.size(t) == 0))
                    && let Some(i) = vs.iter().position(|v| v.0 & mask == *x & mask)
                {
                    let f = vs[i].1.iter().map(|_| Val::Unit).collect();
                    return Val::Enum(i as u32, Rc::new(f));
                }
                Val::Top
            }
            (Shape::Enum(vs), ConstVal::Bytes(b)) => self.const_enum(st, ty, &vs, b),
            (Shape::Int { signed, bits }, ConstVal::Bytes(b)) => Val::int(Self::signed(le(b), signed, bits)),
            (Shape::Bool, ConstVal::Bytes(b)) if b.len() == 1 && b[0].is_some() => Val::bool(b[0] != Some(0)),
            (Shape::Struct(_), ConstVal::Bytes(b)) if b.len() == 16 && b.iter().all(|x| x.is_some()) && self.p.ty(ty).name.ends_with("alloc::Layout") => {
                // whatever the order of its two fields: the alignment is a power of two that divides the size
                let (x, y) = (le(&b[..8]) as i128, le(&b[8..]) as i128);
                let (size, al) = if y > 0 && y & (y - 1) == 0 && x % y == 0 { (x, y) } else { (y, x) };
                Val::agg(vec![Val::int(size), Val::int(al)])
            }
            (Shape::Struct(_), ConstVal::Bytes(_)) => self.fresh_val(st, ty),
            (Shape::Thin(t), ConstVal::RefBytes(b, None)) => {
                let v = if self.p.size(t) as usize == b.len() { self.constant(st, t, &ConstVal::Bytes(b.clone())) } else { Val::Top };
                let o = st.new_obj(Obj::Cell(v));
                Val::Ptr(Ptr { obj: o, path: vec![] })
            }
            (Shape::Fat(t), ConstVal::RefBytes(_, Some(n))) => {
                let es = match &self.p.ty(t).kind {
                    TyKind::Slice(e) => self.p.size(*e),
                    _ => 1,
                };
                let v = self.array_region(st, self.p.usize_ty, *n, Val::Top);
                let Val::Arr(o) = v else { return Val::Top };
                st.region_mut(o).unwrap().esize = es;
                Val::Fat(Ptr { obj: o, path: vec![PE::I(Lin::c(0))] }, Lin::c(*n as i128))
            }
            _ => Val::Top,
        }
    }
    /// `None` of an option whose payload is not initialised in the constant.
    fn const_enum(&mut self, st: &mut State, _ty: TyId, vs: &[(u128, Vec<TyId>)], b: &[Option<u8>]) -> Val {
        let no = |v: &(u128, Vec<TyId>)| v.1.iter().all(|&t| self.p.size(t) == 0);
        let bare = |v: &(u128, Vec<TyId>)| Rc::new(v.1.iter().map(|_| Val::Unit).collect());
        if vs.len() == 2 && no(&vs[0]) && b.iter().take(1).all(|x| *x == Some(0)) && b.iter().skip(8).all(|x| x.is_none()) {
            return Val::Enum(0, bare(&vs[0]));
        }
        if vs.iter().all(|v| v.1.iter().all(|&t| self.p.size(t) == 0)) && b.len() <= 8 && b.iter().all(|x| x.is_some()) {
            let m = (1u128 << (8 * b.len())) - 1;
            if let Some(i) = vs.iter().position(|v| v.0 & m == le(b)) {
                return Val::Enum(i as u32, Rc::new(vs[i].1.iter().map(|_| Val::Unit).collect()));
            }
        }
        // a tag followed by one number
        if vs.len() == 2
            && no(&vs[0])
            && vs[1].1.len() == 1
            && let Shape::Int { .. } = self.p.shape(vs[1].1[0])
            && b.len() as u64 == 2 * self.p.size(vs[1].1[0])
            && b[..b.len() / 2].iter().all(|x| x.is_some())
        {
            let h = b.len() / 2;
            if le(&b[..h]) == 1 {
                let v = self.constant(st, vs[1].1[0], &ConstVal::Bytes(b[h..].to_vec()));
                return Val::Enum(1, Rc::new(vec![v]));
            }
            return Val::Enum(0, bare(&vs[0]));
        }
        Val::Top
    }
    pub fn as_int(&self, st: &mut State, v: &Val, ty: TyId) -> Lin {
        match v {
            Val::Int(l) => st.num.norm(l),
            _ => {
                let (s, b) = self.p.int_info(ty).unwrap_or((false, 64));
                self.fresh_int(st, s, b)
            }
        }
    }
    pub fn addr(&mut self, st: &mut State, v: &Val) -> Lin {
        match v {
            Val::Int(l) => l.clone(),
            Val::Ptr(p) | Val::Fat(p, _) => match st.region(p.obj) {
                Some(r) if r.stride.is_none() && r.esize > 0 => Lin::s(r.addr).addm(&region_path(p).0, r.esize as i128),
                _ => {
                    let x = Lin::s(fresh());
                    st.num.ge(&x.addk(-1));
                    x
                }
            },
            _ => self.fresh_int(st, false, 64),
        }
    }

    fn op_ty(&self, o: &Operand) -> TyId {
        match o {
            Operand::Copy(p) | Operand::Move(p) => self.p.place_ty(self.body(), p),
            Operand::Const { ty, .. } => *ty,
            Operand::RuntimeCheck(_) => 0,
        }
    }
    pub fn operands(&mut self, st: State, os: &[Operand]) -> Flow<Vec<Val>> {
        let mut cur: Flow<Vec<Val>> = vec![(st, vec![])];
        for o in os {
            let mut next = vec![];
            for (s, vs) in cur {
                for (s, v) in self.operand(s, o) {
                    let mut w = vs.clone();
                    w.push(v);
                    next.push((s, w));
                }
            }
            cur = next;
        }
        cur
    }
    fn rvalue(&mut self, st: State, r: &Rvalue, dty: TyId) -> Flow<Val> {
        match r {
            Rvalue::Use(o) => self.operand(st, o),
            Rvalue::Ref(_, p) | Rvalue::AddrOf(_, p) => {
                let ty = self.p.place_ty(self.body(), p);
                let zst = self.p.ty(ty).size == Some(0);
                let align = self.p.ty(ty).align as i128;
                self.resolve_(st, p)
                    .into_iter()
                    .map(|(s, l)| {
                        let v = match l {
                            Loc::Mem(p) => Val::Ptr(p),
                            Loc::MemFat(p, n) => Val::Fat(p, n),
                            Loc::Zst => Val::int(align.max(1)),
                            _ if zst => Val::int(align.max(1)),
                            Loc::Local(..) | Loc::Bad => Val::Top,
                        };
                        (s, v)
                    })
                    .collect()
            }
            Rvalue::Aggregate(a, os) => {
                let vals = self.operands(st, os);
                let mut out = vec![];
                for (mut s, vs) in vals {
                    let v = self.aggregate(&mut s, a, vs, os, dty);
                    out.push((s, v));
                }
                out
            }
            Rvalue::Bin(op, a, b) => {
                let (ta, tb) = (self.op_ty(a), self.op_ty(b));
                let mut out = vec![];
                for (s, va) in self.operand(st, a) {
                    for (s, vb) in self.operand(s, b) {
                        out.extend(self.binop(s, op, &va, &vb, ta, tb, dty));
                    }
                }
                out
            }
            Rvalue::Checked(op, a, b) => {
                let ta = self.op_ty(a);
                let tb = self.op_ty(b);
                let mut out = vec![];
                for (s, va) in self.operand(st, a) {
                    for (mut s, vb) in self.operand(s, b) {
                        let v = self.checked(&mut s, op, &va, &vb, ta, tb);
                        out.push((s, v));
                    }
                }
                out
            }
            Rvalue::Un(op, o) => {
                let t = self.op_ty(o);
                let mut out = vec![];
                for (mut s, v) in self.operand(st, o) {
                    let x = match (op.as_str(), &v) {
                        ("PtrMetadata", Val::Fat(_, n)) => Val::Int(n.clone()),
                        ("PtrMetadata", _) if self.p.ty(dty).size == Some(0) => Val::Unit,
                        ("PtrMetadata", _) => self.fresh_val(&mut s, dty),
                        ("Not", Val::Bool(b)) => Val::Bool(b.not()),
                        ("Neg", Val::Int(l)) => Val::Int(l.neg()),
                        ("Neg", Val::Scaled(l, k)) => Val::Scaled(l.neg(), *k),
                        _ => self.fresh_val(&mut s, t),
                    };
                    out.push((s, x));
                }
                out
            }
            Rvalue::Cast(k, o, t) => {
                let f = self.op_ty(o);
                let mut out = vec![];
                for (s, v) in self.operand(st, o) {
                    out.extend(self.cast(s, k, v, f, *t));
                }
                out
            }
            Rvalue::Discr(p) => {
                let ty = self.p.place_ty(self.body(), p);
                let mut out = vec![];
                for (s, l) in self.resolve_(st, p) {
                    // reading the discriminant moves nothing
                    let keep = s.clone();
                    for (s2, v) in self.load(s, &l, ty, false) {
                        let mut s2 = s2;
                        if let Val::Enum(k, _) = &v {
                            // a fork on an unknown enum must be remembered at its place
                            let mut base = keep.clone();
                            base.num = s2.num.clone();
                            let cur = self.load(base.clone(), &l, ty, false);
                            s2 = base;
                            if cur.len() > 1 {
                                s2 = self.store(s2, &l, v.clone(), ty).pop().unwrap();
                            }
                            let d = match self.p.shape(ty) {
                                Shape::Enum(vs) => vs[*k as usize].0,
                                _ => *k as u128,
                            };
                            let (sg, bits) = self.p.int_info(dty).unwrap_or((false, 64));
                            let d = if bits < 128 { d & ((1u128 << bits) - 1) } else { d };
                            out.push((s2, Val::int(Self::signed(d, sg, bits))));
                        } else {
                            let x = if self.p.shape(ty) == Shape::Unit { Val::int(self.p.only_variant(ty) as i128) } else { self.fresh_val(&mut s2, dty) };
                            out.push((s2, x));
                        }
                    }
                }
                out
            }
            Rvalue::Len(p) => {
                let ty = self.p.place_ty(self.body(), p);
                self.resolve_(st, p)
                    .into_iter()
                    .map(|(s, l)| {
                        let v = match (l, self.p.shape(ty)) {
                            (Loc::MemFat(_, n), _) => Val::Int(n),
                            (_, Shape::Array(_, n)) => Val::int(n as i128),
                            (_, Shape::Trans(..)) => Val::int(1),
                            _ => Val::Top,
                        };
                        (s, v)
                    })
                    .collect()
            }
            Rvalue::Repeat(o, n) => {
                let t = self.op_ty(o);
                let mut out = vec![];
                for (mut s, v) in self.operand(st, o) {
                    let x = match self.p.shape(dty) {
                        Shape::Unit => Val::Unit,
                        Shape::Trans(..) => v,
                        _ if *n <= 8 => Val::agg(vec![v; *n as usize]),
                        _ => self.array_region(&mut s, t, *n, v),
                    };
                    out.push((s, x));
                }
                out
            }
            Rvalue::ThreadLocal(_) => vec![(st, Val::Top)],
        }
    }
    pub fn array_region(&mut self, s: &mut State, t: TyId, n: u64, v: Val) -> Val {
        let own = if v == Val::Uninit { Own::Uninit } else { Own::Live };
        let r = Region {
            kind: RKind::Local,
            len: Lin::c(n as i128),
            esize: self.p.size(t),
            elems: self.p.is_elem(t),
            stride: None,
            addr: fresh(),
            bytes: Lin::c(0),
            align: Lin::c(0),
            freed: false,
            segs: vec![Seg { hi: Lin::c(n as i128), own, val: if self.p.is_elem(t) { SVal::Elems } else { SVal::Any }, node: 0 }],
            base: None,
            rec: false,
        };
        Val::Arr(s.new_obj(Obj::Region(r)))
    }
    fn aggregate(&mut self, s: &mut State, a: &Agg, vs: Vec<Val>, os: &[Operand], dty: TyId) -> Val {
        let _ = os;
        match a {
            Agg::RawPtr(_) => match (&vs[0], self.p.shape(dty)) {
                (Val::Ptr(p), Shape::Fat(_)) => match &vs[1] {
                    Val::Int(n) => Val::Fat(p.clone(), n.clone()),
                    _ => Val::Top,
                },
                (Val::Fat(p, _), Shape::Fat(_)) => match &vs[1] {
                    Val::Int(n) => Val::Fat(p.clone(), n.clone()),
                    _ => Val::Top,
                },
                (Val::Int(_), Shape::Fat(t)) => {
                    // empty slice at a dangling address
                    let es = match &self.p.ty(t).kind {
                        TyKind::Slice(e) => *e,
                        _ => t,
                    };
                    let r = Region {
                        kind: RKind::Local,
                        len: Lin::c(0),
                        esize: self.p.size(es),
                        elems: self.p.is_elem(es),
                        stride: None,
                        addr: fresh(),
                        bytes: Lin::c(0),
                        align: Lin::c(0),
                        freed: false,
                        segs: vec![Seg { hi: Lin::c(0), own: Own::Uninit, val: SVal::Any, node: 0 }],
                        base: None,
            rec: false,
                    };
                    let o = s.new_obj(Obj::Region(r));
                    match &vs[1] {
                        Val::Int(n) => Val::Fat(Ptr { obj: o, path: vec![PE::I(Lin::c(0))] }, n.clone()),
                        _ => Val::Top,
                    }
                }
                (v, Shape::Thin(_)) => v.clone(),
                _ => Val::Top,
            },
            Agg::Adt { variant, union_field, .. } => match self.p.shape(dty) {
                Shape::Unit => Val::Unit,
                Shape::Elem(key) => Val::Elem(Tok { own: Own::Live, node: 0, key }),
                Shape::Enum(_) => Val::Enum(*variant as u32, Rc::new(vs)),
                Shape::Trans(k, _) => match union_field {
                    Some(u) if *u == k => vs[0].clone(),
                    Some(_) => Val::Uninit,
                    None => vs[k].clone(),
                },
                _ => Val::agg(vs),
            },
            Agg::Array(t) => match self.p.shape(dty) {
                Shape::Unit => Val::Unit,
                Shape::Trans(..) => vs[0].clone(),
                _ if vs.len() <= 16 => Val::agg(vs),
                _ => self.array_region(s, *t, vs.len() as u64, Val::Top),
            },
            Agg::Tuple | Agg::Closure(_) => match self.p.shape(dty) {
                Shape::Unit => Val::Unit,
                Shape::Trans(k, _) => vs[k].clone(),
                _ => Val::agg(vs),
            },
        }
    }
    fn cast(&mut self, st: State, k: &str, v: Val, from: TyId, to: TyId) -> Flow<Val> {
        let mut st = st;
        match k {
            "IntToInt" => {
                let (sg, bits) = self.p.int_info(to).unwrap_or((false, 64));
                match v {
                    Val::Bool(b) => st.split(&b).into_iter().map(|(s, x)| (s, Val::int(x as i128))).collect(),
                    Val::Enum(i, _) => {
                        let d = match self.p.shape(from) {
                            Shape::Enum(vs) => vs[i as usize].0,
                            _ => i as u128,
                        };
                        let fb = (self.p.size(from) as u32 * 8).min(64);
                        let d = d & ((1u128 << bits.min(64).max(fb.min(bits))) - 1);
                        vec![(st, Val::int(Self::signed(d, sg, bits)))]
                    }
                    Val::Int(l) => {
                        if !sg && bits < 64 && self.p.int_info(from) == Some((false, 64)) && self.p.p.funcs[*self.cur.last().unwrap()].krate == "ndarray_slice" {
                            self.ob("C17");
                            if !self.fits(&st, &l, sg, bits) {
                                self.bad("C17", "a number may not fit the type it is converted to");
                            }
                        }
                        if l.single().is_some_and(crate::models::is_stride) || self.fits(&st, &l, sg, bits) {
                            vec![(st, Val::Int(l))]
                        } else {
                            let x = self.fresh_int(&mut st, sg, bits);
                            vec![(st, Val::Int(x))]
                        }
                    }
                    Val::Scaled(..) => vec![(st, v)],
                    _ => {
                        let x = self.fresh_val(&mut st, to);
                        vec![(st, x)]
                    }
                }
            }
            "PtrToPtr" | "Transmute" => {
                // an option of a number that is never zero
                if let (Val::Int(l), Shape::Enum(vs)) = (&v, self.p.shape(to))
                    && vs.len() == 2
                    && vs[0].1.is_empty()
                    && vs[1].1.len() == 1
                    && self.p.ty(vs[1].1[0]).name.contains("NonZero")
                    && let Shape::Int { .. } = self.p.shape(self.p.core(vs[1].1[0]))
                {
                    let l = l.clone();
                    let zero = B::Eq(l.clone());
                    let mut out: Flow<Val> = vec![];
                    for s in st.clone().assume(&zero) {
                        out.push((s, Val::Enum(0, Rc::new(vec![]))));
                    }
                    for s in st.assume(&zero.not()) {
                        out.push((s, Val::Enum(1, Rc::new(vec![Val::Int(l.clone())]))));
                    }
                    return out;
                }
                let v = match (&v, self.p.shape(self.p.core(to))) {
                    (Val::Fat(p, _), Shape::Thin(_)) => Val::Ptr(p.clone()),
                    (Val::Ptr(_), Shape::Int { .. }) => Val::Int(self.addr(&mut st, &v)),
                    (Val::Int(l), Shape::Int { signed, bits }) if k == "Transmute" && !self.fits(&st, l, signed, bits) => Val::Int(self.fresh_int(&mut st, signed, bits)),
                    (Val::Int(_), Shape::Enum(_)) => Val::Top,
                    (Val::Ptr(p), Shape::Thin(t)) => {
                        let t = t;
                        self.type_heap_if(&mut st, p, t);
                        v
                    }
                    _ => v,
                };
                self.finish_load(st, v, to)
            }
            "PointerExposeAddress" => {
                let a = self.addr(&mut st, &v);
                vec![(st, Val::Int(a))]
            }
            k if k.contains("Unsize") => {
                let arr = match &self.p.ty(from).kind {
                    TyKind::Ptr { pointee, .. } => *pointee,
                    _ => from,
                };
                let TyKind::Array(_, n) = self.p.ty(arr).kind else {
                    return vec![(st, Val::Top)];
                };
                match v {
                    Val::Ptr(p) => {
                        if let Some(Obj::Cell(c)) = st.objs.get(&p.obj).map(|o| o.as_ref())
                            && let Some(path) = self.cell_path(&st.clone(), &p)
                            && let Val::Arr(o) = get_path(c, &path)
                        {
                            return vec![(st, Val::Fat(Ptr { obj: o, path: vec![PE::I(Lin::c(0))] }, Lin::c(n as i128)))];
                        }
                        vec![(st, Val::Fat(p, Lin::c(n as i128)))]
                    }
                    _ => vec![(st, Val::Top)],
                }
            }
            _ => vec![(st, v)],
        }
    }
    fn type_heap_if(&mut self, st: &mut State, p: &Ptr, t: TyId) {
        let core = self.p.core(t);
        if self.p.size(core) > 1 && !self.p.unsized_(t) {
            self.type_heap(st, p, core);
        }
    }
    fn checked(&mut self, s: &mut State, op: &str, a: &Val, b: &Val, ta: TyId, tb: TyId) -> Val {
        let (sg, bits) = self.p.int_info(ta).unwrap_or((false, 64));
        if let (Val::Scaled(l, k), "Mul", Val::Int(x)) | (Val::Int(x), "Mul", Val::Scaled(l, k)) = (a, op, b)
            && let Some(c) = s.num.konst(x)
        {
            return Val::agg(vec![Val::Scaled(l.mul(c), *k), Val::bool(false)]);
        }
        if let Some(v) = self.scaled(s, op, a, b) {
            return Val::agg(vec![v, Val::bool(false)]);
        }
        let (la, lb) = (self.as_int(s, a, ta), self.as_int(s, b, tb));
        let r = match op {
            "Add" => Some(la.add(&lb)),
            "Sub" => Some(la.sub(&lb)),
            "Mul" => match (la.konst(), lb.konst()) {
                (Some(k), _) => Some(lb.mul(k)),
                (_, Some(k)) => Some(la.mul(k)),
                _ => None,
            },
            _ => None,
        };
        let Some(r) = r else {
            if op == "Mul" {
                // product of unknowns: bounded below only
                let x = self.fresh_int(s, sg, bits);
                return Val::agg(vec![Val::Int(x), Val::Bool(B::unk())]);
            }
            let x = self.fresh_int(s, sg, bits);
            return Val::agg(vec![Val::Int(x), Val::Bool(B::unk())]);
        };
        let over = if !sg && op == "Sub" {
            B::Ge(r.neg().addk(-1))
        } else if self.fits(s, &r, sg, bits) {
            B::Const(false)
        } else if !sg {
            let m = (1i128 << bits) - 1;
            if bits < 64 { B::Ge(r.addk(-m - 1)) } else { B::unk() }
        } else {
            B::unk()
        };
        Val::agg(vec![Val::Int(r), Val::Bool(s.norm_bool(&over))])
    }
    /// Products with a stride and sums of such products.
    fn scaled(&mut self, s: &mut State, op: &str, a: &Val, b: &Val) -> Option<Val> {
        let isstride = |s: &State, l: &Lin| -> Option<Sym> {
            let x = l.single()?;
            let _ = s;
            crate::models::is_stride(x).then_some(x)
        };
        match (op.trim_end_matches("Unchecked"), a, b) {
            ("Mul", Val::Int(l), Val::Int(r)) => {
                if let Some(k) = isstride(s, r)
                    && l.konst() != Some(1)
                {
                    return Some(Val::Scaled(l.clone(), k));
                }
                if let Some(k) = isstride(s, l) {
                    return Some(Val::Scaled(r.clone(), k));
                }
                if let Some(k) = isstride(s, r) {
                    return Some(Val::Scaled(l.clone(), k));
                }
                None
            }
            ("Add", Val::Scaled(l, k), Val::Scaled(r, j)) if k == j => Some(Val::Scaled(l.add(r), *k)),
            ("Sub", Val::Scaled(l, k), Val::Scaled(r, j)) if k == j => Some(Val::Scaled(l.sub(r), *k)),
            ("Add", Val::Scaled(l, k), Val::Int(x)) | ("Add", Val::Int(x), Val::Scaled(l, k)) if s.num.konst(x) == Some(0) => Some(Val::Scaled(l.clone(), *k)),
            _ => None,
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn binop(&mut self, st: State, op: &str, a: &Val, b: &Val, ta: TyId, tb: TyId, dty: TyId) -> Flow<Val> {
        let mut st = st;
        if op == "Offset" {
            let pointee = match &self.p.ty(self.p.core(ta)).kind {
                TyKind::Ptr { pointee, .. } => *pointee,
                _ => ta,
            };
            let v = self.offset(&mut st, a, b, pointee);
            return vec![(st, v)];
        }
        // pointers
        if let (Val::Ptr(_) | Val::Fat(..), _) | (_, Val::Ptr(_) | Val::Fat(..)) = (a, b) {
            let v = self.ptr_cmp(&mut st, op, a, b);
            return vec![(st, Val::Bool(v))];
        }
        if let (Val::Bool(x), Val::Bool(y)) = (a, b) {
            let (x, y) = (st.norm_bool(x), st.norm_bool(y));
            let r = match (op, &x, &y) {
                ("BitAnd", B::Const(false), _) | ("BitAnd", _, B::Const(false)) => B::Const(false),
                ("BitAnd", B::Const(true), z) | ("BitAnd", z, B::Const(true)) => z.clone(),
                ("BitOr", B::Const(true), _) | ("BitOr", _, B::Const(true)) => B::Const(true),
                ("BitOr", B::Const(false), z) | ("BitOr", z, B::Const(false)) => z.clone(),
                ("Eq", B::Const(true), z) | ("Eq", z, B::Const(true)) | ("Ne" | "BitXor", B::Const(false), z) | ("Ne" | "BitXor", z, B::Const(false)) => z.clone(),
                ("Eq", B::Const(false), z) | ("Eq", z, B::Const(false)) | ("Ne" | "BitXor", B::Const(true), z) | ("Ne" | "BitXor", z, B::Const(true)) => z.not(),
                ("Eq" | "Ne" | "BitXor" | "BitAnd" | "BitOr", _, _) => {
                    let mut out = vec![];
                    for (s, p) in st.split(&x) {
                        for (s, q) in s.split(&y) {
                            let r = match op {
                                "Eq" => p == q,
                                "Ne" | "BitXor" => p != q,
                                "BitAnd" => p && q,
                                _ => p || q,
                            };
                            out.push((s, Val::bool(r)));
                        }
                    }
                    return out;
                }
                _ => B::unk(),
            };
            return vec![(st, Val::Bool(r))];
        }
        if let (Val::Enum(..) | Val::Unit, _) | (_, Val::Enum(..) | Val::Unit) = (a, b) {
            let v = self.fresh_val(&mut st, dty);
            return vec![(st, v)];
        }
        if let (Val::Scaled(..), _) | (_, Val::Scaled(..)) = (a, b) {
            if let Some(v) = self.scaled(&mut st, op, a, b) {
                return vec![(st, v)];
            }
            let v = self.fresh_val(&mut st, dty);
            return vec![(st, v)];
        }
        let (sg, bits) = self.p.int_info(ta).unwrap_or((false, 64));
        let (x, y) = (self.as_int(&mut st, a, ta), self.as_int(&mut st, b, tb));
        let cmp = match op {
            "Lt" => Some(B::Ge(y.sub(&x).addk(-1))),
            "Le" => Some(B::Ge(y.sub(&x))),
            "Gt" => Some(B::Ge(x.sub(&y).addk(-1))),
            "Ge" => Some(B::Ge(x.sub(&y))),
            "Eq" => Some(B::Eq(x.sub(&y))),
            "Ne" => Some(B::Ne(x.sub(&y))),
            _ => None,
        };
        if let Some(c) = cmp {
            let c = st.norm_bool(&c);
            return vec![(st, Val::Bool(c))];
        }
        if op == "Cmp" {
            let mut out = vec![];
            for (i, c) in [B::Ge(y.sub(&x).addk(-1)), B::Eq(x.sub(&y)), B::Ge(x.sub(&y).addk(-1))].iter().enumerate() {
                for s in st.clone().assume(c) {
                    out.push((s, Val::Enum(i as u32, Rc::new(vec![]))));
                }
            }
            return out;
        }
        if let Some(v) = self.scaled(&mut st, op, a, b) {
            return vec![(st, v)];
        }
        let base = op.trim_end_matches("Unchecked");
        let r = match base {
            "Add" => Some(x.add(&y)),
            "Sub" => Some(x.sub(&y)),
            "Mul" => x.konst().map(|k| y.mul(k)).or(y.konst().map(|k| x.mul(k))),
            "Shl" => y.konst().filter(|k| *k >= 0 && *k < bits as i128).map(|k| x.mul(1i128 << k)),
            _ => None,
        };
        if let Some(r) = r
            && (op.ends_with("Unchecked") || self.fits(&st, &r, sg, bits))
        {
            return vec![(st, Val::Int(r))];
        }
        let v = match base {
            "Div" | "Shr" | "Rem" | "BitAnd" => {
                let d = match base {
                    "Shr" => y.konst().filter(|k| (0..100).contains(k)).map(|k| 1i128 << k),
                    "BitAnd" => None,
                    _ => y.konst().filter(|k| *k > 0),
                };
                if let Some(d) = d
                    && st.num.must_ge(&x)
                {
                    if let Some(k) = x.konst() {
                        let v = if base == "Rem" { k % d } else { k / d };
                        return vec![(st, Val::int(v))];
                    }
                    let q = Lin::s(fresh());
                    st.num.ge(&q);
                    st.num.ge(&x.sub(&q.mul(d)));
                    st.num.ge(&q.mul(d).addk(d - 1).sub(&x));
                    if base == "Rem" { x.sub(&q.mul(d)) } else { q }
                } else if base == "BitAnd" && st.num.must_ge(&x) && st.num.must_ge(&y) {
                    if let (Some(a), Some(b)) = (x.konst(), y.konst()) {
                        return vec![(st, Val::int(a & b))];
                    }
                    // x & (2^k - 1) == x mod 2^k
                    let m = y.konst().filter(|m| (*m + 1) & *m == 0).map(|m| (m + 1, x.clone())).or(x.konst().filter(|m| (*m + 1) & *m == 0).map(|m| (m + 1, y.clone())));
                    if let Some((m, z)) = m
                        && m < 1 << 62
                    {
                        let q = Lin::s(fresh());
                        st.num.ge(&q);
                        let r = z.sub(&q.mul(m));
                        st.num.ge(&r);
                        st.num.ge(&r.neg().addk(m - 1));
                        r
                    } else {
                        let q = Lin::s(fresh());
                        st.num.ge(&q);
                        st.num.ge(&x.sub(&q));
                        st.num.ge(&y.sub(&q));
                        q
                    }
                } else if !sg && base != "BitAnd" {
                    let q = Lin::s(fresh());
                    st.num.ge(&q);
                    st.num.ge(&x.sub(&q));
                    if base == "Rem" && st.num.must_ge(&y.addk(-1)) {
                        st.num.ge(&y.sub(&q).addk(-1));
                    }
                    q
                } else {
                    self.fresh_int(&mut st, sg, bits)
                }
            }
            "BitOr" | "BitXor" => {
                if let (Some(a), Some(b)) = (x.konst(), y.konst()) {
                    Lin::c(if base == "BitOr" { a | b } else { a ^ b })
                } else {
                    self.fresh_int(&mut st, sg, bits)
                }
            }
            "Sub" if !sg => {
                // wrapping: exact where it does not wrap
                let d = x.sub(&y);
                let mut out = vec![];
                for s in st.clone().assume(&B::Ge(d.clone())) {
                    out.push((s, Val::Int(d.clone())));
                }
                for mut s in st.assume(&B::Ge(d.neg().addk(-1))) {
                    let f = self.fresh_int(&mut s, sg, bits);
                    out.push((s, Val::Int(f)));
                }
                return out;
            }
            _ => self.fresh_int(&mut st, sg, bits),
        };
        vec![(st, Val::Int(v))]
    }
    pub fn offset(&mut self, st: &mut State, p: &Val, by: &Val, pointee: TyId) -> Val {
        if self.p.size(pointee) == 0 {
            return p.clone();
        }
        match (p, by) {
            (Val::Ptr(q), Val::Scaled(l, k)) => {
                let mut q = q.clone();
                self.type_heap(st, &q, pointee);
                self.ob("C06");
                if let Some(r) = st.region(q.obj)
                    && r.stride != Some(*k)
                {
                    let same = match r.stride {
                        Some(j) => st.num.must_eq(&Lin::s(j).sub(&Lin::s(*k))),
                        None => st.num.must_eq(&Lin::s(*k).addk(-1)),
                    };
                    if !same {
                        self.bad("C06", "a pointer is stepped by the stride of another view");
                    }
                }
                self.ptr_add(st, &mut q, l);
                Val::Ptr(q)
            }
            (Val::Ptr(q), Val::Int(l)) => {
                let mut q = q.clone();
                self.type_heap(st, &q, pointee);
                let l = st.num.norm(l);
                if l.konst() == Some(0) {
                    return p.clone();
                }
                if let Some(r) = st.region(q.obj)
                    && let Some(k) = r.stride
                {
                    self.ob("C06");
                    if l.single() == Some(k) {
                        self.ptr_add(st, &mut q, &Lin::c(1));
                        return Val::Ptr(q);
                    }
                    if l == Lin::s(k).neg() {
                        self.ptr_add(st, &mut q, &Lin::c(-1));
                        return Val::Ptr(q);
                    }
                    // a dependency makes the end of a slice of at most one element
                    let foreign = self.cur.last().is_some_and(|f| self.p.p.funcs[*f].krate != "ndarray_slice");
                    let tiny = foreign && st.num.must_ge(&l) && st.num.must_ge(&l.neg().addk(1));
                    if !tiny && !st.num.must_eq(&Lin::s(k).addk(-1)) {
                        if self.dbg {
                            eprintln!("step {:?} stride {:?} foreign {foreign} {}", l, st.num.norm(&Lin::s(k)), self.show(st));
                        }
                        self.bad("C06", "a pointer into the view is stepped by elements instead of the stride");
                    }
                }
                self.ptr_add(st, &mut q, &l);
                Val::Ptr(q)
            }
            (Val::Int(_), Val::Int(l)) if st.num.konst(l) == Some(0) => p.clone(),
            (Val::Int(_), Val::Scaled(l, _)) if st.num.konst(l) == Some(0) => p.clone(),
            (Val::Int(_), _) => p.clone(),
            (Val::Unit, _) => Val::Unit,
            _ => {
                self.unknown("offset of an unknown pointer");
                Val::Top
            }
        }
    }
    fn ptr_cmp(&mut self, st: &mut State, op: &str, a: &Val, b: &Val) -> B {
        if let (Val::Ptr(p) | Val::Fat(p, _), Val::Ptr(q) | Val::Fat(q, _)) = (a, b) {
            if p.obj == q.obj {
                let d = region_path(p).0.sub(&region_path(q).0);
                let strided = st.region(p.obj).is_some_and(|r| r.stride.is_some());
                let c = match op {
                    "Eq" => B::Eq(d),
                    "Ne" => B::Ne(d),
                    "Lt" => B::Ge(d.neg().addk(-1)),
                    "Le" => B::Ge(d.neg()),
                    "Gt" => B::Ge(d.addk(-1)),
                    "Ge" => B::Ge(d),
                    _ => B::unk(),
                };
                if strided && !matches!(op, "Eq" | "Ne") {
                    self.bad("C06", "pointers into a strided view are compared by address");
                    return B::unk();
                }
                return st.norm_bool(&c);
            }
            return match op {
                "Eq" => B::Const(false),
                "Ne" => B::Const(true),
                _ => B::unk(),
            };
        }
        // against an integer address: only null is of interest
        match op {
            "Eq" => match (a, b) {
                (_, Val::Int(l)) | (Val::Int(l), _) if l.konst() == Some(0) => B::Const(false),
                _ => B::unk(),
            },
            "Ne" => match (a, b) {
                (_, Val::Int(l)) | (Val::Int(l), _) if l.konst() == Some(0) => B::Const(true),
                _ => B::unk(),
            },
            _ => B::unk(),
        }
    }

    // ---- statements
    fn stmt(&mut self, st: State, s: &Stmt) -> Vec<State> {
        match s {
            Stmt::Assign(p, r) => {
                let dty = self.p.place_ty(self.body(), p);
                let mut out = vec![];
                for (s, v) in self.rvalue(st, r, dty) {
                    for (s, l) in self.resolve_(s, p) {
                        out.extend(self.store(s, &l, v.clone(), dty));
                    }
                }
                out
            }
            Stmt::SetDiscr(p, k) => {
                let dty = self.p.place_ty(self.body(), p);
                let mut out = vec![];
                for (s, l) in self.resolve_(st, p) {
                    for (s, v) in self.load(s, &l, dty, false) {
                        let f = match v {
                            Val::Agg(f) | Val::Enum(_, f) => f,
                            _ => Rc::new(vec![]),
                        };
                        out.extend(self.store(s, &l, Val::Enum(*k as u32, f), dty));
                    }
                }
                out
            }
            Stmt::StorageLive(l) | Stmt::StorageDead(l) => {
                let mut st = st;
                self.kill(&mut st, *l);
                vec![st]
            }
            Stmt::Assume(o) => {
                let mut out = vec![];
                for (s, v) in self.operand(st, o) {
                    match v {
                        Val::Bool(b) => {
                            // an assumption of the code, not of the analysis
                            for (s, t) in s.split(&b) {
                                if t {
                                    out.push(s);
                                } else {
                                    self.bad("C01", "an assumption handed to the compiler may be false");
                                }
                            }
                        }
                        _ => out.push(s),
                    }
                }
                out
            }
            Stmt::CopyNonOverlapping(a, b, n) => {
                let ty = match &self.p.ty(self.op_ty(a)).kind {
                    TyKind::Ptr { pointee, .. } => *pointee,
                    _ => 0,
                };
                let mut out = vec![];
                for (s, va) in self.operand(st, a) {
                    for (s, vb) in self.operand(s, b) {
                        for (s, vn) in self.operand(s, n) {
                            let Val::Int(n) = vn else {
                                self.unknown("copy of an unknown number of elements");
                                continue;
                            };
                            out.extend(self.copy(s, &va, &vb, &n, ty, false));
                        }
                    }
                }
                out
            }
            Stmt::Nop => vec![st],
        }
    }
    fn kill(&mut self, st: &mut State, l: usize) {
        let old = std::mem::replace(&mut st.frame().locals[l], Slot::V(Val::Uninit));
        if let Slot::Boxed(o) = old {
            st.objs.remove(&o);
        }
    }

    fn out_of_time(&self) -> bool {
        let now = std::time::Instant::now();
        if now > self.deadline || self.first.is_some_and(|t| now > t + std::time::Duration::from_secs(60)) {
            return true;
        }
        // 3.5 GB
        self.stats.blocks & 4095 == 0
            && std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).is_some_and(|p| p > 3_500_000_000 / 4096)
    }
    // ---- control flow
    fn block(&mut self, bi: usize, st: State, succ: &mut Vec<(usize, State)>, outs: &mut Vec<Out>) {
        let body = self.body();
        let blk = &body.blocks[bi];
        self.stats.blocks += 1;
        if self.timed_out || (self.stats.blocks & 63 == 0 && self.out_of_time()) {
            if !self.timed_out {
                self.timed_out = true;
                self.unknown("analysis ran out of time");
            }
            return;
        }
        let mut cur = vec![st];
        for (s, line) in &blk.stmts {
            *self.lines.last_mut().unwrap() = *line;
            let mut next = vec![];
            for st in cur {
                next.extend(self.stmt(st, s));
            }
            cur = next;
        }
        *self.lines.last_mut().unwrap() = blk.line;
        for st in cur {
            if self.trace {
                eprintln!("{}{} bb{bi} line {}", "  ".repeat(self.cur.len()), self.p.names[*self.cur.last().unwrap()], blk.line);
            }
            self.term(&blk.term, st, succ, outs);
        }
    }
    fn unwind(&mut self, u: &Unwind, st: State, exit: Exit, succ: &mut Vec<(usize, State)>, outs: &mut Vec<Out>) {
        match u {
            Unwind::Cleanup(b) => {
                let mut st = st;
                st.unw.push(exit);
                succ.push((*b, st));
            }
            Unwind::Continue => outs.push(Out { exit, val: Val::Unit, st }),
            Unwind::Unreachable => {}
            Unwind::Terminate => self.bad("C04", "a panic while another panic is being handled aborts the program"),
        }
    }
    pub fn panic_site(&mut self, msg: &str) -> Exit {
        let (f, file, line) = self.site();
        let k = (format!("{f}: {msg}"), file, line);
        let i = match self.sites.iter().position(|x| *x == k) {
            Some(i) => i,
            None => {
                self.sites.push(k);
                self.sites.len() - 1
            }
        };
        if self.dbg {
            let ch: Vec<String> = self.cur.iter().zip(&self.lines).map(|(f, l)| format!("{}:{l}", self.p.names[*f].rsplit("::").next().unwrap())).collect();
            eprintln!("PANIC {msg} @ {}", ch.join(" > "));
        }
        Exit::Panic(i as u32)
    }
    fn term(&mut self, t: &Term, st: State, succ: &mut Vec<(usize, State)>, outs: &mut Vec<Out>) {
        match t {
            Term::Goto(b) => succ.push((*b, st)),
            Term::Switch { discr, ty, branches, otherwise } => {
                for (s, v) in self.operand(st, discr) {
                    match v {
                        Val::Bool(b) => {
                            for (s, x) in s.split(&b) {
                                let t = branches.iter().find(|(v, _)| (*v != 0) == x).map(|x| x.1).unwrap_or(*otherwise);
                                succ.push((t, s));
                            }
                        }
                        Val::Int(l) => {
                            let (sg, bits) = self.p.int_info(*ty).unwrap_or((false, 64));
                            let mut rest = vec![s];
                            for (v, t) in branches {
                                let k = Self::signed(*v, sg, bits);
                                let c = B::Eq(l.addk(-k));
                                let mut next = vec![];
                                for s in rest {
                                    for (s, x) in s.split(&c) {
                                        if x {
                                            succ.push((*t, s));
                                        } else {
                                            next.push(s);
                                        }
                                    }
                                }
                                rest = next;
                            }
                            for s in rest {
                                succ.push((*otherwise, s));
                            }
                        }
                        _ => {
                            for (_, t) in branches {
                                succ.push((*t, s.clone()));
                            }
                            succ.push((*otherwise, s));
                        }
                    }
                }
            }
            Term::Resume => {
                let mut st = st;
                let exit = st.unw.pop().unwrap_or(Exit::Cb);
                outs.push(Out { exit, val: Val::Unit, st });
            }
            Term::Abort => self.bad("C04", "the program is aborted"),
            Term::Return => {
                let mut st = st;
                self.ensure(&mut st, 0);
                let body = self.body();
                let ty = body.locals[0];
                let loc = match &st.frames.last().unwrap().locals[0] {
                    Slot::V(_) => Loc::Local(0, vec![]),
                    Slot::Boxed(o) => Loc::Mem(Ptr { obj: *o, path: vec![] }),
                };
                for (s, v) in self.load(st, &loc, ty, true) {
                    let v = if self.p.ty(ty).size == Some(0) { Val::Unit } else { v };
                    outs.push(Out { exit: Exit::Ret, val: v, st: s });
                }
            }
            Term::Unreachable => {
                let mut st = st;
                if st.num.bot || !self.feasible(&mut st) {
                    return;
                }
                self.bad("C01", "code marked unreachable may be reached");
            }
            Term::Drop { place, glue, target, unwind } => {
                let Some(g) = glue else {
                    succ.push((*target, st));
                    return;
                };
                let ty = self.p.place_ty(self.body(), place);
                for (s, l) in self.resolve_(st, place) {
                    let v = match l {
                        Loc::Mem(p) => Val::Ptr(p),
                        Loc::MemFat(p, n) => Val::Fat(p, n),
                        Loc::Zst => Val::int(1),
                        _ => Val::Top,
                    };
                    let _ = ty;
                    for o in self.call(s, *g, vec![v]) {
                        match o.exit {
                            Exit::Ret => succ.push((*target, o.st)),
                            e => self.unwind(unwind, o.st, e, succ, outs),
                        }
                    }
                }
            }
            Term::Call { callee, rust_call, args, dest, target, unwind } => {
                let Callee::Direct(f) = callee else {
                    self.unknown("indirect call");
                    return;
                };
                let dty = self.p.place_ty(self.body(), dest);
                for (s, mut vs) in self.operands(st, args) {
                    if *rust_call && vs.len() == 2 {
                        let tt = self.op_ty(&args[1]);
                        let tup = vs.pop().unwrap();
                        if let TyKind::Tuple(f) = &self.p.ty(tt).kind {
                            let n = f.len();
                            match self.p.shape(tt) {
                                Shape::Unit => vs.extend(std::iter::repeat_n(Val::Unit, n)),
                                Shape::Trans(k, _) => (0..n).for_each(|i| vs.push(if i == k { tup.clone() } else { Val::Unit })),
                                _ => (0..n).for_each(|i| vs.push(get_path(&tup, &[i]))),
                            }
                        }
                    }
                    self.ret_ty = dty;
                    for o in self.call(s, *f, vs) {
                        match o.exit {
                            Exit::Ret => {
                                let Some(t) = target else { continue };
                                for (s, l) in self.resolve_(o.st, dest) {
                                    for s in self.store(s, &l, o.val.clone(), dty) {
                                        succ.push((*t, s));
                                    }
                                }
                            }
                            e => self.unwind(unwind, o.st, e, succ, outs),
                        }
                    }
                }
            }
            Term::Assert { cond, expected, msg, target, unwind } => {
                for (s, v) in self.operand(st, cond) {
                    let Val::Bool(b) = v else {
                        succ.push((*target, s));
                        continue;
                    };
                    self.ob("C04");
                    for (s, x) in s.split(&b) {
                        if x == *expected {
                            succ.push((*target, s));
                        } else {
                            if self.dbg {
                                eprintln!("assert {msg}: {:?} {:?}", b, s.num);
                            }
                            let e = self.panic_site(msg);
                            self.unwind(unwind, s, e, succ, outs);
                        }
                    }
                }
            }
            Term::Asm => self.unknown("inline assembly"),
        }
    }
    pub fn feasible(&self, st: &mut State) -> bool {
        let syms: Vec<Lin> = st.num.ge.iter().cloned().collect();
        for l in syms {
            if !st.num.feasible_at(&l) {
                return false;
            }
        }
        true
    }
    fn trim(&mut self, st: &mut State, b2: &Body2, bi: usize) {
        let live = &b2.live_in[bi];
        let f = st.frames.last().unwrap();
        let dead: Vec<usize> = (0..f.locals.len()).filter(|&l| !live[l] && matches!(&f.locals[l], Slot::V(v) if *v != Val::Uninit)).collect();
        if !dead.is_empty() {
            let f = st.frame();
            for l in dead {
                f.locals[l] = Slot::V(Val::Uninit);
            }
        }
    }
    fn exec_wto(&mut self, w: &Wto, b2: &Rc<Body2>, inflow: &mut In, outs: &mut Vec<Out>) {
        match w {
            Wto::V(b) => {
                let Some(mut states) = inflow.remove(b) else { return };
                if b2.preds[*b] > 1 || states.len() > CAP {
                    for s in states.iter_mut() {
                        self.trim(s, b2, *b);
                    }
                    if states.len() > CAP || (states.len() > 1 && !states[0].unw.is_empty()) {
                        states = self.merge_states(states, false);
                    } else if states.len() > 1 {
                        states = self.dedup_states(states);
                    }
                }
                let mut succ = vec![];
                for s in states {
                    self.block(*b, s, &mut succ, outs);
                }
                for (t, s) in succ {
                    inflow.entry(t).or_default().push(s);
                }
            }
            Wto::C(h, inner) => {
                let Some(mut states) = inflow.remove(h) else { return };
                for s in states.iter_mut() {
                    self.trim(s, b2, *h);
                }
                let mut inv = self.merge_states(states, true);
                let fid = *self.cur.last().unwrap();
                self.stats.loops.insert((fid, *h));
                let mut iter = 0;
                // contracts hold by induction from the second round on more often than from the first
                if inv.iter().any(|s| !s.ghost.is_empty()) {
                    let mut in2 = In::new();
                    let mut succ = vec![];
                    for s in inv {
                        self.block(*h, s, &mut succ, outs);
                    }
                    for (t, s) in succ {
                        in2.entry(t).or_default().push(s);
                    }
                    for x in inner {
                        self.exec_wto(x, b2, &mut in2, outs);
                    }
                    let mut back = in2.remove(h).unwrap_or_default();
                    for (t, v) in in2 {
                        inflow.entry(t).or_default().extend(v);
                    }
                    if back.is_empty() {
                        return;
                    }
                    for s in back.iter_mut() {
                        self.trim(s, b2, *h);
                    }
                    inv = self.merge_states(back, true);
                }
                loop {
                    let mark = self.ev.len();
                    let mut outs2 = vec![];
                    let mut in2 = In::new();
                    let mut succ = vec![];
                    if self.dbg && std::env::var("LOOPS").is_ok() {
                        eprintln!("LOOP {} bb{h} iter {iter}: {} shapes", self.p.names[fid], inv.len());
                        for s in &inv {
                            eprintln!("   {}", self.show(s));
                        }
                    }
                    for s in inv.clone() {
                        self.block(*h, s, &mut succ, &mut outs2);
                    }
                    for (t, s) in succ {
                        in2.entry(t).or_default().push(s);
                    }
                    for x in inner {
                        self.exec_wto(x, b2, &mut in2, &mut outs2);
                    }
                    let mut back = in2.remove(h).unwrap_or_default();
                    for s in back.iter_mut() {
                        self.trim(s, b2, *h);
                    }
                    if self.dbg && std::env::var("LOOPS").is_ok() {
                        for s in &back {
                            eprintln!("   BACK {}", self.show(s));
                        }
                    }
                    let changed = self.absorb(&mut inv, back.clone(), iter);
                    iter += 1;
                    if !changed || self.timed_out || iter > 40 {
                        if iter > 40 {
                            self.unknown("loop analysis did not stabilise");
                        }
                        for (t, v) in in2 {
                            inflow.entry(t).or_default().extend(v);
                        }
                        outs.extend(outs2);
                        if self.opts.termination {
                            self.ranking(fid, *h, &inv, &back);
                        }
                        return;
                    }
                    self.ev.truncate(mark);
                }
            }
        }
    }
    pub fn exec(&mut self, st: State) -> Vec<Out> {
        let fid = *self.cur.last().unwrap();
        let b2 = self.p.body2(fid);
        let mut inflow = In::new();
        inflow.insert(0, vec![st]);
        let mut outs = vec![];
        let wto = &b2.wto;
        for w in wto {
            self.exec_wto(w, &b2, &mut inflow, &mut outs);
        }
        outs
    }
    /// Executes a body in place.
    pub fn inline(&mut self, st: State, fid: FnId, args: Vec<Val>) -> Vec<Out> {
        let body = self.p.p.funcs[fid].body.as_ref().unwrap();
        let b2 = self.p.body2(fid);
        self.stats.inlined += 1;
        self.stats.funcs.insert(fid);
        if self.cur.len() - self.sums.base > 80 {
            self.unknown("call chain too deep");
            return vec![];
        }
        let t0 = std::time::Instant::now();
        let mut st = st;
        let mut locals: Vec<Slot> = vec![Slot::V(Val::Uninit); body.locals.len()];
        let mut args = args;
        if let Some(sp) = body.spread {
            let rest = args.split_off(sp - 1);
            let t = body.locals[sp];
            let v = match self.p.shape(t) {
                Shape::Unit => Val::Unit,
                Shape::Trans(k, _) => rest[k].clone(),
                _ => Val::agg(rest),
            };
            args.push(v);
        }
        for (i, a) in args.into_iter().enumerate() {
            if i + 1 < locals.len() {
                locals[i + 1] = Slot::V(a);
            }
        }
        st.frames.push(Rc::new(Frame { fid, locals }));
        let depth = st.frames.len();
        self.cur.push(fid);
        self.lines.push(0);
        for l in 1..=body.arg_count {
            if b2.boxed[l] {
                self.ensure(&mut st, l);
            }
        }
        let f = &self.p.p.funcs[fid];
        let guard = self.opts.strict && f.krate == "ndarray_slice" && !f.path.contains("{closure") && !f.path.contains("drop") && Self::whole(&st);
        let mut outs = self.exec(st);
        if guard {
            self.heal(&mut outs);
        }
        for o in outs.iter_mut() {
            debug_assert_eq!(o.st.frames.len(), depth);
            let f = o.st.frames.pop().unwrap();
            for s in &f.locals {
                if let Slot::Boxed(id) = s {
                    o.st.objs.remove(id);
                }
            }
        }
        // keep apart what is cheap to keep apart
        if outs.len() > 1 {
            let t = b2.has_loop && self.p.p.funcs[fid].krate == "ndarray_slice";
            let mut outs2 = outs;
            if t || outs2.len() > SMALL {
                outs2 = self.merge_outs(outs2, t);
            } else {
                outs2 = self.dedup_outs(outs2);
            }
            if self.dbg
                && let Ok(w) = std::env::var("OUTS")
                && self.p.names[fid].ends_with(&w)
            {
                for o in outs2.iter() {
                    eprintln!("OUT {} {:?} {:?} {}", self.p.names[fid], o.exit, o.val, self.show(&o.st));
                }
            }
            outs = outs2;
        }
        self.cur.pop();
        self.lines.pop();
        let e = self.prof.entry(fid).or_default();
        e.0 += t0.elapsed().as_secs_f64();
        e.1 += 1;
        outs
    }
    pub fn call(&mut self, st: State, fid: FnId, args: Vec<Val>) -> Vec<Out> {
        if self.timed_out {
            return vec![];
        }
        if let Some(o) = self.model(&st, fid, &args) {
            return o;
        }
        let f = &self.p.p.funcs[fid];
        if f.body.is_none() {
            self.unknown(&format!("call of {} whose effect is unknown", f.path));
            let mut st = st;
            let v = self.fresh_val(&mut st, self.ret_ty);
            return vec![Out { exit: Exit::Ret, val: v, st }];
        }
        if let Some(o) = self.summarised(&st, fid, &args) {
            return o;
        }
        if self.cur[self.sums.base..].contains(&fid) {
            self.unknown(&format!("recursion through {}", self.p.names[fid]));
            return vec![];
        }
        self.inline(st, fid, args)
    }
}
fn le(b: &[Option<u8>]) -> u128 {
    let mut v = 0u128;
    for (i, x) in b.iter().enumerate() {
        v |= (x.unwrap_or(0) as u128) << (8 * i);
    }
    v
}
