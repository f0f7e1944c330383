//! Keys, joins, widening and subsumption of states.
use crate::interp::*;
use crate::num::*;
use crate::state::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

pub struct Keyer<'s> {
    st: &'s State,
    pub order: Vec<ObjId>,
    ids: HashMap<ObjId, u32>,
    h: DefaultHasher,
    /// pointers into blocks of plain data, in order of discovery
    ptrs: Vec<(ObjId, Lin)>,
}
impl<'s> Keyer<'s> {
    fn obj(&mut self, o: ObjId) {
        let n = self.ids.len() as u32;
        match self.ids.get(&o) {
            Some(i) => i.hash(&mut self.h),
            None => {
                self.ids.insert(o, n);
                self.order.push(o);
                (n, 77u8).hash(&mut self.h);
                match self.st.objs.get(&o).map(|x| x.as_ref()) {
                    None => 1u8.hash(&mut self.h),
                    Some(Obj::Cell(v)) => {
                        2u8.hash(&mut self.h);
                        self.val(v);
                    }
                    Some(Obj::Region(r)) => {
                        (3u8, r.kind, r.esize, r.elems, r.freed, r.stride.is_some()).hash(&mut self.h);
                        if r.elems {
                            for s in &r.segs {
                                (s.own, s.node).hash(&mut self.h);
                            }
                        } else if r.base.is_none() {
                            for s in &r.segs {
                                (s.own, std::mem::discriminant(&s.val)).hash(&mut self.h);
                            }
                        }
                    }
                }
            }
        }
    }
    fn ptr(&mut self, p: &Ptr) {
        self.obj(p.obj);
        if let Some(r) = self.st.region(p.obj)
            && !r.elems
            && r.base.is_none()
            && r.kind == RKind::Local
            && let Some(i) = p.idx()
        {
            let i = self.st.num.norm(i);
            if !self.ptrs.contains(&(p.obj, i.clone())) {
                self.ptrs.push((p.obj, i));
            }
        }
        for e in &p.path {
            match e {
                PE::F(i) => (1u8, i).hash(&mut self.h),
                PE::I(_) => 2u8.hash(&mut self.h),
            }
        }
        9u8.hash(&mut self.h);
    }
    fn val(&mut self, v: &Val) {
        std::mem::discriminant(v).hash(&mut self.h);
        match v {
            Val::Bool(b) => match self.st.norm_bool(b) {
                B::Const(c) => (1u8, c).hash(&mut self.h),
                _ => 0u8.hash(&mut self.h),
            },
            Val::Ptr(p) | Val::Fat(p, _) => self.ptr(p),
            Val::Agg(f) => {
                f.len().hash(&mut self.h);
                f.iter().for_each(|x| self.val(x));
            }
            Val::Enum(k, f) => {
                k.hash(&mut self.h);
                f.iter().for_each(|x| self.val(x));
            }
            Val::Elem(t) => (t.own, t.key).hash(&mut self.h),
            Val::Arr(o) => self.obj(*o),
            Val::Scaled(_, s) => s.hash(&mut self.h),
            _ => {}
        }
    }
}
pub fn key(st: &State, ret: Option<(&Val, Exit)>) -> (u64, Vec<ObjId>) {
    let mut k = Keyer { st, order: vec![], ids: Default::default(), h: DefaultHasher::new(), ptrs: vec![] };
    if let Some((v, e)) = ret {
        e.hash(&mut k.h);
        k.val(v);
    }
    st.unw.hash(&mut k.h);
    st.oom.hash(&mut k.h);
    // flags among the analyser's own numbers
    for g in st.ghost.iter().skip(8) {
        st.num.konst(g).hash(&mut k.h);
    }
    for f in &st.frames {
        f.fid.hash(&mut k.h);
        for l in &f.locals {
            match l {
                Slot::V(v) => k.val(v),
                Slot::Boxed(o) => k.obj(*o),
            }
        }
    }
    for (id, o) in &st.objs {
        if let Obj::Region(r) = o.as_ref()
            && (r.kind == RKind::View || r.kind == RKind::Heap && !r.freed)
        {
            k.obj(*id);
        }
    }
    // how pointers into the same block compare
    let n = k.ptrs.len().min(12);
    for i in 0..n {
        for j in i + 1..n {
            if k.ptrs[i].0 != k.ptrs[j].0 {
                continue;
            }
            let d = k.ptrs[j].1.sub(&k.ptrs[i].1);
            let c = if st.num.must_ge(&d.addk(-1)) {
                1u8
            } else if st.num.must_ge(&d.neg().addk(-1)) {
                2
            } else if st.num.must_eq(&d) {
                0
            } else {
                3
            };
            (i, j, c).hash(&mut k.h);
        }
    }
    (k.h.finish(), k.order)
}

/// Walks two states of the same key in parallel.
struct Walk<'x> {
    a: &'x State,
    b: &'x State,
    /// a's object -> b's object
    om: BTreeMap<ObjId, ObjId>,
    defs: Vec<(Sym, Lin, Lin)>,
    memo: HashMap<(Lin, Lin), Sym>,
    bmemo: HashMap<(String, String), u32>,
    /// matching only
    pairs: Vec<(Lin, Lin)>,
    ok: bool,
}
impl Walk<'_> {
    fn lin(&mut self, x: &Lin, y: &Lin) -> Lin {
        let common = if x == y { x.single() } else { None };
        let (x, y) = (self.a.num.norm(x), self.b.num.norm(y));
        self.pairs.push((x.clone(), y.clone()));
        if x == y {
            return x;
        }
        if let Some(&z) = self.memo.get(&(x.clone(), y.clone())) {
            return Lin::s(z);
        }
        // an unknown known to both sides keeps its name
        let z = common.unwrap_or_else(fresh);
        self.memo.insert((x.clone(), y.clone()), z);
        self.defs.push((z, x, y));
        Lin::s(z)
    }
    fn bool(&mut self, x: &B, y: &B) -> B {
        let (x, y) = (self.a.norm_bool(x), self.b.norm_bool(y));
        if x == y {
            return x;
        }
        if !matches!(x, B::Unk(_)) {
            self.ok = false;
        }
        let k = (format!("{x:?}"), format!("{y:?}"));
        let id = *self.bmemo.entry(k).or_insert_with(fresh);
        B::Unk(id)
    }
    fn ptr(&mut self, x: &Ptr, y: &Ptr) -> Ptr {
        let mut path = vec![];
        for (e, f) in x.path.iter().zip(&y.path) {
            path.push(match (e, f) {
                (PE::I(l), PE::I(m)) => PE::I(self.lin(l, m)),
                _ => e.clone(),
            });
        }
        Ptr { obj: x.obj, path }
    }
    fn val(&mut self, x: &Val, y: &Val) -> Val {
        match (x, y) {
            (Val::Int(a), Val::Int(b)) => Val::Int(self.lin(a, b)),
            (Val::Scaled(a, s), Val::Scaled(b, _)) => Val::Scaled(self.lin(a, b), *s),
            (Val::Bool(a), Val::Bool(b)) => Val::Bool(self.bool(a, b)),
            (Val::Ptr(a), Val::Ptr(b)) => Val::Ptr(self.ptr(a, b)),
            (Val::Fat(a, n), Val::Fat(b, m)) => {
                let p = self.ptr(a, b);
                Val::Fat(p, self.lin(n, m))
            }
            (Val::Agg(f), Val::Agg(g)) => {
                if Rc::ptr_eq(f, g) && self.same() {
                    return x.clone();
                }
                Val::agg(f.iter().zip(g.iter()).map(|(a, b)| self.val(a, b)).collect())
            }
            (Val::Enum(k, f), Val::Enum(_, g)) => Val::Enum(*k, Rc::new(f.iter().zip(g.iter()).map(|(a, b)| self.val(a, b)).collect())),
            (Val::Elem(a), Val::Elem(b)) => {
                if a.node != b.node {
                    self.ok = false;
                }
                Val::Elem(Tok { node: if a.node == b.node { a.node } else { 0 }, ..a.clone() })
            }
            _ => x.clone(),
        }
    }
    fn same(&self) -> bool {
        false
    }
    fn obj(&mut self, x: &Obj, y: &Obj) -> Obj {
        match (x, y) {
            (Obj::Cell(a), Obj::Cell(b)) => Obj::Cell(self.val(a, b)),
            (Obj::Region(a), Obj::Region(b)) => {
                let mut r = a.clone();
                r.len = self.lin(&a.len, &b.len);
                r.bytes = self.lin(&a.bytes, &b.bytes);
                r.align = self.lin(&a.align, &b.align);
                if a.stride != b.stride
                    && let (Some(s), Some(t)) = (a.stride, b.stride)
                {
                    // strides of the same view agree; two different views: related as numbers
                    let _ = self.lin(&Lin::s(s), &Lin::s(t));
                } else if let Some(s) = a.stride {
                    let s = Lin::s(s);
                    self.pairs.push((self.a.num.norm(&s), self.b.num.norm(&s)));
                }
                if a.elems {
                    r.segs = a
                        .segs
                        .iter()
                        .zip(&b.segs)
                        .map(|(s, t)| Seg { hi: self.lin(&s.hi, &t.hi), own: s.own, val: s.val.clone(), node: s.node })
                        .collect();
                } else {
                    if a.base.is_some() || a.segs.len() != b.segs.len() {
                        let na: Vec<Seg> = a.segs.iter().map(|s| self.nseg(self.a, s)).collect();
                        let nb: Vec<Seg> = b.segs.iter().map(|s| self.nseg(self.b, s)).collect();
                        if na == nb {
                            r.segs = na;
                        } else {
                            let init = a.segs.iter().chain(&b.segs).all(|s| s.own == Own::Live);
                            let val = a.base.clone().unwrap_or(SVal::Any);
                            let one = Seg { hi: r.len.clone(), own: if init { Own::Live } else { Own::Uninit }, val, node: 0 };
                            if na.len() != 1 || na[0] != one {
                                self.ok = false;
                            }
                            r.segs = vec![one];
                        }
                    } else {
                        r.segs = a
                            .segs
                            .iter()
                            .zip(&b.segs)
                            .map(|(s, t)| {
                                let hi = self.lin(&s.hi, &t.hi);
                                let val = match (&s.val, &t.val) {
                                    (SVal::Range(a, b), SVal::Range(c, d)) => SVal::Range(self.lin(a, c), self.lin(b, d)),
                                    (SVal::One(Val::Int(a)), SVal::One(Val::Int(b))) => SVal::One(Val::Int(self.lin(a, b))),
                                    (SVal::Any, _) => SVal::Any,
                                    (SVal::Chain(c), SVal::Chain(d)) if (c.n, c.i, c.j) == (d.n, d.i, d.j) => {
                                        let mut ways = vec![];
                                        for (w, a, b) in &c.ways {
                                            if let Some((_, a2, b2)) = d.ways.iter().find(|x| x.0 == *w) {
                                                ways.push((*w, self.lin(a, a2), self.lin(b, b2)));
                                            } else {
                                                self.ok = false;
                                            }
                                        }
                                        if ways.is_empty() { SVal::Any } else { SVal::Chain(Chain { ways, ..c.clone() }) }
                                    }
                                    (x, y) if x == y => x.clone(),
                                    _ => {
                                        self.ok = false;
                                        SVal::Any
                                    }
                                };
                                Seg { hi, own: s.own, val, node: 0 }
                            })
                            .collect();
                    }
                }
                Obj::Region(r)
            }
            _ => x.clone(),
        }
    }
    fn nseg(&self, st: &State, s: &Seg) -> Seg {
        let n = |l: &Lin| st.num.norm(l);
        Seg {
            hi: n(&s.hi),
            val: match &s.val {
                SVal::Range(a, b) => SVal::Range(n(a), n(b)),
                SVal::Inc(a, b) => SVal::Inc(n(a), n(b)),
                SVal::One(Val::Int(a)) => SVal::One(Val::Int(n(a))),
                SVal::Chain(c) => SVal::Chain(c.map(n)),
                v => v.clone(),
            },
            ..s.clone()
        }
    }
    fn slot(&mut self, x: &Slot, y: &Slot) -> Slot {
        match (x, y) {
            (Slot::V(a), Slot::V(b)) => Slot::V(self.val(a, b)),
            _ => x.clone(),
        }
    }
    /// The joined structure (without numbers).
    fn run(&mut self, oa: &[ObjId], ob: &[ObjId], va: &Val, vb: &Val) -> (State, Val) {
        let val = self.val(va, vb);
        let mut out = State { oom: self.a.oom, unw: self.a.unw.clone(), ..Default::default() };
        for (f, g) in self.a.frames.iter().zip(&self.b.frames) {
            if Rc::ptr_eq(f, g) {
                // still walk: the numbers may be known differently
            }
            out.frames.push(Rc::new(Frame { fid: f.fid, locals: f.locals.iter().zip(&g.locals).map(|(x, y)| self.slot(x, y)).collect() }));
        }
        for (x, y) in oa.iter().zip(ob) {
            self.om.insert(*x, *y);
            let (Some(p), Some(q)) = (self.a.objs.get(x), self.b.objs.get(y)) else { continue };
            let (p, q) = (p.clone(), q.clone());
            let o = self.obj(&p, &q);
            out.objs.insert(*x, Rc::new(o));
        }
        let mut bools = BTreeMap::new();
        for (k, v) in self.a.bools.iter() {
            if self.b.bools.get(k) == Some(v) {
                bools.insert(*k, *v);
            }
        }
        out.bools = Rc::new(bools);
        out.log = match (&self.a.log, &self.b.log) {
            (Some(x), Some(y)) => {
                let mut v = x.as_ref().clone();
                for e in y.iter() {
                    if !v.contains(e) {
                        v.push(e.clone());
                    }
                }
                Some(Rc::new(v))
            }
            (x, y) => x.clone().or(y.clone()),
        };
        (out, val)
    }
}
fn walk<'x>(a: &'x State, b: &'x State) -> Walk<'x> {
    Walk { a, b, om: Default::default(), defs: vec![], memo: Default::default(), bmemo: Default::default(), pairs: vec![], ok: true }
}
pub fn syms_val(v: &Val, out: &mut BTreeSet<Sym>) {
    match v {
        Val::Int(l) => out.extend(l.syms()),
        Val::Scaled(l, s) => {
            out.extend(l.syms());
            out.insert(*s);
        }
        Val::Bool(B::Ge(l) | B::Eq(l) | B::Ne(l)) => out.extend(l.syms()),
        Val::Ptr(p) => syms_ptr(p, out),
        Val::Fat(p, n) => {
            syms_ptr(p, out);
            out.extend(n.syms());
        }
        Val::Agg(f) | Val::Enum(_, f) => f.iter().for_each(|x| syms_val(x, out)),
        _ => {}
    }
}
fn syms_ptr(p: &Ptr, out: &mut BTreeSet<Sym>) {
    for e in &p.path {
        if let PE::I(l) = e {
            out.extend(l.syms());
        }
    }
}
pub fn syms_region(r: &Region, out: &mut BTreeSet<Sym>) {
    out.extend(r.len.syms());
    out.extend(r.bytes.syms());
    out.extend(r.align.syms());
    out.extend(r.stride);
    for s in &r.segs {
        out.extend(s.hi.syms());
        match &s.val {
            SVal::Range(a, b) | SVal::Inc(a, b) => {
                out.extend(a.syms());
                out.extend(b.syms());
            }
            SVal::One(v) => syms_val(v, out),
            SVal::Chain(c) => out.extend(c.syms()),
            _ => {}
        }
    }
    if let Some(SVal::Range(a, b) | SVal::Inc(a, b)) = &r.base {
        out.extend(a.syms());
        out.extend(b.syms());
    }
}
pub fn syms(st: &State, ret: &Val) -> BTreeSet<Sym> {
    let mut out = BTreeSet::new();
    syms_val(ret, &mut out);
    for f in &st.frames {
        for l in &f.locals {
            if let Slot::V(v) = l {
                syms_val(v, &mut out);
            }
        }
    }
    for o in st.objs.values() {
        match o.as_ref() {
            Obj::Cell(v) => syms_val(v, &mut out),
            Obj::Region(r) => syms_region(r, &mut out),
        }
    }
    out.extend(st.ghost.iter().flat_map(|l| l.syms().collect::<Vec<_>>()));
    out
}
fn ptrs_into(v: &Val, o: ObjId, out: &mut Vec<Lin>) {
    match v {
        Val::Ptr(p) | Val::Fat(p, _) if p.obj == o => out.push(crate::mem::region_path(p).0),
        Val::Agg(f) | Val::Enum(_, f) => f.iter().for_each(|x| ptrs_into(x, o, out)),
        _ => {}
    }
}
fn hull(num: &Num, parts: &[SVal]) -> SVal {
    if parts.is_empty() {
        return SVal::Range(Lin::c(0), Lin::c(0));
    }
    let mut los = vec![];
    let mut his = vec![];
    for p in parts {
        match p {
            SVal::One(Val::Int(l)) => {
                los.push(l.clone());
                his.push(l.addk(1));
            }
            SVal::Range(a, b) | SVal::Inc(a, b) => {
                los.push(a.clone());
                his.push(b.clone());
            }
            _ => return SVal::Any,
        }
    }
    let lo = if los.iter().all(|l| num.must_ge(l)) {
        Lin::c(0)
    } else {
        match los.iter().find(|l| los.iter().all(|m| num.must_ge(&m.sub(l)))) {
            Some(l) => num.norm(l),
            None => return SVal::Any,
        }
    };
    match his.iter().find(|h| his.iter().all(|m| num.must_ge(&h.sub(m)))) {
        Some(h) => SVal::Range(lo, num.norm(h)),
        None => {
            let ms: Vec<Option<i128>> = his.iter().map(|h| num.max(h)).collect();
            if ms.iter().all(|m| m.is_some()) { SVal::Range(lo, Lin::c(ms.into_iter().flatten().max().unwrap())) } else { SVal::Any }
        }
    }
}
fn vv(n: &Num, v: &Val) -> String {
    let pp = |p: &Ptr| format!("&{}{}", p.obj, p.path.iter().map(|e| match e { PE::F(i) => format!(".{i}"), PE::I(l) => format!("[{:?}]", n.norm(l)) }).collect::<String>());
    match v {
        Val::Int(l) => format!("{:?}", n.norm(l)),
        Val::Ptr(p) => pp(p),
        Val::Fat(p, l) => format!("{}+{:?}", pp(p), n.norm(l)),
        Val::Agg(f) => format!("({})", f.iter().map(|x| vv(n, x)).collect::<Vec<_>>().join(", ")),
        Val::Enum(k, f) => format!("#{k}({})", f.iter().map(|x| vv(n, x)).collect::<Vec<_>>().join(", ")),
        v => format!("{v:?}"),
    }
}
fn sv(n: &Num, v: &SVal) -> String {
    match v {
        SVal::Elems => String::new(),
        SVal::Any => "?".into(),
        SVal::Range(a, b) => format!("<{:?},{:?}>", n.norm(a), n.norm(b)),
        SVal::Inc(a, b) => format!("<<{:?},{:?}>>", n.norm(a), n.norm(b)),
        SVal::One(v) => format!("={}", vv(n, v)),
        SVal::Chain(c) => c.ways.iter().map(|(w, a, b)| format!("~{w}:{:?}~{:?}", n.norm(a), n.norm(b))).collect(),
    }
}
fn singles(v: &Val, out: &mut BTreeSet<Sym>) {
    match v {
        Val::Int(l) => out.extend(l.single()),
        Val::Agg(f) | Val::Enum(_, f) => f.iter().for_each(|x| singles(x, out)),
        _ => {}
    }
}
/// What a reference or a view promises: it stays inside its memory.
fn promises(st: &State, v: &Val, out: &mut Vec<Lin>) {
    let ptr = |p: &Ptr, len: Option<&Lin>, out: &mut Vec<Lin>| {
        let (Some(r), [PE::I(off)]) = (st.region(p.obj), p.path.as_slice()) else { return };
        let mut cands = vec![off.clone(), r.len.sub(off)];
        if let Some(n) = len {
            cands.push(r.len.sub(off).sub(n));
        }
        for c in cands {
            if !c.t.is_empty() && !out.contains(&c) {
                out.push(c);
            }
        }
    };
    match v {
        Val::Ptr(p) => ptr(p, None, out),
        Val::Fat(p, n) => ptr(p, Some(n), out),
        Val::Agg(f) | Val::Enum(_, f) => {
            if let Some(p) = f.iter().find_map(|x| if let Val::Ptr(p) = x { Some(p) } else { None }) {
                for x in f.iter() {
                    if let Val::Int(n) = x {
                        if n.single().is_none_or(|s| !crate::models::is_stride(s)) {
                            ptr(p, Some(n), out);
                        }
                    }
                }
            }
            f.iter().for_each(|x| promises(st, x, out));
        }
        _ => {}
    }
}
fn top_val<'v>(st: &'v State, l: &'v Slot) -> Option<&'v Val> {
    match l {
        Slot::V(v) => Some(v),
        Slot::Boxed(o) => match st.objs.get(o).map(|x| x.as_ref()) {
            Some(Obj::Cell(v)) => Some(v),
            _ => None,
        },
    }
}
fn consts_val(v: &Val, num: &Num, out: &mut Vec<i128>) {
    match v {
        Val::Int(l) => out.extend(num.konst(l)),
        Val::Agg(f) | Val::Enum(_, f) => f.iter().for_each(|x| consts_val(x, num, out)),
        _ => {}
    }
}
/// Truth values that the numbers decide become constants.
fn settle_bools(st: &mut State) {
    fn decide(num: &Num, b: &B) -> Option<bool> {
        match b {
            B::Ge(l) => {
                if num.must_ge(l) {
                    Some(true)
                } else if !num.may_ge(l) {
                    Some(false)
                } else {
                    None
                }
            }
            B::Eq(l) | B::Ne(l) => {
                let e = matches!(b, B::Eq(_));
                if num.must_eq(l) {
                    Some(e)
                } else if !num.may_eq(l) {
                    Some(!e)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn val(num: &Num, v: &Val) -> Option<Val> {
        match v {
            Val::Bool(b) => decide(num, b).map(Val::bool),
            Val::Agg(f) => {
                let n: Vec<Option<Val>> = f.iter().map(|x| val(num, x)).collect();
                if n.iter().all(|x| x.is_none()) { None } else { Some(Val::agg(f.iter().zip(n).map(|(x, y)| y.unwrap_or_else(|| x.clone())).collect())) }
            }
            _ => None,
        }
    }
    let num = st.num.clone();
    for f in st.frames.iter_mut() {
        let n: Vec<(usize, Val)> = f.locals.iter().enumerate().filter_map(|(i, s)| match s { Slot::V(v) => val(&num, v).map(|x| (i, x)), _ => None }).collect();
        if !n.is_empty() {
            let f = Rc::make_mut(f);
            for (i, v) in n {
                f.locals[i] = Slot::V(v);
            }
        }
    }
    for o in st.objs.values_mut() {
        if let Obj::Cell(v) = o.as_ref()
            && let Some(x) = val(&num, v)
        {
            *o = Rc::new(Obj::Cell(x));
        }
    }
}
fn same_sval(num: &Num, a: &SVal, b: &SVal) -> bool {
    match (a, b) {
        (SVal::Range(a, b), SVal::Range(c, d)) => num.must_eq(&a.sub(c)) && num.must_eq(&b.sub(d)),
        _ => a == b,
    }
}
pub struct KS {
    pub key: u64,
    pub order: Vec<ObjId>,
    pub st: State,
    pub val: Val,
    pub exit: Exit,
}
impl KS {
    pub fn dup(&self) -> KS {
        KS { key: self.key, order: self.order.clone(), st: self.st.clone(), val: self.val.clone(), exit: self.exit }
    }
}
impl<'a> Interp<'a> {
    pub fn keyed(&mut self, st: State, val: Val, exit: Exit) -> KS {
        self.keyed_at(st, val, exit, false)
    }
    fn keyed_at(&mut self, mut st: State, val: Val, exit: Exit, head: bool) -> KS {
        let regs: Vec<ObjId> = st.objs.iter().filter(|(_, o)| matches!(o.as_ref(), Obj::Region(r) if r.segs.len() > 1 || r.kind == RKind::Heap)).map(|x| *x.0).collect();
        for r in regs {
            if st.region(r).is_some_and(|r| r.elems) {
                // what was moved out of scratch memory is of no use any more
                if st.region(r).is_some_and(|r| r.kind == RKind::Heap && r.segs.iter().any(|s| s.own == Own::Dead)) {
                    for s in st.region_mut(r).unwrap().segs.iter_mut().filter(|s| s.own == Own::Dead) {
                        s.own = Own::Uninit;
                        s.node = 0;
                    }
                }
                self.tidy(&mut st, r, true);
            }
        }
        settle_bools(&mut st);
        self.canon_plain(&mut st, &val, head);
        let (key, order) = key(&st, Some((&val, exit)));
        // unreachable objects disappear
        let keep: BTreeSet<ObjId> = order.iter().copied().collect();
        st.objs.retain(|k, _| keep.contains(k));
        KS { key, order, st, val, exit }
    }
    /// Plain data: one segment between any two neighbouring pointers into the block.
    fn canon_plain(&mut self, st: &mut State, val: &Val, head: bool) {
        let regs: Vec<ObjId> = st
            .objs
            .iter()
            .filter(|(_, o)| matches!(o.as_ref(), Obj::Region(r) if !r.elems && r.base.is_none() && (r.segs.len() > 1 || r.segs[0].val != SVal::Any)))
            .map(|x| *x.0)
            .collect();
        // where the holes among the elements are
        let mut holes: BTreeSet<Sym> = BTreeSet::new();
        for x in st.objs.values() {
            if let Obj::Region(r) = x.as_ref()
                && r.elems
            {
                for s in &r.segs[..r.segs.len().max(1) - 1] {
                    holes.extend(st.num.norm(&s.hi).syms());
                }
            }
        }
        for o in regs {
            if st.region(o).is_some_and(|r| r.kind == RKind::Heap && (r.esize > 8 || r.rec)) {
                self.canon_table(st, val, o, head);
                continue;
            }
            let mut pts: Vec<Lin> = vec![Lin::c(0)];
            let r = st.region(o).unwrap().clone();
            pts.push(st.num.norm(&r.len));
            let mut ps: Vec<Lin> = vec![];
            for f in &st.frames {
                for l in &f.locals {
                    if let Slot::V(v) = l {
                        ptrs_into(v, o, &mut ps);
                    }
                }
            }
            for x in st.objs.values() {
                if let Obj::Cell(v) = x.as_ref() {
                    ptrs_into(v, o, &mut ps);
                }
            }
            // a slot written at a pointer stays apart
            let n = ps.len();
            let mut ones: Vec<Lin> = vec![];
            for i in 0..n {
                let q = ps[i].addk(1);
                if let Some(s) = r.segs.iter().find(|s| st.num.must_eq(&s.hi.sub(&q)))
                    && (!head || matches!(&s.val, SVal::One(Val::Int(l)) if st.num.norm(l).syms().any(|x| holes.contains(&x))))
                {
                    ones.push(ps[i].clone());
                    ps.push(q);
                }
            }
            'p: for p in ps {
                let p = st.num.norm(&p);
                for q in &pts {
                    if st.num.must_eq(&p.sub(q)) {
                        continue 'p;
                    }
                }
                let mut at = None;
                for i in 0..pts.len() - 1 {
                    if st.num.must_ge(&p.sub(&pts[i])) && st.num.must_ge(&pts[i + 1].sub(&p)) {
                        at = Some(i + 1);
                        break;
                    }
                }
                if let Some(i) = at {
                    pts.insert(i, p);
                }
            }
            let mut segs: Vec<Seg> = vec![];
            for w in pts.windows(2) {
                let mut own = Own::Live;
                let mut parts = vec![];
                for k in 0..r.segs.len() {
                    let lo = st.seg_lo(&r, k);
                    let hi = &r.segs[k].hi;
                    if st.num.must_ge(&w[0].sub(hi)) || st.num.must_ge(&lo.sub(&w[1])) || st.num.must_ge(&lo.sub(hi)) {
                        continue;
                    }
                    if r.segs[k].own != Own::Live {
                        own = Own::Uninit;
                    }
                    parts.push(r.segs[k].val.clone());
                }
                let val = match own {
                    Own::Live if parts.len() == 1 && (!head || matches!(parts[0], SVal::Any | SVal::Range(..)) || ones.iter().any(|p| st.num.must_eq(&p.sub(&w[0])))) => parts.remove(0),
                    Own::Live => hull(&st.num, &parts),
                    _ => SVal::Any,
                };
                match segs.last_mut() {
                    Some(Seg { hi, own: o, val: v, .. }) if *o == own && same_sval(&st.num, v, &val) => *hi = w[1].clone(),
                    _ => segs.push(Seg { hi: w[1].clone(), own, val, node: 0 }),
                }
            }
            if !segs.is_empty() {
                st.region_mut(o).unwrap().segs = segs;
            }
        }
    }
    /// A table of intervals: neighbours that meet become one segment.
    fn canon_table(&mut self, st: &mut State, val: &Val, o: ObjId, head: bool) {
        let r = st.region(o).unwrap();
        if r.freed {
            return;
        }
        st.settle_chains(o);
        let r = st.region(o).unwrap();
        // borders something else speaks about stay
        let mut kept = BTreeSet::new();
        {
            let n = st.frames.len();
            if !head {
                syms_val(val, &mut kept);
            }
            for f in &st.frames[..if head { n.max(1) - 1 } else { n }] {
                for l in &f.locals {
                    if let Slot::V(v) = l {
                        syms_val(v, &mut kept);
                    }
                }
            }
        }
        let mut segs: Vec<Seg> = vec![];
        let mut lo = Lin::c(0);
        for s in &r.segs {
            let hi = st.num.norm(&s.hi);
            if st.num.must_eq(&hi.sub(&lo)) {
                if let Some(l) = segs.last_mut() {
                    l.hi = hi.clone();
                }
                lo = hi;
                continue;
            }
            lo = hi.clone();
            let mut s = Seg { hi, ..s.clone() };
            if s.own == Own::Live
                && let SVal::One(v) = &s.val
            {
                // (records that describe no interval are not told apart)
                s.val = Chain::slot(&st.num, v).map_or(SVal::Any, SVal::Chain);
            }
            if let Some(l) = segs.last_mut() {
                let mut meets = false;
                if let (SVal::Chain(c), SVal::Chain(d)) = (&l.val, &s.val)
                    && let Some(m) = c.meet(&st.num, d)
                {
                    meets = true;
                    if !d.ways.iter().any(|w| w.1.syms().any(|x| kept.contains(&x))) {
                        l.val = SVal::Chain(m);
                        l.hi = s.hi;
                        continue;
                    }
                }
                if l.own == s.own && l.val == s.val && s.val == SVal::Any {
                    l.hi = s.hi;
                    continue;
                }
                if head && !meets {
                    s.own = Own::Uninit;
                    s.val = SVal::Any;
                    s.node = 0;
                    if l.own == Own::Uninit && segs.len() > 1 {
                        segs.last_mut().unwrap().hi = s.hi;
                        continue;
                    }
                }
            }
            segs.push(s);
        }
        if !segs.is_empty() {
            if std::env::var("TAB").is_ok() {
                let f = |v: &Vec<Seg>| v.iter().map(|g| format!("{:?}{}..{:?}", g.own, sv(&st.num, &g.val), st.num.norm(&g.hi))).collect::<Vec<_>>().join(", ");
                eprintln!("TAB {head} {} {} => {}", st.frames.len(), f(&st.region(o).unwrap().segs), f(&segs));
            }
            st.region_mut(o).unwrap().segs = segs;
        }
    }
    fn join(&mut self, a: &KS, b: &KS, widen: u32) -> KS {
        self.stats.joins += 1;
        let mut w = walk(&a.st, &b.st);
        let (mut st, val) = w.run(&a.order, &b.order, &a.val, &b.val);
        st.ghost = a.st.ghost.iter().zip(&b.st.ghost).map(|(x, y)| w.lin(x, y)).collect();
        let defs = w.defs;
        let keep = syms(&st, &val);
        let mut terms: Vec<Lin> = vec![];
        if widen == 0 {
            for o in st.objs.values() {
                if let Obj::Region(r) = o.as_ref() {
                    if !r.len.t.is_empty() && !terms.contains(&r.len) && r.len.syms().all(|s| keep.contains(&s)) {
                        terms.push(r.len.clone());
                    }
                }
            }
        }
        if widen != 0 {
            // lengths and other shared unknowns that occur on their own
            let mut t: BTreeSet<Sym> = BTreeSet::new();
            for o in st.objs.values() {
                if let Obj::Region(r) = o.as_ref() {
                    t.extend(r.len.syms());
                }
            }
            for (_, x, y) in &defs {
                for l in [x, y] {
                    if let Some(s) = l.single() {
                        t.insert(s);
                    }
                }
            }
            if let Some(f) = st.frames.last() {
                for l in &f.locals {
                    if let Some(v) = top_val(&st, l) {
                        singles(v, &mut t);
                    }
                }
            }
            terms = t.into_iter().filter(|s| keep.contains(s)).map(Lin::s).collect();
            // and numbers that do not change along the way
            if let Some(f) = st.frames.last() {
                for l in &f.locals {
                    if let Some(Val::Int(l)) = top_val(&st, l) {
                        let l = l.sub(&Lin::c(l.k));
                        if !l.t.is_empty() && !defs.iter().any(|d| l.coef(d.0) != 0) && !terms.contains(&l) && terms.len() < 12 {
                            terms.push(l);
                        }
                    }
                }
            }
        }
        let defs: Vec<(Sym, Lin, Lin)> = defs.into_iter().filter(|d| keep.contains(&d.0)).collect();
        let mut steps: Vec<i128> = vec![];
        if widen == 2 {
            if let Some(f) = st.frames.last() {
                for l in &f.locals {
                    if let Some(v) = top_val(&st, l) {
                        consts_val(v, &a.st.num, &mut steps);
                    }
                }
            }
            for o in st.objs.values() {
                if let Obj::Region(r) = o.as_ref() {
                    steps.extend(a.st.num.konst(&r.len));
                }
            }
        }
        let mut invs = vec![];
        if let Some(f) = st.frames.last() {
            for l in &f.locals {
                if let Some(v) = top_val(&st, l) {
                    promises(&st, v, &mut invs);
                }
            }
        }
        promises(&st, &val, &mut invs);
        let _t = std::time::Instant::now();
        st.num = join_mode(&a.st.num, &b.st.num, &defs, &keep, &terms, widen, &steps, &invs);
        if widen != 0 && st.num.ge.len() > 8 {
            st.num.reduce();
        }
        if self.dbg && _t.elapsed().as_millis() > 300 {
            eprintln!("slow join {} ms defs {} keep {} ge {} {} -> {}", _t.elapsed().as_millis(), defs.len(), keep.len(), a.st.num.ge.len(), b.st.num.ge.len(), st.num.ge.len());
        }
        KS { key: a.key, order: a.order.clone(), st, val, exit: a.exit }
    }
    pub fn join_pub(&mut self, a: &KS, b: &KS, widen: u32) -> KS {
        self.join(a, b, widen)
    }
    /// The instance of `a` that covers `b`: meaning of its unknowns and of its objects.
    pub fn covering(&mut self, a: &KS, b: &KS) -> Option<(HashMap<Sym, Lin>, BTreeMap<ObjId, ObjId>)> {
        let mut w = walk(&a.st, &b.st);
        w.run(&a.order, &b.order, &a.val, &b.val);
        if !w.ok {
            return None;
        }
        let om = w.om;
        let pairs = w.pairs;
        cover(&a.st.num, &b.st.num, &pairs).map(|s| (s, om))
    }
    /// Is `b` covered by `a`?
    fn subsumed(&mut self, a: &KS, b: &KS) -> bool {
        let mut w = walk(&a.st, &b.st);
        w.run(&a.order, &b.order, &a.val, &b.val);
        for (x, y) in a.st.ghost.iter().zip(&b.st.ghost) {
            w.lin(x, y);
        }
        if !w.ok {
            why("shape", &Lin::c(0), &b.st.num);
            return false;
        }
        let pairs = w.pairs;
        if let (Some(x), Some(y)) = (&a.st.log, &b.st.log)
            && y.iter().any(|e| !x.contains(e))
        {
            return false;
        }
        cover(&a.st.num, &b.st.num, &pairs).is_some()
    }
    pub fn merge_ks(&mut self, v: Vec<KS>, widen: u32) -> Vec<KS> {
        let mut out: Vec<KS> = vec![];
        for k in v {
            match out.iter().position(|o| o.key == k.key) {
                None => out.push(k),
                Some(i) => {
                    if self.subsumed(&out[i], &k) {
                        continue;
                    }
                    let j = if self.subsumed(&k, &out[i]) { k } else { self.join(&out[i], &k, widen) };
                    out[i] = j;
                }
            }
        }
        out
    }
    pub fn merge_states(&mut self, v: Vec<State>, templates: bool) -> Vec<State> {
        let ks: Vec<KS> = v.into_iter().map(|s| self.keyed_at(s, Val::Unit, Exit::Ret, templates)).collect();
        let t = 1;
        self.merge_ks(ks, t).into_iter().map(|k| k.st).collect()
    }
    pub fn dedup_states(&mut self, v: Vec<State>) -> Vec<State> {
        let ks: Vec<KS> = v.into_iter().map(|s| self.keyed(s, Val::Unit, Exit::Ret)).collect();
        let mut out: Vec<KS> = vec![];
        for k in ks {
            if out.iter().any(|o| o.key == k.key && self.subsumed(o, &k)) {
                continue;
            }
            out.push(k);
        }
        out.into_iter().map(|k| k.st).collect()
    }
    pub fn dedup_outs(&mut self, v: Vec<Out>) -> Vec<Out> {
        let ks: Vec<KS> = v.into_iter().map(|o| self.keyed(o.st, o.val, o.exit)).collect();
        let mut out: Vec<KS> = vec![];
        for k in ks {
            if out.iter().any(|o| o.key == k.key && self.subsumed(o, &k)) {
                continue;
            }
            out.push(k);
        }
        out.into_iter().map(|k| Out { exit: k.exit, val: k.val, st: k.st }).collect()
    }
    pub fn merge_outs(&mut self, v: Vec<Out>, templates: bool) -> Vec<Out> {
        let ks: Vec<KS> = v.into_iter().map(|o| self.keyed(o.st, o.val, o.exit)).collect();
        let t = if templates { 1 } else { 0 };
        self.merge_ks(ks, t).into_iter().map(|k| Out { exit: k.exit, val: k.val, st: k.st }).collect()
    }
    /// Adds the states coming back to a loop head; true when something new arrived.
    pub fn absorb(&mut self, inv: &mut Vec<State>, back: Vec<State>, iter: u32) -> bool {
        let mut ks: Vec<KS> = inv.drain(..).map(|s| self.keyed_at(s, Val::Unit, Exit::Ret, true)).collect();
        let mut changed = false;
        for s in back {
            let k = self.keyed_at(s, Val::Unit, Exit::Ret, true);
            match ks.iter().position(|o| o.key == k.key) {
                None => {
                    if ks.len() >= 40 {
                        self.unknown("too many shapes at a loop head");
                        continue;
                    }
                    ks.push(k);
                    changed = true;
                }
                Some(i) => {
                    if !self.subsumed(&ks[i], &k) {
                        if self.dbg && iter > 6 && iter < 10 && std::env::var("LOOPS").is_ok() {
                            WHY.with(|w| w.set(true));
                            self.subsumed(&ks[i], &k);
                            WHY.with(|w| w.set(false));
                        }
                        changed = true;
                        ks[i] = self.join(&ks[i], &k, if iter < 2 { 1 } else { 2 });
                    }
                }
            }
        }
        *inv = ks.into_iter().map(|k| k.st).collect();
        changed
    }
    pub fn show(&self, s: &State) -> String {
        let mut t = String::new();
        let f = s.frames.last().unwrap();
        let body = self.p.p.funcs[f.fid].body.as_ref().unwrap();
        for (i, l) in f.locals.iter().enumerate() {
            let v = match l {
                Slot::V(v) => v.clone(),
                Slot::Boxed(o) => match s.objs.get(o).map(|x| x.as_ref()) {
                    Some(Obj::Cell(v)) => v.clone(),
                    _ => Val::Top,
                },
            };
            if v != Val::Uninit && v != Val::Unit {
                t += &format!("{}_{i}={} ", body.names[i].clone().unwrap_or_default(), vv(&s.num, &v));
            }
        }
        for (id, o) in &s.objs {
            if let Obj::Region(r) = o.as_ref() {
                t += &format!("R{id}[len {:?}: {}] ", s.num.norm(&r.len), r.segs.iter().map(|g| format!("{:?}{}..{:?}", g.own, sv(&s.num, &g.val), s.num.norm(&g.hi))).collect::<Vec<_>>().join(","));
            }
        if !s.ghost.is_empty() {
            if !t.contains("ghost") { t += &format!("ghost {:?} ", s.ghost.iter().map(|g| s.num.norm(g)).collect::<Vec<_>>()); }
        }
        }
        t += &format!("| {:?} eq {:?}", s.num.ge, s.num.eq);
        t
    }
}
thread_local! {
    static WHY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn why(x: &str, l: &Lin, b: &Num) {
    if WHY.with(|w| w.get()) {
        eprintln!("NOT COVERED {x} {:?}: {:?}", b.norm(l), b);
    }
}
/// Finds the instance of `a`'s unknowns for which `b` lies within `a`.
pub fn cover(a: &Num, b: &Num, pairs: &[(Lin, Lin)]) -> Option<HashMap<Sym, Lin>> {
    let mut sub: HashMap<Sym, Lin> = HashMap::new();
    for (x, y) in pairs {
        if let Some(s) = x.single() {
            sub.entry(s).or_insert_with(|| y.clone());
        }
    }
    let ap = |l: &Lin, sub: &HashMap<Sym, Lin>| l.rename(&mut |s| sub.get(&s).cloned().unwrap_or_else(|| Lin::s(s)));
    // an unknown that occurs only in sums with others already known
    loop {
        let mut more = false;
        for (x, y) in pairs {
            let open: Vec<(Sym, i128)> = x.t.iter().filter(|p| !sub.contains_key(&p.0)).copied().collect();
            if open.len() == 1 && open[0].1.abs() == 1 && x.single().is_none() {
                let (s, c) = open[0];
                let mut rest = x.clone();
                rest.t.retain(|p| p.0 != s);
                let r = y.sub(&ap(&rest, &sub)).mul(c);
                if r != Lin::s(s) {
                    sub.insert(s, r);
                    more = true;
                } else {
                    sub.insert(s, Lin::s(s));
                    more = true;
                }
            }
        }
        if !more {
            break;
        }
    }
    for (x, y) in pairs {
        let d = ap(x, &sub).sub(y);
        if !b.must_eq(&d) {
            why("pair/eq", &d, b);
            return None;
        }
    }
    for (s, e) in a.eq.iter() {
        // a solved unknown that nothing else mentions
        if !sub.contains_key(s) {
            continue;
        }
        let d = ap(&Lin::s(*s).sub(e), &sub);
        if !b.must_eq(&d) {
            why("pair/eq", &d, b);
            return None;
        }
    }
    for e in a.eq2.iter() {
        if !b.must_eq(&ap(e, &sub)) {
            return None;
        }
    }
    for c in a.ge.iter() {
        let d = ap(c, &sub);
        if !b.must_ge(&d) {
            why("ge", &d, b);
            return None;
        }
    }
    Some(sub)
}
