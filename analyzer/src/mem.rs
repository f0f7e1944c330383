//! Memory operations of the abstract interpreter.
use crate::interp::*;
use crate::ir::*;
use crate::num::*;
use crate::state::*;
use crate::types::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Loc {
    Local(usize, Vec<usize>),
    Mem(Ptr),
    MemFat(Ptr, Lin),
    Zst,
    /// already reported
    Bad,
}
pub type Flow<T> = Vec<(State, T)>;

pub fn get_path(v: &Val, path: &[usize]) -> Val {
    if path.is_empty() {
        return v.clone();
    }
    match v {
        Val::Agg(f) | Val::Enum(_, f) => match f.get(path[0]) {
            Some(x) => get_path(x, &path[1..]),
            None => Val::Uninit,
        },
        Val::Top => Val::Top,
        Val::Unit => Val::Unit,
        _ => Val::Uninit,
    }
}
pub fn set_path(v: &Val, path: &[usize], x: Val) -> Val {
    if path.is_empty() {
        return x;
    }
    let (mut f, en) = match v {
        Val::Agg(f) => (f.as_ref().clone(), None),
        Val::Enum(k, f) => (f.as_ref().clone(), Some(*k)),
        Val::Top => (vec![Val::Top; path[0] + 1], None),
        _ => (vec![], None),
    };
    while f.len() <= path[0] {
        f.push(Val::Uninit);
    }
    f[path[0]] = set_path(&f[path[0]], &path[1..], x);
    match en {
        Some(k) => Val::Enum(k, Rc::new(f)),
        None => Val::agg(f),
    }
}

impl<'a> Interp<'a> {
    /// A value of the type about which nothing is known (enums and flags stay symbolic).
    pub fn fresh_val(&self, st: &mut State, t: TyId) -> Val {
        match self.p.shape(t) {
            Shape::Unit => Val::Unit,
            Shape::Int { signed, bits } => Val::Int(self.fresh_int(st, signed, bits)),
            Shape::Bool => Val::Bool(B::unk()),
            Shape::Trans(_, u) => self.fresh_val(st, u),
            Shape::Struct(f) => Val::agg(f.iter().map(|&x| self.fresh_val(st, x)).collect()),
            Shape::Elem(key) => Val::Elem(Tok { own: Own::Live, node: 0, key }),
            _ => Val::Top,
        }
    }
    pub fn fresh_int(&self, st: &mut State, signed: bool, bits: u32) -> Lin {
        let x = Lin::s(fresh());
        self.in_range(st, &x, signed, bits);
        x
    }
    pub fn in_range(&self, st: &mut State, x: &Lin, signed: bool, bits: u32) {
        if !signed {
            st.num.ge(x);
        }
        if bits <= 32 {
            let m = if signed { bits - 1 } else { bits };
            st.num.ge(&x.neg().addk((1i128 << m) - 1));
            if signed {
                st.num.ge(&x.addk(1i128 << m));
            }
        }
    }
    /// Is `l` within the type?
    pub fn fits(&self, st: &State, l: &Lin, signed: bool, bits: u32) -> bool {
        let m = if signed { bits - 1 } else { bits };
        let lo = if signed { -(1i128 << m) } else { 0 };
        let hi = (1i128 << m) - 1;
        st.num.must_ge(&l.addk(-lo)) && self.below(st, l, hi)
    }
    /// `l <= hi`, knowing that every view length and every address is at most isize::MAX.
    pub fn below(&self, st: &State, l: &Lin, hi: i128) -> bool {
        if st.num.must_ge(&l.neg().addk(hi)) {
            return true;
        }
        // interval bound from the lengths of existing regions
        let n = st.num.norm(l);
        let mut n2 = st.num.clone();
        for o in st.objs.values() {
            if let Obj::Region(r) = o.as_ref()
                && r.len.konst().is_none()
            {
                let cap = (i64::MAX as i128) / (r.esize.max(1) as i128);
                n2.ge(&r.len.neg().addk(cap));
            }
        }
        n2.must_ge(&n.neg().addk(hi))
    }

    pub fn resolve(&mut self, st: State, p: &Place) -> Flow<Loc> {
        let body = self.body();
        let mut ty = body.locals[p.local];
        let loc = match &st.frames.last().unwrap().locals[p.local] {
            Slot::V(_) => Loc::Local(p.local, vec![]),
            Slot::Boxed(o) => Loc::Mem(Ptr { obj: *o, path: vec![] }),
        };
        let mut cur: Flow<Loc> = vec![(st, loc)];
        for x in &p.proj {
            let mut next = vec![];
            for (st, loc) in cur {
                if matches!(loc, Loc::Bad) {
                    next.push((st, loc));
                    continue;
                }
                match x {
                    Proj::Deref => {
                        for (st, v) in self.load(st, &loc, ty, false) {
                            let pointee = self.p.proj_ty(ty, x);
                            let l = self.deref(&st, &v, pointee);
                            next.push((st, l));
                        }
                    }
                    Proj::Field(i, _) => {
                        let l = match self.p.shape(ty) {
                            Shape::Unit => Loc::Zst,
                            Shape::Trans(k, _) => {
                                if k == *i {
                                    loc
                                } else {
                                    Loc::Zst
                                }
                            }
                            _ => self.loc_field(loc, *i),
                        };
                        next.push((st, l));
                    }
                    Proj::Downcast(_) | Proj::Cast(_) => next.push((st, loc)),
                    Proj::Index(l) => {
                        let Slot::V(v) = &st.frames.last().unwrap().locals[*l] else {
                            let Slot::Boxed(o) = &st.frames.last().unwrap().locals[*l] else { unreachable!() };
                            let Some(Obj::Cell(v)) = st.objs.get(o).map(|x| x.as_ref()) else {
                                next.push((st, Loc::Bad));
                                continue;
                            };
                            let v = v.clone();
                            self.index(st, loc, ty, &v, &mut next);
                            continue;
                        };
                        let v = v.clone();
                        self.index(st, loc, ty, &v, &mut next);
                    }
                    Proj::ConstIndex { offset, from_end } => {
                        let i = if *from_end {
                            match &loc {
                                Loc::MemFat(_, n) => n.addk(-(*offset as i128)),
                                _ => match self.p.shape(ty) {
                                    Shape::Array(_, n) => Lin::c(n as i128 - *offset as i128),
                                    _ => Lin::c(0),
                                },
                            }
                        } else {
                            Lin::c(*offset as i128)
                        };
                        self.index(st, loc, ty, &Val::Int(i), &mut next);
                    }
                    Proj::Subslice { .. } => {
                        self.unknown("subslice pattern");
                        next.push((st, Loc::Bad));
                    }
                }
            }
            ty = self.p.proj_ty(ty, x);
            cur = next;
        }
        cur
    }
    fn loc_field(&mut self, loc: Loc, i: usize) -> Loc {
        match loc {
            Loc::Local(l, mut path) => {
                path.push(i);
                Loc::Local(l, path)
            }
            Loc::Mem(mut p) => {
                p.path.push(PE::F(i));
                Loc::Mem(p)
            }
            l => l,
        }
    }
    fn index(&mut self, st: State, loc: Loc, ty: TyId, v: &Val, out: &mut Flow<Loc>) {
        let Val::Int(i) = v else {
            self.unknown("index is not a number");
            out.push((st, Loc::Bad));
            return;
        };
        match self.p.shape(ty) {
            Shape::Unit => return out.push((st, Loc::Zst)),
            Shape::Trans(0, _) => {
                if !st.num.must_eq(i) {
                    self.bad("C01", "array of one element indexed beyond it");
                }
                return out.push((st, loc));
            }
            _ => {}
        }
        match loc {
            Loc::MemFat(mut p, _) => {
                self.ptr_add(&st, &mut p, i);
                out.push((st, Loc::Mem(p)));
            }
            Loc::Zst => out.push((st, Loc::Zst)),
            loc => {
                // an array value: in a region object, or an aggregate
                for (st, v) in self.load(st, &loc, ty, false) {
                    match v {
                        Val::Arr(o) => out.push((st, Loc::Mem(Ptr { obj: o, path: vec![PE::I(i.clone())] }))),
                        Val::Agg(f) => {
                            let n = f.len();
                            for k in 0..n {
                                for s in st.clone().assume(&B::Eq(i.addk(-(k as i128)))) {
                                    let l = self.loc_field(loc.clone(), k);
                                    out.push((s, l));
                                }
                            }
                        }
                        _ => {
                            self.unknown("indexing an unknown array");
                            out.push((st, Loc::Bad));
                        }
                    }
                }
            }
        }
    }
    /// Moves a pointer to contiguous memory by `n` slots.
    pub fn ptr_add(&mut self, st: &State, p: &mut Ptr, n: &Lin) {
        match p.path.last_mut() {
            Some(PE::I(l)) => *l = st.num.norm(&l.add(n)),
            _ => {
                if n.konst() != Some(0) {
                    p.path.push(PE::I(n.clone()));
                }
            }
        }
    }
    pub fn deref(&mut self, st: &State, v: &Val, pointee: TyId) -> Loc {
        let _ = st;
        match v {
            Val::Ptr(p) => {
                if self.p.ty(pointee).size == Some(0) {
                    return Loc::Zst;
                }
                Loc::Mem(p.clone())
            }
            Val::Fat(p, n) => Loc::MemFat(p.clone(), n.clone()),
            Val::Unit => Loc::Zst,
            Val::Int(_) if self.p.ty(pointee).size == Some(0) => Loc::Zst,
            Val::Int(_) => {
                self.bad("C01", "a null or dangling pointer is dereferenced");
                Loc::Bad
            }
            _ => {
                if self.p.ty(pointee).size == Some(0) {
                    return Loc::Zst;
                }
                if self.dbg { eprintln!("deref {v:?} {}", self.show(st)); }
                self.unknown("dereference of an unknown pointer");
                Loc::Bad
            }
        }
    }
    /// Types fresh heap memory on its first typed use.
    pub fn type_heap(&mut self, st: &mut State, p: &Ptr, t: TyId) {
        let es = self.p.size(t);
        if es == 0 {
            return;
        }
        let el = self.p.is_elem(t);
        let Some(r) = st.region(p.obj) else { return };
        if r.esize != 0 || r.kind != RKind::Heap {
            return;
        }
        let bytes = r.bytes.clone();
        let len = match bytes.exact_div(es as i128) {
            Some(l) => l,
            None => {
                let x = Lin::s(fresh());
                st.num.ge(&x);
                st.num.ge(&bytes.sub(&x.mul(es as i128)));
                st.num.ge(&x.mul(es as i128).addk(es as i128 - 1).sub(&bytes));
                x
            }
        };
        let rec = matches!(self.p.shape(t), Shape::Struct(_)) && !el;
        let r = st.region_mut(p.obj).unwrap();
        r.esize = es;
        r.rec = rec;
        r.elems = el;
        r.len = len.clone();
        r.segs = vec![Seg { hi: len, own: Own::Uninit, val: if el { SVal::Elems } else { SVal::Any }, node: 0 }];
    }

    /// Makes `idx` a boundary; returns the number of segments before it.
    pub fn split_seg(&mut self, st: State, obj: ObjId, idx: &Lin) -> Flow<usize> {
        let mut st = st;
        st.settle_chains(obj);
        let idx = &st.num.norm(idx);
        if idx.konst() == Some(0) {
            return vec![(st, 0)];
        }
        let mut out = vec![];
        let mut i = 0;
        loop {
            let r = st.region(obj).unwrap();
            let n = r.segs.len();
            if i >= n {
                out.push((st, n));
                return out;
            }
            let hi = st.num.norm(&r.segs[i].hi);
            let d = hi.sub(idx);
            if st.num.must_eq(&d) {
                out.push((st, i + 1));
                return out;
            }
            if st.num.must_ge(&d) {
                if matches!(st.region(obj).unwrap().segs[i].val, SVal::Chain(_)) {
                    // borders of a table are kept apart
                    if i == 0 {
                        for s in st.clone().assume(&B::Eq(idx.clone())) {
                            out.push((s, 0));
                        }
                        match st.assume(&B::Ge(idx.addk(-1))).pop() {
                            Some(s) => st = s,
                            None => return out,
                        }
                    }
                    for s in st.clone().assume(&B::Eq(d.clone())) {
                        out.push((s, i + 1));
                    }
                    match st.assume(&B::Ge(d.addk(-1))).pop() {
                        Some(s) => st = s,
                        None => return out,
                    }
                }
                self.cut(&mut st, obj, i, idx);
                out.push((st, i + 1));
                return out;
            }
            if i + 1 == n {
                // beyond the last boundary: the caller has reported it
                out.push((st, n));
                return out;
            }
            if st.num.may_ge(&d) {
                for mut s in st.clone().assume(&B::Ge(d.clone())) {
                    if s.num.must_eq(&d) {
                        out.push((s, i + 1));
                    } else {
                        self.cut(&mut s, obj, i, idx);
                        out.push((s, i + 1));
                    }
                }
                let mut rest = st.assume(&B::Ge(d.neg().addk(-1)));
                match rest.pop() {
                    Some(s) => st = s,
                    None => return out,
                }
            }
            i += 1;
        }
    }
    fn cut(&mut self, st: &mut State, obj: ObjId, i: usize, idx: &Lin) {
        let lo = st.seg_lo(st.region(obj).unwrap(), i);
        let lo = st.num.norm(&lo);
        if lo == *idx {
            // an empty left part: insert it, so that the count is right
        }
        let r = st.region_mut(obj).unwrap();
        let mut left = r.segs[i].clone();
        left.hi = idx.clone();
        if let SVal::Chain(c) = left.val.clone() {
            // the intervals on both sides meet somewhere
            let (mut x, mut y) = (c.clone(), c.clone());
            for k in 0..c.ways.len() {
                let (w, a, b) = &c.ways[k];
                let m = Lin::s(fresh());
                let up = if *w < 4 { 1 } else { -1 };
                st.num.ge(&m.sub(a).mul(up));
                st.num.ge(&b.sub(&m).mul(up));
                x.ways[k].2 = m.clone();
                y.ways[k].1 = m;
            }
            left.val = SVal::Chain(x);
            let r = st.region_mut(obj).unwrap();
            r.segs[i].val = SVal::Chain(y);
            r.segs.insert(i, left);
            return;
        }
        r.segs.insert(i, left);
    }
    /// Checks a range access and isolates it: the segments `a..b` cover exactly `[lo, hi)`.
    pub fn range(&mut self, st: State, obj: ObjId, lo: &Lin, hi: &Lin, what: &str) -> Flow<(usize, usize)> {
        self.ob("C01");
        let Some(r) = st.region(obj) else {
            self.bad("C01", &format!("{what}: not a memory block"));
            return vec![];
        };
        if r.freed {
            self.bad("C01", &format!("{what} after the memory was released"));
            return vec![];
        }
        let len = r.len.clone();
        if r.kind == RKind::View && what != "a read" {
            self.touches += 1;
        }
        let mut st = st;
        if !st.num.must_ge(lo) {
            if self.dbg {
                eprintln!("OOB below {what} lo={:?} {:?}", st.num.norm(lo), st.num);
            }
            self.firm = st.num.min(lo).is_some_and(|m| m >= -64);
            self.bad("C01", &format!("{what} may start before the memory block"));
            let mut v = st.assume(&B::Ge(lo.clone()));
            match v.pop() {
                Some(s) => st = s,
                None => return vec![],
            }
        }
        let d = len.sub(hi);
        if !st.num.must_ge(&d) {
            if self.dbg {
                eprintln!("OOB above {what} hi={:?} len={:?} {:?}", st.num.norm(hi), st.num.norm(&len), st.num);
            }
            self.firm = st.num.min(&d).is_some_and(|m| m >= -64);
            self.bad("C01", &format!("{what} may reach beyond the memory block"));
            let mut v = st.assume(&B::Ge(d));
            match v.pop() {
                Some(s) => st = s,
                None => return vec![],
            }
        }
        let mut out = vec![];
        for (s, a) in self.split_seg(st, obj, lo) {
            let before = s.region(obj).unwrap().segs.len();
            let _ = before;
            for (s2, b) in self.split_seg(s, obj, hi) {
                // splitting at hi >= lo never inserts before a, unless lo == hi at a
                let b = b.max(a);
                out.push((s2, (a, b)));
            }
        }
        out
    }
    /// Isolates one slot; returns its segment.
    pub fn slot(&mut self, st: State, obj: ObjId, idx: &Lin, what: &str) -> Flow<usize> {
        let mut out = vec![];
        for (mut s, (a, b)) in self.range(st, obj, idx, &idx.addk(1), what) {
            // segments known to be empty disappear
            let mut a = a;
            let mut b = b;
            let mut k = a;
            while k < b && b - a > 1 {
                let r = s.region(obj).unwrap();
                let lo = s.seg_lo(r, k);
                let e = r.segs[k].hi.sub(&lo);
                if s.num.must_eq(&e) {
                    s.region_mut(obj).unwrap().segs.remove(k);
                    b -= 1;
                } else {
                    k += 1;
                }
            }
            while b - a > 1 {
                // cannot be: a slot is in one segment; take the first
                b -= 1;
            }
            if b == a {
                self.unknown("slot not found");
                continue;
            }
            let _ = &mut a;
            out.push((s, a));
        }
        out
    }
    /// Merges equal neighbours and drops empty segments.
    pub fn tidy(&mut self, st: &mut State, obj: ObjId, deep: bool) {
        let Some(r) = st.region(obj) else { return };
        if r.segs.len() < 2 {
            return;
        }
        let num = st.num.clone();
        let mut segs: Vec<Seg> = vec![];
        let mut lo = Lin::c(0);
        for s in &r.segs {
            let hi = num.norm(&s.hi);
            let empty = hi == lo || (deep && num.must_eq(&hi.sub(&lo)));
            if empty {
                if let Some(l) = segs.last_mut() {
                    l.hi = hi.clone();
                }
                lo = hi;
                continue;
            }
            match segs.last_mut() {
                Some(l) if l.own == s.own && l.node == s.node && l.val == s.val && !matches!(s.val, SVal::One(_) | SVal::Inc(..) | SVal::Chain(_)) => l.hi = hi.clone(),
                _ => segs.push(Seg { hi: hi.clone(), ..s.clone() }),
            }
            lo = hi;
        }
        if segs.is_empty() {
            segs.push(r.segs[0].clone());
        }
        if segs != r.segs {
            st.region_mut(obj).unwrap().segs = segs;
        }
    }
    fn touch(&mut self, st: &mut State, obj: ObjId, lo: &Lin, hi: &Lin, write: bool) {
        if let Some(l) = &mut st.log {
            Rc::make_mut(l).push(Access { obj, lo: lo.clone(), hi: hi.clone(), write });
        }
    }

    /// Reads a value. Reading an element moves it.
    pub fn load(&mut self, st: State, loc: &Loc, ty: TyId, mv: bool) -> Flow<Val> {
        match loc {
            Loc::Zst => vec![(st, Val::Unit)],
            Loc::Bad => {
                let mut st = st;
                let v = self.fresh_val(&mut st, ty);
                vec![(st, v)]
            }
            Loc::Local(l, path) => {
                let mut st = st;
                let Slot::V(v) = &st.frames.last().unwrap().locals[*l] else { unreachable!() };
                let x = get_path(v, path);
                if let Val::Elem(t) = &x
                    && t.own == Own::Live
                {
                    let dead = set_path(v, path, Val::Elem(Tok { own: Own::Dead, ..t.clone() }));
                    st.frame().locals[*l] = Slot::V(dead);
                } else if mv && has_elem(&x) {
                    let dead = set_path(v, path, Val::Uninit);
                    st.frame().locals[*l] = Slot::V(dead);
                }
                self.finish_load(st, x, ty)
            }
            Loc::MemFat(..) => {
                self.unknown("load of an unsized value");
                vec![(st, Val::Top)]
            }
            Loc::Mem(p) => {
                let mut st = st;
                self.type_heap(&mut st, p, ty);
                match st.objs.get(&p.obj).map(|o| o.as_ref()) {
                    None => {
                        self.bad("C01", "read through a pointer to a variable that is gone");
                        let v = self.fresh_val(&mut st, ty);
                        vec![(st, v)]
                    }
                    Some(Obj::Cell(v)) => {
                        let Some(path) = self.cell_path(&st, p) else {
                            let v = self.fresh_val(&mut st, ty);
                            return vec![(st, v)];
                        };
                        let x = get_path(v, &path);
                        if let Val::Elem(t) = &x
                            && t.own == Own::Live
                        {
                            let dead = set_path(v, &path, Val::Elem(Tok { own: Own::Dead, ..t.clone() }));
                            st.objs.insert(p.obj, Rc::new(Obj::Cell(dead)));
                        }
                        self.finish_load(st, x, ty)
                    }
                    Some(Obj::Region(r)) => {
                        let (idx, rest) = region_path(p);
                        if r.kind != RKind::Local && r.esize != 0 && r.esize != self.p.size(ty) && rest.is_empty() {
                            self.unknown("memory read at a different type");
                            let v = self.fresh_val(&mut st, ty);
                            return vec![(st, v)];
                        }
                        let obj = p.obj;
                        let mut out = vec![];
                        for (mut s, k) in self.slot(st, obj, &idx, "a read") {
                            self.touch(&mut s, obj, &idx, &idx.addk(1), false);
                            let r = s.region(obj).unwrap();
                            let seg = r.segs[k].clone();
                            if r.elems {
                                let own = seg.own;
                                if own == Own::Live {
                                    s.region_mut(obj).unwrap().segs[k].own = Own::Dead;
                                    s.region_mut(obj).unwrap().segs[k].node = 0;
                                }
                                self.tidy(&mut s, obj, false);
                                let key = self.p.shape(self.p.core(ty)) == Shape::Elem(true);
                                out.push((s, Val::Elem(Tok { own, node: seg.node, key })));
                                continue;
                            }
                            if seg.own == Own::Uninit && !self.maybe_uninit_ok(ty) {
                                self.bad("C01", "memory is read before it is written");
                            }
                            if let SVal::Chain(c) = &seg.val {
                                let v = self.chain_slot(&mut s, c);
                                if s.num.bot {
                                    continue;
                                }
                                s.region_mut(obj).unwrap().segs[k].val = SVal::One(v.clone());
                                out.extend(self.finish_load(s, get_path(&v, &rest), ty));
                                continue;
                            }
                            let v = match &seg.val {
                                SVal::One(v) => get_path(v, &rest),
                                SVal::Range(lo, hi) => {
                                    let x = Lin::s(fresh());
                                    s.num.ge(&x.sub(lo));
                                    s.num.ge(&hi.sub(&x).addk(-1));
                                    Val::Int(x)
                                }
                                SVal::Inc(lo, hi) => {
                                    let x = Lin::s(fresh());
                                    let r = s.region(obj).unwrap();
                                    let (a, b) = (s.seg_lo(r, k), r.segs[k].hi.clone());
                                    // the slot is isolated: a = idx, b = idx + 1
                                    let _ = (a, b);
                                    s.num.ge(&x.sub(lo));
                                    s.num.ge(&hi.sub(&x).addk(-1));
                                    Val::Int(x)
                                }
                                _ => self.fresh_val(&mut s, ty),
                            };
                            // remember what was read
                            if rest.is_empty() && !matches!(seg.val, SVal::One(_)) {
                                self.remember(&mut s, obj, k, &v);
                            }
                            self.tidy(&mut s, obj, false);
                            out.extend(self.finish_load(s, v, ty));
                        }
                        out
                    }
                }
            }
        }
    }
    /// The value of a chain of one slot.
    fn chain_slot(&mut self, s: &mut State, c: &Chain) -> Val {
        let (w, a, b) = &c.ways[0];
        let (x, y) = fields_of(*w, a, b);
        for (w, a, b) in &c.ways {
            s.num.ge(&if *w < 4 { b.sub(a) } else { a.sub(b) }.addk(-1));
        }
        for (w, a, b) in &c.ways[1..] {
            let (p, q) = ends(*w, &x, &y);
            s.num.eq0(&p.sub(a));
            s.num.eq0(&q.sub(b));
        }
        s.num.ge(&x);
        s.num.ge(&y);
        let mut f = vec![Val::Top; c.n];
        f[c.i] = Val::Int(x);
        f[c.j] = Val::Int(y);
        Val::agg(f)
    }
    /// A slot of plain data was read as `v`.
    fn remember(&mut self, s: &mut State, obj: ObjId, k: usize, v: &Val) {
        if !matches!(v, Val::Int(_)) {
            return;
        }
        let r = s.region_mut(obj).unwrap();
        if r.base.is_none() && r.segs[k].own == Own::Live && matches!(r.segs[k].val, SVal::Range(..)) {
            r.segs[k].val = SVal::One(v.clone());
            return;
        }
        if let SVal::Inc(lo, hi) = r.segs[k].val.clone() {
            let Val::Int(x) = v else { return };
            r.segs[k].val = SVal::One(v.clone());
            // neighbours cut from the same increasing run are bounded by this value
            if k > 0
                && let SVal::Inc(l, h) = r.segs[k - 1].val.clone()
                && h == hi
                && l == lo
            {
                r.segs[k - 1].val = SVal::Inc(l, x.clone());
            }
            if k + 1 < r.segs.len()
                && let SVal::Inc(l, h) = r.segs[k + 1].val.clone()
                && h == hi
                && l == lo
            {
                r.segs[k + 1].val = SVal::Inc(x.addk(1), h);
            }
        }
    }
    fn maybe_uninit_ok(&self, t: TyId) -> bool {
        self.p.ty(t).name.contains("MaybeUninit")
    }
    pub fn cell_path(&mut self, st: &State, p: &Ptr) -> Option<Vec<usize>> {
        let mut v = vec![];
        for e in &p.path {
            match e {
                PE::F(i) => v.push(*i),
                PE::I(l) => {
                    if !st.num.must_eq(l) {
                        self.bad("C01", "access beyond a variable");
                        return None;
                    }
                }
            }
        }
        Some(v)
    }
    /// Gives unknown values the structure of their type; unknown enums fork.
    pub fn finish_load(&mut self, st: State, v: Val, ty: TyId) -> Flow<Val> {
        let mut st = st;
        match (&v, self.p.shape(ty)) {
            (Val::Top, Shape::Enum(vs)) => {
                let mut out = vec![];
                for (i, (_, f)) in vs.iter().enumerate() {
                    let mut s = st.clone();
                    let fs = f.iter().map(|&t| self.fresh_val(&mut s, t)).collect();
                    out.push((s, Val::Enum(i as u32, Rc::new(fs))));
                }
                out
            }
            (Val::Top, Shape::Thin(_) | Shape::Fat(_) | Shape::Other | Shape::Array(..)) => vec![(st, v)],
            (Val::Top, _) => {
                let x = self.fresh_val(&mut st, ty);
                vec![(st, x)]
            }
            (Val::Uninit, Shape::Unit) => vec![(st, Val::Unit)],
            (Val::Agg(f), Shape::Trans(_, t)) if !matches!(self.p.shape(self.p.core(t)), Shape::Struct(_) | Shape::Array(..)) && f.len() == 1 => {
                let x = f[0].clone();
                self.finish_load(st, x, t)
            }
            _ => vec![(st, v)],
        }
    }

    pub fn store(&mut self, st: State, loc: &Loc, v: Val, ty: TyId) -> Vec<State> {
        let mut st = st;
        match loc {
            Loc::Zst | Loc::Bad => vec![st],
            Loc::Local(l, path) => {
                let Slot::V(old) = &st.frames.last().unwrap().locals[*l] else { unreachable!() };
                let n = set_path(old, path, v);
                st.frame().locals[*l] = Slot::V(n);
                vec![st]
            }
            Loc::MemFat(..) => {
                self.unknown("store of an unsized value");
                vec![st]
            }
            Loc::Mem(p) => {
                self.type_heap(&mut st, p, ty);
                match st.objs.get(&p.obj).map(|o| o.as_ref()) {
                    None => {
                        self.bad("C01", "write through a pointer to a variable that is gone");
                        vec![st]
                    }
                    Some(Obj::Cell(old)) => {
                        let Some(path) = self.cell_path(&st, p) else { return vec![st] };
                        let n = set_path(old, &path, v);
                        st.objs.insert(p.obj, Rc::new(Obj::Cell(n)));
                        vec![st]
                    }
                    Some(Obj::Region(_)) => {
                        let (idx, rest) = region_path(p);
                        let obj = p.obj;
                        let mut out = vec![];
                        for (mut s, k) in self.slot(st, obj, &idx, "a write") {
                            self.touch(&mut s, obj, &idx, &idx.addk(1), true);
                            let r = s.region(obj).unwrap();
                            let old = r.segs[k].clone();
                            let elems = r.elems;
                            let ns = if elems {
                                match &v {
                                    Val::Elem(t) => Seg { own: t.own, node: t.node, val: SVal::Elems, ..old },
                                    _ => {
                                        self.unknown("an element slot receives something else");
                                        Seg { own: Own::Uninit, node: 0, ..old }
                                    }
                                }
                            } else {
                                let nv = if rest.is_empty() {
                                    v.clone()
                                } else {
                                    let base = match &old.val {
                                        SVal::One(v) => v.clone(),
                                        SVal::Chain(c) => self.chain_slot(&mut s, c),
                                        _ => Val::Top,
                                    };
                                    set_path(&base, &rest, v.clone())
                                };
                                let val = self.data_val(&s, obj, nv);
                                Seg { own: Own::Live, node: 0, val, ..old }
                            };
                            s.region_mut(obj).unwrap().segs[k] = ns;
                            self.tidy(&mut s, obj, false);
                            out.push(s);
                        }
                        out
                    }
                }
            }
        }
    }
    /// What to remember of a plain value written to a region.
    fn data_val(&mut self, st: &State, obj: ObjId, v: Val) -> SVal {
        let r = st.region(obj).unwrap();
        let _ = r;
        SVal::One(v)
    }

    /// Moves `n` slots between regions (or cells).
    pub fn copy(&mut self, st: State, src: &Val, dst: &Val, n: &Lin, ty: TyId, overlap_ok: bool) -> Vec<State> {
        let mut st = st;
        if self.p.size(ty) == 0 || n.konst() == Some(0) {
            return vec![st];
        }
        let (Val::Ptr(a), Val::Ptr(b)) = (src, dst) else {
            if st.num.must_eq(n) {
                return vec![st];
            }
            let mut outs = vec![];
            if !matches!((src, dst), (Val::Ptr(_) | Val::Int(_), Val::Ptr(_) | Val::Int(_))) {
                self.unknown("copy through unknown pointers");
            } else if st.num.may_ge(&n.addk(-1)) {
                self.bad("C01", "copy through a null or dangling pointer");
            }
            outs.extend(st.assume(&B::Eq(n.clone())));
            return outs;
        };
        self.type_heap(&mut st, a, ty);
        self.type_heap(&mut st, b, ty);
        let one = st.num.must_eq(&n.addk(-1));
        let areg = st.region(a.obj).is_some();
        let breg = st.region(b.obj).is_some();
        if one || !areg || !breg {
            if !one {
                // a variable holds one value: more than one is beyond it
                let mut out = vec![];
                for s in st.clone().assume(&B::Ge(n.addk(-2))) {
                    self.bad("C01", "copy of several elements from or to a variable");
                    let _ = s;
                }
                for s in st.clone().assume(&B::Eq(n.clone())) {
                    out.push(s);
                }
                for s in st.assume(&B::Eq(n.addk(-1))) {
                    out.extend(self.copy(s, src, dst, &Lin::c(1), ty, overlap_ok));
                }
                return out;
            }
            let mut out = vec![];
            if a.obj == b.obj && areg {
                let (ia, ib) = (region_path(a).0, region_path(b).0);
                let d = ia.sub(&ib);
                if st.num.must_eq(&d) {
                    if !overlap_ok {
                        self.bad("C01", "source and destination of a copy overlap");
                    }
                    return vec![st];
                }
                if st.num.may_eq(&d) {
                    if !overlap_ok {
                        if self.dbg {
                            eprintln!("overlap {:?} {:?}", st.num.norm(&d), st.num);
                        }
                        self.bad("C01", "source and destination of a copy may overlap");
                    }
                    out.extend(st.clone().assume(&B::Eq(d.clone())));
                    for s in st.assume(&B::Ne(d.clone())) {
                        out.extend(self.copy1(s, a, b, ty));
                    }
                    return out;
                }
            }
            return self.copy1(st, a, b, ty);
        }
        // ranges
        let (ia, ib) = (region_path(a).0, region_path(b).0);
        if st.region(a.obj).unwrap().stride.is_some() || st.region(b.obj).unwrap().stride.is_some() {
            self.need_contiguous(&mut st, a.obj, "several elements are copied as if the view were contiguous");
            self.need_contiguous(&mut st, b.obj, "several elements are copied as if the view were contiguous");
        }
        if !st.num.must_ge(n) {
            self.bad("C01", "copy of a negative number of elements");
            let mut v = st.assume(&B::Ge(n.clone()));
            match v.pop() {
                Some(s) => st = s,
                None => return vec![],
            }
        }
        if a.obj == b.obj {
            if !overlap_ok {
                let ok = st.num.must_ge(&ib.sub(&ia).sub(n)) || st.num.must_ge(&ia.sub(&ib).sub(n)) || st.num.must_eq(n);
                if !ok {
                    self.bad("C01", "source and destination of a copy may overlap");
                }
            }
            if st.region(a.obj).unwrap().elems {
                self.unknown("range copy within one block");
                return vec![st];
            }
            return self.shift(st, a.obj, &ia, &ib, n);
        }
        let mut out = vec![];
        for (mut s, (k1, k2)) in self.range(st, a.obj, &ia, &ia.add(n), "the source of a copy") {
            self.touch(&mut s, a.obj, &ia, &ia.add(n), false);
            let r = s.region(a.obj).unwrap();
            let mut parts: Vec<(Lin, Seg)> = vec![];
            for k in k1..k2 {
                parts.push((s.seg_lo(r, k), r.segs[k].clone()));
            }
            let elems = r.elems;
            if elems {
                let r = s.region_mut(a.obj).unwrap();
                for k in k1..k2 {
                    if r.segs[k].own == Own::Live {
                        r.segs[k].own = Own::Dead;
                        r.segs[k].node = 0;
                    }
                }
            }
            self.tidy(&mut s, a.obj, false);
            for (mut s, (k1, k2)) in self.range(s, b.obj, &ib, &ib.add(n), "the destination of a copy") {
                self.touch(&mut s, b.obj, &ib, &ib.add(n), true);
                let mut ns = vec![];
                for (_, seg) in &parts {
                    let hi = s.num.norm(&seg.hi.sub(&ia).add(&ib));
                    ns.push(Seg { hi, ..seg.clone() });
                }
                let r = s.region_mut(b.obj).unwrap();
                r.segs.splice(k1..k2, ns);
                self.tidy(&mut s, b.obj, false);
                out.push(s);
            }
        }
        out
    }
    /// Copies a range of plain data within one block.
    fn shift(&mut self, st: State, obj: ObjId, ia: &Lin, ib: &Lin, n: &Lin) -> Vec<State> {
        let mut out = vec![];
        for (mut s, (k1, k2)) in self.range(st, obj, ia, &ia.add(n), "the source of a copy") {
            self.touch(&mut s, obj, ia, &ia.add(n), false);
            let r = s.region(obj).unwrap();
            let mut parts = vec![];
            for k in k1..k2 {
                let hi = s.num.norm(&r.segs[k].hi.sub(ia).add(ib));
                parts.push(Seg { hi, ..r.segs[k].clone() });
            }
            for (mut s, (k1, k2)) in self.range(s, obj, ib, &ib.add(n), "the destination of a copy") {
                self.touch(&mut s, obj, ib, &ib.add(n), true);
                let r = s.region_mut(obj).unwrap();
                r.segs.splice(k1..k2, parts.clone());
                self.tidy(&mut s, obj, false);
                out.push(s);
            }
        }
        out
    }
    fn copy1(&mut self, st: State, a: &Ptr, b: &Ptr, ty: TyId) -> Vec<State> {
        let mut out = vec![];
        for (s, v) in self.load(st, &Loc::Mem(a.clone()), ty, true) {
            out.extend(self.store(s, &Loc::Mem(b.clone()), v, ty));
        }
        out
    }
    pub fn need_contiguous(&mut self, st: &mut State, obj: ObjId, msg: &str) {
        self.ob("C06");
        if let Some(r) = st.region(obj)
            && let Some(s) = r.stride
            && !st.num.must_eq(&Lin::s(s).addk(-1))
            && !st.num.must_ge(&r.len.neg().addk(1))
        {
            self.bad("C06", msg);
        }
    }
    /// typed_swap_nonoverlapping
    pub fn swap(&mut self, st: State, a: &Val, b: &Val, ty: TyId) -> Vec<State> {
        if self.p.size(ty) == 0 {
            return vec![st];
        }
        let (Val::Ptr(pa), Val::Ptr(pb)) = (a, b) else {
            self.unknown("swap through unknown pointers");
            return vec![st];
        };
        let mut st = st;
        if pa.obj == pb.obj && st.region(pa.obj).is_some_and(|r| r.kind == RKind::View && r.elems) && !st.ghost.is_empty() {
            let mut v = self.swapped(st, &region_path(pa).0, &region_path(pb).0);
            if v.len() != 1 {
                return v.into_iter().flat_map(|s| self.swap_there(s, pa, pb, ty)).collect();
            }
            st = v.pop().unwrap();
        }
        self.swap_there(st, pa, pb, ty)
    }
    fn swap_there(&mut self, st: State, pa: &Ptr, pb: &Ptr, ty: TyId) -> Vec<State> {
        if pa.obj == pb.obj && st.region(pa.obj).is_some() {
            let (ia, ib) = (region_path(pa).0, region_path(pb).0);
            if st.num.may_eq(&ia.sub(&ib)) {
                self.bad("C01", "a value may be swapped with itself through two references");
            }
            // both live and indistinguishable: bounds only
            let mut out = vec![];
            for (s, k) in self.slot(st, pa.obj, &ia, "a swap") {
                let live_a = s.region(pa.obj).unwrap().segs[k].own;
                let na = s.region(pa.obj).unwrap().segs[k].node;
                for (mut s, k) in self.slot(s, pb.obj, &ib, "a swap") {
                    let live_b = s.region(pb.obj).unwrap().segs[k].own;
                    let nb = s.region(pb.obj).unwrap().segs[k].node;
                    self.touch(&mut s, pa.obj, &ia, &ia.addk(1), true);
                    self.touch(&mut s, pb.obj, &ib, &ib.addk(1), true);
                    if live_a == live_b && na == nb && s.region(pa.obj).unwrap().elems {
                        self.tidy(&mut s, pa.obj, false);
                        out.push(s);
                    } else {
                        out.extend(self.swap_slow(s, pa, pb, ty));
                    }
                }
            }
            return out;
        }
        self.swap_slow(st, pa, pb, ty)
    }
    fn swap_slow(&mut self, st: State, pa: &Ptr, pb: &Ptr, ty: TyId) -> Vec<State> {
        let mut out = vec![];
        for (s, va) in self.load(st, &Loc::Mem(pa.clone()), ty, true) {
            for (s, vb) in self.load(s, &Loc::Mem(pb.clone()), ty, true) {
                for s in self.store(s, &Loc::Mem(pa.clone()), vb.clone(), ty) {
                    out.extend(self.store(s, &Loc::Mem(pb.clone()), va.clone(), ty));
                }
            }
        }
        out
    }
}
pub fn has_elem(v: &Val) -> bool {
    match v {
        Val::Elem(t) => t.own == Own::Live,
        Val::Agg(f) | Val::Enum(_, f) => f.iter().any(has_elem),
        _ => false,
    }
}
pub fn region_path(p: &Ptr) -> (Lin, Vec<usize>) {
    let mut rest = vec![];
    let mut idx = Lin::c(0);
    for (i, e) in p.path.iter().enumerate() {
        match e {
            PE::I(l) if i == 0 => idx = l.clone(),
            PE::F(k) => rest.push(*k),
            PE::I(_) => {}
        }
    }
    (idx, rest)
}
