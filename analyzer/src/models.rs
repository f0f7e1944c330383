//! Functions whose effect is given rather than computed.
use crate::interp::*;
use crate::ir::*;
use crate::mem::*;
use crate::num::*;
use crate::state::*;
use crate::types::*;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;

thread_local! {
    static STRIDES: RefCell<BTreeSet<Sym>> = const { RefCell::new(BTreeSet::new()) };
}
pub fn is_stride(s: Sym) -> bool {
    STRIDES.with(|x| x.borrow().contains(&s))
}
pub fn new_stride() -> Sym {
    let s = named("stride");
    STRIDES.with(|x| x.borrow_mut().insert(s));
    s
}
const GHOST: [&str; 7] = ["C10", "C11", "C12", "C13", "C17", "C21", "C22"];
fn ret(st: State, val: Val) -> Vec<Out> {
    vec![Out { exit: Exit::Ret, val, st }]
}
impl<'a> Interp<'a> {
    /// A callback looks at an element: it must still be there.
    pub fn look(&mut self, st: State, v: &Val, what: &str) -> Vec<State> {
        self.ob("C25");
        self.looks += 1;
        match v {
            Val::Ptr(p) => match st.objs.get(&p.obj).map(|o| o.as_ref()) {
                None => {
                    self.bad("C01", &format!("{what} is shown a variable that is gone"));
                    vec![st]
                }
                Some(Obj::Cell(c)) => {
                    let c = c.clone();
                    let Some(path) = self.cell_path(&st, p) else { return vec![st] };
                    match get_path(&c, &path) {
                        Val::Elem(t) => {
                            if t.own != Own::Live {
                                if self.dbg {
                                    eprintln!("look cell {:?} {}", p, self.show(&st));
                                }
                                self.bad("C25", &format!("{what} is shown an element that has been moved away"));
                                if self.fatal("C25") {
                                    return vec![];
                                }
                            }
                        }
                        _ => self.unknown(&format!("{what} is shown something that is not an element")),
                    }
                    vec![st]
                }
                Some(Obj::Region(r)) => {
                    if !r.elems {
                        self.unknown(&format!("{what} is shown something that is not an element"));
                        return vec![st];
                    }
                    let (idx, _) = region_path(p);
                    let obj = p.obj;
                    let mut out = vec![];
                    for (mut s, k) in self.slot(st, obj, &idx, "a callback's argument") {
                        let own = s.region(obj).unwrap().segs[k].own;
                        if own != Own::Live {
                            if self.dbg {
                                eprintln!("look {:?} {:?} {}", own, s.num.norm(&idx), self.show(&s));
                            }
                            self.bad("C25", &format!("{what} is shown {}", if own == Own::Dead { "an element that has been moved away" } else { "memory that holds no element" }));
                            if self.fatal("C25") {
                                continue;
                            }
                        }
                        if let Some(l) = &mut s.log {
                            Rc::make_mut(l).push(Access { obj, lo: idx.clone(), hi: idx.addk(1), write: false });
                        }
                        self.tidy(&mut s, obj, false);
                        out.push(s);
                    }
                    out
                }
            },
            // zero-sized elements, foreign elements
            _ => vec![st],
        }
    }
    /// A callback whose answers follow from the order of elements 1 and 2.
    fn fixed(&mut self, st: State, o: i32, name: &str, args: &[Val]) -> Vec<Out> {
        let ids: Vec<u32> = args
            .iter()
            .map(|a| match a {
                Val::Ptr(p) => match (st.objs.get(&p.obj).map(|o| o.as_ref()), self.cell_path(&st, p)) {
                    (Some(Obj::Cell(c)), Some(path)) => match get_path(c, &path) {
                        Val::Elem(t) => t.node as u32,
                        _ => 0,
                    },
                    _ => 0,
                },
                _ => 0,
            })
            .collect();
        let rel = match ids.as_slice() {
            [1, 2] => Some(o),
            [2, 1] => Some(-o),
            [1, 1] | [2, 2] => Some(0),
            _ => None,
        };
        let val = match (self.p.shape(self.ret_ty), rel) {
            (Shape::Elem(key), _) => Val::Elem(Tok { own: Own::Live, node: ids.first().copied().unwrap_or(0) as _, key }),
            (Shape::Bool, Some(r)) if name.contains("eq") => Val::bool(r == 0),
            (Shape::Enum(vs), Some(r)) if vs.len() == 3 => Val::Enum((r + 1) as u32, Rc::new(vec![])),
            (Shape::Enum(vs), Some(r)) if vs.len() == 2 => Val::Enum(1, Rc::new(vec![Val::Enum((r + 1) as u32, Rc::new(vec![]))])),
            _ => {
                self.unknown("a callback is asked about something else");
                return vec![];
            }
        };
        ret(st, val)
    }
    fn callback(&mut self, st: State, name: &str, args: &[Val]) -> Vec<Out> {
        if let Some(o) = self.opts.fix {
            return self.fixed(st, o, name, args);
        }
        let mut cur = vec![st];
        for a in args {
            let mut next = vec![];
            for s in cur {
                if matches!(a, Val::Ptr(_)) {
                    next.extend(self.look(s, a, "a callback"));
                } else {
                    next.push(s);
                }
            }
            cur = next;
        }
        let mut out = vec![];
        for s in cur {
            // the callback may panic
            out.push(Out { exit: Exit::Cb, val: Val::Unit, st: s.clone() });
            let ret_ty = self.ret_ty;
            match self.p.shape(ret_ty) {
                Shape::Bool => {
                    for b in [false, true] {
                        let mut s = s.clone();
                        self.user_result(&mut s, name, args, b as i32);
                        out.push(Out { exit: Exit::Ret, val: Val::bool(b), st: s });
                    }
                }
                Shape::Enum(vs) if vs.len() == 3 => {
                    for k in 0..3u32 {
                        let mut s = s.clone();
                        self.user_result(&mut s, name, args, k as i32 - 1);
                        out.push(Out { exit: Exit::Ret, val: Val::Enum(k, Rc::new(vec![])), st: s });
                    }
                }
                Shape::Enum(vs) if vs.len() == 2 => {
                    // Option<Ordering>
                    let mut n = s.clone();
                    self.user_result(&mut n, name, args, 2);
                    out.push(Out { exit: Exit::Ret, val: Val::Enum(0, Rc::new(vec![])), st: n });
                    for k in 0..3u32 {
                        let mut s = s.clone();
                        self.user_result(&mut s, name, args, k as i32 - 1);
                        out.push(Out { exit: Exit::Ret, val: Val::Enum(1, Rc::new(vec![Val::Enum(k, Rc::new(vec![]))])), st: s });
                    }
                }
                Shape::Elem(key) => {
                    out.push(Out { exit: Exit::Ret, val: Val::Elem(Tok { own: Own::Live, node: 0, key }), st: s });
                }
                Shape::Unit => out.push(Out { exit: Exit::Ret, val: Val::Unit, st: s }),
                _ => {
                    let mut s = s;
                    let v = self.fresh_val(&mut s, ret_ty);
                    out.push(Out { exit: Exit::Ret, val: v, st: s });
                }
            }
        }
        out
    }
    /// The analyser's own numbers and the assertions over them (harness/src/ghost.rs).
    fn ghost(&mut self, st: State, name: &str, args: &[Val]) -> Option<Vec<Out>> {
        let mut st = st;
        let k = match &args[0] {
            Val::Int(l) => st.num.konst(l),
            _ => None,
        };
        match name {
            "ghost_set" => {
                let (k, x) = (k? as usize, self.as_int(&mut st, &args[1], self.p.usize_ty));
                while st.ghost.len() <= k {
                    st.ghost.push(Lin::c(0));
                }
                st.ghost[k] = x;
                Some(ret(st, Val::Unit))
            }
            "ghost_get" => {
                let x = st.ghost.get(k? as usize)?.clone();
                Some(ret(st, Val::Int(x)))
            }
            "ghost_index" => {
                let x = match &args[0] {
                    Val::Ptr(p) if st.region(p.obj).is_some_and(|r| r.kind == RKind::View) => {
                        let x = region_path(p).0;
                        st.num.ge(&x.neg().addk(i64::MAX as i128 - 1));
                        x
                    }
                    Val::Ptr(p) if st.region(p.obj).is_none() => Lin::c(u64::MAX as i128),
                    _ => self.fresh_int(&mut st, false, 64),
                };
                Some(ret(st, Val::Int(x)))
            }
            "ghost_check" => {
                let prop = format!("C{:02}", k?);
                let prop: &'static str = GHOST.iter().find(|x| **x == prop)?;
                self.ob(prop);
                let Val::Bool(b) = &args[1] else { return None };
                let no = st.clone().assume(&b.not());
                if no.iter().any(|s| !s.num.bot) {
                    if self.dbg {
                        eprintln!("GHOST {:?} {}", b, self.show(&st));
                    }
                    self.bad(prop, "the contract of the operation may be broken here");
                }
                let mut out = vec![];
                for s in st.assume(b) {
                    out.extend(ret(s, Val::Unit));
                }
                Some(out)
            }
            _ => None,
        }
    }
    /// Two elements of the view change places.
    pub fn swapped(&mut self, st: State, i: &Lin, j: &Lin) -> Vec<State> {
        if st.ghost.is_empty() {
            return vec![st];
        }
        let Some(h) = self.p.names.iter().position(|n| n.ends_with("::ghost_on_swap")) else { return vec![st] };
        let outs = self.call(st, h, vec![Val::Int(i.clone()), Val::Int(j.clone())]);
        outs.into_iter().filter(|o| o.exit == Exit::Ret).map(|o| o.st).collect()
    }
    fn user_result(&mut self, st: &mut State, name: &str, args: &[Val], r: i32) {
        crate::ghost::result(self, st, name, args, r);
    }
    pub fn model(&mut self, st0: &State, fid: FnId, args: &[Val]) -> Option<Vec<Out>> {
        let f = &self.p.p.funcs[fid];
        let path = f.path.as_str();
        if f.krate == "ndarray" && path.contains("::for_each_core") {
            // walks several views by layout flags
            self.unknown("ndarray's Zip");
            return Some(vec![]);
        }
        if f.krate == "harness" {
            if path.contains("user_drop") {
                let mut out = vec![];
                let st = st0.clone();
                match &args[0] {
                    Val::Ptr(p) => {
                        let loc = Loc::Mem(p.clone());
                        let mut key = true;
                        if let Some(Obj::Region(r)) = st.objs.get(&p.obj).map(|o| o.as_ref()) {
                            key = !r.elems;
                        }
                        if let Some(Obj::Cell(_)) = st.objs.get(&p.obj).map(|o| o.as_ref()) {
                            let elem = self.p.usize_ty;
                            for (s, v) in self.load(st, &loc, elem, true) {
                                match v {
                                    Val::Elem(t) => {
                                        if t.own != Own::Live {
                                            self.bad("C03", "an element that has been moved away is dropped");
                                        } else if !t.key {
                                            self.bad("C03", "an element of the view is dropped");
                                        }
                                    }
                                    _ => self.unknown("drop of something unknown"),
                                }
                                if s.unw.is_empty() {
                                    // (a key whose destructor panics during a panic aborts in any code)
                                    out.push(Out { exit: Exit::Cb, val: Val::Unit, st: s.clone() });
                                }
                                out.push(Out { exit: Exit::Ret, val: Val::Unit, st: s });
                            }
                            return Some(out);
                        }
                        if !key {
                            self.bad("C03", "an element of the view is dropped");
                        }
                        out.push(Out { exit: Exit::Ret, val: Val::Unit, st });
                        return Some(out);
                    }
                    _ => return Some(ret(st, Val::Unit)),
                }
            }
            if f.body.is_none() && path.contains("ghost_") {
                return self.ghost(st0.clone(), path.rsplit("::").next().unwrap(), args);
            }
            if f.body.is_none() && path.contains("user_") {
                let name = path.rsplit("::").next().unwrap().to_string();
                return Some(self.callback(st0.clone(), &name, args));
            }
        }
        if !st0.ghost.is_empty()
            && matches!(path, "core::ptr::swap" | "std::ptr::swap")
            && let (Val::Ptr(a), Val::Ptr(b)) = (&args[0], &args[1])
            && a.obj == b.obj
            && st0.region(a.obj).is_some_and(|r| r.kind == RKind::View && r.elems)
        {
            let mut out = vec![];
            for s in self.swapped(st0.clone(), &region_path(a).0, &region_path(b).0) {
                out.extend(self.inline(s, fid, args.to_vec()));
            }
            return Some(out);
        }
        if let Some(i) = path.strip_prefix("std::intrinsics::").or(path.strip_prefix("core::intrinsics::")) {
            return self.intrinsic(st0, i, f, args);
        }
        if path.starts_with("core::panicking::") || path.starts_with("std::rt::begin_panic") || path.ends_with("unwrap_failed") || path.ends_with("unwrap_failed_inner") || path.ends_with("slice_index_fail") || path.ends_with("assert_failed") && f.body.is_none() {
            let what = path.rsplit("::").next().unwrap().to_string();
            if path.contains("nounwind") {
                self.bad("C04", "a check inside the standard library aborts the program");
                return Some(vec![]);
            }
            let e = self.panic_site(&what);
            if self.dbg {
                eprintln!("   AT {}", self.show(st0));
            }
            return Some(vec![Out { exit: e, val: Val::Unit, st: st0.clone() }]);
        }
        if path.starts_with("core::fmt::") || path.starts_with("std::fmt::") || path.starts_with("alloc::fmt::") {
            return Some(ret(st0.clone(), Val::Top));
        }
        match path {
            "core::num::<impl usize>::next_power_of_two" => {
                let mut st = st0.clone();
                let x = self.as_int(&mut st, &args[0], self.p.usize_ty);
                let p = Lin::s(fresh());
                st.num.ge(&p.addk(-1));
                st.num.ge(&p.sub(&x));
                let mut out = vec![];
                for mut s in st.clone().assume(&B::Ge(x.addk(-1))) {
                    s.num.ge(&x.mul(2).sub(&p).addk(-1));
                    out.extend(ret(s, Val::Int(p.clone())));
                }
                for s in st.assume(&B::Ge(x.neg())) {
                    out.extend(ret(s, Val::int(1)));
                }
                return Some(out);
            }
            // an array on its way out: the next position, then the elements
            "core::array::iter::<impl core::iter::IntoIterator for [T; N]>::into_iter" => {
                let at = f.sig[0];
                let TyKind::Array(_, n) = self.p.ty(at).kind else { return None };
                let mut vs = vec![Val::int(0)];
                match (&args[0], self.p.shape(at)) {
                    (v, Shape::Trans(..)) if n == 1 => vs.push(v.clone()),
                    (Val::Agg(x), Shape::Array(..)) if x.len() == n as usize => vs.extend(x.iter().cloned()),
                    (Val::Unit, _) if n <= 16 => vs.extend((0..n).map(|_| Val::Unit)),
                    _ => return None,
                }
                return Some(ret(st0.clone(), Val::agg(vs)));
            }
            "<core::array::IntoIter<T, N> as core::iter::Iterator>::next" => {
                let mut st = st0.clone();
                let Val::Ptr(p) = &args[0] else { return None };
                let Some(Obj::Cell(Val::Agg(vs))) = st.objs.get(&p.obj).filter(|_| p.path.is_empty()).map(|x| x.as_ref()) else { return None };
                let Val::Int(k) = &vs[0] else { return None };
                let k = st.num.konst(k)? as usize;
                let mut v2 = vs.as_ref().clone();
                let val = if k + 1 < v2.len() {
                    v2[0] = Val::int(k as i128 + 1);
                    Val::Enum(1, Rc::new(vec![std::mem::replace(&mut v2[k + 1], Val::Uninit)]))
                } else {
                    Val::Enum(0, Rc::new(vec![]))
                };
                let o = p.obj;
                st.objs.insert(o, Rc::new(Obj::Cell(Val::agg(v2))));
                return Some(ret(st, val));
            }
            "<core::array::IntoIter<T, N> as core::ops::Drop>::drop" => return Some(ret(st0.clone(), Val::Unit)),
            "stacker::maybe_grow" => {
                let (cty, cf) = *f.callbacks.first()?;
                let _ = cty;
                return Some(self.call(st0.clone(), cf, vec![args[2].clone()]));
            }
            "std::alloc::Layout::array" | "core::alloc::Layout::array" => {
                let t = f.args[0];
                let (es, al) = (self.p.size(t) as i128, self.p.ty(t).align as i128);
                let mut st = st0.clone();
                let n = self.as_int(&mut st, &args[0], self.p.usize_ty);
                let bytes = n.mul(es);
                let max = i64::MAX as i128 + 1 - al;
                let mut out = vec![];
                if !self.below(&st, &bytes, max) {
                    for s in st.clone().assume(&B::Ge(bytes.addk(-max - 1))) {
                        out.extend(ret(s, Val::Enum(1, Rc::new(vec![Val::Unit]))));
                    }
                }
                for s in st.assume(&B::Ge(bytes.neg().addk(max))) {
                    out.extend(ret(s, Val::Enum(0, Rc::new(vec![Val::agg(vec![Val::Int(bytes.clone()), Val::int(al)])]))));
                }
                return Some(out);
            }
            "alloc::raw_vec::RawVecInner::<A>::with_capacity_in" => {
                let (es, al) = Self::layout(&args[2])?;
                let mut st = st0.clone();
                let cap = self.as_int(&mut st, &args[0], self.p.usize_ty);
                let empty = Val::agg(vec![Val::int(al), Val::int(0), Val::Unit]);
                if es == 0 {
                    return Some(ret(st, empty));
                }
                let mut out = vec![];
                for s in st.clone().assume(&B::Ge(cap.addk(-1))) {
                    for mut o in self.alloc(s, &Val::Int(cap.mul(es)), &Val::int(al)) {
                        if matches!(o.val, Val::Ptr(_)) {
                            o.val = Val::agg(vec![o.val, Val::Int(cap.clone()), Val::Unit]);
                            out.push(o);
                        }
                    }
                }
                for s in st.assume(&B::Ge(cap.neg())) {
                    out.extend(ret(s, empty.clone()));
                }
                return Some(out);
            }
            "alloc::raw_vec::RawVecInner::<A>::deallocate" => {
                let (es, al) = Self::layout(&args[1])?;
                let mut out = vec![];
                for (mut s, v) in self.rawvec(st0, &args[0])? {
                    let Val::Agg(vs) = &v else { return None };
                    let cap = self.as_int(&mut s, &vs[1], self.p.usize_ty);
                    if es == 0 || !matches!(vs[0], Val::Ptr(_)) {
                        out.extend(ret(s, Val::Unit));
                        continue;
                    }
                    for s in s.clone().assume(&B::Ge(cap.addk(-1))) {
                        out.extend(self.dealloc(s, &vs[0], &Val::Int(cap.mul(es)), &Val::int(al)));
                    }
                    for s in s.assume(&B::Ge(cap.neg())) {
                        out.extend(ret(s, Val::Unit));
                    }
                }
                return Some(out);
            }
            "alloc::raw_vec::RawVecInner::<A>::reserve_exact" | "alloc::raw_vec::RawVecInner::<A>::reserve::do_reserve_and_handle" => {
                let (es, al) = Self::layout(&args[3])?;
                let mut st = st0.clone();
                let len = self.as_int(&mut st, &args[1], self.p.usize_ty);
                let need = len.add(&self.as_int(&mut st, &args[2], self.p.usize_ty));
                return self.vec_grow(&st, &args[0], es, al, Some(need));
            }
            "alloc::raw_vec::RawVec::<T, A>::grow_one" => {
                let t = f.args[0];
                return self.vec_grow(st0, &args[0], self.p.size(t) as i128, self.p.ty(t).align as i128, None);
            }
            // sorting of plain data by the standard library or by rayon: any order, and the comparison may panic
            "core::slice::sort::unstable::sort" | "rayon::slice::ParallelSliceMut::par_sort_unstable" => {
                let Val::Fat(p, _) = &args[0] else { return None };
                let mut st = st0.clone();
                let r = st.region(p.obj)?;
                if r.elems || r.kind == RKind::View {
                    return None;
                }
                let r = st.region_mut(p.obj)?;
                for s in r.segs.iter_mut().filter(|s| s.own == Own::Live) {
                    s.val = SVal::Any;
                }
                let mut out = vec![Out { exit: Exit::Cb, val: Val::Unit, st: st.clone() }];
                out.extend(ret(st, Val::Unit));
                return Some(out);
            }
            // the items of a sequential iterator, mapped by whichever thread, in any order
            "<T as rayon::iter::par_bridge::ParallelBridge>::par_bridge" => return Some(ret(st0.clone(), args[0].clone())),
            "ndarray_slice::ndarray::parallel::prelude::ParallelIterator::map" | "rayon::iter::ParallelIterator::map" => {
                return Some(ret(st0.clone(), Val::agg(args.to_vec())));
            }
            "ndarray_slice::ndarray::parallel::prelude::ParallelIterator::collect" | "rayon::iter::ParallelIterator::collect" => return self.par_collect(st0, f, args),
            "rayon_core::join::join" => return self.rayon_join(st0, f, args),
            "alloc::alloc::__rust_no_alloc_shim_is_unstable_v2" => return Some(ret(st0.clone(), Val::Unit)),
            "alloc::alloc::__rust_alloc" => return Some(self.alloc(st0.clone(), &args[0], &args[1])),
            "alloc::alloc::__rust_dealloc" => return Some(self.dealloc(st0.clone(), &args[0], &args[1], &args[2])),
            _ => {}
        }
        let n = &self.p.names[fid];
        if n.ends_with("max_abs_offset_check_overflow") && n.contains("ndarray") {
            // the view exists, so its extent does not overflow
            let mut st = st0.clone();
            let x = self.fresh_int(&mut st, false, 64);
            st.num.ge(&x.neg().addk(i64::MAX as i128));
            return Some(ret(st, Val::Enum(0, Rc::new(vec![Val::Int(x)]))));
        }
        if n.contains("ndarray") {
            if n.ends_with("dimension::do_slice") {
                return self.do_slice(st0, args);
            }
            if n.contains("impl_raw_views") && n.ends_with("split_at") {
                return self.split_at(st0, args);
            }
        }
        if n.ends_with("::is_aligned") && f.krate != "ndarray_slice" {
            return Some(ret(st0.clone(), Val::bool(true)));
        }
        None
    }
    /// ndarray's slicing of one axis with step 1 and bounds counted from the front.
    fn do_slice(&mut self, st0: &State, args: &[Val]) -> Option<Vec<Out>> {
        let (Val::Ptr(pd), Val::Ptr(ps), Val::Agg(sl)) = (&args[0], &args[1], &args[2]) else { return None };
        let (Val::Int(start), Val::Enum(has_end, e), Val::Int(step)) = (&sl[0], &sl[1], &sl[2]) else { return None };
        if st0.num.konst(step) != Some(1) || !st0.num.must_ge(start) {
            return None;
        }
        let u = self.p.usize_ty;
        let mut d = self.load(st0.clone(), &Loc::Mem(pd.clone()), u, false);
        let (st, Val::Int(dim)) = d.pop()? else { return None };
        if !d.is_empty() {
            return None;
        }
        let mut d = self.load(st, &Loc::Mem(ps.clone()), u, false);
        let (st, stride) = d.pop()?;
        let k = match &stride {
            Val::Int(l) if l.single().is_some_and(is_stride) => l.single().unwrap(),
            _ => return None,
        };
        let end = if *has_end == 1 {
            let Val::Int(e) = &e[0] else { return None };
            if !st.num.must_ge(e) {
                return None;
            }
            e.clone()
        } else {
            dim.clone()
        };
        let mut out = vec![];
        for (s, fwd) in st.split(&B::Ge(end.sub(start))) {
            let end = if fwd { end.clone() } else { start.clone() };
            for (s, ok) in s.split(&B::Ge(dim.sub(&end))) {
                if !ok {
                    let e = self.panic_site("slice bounds");
                    out.push(Out { exit: e, val: Val::Unit, st: s });
                    continue;
                }
                for s in self.store(s, &Loc::Mem(pd.clone()), Val::Int(end.sub(start)), u) {
                    out.push(Out { exit: Exit::Ret, val: Val::Scaled(start.clone(), k), st: s });
                }
            }
        }
        Some(out)
    }
    fn split_at(&mut self, st0: &State, args: &[Val]) -> Option<Vec<Out>> {
        let Val::Agg(f) = &args[0] else { return None };
        let (Val::Ptr(p), Val::Int(n), Val::Int(s)) = (&f[1], &f[2], &f[3]) else { return None };
        let Val::Int(i) = &args[2] else { return None };
        if !s.single().is_some_and(is_stride) {
            return None;
        }
        let mut out = vec![];
        for (mut st, ok) in st0.clone().split(&B::Ge(n.sub(i))) {
            if !ok {
                let e = self.panic_site("split point");
                out.push(Out { exit: e, val: Val::Unit, st });
                continue;
            }
            let ty = self.p.usize_ty;
            let q = self.offset(&mut st, &Val::Ptr(p.clone()), &Val::Scaled(i.clone(), s.single().unwrap()), ty);
            let left = Val::agg(vec![Val::Unit, f[1].clone(), Val::Int(i.clone()), f[3].clone()]);
            let right = Val::agg(vec![Val::Unit, q, Val::Int(n.sub(i)), f[3].clone()]);
            out.extend(ret(st, Val::agg(vec![left, right])));
        }
        Some(out)
    }
    fn alloc(&mut self, st: State, size: &Val, align: &Val) -> Vec<Out> {
        let (Val::Int(size), Val::Int(align)) = (size, align) else {
            self.unknown("allocation of unknown size");
            return vec![];
        };
        let mut out = vec![];
        if !st.num.must_ge(&size.addk(-1)) {
            self.bad("C19", "an allocation of no bytes");
        }
        let mut none = st.clone();
        none.oom = true;
        out.extend(ret(none, Val::int(0)));
        let mut s = st;
        // no address space holds more
        s.num.ge(&size.neg().addk(1 << 57));
        let a = fresh();
        s.num.ge(&Lin::s(a).addk(-1));
        let r = Region {
            kind: RKind::Heap,
            len: size.clone(),
            esize: 0,
            elems: false,
            stride: None,
            addr: a,
            bytes: size.clone(),
            align: align.clone(),
            freed: false,
            segs: vec![Seg { hi: size.clone(), own: Own::Uninit, val: SVal::Any, node: 0 }],
            base: None,
            rec: false,
        };
        let o = s.new_obj(Obj::Region(r));
        out.extend(ret(s, Val::Ptr(Ptr { obj: o, path: vec![PE::I(Lin::c(0))] })));
        out
    }
    fn dealloc(&mut self, st: State, p: &Val, size: &Val, align: &Val) -> Vec<Out> {
        self.ob("C19");
        let Val::Ptr(p) = p else {
            self.bad("C19", "memory that was not allocated is released");
            return ret(st, Val::Unit);
        };
        let mut st = st;
        let (idx, rest) = region_path(p);
        let Some(r) = st.region(p.obj) else {
            self.bad("C19", "a variable is released as heap memory");
            return ret(st, Val::Unit);
        };
        if r.kind != RKind::Heap {
            self.bad("C19", "memory that was not allocated is released");
            return ret(st, Val::Unit);
        }
        if r.freed {
            self.bad("C19", "scratch memory is released twice");
        }
        if !st.num.must_eq(&idx) || !rest.is_empty() {
            self.bad("C19", "scratch memory is released through a pointer that is not its start");
        }
        let (Val::Int(s), Val::Int(a)) = (size, align) else {
            self.unknown("release of unknown size");
            return ret(st, Val::Unit);
        };
        if !st.num.must_eq(&s.sub(&r.bytes)) || !st.num.must_eq(&a.sub(&r.align)) {
            if self.dbg {
                eprintln!("dealloc {:?} vs {:?}: {:?}", s, r.bytes, st.num);
            }
            self.bad("C19", "scratch memory is released with another size or alignment than it was allocated with");
        }
        let r = st.region_mut(p.obj).unwrap();
        r.freed = true;
        r.segs = vec![Seg { hi: r.len.clone(), own: Own::Uninit, val: if r.elems { SVal::Elems } else { SVal::Any }, node: 0 }];
        ret(st, Val::Unit)
    }
    /// Size and alignment of a `Layout` known at compile time.
    fn layout(v: &Val) -> Option<(i128, i128)> {
        let Val::Agg(l) = v else { return None };
        let k = |v: &Val| match v {
            Val::Int(x) => x.konst(),
            Val::Enum(k, _) => Some(1i128 << k),
            _ => None,
        };
        Some((k(&l[0])?, k(&l[1])?))
    }
    fn rawvec_ty(&self) -> Option<TyId> {
        self.p.p.types.iter().position(|t| t.name == "alloc::raw_vec::RawVecInner").map(|x| x as TyId)
    }
    fn rawvec(&mut self, st: &State, p: &Val) -> Option<Vec<(State, Val)>> {
        let t = self.rawvec_ty()?;
        let Val::Ptr(p) = p else { return None };
        Some(self.load(st.clone(), &Loc::Mem(p.clone()), t, false))
    }
    /// A vector's buffer becomes large enough for `need` elements, or for one more.
    fn vec_grow(&mut self, st0: &State, p: &Val, es: i128, al: i128, need: Option<Lin>) -> Option<Vec<Out>> {
        let pointee = self.rawvec_ty()?;
        let mut out = vec![];
        for (mut s, v) in self.rawvec(st0, p)? {
            let Val::Agg(vs) = &v else { return None };
            let cap = self.as_int(&mut s, &vs[1], self.p.usize_ty);
            let need = match &need {
                Some(n) => {
                    for s in s.clone().assume(&B::Ge(cap.sub(n))) {
                        out.extend(ret(s, Val::Unit));
                    }
                    n.clone()
                }
                None => cap.addk(1),
            };
            if es == 0 {
                continue;
            }
            for mut s in s.assume(&B::Ge(need.sub(&cap).addk(-1))) {
                let c = Lin::s(fresh());
                s.num.ge(&c.sub(&need));
                s.num.ge(&c.mul(-es).addk(1 << 57));
                let old = match &vs[0] {
                    Val::Ptr(q) => s.region(q.obj).cloned().map(|r| (q.obj, r)),
                    _ => None,
                };
                for o in self.alloc(s, &Val::Int(c.mul(es)), &Val::int(al)) {
                    let (Val::Ptr(q), mut s) = (o.val.clone(), o.st) else { continue };
                    if let Some((oo, r)) = &old
                        && r.esize as i128 == es
                    {
                        let n = s.region_mut(q.obj).unwrap();
                        n.esize = r.esize;
                        n.elems = r.elems;
                        n.rec = r.rec;
                        n.len = c.clone();
                        let mut segs = r.segs.clone();
                        segs.push(Seg { hi: c.clone(), own: Own::Uninit, val: if r.elems { SVal::Elems } else { SVal::Any }, node: 0 });
                        n.segs = segs;
                        let x = s.region_mut(*oo).unwrap();
                        x.freed = true;
                        x.segs = vec![Seg { hi: x.len.clone(), own: Own::Uninit, val: if x.elems { SVal::Elems } else { SVal::Any }, node: 0 }];
                    }
                    let Val::Ptr(me) = p else { return None };
                    let v = Val::agg(vec![Val::Ptr(q), Val::Int(c.clone()), Val::Unit]);
                    for s in self.store(s, &Loc::Mem(me.clone()), v, pointee) {
                        out.extend(ret(s, Val::Unit));
                    }
                }
            }
        }
        Some(out)
    }
    /// `iter.enumerate().par_bridge().map(op).collect::<Vec<_>>()` over a view: one call for an arbitrary item.
    fn par_collect(&mut self, st0: &State, f: &Func, args: &[Val]) -> Option<Vec<Out>> {
        let TyKind::Adt { args: ta, .. } = &self.p.ty(f.args[0]).kind else { return None };
        let op = f.callbacks.iter().find(|c| ta.get(1) == Some(&c.0))?.1;
        let TyKind::Adt { path, args: va, .. } = &self.p.ty(*f.args.get(1)?).kind else { return None };
        if path != "std::vec::Vec" {
            return None;
        }
        let it = va[0];
        let Val::Agg(m) = &args[0] else { return None };
        let (Val::Agg(en), clo) = (&m[0], &m[1]) else { return None };
        let mut v = en.first()?;
        if !matches!(en.get(1), Some(Val::Int(c)) if st0.num.must_eq(c)) || en.len() != 2 {
            return None;
        }
        while let Val::Agg(x) = v
            && x.len() == 1
        {
            v = &x[0];
        }
        let Val::Enum(k, b) = v else { return None };
        let b = match b.first()? {
            Val::Agg(b) => b.clone(),
            _ => b.clone(),
        };
        let Val::Ptr(p) = b.first()? else { return None };
        let n = match (k, b.get(1)?) {
            // of a contiguous view
            (0, Val::Ptr(q)) if p.obj == q.obj => match (p.path.as_slice(), q.path.as_slice()) {
                ([PE::I(x)], [PE::I(y)]) => y.sub(x),
                _ => return None,
            },
            (1, Val::Int(n)) => {
                let (s, Val::Enum(1, start)) = (b.get(2)?, b.get(3)?) else { return None };
                if !matches!(start.first()?, Val::Int(i) if st0.num.must_eq(i)) || !matches!((s, st0.region(p.obj)?.stride), (Val::Int(s), Some(t)) if s.single() == Some(t)) {
                    return None;
                }
                n.clone()
            }
            _ => return None,
        };
        let [PE::I(at)] = p.path.as_slice() else { return None };
        let mut out = vec![];
        let mut st = st0.clone();
        let i = Lin::s(fresh());
        st.num.ge(&i);
        st.num.ge(&n.sub(&i).addk(-1));
        let e = Val::Ptr(Ptr { obj: p.obj, path: vec![PE::I(at.add(&i))] });
        for o in self.call(st, op, vec![clo.clone(), Val::agg(vec![Val::Int(i), e])]) {
            let (es, al) = (self.p.size(it) as i128, self.p.ty(it).align as i128);
            if o.exit != Exit::Ret {
                out.push(Out { exit: o.exit, val: Val::Unit, st: o.st });
                continue;
            }
            if es == 0 {
                return None;
            }
            for o in self.alloc(o.st, &Val::Int(n.mul(es)), &Val::int(al)) {
                let Val::Ptr(q) = o.val else { continue };
                let mut st = o.st;
                self.type_heap(&mut st, &q, it);
                let r = st.region_mut(q.obj)?;
                r.segs = vec![Seg { hi: n.clone(), own: Own::Live, val: SVal::Any, node: 0 }];
                out.extend(ret(st, Val::agg(vec![Val::agg(vec![Val::Ptr(q), Val::Int(n.clone()), Val::Unit]), Val::Int(n.clone())])));
            }
        }
        Some(out)
    }
    fn rayon_join(&mut self, st0: &State, f: &Func, args: &[Val]) -> Option<Vec<Out>> {
        let rty = self.ret_ty;
        let of = |t: TyId| f.callbacks.iter().find(|c| c.0 == t).map(|c| c.1);
        let (a, b) = (of(*f.args.first()?)?, of(*f.args.get(1)?)?);
        let mut st = st0.clone();
        let outer = st.log.take();
        st.log = Some(Rc::new(vec![]));
        let mut res = vec![];
        let after_a = self.call(st, a, vec![args[0].clone()]);
        for mut o in after_a {
            let la = o.st.log.take().unwrap_or_default();
            if o.exit != Exit::Ret {
                // the second task is given up when it has not been started
                res.push(Out { exit: o.exit.clone(), val: Val::Unit, st: o.st.clone() });
                res.last_mut().unwrap().st.log = outer.clone();
            }
            o.st.log = Some(Rc::new(vec![]));
            for mut q in self.call(o.st.clone(), b, vec![args[1].clone()]) {
                let lb = q.st.log.take().unwrap_or_default();
                // footprints must be disjoint
                'x: for x in la.iter() {
                    for y in lb.iter() {
                        if x.obj == y.obj && (x.write || y.write) && q.st.objs.contains_key(&x.obj) {
                            self.ob("C16");
                            let before = q.st.num.must_ge(&y.lo.sub(&x.hi));
                            let after = q.st.num.must_ge(&x.lo.sub(&y.hi));
                            let empty = q.st.num.must_ge(&x.lo.sub(&x.hi)) || q.st.num.must_ge(&y.lo.sub(&y.hi));
                            if !before && !after && !empty {
                                if self.dbg {
                                    eprintln!("RACE {:?} {:?} {:?}", x, y, q.st.num);
                                }
                                self.bad("C16", "two tasks that run at the same time may touch the same elements");
                                break 'x;
                            }
                        }
                    }
                }
                q.st.log = outer.clone().map(|l| {
                    let mut v = l.as_ref().clone();
                    v.extend(la.iter().cloned());
                    v.extend(lb.iter().cloned());
                    Rc::new(v)
                });
                let (exit, val) = match (o.exit, q.exit) {
                    (Exit::Ret, Exit::Ret) => {
                        let t = self.p.shape(rty);
                        let v = match t {
                            Shape::Unit => Val::Unit,
                            Shape::Trans(0, _) => o.val.clone(),
                            Shape::Trans(_, _) => q.val.clone(),
                            _ => Val::agg(vec![o.val.clone(), q.val.clone()]),
                        };
                        (Exit::Ret, v)
                    }
                    (Exit::Ret, e) => (e, Val::Unit),
                    (e, _) => (e, Val::Unit),
                };
                res.push(Out { exit, val, st: q.st });
            }
        }
        Some(self.merge_outs(res, false))
    }
    fn intrinsic(&mut self, st0: &State, name: &str, f: &Func, args: &[Val]) -> Option<Vec<Out>> {
        let mut st = st0.clone();
        let u = self.p.usize_ty;
        Some(match name {
            "assert_inhabited" | "cold_path" | "assert_zero_valid" | "assert_mem_uninitialized_valid" => ret(st, Val::Unit),
            "copy" | "copy_nonoverlapping" => {
                let ty = f.args[0];
                let Val::Int(n) = &args[2] else {
                    self.unknown("copy of an unknown number of elements");
                    return Some(vec![]);
                };
                self.copy(st, &args[0], &args[1], n, ty, name == "copy").into_iter().flat_map(|s| ret(s, Val::Unit)).collect()
            }
            "typed_swap_nonoverlapping" => {
                let ty = f.args[0];
                self.swap(st, &args[0], &args[1], ty).into_iter().flat_map(|s| ret(s, Val::Unit)).collect()
            }
            "arith_offset" => {
                let ty = f.args[0];
                let v = self.offset(&mut st, &args[0], &args[1], ty);
                ret(st, v)
            }
            "ptr_offset_from_unsigned" | "ptr_offset_from" => match (&args[0], &args[1]) {
                (Val::Ptr(p), Val::Ptr(q)) if p.obj == q.obj => {
                    let d = region_path(p).0.sub(&region_path(q).0);
                    self.need_contiguous(&mut st, p.obj, "the distance of two pointers into a strided view is taken");
                    if name.ends_with("unsigned") && !st.num.must_ge(&d) {
                        self.bad("C01", "the distance of two pointers may be negative");
                        st = match st.assume(&B::Ge(d.clone())).pop() {
                            Some(s) => s,
                            None => return Some(vec![]),
                        };
                    }
                    ret(st, Val::Int(d))
                }
                _ => {
                    self.unknown("distance of unrelated pointers");
                    let v = Val::Int(self.fresh_int(&mut st, false, 64));
                    ret(st, v)
                }
            },
            "ctlz" | "ctpop" | "cttz" => {
                let x = Lin::s(fresh());
                st.num.ge(&x);
                st.num.ge(&x.neg().addk(64));
                if name == "ctlz"
                    && let Val::Int(l) = &args[0]
                    && st.num.must_ge(&l.addk(-1))
                {
                    st.num.ge(&x.neg().addk(63));
                }
                ret(st, Val::Int(x))
            }
            "saturating_sub" => {
                let (a, b) = (self.as_int(&mut st, &args[0], u), self.as_int(&mut st, &args[1], u));
                let d = a.sub(&b);
                let mut out = vec![];
                for (s, x) in st.split(&B::Ge(d.clone())) {
                    out.extend(ret(s, if x { Val::Int(d.clone()) } else { Val::int(0) }));
                }
                out
            }
            "saturating_add" => {
                let (a, b) = (self.as_int(&mut st, &args[0], u), self.as_int(&mut st, &args[1], u));
                ret(st, Val::Int(a.add(&b)))
            }
            "integer_min" | "integer_max" => {
                let t = f.args[0];
                let (a, b) = (self.as_int(&mut st, &args[0], t), self.as_int(&mut st, &args[1], t));
                let mut out = vec![];
                for (s, x) in st.split(&B::Ge(b.sub(&a))) {
                    // x: a <= b
                    let v = if x == (name == "integer_min") { a.clone() } else { b.clone() };
                    out.extend(ret(s, Val::Int(v)));
                }
                out
            }
            _ => return None,
        })
    }
}
