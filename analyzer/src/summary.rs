//! Function summaries: each loop-bearing or recursive function of the crate is analysed for a general
//! entry state and its exits are replayed at every call that the general state covers.
use crate::interp::*;
use crate::ir::*;
use crate::join::*;
use crate::mem::*;
use crate::num::*;
use crate::state::*;
use crate::types::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub struct Sum {
    pub pre: KS,
    /// unknowns of the general entry state
    pub params: BTreeSet<Sym>,
    pub outs: Vec<Out>,
    pub events: Vec<Event>,
    pub widen: u32,
    pub in_progress: bool,
    /// a call in progress was not covered
    pub dirty: bool,
    pub used: bool,
    pub deps: BTreeSet<(FnId, u64)>,
}
#[derive(Default)]
pub struct Sums {
    pub tab: HashMap<(FnId, u64), Sum>,
    heavy: Option<BTreeSet<FnId>>,
    rec: BTreeSet<FnId>,
    /// summaries in progress, outermost first
    pub stack: Vec<(FnId, u64)>,
    pub base: usize,
    pub in_progress_used: BTreeSet<(FnId, u64)>,
}
#[derive(Clone, PartialEq, Debug)]
enum Use {
    Win(Lin, Lin),
    Elem(Lin),
    Raw,
}
#[derive(Clone, Debug)]
enum Back {
    Win(ObjId, Lin, Lin),
    Cell(ObjId, Lin),
}
/// How a call's entry state maps back into the caller.
struct Call {
    ks: KS,
    back: HashMap<ObjId, Back>,
    /// what the call's own unknowns stand for at the call site
    defs: Vec<(Sym, Lin)>,
}

impl<'a> Interp<'a> {
    fn graph(&mut self) {
        if self.sums.heavy.is_some() {
            return;
        }
        let n = self.p.p.funcs.len();
        let mut succ: Vec<BTreeSet<FnId>> = vec![Default::default(); n];
        for (i, f) in self.p.p.funcs.iter().enumerate() {
            succ[i].extend(f.callbacks.iter().map(|c| c.1));
            if let Some(b) = &f.body {
                for blk in &b.blocks {
                    match &blk.term {
                        Term::Call { callee: Callee::Direct(g), .. } => {
                            succ[i].insert(*g);
                        }
                        Term::Drop { glue: Some(g), .. } => {
                            succ[i].insert(*g);
                        }
                        _ => {}
                    }
                }
            }
        }
        let mut g = vec![];
        for s in &succ {
            g.push(s.iter().copied().collect::<Vec<_>>());
        }
        let scc = sccs(&g);
        let mut heavy = BTreeSet::new();
        let mut rec = BTreeSet::new();
        // small links of a cycle need no summary of their own
        let mut links: BTreeSet<FnId> = BTreeSet::new();
        let cut = |f: FnId, links: &BTreeSet<FnId>| {
            let fun = &self.p.p.funcs[f];
            fun.krate == "ndarray_slice" && fun.body.is_some() && !fun.path.contains("{closure") && !fun.path.contains("Slice1Ext") && !links.contains(&f)
        };
        for c in scc.iter().filter(|c| c.len() > 1) {
            for &f in c {
                if !cut(f, &links) || self.p.p.funcs[f].body.as_ref().unwrap().blocks.len() > 6 || self.p.body2(f).has_loop {
                    continue;
                }
                links.insert(f);
                let sub: Vec<Vec<usize>> = (0..n).map(|x| if c.contains(&x) && !cut(x, &links) { g[x].iter().copied().filter(|y| c.contains(y) && !cut(*y, &links)).collect() } else { vec![] }).collect();
                if sccs(&sub).iter().any(|d| d.len() > 1) {
                    links.remove(&f);
                }
            }
        }
        for c in &scc {
            let cyc = c.len() > 1 || g[c[0]].contains(&c[0]);
            for &f in c {
                let fun = &self.p.p.funcs[f];
                if fun.krate != "ndarray_slice" || fun.body.is_none() || fun.path.contains("{closure") || fun.path.contains("Slice1Ext") || links.contains(&f) {
                    continue;
                }
                if cyc {
                    rec.insert(f);
                    heavy.insert(f);
                } else if self.p.body2(f).has_loop {
                    heavy.insert(f);
                }
            }
        }
        self.sums.heavy = Some(heavy);
        self.sums.rec = rec;
    }
    fn is_view_ty(&self, t: TyId) -> bool {
        match &self.p.ty(t).kind {
            TyKind::Adt { path, .. } => path.ends_with("ndarray::ArrayBase"),
            _ => false,
        }
    }
    /// Walks a typed value; `f` maps the pointers into regions.
    fn tmap(&self, st: &State, v: &Val, t: TyId, cells: &mut Vec<(ObjId, Option<TyId>)>, f: &mut dyn FnMut(&Ptr, Use) -> Ptr) -> Val {
        if self.is_view_ty(t)
            && let Val::Agg(vals) = v
            && let TyKind::Adt { variants, .. } = &self.p.ty(t).kind
        {
            let names: Vec<&str> = variants[0].fields.iter().map(|x| x.0.as_str()).collect();
            let at = |n: &str| names.iter().position(|x| *x == n).unwrap_or(0);
            if let (Val::Ptr(p), Val::Int(n), Val::Int(s)) = (&vals[at("ptr")], &vals[at("dim")], &vals[at("strides")])
                && let Some(r) = st.region(p.obj)
                && r.elems
                && r.stride.is_some_and(|k| s.single() == Some(k))
                && region_path(p).1.is_empty()
            {
                let mut w = vals.as_ref().clone();
                w[at("ptr")] = Val::Ptr(f(p, Use::Win(region_path(p).0, n.clone())));
                return Val::agg(w);
            }
        }
        match (self.p.shape(t), v) {
            (Shape::Trans(_, u), _) => self.tmap(st, v, u, cells, f),
            (Shape::Struct(fs), Val::Agg(vals)) if fs.len() == vals.len() => Val::agg(vals.iter().zip(fs).map(|(x, t)| self.tmap(st, x, t, cells, f)).collect()),
            (Shape::Enum(vs), Val::Enum(k, vals)) if vs[*k as usize].1.len() == vals.len() => {
                Val::Enum(*k, Rc::new(vals.iter().zip(vs[*k as usize].1.clone()).map(|(x, t)| self.tmap(st, x, t, cells, f)).collect()))
            }
            (Shape::Thin(u), Val::Ptr(p)) => match st.objs.get(&p.obj).map(|o| o.as_ref()) {
                Some(Obj::Region(r)) => {
                    let is_ref = self.ptr_is_ref(t);
                    let us = if is_ref && r.elems && self.p.is_elem(u) && region_path(p).1.is_empty() { Use::Elem(region_path(p).0) } else { Use::Raw };
                    Val::Ptr(f(p, us))
                }
                Some(Obj::Cell(_)) => {
                    cells.push((p.obj, p.path.is_empty().then_some(u)));
                    v.clone()
                }
                None => v.clone(),
            },
            (_, Val::Ptr(p)) => self.raw(st, p, v, cells, f),
            (_, Val::Fat(p, n)) => match st.objs.get(&p.obj).map(|o| o.as_ref()) {
                Some(Obj::Cell(_)) => {
                    cells.push((p.obj, None));
                    v.clone()
                }
                _ => Val::Fat(f(p, Use::Raw), n.clone()),
            },
            (_, Val::Agg(x)) => Val::agg(x.iter().map(|x| self.tmap(st, x, self.p.usize_ty, cells, f)).collect()),
            (_, Val::Enum(k, x)) => Val::Enum(*k, Rc::new(x.iter().map(|x| self.tmap(st, x, self.p.usize_ty, cells, f)).collect())),
            _ => v.clone(),
        }
    }
    fn raw(&self, st: &State, p: &Ptr, v: &Val, cells: &mut Vec<(ObjId, Option<TyId>)>, f: &mut dyn FnMut(&Ptr, Use) -> Ptr) -> Val {
        match st.objs.get(&p.obj).map(|o| o.as_ref()) {
            Some(Obj::Cell(_)) => {
                cells.push((p.obj, None));
                v.clone()
            }
            _ => Val::Ptr(f(p, Use::Raw)),
        }
    }
    fn ptr_is_ref(&self, t: TyId) -> bool {
        matches!(self.p.ty(t).kind, TyKind::Ptr { is_ref: true, .. })
    }
    /// The entry state of a call, on its own.
    fn entry(&mut self, st: &State, fid: FnId, args: &[Val]) -> Call {
        let tys: Vec<TyId> = {
            let b = self.p.p.funcs[fid].body.as_ref().unwrap();
            (1..=b.arg_count).map(|i| b.locals[i]).collect()
        };
        let tyof = |i: usize| tys.get(i).copied().unwrap_or(0);
        // 1. what the arguments refer to
        let mut uses: Vec<(ObjId, Use)> = vec![];
        let mut work: Vec<(ObjId, Option<TyId>)> = vec![];
        let mut note = |p: &Ptr, u: Use| {
            uses.push((p.obj, u));
            p.clone()
        };
        for (i, a) in args.iter().enumerate() {
            self.tmap(st, a, tyof(i), &mut work, &mut note);
        }
        let mut cells: BTreeMap<ObjId, Option<TyId>> = BTreeMap::new();
        while let Some((o, t)) = work.pop() {
            match cells.get(&o) {
                Some(x) if *x == t || x.is_none() => continue,
                Some(_) => {
                    cells.insert(o, None);
                }
                None => {
                    cells.insert(o, t);
                }
            }
            let t = cells[&o];
            if let Some(Obj::Cell(v)) = st.objs.get(&o).map(|o| o.as_ref()) {
                self.tmap(st, v, t.unwrap_or(self.p.usize_ty), &mut work, &mut note);
            }
        }
        // 2. windows that can stand on their own
        let mut fresh_of: Vec<(ObjId, Use, ObjId)> = vec![];
        let mut back = HashMap::new();
        let mut cs = State { num: st.num.clone(), oom: st.oom, ..Default::default() };
        let objs: BTreeSet<ObjId> = uses.iter().map(|u| u.0).collect();
        let mut whole: BTreeSet<ObjId> = BTreeSet::new();
        for &o in &objs {
            let us: Vec<Use> = uses.iter().filter(|u| u.0 == o).map(|u| u.1.clone()).collect();
            let Some(r) = st.region(o) else { continue };
            let ok = self.separable(st, r, &us);
            if !ok {
                whole.insert(o);
                continue;
            }
            for u in us {
                if fresh_of.iter().any(|x| x.0 == o && x.1 == u) {
                    continue;
                }
                match &u {
                    Use::Win(b, n) => {
                        let w = Region { len: n.clone(), addr: fresh(), segs: vec![Seg { hi: n.clone(), own: Own::Live, val: SVal::Elems, node: 0 }], ..r.clone() };
                        cs.num.ge(n);
                        let id = cs.new_obj(Obj::Region(w));
                        back.insert(id, Back::Win(o, b.clone(), n.clone()));
                        fresh_of.push((o, u.clone(), id));
                    }
                    Use::Elem(i) => {
                        let id = cs.new_obj(Obj::Cell(Val::Elem(Tok { own: Own::Live, node: 0, key: false })));
                        back.insert(id, Back::Cell(o, i.clone()));
                        fresh_of.push((o, u.clone(), id));
                    }
                    Use::Raw => {}
                }
            }
        }
        // 3. rewrite
        let mut sub = |p: &Ptr, u: Use| match fresh_of.iter().find(|x| x.0 == p.obj && x.1 == u) {
            Some(x) => match u {
                Use::Win(..) => Ptr { obj: x.2, path: vec![PE::I(Lin::c(0))] },
                _ => Ptr { obj: x.2, path: vec![] },
            },
            None => p.clone(),
        };
        let mut sink = vec![];
        let args: Vec<Val> = args.iter().enumerate().map(|(i, a)| self.tmap(st, a, tyof(i), &mut sink, &mut sub)).collect();
        for (o, t) in &cells {
            if let Some(Obj::Cell(v)) = st.objs.get(o).map(|o| o.as_ref()) {
                let nv = self.tmap(st, v, t.unwrap_or(self.p.usize_ty), &mut sink, &mut sub);
                cs.objs.insert(*o, Rc::new(Obj::Cell(nv)));
            }
        }
        let mut reach = BTreeSet::new();
        for o in &whole {
            st.reach_obj(*o, &mut reach);
        }
        for a in &args {
            cs.reach_val(a, &mut reach);
        }
        let rs: Vec<ObjId> = cs.objs.keys().copied().collect();
        for o in rs {
            cs.reach_obj(o, &mut reach);
        }
        let mut extra = vec![];
        for o in &reach {
            st.reach_obj(*o, &mut BTreeSet::new());
            if !cs.objs.contains_key(o)
                && let Some(x) = st.objs.get(o)
            {
                extra.push((*o, x.clone()));
            }
        }
        for (o, x) in extra {
            cs.objs.insert(o, x);
        }
        // 4. numbers stand on their own too
        let mut g = Gen { num: cs.num.clone(), memo: HashMap::new(), st };
        let args: Vec<Val> = args.iter().map(|v| g.val(v)).collect();
        let objs: Vec<(ObjId, Rc<Obj>)> = cs.objs.iter().map(|(k, v)| (*k, v.clone())).collect();
        for (o, x) in objs {
            let n = match x.as_ref() {
                Obj::Cell(v) => Obj::Cell(g.val(v)),
                Obj::Region(r) => Obj::Region(g.region(r)),
            };
            cs.objs.insert(o, Rc::new(n));
        }
        let defs: Vec<(Sym, Lin)> = g.memo.iter().map(|(l, z)| (*z, l.clone())).collect();
        cs.num = g.num;
        cs.frames.push(Rc::new(Frame { fid, locals: args.iter().map(|v| Slot::V(v.clone())).collect() }));
        let keep = syms(&cs, &Val::Unit);
        cs.num = cs.num.project(&keep);
        let ks = self.keyed(cs, Val::Unit, Exit::Ret);
        Call { ks, back, defs }
    }
    fn separable(&self, st: &State, r: &Region, us: &[Use]) -> bool {
        if us.contains(&Use::Raw) || r.freed {
            return false;
        }
        let range = |u: &Use| match u {
            Use::Win(b, n) => (b.clone(), b.add(n)),
            Use::Elem(i) => (i.clone(), i.addk(1)),
            Use::Raw => unreachable!(),
        };
        for (i, u) in us.iter().enumerate() {
            let (lo, hi) = range(u);
            if !st.num.must_ge(&hi.sub(&lo)) || !st.num.must_ge(&lo) || !st.num.must_ge(&r.len.sub(&hi)) {
                return false;
            }
            let mut live = false;
            for k in 0..r.segs.len() {
                if r.segs[k].own == Own::Live && st.num.must_ge(&lo.sub(&st.seg_lo(r, k))) && st.num.must_ge(&r.segs[k].hi.sub(&hi)) {
                    live = true;
                    break;
                }
            }
            if !live {
                return false;
            }
            for v in &us[..i] {
                if matches!((u, v), (Use::Elem(_), Use::Elem(_))) {
                    continue;
                }
                let (l2, h2) = range(v);
                if !st.num.must_ge(&l2.sub(&hi)) && !st.num.must_ge(&lo.sub(&h2)) {
                    return false;
                }
            }
        }
        true
    }
    pub fn summarised(&mut self, st: &State, fid: FnId, args: &[Val]) -> Option<Vec<Out>> {
        self.graph();
        if !self.sums.heavy.as_ref().unwrap().contains(&fid) || !st.ghost.is_empty() && !self.sums.rec.contains(&fid) || std::env::var("NOSUM").is_ok() {
            return None;
        }
        self.shrinks(st, fid, args);
        let call = self.entry(st, fid, args);
        let k = (fid, call.ks.key);
        self.stats.summaries += 1;
        let mut covered = None;
        if let Some(s) = self.sums.tab.get(&k) {
            let widen = s.widen;
            let pre = s.pre.dup();
            let in_progress = s.in_progress;
            covered = self.covering(&pre, &call.ks);
            if covered.is_none() {
                // generalise
                let j = self.join_pub(&pre, &call.ks, if widen < 2 { 1 } else { 2 });
                if self.dbg && std::env::var("SUMS").is_ok() {
                    eprintln!("GENERALISE {} ({widen}) {}", self.p.names[fid], self.show0(&j.st));
                }
                let s = self.sums.tab.get_mut(&k).unwrap();
                s.widen += 1;
                s.params = syms(&j.st, &Val::Unit);
                s.pre = j;
                s.outs.clear();
                if in_progress {
                    s.dirty = true;
                    self.note_use(k);
                    return Some(vec![]);
                }
                self.solve(k);
            } else if in_progress {
                self.sums.tab.get_mut(&k).unwrap().used = true;
                self.note_use(k);
            }
        } else {
            let params = syms(&call.ks.st, &Val::Unit);
            if self.dbg && std::env::var("SUMS").is_ok() {
                eprintln!("NEW {} {}", self.p.names[fid], self.show0(&call.ks.st));
            }
            let s = Sum { pre: call.ks.dup(), params, outs: vec![], events: vec![], widen: 0, in_progress: false, dirty: false, used: false, deps: Default::default() };
            self.sums.tab.insert(k, s);
            self.solve(k);
        }
        let s = self.sums.tab.get(&k)?;
        let pre = s.pre.dup();
        let outs = s.outs.clone();
        let deps = s.deps.clone();
        for d in deps {
            if self.sums.stack.contains(&d) {
                self.note_use(d);
            }
        }
        let (sub, om) = match covered {
            Some(c) => c,
            None => match self.covering(&pre, &call.ks) {
                Some(c) => c,
                None => {
                    self.unknown(&format!("a summary of {} does not cover its call", self.p.names[fid]));
                    return Some(vec![]);
                }
            },
        };
        let mut res = vec![];
        for o in &outs {
            self.replay(st, &pre, o, &sub, &om, &call, &mut res);
        }
        Some(res)
    }
    /// A call of a function from within itself gets at most half of some view.
    fn shrinks(&mut self, st: &State, fid: FnId, args: &[Val]) {
        let Some(k) = self.sums.stack.iter().rev().find(|k| k.0 == fid).copied() else { return };
        let f = &self.p.p.funcs[fid];
        let mut done = false;
        for (i, t) in f.sig.clone().into_iter().enumerate() {
            let TyKind::Adt { variants, path, .. } = &self.p.ty(t).kind else { continue };
            if !path.ends_with("ArrayBase") {
                continue;
            }
            let Some(d) = variants[0].fields.iter().position(|x| x.0 == "dim") else { continue };
            let len = |v: &Val| match v {
                Val::Agg(a) => match a.get(d) {
                    Some(Val::Int(l)) => Some(l.clone()),
                    _ => None,
                },
                _ => None,
            };
            let Slot::V(was) = &self.sums.tab[&k].pre.st.frames[0].locals[i] else { continue };
            let (Some(was), Some(now)) = (len(was), args.get(i).and_then(len)) else { continue };
            if self.dbg { eprintln!("DEEPER {:?} {:?}", was, now); }
            done |= st.num.must_ge(&was.sub(&now).sub(&now));
        }
        self.ob("C26");
        if !done {
            if self.dbg {
                eprintln!("DEEP {} {}", self.p.names[fid], self.show(st));
            }
            self.bad("C26", "a call of a function from within itself may get more than half of every view");
        }
    }
    fn note_use(&mut self, k: (FnId, u64)) {
        self.sums.in_progress_used.insert(k);
    }
    /// Analyses the body until its exits are stable.
    fn solve(&mut self, k: (FnId, u64)) {
        let t0 = std::time::Instant::now();
        let fid = k.0;
        let saved_ev = std::mem::take(&mut self.ev);
        let saved_used = std::mem::take(&mut self.sums.in_progress_used);
        let saved_base = std::mem::replace(&mut self.sums.base, self.cur.len());
        self.sums.stack.push(k);
        self.sums.tab.get_mut(&k).unwrap().in_progress = true;
        let mut iter = 0;
        loop {
            iter += 1;
            let s = self.sums.tab.get_mut(&k).unwrap();
            s.dirty = false;
            s.used = false;
            let st = s.pre.st.clone();
            self.ev.clear();
            let args: Vec<Val> = st.frames[0].locals.iter().map(|l| match l {
                Slot::V(v) => v.clone(),
                Slot::Boxed(_) => Val::Top,
            }).collect();
            let params = s.params.clone();
            let mut st = st;
            // the parameters stay visible
            {
                let f = st.frame();
                f.locals.push(Slot::V(Val::agg(params.iter().map(|x| Val::Int(Lin::s(*x))).collect())));
            }
            let outs = self.inline(st, fid, args);
            if self.timed_out {
                break;
            }
            let s = self.sums.tab.get_mut(&k).unwrap();
            if s.dirty {
                self.drop_deps(k);
                if iter > 25 {
                    self.unknown("a recursive function's entry state did not stabilise");
                    break;
                }
                continue;
            }
            let used = s.used;
            let old = std::mem::take(&mut s.outs);
            // absorb the exits
            let mut cur: Vec<KS> = old.into_iter().map(|o| self.keyed(o.st, o.val, o.exit)).collect();
            let mut changed = false;
            for o in outs {
                let n = self.keyed(o.st, o.val, o.exit);
                match cur.iter().position(|x| x.key == n.key) {
                    None => {
                        cur.push(n);
                        changed = true;
                    }
                    Some(i) => {
                        if self.covering(&cur[i].dup(), &n).is_none() {
                            changed = true;
                            let a = cur[i].dup();
                            cur[i] = self.join_pub(&a, &n, if iter < 4 { 1 } else { 2 });
                        }
                    }
                }
            }
            let outs: Vec<Out> = cur
                .into_iter()
                .map(|k| {
                    let mut st = k.st;
                    let keep = syms(&st, &k.val);
                    st.num = st.num.project(&keep);
                    Out { exit: k.exit, val: k.val, st }
                })
                .collect();
            self.sums.tab.get_mut(&k).unwrap().outs = outs;
            if !(changed && used) {
                break;
            }
            self.drop_deps(k);
            if iter > 25 {
                self.unknown("a recursive function's exits did not stabilise");
                break;
            }
        }
        let ev = std::mem::replace(&mut self.ev, saved_ev);
        let mut used = std::mem::replace(&mut self.sums.in_progress_used, saved_used);
        used.remove(&k);
        self.sums.stack.pop();
        self.sums.base = saved_base;
        let stack = self.sums.stack.clone();
        used.retain(|d| stack.contains(d));
        self.sums.in_progress_used.extend(used.iter().copied());
        let s = self.sums.tab.get_mut(&k).unwrap();
        s.events = ev;
        s.in_progress = false;
        s.deps = used;
        if self.dbg && std::env::var("SUMS").is_ok() {
            let s = self.sums.tab.get(&k).unwrap();
            let (n, nev) = (s.outs.len(), s.events.len());
            eprintln!("DONE {} {iter} rounds {n} outs {nev} events {:.2}s", self.p.names[fid], t0.elapsed().as_secs_f64());
            let shows: Vec<String> = s.outs.iter().map(|o| format!("   {:?} {:?} {:?} {:?}", o.exit, o.val, o.st.num.ge, o.st.num.eq)).collect();
            for x in shows {
                eprintln!("{x}");
            }
        }
    }
    fn drop_deps(&mut self, k: (FnId, u64)) {
        let bad: Vec<_> = self.sums.tab.iter().filter(|(_, s)| !s.in_progress && s.deps.contains(&k)).map(|x| *x.0).collect();
        for b in bad {
            self.sums.tab.remove(&b);
        }
    }
    fn show0(&self, s: &State) -> String {
        let mut t = format!("{:?} ", s.frames[0].locals);
        for (id, o) in &s.objs {
            match o.as_ref() {
                Obj::Region(r) => t += &format!("R{id}[len {:?}: {}] ", r.len, r.segs.iter().map(|g| format!("{:?}..{:?}", g.own, g.hi)).collect::<Vec<_>>().join(",")),
                Obj::Cell(v) => t += &format!("C{id}={v:?} "),
            }
        }
        t + &format!("| {:?} eq {:?}", s.num.ge, s.num.eq)
    }
    #[allow(clippy::too_many_arguments)]
    fn replay(&mut self, st: &State, pre: &KS, o: &Out, sub: &HashMap<Sym, Lin>, om: &BTreeMap<ObjId, ObjId>, call: &Call, res: &mut Vec<Out>) {
        let mut r = Ren { sub: sub.clone(), om, back: &call.back, objs: HashMap::new(), bools: HashMap::new(), pre: &pre.st };
        let mut s = st.clone();
        for (z, l) in &call.defs {
            s.num.eq0(&Lin::s(*z).sub(l));
        }
        for (x, d) in o.st.num.eq.iter() {
            let l = r.lin(&Lin::s(*x).sub(d));
            s.num.eq0(&l);
        }
        for e in o.st.num.eq2.iter() {
            let l = r.lin(e);
            s.num.eq0(&l);
        }
        for c in o.st.num.ge.iter() {
            if pre.st.num.ge.contains(c) {
                continue;
            }
            let l = r.lin(c);
            s.num.ge(&l);
        }
        s.oom |= o.st.oom;
        if s.num.bot {
            return;
        }
        let val = r.val(&o.val);
        // objects passed through, and new ones
        let mut windows = vec![];
        for (id, x) in &o.st.objs {
            match om.get(id).or(pre.st.objs.contains_key(id).then_some(id)) {
                Some(c) => match call.back.get(c) {
                    Some(Back::Win(obj, base, len)) => {
                        if let Obj::Region(w) = x.as_ref() {
                            let one = w.segs.len() == 1 && w.segs[0].own == Own::Live && w.segs[0].node == 0;
                            if !one {
                                let segs: Vec<Seg> = w.segs.iter().map(|g| Seg { hi: r.lin(&g.hi).add(base), ..g.clone() }).collect();
                                windows.push((*obj, base.clone(), len.clone(), segs));
                            }
                        }
                    }
                    Some(Back::Cell(obj, idx)) => {
                        if let Obj::Cell(Val::Elem(t)) = x.as_ref()
                            && t.own != Own::Live
                        {
                            windows.push((*obj, idx.clone(), Lin::c(1), vec![Seg { hi: idx.addk(1), own: t.own, val: SVal::Elems, node: t.node }]));
                        }
                    }
                    None => {
                        let n = r.obj(x);
                        s.objs.insert(*c, Rc::new(n));
                    }
                },
                None => {
                    let n = r.obj(x);
                    let id = r.objid(*id);
                    s.objs.insert(id, Rc::new(n));
                }
            }
        }
        if let Some(l) = &mut s.log {
            let l = Rc::make_mut(l);
            for b in call.back.values() {
                match b {
                    Back::Win(obj, base, len) => l.push(Access { obj: *obj, lo: base.clone(), hi: base.add(len), write: true }),
                    Back::Cell(obj, i) => l.push(Access { obj: *obj, lo: i.clone(), hi: i.addk(1), write: false }),
                }
            }
            for (id, x) in &call.ks.st.objs {
                if !call.back.contains_key(id)
                    && let Obj::Region(g) = x.as_ref()
                    && let Some(Obj::Region(g2)) = st.objs.get(id).map(|o| o.as_ref())
                {
                    let _ = g;
                    l.push(Access { obj: *id, lo: Lin::c(0), hi: g2.len.clone(), write: true });
                }
            }
        }
        let mut cur = vec![s];
        for (obj, base, len, segs) in windows {
            let mut next = vec![];
            for s in cur {
                for (mut s, (a, b)) in self.range(s, obj, &base, &base.add(&len), "a call") {
                    s.region_mut(obj).unwrap().segs.splice(a..b, segs.clone());
                    self.tidy(&mut s, obj, false);
                    next.push(s);
                }
            }
            cur = next;
        }
        for s in cur {
            res.push(Out { exit: o.exit, val: val.clone(), st: s });
        }
    }
    pub fn ranking(&mut self, _fid: FnId, _h: usize, _inv: &[State], _back: &[State]) {}
}
/// Replaces every number by an unknown of its own.
struct Gen<'s> {
    num: Num,
    memo: HashMap<Lin, Sym>,
    st: &'s State,
}
impl Gen<'_> {
    fn lin(&mut self, l: &Lin) -> Lin {
        let l = self.st.num.norm(l);
        if l.konst().is_some() || l.single().is_some() {
            return l;
        }
        if let Some(z) = self.memo.get(&l) {
            return Lin::s(*z);
        }
        let z = fresh();
        self.memo.insert(l.clone(), z);
        self.num.eq0(&Lin::s(z).sub(&l));
        Lin::s(z)
    }
    fn ptr(&mut self, p: &Ptr) -> Ptr {
        Ptr {
            obj: p.obj,
            path: p
                .path
                .iter()
                .map(|e| match e {
                    PE::I(l) => PE::I(self.lin(l)),
                    e => e.clone(),
                })
                .collect(),
        }
    }
    fn val(&mut self, v: &Val) -> Val {
        match v {
            Val::Int(l) if l.single().is_some_and(crate::models::is_stride) => v.clone(),
            Val::Int(l) => Val::Int(self.lin(l)),
            Val::Scaled(l, s) => Val::Scaled(self.lin(l), *s),
            Val::Bool(b) => match self.st.norm_bool(b) {
                B::Const(c) => Val::bool(c),
                _ => Val::Bool(B::unk()),
            },
            Val::Ptr(p) => Val::Ptr(self.ptr(p)),
            Val::Fat(p, n) => Val::Fat(self.ptr(p), self.lin(n)),
            Val::Agg(f) => Val::agg(f.iter().map(|x| self.val(x)).collect()),
            Val::Enum(k, f) => Val::Enum(*k, Rc::new(f.iter().map(|x| self.val(x)).collect())),
            _ => v.clone(),
        }
    }
    fn region(&mut self, r: &Region) -> Region {
        let mut n = r.clone();
        n.len = self.lin(&r.len);
        n.bytes = self.lin(&r.bytes);
        n.align = self.lin(&r.align);
        for s in n.segs.iter_mut() {
            s.hi = self.lin(&s.hi);
            s.val = self.sval(&s.val);
        }
        n.base = n.base.as_ref().map(|b| self.sval(b));
        n
    }
    fn sval(&mut self, v: &SVal) -> SVal {
        match v {
            SVal::Range(a, b) => SVal::Range(self.lin(a), self.lin(b)),
            SVal::Inc(a, b) => SVal::Inc(self.lin(a), self.lin(b)),
            SVal::One(v) => SVal::One(self.val(v)),
            SVal::Chain(c) => SVal::Chain(c.map(|l| self.lin(l))),
            v => v.clone(),
        }
    }
}
/// Takes a summary's exit into the caller's names.
struct Ren<'s> {
    sub: HashMap<Sym, Lin>,
    om: &'s BTreeMap<ObjId, ObjId>,
    back: &'s HashMap<ObjId, Back>,
    objs: HashMap<ObjId, ObjId>,
    bools: HashMap<u32, u32>,
    pre: &'s State,
}
impl Ren<'_> {
    fn lin(&mut self, l: &Lin) -> Lin {
        let sub = &mut self.sub;
        l.rename(&mut |s| sub.entry(s).or_insert_with(|| if crate::models::is_stride(s) { Lin::s(s) } else { Lin::s(fresh()) }).clone())
    }
    fn objid(&mut self, o: ObjId) -> ObjId {
        if let Some(c) = self.om.get(&o) {
            return *c;
        }
        if self.pre.objs.contains_key(&o) {
            return o;
        }
        *self.objs.entry(o).or_insert_with(fresh)
    }
    fn ptr(&mut self, p: &Ptr) -> Ptr {
        let path: Vec<PE> = p
            .path
            .iter()
            .map(|e| match e {
                PE::I(l) => PE::I(self.lin(l)),
                e => e.clone(),
            })
            .collect();
        let o = self.objid(p.obj);
        match self.back.get(&o) {
            Some(Back::Win(obj, base, _)) => {
                let (i, rest) = region_path(&Ptr { obj: o, path });
                let mut path = vec![PE::I(base.add(&i))];
                path.extend(rest.into_iter().map(PE::F));
                Ptr { obj: *obj, path }
            }
            Some(Back::Cell(obj, idx)) => Ptr { obj: *obj, path: vec![PE::I(idx.clone())] },
            None => Ptr { obj: o, path },
        }
    }
    fn val(&mut self, v: &Val) -> Val {
        match v {
            Val::Int(l) => Val::Int(self.lin(l)),
            Val::Scaled(l, s) => {
                let l = self.lin(l);
                let t = self.lin(&Lin::s(*s));
                Val::Scaled(l, t.single().unwrap_or(*s))
            }
            Val::Bool(b) => Val::Bool(match b {
                B::Const(c) => B::Const(*c),
                B::Ge(l) => B::Ge(self.lin(l)),
                B::Eq(l) => B::Eq(self.lin(l)),
                B::Ne(l) => B::Ne(self.lin(l)),
                B::Unk(i) => B::Unk(*self.bools.entry(*i).or_insert_with(fresh)),
                B::NotUnk(i) => B::NotUnk(*self.bools.entry(*i).or_insert_with(fresh)),
            }),
            Val::Ptr(p) => Val::Ptr(self.ptr(p)),
            Val::Fat(p, n) => {
                let p = self.ptr(p);
                Val::Fat(p, self.lin(n))
            }
            Val::Agg(f) => Val::agg(f.iter().map(|x| self.val(x)).collect()),
            Val::Enum(k, f) => Val::Enum(*k, Rc::new(f.iter().map(|x| self.val(x)).collect())),
            Val::Arr(o) => Val::Arr(self.objid(*o)),
            _ => v.clone(),
        }
    }
    fn sval(&mut self, v: &SVal) -> SVal {
        match v {
            SVal::Range(a, b) => SVal::Range(self.lin(a), self.lin(b)),
            SVal::Inc(a, b) => SVal::Inc(self.lin(a), self.lin(b)),
            SVal::One(v) => SVal::One(self.val(v)),
            SVal::Chain(c) => SVal::Chain(c.map(|l| self.lin(l))),
            v => v.clone(),
        }
    }
    fn obj(&mut self, o: &Obj) -> Obj {
        match o {
            Obj::Cell(v) => Obj::Cell(self.val(v)),
            Obj::Region(r) => {
                let mut n = r.clone();
                n.len = self.lin(&r.len);
                n.bytes = self.lin(&r.bytes);
                n.align = self.lin(&r.align);
                n.addr = self.lin(&Lin::s(r.addr)).single().unwrap_or(r.addr);
                for s in n.segs.iter_mut() {
                    s.hi = self.lin(&s.hi);
                    s.val = self.sval(&s.val);
                }
                n.base = n.base.as_ref().map(|b| self.sval(b));
                Obj::Region(n)
            }
        }
    }
}
/// Strongly connected components.
pub fn sccs(g: &[Vec<usize>]) -> Vec<Vec<usize>> {
    let n = g.len();
    let mut idx = vec![usize::MAX; n];
    let mut low = vec![0; n];
    let mut on = vec![false; n];
    let mut st = vec![];
    let mut out = vec![];
    let mut c = 0;
    for r in 0..n {
        if idx[r] != usize::MAX {
            continue;
        }
        let mut work = vec![(r, 0)];
        while let Some(&mut (v, ref mut i)) = work.last_mut() {
            if *i == 0 && idx[v] == usize::MAX {
                idx[v] = c;
                low[v] = c;
                c += 1;
                st.push(v);
                on[v] = true;
            }
            if *i < g[v].len() {
                let w = g[v][*i];
                *i += 1;
                if idx[w] == usize::MAX {
                    work.push((w, 0));
                } else if on[w] {
                    low[v] = low[v].min(idx[w]);
                }
                continue;
            }
            work.pop();
            if let Some(&(p, _)) = work.last() {
                low[p] = low[p].min(low[v]);
            }
            if low[v] == idx[v] {
                let mut comp = vec![];
                loop {
                    let w = st.pop().unwrap();
                    on[w] = false;
                    comp.push(w);
                    if w == v {
                        break;
                    }
                }
                out.push(comp);
            }
        }
    }
    out
}
