//! Abstract memory: values, objects, segmented regions.
use crate::num::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub type ObjId = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Own {
    /// holds an element it owns
    Live,
    /// holds the bits of an element owned elsewhere
    Dead,
    /// never written
    Uninit,
}
#[derive(Clone, PartialEq, Debug)]
pub enum B {
    Const(bool),
    Ge(Lin),
    Eq(Lin),
    Ne(Lin),
    Unk(u32),
    NotUnk(u32),
}
impl B {
    pub fn not(&self) -> B {
        match self {
            B::Const(b) => B::Const(!b),
            B::Ge(l) => B::Ge(l.neg().addk(-1)),
            B::Eq(l) => B::Ne(l.clone()),
            B::Ne(l) => B::Eq(l.clone()),
            B::Unk(i) => B::NotUnk(*i),
            B::NotUnk(i) => B::Unk(*i),
        }
    }
    pub fn unk() -> B {
        B::Unk(fresh())
    }
}
#[derive(Clone, PartialEq, Debug)]
pub enum PE {
    F(usize),
    I(Lin),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Ptr {
    pub obj: ObjId,
    pub path: Vec<PE>,
}
impl Ptr {
    pub fn idx(&self) -> Option<&Lin> {
        match self.path.first() {
            Some(PE::I(l)) => Some(l),
            _ => None,
        }
    }
}
/// An element value outside a region.
#[derive(Clone, PartialEq, Debug)]
pub struct Tok {
    pub own: Own,
    pub node: u32,
    /// type of the element: 0 view element, otherwise a key
    pub key: bool,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    /// zero-sized
    Unit,
    Top,
    Uninit,
    Int(Lin),
    /// multiple of a stride symbol
    Scaled(Lin, Sym),
    Bool(B),
    Ptr(Ptr),
    Fat(Ptr, Lin),
    Agg(Rc<Vec<Val>>),
    Enum(u32, Rc<Vec<Val>>),
    Elem(Tok),
    /// an array that lives in a region object
    Arr(ObjId),
}
impl Val {
    pub fn int(k: i128) -> Val {
        Val::Int(Lin::c(k))
    }
    pub fn agg(v: Vec<Val>) -> Val {
        Val::Agg(Rc::new(v))
    }
    pub fn bool(b: bool) -> Val {
        Val::Bool(B::Const(b))
    }
}
/// Contents of a segment of a region of plain data.
#[derive(Clone, PartialEq, Debug)]
pub enum SVal {
    /// elements of the view type (or copies of them)
    Elems,
    /// anything
    Any,
    /// integers, each within [lo, hi)
    Range(Lin, Lin),
    /// strictly increasing integers within [lo, hi)
    Inc(Lin, Lin),
    /// a segment of one slot with a known value
    One(Val),
    /// pairs of numbers that describe intervals lying end to end
    Chain(Chain),
}
/// Slots with `n` fields, two of which (`i`, `j`) describe an interval in one or more ways: the
/// intervals of neighbouring slots meet. Per way: where the first begins and the last ends.
#[derive(Clone, PartialEq, Debug)]
pub struct Chain {
    pub n: usize,
    pub i: usize,
    pub j: usize,
    pub ways: Vec<(u8, Lin, Lin)>,
}
/// The interval of a slot: 0 (start, length), 1 (length, start), 2 (start, end), 3 (end, start);
/// 4 to 7 the same, walked downwards.
pub fn ends(way: u8, x: &Lin, y: &Lin) -> (Lin, Lin) {
    let (a, b) = match way & 3 {
        0 => (x.clone(), x.add(y)),
        1 => (y.clone(), x.add(y)),
        2 => (x.clone(), y.clone()),
        _ => (y.clone(), x.clone()),
    };
    if way < 4 { (a, b) } else { (b, a) }
}
/// The slot with a given interval.
pub fn fields_of(way: u8, first: &Lin, last: &Lin) -> (Lin, Lin) {
    let (a, b) = if way < 4 { (first, last) } else { (last, first) };
    match way & 3 {
        0 => (a.clone(), b.sub(a)),
        1 => (b.sub(a), a.clone()),
        2 => (a.clone(), b.clone()),
        _ => (b.clone(), a.clone()),
    }
}
impl Chain {
    /// A slot on its own (intervals are not empty).
    pub fn slot(num: &Num, v: &Val) -> Option<Chain> {
        let Val::Agg(f) = v else { return None };
        let ints: Vec<usize> = (0..f.len()).filter(|&k| matches!(f[k], Val::Int(_))).collect();
        let [i, j] = ints[..] else { return None };
        if f.iter().enumerate().any(|(k, v)| k != i && k != j && (crate::mem::has_elem(v) || matches!(v, Val::Ptr(_) | Val::Fat(..)))) {
            return None;
        }
        let (Val::Int(x), Val::Int(y)) = (&f[i], &f[j]) else { unreachable!() };
        let mut ways = vec![];
        for w in 0..8u8 {
            let (a, b) = ends(w, x, y);
            if num.must_ge(&if w < 4 { b.sub(&a) } else { a.sub(&b) }.addk(-1)) {
                ways.push((w, a, b));
            }
        }
        if ways.is_empty() { None } else { Some(Chain { n: f.len(), i, j, ways }) }
    }
    pub fn meet(&self, num: &Num, o: &Chain) -> Option<Chain> {
        if (self.n, self.i, self.j) != (o.n, o.i, o.j) {
            return None;
        }
        let mut ways = vec![];
        for (w, a, b) in &self.ways {
            if let Some((_, c, d)) = o.ways.iter().find(|x| x.0 == *w)
                && num.must_eq(&b.sub(c))
            {
                ways.push((*w, a.clone(), d.clone()));
            }
        }
        if ways.is_empty() { None } else { Some(Chain { ways, ..self.clone() }) }
    }
    pub fn map(&self, mut f: impl FnMut(&Lin) -> Lin) -> Chain {
        Chain { ways: self.ways.iter().map(|(w, a, b)| (*w, f(a), f(b))).collect(), ..self.clone() }
    }
    pub fn syms(&self) -> Vec<Sym> {
        self.ways.iter().flat_map(|(_, a, b)| a.syms().chain(b.syms()).collect::<Vec<_>>()).collect()
    }
}
#[derive(Clone, PartialEq, Debug)]
pub struct Seg {
    pub hi: Lin,
    pub own: Own,
    pub val: SVal,
    pub node: u32,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum RKind {
    View,
    Heap,
    Local,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Region {
    pub kind: RKind,
    /// number of slots
    pub len: Lin,
    /// bytes per slot; 0 while unknown (fresh heap memory, `len` in bytes)
    pub esize: u64,
    /// slots hold elements
    pub elems: bool,
    /// pointer steps between slots are multiples of this symbol; None: contiguous
    pub stride: Option<Sym>,
    pub addr: Sym,
    pub bytes: Lin,
    pub align: Lin,
    pub freed: bool,
    pub segs: Vec<Seg>,
    /// what holds of the whole block whatever was read from it (read-only data)
    pub base: Option<SVal>,
    /// slots are records
    pub rec: bool,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Obj {
    Cell(Val),
    Region(Region),
}
#[derive(Clone, PartialEq, Debug)]
pub enum Slot {
    V(Val),
    Boxed(ObjId),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Frame {
    pub fid: usize,
    pub locals: Vec<Slot>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Access {
    pub obj: ObjId,
    pub lo: Lin,
    pub hi: Lin,
    pub write: bool,
}
#[derive(Clone, Debug, Default)]
pub struct State {
    pub num: Num,
    pub objs: BTreeMap<ObjId, Rc<Obj>>,
    pub frames: Vec<Rc<Frame>>,
    pub bools: Rc<BTreeMap<u32, bool>>,
    pub facts: Rc<crate::facts::Facts>,
    pub log: Option<Rc<Vec<Access>>>,
    /// an allocation has failed: panics from here on are not the fault of the operation
    pub oom: bool,
    /// causes of the unwinding in progress
    pub unw: Vec<crate::interp::Exit>,
    /// analysis-only numbers
    pub ghost: Vec<Lin>,
}

impl State {
    pub fn new_obj(&mut self, o: Obj) -> ObjId {
        let id = fresh();
        self.objs.insert(id, Rc::new(o));
        id
    }
    pub fn region(&self, id: ObjId) -> Option<&Region> {
        match self.objs.get(&id).map(|r| r.as_ref()) {
            Some(Obj::Region(r)) => Some(r),
            _ => None,
        }
    }
    pub fn region_mut(&mut self, id: ObjId) -> Option<&mut Region> {
        match self.objs.get_mut(&id).map(Rc::make_mut) {
            Some(Obj::Region(r)) => Some(r),
            _ => None,
        }
    }
    pub fn frame(&mut self) -> &mut Frame {
        Rc::make_mut(self.frames.last_mut().unwrap())
    }
    pub fn norm_bool(&self, b: &B) -> B {
        match b {
            B::Unk(i) => self.bools.get(i).map(|b| B::Const(*b)).unwrap_or_else(|| b.clone()),
            B::NotUnk(i) => self.bools.get(i).map(|b| B::Const(!*b)).unwrap_or_else(|| b.clone()),
            B::Ge(l) => {
                let l = self.num.norm(l);
                match l.konst() {
                    Some(k) => B::Const(k >= 0),
                    None => B::Ge(l),
                }
            }
            B::Eq(l) => {
                let l = self.num.norm(l);
                match l.konst() {
                    Some(k) => B::Const(k == 0),
                    None => B::Eq(l),
                }
            }
            B::Ne(l) => {
                let l = self.num.norm(l);
                match l.konst() {
                    Some(k) => B::Const(k != 0),
                    None => B::Ne(l),
                }
            }
            _ => b.clone(),
        }
    }
    /// States in which `b` holds (none, one, or two for a disequality).
    pub fn assume(mut self, b: &B) -> Vec<State> {
        match self.norm_bool(b) {
            B::Const(true) => vec![self],
            B::Const(false) => vec![],
            B::Unk(i) => {
                Rc::make_mut(&mut self.bools).insert(i, true);
                vec![self]
            }
            B::NotUnk(i) => {
                Rc::make_mut(&mut self.bools).insert(i, false);
                vec![self]
            }
            B::Ge(l) => {
                if !self.num.may_ge(&l) {
                    return vec![];
                }
                self.num.ge(&l);
                if self.num.bot { vec![] } else { vec![self] }
            }
            B::Eq(l) => {
                if !self.num.may_eq(&l) {
                    return vec![];
                }
                self.num.eq0(&l);
                if self.num.bot { vec![] } else { vec![self] }
            }
            B::Ne(l) if l.syms().all(crate::models::is_stride) => vec![self],
            B::Ne(l) => {
                let mut out = vec![];
                for c in [l.addk(-1), l.neg().addk(-1)] {
                    if self.num.may_ge(&c) {
                        let mut s = self.clone();
                        s.num.ge(&c);
                        if !s.num.bot {
                            out.push(s);
                        }
                    }
                }
                out
            }
        }
    }
    /// Splits on a condition: (state, truth).
    pub fn split(self, b: &B) -> Vec<(State, bool)> {
        match self.norm_bool(b) {
            B::Const(v) => vec![(self, v)],
            b => {
                let mut out: Vec<(State, bool)> = self.clone().assume(&b).into_iter().map(|s| (s, true)).collect();
                out.extend(self.assume(&b.not()).into_iter().map(|s| (s, false)));
                out
            }
        }
    }
    pub fn seg_lo(&self, r: &Region, i: usize) -> Lin {
        if i == 0 { Lin::c(0) } else { r.segs[i - 1].hi.clone() }
    }
    /// Every object reachable from a value.
    pub fn reach_val(&self, v: &Val, out: &mut BTreeSet<ObjId>) {
        match v {
            Val::Ptr(p) | Val::Fat(p, _) => self.reach_obj(p.obj, out),
            Val::Arr(o) => self.reach_obj(*o, out),
            Val::Agg(f) | Val::Enum(_, f) => f.iter().for_each(|x| self.reach_val(x, out)),
            _ => {}
        }
    }
    pub fn reach_obj(&self, o: ObjId, out: &mut BTreeSet<ObjId>) {
        if !out.insert(o) {
            return;
        }
        match self.objs.get(&o).map(|r| r.as_ref()) {
            Some(Obj::Cell(v)) => self.reach_val(v, out),
            Some(Obj::Region(r)) => {
                for s in &r.segs {
                    if let SVal::One(v) = &s.val {
                        self.reach_val(v, out);
                    }
                }
            }
            None => {}
        }
    }
}

impl State {
    /// A table without slots describes an empty interval.
    pub fn settle_chains(&mut self, o: ObjId) {
        let mut none: Vec<Lin> = vec![];
        let Some(r) = self.region(o) else { return };
        let mut lo = Lin::c(0);
        for s in &r.segs {
            if let SVal::Chain(c) = &s.val
                && self.num.must_eq(&s.hi.sub(&lo))
            {
                none.extend(c.ways.iter().map(|w| w.2.sub(&w.1)));
            }
            lo = s.hi.clone();
        }
        for l in none {
            self.num.eq0(&l);
        }
    }
}
