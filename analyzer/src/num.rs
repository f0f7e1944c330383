//! Linear integer arithmetic: the numeric abstract domain (polyhedra given by constraints).
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt;
use std::rc::Rc;

pub type Sym = u32;

thread_local! {
    static NEXT: RefCell<Sym> = const { RefCell::new(1) };
    static NAMES: RefCell<HashMap<Sym, Rc<str>>> = RefCell::new(HashMap::new());
    pub static LP_CALLS: RefCell<u64> = const { RefCell::new(0) };
    static CACHE: RefCell<HashMap<Vec<Lin>, bool>> = RefCell::new(HashMap::new());
}
pub fn fresh() -> Sym {
    NEXT.with(|n| {
        let mut n = n.borrow_mut();
        *n += 1;
        *n
    })
}
pub fn named(s: &str) -> Sym {
    let x = fresh();
    NAMES.with(|m| m.borrow_mut().insert(x, s.into()));
    x
}

/// k + sum c_i * x_i
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Lin {
    pub k: i128,
    pub t: Vec<(Sym, i128)>,
}
impl fmt::Debug for Lin {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut first = true;
        for &(s, c) in &self.t {
            let n = NAMES.with(|m| m.borrow().get(&s).map(|x| format!("{x}{s}"))).unwrap_or(format!("x{s}"));
            if c == 1 {
                write!(f, "{}{}", if first { "" } else { "+" }, n)?;
            } else if c == -1 {
                write!(f, "-{n}")?;
            } else {
                write!(f, "{}{}{}", if c > 0 && !first { "+" } else { "" }, c, n)?;
            }
            first = false;
        }
        if self.k != 0 || first {
            write!(f, "{}{}", if self.k >= 0 && !first { "+" } else { "" }, self.k)?;
        }
        Ok(())
    }
}
pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}
impl Lin {
    pub fn c(k: i128) -> Lin {
        Lin { k, t: vec![] }
    }
    pub fn s(x: Sym) -> Lin {
        Lin { k: 0, t: vec![(x, 1)] }
    }
    pub fn konst(&self) -> Option<i128> {
        self.t.is_empty().then_some(self.k)
    }
    pub fn single(&self) -> Option<Sym> {
        (self.k == 0 && self.t.len() == 1 && self.t[0].1 == 1).then(|| self.t[0].0)
    }
    pub fn addm(&self, o: &Lin, m: i128) -> Lin {
        if m == 0 {
            return self.clone();
        }
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, o.t[j].1.wrapping_mul(m)));
                j += 1;
            } else {
                let c = self.t[i].1.wrapping_add(o.t[j].1.wrapping_mul(m));
                if c != 0 {
                    t.push((self.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        Lin { k: self.k.wrapping_add(o.k.wrapping_mul(m)), t }
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.addm(o, 1)
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.addm(o, -1)
    }
    pub fn addk(&self, k: i128) -> Lin {
        Lin { k: self.k + k, t: self.t.clone() }
    }
    pub fn mul(&self, m: i128) -> Lin {
        if m == 0 {
            return Lin::c(0);
        }
        Lin { k: self.k.wrapping_mul(m), t: self.t.iter().map(|&(s, c)| (s, c.wrapping_mul(m))).collect() }
    }
    pub fn neg(&self) -> Lin {
        self.mul(-1)
    }
    pub fn coef(&self, x: Sym) -> i128 {
        self.t.binary_search_by_key(&x, |p| p.0).map(|i| self.t[i].1).unwrap_or(0)
    }
    pub fn subst(&self, x: Sym, l: &Lin) -> Lin {
        let c = self.coef(x);
        if c == 0 {
            return self.clone();
        }
        let mut r = self.clone();
        r.t.retain(|p| p.0 != x);
        r.addm(l, c)
    }
    pub fn rename(&self, m: &mut dyn FnMut(Sym) -> Lin) -> Lin {
        let mut r = Lin::c(self.k);
        for &(s, c) in &self.t {
            r = r.addm(&m(s), c);
        }
        r
    }
    pub fn syms(&self) -> impl Iterator<Item = Sym> + '_ {
        self.t.iter().map(|p| p.0)
    }
    /// Divides by the content of the coefficients, rounding the constant down (valid for `>= 0`).
    pub fn tighten(&self) -> Lin {
        let mut g = 0;
        for p in &self.t {
            g = gcd(g, p.1);
        }
        if g <= 1 {
            return self.clone();
        }
        Lin { k: self.k.div_euclid(g), t: self.t.iter().map(|&(s, c)| (s, c / g)).collect() }
    }
    pub fn exact_div(&self, d: i128) -> Option<Lin> {
        if d == 0 || self.k % d != 0 || self.t.iter().any(|p| p.1 % d != 0) {
            return None;
        }
        Some(Lin { k: self.k / d, t: self.t.iter().map(|&(s, c)| (s, c / d)).collect() })
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}
#[derive(Debug)]
pub struct Overflow;
type R<T> = Result<T, Overflow>;
impl Q {
    pub const ZERO: Q = Q { n: 0, d: 1 };
    pub const ONE: Q = Q { n: 1, d: 1 };
    pub fn i(n: i128) -> Q {
        Q { n, d: 1 }
    }
    fn mk(n: i128, d: i128) -> Q {
        if d == 1 {
            return Q { n, d };
        }
        let g = gcd(n, d);
        let s = if d < 0 { -1 } else { 1 };
        Q { n: s * n / g, d: s * d / g }
    }
    pub fn add(self, o: Q) -> R<Q> {
        if self.d == 1 && o.d == 1 {
            return Ok(Q { n: self.n.checked_add(o.n).ok_or(Overflow)?, d: 1 });
        }
        let a = self.n.checked_mul(o.d).ok_or(Overflow)?;
        let b = o.n.checked_mul(self.d).ok_or(Overflow)?;
        Ok(Q::mk(a.checked_add(b).ok_or(Overflow)?, self.d.checked_mul(o.d).ok_or(Overflow)?))
    }
    pub fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
    pub fn sub(self, o: Q) -> R<Q> {
        self.add(o.neg())
    }
    pub fn mul(self, o: Q) -> R<Q> {
        if self.n == 0 || o.n == 0 {
            return Ok(Q::ZERO);
        }
        if self.d == 1 && o.d == 1 {
            return Ok(Q { n: self.n.checked_mul(o.n).ok_or(Overflow)?, d: 1 });
        }
        Ok(Q::mk(self.n.checked_mul(o.n).ok_or(Overflow)?, self.d.checked_mul(o.d).ok_or(Overflow)?))
    }
    pub fn div(self, o: Q) -> R<Q> {
        self.mul(Q::mk(o.d, o.n))
    }
    pub fn lt(self, o: Q) -> R<bool> {
        if self.d == o.d {
            return Ok(self.n < o.n);
        }
        Ok(self.sub(o)?.n < 0)
    }
    pub fn floor(self) -> i128 {
        self.n.div_euclid(self.d)
    }
}

/// General simplex over constraints `lin >= 0` with free variables.
struct Lp {
    /// number of columns: original variables then slacks
    n: usize,
    rows: Vec<Vec<Q>>,   // row i: basic[i] = sum rows[i][j] * x_j over non-basic j
    basic: Vec<usize>,   // variable of row i
    is_basic: Vec<Option<usize>>,
    lower: Vec<Option<Q>>,
    val: Vec<Q>,
}
impl Lp {
    fn new(cs: &[&Lin], vars: &[Sym]) -> Lp {
        let nv = vars.len();
        let m = cs.len();
        let idx: HashMap<Sym, usize> = vars.iter().enumerate().map(|(i, &s)| (s, i)).collect();
        let n = nv + m;
        let mut rows = Vec::with_capacity(m);
        let mut lower = vec![None; n];
        for (i, c) in cs.iter().enumerate() {
            let mut r = vec![Q::ZERO; n];
            for &(s, k) in &c.t {
                r[idx[&s]] = Q::i(k);
            }
            rows.push(r);
            lower[nv + i] = Some(Q::i(-c.k));
        }
        let mut is_basic = vec![None; n];
        for i in 0..m {
            is_basic[nv + i] = Some(i);
        }
        Lp { n, rows, basic: (nv..n).collect(), is_basic, lower, val: vec![Q::ZERO; n] }
    }
    fn pivot(&mut self, r: usize, j: usize) -> R<()> {
        let b = self.basic[r];
        let a = self.rows[r][j];
        // x_b = ... + a x_j  =>  x_j = x_b / a - ...
        let mut row = std::mem::take(&mut self.rows[r]);
        row[j] = Q::ZERO;
        let inv = Q::ONE.div(a)?;
        for q in row.iter_mut() {
            if q.n != 0 {
                *q = q.mul(inv)?.neg();
            }
        }
        row[b] = inv;
        for i in 0..self.rows.len() {
            if i == r {
                continue;
            }
            let c = self.rows[i][j];
            if c.n == 0 {
                continue;
            }
            self.rows[i][j] = Q::ZERO;
            for k in 0..self.n {
                if row[k].n != 0 {
                    self.rows[i][k] = self.rows[i][k].add(c.mul(row[k])?)?;
                }
            }
        }
        self.rows[r] = row;
        self.basic[r] = j;
        self.is_basic[b] = None;
        self.is_basic[j] = Some(r);
        Ok(())
    }
    fn recompute(&mut self) -> R<()> {
        for i in 0..self.rows.len() {
            let mut v = Q::ZERO;
            for k in 0..self.n {
                if self.rows[i][k].n != 0 && self.val[k].n != 0 {
                    v = v.add(self.rows[i][k].mul(self.val[k])?)?;
                }
            }
            let b = self.basic[i];
            self.val[b] = v;
        }
        Ok(())
    }
    /// Some(true) feasible
    fn check(&mut self) -> R<bool> {
        let mut steps = 0;
        loop {
            steps += 1;
            if steps > 2000 {
                return Err(Overflow);
            }
            // Bland: smallest violated basic variable
            let mut pick: Option<(usize, usize)> = None;
            for (i, &b) in self.basic.iter().enumerate() {
                if let Some(l) = self.lower[b]
                    && self.val[b].lt(l)?
                    && pick.is_none_or(|(_, pb)| b < pb)
                {
                    pick = Some((i, b));
                }
            }
            let Some((r, b)) = pick else { return Ok(true) };
            let l = self.lower[b].unwrap();
            let mut ent = None;
            for j in 0..self.n {
                if self.is_basic[j].is_some() {
                    continue;
                }
                let a = self.rows[r][j];
                if a.n == 0 {
                    continue;
                }
                // increase x_b: a>0 increase x_j (always possible, no upper bounds), a<0 decrease x_j (possible if above lower)
                let ok = if a.n > 0 {
                    true
                } else {
                    match self.lower[j] {
                        None => true,
                        Some(lj) => lj.lt(self.val[j])?,
                    }
                };
                if ok {
                    ent = Some(j);
                    break;
                }
            }
            let Some(j) = ent else { return Ok(false) };
            // move x_j so that x_b = l
            let a = self.rows[r][j];
            let delta = l.sub(self.val[b])?.div(a)?;
            let newj = self.val[j].add(delta)?;
            self.pivot(r, j)?;
            self.val[b] = l;
            self.val[j] = newj;
            // with x_b at its bound and all other non-basics unchanged recompute
            self.recompute()?;
        }
    }
    /// Maximises an objective over the original variables from a feasible basis; None when unbounded.
    fn maximize(&mut self, obj: &[(usize, Q)]) -> R<Option<Q>> {
        let mut steps = 0;
        loop {
            steps += 1;
            if steps > 2000 {
                return Err(Overflow);
            }
            // reduced costs over non-basic
            let mut c = vec![Q::ZERO; self.n];
            for &(v, k) in obj {
                match self.is_basic[v] {
                    None => c[v] = c[v].add(k)?,
                    Some(r) => {
                        for j in 0..self.n {
                            if self.rows[r][j].n != 0 {
                                c[j] = c[j].add(k.mul(self.rows[r][j])?)?;
                            }
                        }
                    }
                }
            }
            let mut ent = None;
            for j in 0..self.n {
                if self.is_basic[j].is_some() || c[j].n == 0 {
                    continue;
                }
                if c[j].n > 0 {
                    ent = Some((j, 1));
                    break;
                }
                // decrease
                let can = match self.lower[j] {
                    None => true,
                    Some(l) => l.lt(self.val[j])?,
                };
                if can {
                    ent = Some((j, -1));
                    break;
                }
            }
            let Some((j, dir)) = ent else {
                let mut v = Q::ZERO;
                for &(x, k) in obj {
                    v = v.add(k.mul(self.val[x])?)?;
                }
                return Ok(Some(v));
            };
            // ratio test
            let mut best: Option<(Q, usize)> = None;
            for r in 0..self.rows.len() {
                let a = self.rows[r][j];
                if a.n == 0 {
                    continue;
                }
                let d = if dir > 0 { a } else { a.neg() };
                if d.n < 0 {
                    let b = self.basic[r];
                    if let Some(l) = self.lower[b] {
                        let t = self.val[b].sub(l)?.div(d.neg())?;
                        let better = match best {
                            None => true,
                            Some((bt, br)) => t.lt(bt)? || (t == bt && b < self.basic[br]),
                        };
                        if better {
                            best = Some((t, r));
                        }
                    }
                }
            }
            let own = if dir < 0 { self.lower[j] } else { None };
            if let Some(l) = own {
                let t = self.val[j].sub(l)?;
                if best.is_none() || !best.unwrap().0.lt(t)? {
                    self.val[j] = l;
                    self.recompute()?;
                    continue;
                }
            }
            let Some((t, r)) = best else { return Ok(None) };
            let newj = if dir > 0 { self.val[j].add(t)? } else { self.val[j].sub(t)? };
            let b = self.basic[r];
            let lb = self.lower[b].unwrap();
            self.pivot(r, j)?;
            self.val[b] = lb;
            self.val[j] = newj;
            self.recompute()?;
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Num {
    /// each `>= 0`
    pub ge: Rc<Vec<Lin>>,
    /// solved equalities; right-hand sides contain no solved symbol
    pub eq: Rc<BTreeMap<Sym, Lin>>,
    /// equalities without a unit coefficient, `== 0`
    pub eq2: Rc<Vec<Lin>>,
    pub bot: bool,
}
impl Num {
    pub fn norm(&self, l: &Lin) -> Lin {
        if self.eq.is_empty() || !l.t.iter().any(|p| self.eq.contains_key(&p.0)) {
            return l.clone();
        }
        let mut r = Lin::c(l.k);
        for &(s, c) in &l.t {
            match self.eq.get(&s) {
                Some(e) => r = r.addm(e, c),
                None => r = r.addm(&Lin::s(s), c),
            }
        }
        r
    }
    pub fn konst(&self, l: &Lin) -> Option<i128> {
        self.norm(l).konst()
    }
    /// Adds `l >= 0` without checking feasibility beyond constants.
    pub fn ge(&mut self, l: &Lin) {
        let l = self.norm(l).tighten();
        if let Some(k) = l.konst() {
            if k < 0 {
                self.bot = true;
            }
            return;
        }
        // dominated?
        let mut eq = None;
        for (i, g) in self.ge.iter().enumerate() {
            if g.t == l.t {
                if g.k <= l.k {
                    return;
                }
                let v = Rc::make_mut(&mut self.ge);
                v[i] = l.clone();
                eq = Some(());
                break;
            }
        }
        if eq.is_none() {
            Rc::make_mut(&mut self.ge).push(l.clone());
        }
        // opposite constraint makes an equality
        let n = l.neg();
        if let Some(o) = self.ge.iter().find(|g| g.t == n.t) {
            if o.k + l.k < 0 {
                self.bot = true;
            } else if o.k + l.k == 0 {
                self.eq0(&l);
            }
        }
    }
    /// Adds `l == 0`.
    pub fn eq0(&mut self, l: &Lin) {
        let l = self.norm(l);
        if let Some(k) = l.konst() {
            if k != 0 {
                self.bot = true;
            }
            return;
        }
        let mut g = 0;
        for p in &l.t {
            g = gcd(g, p.1);
        }
        if l.k % g != 0 {
            self.bot = true;
            return;
        }
        let l = Lin { k: l.k / g, t: l.t.iter().map(|&(s, c)| (s, c / g)).collect() };
        // newest symbol with a unit coefficient
        if let Some(&(x, c)) = l.t.iter().rev().find(|p| p.1.abs() == 1) {
            // c x + rest = 0 => x = -c * rest
            let mut rest = l.clone();
            rest.t.retain(|p| p.0 != x);
            let def = rest.mul(-c);
            let eqm = Rc::make_mut(&mut self.eq);
            for v in eqm.values_mut() {
                *v = v.subst(x, &def);
            }
            eqm.insert(x, def.clone());
            if self.ge.iter().any(|g| g.coef(x) != 0) {
                let old = std::mem::take(&mut self.ge);
                let mut keep = Vec::with_capacity(old.len());
                let mut re = vec![];
                for g in old.iter() {
                    if g.coef(x) != 0 { re.push(g.subst(x, &def)) } else { keep.push(g.clone()) }
                }
                self.ge = Rc::new(keep);
                for g in re {
                    self.ge(&g);
                }
            }
            if self.eq2.iter().any(|g| g.coef(x) != 0) {
                let old = std::mem::take(&mut self.eq2);
                for g in old.iter() {
                    self.eq0(&g.subst(x, &def));
                }
            }
        } else if !self.eq2.contains(&l) {
            Rc::make_mut(&mut self.eq2).push(l);
        }
    }
    fn component(&self, extra: &Lin) -> Vec<&Lin> {
        let mut syms: BTreeSet<Sym> = extra.syms().collect();
        let n = self.ge.len();
        let mut inn = vec![false; n];
        let mut inn2 = vec![false; self.eq2.len()];
        loop {
            let mut ch = false;
            for (i, g) in self.ge.iter().enumerate() {
                if !inn[i] && g.syms().any(|s| syms.contains(&s)) {
                    inn[i] = true;
                    ch = true;
                    syms.extend(g.syms());
                }
            }
            for (i, g) in self.eq2.iter().enumerate() {
                if !inn2[i] && g.syms().any(|s| syms.contains(&s)) {
                    inn2[i] = true;
                    ch = true;
                    syms.extend(g.syms());
                }
            }
            if !ch {
                break;
            }
        }
        let mut v: Vec<&Lin> = self.ge.iter().zip(&inn).filter(|p| *p.1).map(|p| p.0).collect();
        v.extend(self.eq2.iter().zip(&inn2).filter(|p| *p.1).map(|p| p.0));
        v
    }
    fn lp_feasible(cs: &[Lin]) -> bool {
        let mut cs: Vec<Lin> = cs.to_vec();
        cs.sort();
        cs.dedup();
        if let Some(r) = CACHE.with(|c| c.borrow().get(&cs).copied()) {
            return r;
        }
        LP_CALLS.with(|c| *c.borrow_mut() += 1);
        let vars: Vec<Sym> = cs.iter().flat_map(|c| c.syms()).collect::<BTreeSet<_>>().into_iter().collect();
        let refs: Vec<&Lin> = cs.iter().collect();
        let r = Lp::new(&refs, &vars).check().unwrap_or(true);
        CACHE.with(|c| {
            let mut c = c.borrow_mut();
            if c.len() > 400_000 {
                c.clear();
            }
            c.insert(cs, r);
        });
        r
    }
    /// May `l >= 0` hold?
    pub fn may_ge(&self, l: &Lin) -> bool {
        if self.bot {
            return false;
        }
        let l = self.norm(l).tighten();
        if let Some(k) = l.konst() {
            return k >= 0;
        }
        // quick refutation and confirmation on a single opposite constraint
        let n = l.neg();
        for g in self.ge.iter() {
            if g.t == n.t && g.k + l.k < 0 {
                return false;
            }
            if g.t == l.t && g.k <= l.k {
                return true;
            }
        }
        let comp = self.component(&l);
        let mut cs: Vec<Lin> = Vec::with_capacity(comp.len() + 1);
        for c in comp {
            if self.eq2.contains(c) {
                cs.push(c.neg());
            }
            cs.push(c.clone());
        }
        cs.push(l);
        Num::lp_feasible(&cs)
    }
    pub fn must_ge(&self, l: &Lin) -> bool {
        !self.may_ge(&l.neg().addk(-1))
    }
    pub fn must_eq(&self, l: &Lin) -> bool {
        let l = self.norm(l);
        match l.konst() {
            Some(k) => k == 0,
            None => self.must_ge(&l) && self.must_ge(&l.neg()),
        }
    }
    pub fn may_eq(&self, l: &Lin) -> bool {
        let l = self.norm(l);
        match l.konst() {
            Some(k) => k == 0 && !self.bot,
            None => {
                if self.bot {
                    return false;
                }
                let mut cs: Vec<Lin> = vec![l.clone(), l.neg()];
                for c in self.component(&l) {
                    if self.eq2.contains(c) {
                        cs.push(c.neg());
                    }
                    cs.push(c.clone());
                }
                Num::lp_feasible(&cs)
            }
        }
    }
    /// Feasibility of the part connected to `l`.
    pub fn feasible_at(&self, l: &Lin) -> bool {
        if self.bot {
            return false;
        }
        let l = self.norm(l);
        let comp = self.component(&l);
        let mut cs: Vec<Lin> = Vec::with_capacity(comp.len() + 1);
        for c in comp {
            if self.eq2.contains(c) {
                cs.push(c.neg());
            }
            cs.push(c.clone());
        }
        cs.is_empty() || Num::lp_feasible(&cs)
    }
    /// Least upper bound of `l`, rounded down.
    pub fn max(&self, l: &Lin) -> Option<i128> {
        let l = self.norm(l);
        if let Some(k) = l.konst() {
            return Some(k);
        }
        let comp = self.component(&l);
        let mut cs: Vec<Lin> = Vec::with_capacity(comp.len() + 1);
        for c in comp {
            if self.eq2.contains(c) {
                cs.push(c.neg());
            }
            cs.push(c.clone());
        }
        if cs.is_empty() {
            return None;
        }
        LP_CALLS.with(|c| *c.borrow_mut() += 1);
        let vars: Vec<Sym> = cs.iter().flat_map(|c| c.syms()).chain(l.syms()).collect::<BTreeSet<_>>().into_iter().collect();
        let idx: HashMap<Sym, usize> = vars.iter().enumerate().map(|(i, &s)| (s, i)).collect();
        let refs: Vec<&Lin> = cs.iter().collect();
        let mut lp = Lp::new(&refs, &vars);
        match lp.check() {
            Ok(true) => {}
            _ => return None,
        }
        let obj: Vec<(usize, Q)> = l.t.iter().map(|&(s, c)| (idx[&s], Q::i(c))).collect();
        match lp.maximize(&obj) {
            Ok(Some(q)) => Some(q.floor() + l.k),
            _ => None,
        }
    }
    pub fn min(&self, l: &Lin) -> Option<i128> {
        self.max(&l.neg()).map(|x| -x)
    }
    /// All facts as `>= 0` constraints (equalities twice).
    pub fn all(&self) -> Vec<Lin> {
        let mut v: Vec<Lin> = self.ge.as_ref().clone();
        for (&x, d) in self.eq.iter() {
            let e = Lin::s(x).sub(d);
            v.push(e.neg());
            v.push(e);
        }
        for e in self.eq2.iter() {
            v.push(e.neg());
            v.push(e.clone());
        }
        v
    }
    /// Existential projection (an over-approximation) onto `keep`.
    pub fn project(&self, keep: &BTreeSet<Sym>) -> Num {
        if self.bot {
            return self.clone();
        }
        // equalities: a kept symbol defined through dropped ones wants the dropped ones eliminated
        let mut eqs: Vec<Lin> = self.eq.iter().filter(|(x, d)| keep.contains(x) || d.syms().any(|s| keep.contains(&s))).map(|(&x, d)| Lin::s(x).sub(d)).collect();
        eqs.extend(self.eq2.iter().cloned());
        let mut ges: Vec<Lin> = self.ge.as_ref().clone();
        // drop unrelated components
        loop {
            let mut el: Option<(Sym, usize)> = None;
            'f: for (i, e) in eqs.iter().enumerate() {
                for &(s, c) in &e.t {
                    if !keep.contains(&s) && c.abs() == 1 {
                        el = Some((s, i));
                        break 'f;
                    }
                }
            }
            let Some((s, i)) = el else { break };
            let e = eqs.swap_remove(i);
            let c = e.coef(s);
            let mut rest = e.clone();
            rest.t.retain(|p| p.0 != s);
            let def = rest.mul(-c);
            for x in eqs.iter_mut() {
                *x = x.subst(s, &def);
            }
            for x in ges.iter_mut() {
                *x = x.subst(s, &def).tighten();
            }
            eqs.retain(|e| !e.t.is_empty());
        }
        // eliminate non-unit: turn the remaining equalities that mention dropped symbols into inequalities
        let (keepeq, rest): (Vec<Lin>, Vec<Lin>) = eqs.into_iter().partition(|e| e.syms().all(|s| keep.contains(&s)));
        for e in rest {
            ges.push(e.neg());
            ges.push(e);
        }
        let dedupe = |v: &mut Vec<Lin>| {
            v.sort_by(|a, b| a.t.cmp(&b.t).then(a.k.cmp(&b.k)));
            v.dedup_by(|b, a| a.t == b.t);
            v.retain(|l| !l.t.is_empty());
        };
        dedupe(&mut ges);
        // restrict to constraints connected to kept symbols
        let mut related: BTreeSet<Sym> = keep.clone();
        loop {
            let before = related.len();
            for g in &ges {
                if g.syms().any(|s| related.contains(&s)) {
                    related.extend(g.syms());
                }
            }
            if related.len() == before {
                break;
            }
        }
        ges.retain(|g| g.syms().any(|s| related.contains(&s)));
        loop {
            let mut count: BTreeMap<Sym, (usize, usize)> = BTreeMap::new();
            for g in &ges {
                for &(s, c) in &g.t {
                    if !keep.contains(&s) {
                        let e = count.entry(s).or_default();
                        if c > 0 { e.0 += 1 } else { e.1 += 1 }
                    }
                }
            }
            let Some((&s, &(p, n))) = count.iter().min_by_key(|(_, (p, n))| (*p as i64) * (*n as i64) - (*p as i64) - (*n as i64)) else { break };
            let (with, without): (Vec<Lin>, Vec<Lin>) = ges.into_iter().partition(|g| g.coef(s) != 0);
            ges = without;
            if p * n <= 60 {
                for a in with.iter().filter(|g| g.coef(s) > 0) {
                    for b in with.iter().filter(|g| g.coef(s) < 0) {
                        let (ca, cb) = (a.coef(s), -b.coef(s));
                        let g = gcd(ca, cb);
                        let r = a.mul(cb / g).addm(b, ca / g).tighten();
                        debug_assert!(r.coef(s) == 0);
                        if r.t.len() <= 5 && r.t.iter().all(|p| p.1.abs() < 1 << 40) {
                            ges.push(r);
                        }
                    }
                }
                dedupe(&mut ges);
                if ges.len() > 90 {
                    // prefer short constraints
                    ges.sort_by_key(|g| g.t.len());
                    ges.truncate(90);
                }
            }
        }
        let mut r = Num::default();
        for e in keepeq {
            r.eq0(&e);
        }
        for g in ges {
            r.ge(&g);
        }
        r
    }
    /// Removes constraints entailed by the others.
    pub fn reduce(&mut self) {
        let v = self.ge.as_ref().clone();
        let mut keep: Vec<Lin> = v.clone();
        let mut i = 0;
        keep.sort_by_key(|l| l.t.len());
        keep.reverse();
        while i < keep.len() {
            let c = keep.remove(i);
            let n = Num { ge: Rc::new(keep.clone()), eq: self.eq.clone(), eq2: self.eq2.clone(), bot: false };
            if !n.must_ge(&c) {
                keep.insert(i, c);
                i += 1;
            }
        }
        self.ge = Rc::new(keep);
    }
}

/// Join of two numeric states. `defs` are the new symbols with their meaning on either side; `keep` the
/// symbols of the result (including the new ones); `terms` are expressions over `keep` worth bounding.
pub fn join_mode(a: &Num, b: &Num, defs: &[(Sym, Lin, Lin)], keep: &BTreeSet<Sym>, terms: &[Lin], mode: u32, steps: &[i128], invs: &[Lin]) -> Num {
    // 0: plain, 1: with difference templates, 2: widening (only constraints of `a` survive)
    if a.bot {
        let mut n = b.clone();
        for (z, _, l) in defs {
            n.eq0(&Lin::s(*z).sub(l));
        }
        return n;
    }
    if b.bot {
        let mut n = a.clone();
        for (z, l, _) in defs {
            n.eq0(&Lin::s(*z).sub(l));
        }
        return n;
    }
    let mut na = a.clone();
    let mut nb = b.clone();
    for (z, la, lb) in defs {
        na.eq0(&Lin::s(*z).sub(la));
        nb.eq0(&Lin::s(*z).sub(lb));
    }
    let mut out = Num::default();
    let mut combs: Vec<Lin> = vec![];
    // affine dependencies between the new symbols
    // vectors d_i = la_i - lb_i over common symbols; sum w_i d_i = 0 gives sum w_i z_i = sum w_i la_i
    let mut basis: Vec<(Lin, Lin)> = vec![]; // (vector, combination: over z and la)
    for (z, la, lb) in defs {
        let la = a.norm(la);
        let lbn = b.norm(lb);
        let mut d = la.sub(&lbn);
        let mut comb = Lin::s(*z).sub(&la);
        // eliminate; treat the constant as one more coordinate with pseudo-symbol 0
        let lead = |l: &Lin| -> Option<(Sym, i128)> { l.t.first().copied().or(if l.k != 0 { Some((0, l.k)) } else { None }) };
        for (bd, bc) in &basis {
            let (s, c) = lead(bd).unwrap();
            let v = if s == 0 { if d.t.is_empty() { d.k } else { 0 } } else { d.coef(s) };
            if v != 0 {
                let g = gcd(v, c);
                let (md, mb) = (c / g, v / g);
                d = d.mul(md).addm(bd, -mb);
                comb = comb.mul(md).addm(bc, -mb);
            }
        }
        if d.t.is_empty() && d.k == 0 {
            if comb.t.iter().all(|p| p.1.abs() < 1 << 40) && na.must_eq(&comb) && nb.must_eq(&comb) {
                if comb.syms().all(|s| keep.contains(&s)) {
                    out.eq0(&comb);
                } else {
                    // an unknown that is about to be forgotten still ties new ones together
                    combs.push(comb);
                }
            }
        } else {
            basis.push((d, comb));
            basis.sort_by_key(|(d, _)| lead(d).map(|l| if l.0 == 0 { Sym::MAX } else { l.0 }).unwrap_or(Sym::MAX));
        }
    }
    // unknowns known on one side that only grow or only shrink on the other
    let mut ties: [Vec<(Sym, i128, i128)>; 2] = [vec![], vec![]];
    if mode != 2 {
        for (i, t) in ties.iter_mut().enumerate() {
            for (z, la, lb) in defs {
                let (la, lb) = if i == 0 { (a.norm(la), b.norm(lb)) } else { (b.norm(lb), a.norm(la)) };
                let o = if i == 0 { b } else { a };
                let Some(x) = la.konst() else { continue };
                if lb.konst() == Some(x) {
                    continue;
                }
                if o.must_ge(&lb.addk(-x)) && !o.must_ge(&lb.addk(-x - 4)) {
                    t.push((*z, x, 1));
                } else if o.must_ge(&lb.neg().addk(x)) && !o.must_ge(&lb.neg().addk(x - 4)) {
                    t.push((*z, x, -1));
                }
            }
            t.truncate(4);
        }
    }
    let candidates = |keep: &BTreeSet<Sym>| -> Vec<Lin> {
        let pa = na.project(keep);
        let pb = if mode == 2 { Num::default() } else { nb.project(keep) };
        let mut cands: Vec<Lin> = vec![];
        for (i, (p, o)) in [(&pa, &nb), (&pb, &na)].into_iter().enumerate() {
            if mode == 2 && i == 1 {
                break;
            }
            for c in p.all() {
                if cands.contains(&c) {
                    continue;
                }
                let big = c.t.iter().map(|p| p.1.abs()).max().unwrap_or(0);
                let own = if i == 0 { &na } else { &nb };
                if (big > 4 || mode != 0 && big > 2 && c.t.len() > 2) && !own.ge.contains(&own.norm(&c)) {
                    continue;
                }
                if o.must_ge(&c) {
                    if mode != 2 && c.t.len() >= 2 && !ties[i].is_empty() && o.must_ge(&c.addk(-1)) {
                        for (z, x, k) in &ties[i] {
                            let c2 = c.add(&Lin::s(*z).addk(-x).mul(-k));
                            if keep.contains(z) && o.must_ge(&c2) {
                                cands.push(c2);
                            }
                        }
                    }
                    cands.push(c);
                } else if mode != 2 {
                    let Some(m) = o.min(&c) else { continue };
                    if m >= 0 || m < -(1 << 20) {
                        continue;
                    }
                    if c.t.len() <= 2 {
                        // weaken the constant
                        cands.push(c.addk(-m));
                    }
                    if c.t.len() >= 2 && m >= -4 {
                        // or tie it to an unknown that is known here and moves along there
                        for (z, la, lb) in defs {
                            let (la, lb) = if i == 0 { (a.norm(la), b.norm(lb)) } else { (b.norm(lb), a.norm(la)) };
                            let Some(x) = la.konst() else { continue };
                            if !keep.contains(z) || lb.konst() == Some(x) {
                                continue;
                            }
                            let k = if o.must_ge(&lb.addk(-x)) {
                                1
                            } else if o.must_ge(&lb.neg().addk(x)) {
                                -1
                            } else {
                                continue;
                            };
                            let c2 = c.add(&Lin::s(*z).addk(-x).mul(k));
                            if o.must_ge(&c2) {
                                cands.push(c2);
                            }
                        }
                    }
                }
            }
        }
        cands
    };
    for c in candidates(keep) {
        out.ge(&c);
    }
    if !combs.is_empty() && combs.len() <= 12 {
        let mut wide = keep.clone();
        for c in &combs {
            wide.extend(c.syms());
        }
        let mut o2 = Num::default();
        for c in candidates(&wide) {
            o2.ge(&c);
        }
        for c in &combs {
            o2.eq0(c);
        }
        for c in o2.project(keep).all() {
            // (a bound that gives way a little each time is not worth keeping)
            if !out.must_ge(&c) && !(mode == 2 && c.t.len() <= 2 && na.must_ge(&c.addk(-1))) {
                out.ge(&c);
            }
        }
    }
    for c in invs {
        if !out.must_ge(c) && na.must_ge(c) && nb.must_ge(c) {
            out.ge(c);
        }
    }
    if mode == 2 && !steps.is_empty() {
        // the next known constant
        for (z, _, _) in defs {
            let t = Lin::s(*z);
            let tn = out.norm(&t);
            if tn.konst().is_some() {
                continue;
            }
            let (Some(ma), Some(mb)) = (na.max(&t), nb.max(&t)) else { continue };
            let m = ma.max(mb);
            if let Some(k) = steps.iter().filter(|k| **k >= m).min() {
                let c = Lin::c(*k).sub(&t);
                if !out.must_ge(&c) {
                    out.ge(&c);
                }
            }
        }
    }
    // templates
    let zs: Vec<Lin> = if mode != 0 || defs.len() <= 2 { defs.iter().map(|d| Lin::s(d.0)).collect() } else { vec![] };
    // (what moves may not be measured against where it was)
    let olds: BTreeSet<Sym> = defs.iter().flat_map(|d| a.norm(&d.1).syms().collect::<Vec<_>>()).filter(|s| defs.iter().any(|d| b.norm(&d.2).sub(&a.norm(&d.1)).t.is_empty() && a.norm(&d.1).coef(*s) != 0)).collect();
    let mut ts: Vec<Lin> = vec![];
    for (i, z) in zs.iter().enumerate() {
        ts.push(z.clone());
        for (j, y) in terms.iter().chain(zs.iter()).enumerate() {
            if j >= terms.len() && (mode == 0 || j - terms.len() <= i) {
                continue;
            }
            if y == z {
                continue;
            }
            ts.push(z.sub(y));
        }
    }
    for t in ts {
        for t in [t.clone(), t.neg()] {
            // t <= c
            let tn = out.norm(&t);
            if tn.konst().is_some() {
                continue;
            }
            let Some(ma) = na.max(&t) else { continue };
            let m = if mode == 2 {
                // only what was stable, or a threshold worth trying
                if nb.must_ge(&Lin::c(ma).sub(&t)) {
                    ma
                } else if ma < 1 && !t.syms().any(|s| olds.contains(&s)) {
                    let Some(k) = (-1..=1).find(|k| *k > ma && nb.must_ge(&Lin::c(*k).sub(&t))) else { continue };
                    k
                } else {
                    continue;
                }
            } else {
                let Some(mb) = nb.max(&t) else { continue };
                ma.max(mb)
            };
            let c = Lin::c(m).sub(&t);
            if !out.must_ge(&c) {
                out.ge(&c);
            }
        }
    }
    if out.ge.len() > 60 {
        out.reduce();
    }
    out
}
