//! Numeric domain: linear forms over hash-consed atoms, with intervals,
//! linear inequality facts, disequalities and substitutions.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::rc::Rc;

pub type AtomId = u32;
pub const PINF: i128 = i128::MAX;
pub const NINF: i128 = i128::MIN;

/// k + sum c_i * a_i
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Form {
    pub k: i128,
    pub t: Option<Rc<[(AtomId, i128)]>>,
}

impl Form {
    pub fn c(k: i128) -> Form {
        Form { k, t: None }
    }
    pub fn atom(a: AtomId) -> Form {
        Form { k: 0, t: Some(Rc::from(vec![(a, 1)])) }
    }
    fn mk(k: i128, v: Vec<(AtomId, i128)>) -> Form {
        if v.is_empty() {
            Form { k, t: None }
        } else {
            Form { k, t: Some(Rc::from(v)) }
        }
    }
    pub fn terms(&self) -> &[(AtomId, i128)] {
        match &self.t {
            Some(t) => t,
            None => &[],
        }
    }
    pub fn konst(&self) -> Option<i128> {
        if self.t.is_none() {
            Some(self.k)
        } else {
            None
        }
    }
    pub fn is_c(&self, v: i128) -> bool {
        self.t.is_none() && self.k == v
    }
    pub fn single(&self) -> Option<(AtomId, i128)> {
        match self.terms() {
            [x] => Some(*x),
            _ => None,
        }
    }
    pub fn coef(&self, a: AtomId) -> i128 {
        match self.terms().binary_search_by_key(&a, |x| x.0) {
            Ok(i) => self.terms()[i].1,
            Err(_) => 0,
        }
    }
    /// self * x + o * y
    pub fn lin(&self, x: i128, o: &Form, y: i128) -> Option<Form> {
        let k = self.k.checked_mul(x)?.checked_add(o.k.checked_mul(y)?)?;
        let (a, b) = (self.terms(), o.terms());
        let mut v = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
                let c = a[i].1.checked_mul(x)?;
                if c != 0 {
                    v.push((a[i].0, c));
                }
                i += 1;
            } else if i >= a.len() || b[j].0 < a[i].0 {
                let c = b[j].1.checked_mul(y)?;
                if c != 0 {
                    v.push((b[j].0, c));
                }
                j += 1;
            } else {
                let c = a[i].1.checked_mul(x)?.checked_add(b[j].1.checked_mul(y)?)?;
                if c != 0 {
                    v.push((a[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        Some(Form::mk(k, v))
    }
    pub fn try_add(&self, o: &Form) -> Option<Form> {
        self.lin(1, o, 1)
    }
    pub fn add(&self, o: &Form) -> Form {
        self.lin(1, o, 1).expect("form overflow")
    }
    pub fn sub(&self, o: &Form) -> Form {
        self.lin(1, o, -1).expect("form overflow")
    }
    pub fn addc(&self, k: i128) -> Form {
        Form { k: self.k.checked_add(k).expect("form overflow"), t: self.t.clone() }
    }
    pub fn mulc(&self, x: i128) -> Option<Form> {
        self.lin(x, &Form::c(0), 1)
    }
    pub fn neg(&self) -> Form {
        self.mulc(-1).expect("form overflow")
    }
    pub fn gcd_terms(&self) -> i128 {
        let mut g = 0i128;
        for (_, c) in self.terms() {
            g = gcd(g, *c);
        }
        g
    }
}

pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.checked_abs().unwrap_or(1), b.checked_abs().unwrap_or(1));
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    /// named input of the analysed context
    Input(Rc<str>),
    /// unknown introduced by the analysis
    Fresh(Rc<str>, u32),
    /// contents of tagged memory
    Read(u32, Form, u32, bool),
    /// operation on forms
    Op(&'static str, Vec<Form>),
}

#[derive(Clone, Debug)]
pub struct Info {
    pub kind: Kind,
    pub lo: i128,
    pub hi: i128,
    /// derived from inputs only
    pub pure_: bool,
}

#[derive(Default)]
pub struct Interner {
    pub atoms: Vec<Info>,
    pub map: HashMap<Kind, AtomId>,
    pub tags: Vec<TagInfo>,
    pub fresh: u32,
    /// terms in whose arguments an atom occurs
    pub users: HashMap<AtomId, Vec<AtomId>>,
}

#[derive(Clone, Debug)]
pub struct TagInfo {
    pub name: String,
    /// range of 2-byte signed reads
    pub elem: Option<(i128, i128)>,
    /// range of single byte reads
    pub byte: Option<(i128, i128)>,
    pub pure_: bool,
}

thread_local! {
    pub static I: RefCell<Interner> = RefCell::new(Interner::default());
}

pub fn reset_interner() {
    I.with(|i| *i.borrow_mut() = Interner::default());
}

pub fn new_tag(name: &str, elem: Option<(i128, i128)>, byte: Option<(i128, i128)>, pure_: bool) -> u32 {
    I.with(|i| {
        let mut i = i.borrow_mut();
        i.tags.push(TagInfo { name: name.to_string(), elem, byte, pure_ });
        i.tags.len() as u32 - 1
    })
}
pub fn tag_info(t: u32) -> TagInfo {
    I.with(|i| i.borrow().tags[t as usize].clone())
}

pub fn form_pure(f: &Form) -> bool {
    I.with(|i| {
        let i = i.borrow();
        f.terms().iter().all(|(a, _)| i.atoms[*a as usize].pure_)
    })
}

pub fn atom_info(a: AtomId) -> Info {
    I.with(|i| i.borrow().atoms[a as usize].clone())
}
pub fn atom_range(a: AtomId) -> (i128, i128) {
    I.with(|i| {
        let i = i.borrow();
        let x = &i.atoms[a as usize];
        (x.lo, x.hi)
    })
}

pub fn mk_atom(kind: Kind, lo: i128, hi: i128) -> AtomId {
    I.with(|i| {
        let mut i = i.borrow_mut();
        if let Some(&a) = i.map.get(&kind) {
            // ranges are intrinsic to the term: keep the tightest
            let x = &mut i.atoms[a as usize];
            x.lo = x.lo.max(lo);
            x.hi = x.hi.min(hi);
            return a;
        }
        let pure_ = match &kind {
            Kind::Input(_) => true,
            Kind::Fresh(..) => false,
            Kind::Read(t, f, ..) => {
                i.tags[*t as usize].pure_ && f.terms().iter().all(|(a, _)| i.atoms[*a as usize].pure_)
            }
            Kind::Op(_, fs) => {
                fs.iter().all(|f| f.terms().iter().all(|(a, _)| i.atoms[*a as usize].pure_))
            }
        };
        let id = i.atoms.len() as AtomId;
        i.atoms.push(Info { kind: kind.clone(), lo, hi, pure_ });
        let mut on: Vec<AtomId> = match &kind {
            Kind::Read(_, f, ..) => f.terms().iter().map(|(a, _)| *a).collect(),
            Kind::Op("fdiv", fs) => fs[0].terms().iter().map(|(a, _)| *a).collect(),
            _ => vec![],
        };
        on.dedup();
        for a in on {
            i.users.entry(a).or_default().push(id);
        }
        i.map.insert(kind, id);
        id
    })
}

pub fn input(name: &str, lo: i128, hi: i128) -> Form {
    Form::atom(mk_atom(Kind::Input(Rc::from(name)), lo, hi))
}

pub fn fresh(name: &str, lo: i128, hi: i128) -> Form {
    if lo == hi {
        return Form::c(lo);
    }
    let n = I.with(|i| {
        let mut i = i.borrow_mut();
        i.fresh += 1;
        i.fresh
    });
    Form::atom(mk_atom(Kind::Fresh(Rc::from(name), n), lo, hi))
}

pub fn atom_name(a: AtomId) -> String {
    let k = I.with(|i| i.borrow().atoms[a as usize].kind.clone());
    match k {
        Kind::Input(n) => n.to_string(),
        Kind::Fresh(n, i) => format!("{}#{}", n, i),
        Kind::Read(t, f, s, sg) => {
            let n = I.with(|i| i.borrow().tags[t as usize].name.clone());
            format!("{}[{}:{}{}]", n, f, if sg { "i" } else { "u" }, s)
        }
        Kind::Op(o, fs) => {
            format!("{}({})", o, fs.iter().map(|f| f.to_string()).collect::<Vec<_>>().join(","))
        }
    }
}

impl fmt::Display for Form {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut first = true;
        for (a, c) in self.terms() {
            let n = atom_name(*a);
            if *c == 1 {
                write!(f, "{}{}", if first { "" } else { "+" }, n)?;
            } else if *c == -1 {
                write!(f, "-{}", n)?;
            } else if *c >= 0 && !first {
                write!(f, "+{}*{}", c, n)?;
            } else {
                write!(f, "{}*{}", c, n)?;
            }
            first = false;
        }
        if first {
            write!(f, "{}", self.k)
        } else if self.k > 0 {
            write!(f, "+{}", self.k)
        } else if self.k < 0 {
            write!(f, "{}", self.k)
        } else {
            Ok(())
        }
    }
}
impl fmt::Debug for Form {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self)
    }
}

fn sadd(a: i128, b: i128, inf: i128) -> i128 {
    if a == inf || b == inf {
        inf
    } else {
        a.checked_add(b).unwrap_or(inf)
    }
}
fn smul(a: i128, c: i128, inf_pos: i128) -> i128 {
    // a*c where a may be infinite; result clamps to +-inf
    if a == 0 || c == 0 {
        return 0;
    }
    if a == PINF || a == NINF {
        return if (a > 0) == (c > 0) { PINF } else { NINF };
    }
    a.checked_mul(c).unwrap_or(if (a > 0) == (c > 0) { PINF } else { NINF }).max(NINF).min(inf_pos.max(PINF))
}

/// Abstract numeric state.
#[derive(Clone, Default)]
pub struct Dom {
    pub iv: Rc<HashMap<AtomId, (i128, i128)>>,
    pub facts: Rc<Vec<Form>>,
    pub ne: Rc<Vec<Form>>,
    pub sub: Rc<BTreeMap<AtomId, Form>>,
    pub defd: Rc<HashMap<AtomId, ()>>,
    pub bot: bool,
}

pub fn floordiv(a: i128, b: i128) -> i128 {
    a.div_euclid(b)
}

impl Dom {
    pub fn range(&self, a: AtomId) -> (i128, i128) {
        let (lo, hi) = atom_range(a);
        match self.iv.get(&a) {
            Some(&(l, h)) => (lo.max(l), hi.min(h)),
            None => (lo, hi),
        }
    }
    pub fn norm(&self, f: &Form) -> Form {
        if f.t.is_none() || self.sub.is_empty() {
            return f.clone();
        }
        let mut r = f.clone();
        let mut guard = 0;
        loop {
            let mut hit = None;
            for (a, c) in r.terms() {
                if let Some(s) = self.sub.get(a) {
                    hit = Some((*a, *c, s.clone()));
                    break;
                }
            }
            let Some((a, c, s)) = hit else { return r };
            let Some(x) = r.lin(1, &Form::atom(a), -c) else { return f.clone() };
            let Some(x) = x.lin(1, &s, c) else { return f.clone() };
            r = x;
            guard += 1;
            if guard > 200 {
                return f.clone();
            }
        }
    }
    pub fn lo(&self, f: &Form) -> i128 {
        let mut s = f.k;
        for (a, c) in f.terms() {
            let (l, h) = self.range(*a);
            let v = if *c > 0 { smul(l, *c, PINF) } else { smul(h, *c, PINF) };
            if v == NINF {
                return NINF;
            }
            s = if v == PINF { return NINF.max(s.checked_add(0).unwrap_or(NINF)) } else { sadd(s, v, NINF) };
            if s == NINF {
                return NINF;
            }
        }
        s
    }
    pub fn hi(&self, f: &Form) -> i128 {
        let mut s = f.k;
        for (a, c) in f.terms() {
            let (l, h) = self.range(*a);
            let v = if *c > 0 { smul(h, *c, PINF) } else { smul(l, *c, PINF) };
            if v == PINF {
                return PINF;
            }
            s = sadd(s, v, PINF);
            if s == PINF {
                return PINF;
            }
        }
        s
    }
    /// Tightest interval this domain can derive for f.
    pub fn bounds(&self, f: &Form) -> (i128, i128) {
        let f = self.norm(f);
        let (mut l, mut h) = (self.lo(&f), self.hi(&f));
        let t = f.terms();
        if t.len() > 1 {
            let gc = f.gcd_terms().max(1);
            for g in self.facts.iter() {
                let u = g.terms();
                if u.len() != t.len() || u[0].0 != t[0].0 {
                    continue;
                }
                if u.iter().zip(t).all(|(x, y)| x.0 == y.0 && x.1 * gc == y.1) {
                    l = l.max(f.k.saturating_sub(g.k.saturating_mul(gc)));
                } else if u.iter().zip(t).all(|(x, y)| x.0 == y.0 && x.1 * gc == -y.1) {
                    h = h.min(g.k.saturating_mul(gc).saturating_add(f.k));
                }
            }
        }
        (l, h)
    }
    pub fn konst(&self, f: &Form) -> Option<i128> {
        if let Some(k) = f.konst() {
            return Some(k);
        }
        let f = self.norm(f);
        if let Some(k) = f.konst() {
            return Some(k);
        }
        let l = self.lo(&f);
        if l != NINF && l == self.hi(&f) {
            Some(l)
        } else {
            None
        }
    }

    pub fn ge0(&self, f: &Form) -> bool {
        self.prove(f, 2)
    }
    pub fn ge0d(&self, f: &Form, depth: u32) -> bool {
        self.prove(f, depth)
    }
    /// a <= b
    pub fn le(&self, a: &Form, b: &Form) -> bool {
        match b.lin(1, a, -1) {
            Some(d) => self.ge0(&d),
            None => false,
        }
    }
    pub fn lt(&self, a: &Form, b: &Form) -> bool {
        match b.lin(1, a, -1) {
            Some(d) => self.ge0(&d.addc(-1)),
            None => false,
        }
    }
    pub fn eq(&self, a: &Form, b: &Form) -> bool {
        if a == b {
            return true;
        }
        let Some(d) = a.lin(1, b, -1) else { return false };
        let d = self.norm(&d);
        if let Some(k) = d.konst() {
            return k == 0;
        }
        self.ge0(&d) && self.ge0(&d.neg())
    }
    pub fn is_ne(&self, a: &Form, b: &Form) -> bool {
        let Some(d) = a.lin(1, b, -1) else { return false };
        self.ne0(&d)
    }
    pub fn ne0(&self, d: &Form) -> bool {
        let d = self.norm(d);
        if let Some(k) = d.konst() {
            return k != 0;
        }
        let g = d.gcd_terms();
        if g > 1 && d.k % g != 0 {
            return true;
        }
        if self.lo(&d) > 0 || self.hi(&d) < 0 {
            return true;
        }
        if !self.ne.is_empty() {
            if self.ne.contains(&d) {
                return true;
            }
            let m = d.neg();
            for n in self.ne.iter() {
                let n = self.norm(n);
                if n == d || n == m {
                    return true;
                }
            }
        }
        self.prove(&d.addc(-1), 2) || self.prove(&d.neg().addc(-1), 2)
    }

    fn prove(&self, f: &Form, depth: u32) -> bool {
        if late() {
            return false;
        }
        let f = self.norm(f);
        let mut budget = 4000u32;
        self.prove_n(&f, depth, &mut budget)
    }
    fn prove_n(&self, f: &Form, depth: u32, budget: &mut u32) -> bool {
        if self.lo(f) >= 0 {
            return true;
        }
        if depth == 0 || f.t.is_none() || *budget == 0 {
            return false;
        }
        if self.facts.iter().any(|g| g.k <= f.k && g.terms() == f.terms()) {
            return true;
        }
        for (a, c) in f.terms() {
            for g in self.facts.iter() {
                let gc = g.coef(*a);
                if gc == 0 || (gc > 0) != (*c > 0) {
                    continue;
                }
                if *budget == 0 {
                    return false;
                }
                *budget -= 1;
                // |gc| * f - |c| * g
                let d = gcd(gc, *c);
                let Some(h) = f.lin((gc / d).abs(), g, -((*c / d).abs())) else { continue };
                if h.terms().len() > 7 {
                    continue;
                }
                // f is an integer: m*f >= -(m-1) already gives f >= 0
                let m = (gc / d).abs();
                let h = tighten(h.addc(m - 1));
                if self.prove_n(&h, depth - 1, budget) {
                    return true;
                }
            }
        }
        false
    }

    fn push_fact(&mut self, f: Form) {
        if self.facts.contains(&f) {
            return;
        }
        Rc::make_mut(&mut self.facts).push(f);
    }

    /// Adds f >= 0. Sets bot when contradictory.
    pub fn add_ge0(&mut self, f: &Form) {
        if self.bot {
            return;
        }
        let mut f = tighten(self.norm(f));
        if let Some(k) = f.konst() {
            if k < 0 {
                self.bot = true;
            }
            return;
        }
        if !self.ne.is_empty() {
            // f >= 0 and f != 0
            let nf = f.neg();
            if self.ne.iter().any(|n| *n == f || *n == nf) {
                f = f.addc(-1);
            }
        }
        if self.lo(&f) >= 0 {
            return;
        }
        if self.prove(&f.neg().addc(-1), 2) {
            self.bot = true;
            return;
        }
        // opposite fact present: equality
        let nf = f.neg();
        if self.facts.contains(&nf) || self.hi(&f) == 0 {
            self.propagate(&f);
            self.add_eq0(&f);
            return;
        }
        // single atom: pure interval
        if let Some((a, c)) = f.single() {
            let (mut lo, mut hi) = self.range(a);
            if c > 0 {
                lo = lo.max(floordiv(f.k, c).saturating_neg()); // a >= ceil(-k/c)
            } else {
                hi = hi.min(floordiv(f.k, -c));
            }
            self.set_range(a, lo, hi);
            return;
        }
        self.push_fact(f.clone());
        self.propagate(&f);
    }

    fn set_range(&mut self, a: AtomId, lo: i128, hi: i128) {
        let (l, h) = self.range(a);
        let (mut nl, mut nh) = (l.max(lo), h.min(hi));
        // endpoints excluded by disequalities
        loop {
            let mut ch = false;
            for n in self.ne.iter() {
                if let Some((b, c)) = n.single() {
                    if b == a && n.k % c == 0 {
                        let v = -n.k / c;
                        if v == nl && nl != NINF {
                            nl += 1;
                            ch = true;
                        }
                        if v == nh && nh != PINF {
                            nh -= 1;
                            ch = true;
                        }
                    }
                }
            }
            if !ch || nl > nh {
                break;
            }
        }
        if nl > nh {
            self.bot = true;
            return;
        }
        if (nl, nh) == (l, h) {
            return;
        }
        Rc::make_mut(&mut self.iv).insert(a, (nl, nh));
        if nl == nh {
            self.add_eq0(&Form::atom(a).addc(-nl));
            return;
        }
        let fs: Vec<Form> = self.facts.iter().filter(|f| f.coef(a) != 0).cloned().collect();
        for f in fs {
            self.propagate1(&f, 6);
            if self.bot {
                return;
            }
        }
    }

    fn propagate(&mut self, f: &Form) {
        self.propagate1(f, 8)
    }
    fn propagate1(&mut self, f: &Form, fuel: u32) {
        if self.bot || fuel == 0 {
            return;
        }
        if self.hi(f) < 0 {
            self.bot = true;
            return;
        }
        let mut changed = vec![];
        for (a, c) in f.terms() {
            // c*a >= -(rest_hi)
            let rest = match f.lin(1, &Form::atom(*a), -*c) {
                Some(r) => r,
                None => continue,
            };
            let rh = self.hi(&rest);
            if rh == PINF {
                continue;
            }
            let (l, h) = self.range(*a);
            let (mut nl, mut nh) = (l, h);
            if *c > 0 {
                nl = nl.max(floordiv(rh, *c).saturating_neg());
            } else {
                nh = nh.min(floordiv(rh, -*c));
            }
            if nl > nh {
                self.bot = true;
                return;
            }
            if (nl, nh) != (l, h) {
                // avoid slow convergence: only accept substantial or first finite changes
                Rc::make_mut(&mut self.iv).insert(*a, (nl, nh));
                changed.push(*a);
                if nl == nh {
                    self.add_eq0(&Form::atom(*a).addc(-nl));
                    if self.bot {
                        return;
                    }
                }
            }
        }
        for a in changed {
            let fs: Vec<Form> = self.facts.iter().filter(|g| g.coef(a) != 0 && *g != f).cloned().collect();
            for g in fs {
                self.propagate1(&g, fuel - 1);
                if self.bot {
                    return;
                }
            }
        }
    }

    /// Adds f == 0.
    pub fn add_eq0(&mut self, f: &Form) {
        if self.bot {
            return;
        }
        let f = self.norm(f);
        if let Some(k) = f.konst() {
            if k != 0 {
                self.bot = true;
            }
            return;
        }
        let g = f.gcd_terms();
        let f = if g > 1 {
            if f.k % g != 0 {
                self.bot = true;
                return;
            }
            Form::mk(f.k / g, f.terms().iter().map(|(a, c)| (*a, c / g)).collect())
        } else {
            f
        };
        if self.lo(&f) > 0 || self.hi(&f) < 0 || self.ne0(&f) {
            self.bot = true;
            return;
        }
        // pick the newest atom with unit coefficient
        let mut pick = None;
        for (a, c) in f.terms().iter().rev() {
            if *c == 1 || *c == -1 {
                pick = Some((*a, *c));
                break;
            }
        }
        let Some((a, c)) = pick else {
            if !self.residues(&f) {
                self.bot = true;
                return;
            }
            self.push_fact(f.clone());
            self.push_fact(f.neg());
            self.propagate(&f);
            let n = f.neg();
            self.propagate(&n);
            return;
        };
        // a = -(f - c*a)/c
        let rest = match f.lin(1, &Form::atom(a), -c) {
            Some(r) => r,
            None => return,
        };
        let val = if c == 1 { rest.neg() } else { rest };
        self.subst(a, val);
    }

    /// f = 0 modulo one of its coefficients may leave one atom, whose residue is
    /// then known. False when no value within its bounds has it.
    fn residues(&mut self, f: &Form) -> bool {
        let mut tight = vec![];
        for (_, m) in f.terms() {
            let m = m.abs();
            if !(2..1 << 40).contains(&m) {
                continue;
            }
            let rest: Vec<(AtomId, i128)> = f.terms().iter().map(|(a, c)| (*a, c.rem_euclid(m))).filter(|(_, c)| *c != 0).collect();
            let k = f.k.rem_euclid(m);
            match rest.as_slice() {
                [] if k != 0 => return false,
                [(a, c)] => {
                    let g = gcd(*c, m);
                    if k % g != 0 {
                        return false;
                    }
                    let (c, m, k) = (c / g, m / g, k / g);
                    if m < 2 {
                        continue;
                    }
                    // c x = -k (mod m)
                    let (mut r0, mut r1, mut t0, mut t1) = (m, c % m, 0i128, 1i128);
                    while r1 != 0 {
                        let q = r0 / r1;
                        (r0, r1) = (r1, r0 - q * r1);
                        (t0, t1) = (t1, t0 - q * t1);
                    }
                    let r = (-k * t0).rem_euclid(m);
                    let x = Form::atom(*a);
                    let (l, h) = self.bounds(&x);
                    if l == NINF || h == PINF {
                        continue;
                    }
                    let (l2, h2) = (l + (r - l).rem_euclid(m), h - (h - r).rem_euclid(m));
                    if l2 > h2 {
                        return false;
                    }
                    if l2 > l {
                        tight.push(x.addc(-l2));
                    }
                    if h2 < h {
                        tight.push(x.neg().addc(h2));
                    }
                }
                _ => {}
            }
        }
        for t in tight {
            self.add_ge0(&t);
        }
        !self.bot
    }
    /// Makes a fresh atom stand for val.
    pub fn stand_for(&mut self, x: &Form, val: &Form) {
        let (l, h) = (self.lo(x), self.hi(x));
        let val = self.norm(val);
        match x.single() {
            Some((a, 1)) if x.k == 0 && self.norm(x) == *x => self.subst(a, val.clone()),
            _ => return self.add_eq0(&x.sub(&val)),
        }
        self.add_ge0(&val.addc(-l));
        self.add_ge0(&val.neg().addc(h));
    }
    /// Replaces atom a by val everywhere.
    fn subst(&mut self, a: AtomId, val: Form) {
        let (l, h) = self.range(a);
        Rc::make_mut(&mut self.sub).insert(a, val.clone());
        // rewrite facts
        let old: Vec<Form> = self.facts.iter().cloned().collect();
        let mut new: Vec<Form> = Vec::with_capacity(old.len());
        let mut touched = vec![];
        for g in old {
            if g.coef(a) != 0 {
                let n = tighten(self.norm(&g));
                if let Some(k) = n.konst() {
                    if k < 0 {
                        self.bot = true;
                        return;
                    }
                    continue;
                }
                touched.push(n.clone());
                if !new.contains(&n) {
                    new.push(n);
                }
            } else {
                new.push(g);
            }
        }
        self.facts = Rc::new(new);
        let oldne: Vec<Form> = self.ne.iter().cloned().collect();
        if oldne.iter().any(|g| g.coef(a) != 0) {
            let mut nn = vec![];
            for g in oldne {
                let n = self.norm(&g);
                if n.is_c(0) {
                    self.bot = true;
                    return;
                }
                if n.konst().is_none() {
                    nn.push(n);
                }
            }
            self.ne = Rc::new(nn);
        }
        self.congruent(a);
        if self.bot {
            return;
        }
        for t in touched {
            if self.lo(&t) < 0 {
                if let Some((b, c)) = t.single() {
                    let (lo, hi) = self.range(b);
                    let (lo, hi) = if c > 0 { (lo.max(floordiv(t.k, c).saturating_neg()), hi) } else { (lo, hi.min(floordiv(t.k, -c))) };
                    self.set_range(b, lo, hi);
                } else {
                    self.propagate(&t);
                }
            }
            if self.bot {
                return;
            }
        }
        if l != NINF {
            self.add_ge0(&val.addc(0).sub(&Form::c(l)));
        }
        if h != PINF && !self.bot {
            self.add_ge0(&Form::c(h).sub(&val));
        }
    }

    /// Terms whose arguments became constant are identified with their value.
    fn congruent(&mut self, a: AtomId) {
        let us = I.with(|i| i.borrow().users.get(&a).cloned().unwrap_or_default());
        for u in us {
            let info = atom_info(u);
            let v = match &info.kind {
                Kind::Read(t, off, n, sg) => {
                    let g = self.norm(off);
                    if g == *off || g.terms().len() > 2 {
                        continue;
                    }
                    Form::atom(mk_atom(Kind::Read(*t, g, *n, *sg), info.lo, info.hi))
                }
                Kind::Op("fdiv", fs) => {
                    let (g, Some(c)) = (self.norm(&fs[0]), fs[1].konst()) else { continue };
                    if g.terms().iter().any(|(_, x)| x % c != 0) {
                        continue;
                    }
                    Form::mk(floordiv(g.k, c), g.terms().iter().map(|(a, x)| (*a, x / c)).collect())
                }
                _ => continue,
            };
            self.add_eq0(&Form::atom(u).sub(&v));
            if self.bot {
                return;
            }
        }
    }

    /// Records that the new unknown x equals f, eliminating another unknown
    /// of f when there is one, so that facts come to speak about x.
    pub fn define(&mut self, x: AtomId, f: &Form, keep: &[AtomId]) {
        if self.bot {
            return;
        }
        let f = self.norm(f);
        let mut pick = None;
        for (a, c) in f.terms().iter().rev() {
            if (*c == 1 || *c == -1) && !keep.contains(a) && matches!(atom_info(*a).kind, Kind::Fresh(..)) {
                pick = Some((*a, *c));
                break;
            }
        }
        match pick {
            Some((a, c)) => {
                // x = f  =>  a = (x - (f - c a)) / c
                let Some(rest) = f.lin(1, &Form::atom(a), -c) else { return };
                let Some(v) = Form::atom(x).lin(c, &rest, -c) else { return };
                self.subst(a, v);
            }
            None => self.subst(x, f),
        }
    }

    pub fn add_ne0(&mut self, f: &Form) {
        if self.bot {
            return;
        }
        let f = self.norm(f);
        if let Some(k) = f.konst() {
            if k == 0 {
                self.bot = true;
            }
            return;
        }
        if self.lo(&f) > 0 || self.hi(&f) < 0 {
            return;
        }
        if self.lo(&f) == 0 || self.ge0(&f) {
            self.add_ge0(&f.addc(-1));
        } else if self.hi(&f) == 0 || self.ge0(&f.neg()) {
            self.add_ge0(&f.neg().addc(-1));
        }
        if self.bot {
            return;
        }
        if !self.ne.contains(&f) {
            Rc::make_mut(&mut self.ne).push(f.clone());
        }
        if let Some((a, _)) = f.single() {
            let (l, h) = self.range(a);
            self.set_range(a, l, h);
        }
    }

    // ---------------------------------------------------------- terms
    /// floor(f / c) for c > 0, with defining facts.
    pub fn floordiv(&mut self, f: &Form, c: i128) -> Form {
        let f = self.norm(f);
        if c == 1 {
            return f;
        }
        if let Some(k) = f.konst() {
            return Form::c(floordiv(k, c));
        }
        // split multiples of c
        let mut q = vec![];
        let mut r = vec![];
        for (a, x) in f.terms() {
            if x % c == 0 {
                q.push((*a, x / c));
            } else {
                r.push((*a, *x));
            }
        }
        let kq = floordiv(f.k, c);
        let kr = f.k - kq * c;
        let q = Form::mk(kq, q);
        let r = Form::mk(kr, r);
        if r.t.is_none() {
            return q; // 0 <= kr < c
        }
        let (lo, hi) = (self.lo(&r), self.hi(&r));
        if lo != NINF && hi != PINF && floordiv(lo, c) == floordiv(hi, c) {
            return q.addc(floordiv(lo, c));
        }
        if self.ge0(&r) && self.ge0(&Form::c(c - 1).sub(&r)) {
            return q;
        }
        // common factor
        let g = gcd(r.gcd_terms(), c);
        if g > 1 {
            let kq2 = floordiv(r.k, g);
            let r2 = Form::mk(kq2, r.terms().iter().map(|(a, x)| (*a, x / g)).collect());
            if c / g > 1 || g == c {
                let s = self.floordiv(&r2, c / g);
                return q.add(&s);
            }
        }
        let (alo, ahi) =
            (if lo == NINF { NINF } else { floordiv(lo, c) }, if hi == PINF { PINF } else { floordiv(hi, c) });
        // intrinsic range uses only atom types
        let d = Dom::default();
        let (ilo, ihi) = (d.lo(&r), d.hi(&r));
        let a = mk_atom(
            Kind::Op("fdiv", vec![r.clone(), Form::c(c)]),
            if ilo == NINF { NINF } else { floordiv(ilo, c) },
            if ihi == PINF { PINF } else { floordiv(ihi, c) },
        );
        let qa = Form::atom(a);
        if !self.defd.contains_key(&a) {
            Rc::make_mut(&mut self.defd).insert(a, ());
            self.add_ge0(&Form::atom(a).sub(&Form::c(alo.max(NINF / 4))));
            if ahi != PINF {
                self.add_ge0(&Form::c(ahi).sub(&qa));
            }
            if let Some(d) = r.lin(1, &qa, -c) {
                self.add_ge0(&d); // r - c q >= 0
                self.add_ge0(&Form::c(c - 1).sub(&d)); // c-1 - (r - c q) >= 0
            }
        }
        q.add(&qa)
    }

    /// Join: keeps what both states imply.
    pub fn join(&self, o: &Dom) -> Dom {
        let mut r = Dom::default();
        // intervals
        let mut iv = HashMap::new();
        let mut keys: Vec<AtomId> = self.iv.keys().chain(o.iv.keys()).copied().collect();
        keys.sort();
        keys.dedup();
        for a in keys {
            let fa = Form::atom(a);
            let (l1, h1) = self.bounds(&fa);
            let (l2, h2) = o.bounds(&fa);
            let (il, ih) = atom_range(a);
            let (l, h) = (l1.min(l2), h1.max(h2));
            if l > il || h < ih {
                iv.insert(a, (l.max(il), h.min(ih)));
            }
        }
        r.iv = Rc::new(iv);
        // common substitutions
        let mut sub = BTreeMap::new();
        for (a, f) in self.sub.iter() {
            if o.sub.get(a) == Some(f) {
                sub.insert(*a, f.clone());
            }
        }
        r.sub = Rc::new(sub);
        let mut facts: Vec<Form> = vec![];
        let push = |facts: &mut Vec<Form>, f: Form| {
            if !facts.contains(&f) {
                facts.push(f);
            }
        };
        for (x, y) in [(self, o), (o, self)] {
            for f in x.facts.iter() {
                if y.facts.contains(f) || y.ge0(f) {
                    push(&mut facts, f.clone());
                }
            }
            for (a, f) in x.sub.iter() {
                if r.sub.contains_key(a) || is_bool(*a) {
                    continue;
                }
                let d = Form::atom(*a).sub(f);
                for e in [d.clone(), d.neg()] {
                    if y.ge0(&e) {
                        push(&mut facts, e);
                    }
                }
            }
        }
        r.facts = Rc::new(facts.into_iter().map(|f| tighten(r.norm(&f))).filter(|f| f.konst().is_none()).collect());
        let mut ne = vec![];
        for f in self.ne.iter() {
            if o.ne.contains(f) || o.ne0(f) {
                ne.push(f.clone());
            }
        }
        for f in o.ne.iter() {
            if !ne.contains(f) && self.ne0(f) {
                ne.push(f.clone());
            }
        }
        r.ne = Rc::new(ne);
        let mut defd = HashMap::new();
        for a in self.defd.keys() {
            if o.defd.contains_key(a) {
                defd.insert(*a, ());
            }
        }
        r.defd = Rc::new(defd);
        r
    }
}

pub fn is_bool(a: AtomId) -> bool {
    matches!(atom_info(a).kind, Kind::Op("ge0" | "eq0" | "band" | "bor", _))
}

impl Dom {
    /// Everything this domain states that `base` does not: (form, is_disequality);
    /// a form means form >= 0.
    fn extra(&self, base: &Dom) -> Vec<(Form, bool)> {
        let mut v: Vec<(Form, bool)> = vec![];
        for (a, _) in self.iv.iter() {
            let x = Form::atom(*a);
            let (l, h) = self.bounds(&x);
            let (bl, bh) = base.bounds(&x);
            if l > bl {
                v.push((x.addc(l.checked_neg().unwrap_or(0)), false));
            }
            if h < bh {
                v.push((Form::c(h).sub(&x), false));
            }
        }
        for f in self.facts.iter() {
            if !base.facts.contains(f) {
                v.push((f.clone(), false));
            }
        }
        for (a, f) in self.sub.iter() {
            if is_bool(*a) || base.sub.get(a) == Some(f) {
                continue;
            }
            let d = Form::atom(*a).sub(f);
            v.push((d.clone(), false));
            v.push((d.neg(), false));
        }
        for f in self.ne.iter() {
            if !base.ne.contains(f) {
                v.push((f.clone(), true));
            }
        }
        v.retain(|(f, n)| if *n { !base.ne0(f) } else { !base.ge0(f) });
        v
    }
    fn implies(&self, cs: &[(Form, bool)]) -> bool {
        self.bot || cs.iter().all(|(f, n)| if *n { self.ne0(f) } else { self.ge0(f) })
    }
    /// Whether the join j of a and b contains nothing outside a and b.
    pub fn exact_join(j: &Dom, a: &Dom, b: &Dom) -> bool {
        let ea = a.extra(j);
        let eb = b.extra(j);
        if ea.is_empty() || eb.is_empty() {
            return true;
        }
        if ea.len() > 12 || eb.len() > 12 {
            return false;
        }
        for (f, n) in &ea {
            let mut d = j.clone();
            if *n {
                d.add_eq0(f);
            } else {
                d.add_ge0(&f.neg().addc(-1));
            }
            if !d.implies(&eb) {
                return false;
            }
        }
        true
    }
}

/// Divides a >=0 constraint by the gcd of its coefficients (integer tightening).
pub fn tighten(f: Form) -> Form {
    let g = f.gcd_terms();
    if g > 1 {
        Form::mk(floordiv(f.k, g), f.terms().iter().map(|(a, c)| (*a, c / g)).collect())
    } else {
        f
    }
}

/// Memory is running low: contexts under way are given up.
static CROWDED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn crowded() -> bool {
    CROWDED.load(std::sync::atomic::Ordering::Relaxed)
}
extern "C" {
    fn malloc_trim(pad: usize) -> i32;
}
/// Watches the memory of this process until `done`.
pub fn watch(done: &std::sync::atomic::AtomicBool) {
    use std::sync::atomic::Ordering::Relaxed;
    let pages = || std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0);
    const LIMIT: u64 = 12 << 18; // 12 GB in pages of 4 KB
    while !done.load(Relaxed) {
        let full = pages() > LIMIT;
        CROWDED.store(full, Relaxed);
        std::thread::sleep(std::time::Duration::from_millis(if full { 300 } else { 50 }));
        if full {
            unsafe { malloc_trim(0) };
        }
    }
    CROWDED.store(false, Relaxed);
}

// Time limit of the current context: past it nothing more is proved or refuted.
thread_local! {
    static LIMIT: std::cell::Cell<(Option<std::time::Instant>, u32, bool)> = const { std::cell::Cell::new((None, 0, false)) };
}
pub fn set_limit(t: Option<std::time::Instant>) {
    LIMIT.with(|l| l.set((t, 0, false)));
}
pub fn late() -> bool {
    LIMIT.with(|l| {
        let (t, n, over) = l.get();
        if over {
            return true;
        }
        if n & 31 != 31 {
            l.set((t, n + 1, false));
            return false;
        }
        let o = t.map(|t| std::time::Instant::now() > t).unwrap_or(false) || (t.is_some() && crowded());
        l.set((t, n + 1, o));
        o
    })
}
pub fn is_late() -> bool {
    LIMIT.with(|l| l.get().2)
}
