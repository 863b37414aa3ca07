//! Joining of partitions: states with the same memory structure are merged
//! into one, integer contents becoming new unknowns constrained by what both
//! sides imply.
use crate::exec::*;
use crate::mem::*;
use crate::num::*;
use std::collections::HashMap;
use std::rc::Rc;

/// Values that may be joined: (left, right) -> new unknown
struct J<'a> {
    a: &'a State,
    b: &'a State,
    map: HashMap<(Form, Form), AtomId>,
    new: Vec<(AtomId, Form, Form)>,
    strict: bool,
    lossy: bool,
    why: &'static str,
}

fn live(e: &Ent) -> bool {
    !matches!(e, Ent::Cell(c) if c.mat)
}

impl<'a> J<'a> {
    fn form(&mut self, f: &Form, g: &Form, range: (i128, i128)) -> Form {
        if f == g {
            return f.clone();
        }
        let f = self.a.dom.norm(f);
        let g = self.b.dom.norm(g);
        if f == g {
            return f;
        }
        if self.a.dom.norm(&g) == f {
            return g;
        }
        if self.b.dom.norm(&f) == g {
            return f;
        }
        let k = f.k;
        let (f0, g0) = (f.addc(-k), match g.k.checked_sub(k) {
            Some(x) => Form { k: x, t: g.t.clone() },
            None => g.clone(),
        });
        if let Some(a) = self.map.get(&(f0.clone(), g0.clone())) {
            return Form::atom(*a).addc(k);
        }
        // linear in an already introduced unknown?
        for (a, x, y) in &self.new {
            for m in [1i128, -1, 2, -2, 4, -4] {
                let (Some(p), Some(q)) = (f.lin(1, x, -m), g.lin(1, y, -m)) else { continue };
                if p == q {
                    if let Some(r) = p.lin(1, &Form::atom(*a), m) {
                        return r;
                    }
                }
                let (x2, y2) = (x, y);
                let _ = (x2, y2);
            }
            for m in [2i128, 4] {
                // half of an unknown
                let (Some(p), Some(q)) = (f.lin(m, x, -1), g.lin(m, y, -1)) else { continue };
                if p == q && p.t.is_none() && p.k % m == 0 {
                    // f = (x + p)/m : keep separate but related by facts
                }
            }
        }
        let (l1, h1) = self.a.dom.bounds(&f0);
        let (l2, h2) = self.b.dom.bounds(&g0);
        let (mut lo, mut hi) = (l1.min(l2), h1.max(h2));
        if lo == NINF || hi == PINF {
            if range.0 != NINF {
                lo = lo.max(range.0.saturating_sub(k));
            }
            if range.1 != PINF {
                hi = hi.min(range.1.saturating_sub(k));
            }
        }
        if lo >= hi {
            // f0 and g0 both have this value
            return Form::c(lo.min(hi)).addc(k);
        }
        let x = fresh("j", lo, hi);
        let a = x.terms()[0].0;
        self.map.insert((f0.clone(), g0.clone()), a);
        self.new.push((a, f0, g0));
        x.addc(k)
    }
    fn val(&mut self, x: &Val, y: &Val, size: u64, sg: bool) -> Option<Val> {
        if x == y {
            return Some(x.clone());
        }
        Some(match (x, y) {
            (Val::Int(f), Val::Int(g)) => {
                if self.strict && size <= 2 {
                    if let (Some(p), Some(q)) = (self.a.dom.konst(f), self.b.dom.konst(g)) {
                        if p != q {
                            self.why = "constants";
                            return None;
                        }
                    }
                }
                Val::Int(self.form(f, g, int_range(sg, 8 * size.min(16) as u32)))
            }
            (Val::Ptr(a, f), Val::Ptr(b, g)) if a == b => Val::Ptr(*a, self.form(f, g, (NINF, PINF))),
            (Val::Undef, Val::Ptr(..)) | (Val::Ptr(..), Val::Undef) => Val::Undef,
            (Val::Undef, _) | (_, Val::Undef) => Val::Undef,
            (Val::Top, Val::Int(_)) | (Val::Int(_), Val::Top) => {
                self.lossy = true;
                Val::Top
            }
            (Val::Float(_), Val::Float(_)) => Val::Float(fresh("jf", NINF, PINF)),
            _ => {
                self.why = "values";
                return None;
            }
        })
    }
    fn digitish(d: &Dom, o: &Obj, from: i128) -> bool {
        let base = match &o.base {
            Src::Undef | Src::Zero => true,
            Src::Tag(t, _) => matches!(tag_info(*t).elem, Some((l, h)) if l >= 0 && h <= 9999),
            _ => false,
        };
        base && o.log.iter().all(|e| match e {
            Ent::Cell(c) if c.mat => true,
            Ent::Cell(c) => {
                if matches!(c.off.konst(), Some(o) if o + c.size as i128 <= from) {
                    return true;
                }
                c.size == 2
                    && match &c.val {
                        Val::Int(f) => {
                            let (l, h) = d.bounds(f);
                            l >= 0 && h <= 9999
                        }
                        Val::Undef => true,
                        _ => false,
                    }
            }
            Ent::Region { src, .. } => match src {
                Src::Zero | Src::Undef => true,
                Src::Tag(t, _) => matches!(tag_info(*t).elem, Some((l, h)) if l >= 0 && h <= 9999),
                _ => false,
            },
        })
    }
    fn obj(&mut self, x: &Rc<Obj>, y: &Rc<Obj>) -> Option<Rc<Obj>> {
        if Rc::ptr_eq(x, y) || (!x.alive && !y.alive) {
            return Some(x.clone());
        }
        if x.kind != y.kind || x.align != y.align || x.alive != y.alive || x.ro != y.ro {
            self.why = "object kinds";
            return None;
        }
        let mut o = (**x).clone();
        o.size = self.form(&x.size, &y.size, (0, i64::MAX as i128));
        let lx: Vec<&Ent> = x.log.iter().filter(|e| live(e)).collect();
        let ly: Vec<&Ent> = y.log.iter().filter(|e| live(e)).collect();
        // same structure?
        if x.base == y.base && lx.len() == ly.len() {
            let mut same = true;
            for (e, f) in lx.iter().zip(&ly) {
                same &= match (e, f) {
                    (Ent::Cell(c), Ent::Cell(d)) => {
                        c.size == d.size
                            && c.sg == d.sg
                            && (c.off == d.off || (c.off.konst().is_none() && d.off.konst().is_none() && self.a.dom.eq(&c.off, &d.off) && self.b.dom.eq(&c.off, &d.off)))
                    }
                    (Ent::Region { start: s1, len: l1, src: r1 }, Ent::Region { start: s2, len: l2, src: r2 }) => {
                        s1 == s2 && l1 == l2 && r1 == r2
                    }
                    _ => false,
                };
            }
            if same {
                let mut log = vec![];
                for (e, f) in lx.iter().zip(&ly) {
                    log.push(match (e, f) {
                        (Ent::Cell(c), Ent::Cell(d)) => {
                            let v = self.val(&c.val, &d.val, c.size, c.sg)?;
                            Ent::Cell(Cell { val: v, ..c.clone() })
                        }
                        _ => (*e).clone(),
                    });
                }
                o.log = log.into();
                return Some(Rc::new(o));
            }
        }
        let conc = |l: &Vec<&Ent>| l.iter().all(|e| matches!(e, Ent::Cell(c) if c.off.konst().is_some()));
        if x.base == y.base && conc(&lx) && conc(&ly) && x.base == Src::Undef {
            // cells at constant offsets: keep those written on both sides
            let mut log = vec![];
            for e in &lx {
                let Ent::Cell(c) = e else { continue };
                for f in &ly {
                    let Ent::Cell(d) = f else { continue };
                    if c.off == d.off && c.size == d.size {
                        let v = self.val(&c.val, &d.val, c.size, c.sg)?;
                        log.push(Ent::Cell(Cell { val: v, ..c.clone() }));
                    }
                }
            }
            // drop anything overlapping a dropped cell
            o.log = log.into();
            return Some(Rc::new(o));
        }
        if matches!(x.kind, OKind::Local) && x.size.konst().is_some() && lx.len().max(ly.len()) < 24 {
            // a local holding an array or buffer with differing symbolic writes
        }
        // buffer with different write histories: header cells kept, rest forgotten
        let from = 8;
        let dig = Self::digitish(&self.a.dom, x, from) && Self::digitish(&self.b.dom, y, from);
        let heads = |o: &Obj| -> Vec<(i128, u64)> {
            o.log
                .iter()
                .filter_map(|e| match e {
                    Ent::Cell(c) if !c.mat => c.off.konst().filter(|k| *k + c.size as i128 <= from).map(|k| (k, c.size)),
                    _ => None,
                })
                .collect()
        };
        let (hx, hy) = (heads(x), heads(y));
        let t = new_tag("jmem", if dig { Some((0, 9999)) } else { None }, None, false);
        if !dig {
            self.lossy = true;
        }
        o.base = Src::Tag(t, Form::c(0));
        o.log = Log::default();
        for (k, s) in &hx {
            if !hy.contains(&(*k, *s)) {
                continue;
            }
            // later overlapping writes would make this imprecise; read the last one
            let get = |ob: &Obj, d: &Dom| -> Option<Val> {
                let (ko, ks) = (Form::c(*k), Form::c(*s as i128));
                for e in ob.log.iter().rev() {
                    match e {
                        Ent::Cell(c) if !c.mat && c.off.is_c(*k) && c.size == *s => return Some(c.val.clone()),
                        Ent::Cell(c) if c.mat => {}
                        Ent::Cell(c) => match c.off.konst() {
                            Some(o) if o >= *k + *s as i128 || o + c.size as i128 <= *k => {}
                            Some(_) => return None,
                            None => {
                                if relate(d, &ko, &ks, &c.off, &Form::c(c.size as i128)) != Rel::Disjoint {
                                    return None;
                                }
                            }
                        },
                        Ent::Region { start, len, .. } => {
                            if relate(d, &ko, &ks, start, len) != Rel::Disjoint {
                                return None;
                            }
                        }
                    }
                }
                None
            };
            if let (Some(p), Some(q)) = (get(x, &self.a.dom), get(y, &self.b.dom)) {
                let v = self.val(&p, &q, *s, false)?;
                let c = Cell { off: Form::c(*k), size: *s, val: v, sg: false, mat: false };
                if !o.log.iter().any(|e| matches!(e, Ent::Cell(d) if d.off == c.off)) {
                    o.log.push(Ent::Cell(c));
                }
            }
        }
        Some(Rc::new(o))
    }
}

impl<'p> Ex<'p> {
    pub fn join2(&mut self, a: &State, b: &State, ra: &[Ent], rb: &[Ent], strict: bool) -> Option<(State, Vec<Ent>)> {
        if a.stack.len() != b.stack.len() || a.heap.len() != b.heap.len() || a.once != b.once || a.globals.len() != b.globals.len() {
            return None;
        }
        if !Rc::ptr_eq(&a.events, &b.events) && a.events != b.events {
            return None;
        }
        let mut j = J { a, b, map: HashMap::new(), new: vec![], strict, lossy: false, why: "" };
        let mut s = a.clone();
        if ra.len() != rb.len() {
            return None;
        }
        let mut ret = vec![];
        for (e, f) in ra.iter().zip(rb) {
            ret.push(match (e, f) {
                (Ent::Cell(c), Ent::Cell(d)) if c.off == d.off && c.size == d.size => {
                    let v = j.val(&c.val, &d.val, c.size, c.sg)?;
                    Ent::Cell(Cell { val: v, mat: false, ..c.clone() })
                }
                (e, f) if e == f => (*e).clone(),
                _ => return None,
            });
        }
        for i in 0..a.stack.len() {
            s.stack[i] = match (&a.stack[i], &b.stack[i]) {
                (Some(x), Some(y)) => match j.obj(x, y) {
                    Some(o) => Some(o),
                    None => {
                        if self.o.trace {
                            eprintln!("   no join: {} of local {} {:?} / {:?}", j.why, i, x.log, y.log);
                        }
                        return None;
                    }
                },
                _ => None,
            };
        }
        for i in 0..a.heap.len() {
            match j.obj(&a.heap[i], &b.heap[i]) {
                Some(o) => s.heap[i] = o,
                None => {
                    if self.o.trace {
                        eprintln!("   no join: {} of heap {} {:?} / {:?}", j.why, i, a.heap[i], b.heap[i]);
                    }
                    return None;
                }
            }
        }
        for (k, x) in a.globals.iter() {
            let y = b.globals.get(k)?;
            s.globals.insert(*k, j.obj(x, y)?);
        }
        s.lossy = a.lossy.max(b.lossy) + j.lossy as u32;
        s.approx = a.approx.max(b.approx) + 1;
        let new = std::mem::take(&mut j.new);
        s.dom = join_dom(&a.dom, &b.dom, &new);
        Some((s, ret))
    }

    pub fn join_states(&mut self, v: &mut Vec<State>, limit: usize) {
        for strict in [true, false] {
            if v.len() <= limit {
                return;
            }
            let mut out: Vec<State> = vec![];
            for s in v.drain(..) {
                let mut done = false;
                for o in out.iter_mut() {
                    if let Some((x, _)) = self.join2(o, &s, &[], &[], strict) {
                        *o = x;
                        done = true;
                        break;
                    }
                }
                if !done {
                    out.push(s);
                }
            }
            *v = out;
        }
        if self.o.trace && v.len() > 2 {
            eprintln!("   joined to {}", v.len());
        }
    }

    pub fn join_outs(&mut self, v: &mut Vec<(State, Out)>) {
        for strict in [true, false] {
            if v.len() <= self.o.join_at {
                return;
            }
            let mut out: Vec<(State, Out)> = vec![];
            for (s, r) in v.drain(..) {
                let mut done = false;
                for (o, q) in out.iter_mut() {
                    let x = match (&*q, &r) {
                        (Out::Ret(x), Out::Ret(y)) => self.join2(o, &s, x, y, strict).map(|(s, r)| (s, Out::Ret(r))),
                        (Out::Unwind(x), Out::Unwind(y)) if x == y => {
                            self.join2(o, &s, &[], &[], strict).map(|(s, _)| (s, Out::Unwind(x.clone())))
                        }
                        _ => None,
                    };
                    if let Some((s2, r2)) = x {
                        *o = s2;
                        *q = r2;
                        done = true;
                        break;
                    }
                }
                if !done {
                    out.push((s, r));
                }
            }
            *v = out;
        }
    }
}

/// Join of two domains in which each unknown of `new` equals the given forms.
pub fn join_dom(a: &Dom, b: &Dom, new: &[(AtomId, Form, Form)]) -> Dom {
    let mut da = a.clone();
    let mut db = b.clone();
    let ids: Vec<AtomId> = new.iter().map(|n| n.0).collect();
    for (x, f, g) in new {
        da.define(*x, f, &ids);
        db.define(*x, g, &ids);
    }
    let mut r = da.join(&db);
    // relations between the new unknowns and everything they are related to
    let mut others: Vec<Form> = ids.iter().map(|a| Form::atom(*a)).collect();
    for (_, f, g) in new {
        for h in [f, g] {
            for (t, _) in h.terms() {
                let x = Form::atom(*t);
                if !others.contains(&x) && others.len() < 40 {
                    others.push(x);
                }
            }
        }
    }
    let n = ids.len().min(16);
    let mut budget = 1500;
    for i in 0..n {
        let x = Form::atom(ids[i]);
        for (jx, y) in others.iter().enumerate() {
            if jx <= i && jx < ids.len() {
                continue;
            }
            for d in [x.sub(y), y.sub(&x), x.add(y)] {
                if budget == 0 {
                    return r;
                }
                budget -= 1;
                if r.lo(&d) >= 0 {
                    continue;
                }
                if da.ge0(&d) && db.ge0(&d) {
                    r.add_ge0(&d);
                }
            }
        }
    }
    r
}
