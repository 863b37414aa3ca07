//! Loops: decided unrolling first, then generalisation to an inductive state.
use crate::exec::*;
use crate::mem::*;
use crate::num::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
enum Gen {
    /// entry + d * k
    Ind(i128),
    /// unknown value with a growing interval
    Free { atom: AtomId, lo: i128, hi: i128, grow: u32 },
    /// pointer into an object at an offset described the same way
    PInd(i128),
    PFree { atom: AtomId, lo: i128, hi: i128, grow: u32 },
    FloatFree(Form),
    Top,
    Undef,
}
#[derive(Clone, Debug)]
struct Loc {
    entry: Val,
    sg: bool,
    gen: Gen,
}
#[derive(Clone, Debug)]
struct Reg {
    start: Form,
    len: Form,
    tag: u32,
    digits: bool,
}
#[derive(Default, Clone)]
struct Plan {
    locs: BTreeMap<(ObjId, i128, u64), Loc>,
    regs: BTreeMap<ObjId, Vec<Reg>>,
    sizes: BTreeMap<ObjId, Gen>,
    gone: Vec<ObjId>,
    /// candidate inequalities over k and the unknowns
    cands: Vec<Form>,
    proposed: Vec<Form>,
    events: bool,
    lossy: bool,
}

const STEPS: [i128; 16] =
    [0, 1, 2, 4, 9, 64, 128, 255, 9999, 10000, 19999, 32767, 65535, 99_999_999, 100_000_000, 1 << 31];

fn widen_hi(h: i128, tyhi: i128) -> i128 {
    for s in STEPS {
        if h <= s && s <= tyhi {
            return s;
        }
    }
    if h < (1 << 40) && tyhi > (1 << 40) {
        return 1 << 40;
    }
    tyhi
}
fn widen_lo(l: i128, tylo: i128) -> i128 {
    if l >= 0 && tylo <= 0 {
        return 0;
    }
    for s in STEPS {
        if -l <= s && -s >= tylo {
            return -s;
        }
    }
    tylo
}

impl<'p> Ex<'p> {
    pub fn exec_loop(&mut self, fr: &Frame, st: State, h: usize) -> Vec<(State, Flow)> {
        *self.loops_seen.entry((fr.f, h)).or_insert(0) += 1;
        let mut out = vec![];
        let mut work = vec![(st, 0u32)];
        let mut iters = 0;
        while let Some((st, und)) = work.pop() {
            if self.dead {
                return out;
            }
            iters += 1;
            if iters > self.o.max_iter {
                self.give_up("loop iteration budget".into());
                self.dead = true;
                return out;
            }
            if und > self.o.unroll {
                if self.o.no_general {
                    self.give_up("loop not bounded by the context".into());
                    continue;
                }
                out.extend(self.generalise(fr, st, h));
                continue;
            }
            let flows = self.region(fr, vec![st], h, Some(h));
            let mut backs = vec![];
            let mut exits = 0;
            for (s, f) in flows {
                match f {
                    Flow::Back => backs.push(s),
                    f => {
                        exits += 1;
                        out.push((s, f));
                    }
                }
            }
            let force = self.o.merge;
            self.merge_states(&mut backs, force);
            if backs.len() > self.o.join_at {
                self.merge_states(&mut backs, true);
                let l = self.o.join_at;
                self.join_states(&mut backs, l);
            }
            let und = if exits > 0 && !backs.is_empty() || backs.len() > 1 { und + 1 } else { und };
            for b in backs {
                work.push((b, und));
            }
        }
        out
    }

    fn val_at(&mut self, ob: &Obj, d: &Dom, off: i128, size: u64, sg: bool, ptr: bool) -> Val {
        for e in ob.log.iter().rev() {
            if let Ent::Cell(c) = e {
                if c.off.is_c(off) && c.size == size {
                    return c.val.clone();
                }
            }
        }
        let sc = if ptr { Sc::Ptr } else { Sc::Int(sg, 8 * size as u32) };
        match ob.read(self.p, d, &Form::c(off), size, sc) {
            Rd::Val(v, _) => v,
            _ => Val::Top,
        }
    }

    /// Locations of `post` that differ from `pre`.
    fn diff(&mut self, pre: &State, post: &State, plan: &mut Plan, entry: &State) -> bool {
        let mut changed = false;
        let n = pre.stack.len().max(post.stack.len());
        for i in 0..n {
            let a = pre.stack.get(i).cloned().flatten();
            let b = post.stack.get(i).cloned().flatten();
            let id = STACK | i as u32;
            match (a, b) {
                (None, _) => {}
                (Some(_), None) => {
                    if !plan.gone.contains(&id) {
                        plan.gone.push(id);
                        changed = true;
                    }
                }
                (Some(x), Some(y)) => {
                    if !Rc::ptr_eq(&x, &y) && *x != *y {
                        changed |= self.diff_obj(id, &x, &y, pre, post, plan, entry);
                    }
                }
            }
        }
        for i in 0..pre.heap.len() {
            let (x, y) = (pre.heap[i].clone(), post.heap[i].clone());
            if !Rc::ptr_eq(&x, &y) && *x != *y {
                changed |= self.diff_obj(i as u32, &x, &y, pre, post, plan, entry);
            }
        }
        let ks: Vec<u32> = post.globals.keys().copied().collect();
        for id in ks {
            let y = post.globals[&id].clone();
            let x = self.obj(pre, id);
            if !Rc::ptr_eq(&x, &y) && *x != *y {
                changed |= self.diff_obj(id, &x, &y, pre, post, plan, entry);
            }
        }
        if post.events.len() != pre.events.len() && !plan.events {
            plan.events = true;
            changed = true;
        }
        if post.lossy != pre.lossy && !plan.lossy {
            plan.lossy = true;
            changed = true;
        }
        changed
    }

    fn entry_obj(&mut self, entry: &State, id: ObjId) -> Rc<Obj> {
        self.obj(entry, id)
    }

    fn diff_obj(
        &mut self,
        id: ObjId,
        x: &Obj,
        y: &Obj,
        pre: &State,
        post: &State,
        plan: &mut Plan,
        entry: &State,
    ) -> bool {
        let mut changed = false;
        if x.alive != y.alive {
            self.give_up("a block is freed in a loop".into());
        }
        if x.size != y.size && !post.dom.eq(&x.size, &y.size) && !plan.sizes.contains_key(&id) {
            let a = atom_of(&fresh("size", 0, i64::MAX as i128));
            plan.sizes.insert(id, Gen::Free { atom: a, lo: 0, hi: i64::MAX as i128, grow: 9 });
            changed = true;
        }
        // regions and symbolic cells of y that are not in x
        let covered = |plan: &Plan, d: &Dom, off: &Form, len: &Form| -> bool {
            plan.regs
                .get(&id)
                .map(|rs| {
                    rs.iter().any(|r| matches!(relate(d, off, len, &r.start, &r.len), Rel::Same | Rel::Inside))
                })
                .unwrap_or(false)
        };
        let key = |e: &Ent| -> bool {
            match e {
                Ent::Cell(c) => c.mat,
                _ => false,
            }
        };
        let mut conc: Vec<(i128, u64, bool, bool)> = vec![];
        for e in y.log.iter() {
            if x.log.contains(e) || key(e) {
                continue;
            }
            match e {
                Ent::Cell(c) => {
                    let sz = Form::c(c.size as i128);
                    if covered(plan, &post.dom, &c.off, &sz) {
                        // digit range must be kept
                        let ok = match &c.val {
                            Val::Int(f) => {
                                c.size == 2 && {
                                    let (l, h) = post.dom.bounds(f);
                                    l >= 0 && h <= 9999
                                }
                            }
                            _ => false,
                        };
                        if !ok {
                            for r in plan.regs.get_mut(&id).unwrap().iter_mut() {
                                if r.digits
                                    && !matches!(relate(&post.dom, &c.off, &sz, &r.start, &r.len), Rel::Disjoint)
                                {
                                    if self.o.trace {
                                        eprintln!("   digit range lost: {:?} bounds {:?}", c, match &c.val { Val::Int(f) => post.dom.bounds(f), _ => (0,0) });
                                    }
                                    r.digits = false;
                                    r.tag = new_tag("mem", None, None, false);
                                    changed = true;
                                }
                            }
                        }
                        continue;
                    }
                    if let Some(o) = c.off.konst() {
                        conc.push((o, c.size, c.sg, matches!(c.val, Val::Ptr(..) | Val::Fn(_))));
                    } else {
                        let (l, hh) = post.dom.bounds(&c.off);
                        let big = y.size.konst().is_none();
                        let l = l.max(0);
                        let len = if !big && hh != PINF {
                            Form::c(hh + c.size as i128 - l)
                        } else {
                            x.size.addc(-l)
                        };
                        changed |= self.add_region(id, Form::c(l), len, plan, entry, c.size == 2);
                    }
                }
                Ent::Region { start, len, .. } => {
                    if covered(plan, &post.dom, start, len) {
                        // arbitrary content copied into a digit region
                        let dig = match e {
                            Ent::Region { src: Src::Zero, .. } => true,
                            Ent::Region { src: Src::Tag(t, _), .. } => {
                                matches!(tag_info(*t).elem, Some((l, h)) if l >= 0 && h <= 9999)
                            }
                            _ => false,
                        };
                        if !dig {
                            for r in plan.regs.get_mut(&id).unwrap().iter_mut() {
                                if r.digits {
                                    r.digits = false;
                                    r.tag = new_tag("mem", None, None, false);
                                    changed = true;
                                }
                            }
                        }
                        continue;
                    }
                    let (l, _) = post.dom.bounds(start);
                    let l = l.max(0);
                    let hi = post.dom.bounds(&start.add(len)).1;
                    let len2 = if hi != PINF && y.size.konst().is_some() { Form::c(hi - l) } else { x.size.addc(-l) };
                    changed |= self.add_region(id, Form::c(l), len2, plan, entry, true);
                }
            }
        }
        // cells of x that disappeared
        for e in x.log.iter() {
            if let Ent::Cell(c) = e {
                if c.mat || y.log.contains(e) {
                    continue;
                }
                if let Some(o) = c.off.konst() {
                    if !conc.iter().any(|z| z.0 == o && z.1 == c.size) {
                        let sz = Form::c(c.size as i128);
                        if !covered(plan, &post.dom, &c.off, &sz) {
                            conc.push((o, c.size, c.sg, matches!(c.val, Val::Ptr(..) | Val::Fn(_))));
                        }
                    }
                }
            }
        }
        conc.sort();
        conc.dedup();
        // many two-byte cells: an array
        let n2 = conc.iter().filter(|c| c.1 == 2).count();
        if n2 > 24 {
            let l = conc.iter().filter(|c| c.1 == 2).map(|c| c.0).min().unwrap();
            let hh = conc.iter().filter(|c| c.1 == 2).map(|c| c.0 + 2).max().unwrap();
            changed |= self.add_region(id, Form::c(l), Form::c(hh - l), plan, entry, true);
            conc.retain(|c| c.1 != 2);
        }
        for (o, s, sg, ptr) in conc {
            let k = (id, o, s);
            let cur = self.val_at(x, &pre.dom, o, s, sg, ptr);
            let nxt = self.val_at(y, &post.dom, o, s, sg, ptr);
            if cur == nxt {
                continue;
            }
            let eobj = self.entry_obj(entry, id);
            let ent = self.val_at(&eobj, &entry.dom, o, s, sg, ptr);
            changed |= self.step_loc(k, cur, nxt, ent, sg, post, plan, pre);
        }
        changed
    }

    fn add_region(&mut self, id: ObjId, start: Form, len: Form, plan: &mut Plan, entry: &State, dig: bool) -> bool {
        let eo = self.entry_obj(entry, id);
        // does the current content respect the digit range there?
        let mut ok = dig;
        if ok {
            match eo.blob(&entry.dom, &start, &len) {
                Some(b) => {
                    for e in &b {
                        match e {
                            Ent::Cell(c) => {
                                ok &= c.size == 2
                                    && match &c.val {
                                        Val::Int(f) => {
                                            let (l, h) = entry.dom.bounds(f);
                                            l >= 0 && h <= 9999
                                        }
                                        _ => false,
                                    }
                                    || c.val == Val::Undef
                            }
                            Ent::Region { src, .. } => {
                                ok &= match src {
                                    Src::Zero | Src::Undef => true,
                                    Src::Tag(t, _) => matches!(tag_info(*t).elem, Some((l, h)) if l >= 0 && h <= 9999),
                                    _ => false,
                                }
                            }
                        }
                    }
                }
                None => ok = false,
            }
        }
        if self.o.trace {
            eprintln!("   region {:x} start {} len {} digits {}", id, start, len, ok);
        }
        let tag = new_tag("mem", if ok { Some((0, 9999)) } else { None }, None, false);
        // merge with overlapping earlier regions
        let rs = plan.regs.entry(id).or_default();
        let mut st = start;
        let mut ln = len;
        let mut dg = ok;
        let old = std::mem::take(rs);
        for r in old {
            match (r.start.konst(), st.konst()) {
                (Some(a), Some(b)) => {
                    let lo = a.min(b);
                    let e1 = r.len.addc(a);
                    let e2 = ln.addc(b);
                    let end = if entry.dom.le(&e1, &e2) { e2 } else { e1 };
                    st = Form::c(lo);
                    ln = end.addc(-lo);
                    dg &= r.digits;
                }
                _ => rs.push(r),
            }
        }
        let tag = if dg == ok { tag } else { new_tag("mem", None, None, false) };
        rs.push(Reg { start: st, len: ln, tag, digits: dg });
        // drop scalar locations now inside the region
        let rs2 = rs.clone();
        plan.locs.retain(|(o, off, sz), _| {
            *o != id
                || !rs2.iter().any(|r| {
                    matches!(
                        relate(&entry.dom, &Form::c(*off), &Form::c(*sz as i128), &r.start, &r.len),
                        Rel::Same | Rel::Inside
                    )
                })
        });
        true
    }

    fn step_loc(
        &mut self,
        k: (ObjId, i128, u64),
        cur: Val,
        nxt: Val,
        entry: Val,
        sg: bool,
        post: &State,
        plan: &mut Plan,
        pre: &State,
    ) -> bool {
        let npre = pre.heap.len() as u32;
        let range = int_range(sg, 8 * k.2 as u32);
        let free = |nm: &str, e: &Form, x: &Form| -> Gen {
            let (l0, h0) = pre.dom.bounds(e);
            let (l1, h1) = post.dom.bounds(x);
            let _ = (l1, h1);
            let a = atom_of(&fresh(nm, range.0, range.1));
            Gen::Free { atom: a, lo: l0.max(range.0), hi: h0.min(range.1), grow: 0 }
        };
        match plan.locs.get_mut(&k) {
            None => {
                let gen = match (&cur, &nxt) {
                    (Val::Int(a), Val::Int(b)) => {
                        let d = post.dom.norm(&b.sub(a));
                        match d.konst() {
                            Some(d) if d != 0 && matches!(entry, Val::Int(_)) => Gen::Ind(d),
                            Some(0) => return false,
                            _ => match &entry {
                                Val::Int(e) => free("phi", e, b),
                                _ => Gen::Top,
                            },
                        }
                    }
                    (Val::Ptr(a, x), Val::Ptr(b, y)) if a == b => match post.dom.norm(&y.sub(x)).konst() {
                        Some(0) => return false,
                        Some(d) => Gen::PInd(d),
                        None => {
                            let (l, h) = pre.dom.bounds(x);
                            let a = atom_of(&fresh("pphi", NINF / 4, PINF / 4));
                            Gen::PFree { atom: a, lo: l, hi: h, grow: 0 }
                        }
                    },
                    (Val::Float(_), Val::Float(_)) => Gen::FloatFree(fresh("fphi", NINF, PINF)),
                    (Val::Undef, _) | (_, Val::Undef) => Gen::Undef,
                    (_, Val::Ptr(b, _)) if *b & (STACK | GLOBAL) == 0 && *b >= npre => Gen::Top,
                    _ => Gen::Top,
                };
                if self.o.trace {
                    eprintln!("   loc {:x}+{}:{} {:?} -> {:?} entry {:?}: {:?}", k.0, k.1, k.2, cur, nxt, entry, gen);
                }
                plan.locs.insert(k, Loc { entry, sg, gen });
                true
            }
            Some(l) => {
                let ng = match (&l.gen, &cur, &nxt) {
                    (Gen::Ind(d), Val::Int(a), Val::Int(b)) => {
                        if post.dom.eq(&b.sub(a), &Form::c(*d)) {
                            return false;
                        }
                        match &l.entry {
                            Val::Int(e) => free("phi", e, b),
                            _ => Gen::Top,
                        }
                    }
                    (Gen::PInd(d), Val::Ptr(a, x), Val::Ptr(b, y)) if a == b => {
                        if post.dom.eq(&y.sub(x), &Form::c(*d)) {
                            return false;
                        }
                        let e = match &l.entry {
                            Val::Ptr(_, e) => e.clone(),
                            _ => Form::c(0),
                        };
                        let (l, h) = pre.dom.bounds(&e);
                        let a = atom_of(&fresh("pphi", NINF / 4, PINF / 4));
                        Gen::PFree { atom: a, lo: l, hi: h, grow: 0 }
                    }
                    (Gen::Free { atom, lo, hi, grow }, Val::Int(_), Val::Int(b)) => {
                        let (l1, h1) = post.dom.bounds(b);
                        if l1 >= *lo && h1 <= *hi {
                            return false;
                        }
                        let (mut nl, mut nh) = ((*lo).min(l1), (*hi).max(h1));
                        if *grow >= 2 {
                            if nl < *lo {
                                nl = widen_lo(nl, range.0);
                            }
                            if nh > *hi {
                                nh = widen_hi(nh, range.1);
                            }
                        }
                        if *grow >= 8 {
                            nl = range.0;
                            nh = range.1;
                        }
                        let (nl, nh) = (nl.max(range.0), nh.min(range.1));
                        if (nl, nh) == (*lo, *hi) {
                            return false;
                        }
                        Gen::Free { atom: *atom, lo: nl, hi: nh, grow: grow + 1 }
                    }
                    (Gen::PFree { atom, lo, hi, grow }, Val::Ptr(a, _), Val::Ptr(b, y)) if a == b => {
                        let (l1, h1) = post.dom.bounds(y);
                        if l1 >= *lo && h1 <= *hi {
                            return false;
                        }
                        let (nl, nh) =
                            if *grow >= 2 { (NINF / 4, PINF / 4) } else { ((*lo).min(l1), (*hi).max(h1)) };
                        Gen::PFree { atom: *atom, lo: nl, hi: nh, grow: grow + 1 }
                    }
                    (Gen::FloatFree(_), _, Val::Float(_)) => return false,
                    (Gen::Top, _, _) | (Gen::Undef, _, _) => return false,
                    _ => Gen::Top,
                };
                if self.o.trace {
                    eprintln!("   loc {:x}+{}:{} -> {:?}", k.0, k.1, k.2, ng);
                }
                l.gen = ng;
                true
            }
        }
    }

    fn build(&mut self, st: &State, plan: &Plan, k: AtomId) -> State {
        let mut s = st.clone();
        s.approx += 1;
        for id in &plan.gone {
            let i = (*id & !STACK) as usize;
            if i < s.stack.len() {
                s.stack[i] = None;
            }
        }
        for (id, g) in &plan.sizes {
            if let Gen::Free { atom, .. } = g {
                self.obj_mut(&mut s, *id).size = Form::atom(*atom);
            }
        }
        s.dom.add_ge0(&Form::atom(k));
        for ((id, off, size), l) in &plan.locs {
            if plan.gone.contains(id) {
                continue;
            }
            let v = match (&l.gen, &l.entry) {
                (Gen::Ind(d), Val::Int(e)) => Val::Int(e.lin(1, &Form::atom(k), *d).unwrap()),
                (Gen::PInd(d), Val::Ptr(o, e)) => Val::Ptr(*o, e.lin(1, &Form::atom(k), *d).unwrap()),
                (Gen::Free { atom, lo, hi, .. }, _) => {
                    let f = Form::atom(*atom);
                    if *lo != NINF {
                        s.dom.add_ge0(&f.sub(&Form::c(*lo)));
                    }
                    if *hi != PINF {
                        s.dom.add_ge0(&Form::c(*hi).sub(&f));
                    }
                    Val::Int(f)
                }
                (Gen::PFree { atom, lo, hi, .. }, Val::Ptr(o, _)) => {
                    let f = Form::atom(*atom);
                    if *lo != NINF {
                        s.dom.add_ge0(&f.sub(&Form::c(*lo)));
                    }
                    if *hi != PINF {
                        s.dom.add_ge0(&Form::c(*hi).sub(&f));
                    }
                    Val::Ptr(*o, f)
                }
                (Gen::FloatFree(f), _) => Val::Float(f.clone()),
                (Gen::Undef, _) => Val::Undef,
                _ => Val::Top,
            };
            let d = s.dom.clone();
            self.obj_mut(&mut s, *id).write(&d, &Form::c(*off), *size, v, l.sg);
        }
        for (id, rs) in &plan.regs {
            for r in rs {
                let d = s.dom.clone();
                let e = Ent::Region { start: Form::c(0), len: r.len.clone(), src: Src::Tag(r.tag, r.start.neg()) };
                // region content is addressed by object offset
                let e = match e {
                    Ent::Region { start, len, .. } => Ent::Region { start, len, src: Src::Tag(r.tag, r.start.neg()) },
                    e => e,
                };
                self.obj_mut(&mut s, *id).write_blob(&d, &r.start, &r.len, &[e]);
            }
        }
        for c in &plan.cands {
            s.dom.add_ge0(c);
        }
        if plan.events {
            Rc::make_mut(&mut s.events).push(Event { name: "loop*".into(), args: vec![] });
        }
        if plan.lossy {
            s.lossy += 1;
        }
        s
    }

    fn generalise(&mut self, fr: &Frame, st: State, h: usize) -> Vec<(State, Flow)> {
        self.gen_depth += 1;
        if self.o.trace {
            eprintln!("  generalise loop bb{} of {}", h, self.p.fns[fr.f].n);
        }
        let k = atom_of(&fresh("k", 0, 1 << 62));
        let mut plan = Plan::default();
        let mark = self.obs.len();
        let mut round = 0;
        let ok = loop {
            round += 1;
            if round > 30 {
                break false;
            }
            let head = self.build(&st, &plan, k);
            if head.dom.bot {
                // candidates contradictory with entry: cannot happen, entry satisfies them
                break false;
            }
            let first_new = atom_count();
            let flows = self.region(fr, vec![head.clone()], h, Some(h));
            self.obs.truncate(mark);
            if self.dead {
                self.gen_depth -= 1;
                return vec![];
            }
            let backs: Vec<State> = flows.into_iter().filter(|(_, f)| matches!(f, Flow::Back)).map(|x| x.0).collect();
            let mut changed = false;
            for b in &backs {
                changed |= self.diff(&head, b, &mut plan, &st);
            }
            // check candidates
            let mut keep = vec![];
            for c in std::mem::take(&mut plan.cands) {
                let good = backs.iter().all(|b| match self.shift(&c, &plan, k, &head, b) {
                    Some(f) => b.dom.ge0d(&f, 3),
                    None => false,
                });
                if good {
                    keep.push(c);
                } else {
                    if self.o.trace {
                        eprintln!("   candidate dropped {} >= 0", c);
                    }
                    changed = true;
                }
            }
            plan.cands = keep;
            // propose new candidates
            if round <= 8 {
                let mut props: Vec<Form> = vec![];
                for b in &backs {
                    self.propose(b, &plan, k, &head, first_new, &mut props);
                }
                for f in props {
                    if plan.proposed.contains(&f) || plan.cands.contains(&f) {
                        continue;
                    }
                    plan.proposed.push(f.clone());
                    // entry
                    match self.at_entry(&f, &plan, k) {
                        Some(e) if st.dom.ge0d(&e, 3) => {
                            if head.dom.ge0(&f) {
                                continue;
                            }
                            if self.o.trace {
                                eprintln!("   candidate {} >= 0", f);
                            }
                            plan.cands.push(f);
                            changed = true;
                        }
                        _ => {}
                    }
                }
            }
            if !changed {
                break true;
            }
        };
        if !ok {
            self.give_up(format!("no inductive state for a loop in {}", self.p.fns[fr.f].d));
            self.gen_depth -= 1;
            self.dead = true;
            return vec![];
        }
        let head = self.build(&st, &plan, k);
        let flows = self.region(fr, vec![head], h, Some(h));
        self.gen_depth -= 1;
        flows.into_iter().filter(|(_, f)| !matches!(f, Flow::Back)).collect()
    }

    /// Value of a candidate at the next iteration's header.
    fn shift(&mut self, c: &Form, plan: &Plan, k: AtomId, _head: &State, back: &State) -> Option<Form> {
        let mut r = Form::c(c.k);
        let mut post: HashMap<AtomId, Form> = HashMap::new();
        for ((id, off, size), l) in &plan.locs {
            match &l.gen {
                Gen::Free { atom, .. } if c.coef(*atom) != 0 => {
                    let ob = self.obj(back, *id);
                    match self.val_at(&ob, &back.dom, *off, *size, l.sg, false) {
                        Val::Int(f) => {
                            post.insert(*atom, f);
                        }
                        _ => return None,
                    }
                }
                Gen::PFree { atom, .. } if c.coef(*atom) != 0 => {
                    let ob = self.obj(back, *id);
                    match self.val_at(&ob, &back.dom, *off, *size, l.sg, true) {
                        Val::Ptr(_, f) => {
                            post.insert(*atom, f);
                        }
                        _ => return None,
                    }
                }
                _ => {}
            }
        }
        for (id, g) in &plan.sizes {
            if let Gen::Free { atom, .. } = g {
                post.insert(*atom, self.obj(back, *id).size.clone());
            }
        }
        for (a, x) in c.terms() {
            if *a == k {
                r = r.lin(1, &Form::atom(k).addc(1), *x)?;
            } else if let Some(f) = post.get(a) {
                r = r.lin(1, f, *x)?;
            } else {
                r = r.lin(1, &Form::atom(*a), *x)?;
            }
        }
        Some(r)
    }
    fn at_entry(&mut self, c: &Form, plan: &Plan, k: AtomId) -> Option<Form> {
        let mut r = Form::c(c.k);
        for (a, x) in c.terms() {
            if *a == k {
                continue;
            }
            let mut v = None;
            for l in plan.locs.values() {
                match (&l.gen, &l.entry) {
                    (Gen::Free { atom, .. }, Val::Int(e)) if atom == a => v = Some(e.clone()),
                    (Gen::PFree { atom, .. }, Val::Ptr(_, e)) if atom == a => v = Some(e.clone()),
                    _ => {}
                }
            }
            match v {
                Some(f) => r = r.lin(1, &f, *x)?,
                None => {
                    let nm = atom_info(*a);
                    if matches!(nm.kind, Kind::Fresh(ref n, _) if &**n == "size") && plan.sizes.values().any(|g| matches!(g, Gen::Free{atom, ..} if atom == a)) {
                        return None;
                    }
                    r = r.lin(1, &Form::atom(*a), *x)?
                }
            }
        }
        Some(r)
    }

    fn propose(&mut self, b: &State, plan: &Plan, k: AtomId, head: &State, first_new: usize, out: &mut Vec<Form>) {
        // atoms whose next value is current + constant
        let mut delta: HashMap<AtomId, i128> = HashMap::new();
        delta.insert(k, 1);
        let mut frees: Vec<(AtomId, Form, Form)> = vec![];
        for ((id, off, size), l) in &plan.locs {
            let (atom, ptr) = match &l.gen {
                Gen::Free { atom, .. } => (*atom, false),
                Gen::PFree { atom, .. } => (*atom, true),
                _ => continue,
            };
            let ob = self.obj(b, *id);
            let f = match self.val_at(&ob, &b.dom, *off, *size, l.sg, ptr) {
                Val::Int(f) => f,
                Val::Ptr(_, f) => f,
                _ => continue,
            };
            let e = match &l.entry {
                Val::Int(e) | Val::Ptr(_, e) => e.clone(),
                _ => continue,
            };
            if let Some(d) = b.dom.norm(&f.sub(&Form::atom(atom))).konst() {
                delta.insert(atom, d);
            }
            frees.push((atom, f, e));
        }
        let has_free = |f: &Form| f.terms().iter().any(|(a, _)| frees.iter().any(|x| x.0 == *a));
        let mut push = |f: Form| {
            if f.konst().is_none() && !out.contains(&f) && out.len() < 60 {
                out.push(f);
            }
        };
        let usable = |f: &Form| {
            f.terms().iter().all(|(a, _)| (*a as usize) < first_new)
                && f.terms().iter().any(|(a, _)| delta.contains_key(a))
        };
        let shift_back = |f: &Form| -> Option<Form> {
            // rewrite in terms of the next iteration's values
            let mut r = Form::c(f.k);
            for (a, c) in f.terms() {
                match delta.get(a) {
                    Some(d) => r = r.lin(1, &Form::atom(*a).addc(-d), *c)?,
                    None => r = r.lin(1, &Form::atom(*a), *c)?,
                }
            }
            Some(r)
        };
        let facts: Vec<Form> = b.dom.facts.iter().cloned().collect();
        let mut ivs: Vec<Form> = vec![];
        for (a, (l, h)) in b.dom.iv.iter() {
            if delta.contains_key(a) {
                if *l != NINF {
                    ivs.push(Form::atom(*a).addc(-*l));
                }
                if *h != PINF {
                    ivs.push(Form::c(*h).sub(&Form::atom(*a)));
                }
            }
        }
        for f in facts.iter().chain(ivs.iter()) {
            let f = b.dom.norm(f);
            if usable(&f) {
                if let Some(g) = shift_back(&f) {
                    push(g);
                }
                if has_free(&f) {
                    push(f.clone());
                }
            }
        }
        // monotone relations with the entry value and with k
        for (a, f, e) in &frees {
            let x = Form::atom(*a);
            let d = b.dom.norm(&f.sub(&x));
            let (l, h) = b.dom.bounds(&d);
            if l >= 0 || b.dom.ge0(&d) {
                push(x.sub(e));
            }
            if h <= 0 || b.dom.ge0(&d.neg()) {
                push(e.sub(&x));
            }
            if (0..=4).contains(&h) {
                if let Some(g) = e.lin(1, &Form::atom(k), h) {
                    push(g.sub(&x));
                }
            }
            if (-4..=0).contains(&l) {
                if let Some(g) = e.lin(1, &Form::atom(k), l) {
                    push(x.sub(&g));
                }
            }
        }
        // equal steps between unknowns
        for i in 0..frees.len() {
            for j in 0..i {
                let (a, f, e) = &frees[i];
                let (c, g, q) = &frees[j];
                let (df, dg) = (f.sub(&Form::atom(*a)), g.sub(&Form::atom(*c)));
                if b.dom.eq(&df, &dg) {
                    let d = Form::atom(*a).sub(&Form::atom(*c)).sub(e).add(q);
                    push(d.clone());
                    push(d.neg());
                } else if let Some(s) = df.lin(1, &dg, 1) {
                    if b.dom.eq(&s, &Form::c(0)) {
                        let d = Form::atom(*a).add(&Form::atom(*c)).sub(e).sub(q);
                        push(d.clone());
                        push(d.neg());
                    }
                }
            }
        }
        let _ = head;
    }
}

pub fn atom_of(f: &Form) -> AtomId {
    f.terms()[0].0
}
pub fn atom_count() -> usize {
    I.with(|i| i.borrow().atoms.len())
}
