//! Concretisation of an abstract element: an alarm is raised only for a
//! partition that was never widened and for which a member can be exhibited
//! (values of the context's inputs satisfying every relation of the element).
use crate::mem::*;
use crate::num::*;
use std::collections::{BTreeMap, BTreeSet};

thread_local! {
    /// address given to every object, in units of its alignment
    static BASE: std::cell::Cell<i128> = const { std::cell::Cell::new(1 << 20) };
}
pub fn set_base(v: i128) {
    BASE.with(|b| b.set(v));
}

#[derive(Clone, Default)]
struct Asg {
    inp: BTreeMap<AtomId, i128>,
    mem: BTreeMap<(u32, i128), i128>, // byte contents
}

enum Ev {
    V(i128),
    /// needs this atom first
    Need(AtomId),
    Bad,
}

fn byte_of(v: i128, i: u64) -> i128 {
    (v >> (8 * i)) & 0xff
}

impl Asg {
    fn form(&self, d: &Dom, f: &Form, dep: u32) -> Ev {
        let mut r = f.k;
        for (a, c) in f.terms() {
            match self.atom(d, *a, dep + 1) {
                Ev::V(v) => match v.checked_mul(*c).and_then(|x| r.checked_add(x)) {
                    Some(x) => r = x,
                    None => return Ev::Bad,
                },
                e => return e,
            }
        }
        Ev::V(r)
    }
    fn atom(&self, d: &Dom, a: AtomId, dep: u32) -> Ev {
        if dep > 60 {
            return Ev::Bad;
        }
        if let Some(v) = self.inp.get(&a) {
            return Ev::V(*v);
        }
        let info = atom_info(a);
        match &info.kind {
            Kind::Input(_) => Ev::Need(a),
            Kind::Fresh(..) => Ev::Bad,
            Kind::Read(t, off, size, sg) => {
                if !tag_info(*t).pure_ {
                    return Ev::Bad;
                }
                let o = match self.form(d, off, dep) {
                    Ev::V(o) => o,
                    e => return e,
                };
                let mut v: i128 = 0;
                for i in 0..*size {
                    match self.mem.get(&(*t, o + i as i128)) {
                        Some(b) => v |= *b << (8 * i),
                        None => return Ev::Need(a),
                    }
                }
                if *sg && *size <= 8 && (v >> (8 * *size - 1)) & 1 == 1 {
                    v -= 1i128 << (8 * *size);
                }
                Ev::V(v)
            }
            Kind::Op(o, fs) => {
                let mut v = vec![];
                if matches!(*o, "f.lt" | "f.gt" | "f.eq") {
                    let (x, y) = match (self.float(d, &fs[0], dep), self.float(d, &fs[1], dep)) {
                        (Ok(x), Ok(y)) => (x, y),
                        (Err(e), _) | (_, Err(e)) => return e,
                    };
                    return Ev::V(match *o {
                        "f.lt" => x < y,
                        "f.gt" => x > y,
                        _ => x == y,
                    } as i128);
                }
                if *o == "f2i" {
                    let x = match self.float(d, &fs[0], dep) {
                        Ok(x) => x,
                        Err(e) => return e,
                    };
                    let (l, h) = atom_range(a);
                    return Ev::V(if x.is_nan() { 0 } else { (x as i128).clamp(l, h) });
                }
                if *o == "addr" {
                    return Ev::V(BASE.with(|b| b.get()));
                }
                for f in fs {
                    match self.form(d, f, dep) {
                        Ev::V(x) => v.push(x),
                        e => return e,
                    }
                }
                Ev::V(match *o {
                    "fdiv" if v[1] != 0 => floordiv(v[0], v[1]),
                    "mul" => match v[0].checked_mul(v[1]) {
                        Some(x) => x,
                        None => return Ev::Bad,
                    },
                    "div" if v[1] != 0 => v[0] / v[1],
                    "rem" if v[1] != 0 => v[0] % v[1],
                    "ge0" => (v[0] >= 0) as i128,
                    "eq0" => (v[0] == 0) as i128,
                    "band" | "and" => v[0] & v[1],
                    "bor" => v[0] | v[1],
                    "bswap" if v[1] == 32 => (v[0] as u32).swap_bytes() as i128,
                    "bswap" if v[1] == 16 => (v[0] as u16).swap_bytes() as i128,
                    "wrap" if v[1] < 127 => {
                        let m = 1i128 << v[1];
                        let r = v[0].rem_euclid(m);
                        if v[2] != 0 && r >= m / 2 {
                            r - m
                        } else {
                            r
                        }
                    }
                    _ => return Ev::Bad,
                })
            }
        }
    }
    /// Value of a double computed from integers.
    fn float(&self, d: &Dom, f: &Form, dep: u32) -> Result<f64, Ev> {
        let Some((a, 1)) = f.single() else { return Err(Ev::Bad) };
        if f.k != 0 || dep > 60 {
            return Err(Ev::Bad);
        }
        let Kind::Op(o, v) = atom_info(a).kind else { return Err(Ev::Bad) };
        let bin = |g: fn(f64, f64) -> f64| Ok(g(self.float(d, &v[0], dep + 1)?, self.float(d, &v[1], dep + 1)?));
        match o {
            "fconst" => match v[2].k {
                8 => Ok(f64::from_bits(v[1].k as u64)),
                _ => Err(Ev::Bad),
            },
            "f.int" => match self.form(d, &v[0], dep + 1) {
                Ev::V(x) => Ok(x as f64),
                e => Err(e),
            },
            "f.add" => bin(|x, y| x + y),
            "f.sub" => bin(|x, y| x - y),
            "f.mul" => bin(|x, y| x * y),
            "f.div" => bin(|x, y| x / y),
            "f.neg" => Ok(-self.float(d, &v[0], dep + 1)?),
            "f.abs" => Ok(self.float(d, &v[0], dep + 1)?.abs()),
            "f.log" => {
                let x = self.float(d, &v[0], dep + 1)?;
                Ok(if v[1].is_c(1) { x.log10() } else { x.ln() })
            }
            _ => Err(Ev::Bad),
        }
    }
    fn assign(&mut self, d: &Dom, a: AtomId, v: i128) -> bool {
        match &atom_info(a).kind {
            Kind::Input(_) => {
                self.inp.insert(a, v);
                true
            }
            Kind::Read(t, off, size, _) => {
                let Ev::V(o) = self.form(d, off, 0) else { return false };
                for i in 0..*size {
                    let b = byte_of(v, i as u64);
                    if let Some(x) = self.mem.get(&(*t, o + i as i128)) {
                        if *x != b {
                            return false;
                        }
                    }
                    self.mem.insert((*t, o + i as i128), b);
                }
                true
            }
            _ => false,
        }
    }
}

fn constraints_ok(d: &Dom, s: &Asg) -> Result<(), Option<AtomId>> {
    let get = |f: &Form| -> Result<i128, Option<AtomId>> {
        match s.form(d, f, 0) {
            Ev::V(v) => Ok(v),
            Ev::Need(a) => Err(Some(a)),
            Ev::Bad => Err(None),
        }
    };
    let mut used: BTreeSet<AtomId> = BTreeSet::new();
    for f in d.facts.iter() {
        if get(f)? < 0 {
            return Err(None);
        }
    }
    for f in d.ne.iter() {
        if get(f)? == 0 {
            return Err(None);
        }
    }
    for (a, f) in d.sub.iter() {
        if let Kind::Fresh(..) = atom_info(*a).kind {
            return Err(None);
        }
        if get(&Form::atom(*a))? != get(f)? {
            return Err(None);
        }
    }
    for (a, (l, h)) in d.iv.iter() {
        let v = get(&Form::atom(*a))?;
        if v < *l || v > *h {
            return Err(None);
        }
        used.insert(*a);
    }
    // intrinsic ranges of everything assigned
    for (a, v) in &s.inp {
        let (l, h) = atom_range(*a);
        if *v < l || *v > h {
            return Err(None);
        }
    }
    Ok(())
}

fn solve(d: &Dom, s: &Asg, budget: &mut u32) -> Option<Asg> {
    if d.bot || *budget == 0 {
        return None;
    }
    *budget -= 1;
    let need = match constraints_ok(d, s) {
        Ok(()) => return Some(s.clone()),
        Err(None) => return None,
        Err(Some(a)) => a,
    };
    let x = Form::atom(need);
    let (mut l, mut h) = d.bounds(&x);
    let (il, ih) = atom_range(need);
    l = l.max(il);
    h = h.min(ih);
    // an already chosen memory content decides
    let mut cand: Vec<i128> = vec![];
    let mid = if l != NINF && h != PINF { l / 2 + h / 2 } else { 0 };
    for v in [l, h, 0, 1, -1, mid, 4, -4, 9999, 5000, 2, 3, l.saturating_add(1), h.saturating_sub(1), l.saturating_add(4), h.saturating_sub(4)] {
        if v >= l && v <= h && v != NINF && v != PINF && !cand.contains(&v) {
            cand.push(v);
        }
    }
    if let Kind::Read(t, off, size, sg) = &atom_info(need).kind {
        if let Ev::V(o) = s.form(d, off, 0) {
            // overlapping known bytes: only partially known contents are given up
            let known: Vec<Option<i128>> = (0..*size).map(|i| s.mem.get(&(*t, o + i as i128)).copied()).collect();
            if known.iter().any(|k| k.is_some()) {
                let _ = sg;
                return None;
            }
        }
    }
    for v in cand {
        let mut d2 = d.clone();
        d2.add_eq0(&x.addc(-v));
        if d2.bot {
            continue;
        }
        let mut s2 = s.clone();
        if !s2.assign(d, need, v) {
            continue;
        }
        if let Some(r) = solve_check(d, &d2, &s2, budget) {
            return Some(r);
        }
        if *budget == 0 {
            return None;
        }
    }
    None
}
fn solve_check(_d: &Dom, d2: &Dom, s: &Asg, budget: &mut u32) -> Option<Asg> {
    solve(d2, s, budget)
}

pub fn witness(st: &State) -> Option<String> {
    if st.lossy != 0 || st.approx != 0 || late() {
        return None;
    }
    witness_dom(&st.dom)
}
pub fn witness_dom(d: &Dom) -> Option<String> {
    if d.bot {
        return None;
    }
    let mut budget = 1500;
    // what is already fixed
    let mut fixed = Asg::default();
    for (a, f) in d.sub.iter() {
        let Some(v) = f.konst() else { continue };
        match &atom_info(*a).kind {
            Kind::Input(_) => {
                fixed.assign(d, *a, v);
            }
            Kind::Read(t, off, ..) if off.konst().is_some() && tag_info(*t).pure_ && !fixed.assign(d, *a, v) => return None,
            _ => {}
        }
    }
    let s = solve(d, &fixed, &mut budget)?;
    let mut v = vec![];
    for (a, x) in &s.inp {
        v.push(format!("{}={}", atom_name(*a), x));
    }
    let mut tags: BTreeMap<u32, Vec<(i128, i128)>> = BTreeMap::new();
    for ((t, o), b) in &s.mem {
        tags.entry(*t).or_default().push((*o, *b));
    }
    for (t, bs) in tags {
        let n = tag_info(t).name;
        v.push(format!(
            "{}:{}",
            n,
            bs.iter().take(40).map(|(o, b)| format!("{}={:02x}", o, b)).collect::<Vec<_>>().join(" ")
        ));
    }
    Some(if v.is_empty() { "every member of the context".into() } else { v.join(", ") })
}
