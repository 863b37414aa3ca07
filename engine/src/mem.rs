//! Abstract memory: byte-addressed objects described by a log of typed cells
//! and regions over a base content.
use crate::num::*;
use crate::prog::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type ObjId = u32;
pub const STACK: u32 = 1 << 31;
pub const GLOBAL: u32 = 1 << 30;

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Int(Form),
    Ptr(ObjId, Form),
    Fn(FnId),
    Float(Form),
    Undef,
    Top,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Src {
    Undef,
    Zero,
    /// bytes of tag at (offset - shift)
    Tag(u32, Form),
    /// constant bytes of a program allocation
    Const(usize),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Cell {
    pub off: Form,
    pub size: u64,
    pub val: Val,
    pub sg: bool,
    /// materialised read of unchanged content
    pub mat: bool,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Ent {
    Cell(Cell),
    Region { start: Form, len: Form, src: Src },
}

#[derive(Clone, PartialEq, Debug)]
pub enum OKind {
    Local,
    Heap { align: u64 },
    Const(usize),
    Static(usize),
    Input(Rc<str>),
    Vtable(usize),
    Opaque(Rc<str>),
}

/// Entries of an object, oldest first. Long arrays of equally sized cells at
/// constant offsets are indexed.
#[derive(Clone, Default)]
pub struct Log {
    v: Vec<Ent>,
    ix: std::cell::RefCell<Option<Rc<Ix>>>,
}
struct Ix {
    /// regions come before all cells; cells have this size and offsets congruent to rem
    size: u64,
    rem: i128,
    regions: usize,
    at: HashMap<i128, u32>,
    /// a few other cells at constant offsets, apart from the array's
    odd: Vec<(i128, i128)>,
    /// not an array: number of entries when this was found out
    no: usize,
}
impl Clone for Ix {
    fn clone(&self) -> Ix {
        Ix { size: self.size, rem: self.rem, regions: self.regions, at: self.at.clone(), odd: self.odd.clone(), no: self.no }
    }
}
impl From<Vec<Ent>> for Log {
    fn from(v: Vec<Ent>) -> Log {
        Log { v, ix: Default::default() }
    }
}
impl std::ops::Deref for Log {
    type Target = Vec<Ent>;
    fn deref(&self) -> &Vec<Ent> {
        &self.v
    }
}
impl PartialEq for Log {
    fn eq(&self, o: &Log) -> bool {
        self.v == o.v
    }
}
impl std::fmt::Debug for Log {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.v.fmt(f)
    }
}
impl Log {
    pub fn into_vec(self) -> Vec<Ent> {
        self.v
    }
    pub fn push(&mut self, e: Ent) {
        if let (Some(ix), Ent::Cell(_)) = (self.ix.get_mut(), &e) {
            if ix.no > 0 {
                self.v.push(e);
                return;
            }
        }
        *self.ix.get_mut() = None;
        self.v.push(e);
    }
    fn index(&self) -> Option<Rc<Ix>> {
        if self.v.len() < 64 {
            return None;
        }
        let mut b = self.ix.borrow_mut();
        match &*b {
            Some(x) if x.no == 0 => return Some(x.clone()),
            Some(x) if x.no * 2 > self.v.len() => return None,
            _ => {}
        }
        let mut ix = Ix { size: 0, rem: 0, regions: 0, at: HashMap::new(), odd: vec![], no: 0 };
        let mut ok = true;
        // the newest entry belongs to the array
        if let Some(Ent::Cell(c)) = self.v.last() {
            if let Some(o) = c.off.konst() {
                ix.size = c.size;
                ix.rem = o.rem_euclid(c.size.max(1) as i128);
            }
        }
        for (i, e) in self.v.iter().enumerate() {
            match e {
                Ent::Region { .. } if i == ix.regions => ix.regions += 1,
                Ent::Cell(c) if c.size > 0 => match c.off.konst() {
                    Some(o) => {
                        if ix.size == c.size && ix.rem == o.rem_euclid(c.size as i128) {
                            ok = ix.at.insert(o, i as u32).is_none();
                        } else {
                            ix.odd.push((o, o + c.size as i128));
                            ok = ix.odd.len() <= 16;
                        }
                    }
                    None => ok = false,
                },
                _ => ok = false,
            }
            if !ok {
                break;
            }
        }
        for (i, (l, h)) in ix.odd.iter().enumerate() {
            let z = ix.size as i128;
            let mut o = l - (l - ix.rem).rem_euclid(z.max(1));
            while ok && z > 0 && o < *h {
                ok = !ix.at.contains_key(&o) || o + z <= *l;
                o += z;
            }
            ok = ok && ix.odd[..i].iter().all(|(a, b)| b <= l || a >= h);
        }
        if !ok || ix.size == 0 {
            *b = Some(Rc::new(Ix { size: 0, rem: 0, regions: 0, at: HashMap::new(), odd: vec![], no: self.v.len() }));
            return None;
        }
        let r = Rc::new(ix);
        *b = Some(r.clone());
        Some(r)
    }
    /// Some(position) of the only entry above the regions that an access meets.
    fn look(&self, off: &Form, size: u64) -> Option<(Option<u32>, usize)> {
        let o = off.konst()?;
        let ix = self.index()?;
        if ix.size != size || o.rem_euclid(size as i128) != ix.rem {
            return None;
        }
        if ix.odd.iter().any(|(l, h)| o < *h && o + size as i128 > *l) {
            return None;
        }
        Some((ix.at.get(&o).copied(), ix.regions))
    }
    /// Writes a cell of an indexed array.
    fn put(&mut self, c: Cell) -> Result<(), Cell> {
        let Some((at, _)) = self.look(&c.off, c.size) else { return Err(c) };
        match at {
            Some(i) => self.v[i as usize] = Ent::Cell(c),
            None => {
                let o = c.off.k;
                let n = self.v.len() as u32;
                if let Some(ix) = self.ix.get_mut() {
                    Rc::make_mut(ix).at.insert(o, n);
                }
                self.v.push(Ent::Cell(c));
            }
        }
        Ok(())
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Obj {
    pub kind: OKind,
    pub size: Form,
    pub align: u64,
    pub log: Log,
    pub base: Src,
    pub alive: bool,
    pub ro: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Event {
    pub name: Rc<str>,
    pub args: Vec<EvArg>,
}
#[derive(Clone, PartialEq, Debug)]
pub enum EvArg {
    Int(Form),
    Float(Form),
    Str(Rc<str>),
    /// memory slice: object, offset, length (bytes) and known cells relative to offset
    Slice { obj: ObjId, off: Form, len: Form, cells: Vec<Ent> },
    Other,
}

#[derive(Clone, Default)]
pub struct State {
    pub stack: Vec<Option<Rc<Obj>>>,
    pub heap: Vec<Rc<Obj>>,
    pub globals: BTreeMap<u32, Rc<Obj>>,
    pub dom: Dom,
    pub events: Rc<Vec<Event>>,
    pub once: Rc<BTreeSet<u32>>,
    /// labels of decisions and facts worth reporting
    pub notes: Rc<Vec<String>>,
    /// number of values this path depends on that the analysis could not track
    pub lossy: u32,
    /// number of times this partition was widened beyond what can happen
    pub approx: u32,
}

impl State {
    pub fn new_heap(&mut self, o: Obj) -> ObjId {
        self.heap.push(Rc::new(o));
        self.heap.len() as u32 - 1
    }
    pub fn note(&mut self, s: String) {
        Rc::make_mut(&mut self.notes).push(s);
    }
    pub fn same_mem(&self, o: &State) -> bool {
        fn eqo(a: &Option<Rc<Obj>>, b: &Option<Rc<Obj>>) -> bool {
            match (a, b) {
                (None, None) => true,
                (Some(x), Some(y)) => Rc::ptr_eq(x, y) || x.same(y),
                (Some(x), None) | (None, Some(x)) => x.log.is_empty() && x.base == Src::Undef && x.kind == OKind::Local,
            }
        }
        self.stack.len() == o.stack.len()
            && self.heap.len() == o.heap.len()
            && self.once == o.once
            && self.lossy == o.lossy
            && (Rc::ptr_eq(&self.events, &o.events) || self.events == o.events)
            && self.stack.iter().zip(&o.stack).all(|(a, b)| eqo(a, b))
            && self.heap.iter().zip(&o.heap).all(|(a, b)| Rc::ptr_eq(a, b) || (!a.alive && !b.alive) || a.same(b))
            && self.globals.len() == o.globals.len()
            && self.globals.iter().zip(&o.globals).all(|((k, a), (l, b))| k == l && (Rc::ptr_eq(a, b) || a.same(b)))
    }
}

impl Obj {
    /// Equality up to remembered reads.
    pub fn same(&self, o: &Obj) -> bool {
        fn w(e: &&Ent) -> bool {
            !matches!(e, Ent::Cell(c) if c.mat)
        }
        self.kind == o.kind
            && self.size == o.size
            && self.align == o.align
            && self.base == o.base
            && self.alive == o.alive
            && self.ro == o.ro
            && self.log.iter().filter(w).eq(o.log.iter().filter(w))
    }
}
impl State {
    /// Joins o into self; memories must be the same. Without `force` only
    /// when nothing is lost by it.
    pub fn absorb(&mut self, o: &State, force: bool) -> bool {
        let j = self.dom.join(&o.dom);
        if !Dom::exact_join(&j, &self.dom, &o.dom) {
            if !force {
                return false;
            }
            self.approx += 1;
        }
        self.approx = self.approx.max(o.approx);
        fn mats(a: &mut Rc<Obj>, b: &Rc<Obj>) {
            if !Rc::ptr_eq(a, b) && a.log != b.log {
                let l: Vec<Ent> =
                    a.log.iter().filter(|e| !matches!(e, Ent::Cell(c) if c.mat) || b.log.contains(e)).cloned().collect();
                Rc::make_mut(a).log = l.into();
            }
        }
        for (a, b) in self.stack.iter_mut().zip(&o.stack) {
            match (a.as_mut(), b) {
                (Some(a), Some(b)) => mats(a, b),
                _ => *a = None,
            }
        }
        for (a, b) in self.heap.iter_mut().zip(&o.heap) {
            mats(a, b);
        }
        for (k, a) in self.globals.iter_mut() {
            mats(a, &o.globals[k]);
        }
        self.dom = j;
        true
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sc {
    Int(bool, u32),
    Bool,
    Char,
    Ptr,
    Float,
}
impl Sc {
    pub fn range(self) -> (i128, i128) {
        match self {
            Sc::Int(s, b) => int_range(s, b),
            Sc::Bool => (0, 1),
            Sc::Char => (0, 0x10FFFF),
            Sc::Ptr => (0, u64::MAX as i128),
            Sc::Float => (NINF, PINF),
        }
    }
    pub fn signed(self) -> bool {
        matches!(self, Sc::Int(true, _))
    }
}
pub fn int_range(s: bool, b: u32) -> (i128, i128) {
    if b >= 128 {
        return if s { (NINF, PINF) } else { (0, PINF) };
    }
    if s {
        (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1)
    } else {
        (0, (1i128 << b) - 1)
    }
}

/// Outcome of trying to read memory.
pub enum Rd {
    Val(Val, bool),
    /// offset must be resolved among these constants
    Split(Form, Vec<i128>),
    /// contents could not be determined
    Ambig,
}

pub fn blank(kind: OKind, size: Form, align: u64) -> Obj {
    Obj { kind, size, align, log: Log::default(), base: Src::Undef, alive: true, ro: false }
}

/// Relation between access [off, off+size) and entry [eo, eo+es).
#[derive(PartialEq)]
pub enum Rel {
    Same,
    Inside,
    Disjoint,
    Overlap,
    Maybe,
}

pub fn relate(d: &Dom, off: &Form, size: &Form, eo: &Form, es: &Form) -> Rel {
    if let (Some(o), Some(e), Some(n), Some(m)) = (off.konst(), eo.konst(), size.konst(), es.konst()) {
        let x = o - e;
        if x == 0 && n == m {
            return Rel::Same;
        }
        if x >= m || x + n <= 0 {
            return Rel::Disjoint;
        }
        if x >= 0 && x + n <= m {
            return Rel::Inside;
        }
        return Rel::Overlap;
    }
    let Some(df) = off.lin(1, eo, -1) else { return Rel::Maybe };
    let df = d.norm(&df);
    if let (Some(x), Some(n), Some(m)) = (df.konst(), size.konst(), es.konst()) {
        if x == 0 && n == m {
            return Rel::Same;
        }
        if x >= m || x + n <= 0 {
            return Rel::Disjoint;
        }
        if x >= 0 && x + n <= m {
            return Rel::Inside;
        }
        return Rel::Overlap;
    }
    // off >= eo + es ?
    if let Some(g) = df.lin(1, es, -1) {
        if d.ge0(&g) {
            return Rel::Disjoint;
        }
    }
    if let Some(g) = df.neg().lin(1, size, -1) {
        if d.ge0(&g) {
            return Rel::Disjoint;
        }
    }
    let inside = d.ge0(&df) && {
        match es.lin(1, &df, -1).and_then(|x| x.lin(1, size, -1)) {
            Some(g) => d.ge0(&g),
            None => false,
        }
    };
    if inside {
        if d.eq(off, eo) && d.eq(size, es) {
            return Rel::Same;
        }
        return Rel::Inside;
    }
    Rel::Maybe
}

impl Obj {
    pub fn read_src(p: &Prog, src: &Src, off: &Form, size: u64, sc: Sc, d: &Dom) -> Rd {
        match src {
            Src::Undef => Rd::Val(Val::Undef, false),
            Src::Zero => Rd::Val(Val::Int(Form::c(0)), sc.signed()),
            Src::Tag(t, shift) => {
                let Some(o) = off.lin(1, shift, -1) else { return Rd::Ambig };
                let o = d.norm(&o);
                if sc == Sc::Ptr {
                    return Rd::Val(Val::Top, false);
                }
                if sc == Sc::Float {
                    return Rd::Val(Val::Float(fresh("fmem", NINF, PINF)), false);
                }
                let (mut lo, mut hi) = sc.range();
                let ti = tag_info(*t);
                let sg = sc.signed();
                if let Some((l, h)) = ti.elem {
                    if size == 2 {
                        lo = lo.max(l);
                        hi = hi.min(h);
                    }
                }
                if let Some((l, h)) = ti.byte {
                    if size == 1 {
                        lo = lo.max(l);
                        hi = hi.min(h);
                    }
                }
                let a = mk_atom(Kind::Read(*t, o, size as u32, sg), lo, hi);
                Rd::Val(Val::Int(Form::atom(a)), sg)
            }
            Src::Const(ai) => {
                let b = match &p.allocs[*ai] {
                    Alloc::Mem(b) => b,
                    Alloc::Static(_, _, Some(b)) => b,
                    _ => return Rd::Val(Val::Top, false),
                };
                let Some(o) = d.konst(off) else {
                    let (lo, hi) = d.bounds(off);
                    let g = off.gcd_terms().max(1);
                    if lo != NINF && hi != PINF && (hi - lo) / g <= 256 {
                        let mut v = vec![];
                        let mut x = lo;
                        while x <= hi {
                            if (x - off.k).rem_euclid(g) == 0 {
                                v.push(x);
                            }
                            x += 1;
                        }
                        return Rd::Split(off.clone(), v);
                    }
                    return Rd::Ambig;
                };
                if o < 0 || o as usize + size as usize > b.b.len() {
                    return Rd::Val(Val::Top, false);
                }
                let o = o as usize;
                if let Some((_, t)) = b.p.iter().find(|(x, _)| *x as usize == o) {
                    let raw = le(&b.b[o..o + size as usize]);
                    if size == 8 {
                        if let Alloc::Fn(f) = &p.allocs[*t] {
                            return Rd::Val(Val::Fn(*f), false);
                        }
                        return Rd::Val(Val::Ptr(GLOBAL | *t as u32, Form::c(raw.unwrap_or(0) as i128)), false);
                    }
                    return Rd::Val(Val::Top, false);
                }
                match le(&b.b[o..o + size as usize]) {
                    None => Rd::Val(Val::Undef, false),
                    Some(v) => match const_int(v, size, sc) {
                        Some(f) => Rd::Val(f, sc.signed()),
                        None => Rd::Val(Val::Top, false),
                    },
                }
            }
        }
    }

    /// Reads a scalar at off.
    pub fn read(&self, p: &Prog, d: &Dom, off: &Form, size: u64, sc: Sc) -> Rd {
        let sf = Form::c(size as i128);
        let mut top = self.log.len();
        match self.log.look(off, size) {
            Some((Some(i), _)) => {
                if let Ent::Cell(c) = &self.log[i as usize] {
                    return Rd::Val(c.val.clone(), c.sg);
                }
            }
            Some((None, n)) => top = n,
            None => {}
        }
        for e in self.log[..top].iter().rev() {
            match e {
                Ent::Cell(c) => match relate(d, off, &sf, &c.off, &Form::c(c.size as i128)) {
                    Rel::Same => return Rd::Val(c.val.clone(), c.sg),
                    Rel::Disjoint => {}
                    // remembered reads only repeat what lies below them
                    _ if c.mat => {}
                    Rel::Inside => {
                        // part of an integer cell
                        if let (Val::Int(f), Some(x)) = (&c.val, d.norm(&off.sub(&c.off)).konst()) {
                            if c.size <= 8 {
                                let mut dd = d.clone();
                                let q = dd.floordiv(f, 1i128 << (8 * x));
                                let h = dd.floordiv(&q, 1i128 << (8 * size));
                                if let Some(r) = q.lin(1, &h, -(1i128 << (8 * size))) {
                                    return Rd::Val(Val::Int(r), false);
                                }
                            }
                        }
                        if c.val == Val::Undef {
                            return Rd::Val(Val::Undef, false);
                        }
                        return Rd::Ambig;
                    }
                    Rel::Overlap => {
                        // wider read assembled from adjacent cells
                        if let Some(v) = self.assemble(p, d, off, size) {
                            return Rd::Val(v, false);
                        }
                        return Rd::Ambig;
                    }
                    Rel::Maybe => return Rd::Ambig,
                },
                Ent::Region { start, len, src } => match relate(d, off, &sf, start, len) {
                    Rel::Same | Rel::Inside => return Self::read_src(p, src, off, size, sc, d),
                    Rel::Disjoint => {}
                    _ => return Rd::Ambig,
                },
            }
        }
        Self::read_src(p, &self.base, off, size, sc, d)
    }

    fn assemble(&self, p: &Prog, d: &Dom, off: &Form, size: u64) -> Option<Val> {
        // little endian composition of byte or 2-byte cells
        for w in [4u64, 2, 1] {
            if w >= size || size % w != 0 {
                continue;
            }
            let mut f = Form::c(0);
            let mut ok = true;
            let mut i = 0;
            while i < size {
                match self.read(p, d, &off.addc(i as i128), w, Sc::Int(false, 8 * w as u32)) {
                    Rd::Val(Val::Int(g), _) => {
                        let (lo, _) = d.bounds(&g);
                        if lo < 0 {
                            ok = false;
                            break;
                        }
                        match f.lin(1, &g, 1i128 << (8 * i)) {
                            Some(x) => f = x,
                            None => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    _ => {
                        ok = false;
                        break;
                    }
                }
                i += w;
            }
            if ok {
                return Some(Val::Int(f));
            }
        }
        None
    }

    /// Removes what is certainly overwritten by a write to [off, off+size).
    fn clear(&mut self, d: &Dom, off: &Form, size: &Form) {
        let const_only = off.konst().is_some() && size.konst().is_some();
        if const_only {
            // nothing overlaps: nothing to do
            let (o, s) = (off.k, size.k);
            let apart = |e: &Ent| match e {
                Ent::Cell(c) => matches!(c.off.konst(), Some(co) if co >= o + s || co + c.size as i128 <= o),
                Ent::Region { start, len, .. } => {
                    matches!((start.konst(), len.konst()), (Some(a), Some(n)) if a >= o + s || a + n <= o)
                }
            };
            if self.log.iter().all(apart) {
                return;
            }
        }
        let log = std::mem::take(&mut self.log).into_vec();
        for e in log {
            match &e {
                Ent::Cell(c) => {
                    if const_only {
                        if let Some(co) = c.off.konst() {
                            let (o, s) = (off.k, size.k);
                            if co >= o + s || co + c.size as i128 <= o {
                                self.log.push(e);
                            } else if co >= o && co + c.size as i128 <= o + s {
                            } else {
                                let mut c = c.clone();
                                let t = match (&c.val, c.off.konst()) {
                                    (Val::Int(f), Some(_)) if c.size <= 8 => Some(f.clone()),
                                    _ => None,
                                };
                                if let Some(f) = t {
                                    // split an integer cell into bytes not overwritten
                                    let mut dd = d.clone();
                                    for i in 0..c.size {
                                        let b = co + i as i128;
                                        if b >= o && b < o + s {
                                            continue;
                                        }
                                        let q = dd.floordiv(&f, 1i128 << (8 * i));
                                        let h = dd.floordiv(&q, 256);
                                        let v = q.lin(1, &h, -256).map(Val::Int).unwrap_or(Val::Top);
                                        self.log.push(Ent::Cell(Cell { off: Form::c(b), size: 1, val: v, sg: false, mat: false }));
                                    }
                                } else {
                                    c.val = Val::Top;
                                    self.log.push(Ent::Cell(c));
                                }
                            }
                            continue;
                        }
                    }
                    let cs = Form::c(c.size as i128);
                    match relate(d, &c.off, &cs, off, size) {
                        Rel::Same | Rel::Inside => {}
                        _ => self.log.push(e),
                    }
                }
                Ent::Region { start, len, .. } => match relate(d, start, len, off, size) {
                    Rel::Same | Rel::Inside => {}
                    _ => self.log.push(e),
                },
            }
        }
    }

    pub fn write(&mut self, d: &Dom, off: &Form, size: u64, val: Val, sg: bool) {
        if size == 0 {
            return;
        }
        let off = d.norm(off);
        if let Err(c) = self.log.put(Cell { off, size, val, sg, mat: false }) {
            self.clear(d, &c.off, &Form::c(size as i128));
            self.log.push(Ent::Cell(c));
        }
    }
    pub fn materialise(&mut self, off: &Form, size: u64, val: Val, sg: bool) {
        let c = Cell { off: off.clone(), size, val, sg, mat: true };
        if matches!(self.log.look(off, size), Some((Some(_), _))) {
            return;
        }
        if let Err(c) = self.log.put(c) {
            self.log.push(Ent::Cell(c));
        }
    }

    /// Contents of [off, off+size) with offsets relative to off, oldest first.
    pub fn blob(&self, d: &Dom, off: &Form, size: &Form) -> Option<Vec<Ent>> {
        let mut v = vec![];
        match &self.base {
            Src::Undef => {}
            Src::Zero => v.push(Ent::Region { start: Form::c(0), len: size.clone(), src: Src::Zero }),
            Src::Tag(t, sh) => {
                v.push(Ent::Region { start: Form::c(0), len: size.clone(), src: Src::Tag(*t, sh.lin(1, off, -1)?) })
            }
            Src::Const(_) => return None,
        }
        for e in self.log.iter() {
            match e {
                Ent::Cell(c) => match relate(d, &c.off, &Form::c(c.size as i128), off, size) {
                    Rel::Disjoint => {}
                    Rel::Same | Rel::Inside => {
                        let mut c = c.clone();
                        c.off = d.norm(&c.off.sub(off));
                        v.push(Ent::Cell(c));
                    }
                    Rel::Maybe if c.mat => {}
                    _ => return None,
                },
                Ent::Region { start, len, src } => match relate(d, start, len, off, size) {
                    Rel::Disjoint => {}
                    r => {
                        let src2 = match src {
                            Src::Tag(t, sh) => Src::Tag(*t, sh.lin(1, off, -1)?),
                            s => s.clone(),
                        };
                        if r == Rel::Same || r == Rel::Inside {
                            v.push(Ent::Region { start: d.norm(&start.sub(off)), len: len.clone(), src: src2 });
                        } else if relate(d, off, size, start, len) == Rel::Inside {
                            v.push(Ent::Region { start: Form::c(0), len: size.clone(), src: src2 });
                        } else {
                            return None;
                        }
                    }
                },
            }
        }
        Some(v)
    }

    pub fn write_blob(&mut self, d: &Dom, off: &Form, size: &Form, blob: &[Ent]) {
        if size.is_c(0) {
            return;
        }
        let off = d.norm(off);
        self.clear(d, &off, size);
        let covers = blob.iter().any(|e| matches!(e, Ent::Region{start, len, ..} if start.is_c(0) && len == size));
        let need = self.base != Src::Undef
            || self.log.iter().any(|e| match e {
                Ent::Region { .. } => true,
                Ent::Cell(c) => c.off.konst().is_none() || off.konst().is_none(),
            });
        if need && !covers {
            self.log.push(Ent::Region { start: off.clone(), len: size.clone(), src: Src::Undef });
        }
        for e in blob {
            self.log.push(match e {
                Ent::Cell(c) => {
                    let mut c = c.clone();
                    c.off = c.off.add(&off);
                    Ent::Cell(c)
                }
                Ent::Region { start, len, src } => Ent::Region {
                    start: start.add(&off),
                    len: len.clone(),
                    src: match src {
                        Src::Tag(t, sh) => Src::Tag(*t, sh.add(&off)),
                        s => s.clone(),
                    },
                },
            });
        }
    }
}

fn le(b: &[i16]) -> Option<u128> {
    let mut v = 0u128;
    for (i, x) in b.iter().enumerate() {
        if *x < 0 {
            return None;
        }
        if i < 16 {
            v |= (*x as u128) << (8 * i);
        }
    }
    Some(v)
}

pub fn const_int(v: u128, size: u64, sc: Sc) -> Option<Val> {
    if sc == Sc::Float {
        let a = mk_atom(
            Kind::Op("fconst", vec![Form::c((v >> 64) as i128), Form::c((v & u64::MAX as u128) as i128), Form::c(size as i128)]),
            NINF,
            PINF,
        );
        return Some(Val::Float(Form::atom(a)));
    }
    let bits = 8 * size as u32;
    if sc.signed() && bits <= 128 {
        let sh = 128 - bits;
        let s = ((v << sh) as i128) >> sh;
        return Some(Val::Int(Form::c(s)));
    }
    if v > i128::MAX as u128 {
        // larger than the domain's integers: opaque constant
        let a = mk_atom(
            Kind::Op("big", vec![Form::c((v >> 64) as i128), Form::c((v & u64::MAX as u128) as i128)]),
            PINF - 1,
            PINF,
        );
        return Some(Val::Int(Form::atom(a)));
    }
    Some(Val::Int(Form::c(v as i128)))
}
