//! Abstract interpreter over the dumped MIR.
use crate::mem::*;
use crate::num::*;
use crate::prog::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Con {
    Ge0(Form),
    Eq0(Form),
    Ne0(Form),
}
pub struct Fork(pub Vec<Vec<Con>>);
pub type R<T> = Result<T, Fork>;

#[derive(Clone, Debug, PartialEq)]
pub enum PObj {
    Obj(ObjId),
    Addr(Form),
    Fn(FnId),
    Top,
}
#[derive(Clone, Debug)]
pub struct Pl {
    pub obj: PObj,
    pub off: Form,
    pub ty: TyId,
    pub meta: Option<Val>,
    pub variant: Option<usize>,
}
#[derive(Clone, Debug)]
pub struct Arg {
    pub ty: TyId,
    pub size: u64,
    pub ents: Vec<Ent>,
}
impl Arg {
    pub fn at(&self, off: u64, size: u64) -> Val {
        for e in self.ents.iter().rev() {
            if let Ent::Cell(c) = e {
                if c.off.is_c(off as i128) && c.size == size {
                    return c.val.clone();
                }
            }
        }
        Val::Undef
    }
    pub fn int(&self) -> Form {
        match self.at(0, self.size) {
            Val::Int(f) => f,
            _ => fresh("arg", NINF, PINF),
        }
    }
    pub fn scalar(size: u64, ty: TyId, v: Val, sg: bool) -> Arg {
        Arg { ty, size, ents: vec![cell(0, size, v, sg)] }
    }
}
pub fn cell(off: u64, size: u64, val: Val, sg: bool) -> Ent {
    Ent::Cell(Cell { off: Form::c(off as i128), size, val, sg, mat: false })
}

#[derive(Clone, Debug)]
pub enum Flow {
    Ret,
    Unwind(String),
    Abort(String),
    Jump(usize),
    Back,
}
#[derive(Clone, Debug)]
pub enum Out {
    Ret(Vec<Ent>),
    Unwind(String),
    Abort(String),
}

#[derive(Clone, Copy, PartialEq, Debug, Eq, Hash)]
pub enum Stat {
    Proved,
    Failed,
    Unknown,
}
#[derive(Clone, Debug)]
pub struct Ob {
    pub kind: &'static str,
    pub func: String,
    pub line: u32,
    pub stat: Stat,
    pub detail: String,
}

#[derive(Clone)]
pub struct Opts {
    /// undecided iterations a loop may be unrolled before it is generalised
    pub unroll: u32,
    /// total decided iterations
    pub max_iter: u32,
    pub max_states: usize,
    pub max_steps: u64,
    pub max_ms: u64,
    /// treat these functions as uninterpreted (by function id)
    pub opaque: HashSet<FnId>,
    pub depth: u32,
    /// generalise never: give up instead (bounded contexts)
    pub no_general: bool,
    /// join partitions when a block is reached by more than this many states
    /// unresolved memory offsets with fewer values than this are enumerated
    pub split: i128,
    pub join_at: usize,
    /// partitions with the same memory are merged even when that loses relations
    pub merge: bool,
    pub trace: bool,
}
impl Opts {
    /// Small shapes: partitions are kept apart, loops unrolled.
    pub fn exact() -> Self {
        Opts { unroll: 40, split: 40, join_at: 160, merge: false, ..Opts::default() }
    }
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            unroll: 0,
            max_iter: 3000,
            max_states: 400,
            max_steps: 3_000_000,
            max_ms: 20_000,
            opaque: HashSet::new(),
            depth: 2,
            no_general: false,
            split: 6,
            join_at: 16,
            merge: true,
            trace: false,
        }
    }
}

pub struct Frame {
    pub f: FnId,
    pub base: u32,
}

pub type Hook = Rc<dyn for<'a, 'b> Fn(&'a mut Ex<'b>, &mut State, FnId, &[Arg], TyId) -> R<Option<Vec<(State, Out)>>>>;

pub struct Ex<'p> {
    pub p: &'p Prog,
    pub hook: Option<Hook>,
    pub o: Opts,
    pub obs: Vec<Ob>,
    pub stack: Vec<(FnId, u32)>,
    pub steps: u64,
    pub incomplete: Vec<String>,
    pub globals: HashMap<u32, Rc<Obj>>,
    pub called: HashSet<FnId>,
    pub blocks: HashSet<(FnId, usize)>,
    pub dead: bool,
    pub gen_depth: u32,
    pub loops_seen: HashMap<(FnId, usize), u32>,
    pub last_witness: String,
    pub start: std::time::Instant,
}

/// Value, size of a constant float.
pub fn fval(f: &Form) -> Option<f64> {
    let (a, 1) = f.single()? else { return None };
    if f.k != 0 {
        return None;
    }
    if let Kind::Op("fconst", v) = atom_info(a).kind {
        return match v[2].k {
            4 => Some(f32::from_bits(v[1].k as u32) as f64),
            8 => Some(f64::from_bits(v[1].k as u64)),
            _ => None,
        };
    }
    None
}
pub fn fsize(f: &Form) -> Option<u64> {
    fval(f)?;
    let (a, _) = f.single()?;
    match atom_info(a).kind {
        Kind::Op(_, v) => Some(v[2].k as u64),
        _ => None,
    }
}
/// Any number (not NaN) between lo and hi.
pub fn frange(lo: f64, hi: f64, size: u64) -> Form {
    if lo == hi {
        return fmake(lo, size);
    }
    input(&format!("fr:{:x}:{:x}:{}", lo.to_bits(), hi.to_bits(), size), NINF, PINF)
}
/// Least and greatest value of a float that is not NaN.
pub fn fbounds(f: &Form) -> Option<(f64, f64)> {
    if let Some(v) = fval(f) {
        return if v.is_nan() { None } else { Some((v, v)) };
    }
    let (a, 1) = f.single()? else { return None };
    if f.k != 0 {
        return None;
    }
    match &atom_info(a).kind {
        Kind::Input(n) => {
            let mut it = n.strip_prefix("fr:")?.split(':');
            let lo = u64::from_str_radix(it.next()?, 16).ok()?;
            let hi = u64::from_str_radix(it.next()?, 16).ok()?;
            Some((f64::from_bits(lo), f64::from_bits(hi)))
        }
        Kind::Op("f2f", v) => {
            let (l, h) = fbounds(&v[0])?;
            // rounding is monotone
            Some(if v[1].is_c(4) { (l as f32 as f64, h as f32 as f64) } else { (l, h) })
        }
        Kind::Op("f.neg", v) => fbounds(&v[0]).map(|(l, h)| (-h, -l)),
        Kind::Op("f.abs", v) => fbounds(&v[0]).map(|(l, h)| {
            if l >= 0.0 {
                (l, h)
            } else if h <= 0.0 {
                (-h, -l)
            } else {
                (0.0, h.max(-l))
            }
        }),
        _ => None,
    }
}
pub fn fmake(v: f64, size: u64) -> Form {
    let bits = if size == 4 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 };
    match const_int(bits, size, Sc::Float) {
        Some(Val::Float(f)) => f,
        _ => fresh("f", NINF, PINF),
    }
}
/// x when f is log10(x as float)
fn flog10(f: &Form) -> Option<Form> {
    let (a, 1) = f.single()? else { return None };
    if let Kind::Op("f.log", v) = atom_info(a).kind {
        if v[1].is_c(1) {
            let (b, 1) = v[0].single()? else { return None };
            if let Kind::Op("f.int", w) = atom_info(b).kind {
                return Some(w[0].clone());
            }
        }
    }
    None
}

impl<'p> Ex<'p> {
    pub fn new(p: &'p Prog, o: Opts) -> Self {
        Ex {
            p,
            hook: None,
            o,
            obs: vec![],
            stack: vec![],
            steps: 0,
            incomplete: vec![],
            globals: HashMap::new(),
            called: HashSet::new(),
            blocks: HashSet::new(),
            dead: false,
            gen_depth: 0,
            loops_seen: HashMap::new(),
            last_witness: String::new(),
            start: std::time::Instant::now(),
        }
    }
    pub fn give_up(&mut self, why: String) {
        let w = format!("{} in {}", why, self.here().0);
        if !self.incomplete.contains(&w) {
            self.incomplete.push(w);
        }
    }
    /// innermost function of the crate under analysis, with line
    pub fn here(&self) -> (String, u32) {
        for (f, l) in self.stack.iter().rev() {
            if self.p.fns[*f].krate == "pgnumeric" {
                return (self.p.fns[*f].d.clone(), *l);
            }
        }
        match self.stack.last() {
            Some((f, l)) => (self.p.fns[*f].d.clone(), *l),
            None => ("the returned value".into(), 0),
        }
    }
    pub fn ob(&mut self, kind: &'static str, stat: Stat, detail: impl FnOnce() -> String) {
        let (func, line) = self.here();
        let mut detail = if stat == Stat::Proved { String::new() } else { detail() };
        if stat == Stat::Failed {
            detail = format!("{} [{}]", detail, self.last_witness);
        }
        self.obs.push(Ob { kind, func, line, stat, detail });
    }
    /// Status of an obligation whose violation is described by `bad`.
    pub fn judge(&mut self, bad: &State) -> Stat {
        if bad.dom.bot {
            return Stat::Unknown;
        }
        match crate::wit::witness(bad) {
            Some(w) => {
                self.last_witness = w;
                Stat::Failed
            }
            None => Stat::Unknown,
        }
    }
    pub fn in_crate(&self) -> bool {
        self.stack.last().map(|(f, _)| self.p.fns[*f].krate == "pgnumeric").unwrap_or(false)
    }

    // ------------------------------------------------------------ objects
    pub fn obj(&mut self, st: &State, id: ObjId) -> Rc<Obj> {
        if id & STACK != 0 {
            let i = (id & !STACK) as usize;
            return match st.stack.get(i) {
                Some(Some(o)) => o.clone(),
                _ => Rc::new(blank(OKind::Local, Form::c(1 << 20), 16)),
            };
        }
        if id & GLOBAL != 0 {
            if let Some(o) = st.globals.get(&id) {
                return o.clone();
            }
            if let Some(o) = self.globals.get(&id) {
                return o.clone();
            }
            let ai = (id & !GLOBAL) as usize;
            let o = match &self.p.allocs[ai] {
                Alloc::Mem(b) => Obj {
                    kind: OKind::Const(ai),
                    size: Form::c(b.b.len() as i128),
                    align: b.al,
                    log: Log::default(),
                    base: Src::Const(ai),
                    alive: true,
                    ro: !b.mutable,
                },
                Alloc::Static(t, _, b) => Obj {
                    kind: OKind::Static(ai),
                    size: Form::c(self.p.size(*t) as i128),
                    align: b.as_ref().map(|b| b.al).unwrap_or(1),
                    log: Log::default(),
                    base: if b.is_some() { Src::Const(ai) } else { Src::Undef },
                    alive: true,
                    ro: b.as_ref().map(|b| !b.mutable).unwrap_or(false),
                },
                _ => blank(OKind::Opaque(Rc::from("global")), Form::c(0), 16),
            };
            let o = Rc::new(o);
            self.globals.insert(id, o.clone());
            return o;
        }
        st.heap[id as usize].clone()
    }
    pub fn obj_mut<'a>(&mut self, st: &'a mut State, id: ObjId) -> &'a mut Obj {
        if id & STACK != 0 {
            let i = (id & !STACK) as usize;
            if i >= st.stack.len() {
                st.stack.resize(i + 1, None);
            }
            if st.stack[i].is_none() {
                st.stack[i] = Some(Rc::new(blank(OKind::Local, Form::c(1 << 20), 16)));
            }
            return Rc::make_mut(st.stack[i].as_mut().unwrap());
        }
        if id & GLOBAL != 0 {
            let o = self.obj(st, id);
            return Rc::make_mut(st.globals.entry(id).or_insert(o));
        }
        Rc::make_mut(&mut st.heap[id as usize])
    }
    pub fn addr_of(&mut self, st: &State, id: ObjId) -> Form {
        let o = self.obj(st, id);
        let al = o.align.max(1) as i128;
        let a = mk_atom(
            Kind::Op("addr", vec![Form::c(id as i128)]),
            if al >= 2 { 2048 / al } else { 4096 },
            (1i128 << 47) / al,
        );
        Form::atom(a).mulc(al).unwrap()
    }

    // ------------------------------------------------------------ types
    pub fn sc(&self, ty: TyId) -> Option<Sc> {
        let t = &self.p.tys[ty];
        Some(match &t.k {
            TK::Bool => Sc::Bool,
            TK::Char => Sc::Char,
            TK::Int { s, bits } => Sc::Int(*s, *bits),
            TK::Float => Sc::Float,
            TK::Ptr { e, .. } => {
                if self.p.is_sized(*e) {
                    Sc::Ptr
                } else {
                    return None;
                }
            }
            TK::FnPtr => Sc::Ptr,
            TK::Pat(e) => return self.sc(*e),
            TK::Struct | TK::Enum | TK::Union | TK::Tuple | TK::Closure | TK::Array(..) => match &t.l {
                Some(l) => match &l.repr {
                    Repr::Scalar(s) => match s.prim {
                        Prim::Int(sg, b) => Sc::Int(sg, 8 * b),
                        Prim::Float(_) => Sc::Float,
                        Prim::Ptr => Sc::Ptr,
                    },
                    _ => return None,
                },
                None => return None,
            },
            _ => return None,
        })
    }
    pub fn place_ty(&self, fr: &Frame, pl: &Place) -> TyId {
        let b = self.p.fns[fr.f].body.as_ref().unwrap();
        let mut t = b.ls[pl.l];
        for e in &pl.p {
            t = match e {
                Proj::Deref => self.pointee(t).unwrap_or(t),
                Proj::Field(_, ft) => *ft,
                Proj::Index(_) | Proj::CIndex(..) => match self.p.tys[t].k {
                    TK::Array(e, _) | TK::Slice(e) => e,
                    _ => t,
                },
                Proj::Sub(..) | Proj::Variant(_) => t,
                Proj::Cast(t) => *t,
            };
        }
        t
    }
    pub fn pointee(&self, t: TyId) -> Option<TyId> {
        match &self.p.tys[t].k {
            TK::Ptr { e, .. } => Some(*e),
            TK::Struct if self.p.tys[t].adt.contains("Box") => self.p.tys[t].ta.first().copied(),
            TK::Pat(e) => self.pointee(*e),
            _ => None,
        }
    }
    pub fn op_ty(&self, fr: &Frame, o: &Op) -> TyId {
        match o {
            Op::Copy(p) | Op::Move(p) => self.place_ty(fr, p),
            Op::Const(t, _) => *t,
            Op::Rc(_) => self.p.tys.iter().position(|t| t.k == TK::Bool).unwrap_or(0),
        }
    }

    // ------------------------------------------------------------ places
    pub fn place(&mut self, st: &mut State, fr: &Frame, pl: &Place) -> R<Pl> {
        let lt = self.p.fns[fr.f].body.as_ref().unwrap().ls[pl.l];
        let mut cur = Pl {
            obj: PObj::Obj(STACK | (fr.base + pl.l as u32)),
            off: Form::c(0),
            ty: lt,
            meta: None,
            variant: None,
        };
        for e in &pl.p {
            match e {
                Proj::Deref => {
                    let Some(e) = self.pointee(cur.ty) else {
                        self.give_up(format!("deref of {}", self.p.tys[cur.ty].n));
                        cur.obj = PObj::Top;
                        continue;
                    };
                    cur = self.deref(st, &cur, e)?;
                }
                Proj::Field(i, ft) => {
                    let t = &self.p.tys[cur.ty];
                    let l = t.l.as_ref();
                    let off = match (l, cur.variant) {
                        (Some(l), Some(v)) => match &l.variants {
                            Variants::Direct { variants, .. } | Variants::Niche { variants, .. } => {
                                variants.get(v).and_then(|x| x.get(*i)).copied()
                            }
                            _ => l.offs.get(*i).copied(),
                        },
                        (Some(l), None) => l.offs.get(*i).copied(),
                        _ => None,
                    };
                    let off = off.unwrap_or(0);
                    cur.off = cur.off.addc(off as i128);
                    if self.p.is_sized(*ft) {
                        cur.meta = None;
                    }
                    cur.ty = *ft;
                    cur.variant = None;
                }
                Proj::Index(l) => {
                    let idx = match self.read_scalar(
                        st,
                        &Pl {
                            obj: PObj::Obj(STACK | (fr.base + *l as u32)),
                            off: Form::c(0),
                            ty: self.p.fns[fr.f].body.as_ref().unwrap().ls[*l],
                            meta: None,
                            variant: None,
                        },
                    )? {
                        Val::Int(f) => f,
                        _ => fresh("idx", 0, u64::MAX as i128),
                    };
                    let et = match self.p.tys[cur.ty].k {
                        TK::Array(e, _) | TK::Slice(e) => e,
                        _ => cur.ty,
                    };
                    let sz = self.p.size(et) as i128;
                    cur.off = match idx.mulc(sz).and_then(|x| x.try_add(&cur.off)) {
                        Some(f) => st.dom.norm(&f),
                        None => fresh("off", NINF, PINF),
                    };
                    cur.ty = et;
                    cur.meta = None;
                }
                Proj::CIndex(o, fe) => {
                    let (et, n) = match self.p.tys[cur.ty].k {
                        TK::Array(e, n) => (e, Form::c(n as i128)),
                        TK::Slice(e) => (
                            e,
                            match &cur.meta {
                                Some(Val::Int(f)) => f.clone(),
                                _ => fresh("len", 0, i64::MAX as i128),
                            },
                        ),
                        _ => (cur.ty, Form::c(0)),
                    };
                    let sz = self.p.size(et) as i128;
                    let i = if *fe { n.addc(-(*o as i128)) } else { Form::c(*o as i128) };
                    cur.off = cur.off.add(&i.mulc(sz).unwrap());
                    cur.ty = et;
                    cur.meta = None;
                }
                Proj::Sub(from, to, fe) => {
                    if let TK::Slice(e) = self.p.tys[cur.ty].k {
                        let n = match &cur.meta {
                            Some(Val::Int(f)) => f.clone(),
                            _ => fresh("len", 0, i64::MAX as i128),
                        };
                        cur.off = cur.off.addc((*from * self.p.size(e)) as i128);
                        cur.meta = Some(Val::Int(if *fe {
                            n.addc(-((*from + *to) as i128))
                        } else {
                            Form::c((*to - *from) as i128)
                        }));
                    } else if let TK::Array(e, _) = self.p.tys[cur.ty].k {
                        cur.off = cur.off.addc((*from * self.p.size(e)) as i128);
                    }
                }
                Proj::Variant(v) => cur.variant = Some(*v),
                Proj::Cast(t) => cur.ty = *t,
            }
        }
        Ok(cur)
    }

    pub fn deref(&mut self, st: &mut State, cur: &Pl, e: TyId) -> R<Pl> {
        let pp = Pl { obj: cur.obj.clone(), off: cur.off.clone(), ty: cur.ty, meta: None, variant: None };
        let v = self.read_at(st, &pp, 8, Sc::Ptr)?;
        let meta = if self.p.is_sized(e) {
            None
        } else {
            let mut q = pp.clone();
            q.off = q.off.addc(8);
            Some(self.read_at(st, &q, 8, Sc::Int(false, 64))?)
        };
        let (obj, off) = match v {
            Val::Ptr(o, f) => (PObj::Obj(o), f),
            Val::Int(f) => (PObj::Addr(f), Form::c(0)),
            Val::Fn(f) => (PObj::Fn(f), Form::c(0)),
            _ => (PObj::Top, Form::c(0)),
        };
        let pl = Pl { obj, off, ty: e, meta, variant: None };
        self.check_align(st, &pl);
        Ok(pl)
    }

    fn check_align(&mut self, st: &mut State, pl: &Pl) {
        let al = match self.p.tys[pl.ty].k {
            TK::Slice(e) => self.p.tys[e].l.as_ref().map(|l| l.al).unwrap_or(1),
            _ => self.p.tys[pl.ty].l.as_ref().map(|l| l.al).unwrap_or(1),
        };
        if al <= 1 {
            return;
        }
        if let PObj::Obj(o) = pl.obj {
            if o & STACK != 0 {
                return;
            }
            let ob = self.obj(st, o);
            if matches!(ob.kind, OKind::Const(_) | OKind::Static(_)) && !pl.off.terms().is_empty() {
                return;
            }
            let off = st.dom.norm(&pl.off);
            let a = al as i128;
            let off_ok = off.k.rem_euclid(a) == 0 && off.terms().iter().all(|(_, c)| c % a == 0);
            let tn = self.p.tys[pl.ty].n.clone();
            if ob.align >= al && off_ok {
                self.ob("align", Stat::Proved, String::new);
            } else if ob.align < al {
                // the address itself may have been checked
                let adr = self.addr_of(st, o).add(&off);
                let mut bad = st.clone();
                let q = bad.dom.floordiv(&adr, a);
                if let Some(r) = adr.lin(1, &q, -a) {
                    bad.dom.add_ne0(&r);
                }
                let s = if bad.dom.bot {
                    Stat::Proved
                } else {
                    let mut s = self.judge(&bad);
                    for k in 1..4 {
                        if s == Stat::Unknown {
                            crate::wit::set_base((1 << 20) + k);
                            s = self.judge(&bad);
                        }
                    }
                    crate::wit::set_base(1 << 20);
                    s
                };
                self.ob("align", s, || {
                    format!("{} requires alignment {} but the buffer is only {}-aligned", tn, al, ob.align)
                });
            } else {
                let mut bad = st.clone();
                let q = bad.dom.floordiv(&off, a);
                if let Some(r) = off.lin(1, &q, -a) {
                    bad.dom.add_ne0(&r);
                }
                let stat = self.judge(&bad);
                self.ob("align", stat, || format!("{} requires alignment {} at offset {}", tn, al, off));
            }
        }
    }

    /// Checks an access of `size` bytes; false when it cannot be performed.
    pub fn access(&mut self, st: &mut State, pl: &Pl, size: &Form, write: bool) -> bool {
        match &pl.obj {
            PObj::Obj(o) => {
                if *o & STACK != 0 {
                    return true;
                }
                let ob = self.obj(st, *o);
                if !ob.alive {
                    let s = self.judge(&st.clone());
                    self.ob("uaf", s, || format!("access to released buffer #{}", o));
                    return false;
                }
                if write && ob.ro {
                    let k = format!("{:?}", ob.kind);
                    let s = self.judge(&st.clone());
                    self.ob("ro-write", s, || format!("write to shared memory {}", k));
                } else if write {
                    self.ob("ro-write", Stat::Proved, String::new);
                }
                if let (Some(o), Some(s), Some(n)) = (pl.off.konst(), ob.size.konst(), size.konst()) {
                    if o >= 0 && o + n <= s {
                        self.ob("bounds", Stat::Proved, String::new);
                        return true;
                    }
                }
                let d = self.o.depth.max(2);
                let off = st.dom.norm(&pl.off);
                let lo = st.dom.ge0d(&off, d);
                let end = ob.size.sub(&off).sub(size);
                let hi = st.dom.ge0d(&end, d) || st.dom.ge0d(&end, 3);
                if lo && hi {
                    self.ob("bounds", Stat::Proved, String::new);
                } else {
                    let mut stat = Stat::Unknown;
                    for v in [&off, &end] {
                        let mut bad = st.clone();
                        bad.dom.add_ge0(&v.neg().addc(-1));
                        if self.judge(&bad) == Stat::Failed {
                            stat = Stat::Failed;
                        }
                    }
                    let (ol, oh) = st.dom.bounds(&off);
                    let (el, eh) = st.dom.bounds(&end);
                    let k = format!("{:?}", ob.kind);
                    self.ob("bounds", stat, || {
                        format!(
                            "offset {} in [{},{}], slack {} in [{},{}] of {} (lo {} hi {})",
                            off, ol, oh, end, el, eh, k, lo, hi
                        )
                    });
                    // continue under the assumption that the access is in range
                    st.dom.add_ge0(&off);
                    st.dom.add_ge0(&end);
                }
                true
            }
            PObj::Addr(f) => {
                if st.dom.konst(f) == Some(0) {
                    let s = self.judge(&st.clone());
                    self.ob("null", s, || "access through a null pointer".into());
                } else {
                    self.ob("null", Stat::Unknown, || format!("access through address {}", f));
                }
                false
            }
            PObj::Fn(_) => false,
            PObj::Top => {
                st.lossy += 1;
                self.give_up("access through an untracked pointer".into());
                false
            }
        }
    }

    pub fn read_at(&mut self, st: &mut State, pl: &Pl, size: u64, sc: Sc) -> R<Val> {
        if size == 0 {
            return Ok(Val::Undef);
        }
        if !self.access(st, pl, &Form::c(size as i128), false) {
            return Ok(self.unknown(sc));
        }
        let PObj::Obj(id) = pl.obj else { unreachable!() };
        let ob = self.obj(st, id);
        match ob.read(self.p, &st.dom, &pl.off, size, sc) {
            Rd::Val(v, sg) => {
                if matches!(ob.kind, OKind::Heap { .. }) {
                    let stat = if v != Val::Undef { Stat::Proved } else { self.judge(&st.clone()) };
                    self.ob("init", stat, || format!("reads {} bytes at offset {} never written", size, pl.off));
                }
                let v2 = self.conv(st, v, sg, size, sc)?;
                // remember materialised content
                if let Val::Int(f) = &v2 {
                    if let Some((a, 1)) = f.single() {
                        if f.k == 0 {
                            if let Kind::Read(..) = atom_info(a).kind {
                                let known = st.dom.konst(f).is_some()
                                    || ob.log.iter().any(|e| matches!(e, Ent::Cell(c) if c.mat && c.off == pl.off && c.size == size));
                                if !known {
                                    let (vv, off) = (v2.clone(), pl.off.clone());
                                    drop(ob);
                                    self.obj_mut(st, id).materialise(&off, size, vv, sc.signed());
                                }
                            }
                        }
                    }
                }
                Ok(v2)
            }
            Rd::Split(f, vs) => {
                let alts: Vec<Vec<Con>> = vs.iter().map(|v| vec![Con::Eq0(f.addc(-*v))]).collect();
                Err(Fork(alts))
            }
            Rd::Ambig => {
                // a small range of constant offsets is enumerated
                let off = st.dom.norm(&pl.off);
                if off.konst().is_none() {
                    let (lo, hi) = st.dom.bounds(&off);
                    let g = off.gcd_terms().max(1);
                    if lo != NINF && hi != PINF && (hi - lo) / g < self.o.split && pl.off.gcd_terms() > 0 {
                        let mut alts = vec![];
                        let mut x = lo;
                        while x <= hi {
                            if (x - off.k).rem_euclid(g) == 0 {
                                alts.push(vec![Con::Eq0(off.addc(-x))]);
                            }
                            x += 1;
                        }
                        return Err(Fork(alts));
                    }
                }
                if self.o.split >= 40 {
                    // where does an earlier write at a symbolic offset lie?
                    let rs = Form::c(size as i128);
                    for e in ob.log.iter().rev() {
                        let Ent::Cell(c) = e else { continue };
                        if relate(&st.dom, &off, &rs, &c.off, &Form::c(c.size as i128)) != Rel::Maybe || c.mat {
                            continue;
                        }
                        let df = st.dom.norm(&c.off.sub(&off));
                        let n = c.size as i128;
                        if c.size == size && df.k % n == 0 && df.terms().iter().all(|(_, x)| x % n == 0) {
                            return Err(Fork(vec![
                                vec![Con::Eq0(df.clone())],
                                vec![Con::Ge0(df.addc(-n))],
                                vec![Con::Ge0(df.neg().addc(-n))],
                            ]));
                        }
                        break;
                    }
                }
                st.lossy += 1;
                if self.o.trace {
                    eprintln!("AMBIG {:?} size {} off {} log {:#?}", self.here(), size, pl.off, ob);
                }
                let v = self.unknown(sc);
                Ok(v)
            }
        }
    }
    pub fn unknown(&mut self, sc: Sc) -> Val {
        match sc {
            Sc::Ptr => Val::Top,
            Sc::Float => Val::Float(fresh("f", NINF, PINF)),
            _ => {
                let (l, h) = sc.range();
                Val::Int(fresh("u", l, h))
            }
        }
    }
    /// Reinterprets a stored value for a read of scalar kind sc.
    fn conv(&mut self, st: &mut State, v: Val, sg: bool, size: u64, sc: Sc) -> R<Val> {
        Ok(match (v, sc) {
            (Val::Int(f), Sc::Int(s, b)) => {
                if s == sg || b > 64 {
                    Val::Int(f)
                } else {
                    Val::Int(self.wrap(st, &f, s, b))
                }
            }
            (Val::Int(f), Sc::Ptr) => Val::Int(if sg { self.wrap(st, &f, false, 64) } else { f }),
            (Val::Int(f), Sc::Char) | (Val::Int(f), Sc::Bool) => Val::Int(f),
            (Val::Int(f), Sc::Float) => {
                let a = mk_atom(Kind::Op("f.bits", vec![f, Form::c(size as i128)]), NINF, PINF);
                Val::Float(Form::atom(a))
            }
            (Val::Ptr(o, f), Sc::Int(..)) => {
                let a = self.addr_of(st, o);
                Val::Int(a.add(&f))
            }
            (Val::Float(f), Sc::Int(s, b)) => {
                let (l, h) = int_range(s, b);
                let a = mk_atom(Kind::Op("bits.f", vec![f]), l, h);
                Val::Int(Form::atom(a))
            }
            (Val::Top, Sc::Ptr) => Val::Top,
            (Val::Undef, _) => Val::Undef,
            (Val::Top, sc) => self.unknown(sc),
            (v, _) => v,
        })
    }
    pub fn read_scalar(&mut self, st: &mut State, pl: &Pl) -> R<Val> {
        let Some(sc) = self.sc(pl.ty) else {
            return Ok(Val::Top);
        };
        let sz = self.p.size(pl.ty);
        self.read_at(st, pl, sz, sc)
    }
    pub fn read_blob(&mut self, st: &mut State, pl: &Pl, size: u64) -> R<Vec<Ent>> {
        if size == 0 {
            return Ok(vec![]);
        }
        if let PObj::Obj(id) = pl.obj {
            if id & STACK != 0 && pl.off.is_c(0) {
                // whole local
            }
        }
        if !self.access(st, pl, &Form::c(size as i128), false) {
            return Ok(self.top_blob(pl.ty, size));
        }
        let PObj::Obj(id) = pl.obj else { unreachable!() };
        let ob = self.obj(st, id);
        if let Some(b) = ob.blob(&st.dom, &pl.off, &Form::c(size as i128)) {
            return Ok(b);
        }
        // field by field
        let mut out = vec![];
        let mut leaves = vec![];
        self.leaves(pl.ty, 0, &mut leaves);
        for (o, s, sc) in leaves {
            let mut q = pl.clone();
            q.off = q.off.addc(o as i128);
            let v = self.read_at(st, &q, s, sc)?;
            out.push(cell(o, s, v, sc.signed()));
        }
        Ok(out)
    }
    /// Scalar leaves of a type (raw words where the type is not resolved).
    pub fn leaves(&self, ty: TyId, off: u64, out: &mut Vec<(u64, u64, Sc)>) {
        let t = &self.p.tys[ty];
        let Some(l) = &t.l else { return };
        if l.sz == 0 {
            return;
        }
        if let Some(sc) = self.sc(ty) {
            out.push((off, l.sz, sc));
            return;
        }
        match &t.k {
            TK::Ptr { .. } => {
                out.push((off, 8, Sc::Ptr));
                out.push((off + 8, 8, Sc::Int(false, 64)));
            }
            TK::Array(e, n) => {
                let s = self.p.size(*e);
                if *n <= 64 {
                    for i in 0..*n {
                        self.leaves(*e, off + i * s, out);
                    }
                }
            }
            TK::Struct | TK::Tuple | TK::Closure => {
                if let Some(fs) = t.fs.first() {
                    for (i, f) in fs.iter().enumerate() {
                        self.leaves(*f, off + l.offs.get(i).copied().unwrap_or(0), out);
                    }
                }
            }
            _ => {
                if let Repr::Pair(a, b, bo) = &l.repr {
                    for (s, o) in [(a, 0), (b, *bo)] {
                        let (sz, sc) = match s.prim {
                            Prim::Int(sg, b) => (b as u64, Sc::Int(sg, 8 * b)),
                            Prim::Float(b) => (b as u64, Sc::Float),
                            Prim::Ptr => (8, Sc::Ptr),
                        };
                        out.push((off + o, sz, sc));
                    }
                } else {
                    let mut o = 0;
                    while o + 8 <= l.sz {
                        out.push((off + o, 8, Sc::Int(false, 64)));
                        o += 8;
                    }
                }
            }
        }
    }
    pub fn top_blob(&mut self, ty: TyId, _size: u64) -> Vec<Ent> {
        let mut v = vec![];
        let mut leaves = vec![];
        self.leaves(ty, 0, &mut leaves);
        for (o, s, sc) in leaves {
            let x = self.unknown(sc);
            v.push(cell(o, s, x, sc.signed()));
        }
        v
    }
    pub fn write_at(&mut self, st: &mut State, pl: &Pl, size: u64, v: Val, sg: bool) {
        if size == 0 || !self.access(st, pl, &Form::c(size as i128), true) {
            return;
        }
        let PObj::Obj(id) = pl.obj else { unreachable!() };
        let d = st.dom.clone();
        let off = pl.off.clone();
        self.obj_mut(st, id).write(&d, &off, size, v, sg);
    }
    pub fn write_ents(&mut self, st: &mut State, pl: &Pl, size: u64, b: &[Ent]) {
        if size == 0 || !self.access(st, pl, &Form::c(size as i128), true) {
            return;
        }
        let PObj::Obj(id) = pl.obj else { unreachable!() };
        let d = st.dom.clone();
        let off = pl.off.clone();
        self.obj_mut(st, id).write_blob(&d, &off, &Form::c(size as i128), b);
    }

    // ------------------------------------------------------------ operands
    pub fn operand(&mut self, st: &mut State, fr: &Frame, o: &Op) -> R<Arg> {
        match o {
            Op::Copy(pl) | Op::Move(pl) => {
                let q = self.place(st, fr, pl)?;
                let sz = self.p.size(q.ty);
                if let Some(sc) = self.sc(q.ty) {
                    let v = self.read_at(st, &q, sz, sc)?;
                    return Ok(Arg::scalar(sz, q.ty, v, sc.signed()));
                }
                let e = self.read_blob(st, &q, sz)?;
                Ok(Arg { ty: q.ty, size: sz, ents: e })
            }
            Op::Const(t, k) => {
                let sz = self.p.size(*t);
                match k {
                    Konst::Zst => Ok(Arg { ty: *t, size: sz, ents: vec![] }),
                    Konst::Unknown(u) => {
                        self.give_up(format!("constant {}", u));
                        let b = self.top_blob(*t, sz);
                        Ok(Arg { ty: *t, size: sz, ents: b })
                    }
                    Konst::Mem(b) => Ok(self.const_arg(*t, sz, b)),
                }
            }
            Op::Rc(k) => {
                let v = if k == "UbChecks" {
                    // library precondition checks are kept for unchecked indexing
                    let n = &self.p.fns[fr.f].n;
                    n.contains("get_unchecked") || n.contains("from_raw_parts")
                } else {
                    true
                };
                let t = self.op_ty(fr, o);
                Ok(Arg::scalar(1, t, Val::Int(Form::c(v as i128)), false))
            }
        }
    }
    fn const_arg(&mut self, t: TyId, sz: u64, b: &Bytes) -> Arg {
        let mut ents = vec![];
        let mut leaves = vec![];
        self.leaves(t, 0, &mut leaves);
        if leaves.is_empty() && sz > 0 {
            for i in 0..sz {
                leaves.push((i, 1, Sc::Int(false, 8)));
            }
        }
        for (o, s, sc) in leaves {
            let (o_, s_) = (o as usize, s as usize);
            if o_ + s_ > b.b.len() {
                continue;
            }
            if let Some((_, a)) = b.p.iter().find(|(x, _)| *x == o) {
                let mut raw = 0i128;
                for i in 0..s_.min(8) {
                    raw |= (b.b[o_ + i].max(0) as i128) << (8 * i);
                }
                let v = match &self.p.allocs[*a] {
                    Alloc::Fn(f) => Val::Fn(*f),
                    _ => Val::Ptr(GLOBAL | *a as u32, Form::c(raw)),
                };
                ents.push(cell(o, s, v, false));
                continue;
            }
            if b.b[o_..o_ + s_].iter().any(|x| *x < 0) {
                continue;
            }
            let mut v = 0u128;
            for i in 0..s_.min(16) {
                v |= (b.b[o_ + i] as u128) << (8 * i);
            }
            if let Some(v) = const_int(v, s, sc) {
                ents.push(cell(o, s, v, sc.signed()));
            }
        }
        Arg { ty: t, size: sz, ents }
    }
    pub fn operand_val(&mut self, st: &mut State, fr: &Frame, o: &Op) -> R<(Val, TyId)> {
        let a = self.operand(st, fr, o)?;
        let v = a.at(0, a.size.min(if self.sc(a.ty).is_none() { 8 } else { a.size }));
        Ok((v, a.ty))
    }
    pub fn as_int(&mut self, st: &mut State, v: Val, sc: Sc) -> Form {
        match v {
            Val::Int(f) => st.dom.norm(&f),
            Val::Ptr(o, f) => self.addr_of(st, o).add(&f),
            _ => {
                let (l, h) = sc.range();
                st.lossy += 1;
                fresh("u", l, h)
            }
        }
    }

    // ------------------------------------------------------------ arithmetic
    pub fn wrap(&mut self, st: &mut State, f: &Form, s: bool, bits: u32) -> Form {
        let f = st.dom.norm(f);
        let (min, max) = int_range(s, bits);
        let (lo, hi) = (st.dom.lo(&f), st.dom.hi(&f));
        if lo >= min && hi <= max && !(bits >= 128 && (lo == NINF || hi == PINF)) {
            return f;
        }
        if bits >= 127 {
            if s || lo >= 0 {
                // cannot represent the modulus: keep the form when it is provably in range
                if bits == 128 && !s && lo >= 0 && hi != PINF {
                    return f;
                }
            }
            let a = mk_atom(Kind::Op("wrap", vec![f, Form::c(bits as i128), Form::c(s as i128)]), min, max);
            return Form::atom(a);
        }
        if st.dom.ge0(&f.addc(-min)) && st.dom.ge0(&Form::c(max).sub(&f)) {
            return f;
        }
        let m = 1i128 << bits;
        let sh = f.addc(-min);
        let q = st.dom.floordiv(&sh, m);
        match f.lin(1, &q, -m) {
            Some(r) => {
                let r = st.dom.norm(&r);
                r
            }
            None => {
                let a = mk_atom(Kind::Op("wrap", vec![f, Form::c(bits as i128), Form::c(s as i128)]), min, max);
                Form::atom(a)
            }
        }
    }
    pub fn b_ge0(&self, d: &Dom, f: &Form) -> Form {
        let f = tighten(d.norm(f));
        if let Some(k) = f.konst() {
            return Form::c((k >= 0) as i128);
        }
        if d.ge0(&f) {
            return Form::c(1);
        }
        let n = f.neg().addc(-1);
        if d.ge0(&n) {
            return Form::c(0);
        }
        Form::atom(mk_atom(Kind::Op("ge0", vec![f]), 0, 1))
    }
    pub fn b_eq0(&self, d: &Dom, f: &Form) -> Form {
        let f = d.norm(f);
        if let Some(k) = f.konst() {
            return Form::c((k == 0) as i128);
        }
        if d.ne0(&f) {
            return Form::c(0);
        }
        if d.lo(&f) == 0 && d.hi(&f) == 0 {
            return Form::c(1);
        }
        let f = if f.terms()[0].1 < 0 { f.neg() } else { f };
        Form::atom(mk_atom(Kind::Op("eq0", vec![f]), 0, 1))
    }
    pub fn b_not(f: &Form) -> Form {
        Form::c(1).sub(f)
    }
    /// Adds the constraint boolean f == v. False when contradictory.
    pub fn assume(&self, d: &mut Dom, f: &Form, v: bool) -> bool {
        let f = d.norm(f);
        if let Some(k) = f.konst() {
            if (k != 0) != v {
                d.bot = true;
            }
            return !d.bot;
        }
        if let Some((a, c)) = f.single() {
            let truth = if c == 1 && f.k == 0 {
                Some(v)
            } else if c == -1 && f.k == 1 {
                Some(!v)
            } else {
                None
            };
            if let Some(t) = truth {
                let info = atom_info(a);
                if let Kind::Op(o, args) = &info.kind {
                    match *o {
                        "ge0" => {
                            if t {
                                d.add_ge0(&args[0]);
                            } else {
                                d.add_ge0(&args[0].neg().addc(-1));
                            }
                        }
                        "eq0" => {
                            if t {
                                d.add_eq0(&args[0]);
                            } else {
                                d.add_ne0(&args[0]);
                            }
                        }
                        "band" if t => {
                            self.assume(d, &args[0], true);
                            self.assume(d, &args[1], true);
                        }
                        "bor" if !t => {
                            self.assume(d, &args[0], false);
                            self.assume(d, &args[1], false);
                        }
                        _ => {}
                    }
                }
                if !d.bot {
                    d.add_eq0(&Form::atom(a).addc(-(t as i128)));
                }
                return !d.bot;
            }
        }
        d.add_eq0(&f.addc(-(v as i128)));
        !d.bot
    }

    pub fn bit_and(&mut self, st: &mut State, f: &Form, g: &Form, s: bool, bits: u32) -> Form {
        let (f, g) = (st.dom.norm(f), st.dom.norm(g));
        if f == g {
            return f;
        }
        let (a, b) = (st.dom.konst(&f), st.dom.konst(&g));
        if let (Some(x), Some(y)) = (a, b) {
            return Form::c(x & y);
        }
        if a.is_some() {
            return self.bit_and(st, &g, &f, s, bits);
        }
        if let Some(m) = b {
            if m == 0 {
                return Form::c(0);
            }
            if m < 0 {
                // f - (f & ~m)
                if m == -1 {
                    return f;
                }
                let r = self.bit_and(st, &f, &Form::c(!m), s, bits);
                return f.sub(&r);
            }
            // sum over runs of ones
            let mut acc = Form::c(0);
            let mut i = 0;
            while i < 127 {
                if (m >> i) & 1 == 0 {
                    i += 1;
                    continue;
                }
                let mut j = i;
                while j < 127 && (m >> j) & 1 == 1 {
                    j += 1;
                }
                let q = st.dom.floordiv(&f, 1i128 << i);
                let h = st.dom.floordiv(&q, 1i128 << (j - i));
                let Some(x) = q.lin(1, &h, -(1i128 << (j - i))).and_then(|x| x.mulc(1i128 << i)) else {
                    let (l, h) = int_range(s, bits);
                    return fresh("and", l.max(0), h.min(m));
                };
                acc = acc.add(&x);
                i = j;
            }
            return st.dom.norm(&acc);
        }
        let (fl, fh) = (st.dom.lo(&f), st.dom.hi(&f));
        let (gl, gh) = (st.dom.lo(&g), st.dom.hi(&g));
        if fl >= 0 && fh <= 1 && gl >= 0 && gh <= 1 {
            return Form::atom(mk_atom(Kind::Op("band", vec![f, g]), 0, 1));
        }
        // disjoint bit ranges
        for (x, y) in [(&f, &g), (&g, &f)] {
            let (yl, yh) = (st.dom.lo(y), st.dom.hi(y));
            if yl >= 0 && yh != PINF {
                let mut gg = x.gcd_terms();
                if x.k != 0 {
                    gg = gcd(gg, x.k);
                }
                let tz = gg.trailing_zeros();
                if tz > 0 && tz < 127 && yh < (1i128 << tz) {
                    return Form::c(0);
                }
            }
        }
        let (mut lo, mut hi) = int_range(s, bits);
        if fl >= 0 {
            lo = 0;
            hi = hi.min(fh);
        }
        if gl >= 0 {
            lo = 0;
            hi = hi.min(gh);
        }
        let (il, _) = int_range(s, bits);
        let at = mk_atom(Kind::Op("and", if f < g { vec![f, g] } else { vec![g, f] }), il, int_range(s, bits).1);
        st.dom.add_ge0(&Form::atom(at).addc(-lo.max(NINF / 4)));
        if hi != PINF {
            st.dom.add_ge0(&Form::c(hi).sub(&Form::atom(at)));
        }
        Form::atom(at)
    }

    pub fn mul(&mut self, st: &mut State, f: &Form, g: &Form) -> Form {
        if let Some(k) = st.dom.konst(f) {
            if let Some(r) = g.mulc(k) {
                return r;
            }
        }
        if let Some(k) = st.dom.konst(g) {
            if let Some(r) = f.mulc(k) {
                return r;
            }
        }
        let (f, g) = if f < g { (f.clone(), g.clone()) } else { (g.clone(), f.clone()) };
        fn bnd(d: &Dom, f: &Form, g: &Form) -> (i128, i128) {
            let (a, b) = (d.lo(f), d.hi(f));
            let (c, e) = (d.lo(g), d.hi(g));
            if a == NINF || b == PINF || c == NINF || e == PINF {
                if a >= 0 && c >= 0 {
                    return (a.saturating_mul(c), PINF);
                }
                return (NINF, PINF);
            }
            let v = [a.saturating_mul(c), a.saturating_mul(e), b.saturating_mul(c), b.saturating_mul(e)];
            (*v.iter().min().unwrap(), *v.iter().max().unwrap())
        }
        let (l0, h0) = bnd(&Dom::default(), &f, &g);
        let (l, h) = bnd(&st.dom, &f, &g);
        let a = Form::atom(mk_atom(Kind::Op("mul", vec![f, g]), l0, h0));
        if l > NINF >> 7 && l < PINF >> 7 {
            st.dom.add_ge0(&a.addc(0).sub(&Form::c(l)));
        }
        if h < PINF >> 7 && h > NINF >> 7 {
            st.dom.add_ge0(&Form::c(h).sub(&a));
        }
        a
    }

    /// Truncating division and remainder.
    fn divrem(&mut self, st: &mut State, f: &Form, g: &Form, s: bool, bits: u32) -> R<(Form, Form)> {
        let (f, g) = (st.dom.norm(f), st.dom.norm(g));
        if let Some(c) = st.dom.konst(&g) {
            if c == 0 {
                let (l, h) = int_range(s, bits);
                return Ok((fresh("div0", l, h), fresh("div0", l, h)));
            }
            let ac = c.abs();
            let nonneg = st.dom.ge0(&f);
            let nonpos = !nonneg && st.dom.ge0(&f.neg());
            if !nonneg && !nonpos {
                return Err(Fork(vec![vec![Con::Ge0(f.clone())], vec![Con::Ge0(f.neg().addc(-1))]]));
            }
            let q = if nonneg { st.dom.floordiv(&f, ac) } else { st.dom.floordiv(&f.neg(), ac).neg() };
            let q2 = if c < 0 { q.neg() } else { q };
            let r = match f.lin(1, &q2, -c) {
                Some(r) => r,
                None => fresh("rem", -ac + 1, ac - 1),
            };
            return Ok((q2, r));
        }
        let (fl, fh) = st.dom.bounds(&f);
        let (gl, gh) = st.dom.bounds(&g);
        let (tl, th) = int_range(s, bits);
        let q = Form::atom(mk_atom(Kind::Op("div", vec![f.clone(), g.clone()]), tl, th));
        let r = Form::atom(mk_atom(Kind::Op("rem", vec![f.clone(), g.clone()]), tl, th));
        if fl >= 0 && gl >= 0 {
            st.dom.add_ge0(&q);
            st.dom.add_ge0(&r);
            st.dom.add_ge0(&f.sub(&q));
            st.dom.add_ge0(&f.sub(&r));
            st.dom.add_ge0(&g.sub(&r).addc(-1));
            if gl > 0 && fh != PINF {
                st.dom.add_ge0(&Form::c(fh / gl).sub(&q));
            }
        } else if fl != NINF && fh != PINF {
            let m = fl.abs().max(fh.abs());
            st.dom.add_ge0(&Form::c(m).sub(&q));
            st.dom.add_ge0(&q.addc(m));
            let m2 = if gl != NINF && gh != PINF { m.min((gl.abs().max(gh.abs()) - 1).max(0)) } else { m };
            st.dom.add_ge0(&Form::c(m2).sub(&r));
            st.dom.add_ge0(&r.addc(m2));
        }
        Ok((q, r))
    }

    pub fn binop(&mut self, st: &mut State, op: &str, a: (Val, TyId), b: (Val, TyId)) -> R<(Val, bool)> {
        let sca = self.sc(a.1).unwrap_or(Sc::Ptr);
        let cmp = matches!(op, "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge" | "Cmp");
        // pointers
        if op == "Offset" {
            let e = self.pointee(a.1).unwrap_or(a.1);
            let sz = self.p.size(e) as i128;
            let scb = self.sc(b.1).unwrap_or(Sc::Int(false, 64));
            let n = self.as_int(st, b.0, scb);
            return Ok((self.ptr_add(st, a.0, &n, sz), false));
        }
        if let (Val::Float(x), Val::Float(y)) = (&a.0, &b.0) {
            return Ok(self.float_bin(st, op, x, y));
        }
        if sca == Sc::Float {
            if cmp {
                return Ok((Val::Int(fresh("fcmp", 0, 1)), false));
            }
            return Ok((Val::Float(fresh("f", NINF, PINF)), false));
        }
        if cmp {
            if let (Val::Ptr(o1, f1), Val::Ptr(o2, f2)) = (&a.0, &b.0) {
                if o1 != o2 {
                    return Ok(match op {
                        "Eq" => (Val::Int(Form::c(0)), false),
                        "Ne" => (Val::Int(Form::c(1)), false),
                        _ => (Val::Int(fresh("pcmp", 0, 1)), false),
                    });
                }
                let (f1, f2) = (f1.clone(), f2.clone());
                return self.cmp(st, op, &f1, &f2);
            }
            if matches!(a.0, Val::Fn(_)) || matches!(b.0, Val::Fn(_)) {
                let nul = |v: &Val| matches!(v, Val::Int(f) if f.is_c(0));
                if nul(&a.0) || nul(&b.0) {
                    return Ok((Val::Int(Form::c((op == "Ne") as i128)), false));
                }
                return Ok((Val::Int(Form::c(((a.0 == b.0) == (op == "Eq")) as i128)), false));
            }
        }
        let scb = self.sc(b.1).unwrap_or(Sc::Int(false, 64));
        let x = self.as_int(st, a.0, sca);
        let y = self.as_int(st, b.0, scb);
        if cmp {
            return self.cmp(st, op, &x, &y);
        }
        let (s, bits) = match sca {
            Sc::Int(s, b) => (s, b),
            Sc::Bool => (false, 1),
            Sc::Char => (false, 32),
            _ => (false, 64),
        };
        let r = match op {
            "Add" | "AddUnchecked" => match x.try_add(&y) {
                Some(f) => self.wrap(st, &f, s, bits),
                None => self.fresh_int(s, bits),
            },
            "Sub" | "SubUnchecked" => match x.lin(1, &y, -1) {
                Some(f) => self.wrap(st, &f, s, bits),
                None => self.fresh_int(s, bits),
            },
            "Mul" | "MulUnchecked" => {
                let f = self.mul(st, &x, &y);
                self.wrap(st, &f, s, bits)
            }
            "Div" => self.divrem(st, &x, &y, s, bits)?.0,
            "Rem" => self.divrem(st, &x, &y, s, bits)?.1,
            "BitAnd" => self.bit_and(st, &x, &y, s, bits),
            "BitOr" => {
                if st.dom.konst(&x) == Some(0) {
                    y
                } else if st.dom.konst(&y) == Some(0) {
                    x
                } else if sca == Sc::Bool {
                    if st.dom.konst(&x) == Some(1) || st.dom.konst(&y) == Some(1) {
                        Form::c(1)
                    } else {
                        Form::atom(mk_atom(Kind::Op("bor", vec![x, y]), 0, 1))
                    }
                } else {
                    let n = self.bit_and(st, &x, &y, s, bits);
                    x.add(&y).sub(&n)
                }
            }
            "BitXor" => {
                if sca == Sc::Bool {
                    match (st.dom.konst(&x), st.dom.konst(&y)) {
                        (Some(0), _) => y,
                        (_, Some(0)) => x,
                        (Some(1), _) => Self::b_not(&y),
                        (_, Some(1)) => Self::b_not(&x),
                        _ => {
                            return Err(Fork(vec![vec![Con::Eq0(x.clone())], vec![Con::Eq0(x.addc(-1))]]));
                        }
                    }
                } else {
                    let n = self.bit_and(st, &x, &y, s, bits);
                    let f = x.add(&y).lin(1, &n, -2).unwrap_or_else(|| self.fresh_int(s, bits));
                    self.wrap(st, &f, s, bits)
                }
            }
            "Shl" | "ShlUnchecked" => {
                if let Some(k) = st.dom.konst(&y) {
                    let k = k.rem_euclid(bits as i128);
                    match x.mulc(1i128 << k.min(126)) {
                        Some(f) if k < 126 => self.wrap(st, &f, s, bits),
                        _ => self.fresh_int(s, bits),
                    }
                } else {
                    Form::atom(mk_atom(
                        Kind::Op("shl", vec![x, y, Form::c(bits as i128)]),
                        int_range(s, bits).0,
                        int_range(s, bits).1,
                    ))
                }
            }
            "Shr" | "ShrUnchecked" => {
                if let Some(k) = st.dom.konst(&y) {
                    let k = k.rem_euclid(bits as i128);
                    if k < 126 {
                        st.dom.floordiv(&x, 1i128 << k)
                    } else {
                        self.fresh_int(s, bits)
                    }
                } else {
                    let (l, h) = int_range(s, bits);
                    let hi = if st.dom.lo(&x) >= 0 { st.dom.hi(&x) } else { h };
                    let r = Form::atom(mk_atom(Kind::Op("shr", vec![x, y]), l, h));
                    if hi != PINF {
                        st.dom.add_ge0(&Form::c(hi).sub(&r));
                    }
                    r
                }
            }
            _ => {
                self.give_up(format!("operator {}", op));
                self.fresh_int(s, bits)
            }
        };
        Ok((Val::Int(r), s))
    }
    fn fresh_int(&self, s: bool, bits: u32) -> Form {
        let (l, h) = int_range(s, bits);
        fresh("int", l, h)
    }
    pub fn cmp(&mut self, st: &mut State, op: &str, x: &Form, y: &Form) -> R<(Val, bool)> {
        let Some(d) = x.lin(1, y, -1) else {
            return Ok((Val::Int(fresh("cmp", if op == "Cmp" { -1 } else { 0 }, 1)), op == "Cmp"));
        };
        let r = match op {
            "Eq" => self.b_eq0(&st.dom, &d),
            "Ne" => Self::b_not(&self.b_eq0(&st.dom, &d)),
            "Lt" => self.b_ge0(&st.dom, &d.neg().addc(-1)),
            "Le" => self.b_ge0(&st.dom, &d.neg()),
            "Gt" => self.b_ge0(&st.dom, &d.addc(-1)),
            "Ge" => self.b_ge0(&st.dom, &d),
            _ => {
                let lt = self.b_ge0(&st.dom, &d.neg().addc(-1));
                let eq = self.b_eq0(&st.dom, &d);
                match (lt.konst(), eq.konst()) {
                    (Some(1), _) => return Ok((Val::Int(Form::c(-1)), true)),
                    (_, Some(1)) => return Ok((Val::Int(Form::c(0)), true)),
                    (Some(0), Some(0)) => return Ok((Val::Int(Form::c(1)), true)),
                    _ => {
                        return Err(Fork(vec![
                            vec![Con::Ge0(d.neg().addc(-1))],
                            vec![Con::Eq0(d.clone())],
                            vec![Con::Ge0(d.addc(-1))],
                        ]))
                    }
                }
            }
        };
        Ok((Val::Int(r), false))
    }
    pub fn ptr_add(&mut self, st: &mut State, v: Val, n: &Form, sz: i128) -> Val {
        let d = n.mulc(sz).unwrap_or_else(|| fresh("off", NINF, PINF));
        match v {
            Val::Ptr(o, f) => Val::Ptr(o, st.dom.norm(&f.try_add(&d).unwrap_or_else(|| fresh("off", NINF, PINF)))),
            Val::Int(f) => Val::Int(st.dom.norm(&f.try_add(&d).unwrap_or_else(|| fresh("off", NINF, PINF)))),
            v => v,
        }
    }
    fn float_bin(&mut self, st: &mut State, op: &str, x: &Form, y: &Form) -> (Val, bool) {
        let nm = |f: &Form| -> String { f.single().map(|(a, _)| atom_name(a)).unwrap_or_default() };
        let (nx, ny) = (nm(x), nm(y));
        let cmp = matches!(op, "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge");
        if let (Some(a), Some(b), Some(sz)) = (fval(x), fval(y), fsize(x)) {
            if cmp {
                let r = match op {
                    "Eq" => a == b,
                    "Ne" => a != b,
                    "Lt" => a < b,
                    "Le" => a <= b,
                    "Gt" => a > b,
                    _ => a >= b,
                };
                return (Val::Int(Form::c(r as i128)), false);
            }
            let r = match (op, sz) {
                ("Add", 8) => Some(a + b),
                ("Sub", 8) => Some(a - b),
                ("Mul", 8) => Some(a * b),
                ("Div", 8) => Some(a / b),
                _ => None,
            };
            if let Some(r) = r {
                return (Val::Float(fmake(r, sz)), false);
            }
        }
        if cmp {
            if nx.starts_with("nan:") || ny.starts_with("nan:") {
                return (Val::Int(Form::c((op == "Ne") as i128)), false);
            }
            if let (Some((al, ah)), Some((bl, bh))) = (fbounds(x), fbounds(y)) {
                let (always, never) = match op {
                    "Eq" => (x == y || (al == ah && bl == bh && al == bl), x != y && (ah < bl || bh < al)),
                    "Ne" => (x != y && (ah < bl || bh < al), x == y || (al == ah && bl == bh && al == bl)),
                    "Lt" => (x != y && ah < bl, x == y || al >= bh),
                    "Le" => (x == y || ah <= bl, x != y && al > bh),
                    "Gt" => (x != y && al > bh, x == y || ah <= bl),
                    _ => (x == y || al >= bh, x != y && ah < bl),
                };
                if always || never {
                    return (Val::Int(Form::c(always as i128)), false);
                }
            }
            if x == y && (nx.starts_with("fin:") || nx.starts_with("inf:")) {
                return (Val::Int(Form::c(matches!(op, "Eq" | "Le" | "Ge") as i128)), false);
            }
            let o: &'static str = match op {
                "Eq" | "Ne" => "f.eq",
                "Lt" | "Ge" => "f.lt",
                _ => "f.gt",
            };
            let _ = st;
            let args = if o == "f.eq" && y < x { vec![y.clone(), x.clone()] } else { vec![x.clone(), y.clone()] };
            let a = Form::atom(mk_atom(Kind::Op(o, args), 0, 1));
            return (
                Val::Int(if matches!(op, "Ne" | "Ge" | "Le") { Self::b_not(&a) } else { a }),
                false,
            );
        }
        let o: &'static str = match op {
            "Add" => "f.add",
            "Sub" => "f.sub",
            "Mul" => "f.mul",
            "Div" => "f.div",
            _ => "f.rem",
        };
        (Val::Float(Form::atom(mk_atom(Kind::Op(o, vec![x.clone(), y.clone()]), NINF, PINF))), false)
    }

    fn checked(&mut self, st: &mut State, op: &str, a: (Val, TyId), b: (Val, TyId)) -> R<(Val, bool, bool)> {
        let Some(Sc::Int(s, bits)) = self.sc(a.1) else {
            let r = self.binop(st, op, a, b)?;
            return Ok((r.0, r.1, false));
        };
        let sca = Sc::Int(s, bits);
        let x = self.as_int(st, a.0, sca);
        let scb = self.sc(b.1).unwrap_or(sca);
        let y = self.as_int(st, b.0, scb);
        if op == "Shl" || op == "Shr" {
            let ok = st.dom.ge0(&y) && st.dom.ge0(&Form::c(bits as i128 - 1).sub(&y));
            let r = self.binop(st, op, (Val::Int(x), a.1), (Val::Int(y), b.1))?;
            return Ok((r.0, r.1, !ok));
        }
        let f = match op {
            "Add" => x.try_add(&y),
            "Sub" => x.lin(1, &y, -1),
            "Mul" => Some(self.mul(st, &x, &y)),
            _ => None,
        };
        let Some(f) = f else {
            return Ok((Val::Int(self.fresh_int(s, bits)), s, false));
        };
        let f = st.dom.norm(&f);
        let (min, max) = int_range(s, bits);
        if bits == 128 {
            // bounds of the widest types coincide with the domain's infinities
            let okl = if s { st.dom.lo(&f) != NINF } else { st.dom.ge0(&f) };
            let okh = st.dom.hi(&f) != PINF;
            if okl && okh {
                return Ok((Val::Int(f), s, false));
            }
            let fl = Form::atom(mk_atom(Kind::Op("ovf", vec![f.clone(), Form::c(s as i128)]), 0, 1));
            match st.dom.konst(&fl) {
                Some(0) => return Ok((Val::Int(f), s, false)),
                Some(_) => return Ok((Val::Int(self.fresh_int(s, bits)), s, true)),
                None => {
                    if !s && okh {
                        return Err(Fork(vec![
                            vec![Con::Ge0(f.clone()), Con::Eq0(fl.clone())],
                            vec![Con::Ge0(f.neg().addc(-1)), Con::Eq0(fl.addc(-1))],
                        ]));
                    }
                    return Err(Fork(vec![vec![Con::Eq0(fl.clone())], vec![Con::Eq0(fl.addc(-1))]]));
                }
            }
        }
        let okl = st.dom.ge0(&f.addc(-min));
        let okh = st.dom.ge0(&Form::c(max).sub(&f));
        if okl && okh {
            return Ok((Val::Int(f), s, false));
        }
        if st.dom.ge0(&f.addc(-max - 1)) || st.dom.ge0(&Form::c(min - 1).sub(&f)) {
            let w = self.wrap(st, &f, s, bits);
            return Ok((Val::Int(w), s, true));
        }
        let mut alts = vec![vec![Con::Ge0(f.addc(-min)), Con::Ge0(Form::c(max).sub(&f))]];
        if !okh {
            alts.push(vec![Con::Ge0(f.addc(-max - 1))]);
        }
        if !okl {
            alts.push(vec![Con::Ge0(Form::c(min - 1).sub(&f))]);
        }
        Err(Fork(alts))
    }

    // ------------------------------------------------------------ rvalues
    fn fat(&self, ty: TyId) -> bool {
        match self.pointee(ty) {
            Some(e) => !self.p.is_sized(e),
            None => false,
        }
    }
    fn rvalue(&mut self, st: &mut State, fr: &Frame, rv: &Rv, dst_ty: TyId) -> R<Vec<Ent>> {
        let one = |v: Val, sg: bool, s: &Self| vec![cell(0, s.p.size(dst_ty), v, sg)];
        Ok(match rv {
            Rv::Use(o) => self.operand(st, fr, o)?.ents,
            Rv::AddrOf(_, pl) | Rv::Ref(_, pl) => {
                let q = self.place(st, fr, pl)?;
                let v = match &q.obj {
                    PObj::Obj(o) => Val::Ptr(*o, q.off.clone()),
                    PObj::Addr(f) => Val::Int(f.add(&q.off)),
                    PObj::Fn(f) => Val::Fn(*f),
                    PObj::Top => Val::Top,
                };
                let mut e = vec![cell(0, 8, v, false)];
                if let Some(m) = q.meta {
                    if self.fat(dst_ty) {
                        e.push(cell(8, 8, m, false));
                    }
                }
                e
            }
            Rv::Agg(k, ops) => {
                let mut args = vec![];
                for o in ops {
                    args.push(self.operand(st, fr, o)?);
                }
                let mut tmp = blank(OKind::Local, Form::c(1 << 20), 16);
                let t = &self.p.tys[dst_ty];
                match k {
                    Agg::Array(e) => {
                        let s = self.p.size(*e);
                        for (i, a) in args.iter().enumerate() {
                            tmp.write_blob(&st.dom, &Form::c((i as u64 * s) as i128), &Form::c(s as i128), &a.ents);
                        }
                    }
                    Agg::RawPtr(_) => {
                        let v = args[0].at(0, 8);
                        tmp.write(&st.dom, &Form::c(0), 8, v, false);
                        if args.len() > 1 && args[1].size == 8 {
                            let v = args[1].at(0, 8);
                            tmp.write(&st.dom, &Form::c(8), 8, v, false);
                        }
                    }
                    _ => {
                        let variant = match k {
                            Agg::Adt(_, v, _) if t.k == TK::Enum => Some(*v),
                            _ => None,
                        };
                        let union_field = match k {
                            Agg::Adt(_, _, f) => *f,
                            _ => None,
                        };
                        let offs: Vec<u64> = match (&t.l, variant) {
                            (Some(l), Some(v)) => match &l.variants {
                                Variants::Direct { variants, .. } | Variants::Niche { variants, .. } => {
                                    variants.get(v).cloned().unwrap_or_default()
                                }
                                _ => l.offs.clone(),
                            },
                            (Some(l), None) => l.offs.clone(),
                            _ => vec![],
                        };
                        for (i, a) in args.iter().enumerate() {
                            let o = if union_field.is_some() { 0 } else { offs.get(i).copied().unwrap_or(0) };
                            tmp.write_blob(&st.dom, &Form::c(o as i128), &Form::c(a.size as i128), &a.ents);
                        }
                        if let Some(v) = variant {
                            if let Some((o, s, val, sg)) = self.tag_for(dst_ty, v) {
                                tmp.write(&st.dom, &Form::c(o as i128), s, val, sg);
                            }
                        }
                    }
                }
                tmp.log.into_vec()
            }
            Rv::Bin(op, a, b) => {
                let x = self.operand_val(st, fr, a)?;
                let y = self.operand_val(st, fr, b)?;
                let (v, sg) = self.binop(st, op, x, y)?;
                one(v, sg, self)
            }
            Rv::CBin(op, a, b) => {
                let x = self.operand_val(st, fr, a)?;
                let sz = self.p.size(x.1);
                let y = self.operand_val(st, fr, b)?;
                let (v, sg, fl) = self.checked(st, op, x, y)?;
                let l = self.p.tys[dst_ty].l.as_ref().unwrap();
                let (o0, o1) = (l.offs[0], l.offs[1]);
                vec![cell(o0, sz, v, sg), cell(o1, 1, Val::Int(Form::c(fl as i128)), false)]
            }
            Rv::Cast(k, o, t) => self.cast(st, fr, k, o, *t)?,
            Rv::Discr(pl) => {
                let q = self.place(st, fr, pl)?;
                let f = self.discr(st, &q)?;
                let sg = self.sc(dst_ty).map(|s| s.signed()).unwrap_or(false);
                one(Val::Int(f), sg, self)
            }
            Rv::Len(pl) => {
                let q = self.place(st, fr, pl)?;
                let f = match (&self.p.tys[q.ty].k, q.meta) {
                    (TK::Array(_, n), _) => Val::Int(Form::c(*n as i128)),
                    (_, Some(m)) => m,
                    _ => Val::Top,
                };
                one(f, false, self)
            }
            Rv::Rep(o, n) => {
                let a = self.operand(st, fr, o)?;
                if *n > 512 {
                    let zero = a.ents.iter().all(|e| matches!(e, Ent::Cell(c) if c.val == Val::Int(Form::c(0))));
                    let len = Form::c((a.size * n) as i128);
                    return Ok(vec![Ent::Region {
                        start: Form::c(0),
                        len,
                        src: if zero && !a.ents.is_empty() { Src::Zero } else { Src::Undef },
                    }]);
                }
                let mut v = vec![];
                for i in 0..*n {
                    for e in &a.ents {
                        if let Ent::Cell(c) = e {
                            let mut c = c.clone();
                            c.off = c.off.addc((i * a.size) as i128);
                            v.push(Ent::Cell(c));
                        }
                    }
                }
                v
            }
            Rv::Un(op, o) => {
                let a = self.operand(st, fr, o)?;
                match op.as_str() {
                    "PtrMetadata" => {
                        if self.p.size(dst_ty) == 0 {
                            return Ok(vec![]);
                        }
                        vec![cell(0, 8, a.at(8, 8), false)]
                    }
                    _ => {
                        let v = a.at(0, a.size);
                        let sc = self.sc(a.ty).unwrap_or(Sc::Int(false, 64));
                        if sc == Sc::Float {
                            let f = match v {
                                Val::Float(f) => f,
                                _ => fresh("f", NINF, PINF),
                            };
                            if let (Some(v), Some(sz)) = (fval(&f), fsize(&f)) {
                                return Ok(vec![cell(0, sz, Val::Float(fmake(-v, sz)), false)]);
                            }
                            let at = mk_atom(Kind::Op("f.neg", vec![f]), NINF, PINF);
                            return Ok(one(Val::Float(Form::atom(at)), false, self));
                        }
                        let x = self.as_int(st, v, sc);
                        let f = match (op.as_str(), sc) {
                            ("Not", Sc::Bool) => Self::b_not(&x),
                            ("Not", Sc::Int(false, b)) if b < 127 => Form::c(int_range(false, b).1).sub(&x),
                            ("Not", _) => Form::c(-1).sub(&x),
                            ("Neg", Sc::Int(s, b)) => self.wrap(st, &x.neg(), s, b),
                            _ => {
                                self.give_up(format!("unary {}", op));
                                fresh("un", NINF, PINF)
                            }
                        };
                        one(Val::Int(f), sc.signed(), self)
                    }
                }
            }
            Rv::Tls(n) => {
                self.give_up(format!("thread local {}", n));
                one(Val::Top, false, self)
            }
        })
    }

    fn cast(&mut self, st: &mut State, fr: &Frame, k: &str, o: &Op, t: TyId) -> R<Vec<Ent>> {
        let a = self.operand(st, fr, o)?;
        let tsz = self.p.size(t);
        Ok(match k {
            "IntToInt" => {
                let sc0 = self.sc(a.ty).unwrap_or(Sc::Int(false, 64));
                let x = self.as_int(st, a.at(0, a.size), sc0);
                match self.sc(t) {
                    Some(Sc::Int(s, b)) => {
                        let f = self.wrap(st, &x, s, b);
                        vec![cell(0, tsz, Val::Int(f), s)]
                    }
                    _ => vec![cell(0, tsz, Val::Int(x), false)],
                }
            }
            "PtrToPtr" | "FnPtrToPtr" => {
                let mut e = vec![cell(0, 8, a.at(0, 8), false)];
                if tsz == 16 {
                    e.push(cell(8, 8, a.at(8, 8), false));
                }
                e
            }
            "PointerExposeAddress" | "PointerExposeProvenance" => {
                let x = self.as_int(st, a.at(0, 8), Sc::Int(false, 64));
                vec![cell(0, tsz, Val::Int(x), false)]
            }
            "PointerWithExposedProvenance" => vec![cell(0, 8, a.at(0, 8), false)],
            "Transmute" => {
                if let (Some(s1), Some(s2)) = (self.sc(a.ty), self.sc(t)) {
                    let v = a.at(0, a.size);
                    let v = self.conv(st, v, s1.signed(), a.size, s2)?;
                    return Ok(vec![cell(0, tsz, v, s2.signed())]);
                }
                a.ents
            }
            "Reify" | "ClosureFn" => {
                if let TK::FnDef(Some(f)) = self.p.tys[a.ty].k {
                    vec![cell(0, 8, Val::Fn(f), false)]
                } else {
                    vec![cell(0, 8, Val::Top, false)]
                }
            }
            "Unsize" => {
                let mut e = a.ents.clone();
                if a.size == tsz {
                    return Ok(e);
                }
                // find the array/concrete pointee
                let meta = match self.pointee(a.ty).map(|x| (x, self.p.tys[x].k.clone())) {
                    Some((_, TK::Array(_, n))) => Val::Int(Form::c(n as i128)),
                    Some((x, _)) => Val::Int(Form::atom(mk_atom(
                        Kind::Op("vtable", vec![Form::c(x as i128)]),
                        1,
                        1i128 << 47,
                    ))),
                    None => Val::Top,
                };
                e.push(cell(8, 8, meta, false));
                e
            }
            "IntToFloat" => {
                let sc0 = self.sc(a.ty).unwrap_or(Sc::Int(false, 64));
                let x = self.as_int(st, a.at(0, a.size), sc0);
                let x = st.dom.norm(&x);
                let f = match x.konst() {
                    Some(k) if k.abs() < 1 << 53 => fmake(if tsz == 4 { k as f32 as f64 } else { k as f64 }, tsz),
                    _ => Form::atom(mk_atom(Kind::Op("f.int", vec![x]), NINF, PINF)),
                };
                vec![cell(0, tsz, Val::Float(f), false)]
            }
            "FloatToInt" => {
                let (s, b) = match self.sc(t) {
                    Some(Sc::Int(s, b)) => (s, b),
                    _ => (true, 64),
                };
                let (l, h) = int_range(s, b);
                let f = match a.at(0, a.size) {
                    Val::Float(f) if fval(&f).is_some() => {
                        let v = fval(&f).unwrap_or(0.0);
                        // a float to integer cast truncates and saturates
                        let k = if v.is_nan() { 0 } else { (v as i128).clamp(l, h) };
                        Form::c(k)
                    }
                    Val::Float(f) if flog10(&f).map(|x| st.dom.bounds(&x).0 >= 1 && st.dom.bounds(&x).1 < 1_000_000_000_000).unwrap_or(false) => {
                        // whole part of the decimal logarithm of a small positive integer
                        let x = flog10(&f).unwrap();
                        let (bl, bh) = st.dom.bounds(&x);
                        let dig = |v: i128| v.to_string().len() as u32 - 1;
                        let (dl, dh) = (dig(bl), dig(bh));
                        if dl != dh {
                            return Err(Fork(
                                (dl..=dh)
                                    .map(|k| vec![Con::Ge0(x.addc(-(10i128.pow(k)))), Con::Ge0(x.neg().addc(10i128.pow(k + 1) - 1))])
                                    .collect(),
                            ));
                        }
                        Form::c(dl as i128)
                    }
                    Val::Float(f) => Form::atom(mk_atom(Kind::Op("f2i", vec![f, Form::c(b as i128)]), l, h)),
                    _ => fresh("f2i", l, h),
                };
                vec![cell(0, tsz, Val::Int(f), s)]
            }
            "FloatToFloat" => {
                let v = match a.at(0, a.size) {
                    Val::Float(f) if fval(&f).is_some() => {
                        let v = fval(&f).unwrap_or(0.0);
                        Val::Float(fmake(v, tsz))
                    }
                    Val::Float(f) => {
                        Val::Float(Form::atom(mk_atom(Kind::Op("f2f", vec![f, Form::c(tsz as i128)]), NINF, PINF)))
                    }
                    _ => Val::Float(fresh("f", NINF, PINF)),
                };
                vec![cell(0, tsz, v, false)]
            }
            _ => {
                self.give_up(format!("cast {}", k));
                self.top_blob(t, tsz)
            }
        })
    }

    /// (offset, size, value, signed) of the tag write selecting variant v.
    pub fn tag_for(&self, ty: TyId, v: usize) -> Option<(u64, u64, Val, bool)> {
        let t = &self.p.tys[ty];
        let l = t.l.as_ref()?;
        match &l.variants {
            Variants::Direct { tag, off, .. } => {
                let (sg, b) = match tag.prim {
                    Prim::Int(s, b) => (s, b),
                    _ => (false, 8),
                };
                let raw = t.d.get(v).copied().unwrap_or(v as u128);
                let sh = 128 - 8 * b;
                let val = if sg { ((raw << sh) as i128) >> sh } else { ((raw << sh) >> sh) as i128 };
                Some((*off, b as u64, Val::Int(Form::c(val)), sg))
            }
            Variants::Niche { tag, off, untagged, nstart, start, .. } => {
                if v == *untagged {
                    return None;
                }
                let (sg, b) = match tag.prim {
                    Prim::Int(s, b) => (s, b),
                    _ => (false, 8),
                };
                let raw = start.wrapping_add((v - nstart) as u128);
                let sh = 128 - 8 * b;
                let val = if sg { ((raw << sh) as i128) >> sh } else { ((raw << sh) >> sh) as i128 };
                Some((*off, b as u64, Val::Int(Form::c(val)), sg))
            }
            _ => None,
        }
    }

    /// Index of the active variant; forks when undecided.
    pub fn variant(&mut self, st: &mut State, q: &Pl) -> R<usize> {
        let t = &self.p.tys[q.ty];
        let Some(l) = t.l.as_ref() else { return Ok(0) };
        match &l.variants {
            Variants::Empty => Ok(0),
            Variants::Single(i) => Ok(*i),
            Variants::Direct { tag, off, .. } => {
                let (sg, b) = match tag.prim {
                    Prim::Int(s, b) => (s, b),
                    _ => (false, 8),
                };
                let pl = Pl { off: q.off.addc(*off as i128), meta: None, variant: None, ..q.clone() };
                let v = self.read_at(st, &pl, b as u64, Sc::Int(sg, 8 * b))?;
                let f = self.as_int(st, v, Sc::Int(sg, 8 * b));
                let sh = 128 - 8 * b;
                let vals: Vec<i128> = t
                    .d
                    .iter()
                    .map(|raw| if sg { ((raw << sh) as i128) >> sh } else { ((raw << sh) >> sh) as i128 })
                    .collect();
                if let Some(k) = st.dom.konst(&f) {
                    return Ok(vals.iter().position(|x| *x == k).unwrap_or(0));
                }
                Err(Fork(vals.iter().map(|v| vec![Con::Eq0(f.addc(-*v))]).collect()))
            }
            Variants::Niche { tag, off, untagged, nstart, nend, start, .. } => {
                let pl = Pl { off: q.off.addc(*off as i128), meta: None, variant: None, ..q.clone() };
                let (sg, b, ptr) = match tag.prim {
                    Prim::Int(s, b) => (s, b, false),
                    _ => (false, 8, true),
                };
                let sc = if ptr { Sc::Ptr } else { Sc::Int(sg, 8 * b) };
                let v = self.read_at(st, &pl, b as u64, sc)?;
                match v {
                    Val::Ptr(..) | Val::Fn(_) => return Ok(*untagged),
                    Val::Top => {
                        st.lossy += 1;
                        self.give_up("variant of an untracked pointer".into());
                        return Ok(*untagged);
                    }
                    _ => {}
                }
                let f = self.as_int(st, v, Sc::Int(sg, 8 * b));
                let sh = 128 - 8 * b;
                let n = nend - nstart + 1;
                let vals: Vec<i128> = (0..n)
                    .map(|i| {
                        let raw = start.wrapping_add(i as u128);
                        if sg {
                            ((raw << sh) as i128) >> sh
                        } else {
                            ((raw << sh) >> sh) as i128
                        }
                    })
                    .collect();
                if let Some(k) = st.dom.konst(&f) {
                    return Ok(match vals.iter().position(|x| *x == k) {
                        Some(i) => nstart + i,
                        None => *untagged,
                    });
                }
                if vals.iter().all(|v| st.dom.ne0(&f.addc(-*v))) {
                    return Ok(*untagged);
                }
                let mut alts: Vec<Vec<Con>> = vals.iter().map(|v| vec![Con::Eq0(f.addc(-*v))]).collect();
                alts.push(vals.iter().map(|v| Con::Ne0(f.addc(-*v))).collect());
                Err(Fork(alts))
            }
        }
    }
    fn discr(&mut self, st: &mut State, q: &Pl) -> R<Form> {
        let t = &self.p.tys[q.ty];
        if t.k != TK::Enum {
            return Ok(Form::c(0));
        }
        let v = self.variant(st, q)?;
        let raw = t.d.get(v).copied().unwrap_or(v as u128);
        let (s, b) = match t.dt.and_then(|d| self.sc(d)) {
            Some(Sc::Int(s, b)) => (s, b),
            _ => (true, 64),
        };
        let sh = 128 - b;
        Ok(Form::c(if s { ((raw << sh) as i128) >> sh } else { ((raw << sh) >> sh) as i128 }))
    }

    // ------------------------------------------------------------ statements
    fn stmt(&mut self, st: &mut State, fr: &Frame, s: &Stmt) -> R<()> {
        match s {
            Stmt::Assign(line, pl, rv) => {
                if let Some(x) = self.stack.last_mut() {
                    x.1 = *line;
                }
                let dt = self.place_ty(fr, pl);
                let e = self.rvalue(st, fr, rv, dt)?;
                let q = self.place(st, fr, pl)?;
                let sz = self.p.size(dt);
                if let [Ent::Cell(c)] = &e[..] {
                    if c.off.is_c(0) && c.size == sz {
                        self.write_at(st, &q, sz, c.val.clone(), c.sg);
                        return Ok(());
                    }
                }
                self.write_ents(st, &q, sz, &e);
            }
            Stmt::SetDiscr(_, pl, v) => {
                let q = self.place(st, fr, pl)?;
                if let Some((o, s, val, sg)) = self.tag_for(q.ty, *v) {
                    let p2 = Pl { off: q.off.addc(o as i128), ..q };
                    self.write_at(st, &p2, s, val, sg);
                }
            }
            Stmt::Live(l) | Stmt::Dead(l) => {
                let i = fr.base as usize + *l;
                if i < st.stack.len() {
                    st.stack[i] = None;
                }
            }
            Stmt::Assume(o) => {
                let (v, _) = self.operand_val(st, fr, o)?;
                let f = self.as_int(st, v, Sc::Bool);
                let mut d = std::mem::take(&mut st.dom);
                self.assume(&mut d, &f, true);
                st.dom = d;
            }
            Stmt::Cno(line, s, d, n) => {
                if let Some(x) = self.stack.last_mut() {
                    x.1 = *line;
                }
                let a = self.operand(st, fr, s)?;
                let b = self.operand(st, fr, d)?;
                let c = self.operand(st, fr, n)?;
                let e = self.pointee(a.ty).unwrap_or(a.ty);
                let sz = self.p.size(e) as i128;
                let n = c.int();
                let bytes = n.mulc(sz).unwrap_or_else(|| fresh("n", 0, i64::MAX as i128));
                self.memcpy(st, &a.at(0, 8), &b.at(0, 8), &bytes)?;
            }
        }
        Ok(())
    }

    pub fn ptr_pl(&self, v: &Val, ty: TyId) -> Pl {
        let (obj, off) = match v {
            Val::Ptr(o, f) => (PObj::Obj(*o), f.clone()),
            Val::Int(f) => (PObj::Addr(f.clone()), Form::c(0)),
            Val::Fn(f) => (PObj::Fn(*f), Form::c(0)),
            _ => (PObj::Top, Form::c(0)),
        };
        Pl { obj, off, ty, meta: None, variant: None }
    }

    pub fn memcpy(&mut self, st: &mut State, src: &Val, dst: &Val, bytes: &Form) -> R<()> {
        let bytes = st.dom.norm(bytes);
        if st.dom.konst(&bytes) == Some(0) {
            return Ok(());
        }
        let s = self.ptr_pl(src, 0);
        let d = self.ptr_pl(dst, 0);
        let a = self.access(st, &s, &bytes, false);
        let b = self.access(st, &d, &bytes, true);
        if !b {
            return Ok(());
        }
        let PObj::Obj(di) = d.obj else { return Ok(()) };
        let blob = if a {
            let PObj::Obj(si) = s.obj else { unreachable!() };
            let so = self.obj(st, si);
            if let Src::Const(_) = so.base {
                if let (Some(o), Some(n)) = (st.dom.konst(&s.off), st.dom.konst(&bytes)) {
                    if n <= 4096 {
                        let mut v = vec![];
                        // keep pointer-sized provenance where present
                        let mut i = 0;
                        while i < n {
                            let w = if n - i >= 8 { 8 } else { 1 };
                            let isptr = w == 8
                                && matches!(&self.p.allocs[match so.base { Src::Const(a) => a, _ => 0 }],
                                    Alloc::Mem(b) | Alloc::Static(_, _, Some(b)) if b.p.iter().any(|(x, _)| *x as i128 == o + i));
                            let w = if isptr { 8 } else { 1 };
                            let sc = if isptr { Sc::Ptr } else { Sc::Int(false, 8) };
                            if let Rd::Val(x, sg) = so.read(self.p, &st.dom, &Form::c(o + i), w, sc) {
                                v.push(cell(i as u64, w, x, sg));
                            }
                            i += w as i128;
                        }
                        Some(v)
                    } else {
                        None
                    }
                } else {
                    None
                }
            } else {
                so.blob(&st.dom, &s.off, &bytes)
            }
        } else {
            None
        };
        let dom = st.dom.clone();
        let blob = match blob {
            Some(b) => b,
            None => {
                st.lossy += 1;
                if self.o.trace {
                    eprintln!("COPY {:?}", self.here());
                }
                let t = new_tag("copy", None, None, false);
                vec![Ent::Region { start: Form::c(0), len: bytes.clone(), src: Src::Tag(t, Form::c(0)) }]
            }
        };
        self.obj_mut(st, di).write_blob(&dom, &d.off, &bytes, &blob);
        Ok(())
    }

    pub fn apply(&self, st: &State, alt: &[Con]) -> Option<State> {
        let mut s = st.clone();
        for c in alt {
            match c {
                Con::Ge0(f) => s.dom.add_ge0(f),
                Con::Eq0(f) => {
                    // boolean atoms carry their own meaning
                    let f2 = s.dom.norm(f);
                    if let Some((a, c)) = f2.single() {
                        if c.abs() == 1 && atom_range(a) == (0, 1) {
                            let v = if c == 1 { -f2.k } else { f2.k };
                            if v == 0 || v == 1 {
                                self.assume(&mut s.dom, &Form::atom(a), v == 1);
                                if s.dom.bot {
                                    return None;
                                }
                                continue;
                            }
                        }
                    }
                    s.dom.add_eq0(f)
                }
                Con::Ne0(f) => s.dom.add_ne0(f),
            }
            if s.dom.bot {
                return None;
            }
        }
        Some(s)
    }

    // ------------------------------------------------------------ blocks
    /// Executes block b; returns successor states.
    fn block(&mut self, fr: &Frame, st: State, b: usize) -> Vec<(State, Flow)> {
        let p = self.p;
        let body = p.fns[fr.f].body.as_ref().unwrap();
        let blk = &body.bs[b];
        self.blocks.insert((fr.f, b));
        let mut out = vec![];
        let mut work = vec![(st, 0usize)];
        while let Some((mut st, i)) = work.pop() {
            if self.steps > self.o.max_steps || (self.steps & 63 == 0 && (crowded() || self.start.elapsed().as_millis() as u64 > self.o.max_ms)) {
                if !self.dead {
                    self.dead = true;
                    self.give_up("step budget exhausted".into());
                }
                return out;
            }
            self.steps += 1;
            let mut i = i;
            let mut forked = false;
            while i < blk.s.len() {
                match self.stmt(&mut st, fr, &blk.s[i]) {
                    Ok(()) => i += 1,
                    Err(Fork(alts)) => {
                        for a in alts {
                            if let Some(s2) = self.apply(&st, &a) {
                                work.push((s2, i));
                            }
                        }
                        forked = true;
                        break;
                    }
                }
                if st.dom.bot {
                    forked = true;
                    break;
                }
            }
            if forked {
                continue;
            }
            match self.term(fr, &mut st, &blk.t) {
                Ok(v) => {
                    if v.is_empty() {
                        // moved below
                    }
                    out.extend(v);
                }
                Err(Fork(alts)) => {
                    for a in alts {
                        if let Some(s2) = self.apply(&st, &a) {
                            work.push((s2, blk.s.len()));
                        }
                    }
                }
            }
            if out.len() + work.len() > self.o.max_states * 4 {
                self.give_up("too many states".into());
                self.dead = true;
                return out;
            }
        }
        out
    }

    fn unwind(&mut self, st: State, uw: &Uw, msg: String) -> (State, Flow) {
        match uw {
            Uw::Continue => (st, Flow::Unwind(msg)),
            Uw::To(b) => {
                let mut st = st;
                // remember the message for the eventual resume
                st.note(format!("panic: {}", msg));
                (st, Flow::Jump(*b))
            }
            Uw::Terminate => (st, Flow::Abort(format!("panic in cleanup: {}", msg))),
            Uw::Unreachable => (st, Flow::Abort(msg)),
        }
    }

    fn term(&mut self, fr: &Frame, st: &mut State, t: &Term) -> R<Vec<(State, Flow)>> {
        let take = |st: &mut State| std::mem::take(st);
        match t {
            Term::Goto(b) => Ok(vec![(take(st), Flow::Jump(*b))]),
            Term::Switch(line, o, ty, cases, other) => {
                if let Some(x) = self.stack.last_mut() {
                    x.1 = *line;
                }
                let (v, _) = self.operand_val(st, fr, o)?;
                let sc = self.sc(*ty).unwrap_or(Sc::Int(false, 64));
                let f = self.as_int(st, v, sc);
                let dec = |raw: u128| -> i128 {
                    match sc {
                        Sc::Int(true, b) => {
                            let sh = 128 - b;
                            ((raw << sh) as i128) >> sh
                        }
                        _ => raw as i128,
                    }
                };
                if let Some(k) = st.dom.konst(&f) {
                    for (v, b) in cases {
                        if dec(*v) == k {
                            return Ok(vec![(take(st), Flow::Jump(*b))]);
                        }
                    }
                    return Ok(vec![(take(st), Flow::Jump(*other))]);
                }
                let mut out = vec![];
                let boolean = sc == Sc::Bool;
                for (v, b) in cases {
                    let mut s2 = st.clone();
                    if boolean {
                        self.assume(&mut s2.dom, &f, *v != 0);
                    } else {
                        s2.dom.add_eq0(&f.addc(-dec(*v)));
                    }
                    if !s2.dom.bot {
                        out.push((s2, Flow::Jump(*b)));
                    }
                }
                let mut s2 = take(st);
                if boolean {
                    for (v, _) in cases {
                        self.assume(&mut s2.dom, &f, *v == 0);
                    }
                } else {
                    for (v, _) in cases {
                        s2.dom.add_ne0(&f.addc(-dec(*v)));
                        if s2.dom.bot {
                            break;
                        }
                    }
                }
                if !s2.dom.bot {
                    out.push((s2, Flow::Jump(*other)));
                }
                Ok(out)
            }
            Term::Resume => {
                let s = take(st);
                let m = s
                    .notes
                    .iter()
                    .rev()
                    .find_map(|n| n.strip_prefix("panic: ").map(|x| x.to_string()))
                    .unwrap_or_default();
                Ok(vec![(s, Flow::Unwind(m))])
            }
            Term::Abort => Ok(vec![(take(st), Flow::Abort("abort".into()))]),
            Term::Ret => Ok(vec![(take(st), Flow::Ret)]),
            Term::Unreachable => {
                self.ob("unreachable", Stat::Unknown, || "reaches code marked unreachable".into());
                Ok(vec![])
            }
            Term::Asm => {
                self.give_up("inline assembly".into());
                Ok(vec![])
            }
            Term::Drop(line, pl, f, target, uw) => {
                if let Some(x) = self.stack.last_mut() {
                    x.1 = *line;
                }
                let Some(f) = f else { return Ok(vec![(take(st), Flow::Jump(*target))]) };
                let q = self.place(st, fr, pl)?;
                let ptr = match &q.obj {
                    PObj::Obj(o) => Val::Ptr(*o, q.off.clone()),
                    PObj::Addr(f) => Val::Int(f.clone()),
                    _ => Val::Top,
                };
                let mut ents = vec![cell(0, 8, ptr, false)];
                let mut size = 8;
                if let Some(m) = q.meta.clone() {
                    ents.push(cell(8, 8, m, false));
                    size = 16;
                }
                let arg = Arg { ty: q.ty, size, ents };
                let outs = self.call(take(st), *f, vec![arg], fr);
                Ok(outs
                    .into_iter()
                    .map(|(s, o)| match o {
                        Out::Ret(_) => (s, Flow::Jump(*target)),
                        Out::Unwind(m) => self.unwind(s, uw, m),
                        Out::Abort(m) => (s, Flow::Abort(m)),
                    })
                    .collect())
            }
            Term::Assert(line, o, exp, msg, target, uw) => {
                if let Some(x) = self.stack.last_mut() {
                    x.1 = *line;
                }
                let (v, _) = self.operand_val(st, fr, o)?;
                let f = self.as_int(st, v, Sc::Bool);
                let f = if *exp { f } else { Self::b_not(&f) };
                let kind: &'static str = if msg.starts_with("overflow") {
                    "overflow"
                } else if msg == "bounds" {
                    "index"
                } else if msg.starts_with("misaligned pointer") {
                    "align"
                } else if msg.starts_with("null pointer") {
                    "null"
                } else {
                    "assert"
                };
                if st.dom.konst(&f) == Some(1) {
                    self.ob(kind, Stat::Proved, String::new);
                    return Ok(vec![(take(st), Flow::Jump(*target))]);
                }
                let mut bad = st.clone();
                let feasible = self.assume(&mut bad.dom, &f, false);
                let mut out = vec![];
                if feasible {
                    bad.note(format!("assert {} fails in {}", msg, self.here().0));
                    let mut s = self.judge(&bad);
                    if kind == "align" {
                        // some addresses of the buffer satisfy it
                        for k in 1..4 {
                            if s == Stat::Unknown {
                                crate::wit::set_base((1 << 20) + k);
                                s = self.judge(&bad);
                            }
                        }
                        crate::wit::set_base(1 << 20);
                    }
                    self.ob(kind, s, || msg.clone());
                    let m = format!("{}: {}", kind, msg);
                    out.push(self.unwind(bad, uw, m));
                } else {
                    self.ob(kind, Stat::Proved, String::new);
                }
                let mut good = take(st);
                if self.assume(&mut good.dom, &f, true) {
                    out.push((good, Flow::Jump(*target)));
                }
                Ok(out)
            }
            Term::Call(line, callee, ops, dst, target, uw) => {
                if let Some(x) = self.stack.last_mut() {
                    x.1 = *line;
                }
                let mut args = vec![];
                for o in ops {
                    args.push(self.operand(st, fr, o)?);
                }
                let dty = self.place_ty(fr, dst);
                let f = match callee {
                    Callee::Fn(f) => Some(*f),
                    Callee::Ptr(o) => {
                        let (v, t) = self.operand_val(st, fr, o)?;
                        match (v, &self.p.tys[t].k) {
                            (_, TK::FnDef(Some(f))) => Some(*f),
                            (Val::Fn(f), _) => Some(f),
                            _ => None,
                        }
                    }
                    Callee::Virt(idx, _) => self.virt(st, *idx, &args),
                    Callee::Unres(_) => None,
                };
                // evaluate the destination before the call so that forks happen first
                let dpl = self.place(st, fr, dst)?;
                let outs = match f {
                    Some(f) => match self.model(st, f, &args, dty, fr)? {
                        Some(v) => v,
                        None => self.call(take(st), f, args, fr),
                    },
                    None => {
                        self.give_up(format!("unresolved call {:?}", callee_name(callee)));
                        let b = self.top_blob(dty, self.p.size(dty));
                        let mut s = take(st);
                        s.lossy += 1;
                        vec![(s, Out::Ret(b))]
                    }
                };
                let dsz = self.p.size(dty);
                let mut res = vec![];
                for (mut s, o) in outs {
                    match o {
                        Out::Ret(b) => {
                            let Some(tb) = target else { continue };
                            self.write_ents(&mut s, &dpl, dsz, &b);
                            res.push((s, Flow::Jump(*tb)));
                        }
                        Out::Unwind(m) => res.push(self.unwind(s, uw, m)),
                        Out::Abort(m) => res.push((s, Flow::Abort(m))),
                    }
                }
                Ok(res)
            }
        }
    }

    fn virt(&mut self, _st: &State, idx: usize, args: &[Arg]) -> Option<FnId> {
        // vtable constant
        let v = args.first()?.at(8, 8);
        if let Val::Ptr(o, _) = v {
            if o & GLOBAL != 0 {
                let ai = (o & !GLOBAL) as usize;
                let mem = match &self.p.allocs[ai] {
                    Alloc::Vtable(_, Some(m)) => *m,
                    Alloc::Mem(_) => ai,
                    _ => return None,
                };
                if let Alloc::Mem(b) = &self.p.allocs[mem] {
                    let off = 8 * (idx as u64);
                    for k in [off, off + 24] {
                        if let Some((_, t)) = b.p.iter().find(|(x, _)| *x == k) {
                            if let Alloc::Fn(f) = &self.p.allocs[*t] {
                                return Some(*f);
                            }
                        }
                    }
                }
            }
        }
        None
    }

    // ------------------------------------------------------------ calls
    pub fn call(&mut self, st: State, f: FnId, args: Vec<Arg>, _fr: &Frame) -> Vec<(State, Out)> {
        self.run_fn(st, f, args)
    }

    pub fn run_fn(&mut self, mut st: State, f: FnId, mut args: Vec<Arg>) -> Vec<(State, Out)> {
        let p = self.p;
        let func = &p.fns[f];
        self.called.insert(f);
        let Some(body) = &func.body else {
            self.give_up(format!("no body for {}", func.n));
            st.lossy += 1;
            return vec![(st, Out::Ret(vec![]))];
        };
        if self.stack.len() > 150 {
            self.give_up(format!("recursion too deep at {}", func.n));
            self.dead = true;
            return vec![];
        }
        if args.len() != body.argc {
            if body.spread.is_some() && args.len() + 1 > body.argc {
                // pack trailing arguments into the spread tuple
                let n = body.argc - 1;
                let tail: Vec<Arg> = args.drain(n..).collect();
                let tty = body.ls[body.argc];
                let l = p.tys[tty].l.as_ref();
                let mut tmp = blank(OKind::Local, Form::c(1 << 20), 16);
                for (i, a) in tail.iter().enumerate() {
                    let o = l.and_then(|l| l.offs.get(i).copied()).unwrap_or(0);
                    tmp.write_blob(&st.dom, &Form::c(o as i128), &Form::c(a.size as i128), &a.ents);
                }
                args.push(Arg { ty: tty, size: p.size(tty), ents: tmp.log.into_vec() });
            } else if let Some(last) = args.pop() {
                let t = &p.tys[last.ty];
                if t.k == TK::Tuple {
                    let l = t.l.as_ref().unwrap();
                    let fs = t.fs.first().cloned().unwrap_or_default();
                    let mut tmp = blank(OKind::Local, Form::c(1 << 20), 16);
                    tmp.log = last.ents.clone().into();
                    for (i, ft) in fs.iter().enumerate() {
                        let sz = p.size(*ft);
                        let e = tmp.blob(&st.dom, &Form::c(l.offs[i] as i128), &Form::c(sz as i128)).unwrap_or_default();
                        args.push(Arg { ty: *ft, size: sz, ents: e });
                    }
                } else {
                    args.push(last);
                }
            }
        }
        let base = st.stack.len() as u32;
        st.stack.resize(base as usize + body.ls.len(), None);
        let fr = Frame { f, base };
        for (i, a) in args.iter().enumerate() {
            let mut o = blank(OKind::Local, Form::c(1 << 20), 16);
            o.write_blob(&st.dom, &Form::c(0), &Form::c(a.size as i128), &a.ents);
            if 1 + i < body.ls.len() {
                st.stack[base as usize + 1 + i] = Some(Rc::new(o));
            }
        }
        self.stack.push((f, func.line));
        if self.o.trace {
            eprintln!("{:w$}> {}", "", func.n, w = self.stack.len());
        }
        let outs = self.region(&fr, vec![st], 0, None);
        self.stack.pop();
        let rsz = p.size(body.ls[0]);
        let mut res: Vec<(State, Out)> = vec![];
        for (mut s, fl) in outs {
            let o = match fl {
                Flow::Ret => {
                    let ret = match s.stack.get(base as usize) {
                        Some(Some(o)) => o.blob(&s.dom, &Form::c(0), &Form::c(rsz as i128)).unwrap_or_default(),
                        _ => vec![],
                    };
                    Out::Ret(ret)
                }
                Flow::Unwind(m) => Out::Unwind(m),
                Flow::Abort(m) => Out::Abort(m),
                _ => continue,
            };
            s.stack.truncate(base as usize);
            res.push((s, o));
        }
        self.merge_outs(&mut res, self.o.merge);
        if res.len() > self.o.join_at {
            self.merge_outs(&mut res, true);
            self.join_outs(&mut res);
        }
        if self.o.trace {
            eprintln!("{:w$}< {} ({} outcomes)", "", func.n, res.len(), w = self.stack.len() + 1);
        }
        res
    }

    fn merge_outs(&mut self, v: &mut Vec<(State, Out)>, force: bool) {
        if v.len() < 2 {
            return;
        }
        let mut i = 0;
        while i < v.len() {
            let mut j = i + 1;
            while j < v.len() {
                let same = match (&v[i].1, &v[j].1) {
                    (Out::Ret(a), Out::Ret(b)) => a == b,
                    (Out::Unwind(a), Out::Unwind(b)) => a == b,
                    (Out::Abort(a), Out::Abort(b)) => a == b,
                    _ => false,
                };
                if same && v[i].0.same_mem(&v[j].0) && {
                    let (x, y) = v.split_at_mut(j);
                    x[i].0.absorb(&y[0].0, force)
                } {
                    v.swap_remove(j);
                } else {
                    j += 1;
                }
            }
            i += 1;
        }
    }
    pub fn merge_states(&mut self, v: &mut Vec<State>, force: bool) {
        if v.len() < 2 {
            return;
        }
        let mut i = 0;
        while i < v.len() {
            let mut j = i + 1;
            while j < v.len() {
                if v[i].same_mem(&v[j]) && {
                    let (x, y) = v.split_at_mut(j);
                    x[i].absorb(&y[0], force)
                } {
                    v.swap_remove(j);
                } else {
                    j += 1;
                }
            }
            i += 1;
        }
    }

    /// Explores from `start` within a loop body (or the whole function).
    pub fn region(&mut self, fr: &Frame, sts: Vec<State>, start: usize, lp: Option<usize>) -> Vec<(State, Flow)> {
        let p = self.p;
        let body = p.fns[fr.f].body.as_ref().unwrap();
        let inside = lp.map(|h| &body.cfg.loops[&h]);
        let mut out = vec![];
        let mut pend: BTreeMap<usize, (usize, Vec<State>)> = BTreeMap::new();
        pend.insert(body.cfg.rpo[start], (start, sts));
        let mut first = true;
        while let Some((&k, _)) = pend.iter().next() {
            let (b, mut states) = pend.remove(&k).unwrap();
            if self.dead {
                return vec![];
            }
            for s in states.iter_mut() {
                for l in &body.kill[b] {
                    let i = fr.base as usize + l;
                    if i < s.stack.len() {
                        s.stack[i] = None;
                    }
                }
            }
            let force = self.o.merge;
            self.merge_states(&mut states, force);
            if states.len() > self.o.join_at {
                self.merge_states(&mut states, true);
                let l = self.o.join_at;
                self.join_states(&mut states, l);
            }
            if states.len() > self.o.max_states {
                self.give_up(format!("{} states at one block", states.len()));
                self.dead = true;
                return vec![];
            }
            let is_header = body.cfg.loops.contains_key(&b) && !(first && lp == Some(b));
            first = false;
            for st in states {
                let flows = if is_header { self.exec_loop(fr, st, b) } else { self.block(fr, st, b) };
                for (s, f) in flows {
                    if s.dom.bot {
                        continue;
                    }
                    match f {
                        Flow::Jump(t) => {
                            if lp == Some(t) {
                                out.push((s, Flow::Back));
                            } else if inside.map(|i| !i[t]).unwrap_or(false) {
                                out.push((s, Flow::Jump(t)));
                            } else {
                                pend.entry(body.cfg.rpo[t]).or_insert_with(|| (t, vec![])).1.push(s);
                            }
                        }
                        f => out.push((s, f)),
                    }
                }
            }
        }
        out
    }
}

pub fn callee_name(c: &Callee) -> String {
    match c {
        Callee::Fn(f) => format!("fn {}", f),
        Callee::Virt(i, n) => format!("virtual {} #{}", n, i),
        Callee::Unres(n) => n.clone(),
        Callee::Ptr(_) => "fn pointer".into(),
    }
}
