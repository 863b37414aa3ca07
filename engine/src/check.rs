//! Check framework: contexts (jobs), postconditions, verdicts, evidence.
use crate::ctx::*;
use crate::exec::*;
use crate::mem::*;
use crate::num::*;
use crate::prog::*;
use crate::wit;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicUsize, Ordering as AO};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Description of one argument of an entry point.
#[derive(Clone, Debug)]
pub enum In {
    N(Sh, NumOpt),
    I(i128, i128),
    /// a constant float class ("nan", "inf", "fin")
    F(&'static str),
    /// a number within bounds, its size
    Fr(f64, f64, u64),
    /// text of n bytes between lo and hi
    Text(i128, i128, i128),
    /// exactly these bytes
    Lit(&'static str),
    /// text given by the classes of its bytes
    Chars(Vec<(i128, i128)>),
    /// any bytes: length, alignment of their address
    Raw(i128, u64),
    Opaque,
    /// an enum (or struct around one) with a fixed variant name
    Variant(&'static str),
    De(bool, u8, Box<In>, Box<In>),
}
#[derive(Clone, Debug)]
pub enum InV {
    N(Num),
    I(Form),
    Bytes { tag: u32, len: Form },
    Other,
}
impl InV {
    pub fn num(&self) -> &Num {
        match self {
            InV::N(n) => n,
            _ => panic!("not a number"),
        }
    }
    pub fn int(&self) -> &Form {
        match self {
            InV::I(f) => f,
            _ => panic!("not an integer"),
        }
    }
}

/// A decoded outcome.
#[derive(Clone, Debug)]
pub enum RV {
    Num(Res),
    Absent,
    /// error variant name
    Err(String),
    Int(Form),
    Unit,
    Float(Form),
    Ref(Val, Form),
    Raw(Vec<Ent>),
    Panic(String),
    Abort(String),
    Unknown,
}

#[derive(Default, Clone)]
pub struct Rep {
    pub proved: u64,
    pub undecided: BTreeMap<String, u64>,
    pub failed: BTreeMap<String, String>,
    pub rules: BTreeMap<String, u64>,
    pub jobs: u64,
    pub complete: u64,
    pub skipped: u64,
    pub outcomes: u64,
    pub steps: u64,
    pub fns: BTreeSet<String>,
    pub blocks: u64,
    pub incomplete: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub lossless: u64,
    pub slow: Vec<(u64, String)>,
}
impl Rep {
    pub fn merge(&mut self, o: Rep) {
        self.proved += o.proved;
        for (k, v) in o.undecided {
            *self.undecided.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.rules {
            *self.rules.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.failed {
            self.failed.entry(k).or_insert(v);
        }
        for (k, v) in o.incomplete {
            *self.incomplete.entry(k).or_insert(0) += v;
        }
        self.jobs += o.jobs;
        self.complete += o.complete;
        self.skipped += o.skipped;
        self.outcomes += o.outcomes;
        self.steps += o.steps;
        self.lossless += o.lossless;
        self.fns.extend(o.fns);
        self.blocks += o.blocks;
        if self.samples.len() < 12 {
            self.samples.extend(o.samples);
        }
        self.slow.extend(o.slow);
    }
    pub fn und_total(&self) -> u64 {
        self.undecided.values().sum()
    }
}

/// Inherent obligations (checked at every step of the interpreter) a check reports.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Inh {
    None,
    /// listed kinds
    Kinds(&'static [&'static str]),
}

pub struct Case<'p> {
    pub s: Sess<'p>,
    pub root: String,
    pub f: FnId,
    pub ctx: String,
    pub ins: Vec<InV>,
    pub args: Vec<Arg>,
    pub outs: Vec<(State, Out)>,
    pub rep: Rep,
    pub debug: bool,
}

pub type Post = Arc<dyn Fn(&mut Case) + Send + Sync>;

#[derive(Clone)]
pub struct Job {
    pub root: String,
    pub ctx: String,
    pub ins: Vec<In>,
    pub opts: Opts,
    pub be: bool,
    pub inh: Inh,
    pub post: Post,
    pub hook: Option<HookMk>,
    pub pre: Option<Pre>,
}
pub type HookMk = Arc<dyn Fn(&Prog) -> Hook + Send + Sync>;
/// Restricts the context after the arguments are built.
pub type Pre = Arc<dyn Fn(&mut Sess, &[InV]) + Send + Sync>;

pub fn job(root: &str, ctx: &str, ins: Vec<In>, opts: Opts, post: impl Fn(&mut Case) + Send + Sync + 'static) -> Job {
    Job {
        root: format!("root_{}", root),
        ctx: ctx.into(),
        ins,
        opts,
        be: false,
        inh: Inh::None,
        post: Arc::new(post),
        hook: None,
        pre: None,
    }
}
impl Job {
    pub fn pre(mut self, f: impl Fn(&mut Sess, &[InV]) + Send + Sync + 'static) -> Job {
        self.pre = Some(Arc::new(f));
        self
    }
    pub fn inh(mut self, k: &'static [&'static str]) -> Job {
        self.inh = Inh::Kinds(k);
        self
    }
    pub fn be(mut self) -> Job {
        self.be = true;
        self
    }
}

pub fn ge(f: &Form) -> Con {
    Con::Ge0(f.clone())
}
pub fn lt0(f: &Form) -> Con {
    Con::Ge0(f.neg().addc(-1))
}
pub fn gt0(f: &Form) -> Con {
    Con::Ge0(f.addc(-1))
}
pub fn eq0(f: &Form) -> Con {
    Con::Eq0(f.clone())
}
pub fn ne0(f: &Form) -> Con {
    Con::Ne0(f.clone())
}
pub fn with(st: &State, cs: &[Con]) -> State {
    let mut s = st.clone();
    for c in cs {
        match c {
            Con::Ge0(f) => s.dom.add_ge0(f),
            Con::Eq0(f) => s.dom.add_eq0(f),
            Con::Ne0(f) => s.dom.add_ne0(f),
        }
    }
    s
}

pub const NAMES: [&str; 5] = ["a", "b", "c", "d", "e"];

impl<'p> Case<'p> {
    /// The violation of a rule is described by a disjunction of conjunctions.
    pub fn require(&mut self, rule: &str, st: &State, neg: &[Vec<Con>]) {
        *self.rep.rules.entry(rule.into()).or_insert(0) += 1;
        let mut und = false;
        for n in neg {
            let bad = with(st, n);
            if bad.dom.bot {
                continue;
            }
            match wit::witness(&bad) {
                Some(w) => {
                    if self.debug {
                        eprintln!("  FAIL {} {:?} facts {:?} sub {:?}", rule, n, bad.dom.facts, bad.dom.sub);
                    }
                    self.fail(rule, &w);
                    return;
                }
                None => {
                    und = true;
                    if self.debug {
                        eprintln!("  undecided {} {} [{}] lossy={} approx={} neg {:?}\n      facts {:?}\n      sub {:?}", self.root, rule, self.ctx, st.lossy, st.approx, n, bad.dom.facts, bad.dom.sub);
                    }
                }
            }
        }
        if und {
            *self.rep.undecided.entry(format!("{} {}", self.root, rule)).or_insert(0) += 1;
        } else {
            self.rep.proved += 1;
        }
    }
    pub fn fail(&mut self, rule: &str, w: &str) {
        let k = format!("{} {}", self.root, rule);
        let d = format!("context [{}]; member: {}", self.ctx, w);
        self.rep.failed.entry(k).or_insert(d);
    }
    /// This partition must be empty.
    pub fn never(&mut self, rule: &str, st: &State) {
        self.require(rule, st, &[vec![]]);
    }
    /// Known to hold by construction of the outcome.
    pub fn ok(&mut self, rule: &str) {
        *self.rep.rules.entry(rule.into()).or_insert(0) += 1;
        self.rep.proved += 1;
    }
    pub fn undecided(&mut self, rule: &str) {
        if self.debug {
            eprintln!("  undecided {} {} [{}]", self.root, rule, self.ctx);
        }
        *self.rep.rules.entry(rule.into()).or_insert(0) += 1;
        *self.rep.undecided.entry(format!("{} {}", self.root, rule)).or_insert(0) += 1;
    }
    pub fn check(&mut self, rule: &str, st: &State, ok: bool) {
        if ok {
            self.ok(rule)
        } else {
            self.never(rule, st)
        }
    }
    pub fn must_eq(&mut self, rule: &str, st: &State, a: &Form, b: &Form) {
        if st.dom.eq(a, b) {
            return self.ok(rule);
        }
        let d = a.sub(b);
        self.require(rule, st, &[vec![gt0(&d)], vec![lt0(&d)]]);
    }
    pub fn must_ge0(&mut self, rule: &str, st: &State, f: &Form) {
        self.require(rule, st, &[vec![lt0(f)]]);
    }

    /// Builds the arguments of a (further) root sharing the numbers of this case.
    pub fn build(&mut self, f: FnId, ins: &[InV], specs: &[In]) -> Option<Vec<Arg>> {
        let ps = self.s.params(f);
        let mut v = vec![];
        for (i, t) in ps.iter().enumerate() {
            match ins.get(i) {
                Some(InV::N(n)) => v.push(self.s.num_arg(*t, &n.clone())?),
                Some(InV::I(x)) => {
                    let sc = self.s.ex.sc(*t)?;
                    v.push(Arg::scalar(self.s.ex.p.size(*t), *t, Val::Int(x.clone()), sc.signed()));
                }
                _ => match specs.get(i) {
                    Some(sp) => v.push(mk_in(&mut self.s, *t, NAMES[i], sp)?.0),
                    None => v.push(self.s.opaque_arg(*t)),
                },
            }
        }
        Some(v)
    }
    /// Runs another root on the same inputs, continuing from st.
    pub fn again(&mut self, root: &str, st: &State, ins: &[InV]) -> Option<(FnId, Vec<Arg>, Vec<(State, Out)>)> {
        let f = root_fn(self.s.ex.p, root)?;
        let keep = self.s.st.clone();
        self.s.st = st.clone();
        Rc_clear(&mut self.s.st);
        let a = self.build(f, ins, &[]);
        let st1 = self.s.st.clone();
        self.s.st = keep;
        let a = a?;
        let outs = self.s.ex.run_fn(st1, f, a.clone());
        Some((f, a, outs))
    }

    pub fn decode(&mut self, f: FnId, args: &[Arg], st: &State, o: &Out) -> Vec<(State, RV)> {
        match o {
            Out::Unwind(m) => vec![(st.clone(), RV::Panic(m.clone()))],
            Out::Abort(m) => vec![(st.clone(), RV::Abort(m.clone()))],
            Out::Ret(e) => {
                let ty = self.s.ret_ty(f);
                let p = self.s.ex.p;
                let t = &p.tys[ty];
                let unit = p.size(ty) == 0;
                // in-place operations: the result is the left operand
                if unit {
                    let ps = self.s.params(f);
                    if let Some(t0) = ps.first() {
                        if let TK::Ptr { e, mutable: true, .. } = &p.tys[*t0].k {
                            if p.tys[*e].adt.ends_with("NumericBuf") {
                                return self.arg_buf(st, &args[0]);
                            }
                        }
                    }
                    return vec![(st.clone(), RV::Unit)];
                }
                self.decode_ty(st, ty, e, t)
            }
        }
    }
    pub fn arg_buf(&mut self, st: &State, a: &Arg) -> Vec<(State, RV)> {
        let Val::Ptr(id, off) = a.at(0, 8) else { return vec![(st.clone(), RV::Unknown)] };
        let ty = self.s.buf_ty().unwrap();
        let sz = self.s.ex.p.size(ty);
        let ob = self.s.ex.obj(st, id);
        match ob.blob(&st.dom, &off, &Form::c(sz as i128)) {
            Some(e) => self.nums(st, &e),
            None => vec![(st.clone(), RV::Unknown)],
        }
    }
    fn nums(&mut self, st: &State, e: &[Ent]) -> Vec<(State, RV)> {
        match self.s.decode_buf(st, e) {
            Some(v) => v.into_iter().map(|(s, r)| (s, RV::Num(r))).collect(),
            None => vec![(st.clone(), RV::Unknown)],
        }
    }
    fn decode_ty(&mut self, st: &State, ty: TyId, e: &[Ent], t: &Ty) -> Vec<(State, RV)> {
        let p = self.s.ex.p;
        if t.adt.ends_with("NumericBuf") {
            return self.nums(st, e);
        }
        if t.k == TK::Enum && t.n.contains("Ordering") {
            let a = Arg { ty, size: p.size(ty), ents: e.to_vec() };
            return match a.at(0, p.size(ty)) {
                Val::Int(f) => vec![(st.clone(), RV::Int(f))],
                _ => vec![(st.clone(), RV::Unknown)],
            };
        }
        if t.k == TK::Enum && (t.n.contains("Option") || t.n.contains("Result")) {
            let mut res = vec![];
            for (s, v, pay) in self.s.variants(st.clone(), ty, e) {
                let vn = t.vn.get(v).cloned().unwrap_or_default();
                match vn.as_str() {
                    "None" => res.push((s, RV::Absent)),
                    "Err" => {
                        let k = t.fs.get(v).and_then(|f| f.first()).map(|et| self.err_name(&s, *et, &pay));
                        for (s2, n) in k.unwrap_or_else(|| vec![(s.clone(), "?".into())]) {
                            res.push((s2, RV::Err(n)));
                        }
                    }
                    _ => {
                        if let Some(ft) = t.fs.get(v).and_then(|f| f.first()) {
                            let tt = &p.tys[*ft];
                            res.extend(self.decode_ty(&s, *ft, &pay, tt));
                        } else {
                            res.push((s, RV::Raw(pay)));
                        }
                    }
                }
            }
            return res;
        }
        if p.size(ty) == 0 {
            return vec![(st.clone(), RV::Unit)];
        }
        if let Some(sc) = self.s.ex.sc(ty) {
            let a = Arg { ty, size: p.size(ty), ents: e.to_vec() };
            return match (sc, a.at(0, p.size(ty))) {
                (_, Val::Int(f)) => vec![(st.clone(), RV::Int(f))],
                (_, Val::Float(f)) => vec![(st.clone(), RV::Float(f))],
                _ => vec![(st.clone(), RV::Unknown)],
            };
        }
        if let TK::Ptr { .. } = t.k {
            let a = Arg { ty, size: 16, ents: e.to_vec() };
            if let (v, Val::Int(l)) = (a.at(0, 8), a.at(8, 8)) {
                return vec![(st.clone(), RV::Ref(v, l))];
            }
        }
        vec![(st.clone(), RV::Raw(e.to_vec()))]
    }
    pub fn err_of(&mut self, st: &State, ty: TyId, e: &[Ent]) -> Vec<(State, String)> {
        self.err_name(st, ty, e)
    }
    fn err_name(&mut self, st: &State, ty: TyId, e: &[Ent]) -> Vec<(State, String)> {
        let p = self.s.ex.p;
        let t = &p.tys[ty];
        match t.k {
            TK::Enum => self
                .s
                .variants(st.clone(), ty, e)
                .into_iter()
                .map(|(s, v, _)| (s, t.vn.get(v).cloned().unwrap_or_default()))
                .collect(),
            TK::Struct => {
                // the kind is the only field with a size
                for (i, f) in t.fs.first().map(|x| x.as_slice()).unwrap_or(&[]).iter().enumerate() {
                    if p.size(*f) > 0 && p.tys[*f].k == TK::Enum {
                        let o = t.l.as_ref().and_then(|l| l.offs.get(i).copied()).unwrap_or(0);
                        let mut ob = blank(OKind::Local, Form::c(p.size(ty) as i128), 16);
                        ob.log = (e.to_vec()).into();
                        if let Some(b) = ob.blob(&st.dom, &Form::c(o as i128), &Form::c(p.size(*f) as i128)) {
                            return self.err_name(st, *f, &b);
                        }
                    }
                }
                vec![(st.clone(), t.n.clone())]
            }
            _ => vec![(st.clone(), t.n.clone())],
        }
    }

    /// Decoded outcomes of the case's own root.
    pub fn results(&mut self) -> Vec<(State, RV)> {
        let outs = std::mem::take(&mut self.outs);
        let f = self.f;
        let args = self.args.clone();
        let mut v = vec![];
        for (st, o) in &outs {
            v.extend(self.decode(f, &args, st, o));
        }
        self.outs = outs;
        v
    }

    /// Enumerates the values of f when there are few.
    pub fn concretise(&self, st: &State, f: &Form, max: i128) -> Option<Vec<(State, i128)>> {
        let f = st.dom.norm(f);
        if let Some(k) = f.konst() {
            return Some(vec![(st.clone(), k)]);
        }
        let (l, h) = st.dom.bounds(&f);
        if l == NINF || h == PINF || h - l > max {
            return None;
        }
        let mut v = vec![];
        for x in l..=h {
            let s = with(st, &[eq0(&f.addc(-x))]);
            if !s.dom.bot {
                v.push((s, x));
            }
        }
        Some(v)
    }
    /// Fixes weight and digit count of results.
    pub fn fix(&mut self, st: &State, r: &Res) -> Option<Vec<(State, Res, i128, i128)>> {
        let mut v = vec![];
        for (s, nd) in self.concretise(st, &r.nd, 12)? {
            for (s2, w) in self.concretise(&s, &r.w, 12)? {
                let mut r2 = r.clone();
                r2.nd = Form::c(nd);
                r2.w = Form::c(w);
                v.push((s2, r2, nd, w));
            }
        }
        Some(v)
    }
    /// Digits of a result with known digit count.
    pub fn digits(&mut self, st: &State, r: &Res, nd: i128) -> Vec<(State, Vec<Form>)> {
        let mut v = vec![(st.clone(), vec![])];
        for i in 0..nd.max(0) {
            let mut n = vec![];
            for (s, ds) in v {
                for (s2, d) in self.s.digit(&s, r, &Form::c(i)) {
                    let mut ds = ds.clone();
                    ds.push(d);
                    n.push((s2, ds));
                }
            }
            v = n;
        }
        v
    }
    /// |value| * 10000^k of a result, per partition; None when out of range.
    pub fn scaled(&mut self, st: &State, r: &Res, k: i128) -> Option<Vec<(State, Form)>> {
        let mut out = vec![];
        for (s, r, nd, w) in self.fix(st, r)? {
            for (s2, ds) in self.digits(&s, &r, nd) {
                let f = combine(&ds, w, k)?;
                let f = if r.neg { f.neg() } else { f };
                out.push((s2, f));
            }
        }
        Some(out)
    }
    /// Text written to the formatter, as (pieces).
    pub fn panics(rv: &RV) -> Option<&str> {
        match rv {
            RV::Panic(m) | RV::Abort(m) => Some(m),
            _ => None,
        }
    }
}
#[allow(non_snake_case)]
fn Rc_clear(st: &mut State) {
    st.events = Default::default();
    st.notes = Default::default();
}

pub fn root_fn(p: &Prog, n: &str) -> Option<FnId> {
    let n = if n.starts_with("root_") { n.to_string() } else { format!("root_{}", n) };
    p.roots.get(&n).copied()
}

pub fn pow10(n: i128) -> Option<i128> {
    if !(0..=36).contains(&n) {
        return None;
    }
    Some(10i128.pow(n as u32))
}
/// sum of digits scaled by 10000^(w - i + k)
pub fn combine(ds: &[Form], w: i128, k: i128) -> Option<Form> {
    let mut f = Form::c(0);
    for (i, d) in ds.iter().enumerate() {
        let e = w - i as i128 + k;
        if e < 0 {
            // a digit below the resolution must be zero
            return None;
        }
        f = f.lin(1, d, pow10(4 * e)?)?;
    }
    Some(f)
}
pub fn in_digit(n: &Num, i: i128) -> Form {
    Form::atom(mk_atom(Kind::Read(n.tag, Form::c(2 * i), 2, true), 0, 9999))
}
/// signed value of an input times 10000^k (nd and weight constant)
pub fn in_scaled(n: &Num, k: i128) -> Option<Form> {
    if n.sh.nan() {
        return None;
    }
    let nd = n.nd.konst()?;
    if nd == 0 {
        return Some(Form::c(0));
    }
    let w = n.w.konst()?;
    let ds: Vec<Form> = (0..nd).map(|i| in_digit(n, i)).collect();
    let f = combine(&ds, w, k)?;
    Some(if n.sh.sign() < 0 { f.neg() } else { f })
}

pub fn mk_in(s: &mut Sess, ty: TyId, name: &str, i: &In) -> Option<(Arg, InV)> {
    let p = s.ex.p;
    match i {
        In::N(sh, o) => {
            let n = s.value(name, *sh, o);
            let a = s.num_arg(ty, &n)?;
            Some((a, InV::N(n)))
        }
        In::I(l, h) => {
            let sc = s.ex.sc(ty)?;
            let (a, b) = sc.range();
            let f = s.int(name, (*l).max(a), (*h).min(b));
            Some((Arg::scalar(p.size(ty), ty, Val::Int(f.clone()), sc.signed()), InV::I(f)))
        }
        In::F(c) => {
            let f = input(&format!("{}:{}", c, name), NINF, PINF);
            Some((Arg::scalar(p.size(ty), ty, Val::Float(f.clone()), false), InV::I(f)))
        }
        In::Fr(l, h, z) => {
            let f = frange(*l, *h, *z);
            Some((Arg::scalar(p.size(ty), ty, Val::Float(f.clone()), false), InV::I(f)))
        }
        In::Text(n, l, h) => {
            let (a, tag) = s.bytes_arg(ty, name, Form::c(*n), *l, *h);
            Some((a, InV::Bytes { tag, len: Form::c(*n) }))
        }
        In::Lit(t) => {
            let b = t.as_bytes();
            let (a, tag) = s.bytes_arg(ty, name, Form::c(b.len() as i128), 0, 127);
            for (i, c) in b.iter().enumerate() {
                let x = Form::atom(mk_atom(Kind::Read(tag, Form::c(i as i128), 1, false), 0, 127));
                s.st.dom.add_eq0(&x.addc(-(*c as i128)));
            }
            Some((a, InV::Bytes { tag, len: Form::c(b.len() as i128) }))
        }
        In::Chars(cs) => {
            let (a, tag) = s.bytes_arg(ty, name, Form::c(cs.len() as i128), 0, 255);
            for (i, (l, h)) in cs.iter().enumerate() {
                let x = Form::atom(mk_atom(Kind::Read(tag, Form::c(i as i128), 1, false), 0, 255));
                if l == h {
                    s.st.dom.add_eq0(&x.addc(-l));
                } else {
                    s.st.dom.add_ge0(&x.addc(-l));
                    s.st.dom.add_ge0(&x.neg().addc(*h));
                }
            }
            Some((a, InV::Bytes { tag, len: Form::c(cs.len() as i128) }))
        }
        In::Raw(n, al) => {
            let (a, tag) = s.bytes_arg(ty, name, Form::c(*n), 0, 255);
            if let Val::Ptr(o, _) = a.at(0, 8) {
                let st = &mut s.st;
                s.ex.obj_mut(st, o).align = *al;
            }
            Some((a, InV::Bytes { tag, len: Form::c(*n) }))
        }
        In::Opaque => Some((s.opaque_arg(ty), InV::Other)),
        In::Variant(v) => {
            // find the enum inside
            let (mut t, mut off) = (ty, 0u64);
            let mut by_ref = false;
            if let TK::Ptr { e, .. } = &p.tys[t].k {
                t = *e;
                by_ref = true;
            }
            let outer = t;
            while p.tys[t].k == TK::Struct {
                let fs = p.tys[t].fs.first()?;
                let i = fs.iter().position(|f| p.size(*f) > 0)?;
                off += p.tys[t].l.as_ref()?.offs.get(i).copied().unwrap_or(0);
                t = fs[i];
            }
            let vi = p.tys[t].vn.iter().position(|n| n == v)?;
            let sz = p.size(t);
            if sz != 1 {
                return None;
            }
            let ents = vec![cell(off, 1, Val::Int(Form::c(vi as i128)), false)];
            if by_ref {
                let v = s.holder(name, ents, p.size(outer), true);
                Some((Arg::scalar(8, ty, v, false), InV::Other))
            } else {
                Some((Arg { ty, size: p.size(outer), ents }, InV::Other))
            }
        }
        In::De(human, how, tx, by) => {
            let fs = p.tys[ty].fs.first()?.clone();
            let offs = p.tys[ty].l.as_ref()?.offs.clone();
            let mut ents = vec![];
            let mut iv = InV::Other;
            for (i, f) in fs.iter().enumerate() {
                let sz = p.size(*f);
                match (sz, i) {
                    (1, 0) => ents.push(cell(offs[i], 1, Val::Int(Form::c(*human as i128)), false)),
                    (1, _) => ents.push(cell(offs[i], 1, Val::Int(Form::c(*how as i128)), false)),
                    (_, 2) => {
                        let (a, v) = mk_in(s, *f, "s", tx)?;
                        if *how < 2 {
                            iv = v;
                        }
                        ents.push(cell(offs[i], 8, a.at(0, 8), false));
                        ents.push(cell(offs[i] + 8, 8, a.at(8, 8), false));
                    }
                    _ => {
                        let (a, v) = mk_in(s, *f, "s", by)?;
                        if *how >= 2 {
                            iv = v;
                        }
                        ents.push(cell(offs[i], 8, a.at(0, 8), false));
                        ents.push(cell(offs[i] + 8, 8, a.at(8, 8), false));
                    }
                }
            }
            Some((Arg { ty, size: p.size(ty), ents }, iv))
        }
    }
}

fn run_job(p: &Prog, j: &Job, debug: bool) -> Rep {
    let mut rep = Rep { jobs: 1, ..Rep::default() };
    let Some(f) = root_fn(p, &j.root) else {
        rep.incomplete.insert(format!("entry point {} missing", j.root), 1);
        return rep;
    };
    if debug {
        eprintln!("job {} [{}]", j.root, j.ctx);
    }
    let t0 = Instant::now();
    set_limit(Some(t0 + Duration::from_millis(2 * j.opts.max_ms)));
    let mut s = Sess::new(p, j.opts.clone());
    s.be = j.be;
    if let Some(h) = &j.hook {
        s.ex.hook = Some(h(p));
    }
    let ps = s.params(f);
    let mut args = vec![];
    let mut ins = vec![];
    for (i, t) in ps.iter().enumerate() {
        let sp = j.ins.get(i).cloned().unwrap_or(In::Opaque);
        match mk_in(&mut s, *t, NAMES[i], &sp) {
            Some((a, v)) => {
                args.push(a);
                ins.push(v);
            }
            None => {
                rep.incomplete.insert(format!("argument {} of {} not understood", i, j.root), 1);
                return rep;
            }
        }
    }
    if let Some(pre) = &j.pre {
        pre(&mut s, &ins);
    }
    if s.st.dom.bot {
        // empty context
        rep.complete = 1;
        return rep;
    }
    let outs = s.run(f, args.clone());
    let mut c = Case { s, root: j.root.clone(), f, ctx: j.ctx.clone(), ins, args, outs, rep, debug };
    (j.post)(&mut c);
    let mut rep = c.rep;
    rep.outcomes += c.outs.len() as u64;
    rep.lossless += c.outs.iter().filter(|(s, _)| s.lossy == 0 && s.approx == 0).count() as u64;
    rep.steps += c.s.ex.steps;
    for f in &c.s.ex.called {
        if p.fns[*f].krate == "pgnumeric" {
            rep.fns.insert(p.fns[*f].d.clone());
        }
    }
    rep.blocks += c.s.ex.blocks.len() as u64;
    if c.s.ex.incomplete.is_empty() {
        rep.complete += 1;
    } else {
        for i in &c.s.ex.incomplete {
            *rep.incomplete.entry(format!("{}: {}", j.root, i)).or_insert(0) += 1;
        }
    }
    if is_late() {
        *rep.incomplete.entry(format!("{}: time limit of the context", j.root)).or_insert(0) += 1;
    }
    if let Inh::Kinds(ks) = j.inh {
        for o in &c.s.ex.obs {
            if !ks.iter().any(|k| *k == o.kind || (k.ends_with('*') && o.kind.starts_with(&k[..k.len() - 1]))) {
                continue;
            }
            *rep.rules.entry(o.kind.to_string()).or_insert(0) += 1;
            match o.stat {
                Stat::Proved => rep.proved += 1,
                Stat::Unknown => *rep.undecided.entry(format!("{} {}", o.func, o.kind)).or_insert(0) += 1,
                Stat::Failed => {
                    let k = format!("{} {}", o.func, o.kind);
                    rep.failed.entry(k).or_insert(format!(
                        "line {}: {} (entry point {}, context [{}])",
                        o.line, o.detail, j.root, j.ctx
                    ));
                }
            }
        }
    }
    let ms = t0.elapsed().as_millis() as u64;
    if debug {
        eprintln!("   {} ms, {} outcomes, incomplete {:?}", ms, rep.outcomes, rep.incomplete);
    }
    rep.slow.push((ms, format!("{} [{}]", j.root, j.ctx)));
    rep.samples.push(format!("{} [{}]: {} outcomes, {} obligations proved", j.root, j.ctx, rep.outcomes, rep.proved));
    rep
}

pub fn run_jobs(p: &Prog, pbe: Option<&Prog>, jobs: &[Job], threads: usize, secs: u64, debug: bool) -> Rep {
    let next = AtomicUsize::new(0);
    let total = Mutex::new(Rep::default());
    let end = Instant::now() + Duration::from_secs(secs);
    let done = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|sc| {
        let mut hs = vec![];
        sc.spawn(|| watch(&done));
        for _ in 0..threads {
            let h = std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, AO::SeqCst);
                    let Some(j) = jobs.get(i) else { break };
                    let prog = if j.be { pbe.unwrap_or(p) } else { p };
                    let r = if Instant::now() > end {
                        Rep { jobs: 1, skipped: 1, ..Rep::default() }
                    } else {
                        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_job(prog, j, debug))) {
                            Ok(r) => r,
                            Err(_) => {
                                let mut r = Rep { jobs: 1, ..Rep::default() };
                                r.incomplete.insert(format!("analyser fault on {} [{}]", j.root, j.ctx), 1);
                                r
                            }
                        }
                    };
                    total.lock().unwrap().merge(r);
                })
                .unwrap();
            hs.push(h);
        }
        for h in hs {
            let _ = h.join();
        }
        done.store(true, AO::SeqCst);
    });
    total.into_inner().unwrap()
}
