//! Contexts: symbolic arguments of the entry points and decoding of results.
use crate::exec::*;
use crate::mem::*;
use crate::num::*;
use crate::prog::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Sh {
    Nan,
    /// zero, short or long header
    Zero { long: bool },
    /// nonzero value
    Val { neg: bool, long: bool },
}
impl Sh {
    pub fn s(&self) -> String {
        match self {
            Sh::Nan => "nan".into(),
            Sh::Zero { long } => format!("zero{}", if *long { "L" } else { "S" }),
            Sh::Val { neg, long } => format!("{}{}", if *neg { "neg" } else { "pos" }, if *long { "L" } else { "S" }),
        }
    }
    pub fn nan(&self) -> bool {
        *self == Sh::Nan
    }
    pub fn zero(&self) -> bool {
        matches!(self, Sh::Zero { .. })
    }
    /// -1, 0, 1
    pub fn sign(&self) -> i32 {
        match self {
            Sh::Val { neg: true, .. } => -1,
            Sh::Val { neg: false, .. } => 1,
            _ => 0,
        }
    }
    pub const FINITE: [Sh; 6] = [
        Sh::Zero { long: false },
        Sh::Zero { long: true },
        Sh::Val { neg: false, long: false },
        Sh::Val { neg: true, long: false },
        Sh::Val { neg: false, long: true },
        Sh::Val { neg: true, long: true },
    ];
    pub const ALL: [Sh; 7] = [
        Sh::Nan,
        Sh::Zero { long: false },
        Sh::Zero { long: true },
        Sh::Val { neg: false, long: false },
        Sh::Val { neg: true, long: false },
        Sh::Val { neg: false, long: true },
        Sh::Val { neg: true, long: true },
    ];
    pub const SHORT: [Sh; 3] =
        [Sh::Zero { long: false }, Sh::Val { neg: false, long: false }, Sh::Val { neg: true, long: false }];
}

/// Options refining an input value.
#[derive(Clone, Debug, Default)]
pub struct NumOpt {
    /// fixed number of digits
    pub nd: Option<i128>,
    /// do not assume the first and last digits are nonzero
    pub loose: bool,
    /// fixed digits
    pub digits: Option<Vec<i128>>,
    pub w: Option<(i128, i128)>,
    pub ds: Option<(i128, i128)>,
    /// weight of zero values left arbitrary
    pub any_zero_weight: bool,
    /// elements of the block outside the value never written
    pub fresh: bool,
    /// digits other than the first, a middle and the last are 9999 (1) or 0 and 1 (2)
    pub pat: u8,
}

#[derive(Clone, Debug)]
pub struct Num {
    pub sh: Sh,
    pub name: String,
    pub ds: Form,
    pub w: Form,
    pub nd: Form,
    pub tag: u32,
    pub total: Form,
    pub hs: i128,
    pub hdr: Form,
    pub fresh: bool,
}

#[derive(Clone, Debug)]
pub struct Res {
    pub nan: bool,
    pub neg: bool,
    pub long: bool,
    pub ds: Form,
    pub w: Form,
    pub nd: Form,
    pub total: Form,
    pub obj: ObjId,
    pub off: Form,
    /// offset of digits
    pub dig: Form,
    pub buf_off: Form,
    pub buf_len: Form,
}

pub struct Sess<'p> {
    pub ex: Ex<'p>,
    pub st: State,
    pub be: bool,
}

pub fn root(p: &Prog, n: &str) -> Option<FnId> {
    p.roots.get(n).copied()
}

impl<'p> Sess<'p> {
    pub fn new(p: &'p Prog, o: Opts) -> Self {
        reset_interner();
        Sess { ex: Ex::new(p, o), st: State::default(), be: false }
    }

    pub fn int(&mut self, name: &str, lo: i128, hi: i128) -> Form {
        if lo == hi {
            Form::c(lo)
        } else {
            input(name, lo, hi)
        }
    }
    pub fn len_word(&self, total: &Form) -> Form {
        if self.be {
            if let Some(k) = total.konst() {
                return Form::c((k as u32).swap_bytes() as i128);
            }
            Form::atom(mk_atom(Kind::Op("bswap", vec![total.clone(), Form::c(32)]), 0, u32::MAX as i128))
        } else {
            total.mulc(4).unwrap()
        }
    }

    pub fn value(&mut self, name: &str, sh: Sh, o: &NumOpt) -> Num {
        let long = matches!(sh, Sh::Zero { long: true } | Sh::Val { long: true, .. });
        let neg = matches!(sh, Sh::Val { neg: true, .. });
        let hs = if long { 8 } else { 6 };
        let elem = Some((0, 9999));
        let tag = new_tag(name, elem, None, true);
        if sh == Sh::Nan {
            return Num {
                sh,
                name: name.into(),
                ds: Form::c(0),
                w: Form::c(0),
                nd: Form::c(0),
                tag,
                total: Form::c(6),
                hs: 6,
                hdr: Form::c(0xC000),
                fresh: o.fresh,
            };
        }
        let dmax = if long { 0x3FFF } else { 63 };
        let (dl, dh) = o.ds.unwrap_or((0, dmax));
        let ds = self.int(&format!("{}.dscale", name), dl.max(0), dh.min(dmax));
        let zero = sh.zero();
        let (w, w6h) = if zero && !o.any_zero_weight {
            (Form::c(0), Form::c(0))
        } else if long {
            let (l, h) = o.w.unwrap_or((-32767, 32767));
            (self.int(&format!("{}.weight", name), l.max(-32768), h.min(32767)), Form::c(0))
        } else {
            let (l, h) = o.w.unwrap_or((-64, 63));
            let (l, h) = (l.max(-64), h.min(63));
            if l >= 0 || h < 0 {
                let w = self.int(&format!("{}.weight", name), l, h);
                let hb = if h < 0 { w.addc(128) } else { w.clone() };
                (w, hb)
            } else {
                let wn = self.int(&format!("{}.wneg", name), 0, 1);
                let w6 = self.int(&format!("{}.w6", name), 0, 63);
                let w = w6.lin(1, &wn, -64).unwrap();
                if (l, h) != (-64, 63) {
                    self.st.dom.add_ge0(&w.addc(-l));
                    self.st.dom.add_ge0(&w.neg().addc(h));
                }
                (w, w6.lin(1, &wn, 64).unwrap())
            }
        };
        let nd = if zero {
            Form::c(0)
        } else {
            match o.nd.or(o.digits.as_ref().map(|d| d.len() as i128)) {
                Some(n) => Form::c(n),
                None => self.int(&format!("{}.ndigits", name), 1, 40000),
            }
        };
        let hdr = if long {
            ds.addc(if neg { 0x4000 } else { 0 })
        } else {
            ds.mulc(128).unwrap().add(&w6h).addc(0x8000 + if neg { 0x2000 } else { 0 })
        };
        let total = nd.mulc(2).unwrap().addc(hs);
        if !zero {
            // the scale covers every stored digit: 4 (nd - 1 - w) <= ds + 3
            let f = ds.addc(3).lin(1, &nd.sub(&w).addc(-1), -4).unwrap();
            self.st.dom.add_ge0(&f);
            if !o.loose {
                let first = Form::atom(mk_atom(Kind::Read(tag, Form::c(0), 2, true), 0, 9999));
                let last = Form::atom(mk_atom(Kind::Read(tag, nd.mulc(2).unwrap().addc(-2), 2, true), 0, 9999));
                self.st.dom.add_ge0(&first.addc(-1));
                self.st.dom.add_ge0(&last.addc(-1));
            }
            // digits end where the scale ends
            if let (Some(n), Some(wk), Some(k)) = (nd.konst(), w.konst(), ds.konst()) {
                let e = 4 * (n - 1 - wk) - k;
                if !o.loose && o.digits.is_none() && (1..4).contains(&e) {
                    let last = Form::atom(mk_atom(Kind::Read(tag, Form::c(2 * n - 2), 2, true), 0, 9999));
                    let m = 10i128.pow(e as u32);
                    let q = input(&format!("{}.lastq", name), 1, 9999 / m);
                    self.st.dom.add_eq0(&last.lin(1, &q, -m).unwrap());
                }
            }
            if let (1.., Some(n)) = (o.pat, nd.konst()) {
                let free = |i: i128| o.pat != 3 && (i == 0 || i == n / 2 || i == n - 1);
                for i in (0..n).filter(|i| !free(*i)) {
                    let d = Form::atom(mk_atom(Kind::Read(tag, Form::c(2 * i), 2, true), 0, 9999));
                    let x = match o.pat {
                        1 => 9999,
                        2 => (i % 3 == 0) as i128,
                        _ if i == 0 => 12,
                        _ if i == n - 1 => 3400,
                        _ => (i == n / 2) as i128,
                    };
                    self.st.dom.add_eq0(&d.addc(-x));
                }
            }
            if let Some(d) = &o.digits {
                for (i, v) in d.iter().enumerate() {
                    let a = Form::atom(mk_atom(Kind::Read(tag, Form::c(2 * i as i128), 2, true), 0, 9999));
                    self.st.dom.add_eq0(&a.addc(-v));
                }
            }
        }
        Num { sh, name: name.into(), ds, w, nd, tag, total, hs, hdr, fresh: o.fresh }
    }

    fn write_num(&mut self, ob: &mut Obj, n: &Num, at: &Form) {
        let d = self.st.dom.clone();
        let l = self.len_word(&n.total);
        ob.write(&d, at, 4, Val::Int(l), false);
        ob.write(&d, &at.addc(4), 2, Val::Int(n.hdr.clone()), false);
        if n.hs == 8 {
            ob.write(&d, &at.addc(6), 2, Val::Int(n.w.clone()), true);
        }
    }

    /// Object holding exactly the bytes of n; returns (ptr, len).
    pub fn numeric(&mut self, n: &Num) -> (Val, Form) {
        let mut ob = blank(OKind::Input(Rc::from(n.name.as_str())), n.total.clone(), 2);
        ob.base = Src::Tag(n.tag, Form::c(n.hs));
        self.write_num(&mut ob, n, &Form::c(0));
        ob.ro = true;
        let id = self.st.new_heap(ob);
        (Val::Ptr(id, Form::c(0)), n.total.clone())
    }

    /// Contents of a NumericBuf owning a block that holds n.
    pub fn buf(&mut self, n: &Num, ro: bool) -> Option<Vec<Ent>> {
        let nm = n.name.clone();
        // digits start at element D >= 4, block has L >= D + nd elements
        let dd = self.int(&format!("{}.digitpos", nm), 4, 100_000);
        let cap = self.int(&format!("{}.cap", nm), 4, 1_000_000);
        if let Some(k) = n.nd.konst().filter(|k| *k >= 64) {
            // long ones at one place
            self.st.dom.add_eq0(&dd.addc(-5));
            self.st.dom.add_eq0(&cap.addc(-5 - k));
        }
        let (dd, cap) = (self.st.dom.norm(&dd), self.st.dom.norm(&cap));
        let f = cap.sub(&dd).sub(&n.nd);
        self.st.dom.add_ge0(&f);
        let size = cap.mulc(2)?;
        let hoff = dd.mulc(2)?.addc(-n.hs);
        let mut ob = blank(OKind::Heap { align: 2 }, size.clone(), 2);
        let t = new_tag(&format!("{}.spare", nm), Some((-32768, 32767)), None, true);
        ob.base = if n.fresh { Src::Undef } else { Src::Tag(t, Form::c(0)) };
        let d = self.st.dom.clone();
        let start = dd.mulc(2)?;
        if !n.nd.is_c(0) {
            ob.write_blob(
                &d,
                &start,
                &n.nd.mulc(2)?,
                &[Ent::Region { start: Form::c(0), len: n.nd.mulc(2)?, src: Src::Tag(n.tag, Form::c(0)) }],
            );
        }
        self.write_num(&mut ob, n, &hoff);
        ob.ro = ro;
        let id = self.st.new_heap(ob);
        let ty = self.buf_ty()?;
        let (b, _) = self.ex.field(ty, "buf")?;
        let (l, _) = self.ex.field(ty, "len")?;
        let (o, _) = self.ex.field(ty, "offset")?;
        Some(vec![
            cell(b, 8, Val::Ptr(id, Form::c(0)), false),
            cell(l, 4, Val::Int(size), false),
            cell(o, 4, Val::Int(hoff), false),
        ])
    }
    pub fn buf_ty(&self) -> Option<TyId> {
        self.ex.p.tys.iter().position(|t| t.adt.ends_with("NumericBuf") && t.k == TK::Struct)
    }

    /// Argument of type ty denoting n.
    pub fn num_arg(&mut self, ty: TyId, n: &Num) -> Option<Arg> {
        let p = self.ex.p;
        let t = &p.tys[ty];
        match &t.k {
            TK::Struct if t.adt.ends_with("NumericBuf") => {
                Some(Arg { ty, size: p.size(ty), ents: self.buf(n, false)? })
            }
            TK::Ptr { e, mutable, .. } => {
                let et = &p.tys[*e];
                if et.adt.ends_with("::Numeric") || et.adt == "Numeric" {
                    let (ptr, len) = self.numeric(n);
                    return Some(Arg {
                        ty,
                        size: 16,
                        ents: vec![cell(0, 8, ptr, false), cell(8, 8, Val::Int(len), false)],
                    });
                }
                if et.adt.ends_with("NumericBuf") {
                    let e = self.buf(n, !*mutable)?;
                    let v = self.holder(&n.name, e, p.size(self.buf_ty()?), !*mutable);
                    return Some(Arg::scalar(8, ty, v, false));
                }
                if matches!(et.k, TK::Ptr { .. }) {
                    let inner = self.num_arg(*e, n)?;
                    let sz = inner.size;
                    let v = self.holder(&n.name, inner.ents, sz, true);
                    return Some(Arg::scalar(8, ty, v, false));
                }
                None
            }
            _ => None,
        }
    }
    pub fn holder(&mut self, name: &str, ents: Vec<Ent>, size: u64, ro: bool) -> Val {
        let mut ob = blank(OKind::Input(Rc::from(format!("{} holder", name).as_str())), Form::c(size as i128), 8);
        ob.log = (ents).into();
        ob.ro = ro;
        Val::Ptr(self.st.new_heap(ob), Form::c(0))
    }
    pub fn bytes_arg(&mut self, ty: TyId, name: &str, len: Form, lo: i128, hi: i128) -> (Arg, u32) {
        let tag = new_tag(name, None, Some((lo, hi)), true);
        let mut ob = blank(OKind::Input(Rc::from(name)), len.clone(), 1);
        ob.base = Src::Tag(tag, Form::c(0));
        ob.ro = true;
        let id = self.st.new_heap(ob);
        (
            Arg {
                ty,
                size: 16,
                ents: vec![cell(0, 8, Val::Ptr(id, Form::c(0)), false), cell(8, 8, Val::Int(len), false)],
            },
            tag,
        )
    }
    /// A reference to an opaque zero-sized or unused object (formatter, hasher).
    pub fn opaque_arg(&mut self, ty: TyId) -> Arg {
        let v = self.ex.formatter();
        Arg::scalar(8, ty, v, false)
    }
    pub fn params(&self, f: FnId) -> Vec<TyId> {
        let b = self.ex.p.fns[f].body.as_ref().unwrap();
        (1..=b.argc).map(|i| b.ls[i]).collect()
    }
    pub fn ret_ty(&self, f: FnId) -> TyId {
        self.ex.p.fns[f].body.as_ref().unwrap().ls[0]
    }
    pub fn run(&mut self, f: FnId, args: Vec<Arg>) -> Vec<(State, Out)> {
        let st = self.st.clone();
        self.ex.run_fn(st, f, args)
    }

    /// Splits Option<T> outcomes: (state, Some(payload entries at 0) | None).
    pub fn option(&mut self, st: State, ty: TyId, ents: &[Ent]) -> Vec<(State, usize, Vec<Ent>)> {
        self.variants(st, ty, ents)
    }
    /// (state, variant, contents of the variant's first field)
    pub fn variants(&mut self, st: State, ty: TyId, ents: &[Ent]) -> Vec<(State, usize, Vec<Ent>)> {
        let p = self.ex.p;
        let sz = p.size(ty);
        let mut res = vec![];
        let mut ob = blank(OKind::Local, Form::c(sz as i128), 16);
        ob.log = (ents.to_vec()).into();
        let mut work = vec![st];
        let mut guard = 0;
        while let Some(mut s) = work.pop() {
            guard += 1;
            if guard > 64 {
                self.ex.give_up("variant of result".into());
                break;
            }
            let id = s.new_heap(ob.clone());
            let pl = Pl { obj: PObj::Obj(id), off: Form::c(0), ty, meta: None, variant: None };
            match self.ex.variant(&mut s, &pl) {
                Ok(v) => {
                    let l = p.tys[ty].l.as_ref().unwrap();
                    let offs = match &l.variants {
                        Variants::Direct { variants, .. } | Variants::Niche { variants, .. } => variants[v].clone(),
                        _ => l.offs.clone(),
                    };
                    let payload = match (p.tys[ty].fs.get(v).and_then(|f| f.first()), offs.first()) {
                        (Some(ft), Some(o)) => {
                            let n = p.size(*ft);
                            ob.blob(&s.dom, &Form::c(*o as i128), &Form::c(n as i128)).unwrap_or_default()
                        }
                        _ => vec![],
                    };
                    s.heap.pop();
                    res.push((s, v, payload));
                }
                Err(Fork(alts)) => {
                    s.heap.pop();
                    for a in &alts {
                        if let Some(s2) = self.ex.apply(&s, a) {
                            work.push(s2);
                        }
                    }
                }
            }
        }
        res
    }

    fn read(&mut self, st: &mut State, obj: ObjId, off: &Form, size: u64, sg: bool) -> Vec<(State, Form)> {
        let mut res = vec![];
        let mut work = vec![st.clone()];
        let mut guard = 0;
        while let Some(mut s) = work.pop() {
            guard += 1;
            if guard > 64 {
                self.ex.give_up("read of result".into());
                break;
            }
            let pl = Pl { obj: PObj::Obj(obj), off: off.clone(), ty: 0, meta: None, variant: None };
            match self.ex.read_at(&mut s, &pl, size, Sc::Int(sg, 8 * size as u32)) {
                Ok(Val::Int(f)) => res.push((s, f)),
                Ok(_) => {
                    let (lo, hi) = int_range(sg, 8 * size as u32);
                    s.lossy += 1;
                    res.push((s, fresh("res", lo, hi)))
                }
                Err(Fork(alts)) => {
                    for a in &alts {
                        if let Some(s2) = self.ex.apply(&s, a) {
                            work.push(s2);
                        }
                    }
                }
            }
        }
        res
    }
    /// Reads an integer out of recorded contents.
    pub fn read_ents(&mut self, st: &State, ents: &[Ent], total: &Form, off: &Form, size: u64, sg: bool) -> Vec<(State, Form)> {
        let mut ob = blank(OKind::Local, total.clone(), 16);
        ob.log = (ents.to_vec()).into();
        let mut s = st.clone();
        let id = s.new_heap(ob);
        self.read(&mut s, id, off, size, sg)
    }
    pub fn digit(&mut self, st: &State, r: &Res, i: &Form) -> Vec<(State, Form)> {
        let mut s = st.clone();
        let off = r.dig.lin(1, i, 2).unwrap();
        self.read(&mut s, r.obj, &off, 2, true)
    }

    /// Decodes the NumericBuf stored in ents (one entry per header class).
    pub fn decode_buf(&mut self, st: &State, ents: &[Ent]) -> Option<Vec<(State, Res)>> {
        let ty = self.buf_ty()?;
        let (b, _) = self.ex.field(ty, "buf")?;
        let (l, _) = self.ex.field(ty, "len")?;
        let (o, _) = self.ex.field(ty, "offset")?;
        let a = Arg { ty, size: self.ex.p.size(ty), ents: ents.to_vec() };
        let Val::Ptr(obj, po) = a.at(b, 8) else { return None };
        let Val::Int(len) = a.at(l, 4) else { return None };
        let Val::Int(off) = a.at(o, 4) else { return None };
        let at = po.add(&off);
        self.decode_at(st, obj, &at, &off, &len)
    }
    pub fn decode_at(&mut self, st: &State, obj: ObjId, at: &Form, off: &Form, len: &Form) -> Option<Vec<(State, Res)>> {
        let mut res = vec![];
        let mut s = st.clone();
        for (mut s1, word) in self.read(&mut s, obj, at, 4, false) {
            for (s2, h) in self.read(&mut s1, obj, &at.addc(4), 2, false) {
                for cls in 0..4i128 {
                    let mut s3 = s2.clone();
                    s3.dom.add_ge0(&h.addc(-0x4000 * cls));
                    s3.dom.add_ge0(&h.neg().addc(0x4000 * cls + 0x3FFF));
                    if s3.dom.bot {
                        continue;
                    }
                    let total = if self.be {
                        match word.konst() {
                            Some(k) => Form::c((k as u32).swap_bytes() as i128 & 0x3FFF_FFFF),
                            None => match word.single().map(|(a, _)| atom_info(a).kind) {
                                Some(Kind::Op("bswap", v)) => v[0].clone(),
                                _ => fresh("total", 0, 0x3FFF_FFFF),
                            },
                        }
                    } else {
                        s3.dom.floordiv(&word, 4)
                    };
                    let low = h.addc(-0x4000 * cls);
                    let mk = |nan, neg, long, ds, w, nd: Form| Res {
                        nan,
                        neg,
                        long,
                        ds,
                        w,
                        nd,
                        total: total.clone(),
                        obj,
                        off: at.clone(),
                        dig: at.addc(if long { 8 } else { 6 }),
                        buf_off: off.clone(),
                        buf_len: len.clone(),
                    };
                    match cls {
                        3 => res.push((s3, mk(true, false, false, Form::c(0), Form::c(0), Form::c(0)))),
                        2 => {
                            let nd = s3.dom.floordiv(&total.addc(-6), 2);
                            for neg in [false, true] {
                                let mut s4 = s3.clone();
                                let b = low.addc(if neg { -0x2000 } else { 0 });
                                s4.dom.add_ge0(&b);
                                s4.dom.add_ge0(&b.neg().addc(0x1FFF));
                                if s4.dom.bot {
                                    continue;
                                }
                                let ds = s4.dom.floordiv(&b, 128);
                                let w7 = b.lin(1, &ds, -128)?;
                                for wneg in [false, true] {
                                    let mut s5 = s4.clone();
                                    let w = if wneg {
                                        s5.dom.add_ge0(&w7.addc(-64));
                                        w7.addc(-128)
                                    } else {
                                        s5.dom.add_ge0(&w7.neg().addc(63));
                                        w7.clone()
                                    };
                                    if s5.dom.bot {
                                        continue;
                                    }
                                    let w = s5.dom.norm(&w);
                                    res.push((s5, mk(false, neg, false, ds.clone(), w, nd.clone())));
                                }
                            }
                        }
                        c => {
                            let nd = s3.dom.floordiv(&total.addc(-8), 2);
                            for (s4, w) in self.read(&mut s3, obj, &at.addc(6), 2, true) {
                                res.push((s4, mk(false, c == 1, true, low.clone(), w, nd.clone())));
                            }
                        }
                    }
                }
            }
        }
        Some(res)
    }
}

/// Compact description of what is known about a result.
pub fn show_res(st: &State, r: &Res) -> String {
    let d = &st.dom;
    let b = |f: &Form| {
        let f = d.norm(f);
        let (l, h) = d.bounds(&f);
        if l == h {
            format!("{}", l)
        } else {
            format!("{} in [{},{}]", f, l, h)
        }
    };
    if r.nan {
        return "NaN".into();
    }
    format!(
        "{}{} nd={} w={} ds={} obj={} off={} len={}",
        if r.neg { "neg" } else { "pos" },
        if r.long { "L" } else { "S" },
        b(&r.nd),
        b(&r.w),
        b(&r.ds),
        r.obj,
        b(&r.buf_off),
        b(&r.buf_len)
    )
}
