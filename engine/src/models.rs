//! Models of functions without a body in the dump: intrinsics, the allocator,
//! formatting, panics and foreign functions.
use crate::exec::*;
use crate::mem::*;
use crate::num::*;
use crate::prog::*;
use std::rc::Rc;

const FORMATTER: u32 = GLOBAL | (1 << 29);
const LAZY: u32 = GLOBAL | (1 << 29) | (1 << 28);

type Outs = Vec<(State, Out)>;

impl<'p> Ex<'p> {
    pub fn ret(st: &mut State, e: Vec<Ent>) -> Option<Outs> {
        Some(vec![(std::mem::take(st), Out::Ret(e))])
    }
    fn ret_int(&self, st: &mut State, dty: TyId, f: Form) -> Option<Outs> {
        let sg = self.sc(dty).map(|s| s.signed()).unwrap_or(false);
        Self::ret(st, vec![cell(0, self.p.size(dty), Val::Int(f), sg)])
    }
    /// The blob selecting variant v of an enum without payload.
    pub fn unit_variant(&self, dty: TyId, v: usize) -> Vec<Ent> {
        match self.tag_for(dty, v) {
            Some((o, s, val, sg)) => vec![cell(o, s, val, sg)],
            None => vec![],
        }
    }
    pub fn field(&self, ty: TyId, name: &str) -> Option<(u64, TyId)> {
        let t = &self.p.tys[ty];
        let i = t.fnames.first()?.iter().position(|n| n == name)?;
        Some((*t.l.as_ref()?.offs.get(i)?, *t.fs.first()?.get(i)?))
    }
    /// Offset and type of a nested field.
    pub fn path(&self, mut ty: TyId, path: &[&str]) -> Option<(u64, TyId)> {
        let mut off = 0;
        for p in path {
            let (o, t) = self.field(ty, p)?;
            off += o;
            ty = t;
        }
        Some((off, ty))
    }
    pub fn ty_by_name(&self, n: &str) -> Option<TyId> {
        self.p.tys.iter().position(|t| t.n == n)
    }
    /// Constant string behind (ptr, len).
    pub fn const_str(&mut self, st: &mut State, ptr: &Val, len: &Val) -> Option<String> {
        let (Val::Ptr(o, f), Val::Int(n)) = (ptr, len) else { return None };
        let n = st.dom.konst(n)?;
        let f0 = st.dom.konst(f)?;
        if !(0..=4096).contains(&n) {
            return None;
        }
        let ob = self.obj(st, *o);
        let mut v = vec![];
        for i in 0..n {
            match ob.read(self.p, &st.dom, &Form::c(f0 + i), 1, Sc::Int(false, 8)) {
                Rd::Val(Val::Int(b), _) => v.push(st.dom.konst(&b)? as u8),
                _ => return None,
            }
        }
        Some(String::from_utf8_lossy(&v).into_owned())
    }
    fn str_arg(&mut self, st: &mut State, a: &Arg) -> Option<String> {
        self.const_str(st, &a.at(0, 8), &a.at(8, 8))
    }
    fn byte(&mut self, st: &State, o: ObjId, f: i128) -> Option<u8> {
        let ob = self.obj(st, o);
        match ob.read(self.p, &st.dom, &Form::c(f), 1, Sc::Int(false, 8)) {
            Rd::Val(Val::Int(b), _) => st.dom.konst(&b).map(|x| x as u8),
            _ => None,
        }
    }

    /// The bytes behind a slice handed to a formatter are read.
    fn shown(&mut self, st: &mut State, a: &Arg) -> R<()> {
        let Val::Ptr(o, f) = a.at(0, 8) else { return Ok(()) };
        let t = match a.at(8, 8) {
            Val::Ptr(v, _) if v & GLOBAL != 0 => match &self.p.allocs[(v & !GLOBAL) as usize] {
                Alloc::Vtable(t, _) => Some(*t),
                _ => None,
            },
            Val::Int(v) => v.single().and_then(|(a, _)| match atom_info(a).kind {
                Kind::Op("vtable", v) => v[0].konst().map(|t| t as TyId),
                _ => None,
            }),
            _ => None,
        };
        let Some(t) = t else { return Ok(()) };
        let TK::Ptr { e, .. } = &self.p.tys[t].k else { return Ok(()) };
        let TK::Slice(e) = &self.p.tys[*e].k else { return Ok(()) };
        let (e, n) = (*e, self.p.size(*e));
        let Some(sc) = self.sc(e) else { return Ok(()) };
        let ob = self.obj(st, o);
        let (Rd::Val(Val::Ptr(d, at), _), Rd::Val(Val::Int(len), _)) =
            (ob.read(self.p, &st.dom, &f, 8, Sc::Ptr), ob.read(self.p, &st.dom, &f.addc(8), 8, Sc::Int(false, 64)))
        else {
            return Ok(());
        };
        let (lo, hi) = st.dom.bounds(&len);
        let k = match st.dom.konst(&len) {
            Some(k) => k,
            // the first elements are read in any case
            None if hi < 64 => return Err(Fork((lo.max(0)..=hi).map(|x| vec![Con::Eq0(len.addc(-x))]).collect())),
            None => lo.clamp(0, 8),
        };
        for i in 0..k.min(64) {
            let pl = Pl { obj: PObj::Obj(d), off: at.addc(i * n as i128), ty: e, meta: None, variant: None };
            self.read_at(st, &pl, n, sc)?;
        }
        Ok(())
    }

    /// Pieces of a fmt::Arguments value.
    fn fmt_pieces(&mut self, st: &mut State, a: &Arg) -> Option<Vec<Piece>> {
        let t = a.at(0, 8);
        let g = a.at(8, 8);
        if let Val::Int(n) = &g {
            // literal string: the length is stored shifted with a low marker bit
            let n = st.dom.konst(n)?;
            if n & 1 == 1 {
                let s = self.const_str(st, &t, &Val::Int(Form::c(n >> 1)))?;
                return Some(vec![Piece::Lit(s)]);
            }
        }
        let Val::Ptr(to, tf) = t else { return None };
        let mut pos = st.dom.konst(&tf)?;
        let mut out = vec![];
        let mut next = 0i128;
        loop {
            let b = self.byte(st, to, pos)?;
            pos += 1;
            if b == 0 {
                break;
            }
            if b < 0x80 || b == 0x80 {
                let n = if b == 0x80 {
                    let l = self.byte(st, to, pos)? as i128 | (self.byte(st, to, pos + 1)? as i128) << 8;
                    pos += 2;
                    l
                } else {
                    b as i128
                };
                let s = self.const_str(st, &Val::Ptr(to, Form::c(pos)), &Val::Int(Form::c(n)))?;
                pos += n;
                out.push(Piece::Lit(s));
                continue;
            }
            let mut flags = None;
            let mut width = None;
            let mut prec = None;
            let mut idx = next;
            let rd = |s: &mut Self, st: &State, pos: &mut i128, n: i128| -> Option<i128> {
                let mut v = 0;
                for i in 0..n {
                    v |= (s.byte(st, to, *pos + i)? as i128) << (8 * i);
                }
                *pos += n;
                Some(v)
            };
            if b & 1 != 0 {
                flags = Some(rd(self, st, &mut pos, 4)?);
            }
            if b & 2 != 0 {
                width = Some(rd(self, st, &mut pos, 2)?);
            }
            if b & 4 != 0 {
                prec = Some(rd(self, st, &mut pos, 2)?);
            }
            if b & 8 != 0 {
                idx = rd(self, st, &mut pos, 2)?;
            }
            next = idx + 1;
            // arguments: pairs of value pointer and formatter
            let (vp, ff) = match &g {
                Val::Ptr(ao, af) => {
                    let ob = self.obj(st, *ao);
                    let v = ob.read(self.p, &st.dom, &af.addc(16 * idx), 8, Sc::Ptr);
                    let f = ob.read(self.p, &st.dom, &af.addc(16 * idx + 8), 8, Sc::Ptr);
                    match (v, f) {
                        (Rd::Val(v, _), Rd::Val(f, _)) => (v, f),
                        _ => return None,
                    }
                }
                _ => return None,
            };
            let f = match ff {
                Val::Fn(f) => f,
                _ => return None,
            };
            // widths and precisions may come from arguments
            let mut count = |i: Option<i128>| -> Option<Form> {
                let Val::Ptr(ao, af) = &g else { return None };
                let ob = self.obj(st, *ao);
                match ob.read(self.p, &st.dom, &af.addc(16 * i? + 8), 2, Sc::Int(false, 16)) {
                    Rd::Val(Val::Int(f), _) => Some(f),
                    _ => None,
                }
            };
            let mut wf = None;
            if b & 16 != 0 {
                let f = count(width);
                width = Some(f.as_ref().and_then(|f| st.dom.konst(f)).unwrap_or(-1));
                wf = f;
            }
            if b & 32 != 0 {
                prec = Some(count(prec).and_then(|f| st.dom.konst(&f)).unwrap_or(-1));
            }
            out.push(Piece::Arg { v: vp, f, wf, spec: format!("{:?}/{:?}/{:?}", flags, width, prec) });
        }
        Some(out)
    }

    /// Runs the pieces against a formatter, recording what is written.
    fn fmt_run(&mut self, st: State, pieces: Option<Vec<Piece>>) -> Vec<(State, Option<String>)> {
        let Some(ps) = pieces else {
            let mut st = st;
            self.give_up("undecoded format arguments".into());
            Rc::make_mut(&mut st.events).push(Event { name: "fmt?".into(), args: vec![] });
            return vec![(st, None)];
        };
        let mut sts = vec![(st, None)];
        for p in ps {
            let mut nx = vec![];
            for (mut st, dead) in sts {
                if dead.is_some() {
                    nx.push((st, dead));
                    continue;
                }
                match &p {
                    Piece::Lit(s) => {
                        ev(&mut st, "lit", vec![EvArg::Str(Rc::from(s.as_str()))]);
                        nx.push((st, None));
                    }
                    Piece::Arg { v, f, wf, spec } => {
                        let name = self.p.fns[*f].n.clone();
                        let prim = prim_fmt(&name);
                        if let Some((tr, Some((s, b)))) = prim {
                            let pl = self.ptr_pl(v, 0);
                            let x = match self.read_at(&mut st, &pl, b as u64 / 8, Sc::Int(s, b)) {
                                Ok(Val::Int(x)) => x,
                                _ => fresh("fmtarg", NINF, PINF),
                            };
                            let mut evs = vec![EvArg::Str(Rc::from(format!("{}:{}", tr, spec))), EvArg::Int(x)];
                            if let (Some(w), true) = (wf, spec.contains("Some(-1)/")) {
                                evs.push(EvArg::Int(w.clone()));
                            }
                            ev(&mut st, "num", evs);
                            nx.push((st, None));
                        } else if name.contains("str as std::fmt::Display") {
                            // value is a reference to a string slice (or the slice pointer itself)
                            let pl = self.ptr_pl(v, 0);
                            let a = self.read_at(&mut st, &pl, 8, Sc::Ptr).unwrap_or(Val::Top);
                            let mut q = pl.clone();
                            q.off = q.off.addc(8);
                            let l = self.read_at(&mut st, &q, 8, Sc::Int(false, 64)).unwrap_or(Val::Top);
                            let e = self.slice_ev(&mut st, &a, &l, 1);
                            ev(&mut st, "str", vec![EvArg::Str(Rc::from(spec.as_str())), e]);
                            nx.push((st, None));
                        } else if self.p.fns[*f].body.is_some() {
                            ev(&mut st, "display", vec![EvArg::Str(Rc::from(name.as_str())), EvArg::Str(Rc::from(spec.as_str()))]);
                            let fm = self.formatter();
                            let a1 = Arg::scalar(8, 0, v.clone(), false);
                            let a2 = Arg::scalar(8, 0, fm, false);
                            for (s, o) in self.run_fn(st, *f, vec![a1, a2]) {
                                match o {
                                    Out::Ret(_) => nx.push((s, None)),
                                    Out::Unwind(m) | Out::Abort(m) => nx.push((s, Some(m))),
                                }
                            }
                        } else {
                            ev(&mut st, "fmtarg", vec![EvArg::Str(Rc::from(name.as_str())), EvArg::Str(Rc::from(spec.as_str()))]);
                            nx.push((st, None));
                        }
                    }
                }
            }
            sts = nx;
        }
        sts
    }
    /// The one formatter object handed to Display implementations.
    pub fn formatter(&mut self) -> Val {
        if !self.globals.contains_key(&FORMATTER) {
            let mut o = blank(OKind::Opaque(Rc::from("formatter")), Form::c(64), 16);
            let t = new_tag("fmtopts", None, None, false);
            o.base = Src::Tag(t, Form::c(0));
            self.globals.insert(FORMATTER, Rc::new(o));
        }
        Val::Ptr(FORMATTER, Form::c(0))
    }

    pub fn slice_ev(&mut self, st: &mut State, p: &Val, n: &Val, elem: i128) -> EvArg {
        let len = match n {
            Val::Int(f) => f.mulc(elem).map(|f| st.dom.norm(&f)),
            _ => None,
        };
        match (p, len) {
            (Val::Ptr(o, off), Some(len)) => {
                let ob = self.obj(st, *o);
                let cells = match ob.base {
                    Src::Const(_) => None,
                    _ => ob.blob(&st.dom, off, &len),
                };
                let cells = match cells {
                    Some(c) => c,
                    None => {
                        let mut v = vec![];
                        if let (Some(f0), Some(n)) = (st.dom.konst(off), st.dom.konst(&len)) {
                            if n <= 512 {
                                for i in 0..n {
                                    if let Rd::Val(x, sg) =
                                        ob.read(self.p, &st.dom, &Form::c(f0 + i), 1, Sc::Int(false, 8))
                                    {
                                        v.push(cell(i as u64, 1, x, sg));
                                    }
                                }
                            }
                        }
                        v
                    }
                };
                EvArg::Slice { obj: *o, off: off.clone(), len, cells }
            }
            (_, Some(len)) if len.is_c(0) => EvArg::Slice { obj: u32::MAX, off: Form::c(0), len, cells: vec![] },
            _ => EvArg::Other,
        }
    }

    /// A string with unknown contents written into a String value.
    fn text(&mut self, st: &mut State, min: i128) -> (Val, Form) {
        let l = fresh("textlen", min, i32::MAX as i128);
        let mut o = blank(OKind::Heap { align: 1 }, l.clone(), 1);
        let t = new_tag("text", None, Some((0, 127)), false);
        o.base = Src::Tag(t, Form::c(0));
        let id = st.new_heap(o);
        (Val::Ptr(id, Form::c(0)), l)
    }
    fn known_text(&mut self, st: &mut State, t: &[u8]) -> (Val, Form) {
        let l = Form::c(t.len() as i128);
        let id = st.new_heap(blank(OKind::Heap { align: 1 }, l.clone(), 1));
        let v: Vec<Ent> = t.iter().enumerate().map(|(i, b)| cell(i as u64, 1, Val::Int(Form::c(*b as i128)), false)).collect();
        let dom = st.dom.clone();
        self.obj_mut(st, id).write_blob(&dom, &Form::c(0), &l, &v);
        (Val::Ptr(id, Form::c(0)), l)
    }
    fn string_blob(&self, p: Val, cap: Form, len: Form) -> Option<Vec<Ent>> {
        let t = self.ty_by_name("std::string::String")?;
        let (a, _) = self.path(t, &["vec", "buf", "inner", "ptr"])?;
        let (b, _) = self.path(t, &["vec", "buf", "inner", "cap"])?;
        let (c, _) = self.path(t, &["vec", "len"])?;
        Some(vec![cell(a, 8, p, false), cell(b, 8, Val::Int(cap), false), cell(c, 8, Val::Int(len), false)])
    }

    fn alloc(&mut self, st: &mut State, size: Form, align: Form, zero: bool) -> Val {
        let al = st.dom.konst(&align).unwrap_or(1) as u64;
        let mut o = blank(OKind::Heap { align: al }, st.dom.norm(&size), al);
        if zero {
            o.base = Src::Zero;
        }
        let id = st.new_heap(o);
        Val::Ptr(id, Form::c(0))
    }
    /// Checks a pointer handed back to the allocator.
    fn check_block(&mut self, st: &mut State, what: &'static str, p: &Val, size: &Form, align: &Form) -> Option<ObjId> {
        match p {
            Val::Ptr(id, off) => {
                let ob = self.obj(st, *id);
                let OKind::Heap { align: al } = ob.kind else {
                    let k = format!("{:?}", ob.kind);
                    let s = self.judge(&st.clone());
                    self.ob("dealloc", s, || format!("{} of memory that is not a heap block ({})", what, k));
                    return None;
                };
                if !ob.alive {
                    let s = self.judge(&st.clone());
                    self.ob("double-free", s, || format!("{} of a block already freed", what));
                    return None;
                }
                let o_ok = st.dom.konst(off) == Some(0);
                let s_ok = st.dom.eq(size, &ob.size);
                let a_ok = st.dom.konst(align) == Some(al as i128);
                if o_ok && s_ok && a_ok {
                    self.ob("dealloc", Stat::Proved, String::new);
                } else {
                    let mut stat = Stat::Unknown;
                    for (ok, x) in [
                        (o_ok, off.clone()),
                        (s_ok, size.sub(&ob.size)),
                        (a_ok, align.addc(-(al as i128))),
                    ] {
                        if !ok && stat == Stat::Unknown {
                            let mut bad = st.clone();
                            bad.dom.add_ne0(&x);
                            stat = self.judge(&bad);
                        }
                    }
                    let (o, s, a) = (off.clone(), size.clone(), align.clone());
                    let os = ob.size.clone();
                    self.ob("dealloc", stat, || {
                        format!(
                            "{}: block of size {} align {} released at offset {} with size {} align {}",
                            what, os, al, o, s, a
                        )
                    });
                }
                Some(*id)
            }
            Val::Int(f) => {
                let n = st.dom.konst(f) == Some(0);
                let f = f.clone();
                let s = if n { self.judge(&st.clone()) } else { Stat::Unknown };
                self.ob("dealloc", s, || format!("{} of address {}", what, f));
                None
            }
            _ => {
                self.give_up(format!("{} of an untracked pointer", what));
                None
            }
        }
    }

    pub fn model(&mut self, st: &mut State, f: FnId, args: &[Arg], dty: TyId, fr: &Frame) -> R<Option<Outs>> {
        let p = self.p;
        let func = &p.fns[f];
        let n = func.n.as_str();
        let d = func.d.as_str();
        if let Some(h) = self.hook.clone() {
            if let Some(o) = h(self, st, f, args, dty)? {
                return Ok(Some(o));
            }
        }
        if func.k == "intrinsic" {
            return self.intrinsic(st, f, args, dty);
        }
        // events of the harness
        if func.krate == "pgnv_harness" && d.contains("event_") {
            self.event(st, f, args)?;
            return Ok(Self::ret(st, vec![]));
        }
        if d == "lazy_static::lazy::Lazy::<T>::get" {
            return Ok(self.lazy(st, f, dty));
        }
        // slices formed from raw parts must lie within their buffer
        if self.in_crate() && (d == "std::slice::from_raw_parts" || d == "std::slice::from_raw_parts_mut") && args.len() == 2 {
            let es = func.ta.first().map(|t| p.size(*t)).unwrap_or(0) as i128;
            if let Some(sz) = args[1].int().mulc(es) {
                let pl = self.ptr_pl(&args[0].at(0, 8), func.ta.first().copied().unwrap_or(0));
                if es > 0 {
                    self.access(st, &pl, &sz, false);
                }
            }
        }
        // ------------------------------------------------ allocator
        match d {
            "alloc::alloc::__rust_alloc" | "alloc::alloc::__rust_alloc_zeroed" => {
                let v = self.alloc(st, args[0].int(), args[1].int(), d.ends_with("zeroed"));
                return Ok(Self::ret(st, vec![cell(0, 8, v, false)]));
            }
            "alloc::alloc::__rust_no_alloc_shim_is_unstable_v2" => return Ok(Self::ret(st, vec![])),
            "alloc::alloc::__rust_dealloc" => {
                let v = args[0].at(0, 8);
                if let Some(id) = self.check_block(st, "dealloc", &v, &args[1].int(), &args[2].int()) {
                    let o = self.obj_mut(st, id);
                    o.alive = false;
                    o.log = Log::default();
                    o.base = Src::Undef;
                }
                return Ok(Self::ret(st, vec![]));
            }
            "alloc::alloc::__rust_realloc" => {
                let v = args[0].at(0, 8);
                let ns = args[3].int();
                let al = args[2].int();
                match self.check_block(st, "realloc", &v, &args[1].int(), &al) {
                    Some(id) => {
                        let ns = st.dom.norm(&ns);
                        self.obj_mut(st, id).size = ns;
                        return Ok(Self::ret(st, vec![cell(0, 8, Val::Ptr(id, Form::c(0)), false)]));
                    }
                    None => {
                        let v = self.alloc(st, ns, al, false);
                        return Ok(Self::ret(st, vec![cell(0, 8, v, false)]));
                    }
                }
            }
            _ => {}
        }
        // ------------------------------------------------ panics
        if let Some(m) = self.panic_msg(st, f, args) {
            st.note(format!("panics in {}: {}", self.here().0, m));
            return Ok(Some(vec![(std::mem::take(st), if m.starts_with("nounwind") { Out::Abort(m) } else { Out::Unwind(m) })]));
        }
        // ------------------------------------------------ formatting
        match n {
            "<std::fmt::Formatter<'_> as std::fmt::Write>::write_fmt" | "std::fmt::Formatter::<'_>::write_fmt" | "std::fmt::write" => {
                let ps = self.fmt_pieces(st, args.last().unwrap());
                let outs = self.fmt_run(std::mem::take(st), ps);
                let ok = self.unit_variant(dty, 0);
                return Ok(Some(
                    outs.into_iter()
                        .map(|(s, e)| match e {
                            None => (s, Out::Ret(ok.clone())),
                            Some(m) => (s, Out::Unwind(m)),
                        })
                        .collect(),
                ));
            }
            "<std::string::String as std::fmt::Write>::write_fmt" => {
                let ps = self.fmt_pieces(st, &args[1]);
                let self_ = args[0].at(0, 8);
                let ok = self.unit_variant(dty, 0);
                let outs = self.fmt_run(std::mem::take(st), ps);
                let mut res = vec![];
                for (mut s, e) in outs {
                    match e {
                        None => {
                            self.fill_string(&mut s, &self_);
                            res.push((s, Out::Ret(ok.clone())));
                        }
                        Some(m) => res.push((s, Out::Unwind(m))),
                    }
                }
                return Ok(Some(res));
            }
            "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str"
            | "std::fmt::Formatter::<'_>::write_str"
            | "<str as std::fmt::Display>::fmt"
            | "std::fmt::Formatter::<'_>::pad" => {
                let i = if n.starts_with("<str") { 0 } else { 1 };
                let e = match self.str_arg(st, &args[i]) {
                    Some(s) => ("lit", vec![EvArg::Str(Rc::from(s.as_str()))]),
                    None => {
                        let (a, l) = (args[i].at(0, 8), args[i].at(8, 8));
                        ("str", vec![EvArg::Str(Rc::from("")), self.slice_ev(st, &a, &l, 1)])
                    }
                };
                ev(st, e.0, e.1);
                let ok = self.unit_variant(dty, 0);
                return Ok(Self::ret(st, ok));
            }
            "<std::fmt::Formatter<'_> as std::fmt::Write>::write_char" => {
                let c = args[1].int();
                match st.dom.konst(&c).and_then(|k| char::from_u32(k as u32)) {
                    Some(c) => ev(st, "lit", vec![EvArg::Str(Rc::from(c.to_string().as_str()))]),
                    None => ev(st, "char", vec![EvArg::Int(c)]),
                }
                let ok = self.unit_variant(dty, 0);
                return Ok(Self::ret(st, ok));
            }
            _ => {}
        }
        if n.contains("std::fmt::DebugStruct") || n.contains("::debug_struct") {
            ev(st, "debug", vec![]);
            if n.ends_with("::field") && args.len() == 3 {
                self.shown(st, &args[2])?;
            }
            let b = if n.ends_with("::field") {
                args[0].ents.clone()
            } else if n.ends_with("::finish") {
                self.unit_variant(dty, 0)
            } else {
                let sz = p.size(dty);
                self.top_blob(dty, sz)
            };
            return Ok(Self::ret(st, b));
        }
        if n.contains("SpecToString>::spec_to_string") || n.contains("as std::string::ToString>::to_string") {
            // run the Display implementation for its events, return unknown text
            if let Some(t) = self.display_of(f) {
                let fm = self.formatter();
                let a2 = Arg::scalar(8, 0, fm, false);
                let mut a1 = args[0].clone();
                if a1.size == 0 {
                    a1.size = 8;
                }
                ev(st, "to_string", vec![]);
                let before = st.events.len();
                let outs = self.run_fn(std::mem::take(st), t, vec![a1, a2]);
                let mut res = vec![];
                for (mut s, o) in outs {
                    match o {
                        Out::Ret(_) => {
                            let known = crate::props6::const_text(&s, before).filter(|t| (1..800).contains(&t.len()));
                            let (v, l) = match known {
                                Some(t) => self.known_text(&mut s, t.as_bytes()),
                                None => self.text(&mut s, 1),
                            };
                            let b = self.string_blob(v, l.clone(), l).unwrap_or_default();
                            res.push((s, Out::Ret(b)));
                        }
                        o => res.push((s, o)),
                    }
                }
                return Ok(Some(res));
            }
        }
        // ------------------------------------------------ foreign and library
        if d == "pgnumeric::convert::snprintf" {
            let cap = args[1].int();
            self.snprintf_event(st, args);
            // the buffer now holds unknown text
            let dst = self.ptr_pl(&args[0].at(0, 8), 0);
            if self.access(st, &dst, &cap, true) {
                if let PObj::Obj(id) = dst.obj {
                    let t = new_tag("snprintf", None, Some((0, 127)), false);
                    let dom = st.dom.clone();
                    let r = Ent::Region { start: Form::c(0), len: cap.clone(), src: Src::Tag(t, Form::c(0)) };
                    self.obj_mut(st, id).write_blob(&dom, &dst.off, &cap, &[r]);
                }
            }
            let r = fresh("snprintf", -1, 400);
            return Ok(self.ret_int(st, dty, r));
        }
        if d.ends_with("strlen::runtime::strlen") || d.ends_with("::strlen") {
            let v = args[0].at(0, 8);
            // bytes known not to be zero, up to a zero
            if let Val::Ptr(o, off) = &v {
                if let Some(f0) = st.dom.konst(off) {
                    let ob = self.obj(st, *o);
                    for i in 0..256 {
                        match ob.read(self.p, &st.dom, &Form::c(f0 + i), 1, Sc::Int(false, 8)) {
                            Rd::Val(Val::Int(x), _) => {
                                let (l, h) = st.dom.bounds(&x);
                                if (l, h) == (0, 0) {
                                    return Ok(self.ret_int(st, dty, Form::c(i)));
                                }
                                if l <= 0 && h >= 0 {
                                    break;
                                }
                            }
                            _ => break,
                        }
                    }
                }
            }
            let hi = match &v {
                Val::Ptr(o, off) => {
                    let ob = self.obj(st, *o);
                    let r = ob.size.sub(off).addc(-1);
                    st.dom.bounds(&r).1.min(1 << 40)
                }
                _ => 1 << 40,
            };
            let r = fresh("strlen", 0, hi.max(0));
            return Ok(self.ret_int(st, dty, r));
        }
        if d.ends_with("to_string_lossy") {
            // Cow::Borrowed of the text
            let (a, l) = (args[0].at(0, 8), args[0].at(8, 8));
            let l = match l {
                Val::Int(f) => f.addc(-1),
                _ => fresh("len", 0, 1 << 40),
            };
            st.dom.add_ge0(&l);
            ev(st, "lossy_text", vec![]);
            let mut e = vec![cell(8, 8, a, false), cell(16, 8, Val::Int(l), false)];
            e.extend(self.unit_variant(dty, 0));
            return Ok(Self::ret(st, e));
        }
        if d == "strtod::strtod" {
            // Option<f64>
            let (a, l) = (args[0].at(0, 8), args[0].at(8, 8));
            let e = self.slice_ev(st, &a, &l, 1);
            ev(st, "strtod", vec![e]);
            let mut outs = vec![];
            let t = &p.tys[dty];
            let off = match &t.l.as_ref().unwrap().variants {
                Variants::Direct { variants, .. } | Variants::Niche { variants, .. } => {
                    variants.get(1).and_then(|v| v.first()).copied().unwrap_or(8)
                }
                _ => 8,
            };
            let mut s1 = st.clone();
            ev(&mut s1, "strtod=Some", vec![]);
            let x = fresh("strtod", NINF, PINF);
            let mut b = vec![cell(off, 8, Val::Float(x), false)];
            b.extend(self.unit_variant(dty, 1));
            outs.push((s1, Out::Ret(b)));
            let mut s0 = std::mem::take(st);
            ev(&mut s0, "strtod=None", vec![]);
            outs.push((s0, Out::Ret(self.unit_variant(dty, 0))));
            return Ok(Some(outs));
        }
        if d.contains("libm::likely_available::") {
            let v = match args[0].at(0, 8) {
                Val::Float(f) if fval(&f).is_some() => {
                    let x = fval(&f).unwrap_or(0.0);
                    fmake(if d.ends_with("10") { x.log10() } else { x.ln() }, 8)
                }
                Val::Float(f) => Form::atom(mk_atom(Kind::Op("f.log", vec![f, Form::c(d.ends_with("10") as i128)]), NINF, PINF)),
                _ => fresh("f", NINF, PINF),
            };
            return Ok(Self::ret(st, vec![cell(0, p.size(dty), Val::Float(v), false)]));
        }
        if d == "smallvec::ConstNonNull" {
            return Ok(Self::ret(st, args[0].ents.clone()));
        }
        if func.body.is_none() {
            self.give_up(format!("no model for {}", n));
            st.lossy += 1;
            let sz = p.size(dty);
            let b = self.top_blob(dty, sz);
            return Ok(Self::ret(st, b));
        }
        let _ = fr;
        Ok(None)
    }

    /// Records a call of the formatting routine: format, capacity, (type, value) of every argument.
    pub fn snprintf_event(&mut self, st: &mut State, args: &[Arg]) {
        let p = self.p;
        let fm = {
            let mut s = String::new();
            if let Val::Ptr(o, off) = args[2].at(0, 8) {
                if let Some(mut k) = st.dom.konst(&off) {
                    while let Some(b) = self.byte(st, o, k) {
                        if b == 0 {
                            break;
                        }
                        s.push(b as char);
                        k += 1;
                    }
                }
            }
            s
        };
        let mut ea = vec![EvArg::Str(Rc::from(fm.as_str()))];
        let cap = args[1].int();
        ea.push(EvArg::Int(cap.clone()));
        for a in &args[3..] {
            ea.push(EvArg::Str(Rc::from(p.tys[a.ty].n.as_str())));
            ea.push(match a.at(0, a.size) {
                Val::Int(f) => EvArg::Int(f),
                Val::Float(f) => EvArg::Float(f),
                _ => EvArg::Other,
            });
        }
        ev(st, "snprintf", ea);
    }
    fn fill_string(&mut self, st: &mut State, self_: &Val) {
        if let Val::Ptr(id, off) = self_ {
            // the old block is given back
            let ob = self.obj(st, *id);
            let at = self.ty_by_name("std::string::String").and_then(|t| self.path(t, &["vec", "buf", "inner", "ptr"]));
            if let (Some(e), Some((a, _))) = (ob.blob(&st.dom, off, &Form::c(24)), at) {
                let arg = Arg { ty: 0, size: 24, ents: e };
                if let Val::Ptr(old, _) = arg.at(a, 8) {
                    if matches!(self.obj(st, old).kind, OKind::Heap { .. }) {
                        self.obj_mut(st, old).alive = false;
                    }
                }
            }
            let (v, l) = self.text(st, 1);
            if let Some(b) = self.string_blob(v, l.clone(), l) {
                let dom = st.dom.clone();
                let off = off.clone();
                self.obj_mut(st, *id).write_blob(&dom, &off, &Form::c(24), &b);
            }
        } else {
            self.give_up("untracked String".into());
        }
    }

    /// Display implementation behind a to_string instance.
    fn display_of(&self, f: FnId) -> Option<FnId> {
        let n = &self.p.fns[f].n;
        let t = n.strip_prefix('<')?.split(" as ").next()?.to_string();
        let want = format!("<{} as std::fmt::Display>::fmt", t);
        self.p.fns.iter().position(|g| g.n == want && g.body.is_some())
    }

    fn lazy(&mut self, st: &mut State, f: FnId, dty: TyId) -> Option<Outs> {
        let init = self.p.fns[f].ta.iter().find_map(|t| match self.p.tys[*t].k {
            TK::FnDef(Some(g)) => Some(g),
            _ => None,
        });
        let Some(g) = init else {
            self.give_up("lazy static initialiser not found".into());
            return Self::ret(st, vec![cell(0, self.p.size(dty), Val::Top, false)]);
        };
        let id = LAZY | g as u32;
        if !self.globals.contains_key(&id) {
            let rt = self.p.fns[g].body.as_ref().map(|b| b.ls[0]).unwrap_or(0);
            let sz = self.p.size(rt);
            let al = self.p.tys[rt].l.as_ref().map(|l| l.al).unwrap_or(8);
            let mut o = blank(OKind::Static(0), Form::c(sz as i128), al);
            let outs = self.run_fn(State::default(), g, vec![]);
            match &outs[..] {
                [(s, Out::Ret(e))] if s.heap.is_empty() => {
                    o.write_blob(&s.dom, &Form::c(0), &Form::c(sz as i128), e);
                }
                _ => self.give_up("lazy static initialiser not evaluated".into()),
            }
            o.ro = true;
            self.globals.insert(id, Rc::new(o));
        }
        Self::ret(st, vec![cell(0, 8, Val::Ptr(id, Form::c(0)), false)])
    }

    fn panic_msg(&mut self, st: &mut State, f: FnId, args: &[Arg]) -> Option<String> {
        let d = self.p.fns[f].d.clone();
        let d = d.as_str();
        let lit = |s: &mut Self, st: &mut State, a: Option<&Arg>| -> String {
            match a {
                Some(a) => s.str_arg(st, a).unwrap_or_else(|| "?".into()),
                None => "?".into(),
            }
        };
        let fmt = |s: &mut Self, st: &mut State, a: Option<&Arg>| -> String {
            match a.and_then(|a| s.fmt_pieces(st, a)) {
                Some(ps) => ps
                    .iter()
                    .map(|p| match p {
                        Piece::Lit(s) => s.clone(),
                        _ => "{}".into(),
                    })
                    .collect(),
                None => "?".into(),
            }
        };
        Some(match d {
            "core::panicking::panic" | "std::option::expect_failed" | "std::rt::begin_panic" => lit(self, st, args.first()),
            "core::panicking::panic_nounwind" => format!("nounwind {}", lit(self, st, args.first())),
            "core::panicking::panic_nounwind_fmt" => format!("nounwind {}", fmt(self, st, args.first())),
            "std::rt::panic_fmt" => fmt(self, st, args.first()),
            "core::panicking::assert_failed" => {
                // Option<Arguments>, the arguments at offset 0
                let m = match args.get(3).cloned() {
                    Some(mut a) => {
                        let some = self.p.tys[a.ty].fs.get(1).and_then(|f| f.first()).copied();
                        match some {
                            Some(t) if self.p.size(t) == a.size => {
                                a.ty = t;
                                fmt(self, st, Some(&a))
                            }
                            _ => "?".into(),
                        }
                    }
                    None => "?".into(),
                };
                format!("assertion failed: {}", m)
            }
            "core::panicking::unreachable_default_msg" => "unreachable".into(),
            "std::option::unwrap_failed" => "unwrap on None".into(),
            "core::slice::index::slice_index_fail" => "slice index out of range".into(),
            "core::slice::copy_from_slice_impl::len_mismatch_fail" => "copy_from_slice length mismatch".into(),
            "core::str::slice_error_fail" => "str slice".into(),
            "alloc::raw_vec::handle_error" => "capacity overflow".into(),
            "std::alloc::handle_alloc_error" => "allocation failure".into(),
            "std::result::unwrap_failed::unwrap_failed_inner" | "std::result::unwrap_failed" => "unwrap on Err".into(),
            _ => return None,
        })
    }

    fn event(&mut self, st: &mut State, f: FnId, args: &[Arg]) -> R<()> {
        let name = self.p.fns[f].d.rsplit("::").next().unwrap().to_string();
        let mut ea = vec![];
        for a in args {
            if a.size == 16 && self.sc(a.ty).is_none() {
                let t = &self.p.tys[a.ty];
                if let TK::Ptr { .. } = t.k {
                    let (p, l) = (a.at(0, 8), a.at(8, 8));
                    ea.push(self.slice_ev(st, &p, &l, 1));
                    continue;
                }
                ea.push(EvArg::Other);
                continue;
            }
            ea.push(match a.at(0, a.size) {
                Val::Int(f) => EvArg::Int(st.dom.norm(&f)),
                Val::Float(f) => EvArg::Float(f),
                _ => EvArg::Other,
            });
        }
        ev(st, &name, ea);
        Ok(())
    }

    fn intrinsic(&mut self, st: &mut State, f: FnId, args: &[Arg], dty: TyId) -> R<Option<Outs>> {
        let p = self.p;
        let func = &p.fns[f];
        let name = func.i.clone().unwrap_or_default();
        let elem = func.ta.first().map(|t| p.size(*t)).unwrap_or(1) as i128;
        match name.as_str() {
            "ctpop" | "ctlz" | "cttz" => {
                let bits = 8 * args[0].size as i128;
                let x = args[0].int();
                let r = match st.dom.konst(&x) {
                    Some(k) => {
                        let m = if bits >= 127 { k as u128 } else { (k as u128) & ((1u128 << bits) - 1) };
                        Form::c(match name.as_str() {
                            "ctpop" => m.count_ones() as i128,
                            "ctlz" => m.leading_zeros() as i128 - (128 - bits),
                            _ => (m.trailing_zeros() as i128).min(bits),
                        })
                    }
                    None => Form::atom(mk_atom(
                        Kind::Op(
                            match name.as_str() {
                                "ctpop" => "ctpop",
                                "ctlz" => "ctlz",
                                _ => "cttz",
                            },
                            vec![x],
                        ),
                        0,
                        bits,
                    )),
                };
                Ok(self.ret_int(st, dty, r))
            }
            "bswap" if args[0].size == 4 || args[0].size == 2 => {
                let bits = 8 * args[0].size as i128;
                let x = st.dom.norm(&args[0].int());
                let r = match st.dom.konst(&x) {
                    Some(k) if bits == 32 => Form::c((k as u32).swap_bytes() as i128),
                    Some(k) => Form::c((k as u16).swap_bytes() as i128),
                    None => match x.single().map(|(a, _)| atom_info(a).kind) {
                        Some(Kind::Op("bswap", v)) if x == Form::atom(x.single().unwrap().0) && v[1] == Form::c(bits) => v[0].clone(),
                        _ => Form::atom(mk_atom(Kind::Op("bswap", vec![x, Form::c(bits)]), 0, (1i128 << bits) - 1)),
                    },
                };
                Ok(self.ret_int(st, dty, r))
            }
            "fabs" | "fabsf32" | "fabsf64" => {
                let v = match args[0].at(0, args[0].size) {
                    Val::Float(f) => match fval(&f) {
                        Some(x) => fmake(x.abs(), args[0].size),
                        None => Form::atom(mk_atom(Kind::Op("f.abs", vec![f]), NINF, PINF)),
                    },
                    _ => fresh("f", NINF, PINF),
                };
                Ok(Self::ret(st, vec![cell(0, p.size(dty), Val::Float(v), false)]))
            }
            "assert_inhabited" => Ok(Self::ret(st, vec![])),
            "write_bytes" => {
                let n = args[2].int();
                let v = args[1].int();
                let len = n.mulc(elem).unwrap_or_else(|| fresh("n", 0, i64::MAX as i128));
                let dst = self.ptr_pl(&args[0].at(0, 8), 0);
                if st.dom.konst(&len) != Some(0) && self.access(st, &dst, &len, true) {
                    if let PObj::Obj(id) = dst.obj {
                        let src = if st.dom.konst(&v) == Some(0) {
                            Src::Zero
                        } else {
                            let (l, h) = st.dom.bounds(&v);
                            Src::Tag(new_tag("fill", None, Some((l.max(0), h.min(255))), false), Form::c(0))
                        };
                        let dom = st.dom.clone();
                        let r = Ent::Region { start: Form::c(0), len: len.clone(), src };
                        self.obj_mut(st, id).write_blob(&dom, &dst.off, &len, &[r]);
                    }
                }
                Ok(Self::ret(st, vec![]))
            }
            "ptr_offset_from_unsigned" | "ptr_offset_from" => {
                let r = match (args[0].at(0, 8), args[1].at(0, 8)) {
                    (Val::Ptr(a, x), Val::Ptr(b, y)) if a == b => {
                        let d = x.sub(&y);
                        st.dom.floordiv(&d, elem)
                    }
                    (Val::Int(x), Val::Int(y)) => {
                        let d = x.sub(&y);
                        st.dom.floordiv(&d, elem)
                    }
                    _ => {
                        self.give_up("distance between unrelated pointers".into());
                        fresh("dist", 0, i64::MAX as i128)
                    }
                };
                Ok(self.ret_int(st, dty, r))
            }
            "saturating_sub" => {
                let (x, y) = (args[0].int(), args[1].int());
                let d = x.sub(&y);
                if st.dom.ge0(&d) {
                    let d = st.dom.norm(&d);
                    return Ok(self.ret_int(st, dty, d));
                }
                let n = d.neg().addc(-1);
                if st.dom.ge0(&n) {
                    return Ok(self.ret_int(st, dty, Form::c(0)));
                }
                Err(Fork(vec![vec![Con::Ge0(d)], vec![Con::Ge0(n)]]))
            }
            "saturating_add" => {
                let (x, y) = (args[0].int(), args[1].int());
                let s = x.add(&y);
                let (s_, b) = match self.sc(dty) {
                    Some(Sc::Int(s, b)) => (s, b),
                    _ => (false, 64),
                };
                let (lo, hi) = int_range(s_, b);
                if st.dom.ge0(&s.addc(-lo)) && st.dom.ge0(&Form::c(hi).sub(&s)) {
                    return Ok(self.ret_int(st, dty, s));
                }
                let r = fresh("sat", lo, hi);
                Ok(self.ret_int(st, dty, r))
            }
            "copy" | "copy_nonoverlapping" => {
                let n = args[2].int();
                let len = n.mulc(elem).unwrap_or_else(|| fresh("n", 0, i64::MAX as i128));
                self.memcpy(st, &args[0].at(0, 8), &args[1].at(0, 8), &len)?;
                Ok(Self::ret(st, vec![]))
            }
            "raw_eq" | "compare_bytes" => {
                let n = if name == "raw_eq" { Form::c(elem) } else { args[2].int() };
                let a = self.ptr_pl(&args[0].at(0, 8), 0);
                let b = self.ptr_pl(&args[1].at(0, 8), 0);
                let k = st.dom.konst(&n);
                let mut acc: Option<Form> = Some(Form::c(1));
                match k {
                    Some(k) if k <= 64 => {
                        for i in 0..k {
                            let (mut x, mut y) = (a.clone(), b.clone());
                            x.off = x.off.addc(i);
                            y.off = y.off.addc(i);
                            let u = self.read_at(st, &x, 1, Sc::Int(false, 8))?;
                            let v = self.read_at(st, &y, 1, Sc::Int(false, 8))?;
                            let (Val::Int(u), Val::Int(v)) = (u, v) else {
                                acc = None;
                                break;
                            };
                            let e = self.b_eq0(&st.dom, &u.sub(&v));
                            acc = acc.map(|c| {
                                if c.is_c(1) {
                                    e
                                } else if c.is_c(0) || e.is_c(1) {
                                    c
                                } else if e.is_c(0) {
                                    Form::c(0)
                                } else {
                                    Form::atom(mk_atom(Kind::Op("band", vec![c, e]), 0, 1))
                                }
                            });
                        }
                    }
                    _ => {
                        acc = None;
                        if !st.dom.eq(&n, &Form::c(0)) {
                            self.access(st, &a, &n, false);
                            self.access(st, &b, &n, false);
                        }
                    }
                }
                let r = match (acc, name.as_str()) {
                    (Some(f), "raw_eq") => f,
                    (Some(f), _) if f.is_c(1) => Form::c(0),
                    (None, "raw_eq") => fresh("raw_eq", 0, 1),
                    (Some(f), _) => {
                        if f.is_c(0) {
                            fresh("cmpbytes", 1, 255)
                        } else {
                            Form::c(1).sub(&f)
                        }
                    }
                    (None, _) => fresh("cmpbytes", -255, 255),
                };
                Ok(self.ret_int(st, dty, r))
            }
            "size_of_val" => {
                let t = func.ta[0];
                let r = match p.tys[t].k {
                    TK::Slice(e) => match args[0].at(8, 8) {
                        Val::Int(f) => f.mulc(p.size(e) as i128).unwrap_or_else(|| fresh("n", 0, i64::MAX as i128)),
                        _ => fresh("n", 0, i64::MAX as i128),
                    },
                    TK::Str => match args[0].at(8, 8) {
                        Val::Int(f) => f,
                        _ => fresh("n", 0, i64::MAX as i128),
                    },
                    _ => Form::c(p.size(t) as i128),
                };
                Ok(self.ret_int(st, dty, r))
            }
            _ => {
                if func.body.is_some() {
                    return Ok(None);
                }
                self.give_up(format!("intrinsic {}", name));
                st.lossy += 1;
                let sz = p.size(dty);
                let b = self.top_blob(dty, sz);
                Ok(Self::ret(st, b))
            }
        }
    }
}

#[derive(Clone, Debug)]
enum Piece {
    Lit(String),
    Arg { v: Val, f: FnId, wf: Option<Form>, spec: String },
}

pub fn ev(st: &mut State, name: &str, args: Vec<EvArg>) {
    Rc::make_mut(&mut st.events).push(Event { name: Rc::from(name), args });
}

/// (trait, integer type) of a primitive formatting function.
fn prim_fmt(n: &str) -> Option<(&'static str, Option<(bool, u32)>)> {
    let tr = if n.contains("fmt::Display for ") {
        "Display"
    } else if n.contains("fmt::UpperHex for ") {
        "UpperHex"
    } else if n.contains("fmt::LowerHex for ") {
        "LowerHex"
    } else if n.contains("fmt::Debug for ") {
        "Debug"
    } else {
        return None;
    };
    let t = n.split(" for ").nth(1)?.split('>').next()?;
    let it = match t {
        "i8" => (true, 8),
        "i16" => (true, 16),
        "i32" => (true, 32),
        "i64" => (true, 64),
        "isize" => (true, 64),
        "u8" => (false, 8),
        "u16" => (false, 16),
        "u32" => (false, 32),
        "u64" => (false, 64),
        "usize" => (false, 64),
        "i128" => (true, 128),
        "u128" => (false, 128),
        _ => return Some((tr, None)),
    };
    Some((tr, Some(it)))
}
