//! Floating point conversions, serialisation.
use crate::check::*;
use crate::ctx::*;
use crate::exec::*;
use crate::mem::*;
use crate::models::ev;
use crate::num::*;
use crate::prog::*;
use crate::props::*;
use crate::props6::*;
use crate::suite::*;
use std::rc::Rc;
use std::sync::Arc;

// ------------------------------------------------------------------ floats
const FMT: &str = "a float is formatted once, with the declared precision, as an argument of the type the format expects";
const CAP: &str = "the buffer holds the longest text of a float";
const TEXT: &str = "the formatted text is parsed";
const DBL: &str = "a numeric is converted through the double its printed text denotes";
const NARROW: &str = "a single precision result is out of range exactly when the finite double exceeds the range or vanishes";

/// The formatting routine writes one text of the given classes.
fn writes(t: Vec<Cl>) -> HookMk {
    Arc::new(move |p: &Prog| {
        let f = p.fns.iter().position(|f| f.d == "pgnumeric::convert::snprintf");
        let t = t.clone();
        Rc::new(move |ex: &mut Ex, st: &mut State, g: FnId, args: &[Arg], dty: TyId| {
            if Some(g) != f || args.len() < 3 {
                return Ok(None);
            }
            ex.snprintf_event(st, args);
            let cap = args[1].int();
            let n = t.len() as i128;
            let dst = ex.ptr_pl(&args[0].at(0, 8), 0);
            // everything the routine may write lies within the buffer
            if !ex.access(st, &dst, &cap, true) {
                return Ok(Some(vec![]));
            }
            if let PObj::Obj(id) = dst.obj {
                let tag = new_tag("formatted", None, Some((0, 255)), true);
                for (i, (l, h)) in t.iter().enumerate() {
                    let x = Form::atom(mk_atom(Kind::Read(tag, Form::c(i as i128), 1, false), 0, 255));
                    st.dom.add_ge0(&x.addc(-l));
                    st.dom.add_ge0(&x.neg().addc(*h));
                }
                let dom = st.dom.clone();
                let r = [Ent::Region { start: Form::c(0), len: Form::c(n), src: Src::Tag(tag, Form::c(0)) }, cell(n as u64, 1, Val::Int(Form::c(0)), false)];
                let len = Form::c(n + 1);
                ex.obj_mut(st, id).write_blob(&dom, &dst.off, &len, &r);
                ev(st, "formatted", vec![EvArg::Int(Form::c(tag as i128))]);
            }
            let sz = ex.p.size(dty);
            Ok(Some(vec![(std::mem::take(st), Out::Ret(if sz == 0 { vec![] } else { vec![cell(0, sz, Val::Int(Form::c(n)), true)] }))]))
        })
    })
}
fn from_post(single: bool, t: Vec<Cl>) -> impl Fn(&mut Case) + Send + Sync + Clone {
    move |c: &mut Case| {
        let (prec, longest) = if single { (6i128, 14i128) } else { (15, 24) };
        let x = c.ins[0].int().clone();
        for (st, rv) in c.results() {
            let evs: Vec<Event> = st.events.iter().filter(|e| &*e.name == "snprintf").cloned().collect();
            let tag = st.events.iter().rev().find(|e| &*e.name == "formatted").and_then(|e| match e.args.first() {
                Some(EvArg::Int(f)) => f.konst(),
                _ => None,
            });
            let (Some(e), Some(tag)) = (evs.first(), tag) else {
                // formatted some other way
                c.undecided(FMT);
                continue;
            };
            c.check(FMT, &st, evs.len() == 1);
            let mut ok = false;
            let vararg = |i: usize| -> Option<(&str, &EvArg)> {
                match (e.args.get(2 + 2 * i), e.args.get(3 + 2 * i)) {
                    (Some(EvArg::Str(t)), Some(v)) => Some((t, v)),
                    _ => None,
                }
            };
            let value = |a: Option<(&str, &EvArg)>| -> bool {
                match a {
                    Some(("f64", EvArg::Float(f))) => {
                        *f == x || matches!(f.single().map(|(a, _)| atom_info(a).kind), Some(Kind::Op("f2f", v)) if v[0] == x && v[1].is_c(8))
                    }
                    _ => false,
                }
            };
            if let Some(EvArg::Str(f)) = e.args.first() {
                if &**f == "%.*g" {
                    let p = match vararg(0) {
                        Some(("i32", EvArg::Int(f))) => st.dom.konst(f),
                        _ => None,
                    };
                    ok = p == Some(prec) && value(vararg(1));
                } else if **f == *format!("%.{}g", prec) {
                    ok = value(vararg(0));
                }
            }
            c.check(FMT, &st, ok);
            if let Some(EvArg::Int(cap)) = e.args.get(1) {
                c.must_ge0(CAP, &st, &cap.addc(-longest));
            }
            match rv {
                RV::Unknown => c.undecided(TEXT),
                rv => parsed(c, &t, tag as u32, 255, st, rv),
            }
        }
    }
}

/// The text denotes some double between lo and hi, or none at all.
fn reads(k: Option<(f64, f64)>) -> HookMk {
    Arc::new(move |p: &Prog| {
        let f = p.fns.iter().position(|f| f.d == "strtod::strtod");
        Rc::new(move |ex: &mut Ex, st: &mut State, g: FnId, args: &[Arg], dty: TyId| {
            if Some(g) != f {
                return Ok(None);
            }
            let (a, l) = (args[0].at(0, 8), args[0].at(8, 8));
            let e = ex.slice_ev(st, &a, &l, 1);
            ev(st, "strtod", vec![e]);
            let p = ex.p;
            let out = match k {
                None => ex.unit_variant(dty, 0),
                Some((lo, hi)) => {
                    let off = match p.tys[dty].l.as_ref().map(|l| &l.variants) {
                        Some(Variants::Direct { variants, .. }) | Some(Variants::Niche { variants, .. }) => {
                            variants.get(1).and_then(|v| v.first()).copied().unwrap_or(8)
                        }
                        _ => 8,
                    };
                    let mut b = vec![cell(off, 8, Val::Float(frange(lo, hi, 8)), false)];
                    b.extend(ex.unit_variant(dty, 1));
                    b
                }
            };
            Ok(Some(vec![(std::mem::take(st), Out::Ret(out))]))
        })
    })
}
fn to_post(single: bool, k: Option<(f64, f64)>, lost: bool) -> impl Fn(&mut Case) + Send + Sync + Clone {
    move |c: &mut Case| {
        let a = c.ins[0].num().clone();
        for (st, rv) in c.results() {
            let i: Vec<usize> = st.events.iter().enumerate().filter(|(_, e)| &*e.name == "strtod").map(|(i, _)| i).collect();
            if i.len() != 1 {
                c.undecided(DBL);
                continue;
            }
            // the text converted
            let mut s = st.clone();
            let all: Vec<Event> = st.events[..i[0]].iter().filter(|e| &*e.name != "to_string" && &*e.name != "display").cloned().collect();
            s.events = Rc::new(all);
            match st.events[i[0]].args.first() {
                Some(EvArg::Slice { off, len, cells, .. })
                    if off.is_c(0) && matches!(&cells[..], [Ent::Region { len: l, .. }] if l == len) =>
                {
                    plain_text(c, &s, &a)
                }
                Some(EvArg::Slice { len, cells, .. }) => match (cells_text(len, cells), const_plain(&st, &a)) {
                    (Some(t), Some(want)) => c.check(DBL, &st, t == want),
                    _ => c.undecided(DBL),
                },
                _ => c.undecided(DBL),
            }
            match rv {
                RV::Unknown => c.undecided(DBL),
                RV::Err(e) => match k {
                    None => c.check(NARROW, &st, e == "Overflow"),
                    Some(_) => c.check(NARROW, &st, lost && e == "Overflow"),
                },
                RV::Float(f) => {
                    c.check(NARROW, &st, k.is_some() && !lost);
                    let Some((lo, hi)) = k else { continue };
                    let x = frange(lo, hi, 8);
                    let want = if !single {
                        f == x
                    } else if let Some(v) = fval(&f) {
                        lo == hi && v.to_bits() == (lo as f32 as f64).to_bits()
                    } else {
                        matches!(f.single().map(|(a, _)| atom_info(a).kind), Some(Kind::Op("f2f", v)) if v[0] == x && v[1].is_c(4))
                    };
                    c.check(DBL, &st, want);
                }
                _ => c.never(DBL, &st),
            }
        }
    }
}
pub fn c13(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let d = (48, 57);
    let l = |s: &str| -> Vec<Cl> {
        s.bytes()
            .map(|b| match b {
                b'9' => d,
                b'8' => (49, 57),
                b => (b as i128, b as i128),
            })
            .collect()
    };
    let mut texts: Vec<&str> = vec!["0", "-0", "8", "-8", "8.9", "-89.99", "0.0008", "-0.00089", "8e-05", "8.99e-08", "-8.9e+15", "8.99e+20", "899999"];
    if t == Tier::Thorough {
        texts.extend(["8.99999", "8.99999e+38", "8.99999e-45", "-8.9999999e-30", "8.9999999999e+30", "89999.9999", "0.00899999"]);
    }
    for (r, single) in [("from_f32", true), ("from_f64", false)] {
        for x in &texts {
            let top = if single { In::Fr(-(f32::MAX as f64), f32::MAX as f64, 4) } else { In::Fr(-f64::MAX, f64::MAX, 8) };
            let mut j = cx(r, vec![top], false).job(from_post(single, l(x)));
            j.ctx = format!("finite, formatted as {:?} (any digits)", x);
            j.hook = Some(writes(l(x)));
            v.push(j.inh(&["bounds", "uaf"]));
        }
    }
    // classes of doubles
    let max = f32::MAX as f64;
    let over = max + (2f64).powi(103);
    let tiny = (2f64).powi(-150);
    let up = |x: f64| f64::from_bits(x.to_bits() + 1);
    let minn = f32::MIN_POSITIVE as f64;
    let mut cls: Vec<(f64, f64, bool)> = vec![
        (0.0, 0.0, false),
        (-0.0, -0.0, false),
        (f64::INFINITY, f64::INFINITY, false),
        (f64::NEG_INFINITY, f64::NEG_INFINITY, false),
    ];
    for s in [1.0, -1.0] {
        let mut r = |a: f64, b: f64, l: bool| cls.push(if s > 0.0 { (a, b, l) } else { (-b, -a, l) });
        r(f64::from_bits(1), tiny, true);
        r(up(tiny), (2f64).powi(-140), false);
        r((2f64).powi(-140), minn, false);
        r(minn, 1e-20, false);
        r(1e-20, 0.5, false);
        r(1.0, 1.0, false);
        r(1.0, 1e6, false);
        r(1e6, 1e30, false);
        r(1e30, max, false);
        r(over, 1e100, true);
        r(1e100, f64::MAX, true);
    }
    for f in AFORMS {
        for (root, single) in [("to_f32", true), ("to_f64", false)] {
            let root = format!("{}_{}", root, f);
            let shs: &[Sh] = if t == Tier::Thorough { &[PS, NS, PL, NL, ZS, ZL] } else { &[PS, NL, ZS] };
            for a in wide(shs, &[1, 2], &[-1, 0, 1]) {
                let ds = a.frac();
                for k in cls.iter().map(|x| Some(*x)).chain([None]) {
                    let lost = single && k.map(|x| x.2).unwrap_or(false);
                    let k = k.map(|x| (x.0, x.1));
                    let mut j = cx(&root, vec![a.ds(ds, ds).inp()], false).job(to_post(single, k, lost));
                    j.ctx += &match k {
                        Some((l, h)) => format!("; text denotes a double in {:e}..{:e}", l, h),
                        None => "; text denotes no double".into(),
                    };
                    j.hook = Some(reads(k));
                    v.push(j);
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ serialisation
const KIND: &str = "text formats hold one string, binary formats one byte string, and reading asks for the same";
const BYTES: &str = "binary formats hold exactly the stored bytes";
const STR: &str = "text that does not parse is an error, other text yields its value";
const VALID: &str = "bytes are accepted exactly when they are one well-formed stored value";
const SAME: &str = "accepted bytes yield the value they encode";

fn ser_post(human: bool) -> impl Fn(&mut Case) + Send + Sync + Clone {
    move |c: &mut Case| {
        let a = c.ins[0].num().clone();
        for (st, rv) in c.results() {
            if !matches!(rv, RV::Unit) {
                if matches!(rv, RV::Unknown) {
                    c.undecided(KIND);
                } else {
                    c.never(KIND, &st);
                }
                continue;
            }
            let i: Vec<usize> = st.events.iter().enumerate().filter(|(_, e)| e.name.starts_with("event_ser")).map(|(i, _)| i).collect();
            c.check(KIND, &st, i.len() == 1);
            let Some(i) = i.first().copied() else { continue };
            let e = st.events[i].clone();
            c.check(KIND, &st, &*e.name == if human { "event_ser_str" } else { "event_ser_bytes" });
            match e.args.first() {
                Some(EvArg::Slice { obj, off, len, cells }) if human => {
                    // the printed text
                    let _ = obj;
                    let mut s = st.clone();
                    s.events = Rc::new(st.events[..i].iter().filter(|e| &*e.name != "to_string" && &*e.name != "display").cloned().collect());
                    if a.sh.nan() {
                        let lits: String = pieces(&s)
                            .iter()
                            .map(|p| match p {
                                Piece::Lit(s) => s.clone(),
                                _ => "?".into(),
                            })
                            .collect();
                        c.check(STR, &st, lits == "NaN");
                    } else if off.is_c(0) && matches!(&cells[..], [Ent::Region { len: l, .. }] if l == len) {
                        plain_text(c, &s, &a);
                    } else if let (Some(t), Some(want)) = (cells_text(len, cells), const_plain(&st, &a)) {
                        c.check(STR, &st, t == want);
                    } else {
                        c.undecided(STR);
                    }
                }
                Some(EvArg::Slice { obj, off, len, .. }) if !human => {
                    c.must_eq(BYTES, &st, len, &a.total);
                    match c.s.decode_at(&st, *obj, off, off, len) {
                        Some(rs) => {
                            for (s, r) in rs {
                                c.check(BYTES, &s, r.nan == a.sh.nan());
                                if !r.nan && !a.sh.nan() {
                                    crate::props4::keeps(c, BYTES, &s, &a, &r);
                                }
                            }
                        }
                        None => c.undecided(BYTES),
                    }
                }
                _ => {}
            }
        }
    }
}
fn asked(c: &mut Case, st: &State, want: Option<&str>) {
    let evs: Vec<String> = st.events.iter().filter(|e| e.name.starts_with("event_de")).map(|e| e.name.to_string()).collect();
    match want {
        Some(w) => c.check(KIND, st, evs.len() == 1 && evs[0] == w),
        None => c.check(KIND, st, evs.is_empty()),
    }
}
/// What is wrong with the bytes.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Bad {
    Nothing,
    Any,
    LenLow,
    LenHigh,
    First,
    Last,
    Neg(i128),
    Big(i128),
}
fn rd(tag: u32, off: i128, size: u32, sg: bool) -> Form {
    let (lo, hi) = match (size, sg) {
        (4, _) => (0, u32::MAX as i128),
        (_, true) => (-32768, 32767),
        _ => (0, 65535),
    };
    Form::atom(mk_atom(Kind::Read(tag, Form::c(off), size, sg), lo, hi))
}
fn short_ds() -> Form {
    input("scale bits", 0, 63)
}
fn short_w() -> Form {
    input("weight bits", 0, 63)
}
/// Form of the header (from 8: short, with its sign bits): 0 and 1 long, 2 short, 3 NaN.
fn bytes_cx(root: &str, human: bool, how: u8, n: i128, al: u64, cls: Option<i128>, bad: Bad) -> Cx {
    let short = |b: i128, k: u32| (b >> k) & 1;
    let (cls, sub) = match cls {
        Some(k) if k >= 8 => (Some(2), Some(k - 8)),
        k => (k, None),
    };
    let mut c = cx(root, vec![In::De(human, how, Box::new(In::Chars(vec![])), Box::new(In::Raw(n, al)))], false);
    if let Some(b) = sub {
        c.ctx += &format!("; sign bit {}, weight sign bit {}", short(b, 0), short(b, 1));
    }
    c.ctx += &format!("; header class {}; {:?} wrong", cls.map(|x| x.to_string()).unwrap_or("any".into()), bad);
    c.pre = Some(Arc::new(move |s: &mut Sess, i: &[InV]| {
        let InV::Bytes { tag, .. } = &i[0] else { return };
        let d = &mut s.st.dom;
        if n < 6 {
            return;
        }
        let word = rd(*tag, 0, 4, false);
        let hdr = rd(*tag, 4, 2, false);
        if let Some(b) = sub {
            let x = short_ds().mulc(0x80).unwrap().add(&short_w());
            d.stand_for(&hdr, &x.addc(0x8000 + 0x2000 * short(b, 0) + 0x40 * short(b, 1)));
        }
        if let Some(k) = cls {
            d.add_ge0(&hdr.addc(-0x4000 * k));
            d.add_ge0(&hdr.neg().addc(0x4000 * k + 0x3FFF));
        }
        let (lo, hi) = (word.addc(-4 * n), word.neg().addc(4 * n + 3));
        match bad {
            Bad::Any => return,
            Bad::LenLow => {
                d.add_ge0(&lo.neg().addc(-1));
                return;
            }
            Bad::LenHigh => {
                d.add_ge0(&hi.neg().addc(-1));
                return;
            }
            _ => {
                d.add_ge0(&lo);
                d.add_ge0(&hi);
            }
        }
        let Some(k) = cls else { return };
        let hs = if k < 2 { 8 } else { 6 };
        if n < hs || k == 3 || (n - hs) % 2 != 0 {
            return;
        }
        let nd = (n - hs) / 2;
        if nd == 0 && bad == Bad::Nothing {
            // zero
            if k == 2 {
                d.add_eq0(&hdr.addc(-0x8000));
            } else {
                d.add_ge0(&hdr.neg().addc(0x3FFF));
                d.add_eq0(&rd(*tag, 6, 2, true));
            }
        }
        for i in 0..nd {
            let x = rd(*tag, hs + 2 * i, 2, true);
            match bad {
                Bad::Neg(j) if j == i => {
                    d.add_ge0(&x.neg().addc(-1));
                    continue;
                }
                Bad::Big(j) if j == i => {
                    d.add_ge0(&x.addc(-10000));
                    continue;
                }
                Bad::First if i == 0 => d.add_eq0(&x),
                Bad::Last if i == nd - 1 => d.add_eq0(&x),
                _ => {}
            }
            d.add_ge0(&x.neg().addc(9999));
            let end = (i == 0 && bad != Bad::First) || (i == nd - 1 && bad != Bad::Last);
            d.add_ge0(&if end { x.addc(-1) } else { x });
        }
    }));
    c
}
fn de_bytes(n: i128, cls: i128, ok: bool) -> impl Fn(&mut Case) + Send + Sync + Clone {
    move |c: &mut Case| {
        let InV::Bytes { tag, .. } = c.ins[0].clone() else { return c.undecided(VALID) };
        let be = c.s.be;
        for (st, rv) in c.results() {
            asked(c, &st, Some("event_de_bytes"));
            let _ = be;
            match rv {
                RV::Unknown => c.undecided(VALID),
                RV::Err(_) => c.check(VALID, &st, !ok),
                RV::Num(r) => {
                    c.check(VALID, &st, ok);
                    if ok {
                        encodes(c, &st, &r, tag, n, cls);
                    }
                }
                RV::Ref(Val::Ptr(o, off), len) => {
                    c.check(VALID, &st, ok);
                    if !ok {
                        continue;
                    }
                    c.must_eq(SAME, &st, &len, &Form::c(n));
                    c.must_eq(SAME, &st, &off, &Form::c(0));
                    match c.s.decode_at(&st, o, &off, &off, &len) {
                        Some(rs) => {
                            for (s, r) in rs {
                                encodes(c, &s, &r, tag, n, cls);
                            }
                        }
                        None => c.undecided(SAME),
                    }
                }
                _ => c.never(VALID, &st),
            }
        }
    }
}
fn encodes(c: &mut Case, st: &State, r: &Res, tag: u32, n: i128, cls: i128) {
    let hdr = rd(tag, 4, 2, false);
    let (cls, sub) = if cls >= 8 { (2, Some(cls - 8)) } else { (cls, None) };
    c.check(SAME, st, r.nan == (cls == 3));
    if c.root == "root_de_n" {
        c.must_eq(SAME, st, &r.total, &Form::c(n));
    }
    if r.nan || cls == 3 {
        return;
    }
    let hs = if cls < 2 { 8 } else { 6 };
    let nd = (n - hs) / 2;
    c.must_eq(SAME, st, &r.nd, &Form::c(nd));
    if cls < 2 {
        c.check(SAME, st, r.neg == (cls == 1));
        let ds = hdr.addc(-0x4000 * cls);
        c.must_eq(SAME, st, &r.ds, &ds);
        c.must_eq(SAME, st, &r.w, &rd(tag, 6, 2, true));
    } else if let Some(b) = sub {
        c.check(SAME, st, r.neg == (b & 1 == 1));
        c.must_eq(SAME, st, &r.ds, &short_ds());
        c.must_eq(SAME, st, &r.w, &short_w().addc(if b & 2 == 2 { -64 } else { 0 }));
    } else {
        // sign 0x2000, scale 0x1F80, weight sign 0x40, weight 0x3F
        let low = hdr.addc(-0x8000);
        let x = low.sub(&Form::c(if r.neg { 0x2000 } else { 0 })).sub(&r.ds.mulc(0x80).unwrap()).sub(&r.w);
        // the weight is in two's complement of seven bits
        c.require(SAME, st, &[vec![lt0(&r.w), ne0(&x.addc(-0x80))], vec![ge(&r.w), ne0(&x)]]);
        c.must_ge0(SAME, st, &r.w.addc(64));
        c.must_ge0(SAME, st, &r.w.neg().addc(63));
        c.must_ge0(SAME, st, &r.ds);
        c.must_ge0(SAME, st, &r.ds.neg().addc(63));
    }
    let rs = c.digits(st, r, nd);
    for (s, ds) in rs {
        for (i, d) in ds.iter().enumerate() {
            c.must_eq(SAME, &s, d, &rd(tag, hs + 2 * i as i128, 2, true));
        }
    }
}
fn rejects(c: &mut Case) {
    for (st, rv) in c.results() {
        match rv {
            RV::Err(_) => c.ok(VALID),
            RV::Unknown => c.undecided(VALID),
            _ => c.never(VALID, &st),
        }
    }
}
pub fn c14(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    // writing
    for r in ["ser_n", "ser_b"] {
        for sh in Sh::ALL {
            v.push(cx(r, vec![any(sh), In::I(0, 0)], true).job(ser_post(false)));
        }
        v.push(cx(r, vec![any(Sh::Nan), In::I(1, 1)], true).job(ser_post(true)));
        for a in wide(&[PS, NS, PL, ZS], &[1, 2], &[-1, 0, 1]) {
            for ds in [a.frac(), a.frac() + 3] {
                v.push(cx(r, vec![a.ds(ds, ds).inp(), In::I(1, 1)], false).job(ser_post(true)));
            }
        }
    }
    // reading text
    let d = (48, 57);
    let mut texts: Vec<Vec<Cl>> = ["9", "-9.9", "NaN", "", " 9 ", "9x", "x", "9e", "-", "9e9", ".9", "nan1", "--9"]
        .iter()
        .map(|s| s.bytes().map(|b| if b == b'9' { d } else { (b as i128, b as i128) }).collect())
        .collect();
    texts.extend(crate::props6::short_texts(if t == Tier::Quick { 2 } else { 3 }));
    texts.extend(crate::props6::strange());
    for x in &texts {
        for how in [0u8, 1] {
            let x2 = x.clone();
            let c = cx("de_b", vec![In::De(true, how, Box::new(In::Chars(x.clone())), Box::new(In::Raw(0, 1)))], false);
            v.push(c.job(move |c: &mut Case| {
                let InV::Bytes { tag, .. } = c.ins[0].clone() else { return c.undecided(STR) };
                for (st, rv) in c.results() {
                    asked(c, &st, Some("event_de_str"));
                    match (rv, said(&x2)) {
                        (RV::Unknown, _) => c.undecided(STR),
                        (RV::Err(_), Said::Invalid | Said::Empty) => c.ok(STR),
                        (rv, Said::Invalid | Said::Empty) => {
                            let _ = rv;
                            c.never(STR, &st)
                        }
                        (rv, _) => parsed(c, &x2, tag, 255, st, rv),
                    }
                }
            }));
            let c = cx("de_n", vec![In::De(true, how, Box::new(In::Chars(x.clone())), Box::new(In::Raw(0, 1)))], false);
            v.push(c.job(rejects));
        }
    }
    // reading bytes
    let top = if t == Tier::Quick { 12 } else { 16 };
    for (r, hows, als) in [("de_b", &[2u8, 3][..], &[1u64, 2][..]), ("de_n", &[3][..], &[4, 2, 1][..])] {
        for how in hows {
            for al in als {
                for n in 0..=top {
                    if n < 6 {
                        v.push(bytes_cx(r, false, *how, n, *al, None, Bad::Any).job(rejects).inh(&["bounds", "align"]));
                        continue;
                    }
                    // borrowing needs aligned bytes
                    let may = r == "de_b" || *al >= 2;
                    for bad in [Bad::LenLow, Bad::LenHigh] {
                        v.push(bytes_cx(r, false, *how, n, *al, None, bad).job(rejects).inh(&["bounds", "align"]));
                    }
                    if !may {
                        v.push(bytes_cx(r, false, *how, n, *al, None, Bad::Any).job(|_: &mut Case| {}).inh(&["bounds", "align"]));
                        continue;
                    }
                    for cls in 0..4 {
                        let hs = if cls < 2 { 8 } else { 6 };
                        if cls == 3 && n > 6 {
                            continue;
                        }
                        if n < hs || (n - hs) % 2 != 0 {
                            v.push(bytes_cx(r, false, *how, n, *al, Some(cls), Bad::Any).job(rejects).inh(&["bounds", "align"]));
                            continue;
                        }
                        let nd = (n - hs) / 2;
                        let subs: &[i128] = match (cls, nd) {
                            (2, 1..) => &[8, 9, 10, 11],
                            _ => &[cls],
                        };
                        for cls in subs {
                            v.push(bytes_cx(r, false, *how, n, *al, Some(*cls), Bad::Nothing).job(de_bytes(n, *cls, true)).inh(&["bounds", "align"]));
                        }
                        let mut bads = vec![];
                        if nd > 0 && cls != 3 {
                            bads.extend([Bad::First, Bad::Last]);
                            for i in 0..nd {
                                bads.extend([Bad::Neg(i), Bad::Big(i)]);
                            }
                        }
                        for b in bads {
                            v.push(bytes_cx(r, false, *how, n, *al, Some(cls), b).job(de_bytes(n, cls, false)).inh(&["bounds", "align"]));
                        }
                    }
                }
            }
        }
    }
    // bytes that do not live long enough to be borrowed
    for n in [0, 6, 8, 10] {
        v.push(bytes_cx("de_n", false, 2, n, 4, None, Bad::Any).job(rejects));
    }
    v
}
