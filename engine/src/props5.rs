//! Scales, ranges, stored form, documented failures.
use crate::check::*;
use crate::ctx::*;
use crate::exec::*;
use crate::mem::*;
use crate::num::*;
use crate::prog::*;
use crate::props::*;
use crate::props2::*;
use crate::suite::*;
use std::rc::Rc;
use std::sync::Arc;

// ------------------------------------------------------------------ scales
#[derive(Clone, Copy, PartialEq, Debug)]
enum Rule {
    Max,
    Sum,
    Zero,
    Keep,
    Arg,
    Quot,
}
fn scale_rule(root: &str) -> Option<Rule> {
    let r = root.trim_start_matches("root_");
    let b = r.trim_start_matches("b_").trim_end_matches("_mut");
    Some(match b {
        "ceil" | "floor" => Rule::Zero,
        "negate" | "abs" | "to_owned" | "clone" | "inc" => Rule::Keep,
        "round" | "trunc" => Rule::Arg,
        "checked_div_trunc" | "factorial" => Rule::Zero,
        _ if b.starts_with("neg_") => Rule::Keep,
        _ if b.starts_with("from_") => Rule::Zero,
        _ if b.contains("add") || b.contains("sub") || b.contains("rem") => Rule::Max,
        _ if b.contains("mul") => Rule::Sum,
        _ if b.contains("div") => Rule::Quot,
        _ => return None,
    })
}
fn scale_of(c: &mut Case) {
    let Some(k) = scale_rule(&c.root.clone()) else { return };
    let (rule, rule2) = match k {
        Rule::Max => ("the scale of a sum, difference or remainder is the larger operand scale", ""),
        Rule::Sum => ("the scale of a product is the sum of the operand scales", ""),
        Rule::Zero => ("ceiling, floor, truncating division, factorials and integers have scale 0", ""),
        Rule::Keep => ("negation, absolute value, increment and copies keep the scale", ""),
        Rule::Arg => ("rounding and truncation yield the requested scale limited to 0..1000", ""),
        Rule::Quot => ("the scale of a quotient is at least the operand scales, at most 1000", ""),
    };
    let _ = rule2;
    for (st, rv) in c.results() {
        let RV::Num(r) = rv else { continue };
        if r.nan {
            continue;
        }
        let ds = |i: usize| c.ins[i].num().ds.clone();
        match k {
            Rule::Max => {
                let (a, b) = (ds(0), ds(1));
                let (da, db) = (r.ds.sub(&a), r.ds.sub(&b));
                c.require(rule, &st, &[vec![lt0(&da)], vec![lt0(&db)], vec![gt0(&da), gt0(&db)]]);
            }
            Rule::Sum => {
                let s = ds(0).add(&ds(1));
                c.must_eq(rule, &st, &r.ds, &s)
            }
            Rule::Zero => c.must_eq(rule, &st, &r.ds, &Form::c(0)),
            Rule::Keep => {
                let a = ds(0);
                c.must_eq(rule, &st, &r.ds, &a)
            }
            Rule::Arg => {
                let s = c.ins[1].int().clone();
                let d = r.ds.sub(&s);
                c.require(
                    rule,
                    &st,
                    &[
                        vec![lt0(&s), gt0(&r.ds)],
                        vec![ge(&s), ge(&s.neg().addc(1000)), gt0(&d)],
                        vec![ge(&s), ge(&s.neg().addc(1000)), lt0(&d)],
                        vec![gt0(&s.addc(-1000)), gt0(&r.ds.addc(-1000))],
                        vec![gt0(&s.addc(-1000)), lt0(&r.ds.addc(-1000))],
                        vec![lt0(&r.ds)],
                    ],
                )
            }
            Rule::Quot => {
                let (a, b) = (ds(0), ds(1));
                let low = lt0(&r.ds.addc(-1000));
                c.require(
                    rule,
                    &st,
                    &[vec![gt0(&r.ds.addc(-1000))], vec![lt0(&r.ds)], vec![low.clone(), lt0(&r.ds.sub(&a))], vec![low, lt0(&r.ds.sub(&b))]],
                )
            }
        }
    }
}

/// Replaces the numerical kernels by what is required of them: the scale they
/// are asked for.  Calls are recorded.
pub const KERNELS: [(&str, usize); 5] =
    [("sqrt_common", 1), ("ln_common", 1), ("exp_common", 1), ("power_int", 2), ("div_fast_common", 2)];

/// A NumericVar of any digits with the given scale.
fn any_var(ex: &mut Ex, st: &mut State, ds: &Form, positive: bool) -> Option<Vec<(State, Out)>> {
    let p = ex.p;
    let f = p.fns.iter().position(|f| f.krate == "pgnumeric" && f.body.is_some() && f.d.ends_with("NumericVar::<'a>::borrowed"))?;
    let b = p.fns[f].body.as_ref()?;
    let tys: Vec<TyId> = (1..=b.argc).map(|i| b.ls[i]).collect();
    if tys.len() != 5 {
        return None;
    }
    let tag = new_tag("kernel", Some((0, 9999)), None, false);
    let mut ob = blank(OKind::Input(Rc::from("kernel")), Form::c(2), 2);
    ob.base = Src::Tag(tag, Form::c(0));
    ob.ro = true;
    let id = st.new_heap(ob);
    let i32a = |ty, f: Form| Arg::scalar(4, ty, Val::Int(f), true);
    let neg = if positive { Form::c(0) } else { fresh("kneg", 0, 1) };
    let args = vec![
        i32a(tys[0], fresh("knd", 0, 1)),
        i32a(tys[1], fresh("kweight", -300, 300)),
        i32a(tys[2], ds.clone()),
        Arg::scalar(2, tys[3], Val::Int(neg.mulc(0x4000)?), false),
        Arg { ty: tys[4], size: 16, ents: vec![cell(0, 8, Val::Ptr(id, Form::c(0)), false), cell(8, 8, Val::Int(Form::c(1)), false)] },
    ];
    let s = std::mem::take(st);
    Some(ex.run_fn(s, f, args))
}

/// Cuts the computation at the first kernel: the call is an outcome of its own.
pub fn cut_kernels() -> HookMk {
    Arc::new(|p: &Prog| {
        let mut ids: Vec<(FnId, &'static str, usize)> = vec![];
        for (i, f) in p.fns.iter().enumerate() {
            if f.krate == "pgnumeric" {
                for (k, n) in KERNELS {
                    if f.d.ends_with(&format!("::{}", k)) {
                        ids.push((i, k, n));
                    }
                }
            }
        }
        let positive = p.fns.iter().position(|f| f.krate == "pgnumeric" && f.body.is_some() && f.d.ends_with("NumericVar::<'a>::is_positive"));
        Rc::new(move |ex: &mut Ex, st: &mut State, f: FnId, args: &[Arg], _dty: TyId| {
            let Some((_, k, n)) = ids.iter().find(|x| x.0 == f) else { return Ok(None) };
            let Some(a) = args.get(*n) else { return Ok(None) };
            let e = Event { name: Rc::from(format!("kernel {}", k).as_str()), args: vec![EvArg::Int(a.int())] };
            Rc::make_mut(&mut st.events).push(e);
            let (true, Some(pf)) = (matches!(*k, "ln_common" | "sqrt_common"), positive) else {
                return Ok(Some(vec![(std::mem::take(st), Out::Unwind(format!("kernel {}", k)))]));
            };
            // these iterations only end for positive values
            let outs = ex.run_fn(std::mem::take(st), pf, vec![args[0].clone()]);
            Ok(Some(
                outs.into_iter()
                    .map(|(s, o)| {
                        let neg = match &o {
                            Out::Ret(v) => matches!(v.first(), Some(Ent::Cell(c)) if matches!(&c.val, Val::Int(f) if s.dom.konst(f) == Some(0))),
                            _ => false,
                        };
                        let m = if neg { format!("{} of a value that is not positive", k) } else { format!("kernel {}", k) };
                        (s, Out::Unwind(m))
                    })
                    .collect(),
            ))
        })
    })
}
/// Kernels return any value of the scale asked for.
pub fn sum_kernels() -> HookMk {
    Arc::new(|p: &Prog| {
        let mut ids: Vec<(FnId, &'static str, usize)> = vec![];
        for (i, f) in p.fns.iter().enumerate() {
            if f.krate == "pgnumeric" {
                for (k, n) in [("ln_common", 1)] {
                    if f.d.ends_with(&format!("::{}", k)) {
                        ids.push((i, k, n));
                    }
                }
                for (k, n) in KERNELS {
                    if k != "ln_common" && f.d.ends_with(&format!("::{}", k)) {
                        ids.push((i, k, n));
                    }
                }
            }
        }
        Rc::new(move |ex: &mut Ex, st: &mut State, f: FnId, args: &[Arg], _dty: TyId| {
            let Some((_, k, n)) = ids.iter().find(|x| x.0 == f) else { return Ok(None) };
            let Some(a) = args.get(*n) else { return Ok(None) };
            let rs = a.int();
            let e = Event { name: Rc::from(format!("kernel {}", k).as_str()), args: vec![EvArg::Int(rs.clone())] };
            Rc::make_mut(&mut st.events).push(e);
            if *k == "ln_common" {
                return Ok(any_var(ex, st, &rs, false));
            }
            Ok(Some(vec![(std::mem::take(st), Out::Unwind(format!("kernel {}", k)))]))
        })
    })
}

/// Every kernel returns any value of the scale asked for.
pub fn free_kernels() -> HookMk {
    Arc::new(|p: &Prog| {
        let mut ids: Vec<(FnId, &'static str, usize)> = vec![];
        for (i, f) in p.fns.iter().enumerate() {
            if f.krate == "pgnumeric" {
                for (k, n) in KERNELS {
                    if f.d.ends_with(&format!("::{}", k)) {
                        ids.push((i, k, n));
                    }
                }
            }
        }
        Rc::new(move |ex: &mut Ex, st: &mut State, f: FnId, args: &[Arg], dty: TyId| {
            let Some((_, k, n)) = ids.iter().find(|x| x.0 == f) else { return Ok(None) };
            let Some(a) = args.get(*n) else { return Ok(None) };
            let rs = a.int();
            if ex.p.tys[dty].n.contains("Option") {
                return Ok(Some(vec![(std::mem::take(st), Out::Unwind(format!("kernel {}", k)))]));
            }
            Ok(any_var(ex, st, &rs, *k == "sqrt_common"))
        })
    })
}

fn last_kernel(st: &State) -> Option<(String, Form)> {
    st.events.iter().rev().find(|e| e.name.starts_with("kernel")).and_then(|e| match e.args.first() {
        Some(EvArg::Int(f)) => Some((e.name.to_string(), f.clone())),
        _ => None,
    })
}

pub fn c18(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let mut all = binary_cx(t);
    all.extend(unary_cx(t));
    all.extend(ints_cx());
    if t == Tier::Thorough {
        all.extend(general_cx(t));
    }
    // any scales, quotients of constant digits
    for x in [PS, NS, PL] {
        for y in [PS, NL] {
            for (da, wa) in [(vec![1], 0), (vec![9999], -1), (vec![25, 5000], 1)] {
                for (db, wb) in [(vec![3], 0), (vec![1], 2), (vec![9999], -2)] {
                    let sc = |s: Sh| if s == PS || s == NS { (0, 63) } else { (0, 2000) };
                    for o in ["checked_div", "checked_rem", "checked_div_trunc"] {
                        let ds = if o == "checked_div" { (sc(x), sc(y)) } else { ((0, 9), (0, 9)) };
                        if o == "checked_div" && t == Tier::Quick && (x, y) != (PS, PS) {
                            continue;
                        }
                        let ds = if o == "checked_div" && t == Tier::Quick { ((0, 25), (0, 25)) } else { ds };
                        all.push(cx(o, vec![constant(x, &da, wa, ds.0), constant(y, &db, wb, ds.1)], false));
                    }
                }
            }
        }
    }
    for c in all {
        v.push(c.job(scale_of));
    }
    // assigning and operator forms
    for o in OPS {
        for f in FORMS.iter().map(|f| format!("{}_{}", o, f)).chain(AFORMS.iter().map(|f| format!("{}_assign_{}", o, f))) {
            let b = if o == "div" || o == "rem" { constant(NS, &[7], 0, (0, 2)) } else { shapes(&[NS], &[1], &[0])[0].inp() };
            let a = if o == "div" || o == "rem" { constant(PS, &[5], 0, (0, 2)) } else { shapes(&[PS], &[2], &[0])[0].inp() };
            v.push(cx(&f, vec![a, b], false).job(scale_of));
        }
    }
    // roots, logarithms, exponentials, powers: the scale asked of the kernel
    const KS: &str = "roots, logarithms, exponentials and powers are computed at a scale of at least the operand scales, within 0..1000";
    let kernel_rule = |n: usize, pick: &'static [usize]| {
        move |c: &mut Case| {
            let _ = n;
            for (st, o) in c.outs.clone() {
                let Some((_, rs)) = last_kernel(&st) else { continue };
                if !matches!(&o, Out::Unwind(m) if m.starts_with("kernel")) {
                    continue;
                }
                let low = lt0(&rs.addc(-1000));
                let mut neg = vec![vec![gt0(&rs.addc(-1000))], vec![lt0(&rs)]];
                for i in pick {
                    neg.push(vec![low.clone(), lt0(&rs.sub(&c.ins[*i].num().ds))]);
                }
                c.require(KS, &st, &neg);
            }
        }
    };
    for x in [PS, PL, ZS, ZL] {
        for a in wide(&[x], &[1, 2, 3], &[-2, -1, 0, 1, 2]) {
            let mut j = cx("sqrt", vec![a.inp()], false).job(kernel_rule(1, &[0]));
            j.hook = Some(cut_kernels());
            v.push(j);
            if !x.zero() {
                let mut j = cx("ln", vec![a.inp()], false).job(kernel_rule(1, &[0]));
                j.hook = Some(cut_kernels());
                v.push(j);
                for r in ["log2", "log10"] {
                    let mut j = cx(r, vec![a.inp()], false).job(kernel_rule(1, &[0]));
                    j.hook = Some(sum_kernels());
                    v.push(j);
                }
            }
        }
    }
    for x in Sh::FINITE {
        for nd in [1, 2] {
            if x.zero() && nd > 1 {
                continue;
            }
            let inp = In::N(x, NumOpt { nd: if x.zero() { None } else { Some(nd) }, ..NumOpt::default() });
            let mut j = cx("exp", vec![inp.clone()], false).job(kernel_rule(1, &[0]));
            j.hook = Some(cut_kernels());
            v.push(j);
            if x.sign() >= 0 {
                let mut j = cx("sqrt", vec![inp.clone()], false).job(kernel_rule(1, &[0]));
                j.hook = Some(cut_kernels());
                v.push(j);
            }
        }
    }
    let pos = |x, nd, w| Shape { sh: x, nd, w, ds: None, pat: 0 };
    for (x, y) in [(PS, PS), (PS, NS), (PL, PL), (PS, PL)] {
        for (na, wa) in [(1, 0), (2, 0), (1, -1)] {
            for (nb, wb) in [(1, 0), (2, 0), (1, -1), (2, -1)] {
                let mut j = cx("log", vec![pos(x, na, wa).inp(), pos(if y == NS { PS } else { y }, nb, wb).inp()], false).job(kernel_rule(2, &[0, 1]));
                j.hook = Some(sum_kernels());
                v.push(j);
                let int = wb >= nb - 1;
                let mut j = cx("pow", vec![pos(x, na, wa).inp(), pos(y, nb, wb).inp()], false)
                    .job(kernel_rule(2, if int { &[0] } else { &[0, 1] }));
                j.hook = Some(sum_kernels());
                v.push(j);
            }
        }
    }
    v
}
