//! Arithmetic properties: values, signs, forms, ranges.
use crate::check::*;
use crate::ctx::*;
use crate::exec::*;
use crate::mem::*;
use crate::num::*;
use crate::props::*;

/// all sign combinations, short headers
pub const SS: [Sh; 2] = [PS, NS];
pub const NZ4: [Sh; 4] = [PS, NS, PL, NL];

/// V(r) * 10^(4k) == want, digits below the resolution are zero.
pub fn value_is(c: &mut Case, rule: &str, st: &State, r: &Res, want: &Form, k: i128) {
    let Some(v) = c.fix(st, r) else { return c.undecided(rule) };
    for (s, r, nd, w) in v {
        for (s2, ds) in c.digits(&s, &r, nd) {
            let mut hi = vec![];
            for (i, d) in ds.iter().enumerate() {
                if w - (i as i128) + k < 0 {
                    c.must_eq(rule, &s2, d, &Form::c(0));
                } else {
                    hi.push(d.clone());
                }
            }
            match combine(&hi, w, k) {
                Some(f) => {
                    let f = if r.neg { f.neg() } else { f };
                    c.must_eq(rule, &s2, &f, want);
                }
                None => c.undecided(rule),
            }
        }
    }
}
/// a value as coefficients of powers of 10000
pub type Wide = std::collections::BTreeMap<i128, Form>;
pub fn wide_add(w: &mut Wide, e: i128, f: &Form) {
    let x = w.entry(e).or_insert_with(|| Form::c(0));
    *x = x.add(f);
}
pub fn in_wide(n: &Num, sg: i128) -> Option<Wide> {
    let mut v = Wide::new();
    let w = n.w.konst()?;
    for i in 0..n.nd.konst()? {
        wide_add(&mut v, w - i, &in_digit(n, i).mulc(sg * n.sh.sign() as i128)?);
    }
    Some(v)
}
/// The coefficients add up to zero: every power's own share must be a multiple
/// of the next power.
pub fn wide_zero(c: &mut Case, rule: &str, st: &State, d: &Wide) {
    let mut s = st.clone();
    let mut carry = Form::c(0);
    let Some(top) = d.keys().max().copied() else { return c.ok(rule) };
    let mut e = *d.keys().min().unwrap();
    while e < top {
        let f = s.dom.norm(&d.get(&e).cloned().unwrap_or(Form::c(0)).add(&carry));
        if s.dom.eq(&f, &Form::c(0)) {
            carry = Form::c(0);
        } else if f.k % 10000 == 0 && f.terms().iter().all(|(_, x)| x % 10000 == 0) {
            let mut g = Form::c(f.k / 10000);
            for (a, x) in f.terms() {
                match g.lin(1, &Form::atom(*a), x / 10000) {
                    Some(y) => g = y,
                    None => return c.undecided(rule),
                }
            }
            carry = g;
        } else {
            multiple(c, rule, &s, &f, 10000);
            carry = s.dom.floordiv(&f, 10000);
        }
        e += 1;
    }
    let f = d.get(&top).cloned().unwrap_or(Form::c(0)).add(&carry);
    c.must_eq(rule, &s, &f, &Form::c(0));
}
/// The result's digits spell the wanted value.
pub fn wide_is(c: &mut Case, rule: &str, st: &State, r: &Res, want: &Wide) {
    let mut v = vec![];
    let Some(nds) = c.concretise(st, &r.nd, 200) else { return c.undecided(rule) };
    for (s, nd) in nds {
        let Some(ws) = c.concretise(&s, &r.w, 200) else { return c.undecided(rule) };
        v.extend(ws.into_iter().map(|(s, w)| (s, nd, w)));
    }
    for (s, nd, w) in v {
        let mut r = r.clone();
        r.nd = Form::c(nd);
        r.w = Form::c(w);
        for (s2, ds) in c.digits(&s, &r, nd) {
            let mut d: Wide = want.iter().map(|(e, f)| (*e, if r.neg { f.neg() } else { f.clone() })).collect();
            for (i, x) in ds.iter().enumerate() {
                wide_add(&mut d, w - i as i128, &x.neg());
                // no digit beyond its place
                c.require(rule, &s2, &[vec![ge(&x.addc(-10000))], vec![lt0(x)]]);
            }
            wide_zero(c, rule, &s2, &d);
        }
    }
}
/// signed value of a result (scaled by 10^(4k)), one entry per partition;
/// digits below the resolution must be zero
pub fn values(c: &mut Case, rule: &str, st: &State, r: &Res, k: i128) -> Vec<(State, Form)> {
    let mut out = vec![];
    let Some(v) = c.fix(st, r) else {
        c.undecided(rule);
        return out;
    };
    for (s, r, nd, w) in v {
        for (s2, ds) in c.digits(&s, &r, nd) {
            let mut hi = vec![];
            for (i, d) in ds.iter().enumerate() {
                if w - (i as i128) + k < 0 {
                    c.must_eq(rule, &s2, d, &Form::c(0));
                } else {
                    hi.push(d.clone());
                }
            }
            match combine(&hi, w, k) {
                Some(f) => out.push((s2, if r.neg { f.neg() } else { f })),
                None => c.undecided(rule),
            }
        }
    }
    out
}

/// f is a multiple of m
pub fn multiple(c: &mut Case, rule: &str, st: &State, f: &Form, m: i128) {
    if m == 1 {
        return c.ok(rule);
    }
    let mut s = st.clone();
    let f = s.dom.norm(f);
    if f.k % m == 0 && f.terms().iter().all(|(_, x)| x % m == 0) {
        return c.ok(rule);
    }
    let q = s.dom.floordiv(&f, m);
    match f.lin(1, &q, -m) {
        Some(r) => c.must_eq(rule, &s, &r, &Form::c(0)),
        None => c.undecided(rule),
    }
}

pub const NOZERO: &str = "no result is a negative zero";
pub fn no_neg_zero(c: &mut Case, st: &State, r: &Res) {
    if r.nan {
        return;
    }
    if r.neg {
        c.require(NOZERO, st, &[vec![eq0(&r.nd)]]);
    } else {
        c.ok(NOZERO);
    }
}
pub fn only_no_neg_zero(c: &mut Case) {
    for (st, rv) in c.results() {
        if let RV::Num(r) = rv {
            no_neg_zero(c, &st, &r);
        }
    }
}

/// product of two inputs scaled by 10^(4(ka+kb))
pub fn product(c: &mut Case, st: &mut State, a: &Num, b: &Num, ka: i128, kb: i128) -> Option<Form> {
    let (na, nb) = (a.nd.konst()?, b.nd.konst()?);
    if na == 0 || nb == 0 {
        return Some(Form::c(0));
    }
    let (wa, wb) = (a.w.konst()?, b.w.konst()?);
    let mut f = Form::c(0);
    for i in 0..na {
        for j in 0..nb {
            let m = c.s.ex.mul(st, &in_digit(a, i), &in_digit(b, j));
            let e = wa - i + ka + wb - j + kb;
            if e < 0 {
                return None;
            }
            f = f.lin(1, &m, pow10(4 * e)?)?;
        }
    }
    Some(if a.sh.sign() * b.sh.sign() < 0 { f.neg() } else { f })
}

pub fn sum_job(op: &'static str, a: Shape, b: Shape, rule: &'static str) -> Job {
    let k = res_of(&[&a, &b]);
    job(&format!("checked_{}", op), &format!("{}; {}", a.s(), b.s()), vec![a.inp(), b.inp()], exact(), move |c: &mut Case| {
        let (x, y) = (c.ins[0].num().clone(), c.ins[1].num().clone());
        let (Some(va), Some(vb)) = (in_scaled(&x, k), in_scaled(&y, k)) else {
            // too long for one number: digit by digit
            let (Some(mut want), Some(vb)) = (in_wide(&x, 1), in_wide(&y, if op == "add" { 1 } else { -1 })) else { return c.undecided(rule) };
            for (e, f) in vb {
                wide_add(&mut want, e, &f);
            }
            for (st, rv) in c.results() {
                match rv {
                    RV::Num(r) if !r.nan => {
                        wide_is(c, rule, &st, &r, &want);
                        no_neg_zero(c, &st, &r);
                    }
                    _ => c.never(rule, &st),
                }
            }
            return;
        };
        let want = if op == "add" { va.add(&vb) } else { va.sub(&vb) };
        for (st, rv) in c.results() {
            match rv {
                RV::Num(r) if !r.nan => {
                    value_is(c, rule, &st, &r, &want, k);
                    no_neg_zero(c, &st, &r);
                }
                _ => c.never(rule, &st),
            }
        }
    })
}
/// the product when the digits of the first are known
pub fn wide_product(st: &State, x: &Num, y: &Num) -> Option<Wide> {
    let (va, vb) = (in_wide(x, 1)?, in_wide(y, 1)?);
    let mut want = Wide::new();
    for (e, f) in &va {
        let k = st.dom.konst(f)?;
        for (g, h) in &vb {
            wide_add(&mut want, e + g, &h.mulc(k)?);
        }
    }
    Some(want)
}
pub fn mul_job(a: Shape, b: Shape, rule: &'static str) -> Job {
    let (ka, kb) = (a.nd - 1 - a.w, b.nd - 1 - b.w);
    job("checked_mul", &format!("{}; {}", a.s(), b.s()), vec![a.inp(), b.inp()], exact(), move |c: &mut Case| {
        let (x, y) = (c.ins[0].num().clone(), c.ins[1].num().clone());
        for (mut st, rv) in c.results() {
            let Some(want) = product(c, &mut st, &x, &y, ka, kb) else {
                // too long for one number
                match (rv, wide_product(&st, &x, &y).or_else(|| wide_product(&st, &y, &x))) {
                    (RV::Num(r), Some(want)) if !r.nan => {
                        wide_is(c, rule, &st, &r, &want);
                        no_neg_zero(c, &st, &r);
                    }
                    _ => c.undecided(rule),
                }
                continue;
            };
            match rv {
                RV::Num(r) if !r.nan => {
                    value_is(c, rule, &st, &r, &want, ka + kb);
                    no_neg_zero(c, &st, &r);
                }
                RV::Absent => {
                    let f = x.ds.add(&y.ds).neg().addc(0x3FFF);
                    c.require(rule, &st, &[vec![ge(&f)]])
                }
                _ => c.never(rule, &st),
            }
        }
    })
}
pub fn sum_shapes(t: Tier) -> Vec<(Shape, Shape)> {
    let nds: &[i128] = if t == Tier::Quick { &[1, 2] } else { &[1, 2, 3] };
    let ws: &[i128] = if t == Tier::Quick { &[-1, 0, 1] } else { &[-2, -1, 0, 1, 2] };
    let mut v = hot_pairs();
    let ss = shapes(&[PS, NS, ZS], nds, ws);
    for a in &ss {
        for b in &ss {
            v.push((*a, *b));
        }
    }
    // stored forms
    for (x, y) in [(PL, NS), (NS, PL), (NL, NL), (ZL, NL), (PL, ZS)] {
        for a in shapes(&[x], &[2], &[0, 1]) {
            for b in shapes(&[y], &[1, 2], &[0]) {
                v.push((a, b));
            }
        }
    }
    // distant weights
    for (x, y) in [(PS, NS), (PS, PS), (NS, NS)] {
        for (wa, wb) in [(2, -2), (-2, 2), (3, 0), (0, 3)] {
            for (na, nb) in [(1, 1), (2, 1), (1, 2), (3, 3)] {
                v.push((Shape { sh: x, nd: na, w: wa, ds: None, pat: 0 }, Shape { sh: y, nd: nb, w: wb, ds: None, pat: 0 }));
            }
        }
    }
    v
}

pub fn constant(sh: Sh, digits: &[i128], w: i128, ds: (i128, i128)) -> In {
    In::N(sh, NumOpt { digits: Some(digits.to_vec()), w: Some((w, w)), ds: Some(ds), ..NumOpt::default() })
}

pub fn sums(t: Tier, rule: &'static str) -> Vec<Job> {
    let mut v = vec![];
    for (a, b) in sum_shapes(t) {
        v.push(sum_job("add", a, b, rule));
        v.push(sum_job("sub", a, b, rule));
    }
    v
}
pub fn products(t: Tier, rule: &'static str) -> Vec<Job> {
    let nds: &[i128] = if t == Tier::Quick { &[1, 2] } else { &[1, 2, 3] };
    let ss = shapes(&[PS, NS, ZS], nds, &[-1, 1]);
    let mut v: Vec<Job> = hot_pairs().iter().map(|(a, b)| mul_job(*a, *b, rule)).collect();
    for a in &ss {
        for b in &ss {
            v.push(mul_job(*a, *b, rule));
        }
    }
    for (x, y) in [(PL, NS), (NS, PL), (NL, NL), (ZL, NL), (PL, ZS)] {
        for a in shapes(&[x], &[2], &[0]) {
            for b in shapes(&[y], &[1], &[1]) {
                v.push(mul_job(a, b, rule));
            }
        }
    }
    v
}

pub fn c03(t: Tier) -> Vec<Job> {
    let mut v = sums(t, "a sum or difference is the signed sum of its operands");
    v.extend(products(t, "a product is the signed product of its operands"));
    const SIGN: &str = "a nonzero product or quotient is negative exactly when the signs differ";
    let sign_rule = |x: Sh, y: Sh| {
        move |c: &mut Case| {
            for (st, rv) in c.results() {
                if let RV::Num(r) = rv {
                    no_neg_zero(c, &st, &r);
                    if r.neg != (x.sign() * y.sign() < 0) {
                        c.require(SIGN, &st, &[vec![gt0(&r.nd)]]);
                    } else {
                        c.ok(SIGN);
                    }
                }
            }
        }
    };
    for x in Sh::FINITE {
        for y in Sh::FINITE {
            if x.zero() || y.zero() {
                v.push(job("checked_mul", &format!("{}, {} of any size", x.s(), y.s()), vec![any(x), any(y)], gen(), sign_rule(x, y)));
                if !y.zero() {
                    for o in ["div", "div_trunc", "rem"] {
                        v.push(job(&format!("checked_{}", o), &format!("{}, {} of any size", x.s(), y.s()), vec![any(x), any(y)], gen(), sign_rule(x, y)));
                    }
                }
                continue;
            }
            let far = |s: Sh, nd, w| Shape { sh: s, nd, w, ds: None, pat: 0 };
            let lg = |s: Sh| matches!(s, Sh::Val { long: true, .. });
            for (na, nb) in [(1, 1), (2, 1), (1, 3), (3, 2)] {
                let (wa, wb) = (if lg(x) { -900 } else { 60 }, if lg(y) { 20000 } else { -10 });
                v.push(mul_job(far(x, na, wa), far(y, nb, wb), "a product is the signed product of its operands"));
            }
        }
    }
    // quotients and remainders by constants
    for x in SS {
        for a in wide(&[x], &[1, 2], &[-1, 0, 1]) {
            for (y, d) in [(PS, 7i128), (NS, 7), (PS, 5000), (NS, 2), (PS, 1)] {
                v.push(quot_job("div_trunc", a, y, d));
                v.push(rem_job(a, y, d));
            }
        }
    }
    const NEG: &str = "negation flips, absolute value clears and sign-of copies the sign";
    for r in ["negate", "b_negate", "neg_b", "neg_r", "neg_n", "negate_mut", "abs", "b_abs", "abs_mut", "signum", "b_signum"] {
        for x in Sh::FINITE {
            v.push(job(r, &format!("{} of any size", x.s()), vec![any(x)], gen(), move |c: &mut Case| {
                let want = match () {
                    _ if r.contains("neg") => x.sign() > 0,
                    _ if r.contains("abs") => false,
                    _ => x.sign() < 0,
                };
                let sg = r.contains("signum");
                for (st, rv) in c.results() {
                    match rv {
                        RV::Num(res) if !res.nan => {
                            c.check(NEG, &st, res.neg == want);
                            c.must_eq(NEG, &st, &res.nd, &if sg { Form::c((x.sign() != 0) as i128) } else { c.ins[0].num().nd.clone() });
                            if sg && x.sign() != 0 {
                                c.must_eq(NEG, &st, &res.w, &Form::c(0));
                                for (s, d) in c.s.digit(&st, &res, &Form::c(0)) {
                                    c.must_eq(NEG, &s, &d, &Form::c(1));
                                }
                            }
                            no_neg_zero(c, &st, &res);
                        }
                        _ => c.never(NEG, &st),
                    }
                }
            }));
        }
    }
    // operations that may reach zero
    for x in [NS, NL] {
        for a in wide(&[x], &[1, 2], &[-2, -1, 0]) {
            for r in ["round", "trunc", "round_mut", "trunc_mut"] {
                for s in [0, 1, 3, 4, 5] {
                    v.push(job(r, &format!("{}; scale {}", a.s(), s), vec![a.inp(), In::I(s, s)], exact(), only_no_neg_zero));
                }
                for b in crate::props4::scales_for(&a) {
                    v.push(job(r, &format!("{}; scale {:?}", a.s(), if let In::I(l, h) = &b { if l == h { Some(*l) } else { None } } else { None }), vec![a.inp(), b], exact(), only_no_neg_zero));
                }
            }
            for r in ["ceil", "floor", "inc", "to_owned", "clone"] {
                v.push(job(r, &a.s(), vec![a.inp()], exact(), only_no_neg_zero));
            }
            for s in [0, 2, 4] {
                v.push(job("typmod_apply", &format!("{}; (10,{})", a.s(), s), vec![a.inp(), In::I(10, 10), In::I(s, s)], exact(), |c: &mut Case| {
                    let args = c.args.clone();
                    for (st, o) in c.outs.clone() {
                        if let Out::Ret(_) = o {
                            for (s2, rv) in c.arg_buf(&st, &args[0]) {
                                if let RV::Num(r) = rv {
                                    no_neg_zero(c, &s2, &r);
                                }
                            }
                        }
                    }
                }));
            }
        }
    }
    for txt in ["-0", "-0.00", "-00000.000e5", "-0e-3"] {
        v.push(job("parse", txt, vec![In::Lit(txt)], exact(), only_no_neg_zero));
    }
    v
}

/// a / d for a one-digit constant d: truncated towards zero
fn quot_job(op: &'static str, a: Shape, y: Sh, d: i128) -> Job {
    const RULE: &str = "a truncated quotient is the exact quotient without its fraction, with the product of the signs";
    let k = res_of(&[&a]);
    job(&format!("checked_{}", op), &format!("{}; {} {}", a.s(), y.s(), d), vec![a.inp(), constant(y, &[d], 0, (0, 0))], exact(), move |c: &mut Case| {
        let x = c.ins[0].num().clone();
        let Some(va) = in_scaled(&x, k) else { return c.undecided(RULE) };
        let va = if x.sh.sign() < 0 { va.neg() } else { va };
        let sg = x.sh.sign() * y.sign();
        for (st, rv) in c.results() {
            match rv {
                RV::Num(r) if !r.nan => {
                    no_neg_zero(c, &st, &r);
                    for (s, q) in values(c, RULE, &st, &r, k) {
                        let q = if sg < 0 { q.neg() } else { q };
                        multiple(c, RULE, &s, &q, pow10(4 * k).unwrap());
                        // 0 <= |a| - |d| q < |d|
                        let Some(rem) = va.lin(1, &q, -d) else { return c.undecided(RULE) };
                        let Some(unit) = pow10(4 * k).and_then(|u| u.checked_mul(d)) else { return c.undecided(RULE) };
                        c.require(RULE, &s, &[vec![lt0(&rem)], vec![ge(&rem.addc(-unit))]]);
                    }
                }
                _ => c.never(RULE, &st),
            }
        }
    })
}
/// a mod d: a - r is a multiple of d, |r| < |d|, sign of a
fn rem_job(a: Shape, y: Sh, d: i128) -> Job {
    const RULE: &str = "a remainder is the dividend minus the divisor times the truncated quotient";
    let k = res_of(&[&a]);
    job("checked_rem", &format!("{}; {} {}", a.s(), y.s(), d), vec![a.inp(), constant(y, &[d], 0, (0, 0))], exact(), move |c: &mut Case| {
        let x = c.ins[0].num().clone();
        let Some(va) = in_scaled(&x, k) else { return c.undecided(RULE) };
        let s0 = x.sh.sign() as i128;
        for (st, rv) in c.results() {
            match rv {
                RV::Num(r) if !r.nan => {
                    no_neg_zero(c, &st, &r);
                    let Some(unit) = pow10(4 * k).and_then(|u| u.checked_mul(d)) else { return c.undecided(RULE) };
                    for (s, m) in values(c, RULE, &st, &r, k) {
                        multiple(c, RULE, &s, &va.sub(&m), unit);
                        let m = m.mulc(s0).unwrap();
                        c.require(RULE, &s, &[vec![lt0(&m)], vec![ge(&m.addc(-unit))]]);
                    }
                }
                _ => c.never(RULE, &st),
            }
        }
    })
}
