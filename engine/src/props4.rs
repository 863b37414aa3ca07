//! Comparison, hashing, rounding, type modifiers, integer conversions.
use crate::check::*;
use crate::ctx::*;
use crate::exec::*;
use crate::mem::*;
use crate::num::*;
use crate::props::*;
use crate::props2::*;
use crate::suite::*;

// ------------------------------------------------------------------ order
/// Digits of a number of constant digit count, as one integer scaled so that
/// its first digit weighs 10000^m.
fn lead(n: &Num, m: i128) -> Option<Form> {
    let nd = n.nd.konst()?;
    let ds: Vec<Form> = (0..nd).map(|i| in_digit(n, i)).collect();
    combine(&ds, m, 0)
}
/// Disjunctions describing a < b, a == b and a > b.
pub fn relation(a: &Num, b: &Num) -> Option<[Vec<Vec<Con>>; 3]> {
    let t = || vec![vec![]];
    let rank = |n: &Num| if n.sh.nan() { 2 } else { n.sh.sign() };
    let (ra, rb) = (rank(a), rank(b));
    if ra != rb {
        return Some(if ra < rb { [t(), vec![], vec![]] } else { [vec![], vec![], t()] });
    }
    if ra == 0 || ra == 2 {
        return Some([vec![], t(), vec![]]);
    }
    let (na, nb) = (a.nd.konst()?, b.nd.konst()?);
    let (gt, eq, lt) = match (a.w.konst(), b.w.konst()) {
        (Some(wa), Some(wb)) => {
            let k = (na - 1 - wa).max(nb - 1 - wb);
            let (va, vb) = (lead(a, wa + k)?, lead(b, wb + k)?);
            let d = va.sub(&vb);
            (vec![vec![gt0(&d)]], vec![vec![eq0(&d)]], vec![vec![lt0(&d)]])
        }
        _ => {
            let m = na.max(nb) - 1;
            let d = lead(a, m)?.sub(&lead(b, m)?);
            let w = a.w.sub(&b.w);
            (
                vec![vec![gt0(&w)], vec![eq0(&w), gt0(&d)]],
                vec![vec![eq0(&w), eq0(&d)]],
                vec![vec![lt0(&w)], vec![eq0(&w), lt0(&d)]],
            )
        }
    };
    Some(if ra > 0 { [lt, eq, gt] } else { [gt, eq, lt] })
}

fn order_post(op: String) -> impl Fn(&mut Case) + Send + Sync + Clone {
    const RULE: &str = "a comparison reports the order of the values, NaN greatest";
    move |c: &mut Case| {
        let (a, b) = (c.ins[0].num().clone(), c.ins[1].num().clone());
        let Some(rel) = relation(&a, &b) else { return c.undecided(RULE) };
        // the relations for which the answer is wrong
        let wrong = |r: &[usize]| -> Vec<Vec<Con>> { (0..3).filter(|i| !r.contains(i)).flat_map(|i| rel[i].clone()).collect() };
        let truth: &[usize] = match op.as_str() {
            "eq" => &[1],
            "ne" => &[0, 2],
            "lt" => &[0],
            "le" => &[0, 1],
            "gt" => &[2],
            "ge" => &[1, 2],
            _ => &[],
        };
        for (st, rv) in c.results() {
            match rv {
                RV::Int(f) => {
                    let Some(vs) = c.concretise(&st, &f, 260) else {
                        c.undecided(RULE);
                        continue;
                    };
                    for (s, v) in vs {
                        let right: Vec<usize> = if truth.is_empty() {
                            match v {
                                -1 | 255 => vec![0],
                                0 => vec![1],
                                1 => vec![2],
                                _ => vec![],
                            }
                        } else if v == 1 {
                            truth.to_vec()
                        } else {
                            (0..3).filter(|i| !truth.contains(i)).collect()
                        };
                        c.require(RULE, &s, &wrong(&right));
                    }
                }
                RV::Unknown => c.undecided(RULE),
                _ => c.never(RULE, &st),
            }
        }
    }
}

pub fn c04(t: Tier) -> Vec<Job> {
    let mut roots: Vec<(String, &str)> = vec![];
    for op in ["eq", "pcmp", "lt", "le", "gt", "ge", "ne"] {
        for f in ["b_b", "n_n", "b_n", "n_b"] {
            roots.push((format!("{}_{}", op, f), op));
        }
    }
    for op in ["eq", "pcmp"] {
        for f in ["b_rn", "rn_b", "rn_n", "n_rn", "rb_b", "b_rb"] {
            roots.push((format!("{}_{}", op, f), op));
        }
    }
    roots.push(("cmp_n".into(), "cmp"));
    roots.push(("cmp_b".into(), "cmp"));
    let mut v = vec![];
    let n = |sh, nd, w: (i128, i128), loose| In::N(sh, NumOpt { nd: Some(nd), w: Some(w), loose, ..NumOpt::default() });
    for (r, op) in &roots {
        let main = r == "cmp_n" || t == Tier::Thorough;
        for x in Sh::ALL {
            for y in Sh::ALL {
                let same = x.sign() == y.sign() && x.sign() != 0;
                if !same {
                    v.push(cx(r, vec![any(x), any(y)], true).job(order_post(op.to_string())));
                    continue;
                }
                let long = |s: Sh| matches!(s, Sh::Val { long: true, .. });
                let (wx, wy) = (if long(x) { (-32767, 32767) } else { (-64, 63) }, if long(y) { (-32767, 32767) } else { (-64, 63) });
                // any weight
                let nds: &[(i128, i128)] =
                    if main { &[(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (3, 3), (2, 4)] } else { &[(1, 1), (1, 2), (2, 1), (2, 2)] };
                for (na, nb) in nds {
                    v.push(cx(r, vec![n(x, *na, wx, false), n(y, *nb, wy, false)], false).job(order_post(op.to_string())));
                }
                // padded digits
                let ws: &[(i128, i128)] = if main { &[(0, 0), (0, 1), (1, 0), (2, 0), (0, 2), (-1, 1)] } else { &[(0, 1)] };
                for (wa, wb) in ws {
                    for (na, nb) in [(1, 2), (2, 1), (2, 2), (3, 2), (2, 3)] {
                        if !main && na + nb > 4 {
                            continue;
                        }
                        v.push(cx(r, vec![n(x, na, (*wa, *wa), true), n(y, nb, (*wb, *wb), true)], false).job(order_post(op.to_string())));
                    }
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ hashing
fn hash_events(st: &State) -> Vec<Event> {
    st.events.iter().filter(|e| e.name.starts_with("event_hash")).cloned().collect()
}
/// Events with their arguments as plain integers, one list per partition.
fn flat(c: &mut Case, st: &State, evs: &[Event]) -> Option<Vec<(State, Vec<(String, Vec<Form>)>)>> {
    let mut v: Vec<(State, Vec<(String, Vec<Form>)>)> = vec![(st.clone(), vec![])];
    for e in evs {
        let mut n = vec![];
        for (s, l) in v {
            match e.args.first() {
                Some(EvArg::Int(f)) => {
                    let mut l = l.clone();
                    l.push((e.name.to_string(), vec![f.clone()]));
                    n.push((s, l));
                }
                Some(EvArg::Slice { len, cells, .. }) => {
                    for (s1, b) in c.concretise(&s, len, 64)? {
                        let step = if b % 2 == 0 { 2 } else { 1 };
                        let mut w: Vec<(State, Vec<Form>)> = vec![(s1, vec![Form::c(b)])];
                        let mut i = 0;
                        while i < b {
                            let mut w2 = vec![];
                            for (s2, fs) in w {
                                for (s3, f) in c.s.read_ents(&s2, cells, len, &Form::c(i), step as u64, step == 2) {
                                    let mut fs = fs.clone();
                                    fs.push(f);
                                    w2.push((s3, fs));
                                }
                            }
                            w = w2;
                            i += step;
                        }
                        for (s2, fs) in w {
                            let mut l = l.clone();
                            l.push((e.name.to_string(), fs));
                            n.push((s2, l));
                        }
                    }
                }
                _ => return None,
            }
        }
        v = n;
    }
    Some(v)
}

/// The hash events of another (equal) value are the same as this case's.
fn hash_same(other: &'static str, mk: impl Fn(&mut Sess, &Num) -> Num + Send + Sync + Clone) -> impl Fn(&mut Case) + Send + Sync + Clone {
    const RULE: &str = "equal values feed the same data to the hasher";
    move |c: &mut Case| {
        let a = c.ins[0].num().clone();
        for (st, o) in c.outs.clone() {
            let Out::Ret(_) = o else {
                c.never(RULE, &st);
                continue;
            };
            let ea = hash_events(&st);
            let keep = c.s.st.clone();
            c.s.st = st.clone();
            let b = mk(&mut c.s, &a);
            let st1 = c.s.st.clone();
            c.s.st = keep;
            if st1.dom.bot {
                continue;
            }
            let Some((_, _, outs)) = c.again(other, &st1, &[InV::N(b)]) else {
                c.undecided(RULE);
                continue;
            };
            for (st2, o) in outs {
                let Out::Ret(_) = o else {
                    c.never(RULE, &st2);
                    continue;
                };
                let eb = hash_events(&st2);
                let Some(fa) = flat(c, &st2, &ea) else {
                    c.undecided(RULE);
                    continue;
                };
                for (s3, la) in fa {
                    let Some(fb) = flat(c, &s3, &eb) else {
                        c.undecided(RULE);
                        continue;
                    };
                    for (s4, lb) in fb {
                        let shape = |l: &[(String, Vec<Form>)]| l.iter().map(|(n, v)| (n.clone(), v.len())).collect::<Vec<_>>();
                        if shape(&la) != shape(&lb) {
                            c.never(RULE, &s4);
                            continue;
                        }
                        c.ok(RULE);
                        for ((_, x), (_, y)) in la.iter().zip(lb.iter()) {
                            for (p, q) in x.iter().zip(y) {
                                c.must_eq(RULE, &s4, p, q);
                            }
                        }
                    }
                }
            }
        }
    }
}

pub fn c05(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let mut nds: Vec<i128> = if t == Tier::Quick { vec![1, 2, 3] } else { vec![1, 2, 3, 4, 5] };
    for a in hot_shapes(PS) {
        if !nds.contains(&a.nd) {
            nds.push(a.nd);
        }
    }
    for (r, o) in [("hash_n", "hash_n"), ("hash_n", "hash_b"), ("hash_b", "hash_n"), ("hash_b", "hash_b")] {
        for x in [PS, NS, PL, NL] {
            for nd in &nds {
                for (lz, tz) in [(0, 0), (1, 0), (0, 1), (2, 1)] {
                    for ylong in [false, true] {
                        let neg = x.sign() < 0;
                        let y = Sh::Val { neg, long: ylong };
                        let inp = In::N(x, NumOpt { nd: Some(*nd), ..NumOpt::default() });
                        let nd = *nd;
                        v.push(ex(r, &format!("{} nd={}, {} with {} leading and {} trailing zero digits", x.s(), nd, y.s(), lz, tz), vec![inp]).job(hash_same(o, move |s, a| {
                            let b = s.value("b", y, &NumOpt { nd: Some(nd + lz + tz), loose: true, ..NumOpt::default() });
                            s.st.dom.add_eq0(&b.w.sub(&a.w).addc(-lz));
                            for i in 0..nd + lz + tz {
                                let d = in_digit(&b, i);
                                if i < lz || i >= lz + nd {
                                    s.st.dom.add_eq0(&d);
                                } else {
                                    s.st.dom.add_eq0(&d.sub(&in_digit(a, i - lz)));
                                }
                            }
                            b
                        })));
                    }
                }
            }
        }
        for x in [ZS, ZL] {
            for y in [ZS, ZL] {
                let inp = In::N(x, NumOpt { any_zero_weight: true, ..NumOpt::default() });
                v.push(ex(r, &format!("{}, {}", x.s(), y.s()), vec![inp]).job(hash_same(o, move |s, _| {
                    s.value("b", y, &NumOpt { any_zero_weight: true, ..NumOpt::default() })
                })));
            }
            // zero with padding digits
            for nd in 1..3 {
                for y in [PS, NS, PL, NL] {
                    v.push(ex(r, &format!("{}, {} with {} zero digits", x.s(), y.s(), nd), vec![any(x)]).job(hash_same(o, move |s, _| {
                        let b = s.value("b", y, &NumOpt { nd: Some(nd), loose: true, ..NumOpt::default() });
                        for i in 0..nd {
                            s.st.dom.add_eq0(&in_digit(&b, i));
                        }
                        b
                    })));
                }
            }
        }
        v.push(ex(r, "nan, nan", vec![any(Sh::Nan)]).job(hash_same(o, move |s, _| s.value("b", Sh::Nan, &NumOpt::default()))));
    }
    v
}

// ------------------------------------------------------------------ rounding
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Round,
    Trunc,
}
/// |r| in units of the input's last digit (10000^(w-nd+1)), one entry per partition
fn rel_value(c: &mut Case, st: &State, r: &Res, a: &Num) -> Option<Vec<(State, Form)>> {
    let nda = a.nd.konst()?;
    let mut out = vec![];
    for (s, nd) in c.concretise(st, &r.nd, 12)? {
        if nd == 0 {
            out.push((s, Form::c(0)));
            continue;
        }
        for (s1, rw) in c.concretise(&s, &r.w.sub(&a.w), 16)? {
            for (s2, ds) in c.digits(&s1, r, nd) {
                let f = combine(&ds, rw + nda - 1, 0)?;
                out.push((s2, f));
            }
        }
    }
    Some(out)
}
/// r is a rounded (truncated) at 10^-s where s is already limited
pub fn rounded(c: &mut Case, rule: &str, st: &State, a: &Num, r: &Res, s: &Form, mode: Mode) {
    let Some(nd) = a.nd.konst() else { return c.undecided(rule) };
    if r.nan {
        return c.never(rule, st);
    }
    if nd == 0 {
        return c.must_eq(rule, st, &r.nd, &Form::c(0));
    }
    if nd > 7 && a.w.konst().is_some() {
        return rounded_long(c, rule, st, a, r, s, mode);
    }
    let Some(va) = lead(a, nd - 1) else { return c.undecided(rule) };
    let Some(rs) = rel_value(c, st, r, a) else { return c.undecided(rule) };
    let neg = a.sh.sign() < 0;
    for (s1, vr) in rs {
        if r.neg != neg {
            c.require(rule, &s1, &[vec![gt0(&r.nd)]]);
        }
        // decimal position of the unit relative to the last digit
        let e = Form::c(nd - 1).sub(&a.w).mulc(4).unwrap().sub(s);
        let exact = with(&s1, &[ge(&e.neg())]);
        if !exact.dom.bot {
            c.must_eq(rule, &exact, &vr, &va);
        }
        for k in 1..=4 * nd {
            let s2 = with(&s1, &[eq0(&e.addc(-k))]);
            if s2.dom.bot {
                continue;
            }
            let u = pow10(k).unwrap();
            multiple(c, rule, &s2, &vr, u);
            let d = va.sub(&vr);
            match mode {
                Mode::Trunc => c.require(rule, &s2, &[vec![lt0(&d)], vec![ge(&d.addc(-u))]]),
                Mode::Round => {
                    // 2d < u and -2d <= u
                    let d2 = d.mulc(2).unwrap();
                    c.require(rule, &s2, &[vec![ge(&d2.addc(-u))], vec![lt0(&d2.addc(u))]])
                }
            }
        }
        let far = with(&s1, &[ge(&e.addc(-4 * nd - 1))]);
        if !far.dom.bot {
            c.must_eq(rule, &far, &vr, &Form::c(0));
        }
    }
}
/// The same, digit by digit.
fn rounded_long(c: &mut Case, rule: &str, st: &State, a: &Num, r: &Res, s: &Form, mode: Mode) {
    let (Some(nd), Some(w)) = (a.nd.konst(), a.w.konst()) else { return c.undecided(rule) };
    if r.neg != (a.sh.sign() < 0) {
        c.require(rule, st, &[vec![gt0(&r.nd)]]);
    }
    let sg = if r.neg { -1 } else { 1 };
    let low = w - nd + 1;
    let e = Form::c(-4 * low).sub(s);
    let exact = with(st, &[ge(&e.neg())]);
    if !exact.dom.bot {
        match in_wide(a, 1) {
            Some(v) => wide_is(c, rule, &exact, r, &v),
            None => c.undecided(rule),
        }
    }
    for k in 1..=4 * nd {
        let s2 = with(st, &[eq0(&e.addc(-k))]);
        if s2.dom.bot {
            continue;
        }
        if late() {
            return c.undecided(rule);
        }
        let (p, q) = (k / 4, k % 4);
        let u = pow10(q).unwrap();
        let mut s2 = s2;
        // digits kept whole, and the kept part of the digit the unit falls in
        let mut want = Wide::new();
        for i in 0..(nd - 1 - p).max(0) {
            wide_add(&mut want, w - i, &in_digit(a, i).mulc(sg).unwrap());
        }
        let mut part = Form::c(0);
        let rest = if p < nd {
            let d = in_digit(a, nd - 1 - p);
            part = s2.dom.floordiv(&d, u);
            d.lin(1, &part, -u).unwrap()
        } else {
            Form::c(0)
        };
        // whether the rest reaches half a unit
        let half = if q > 0 { rest.addc(-(u / 2)) } else { in_digit(a, nd - p).addc(-5000) };
        let mut cases = vec![(s2.clone(), 0)];
        if mode == Mode::Round {
            cases = vec![(with(&s2, &[ge(&half)]), 1), (with(&s2, &[lt0(&half)]), 0)];
        }
        for (s3, up) in cases {
            if s3.dom.bot {
                continue;
            }
            let mut want = want.clone();
            wide_add(&mut want, low + p, &part.addc(up).mulc(u * sg).unwrap());
            wide_is(c, rule, &s3, r, &want);
        }
    }
    let far = with(st, &[ge(&e.addc(-4 * nd - 1))]);
    if !far.dom.bot {
        c.must_eq(rule, &far, &r.nd, &Form::c(0));
    }
}
/// the partitions of a scale argument limited to -1000..1000
fn limited(st: &State, s: &Form) -> Vec<(State, Form)> {
    [
        (with(st, &[ge(&s.addc(-1001))]), Form::c(1000)),
        (with(st, &[ge(&s.addc(1000)), ge(&s.neg().addc(1000))]), s.clone()),
        (with(st, &[lt0(&s.addc(1000))]), Form::c(-1000)),
    ]
    .into_iter()
    .filter(|(s, _)| !s.dom.bot)
    .collect()
}
const ROUND: &str = "rounding gives the nearest multiple of the requested unit, halves away from zero";
const TRUNC: &str = "truncation keeps the digits down to the requested unit";
/// Every scale; for long values one by one, with the unit at the digits where something may change.
pub fn scales_for(a: &Shape) -> Vec<In> {
    if a.nd <= 7 {
        return vec![In::I(NINF, PINF)];
    }
    let mut ps = vec![0, 1, a.nd / 2, a.nd - 1, a.nd];
    for c in crate::hot::hot() {
        for d in [*c, c / 4] {
            ps.extend([d - 1, d, d + 1]);
            ps.extend([a.nd - d - 1, a.nd - d]);
        }
    }
    ps.retain(|p| (0..=a.nd).contains(p));
    ps.sort();
    ps.dedup();
    let mut bs: Vec<i128> = vec![];
    for p in ps {
        for q in [0, 2] {
            bs.push(4 * (a.nd - 1 - a.w) - 4 * p - q);
        }
    }
    bs.into_iter().map(|b| In::I(b, b)).collect()
}
fn round_cx(t: Tier) -> Vec<Cx> {
    let mut v = vec![];
    let (nds, ws): (&[i128], &[i128]) = if t == Tier::Quick { (&[1, 2, 3], &[-2, -1, 0, 1, 2]) } else { (&[1, 2, 3, 4, 5], &[-4, -3, -2, -1, 0, 1, 2, 3]) };
    for r in ["round", "trunc", "round_mut", "trunc_mut"] {
        for a in wide(&[PS, NS, ZS, ZL, NL], nds, ws) {
            for b in scales_for(&a) {
                v.push(cx(r, vec![a.inp(), b], false));
            }
        }
        // any weight
        for x in [PS, NL] {
            for nd in [1, 2] {
                let inp = In::N(x, NumOpt { nd: Some(nd), ..NumOpt::default() });
                v.push(cx(r, vec![inp, In::I(NINF, PINF)], false));
            }
        }
    }
    v
}
pub fn c26(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    for k in round_cx(t) {
        let mode = if k.root.starts_with("round") { Mode::Round } else { Mode::Trunc };
        let rule = if mode == Mode::Round { ROUND } else { TRUNC };
        v.push(k.job(move |c: &mut Case| {
            let (a, s) = (c.ins[0].num().clone(), c.ins[1].int().clone());
            for (st, rv) in c.results() {
                match rv {
                    RV::Num(r) => {
                        for (s1, sc) in limited(&st, &s) {
                            rounded(c, rule, &s1, &a, &r, &sc, mode);
                        }
                    }
                    RV::Panic(_) if mode == Mode::Round && matches!(a.sh, Sh::Val { long: true, .. }) => {
                        // only when the carry leaves the format
                        c.require(rule, &st, &[vec![lt0(&a.w.addc(-32767))]])
                    }
                    _ => c.never(rule, &st),
                }
            }
        }));
    }
    let (nds, ws): (&[i128], &[i128]) = if t == Tier::Quick { (&[1, 2, 3], &[-3, -2, -1, 0, 1, 2]) } else { (&[1, 2, 3, 4, 5], &[-5, -4, -3, -2, -1, 0, 1, 2, 3, 4]) };
    const CEIL: &str = "ceiling is the least integer not below the value, floor the greatest not above";
    const INC: &str = "increment adds one";
    for r in ["ceil", "floor", "inc", "b_ceil", "b_floor", "b_inc"] {
        for a in wide(&[PS, NS, ZS, ZL, PL, NL], nds, ws) {
            let k = res_of(&[&a]);
            let rule = if r.ends_with("inc") { INC } else { CEIL };
            v.push(cx(r, vec![a.inp()], false).job(move |c: &mut Case| {
                let x = c.ins[0].num().clone();
                let (Some(one), Some(va)) = (pow10(4 * k), in_scaled(&x, k)) else {
                    // too long for one number: digit by digit
                    let Some(mut want) = in_wide(&x, 1) else { return c.undecided(rule) };
                    let sg = x.sh.sign() as i128;
                    let up = if rule == INC {
                        1
                    } else {
                        want.retain(|e, _| *e >= 0);
                        let up = if c.root.ends_with("ceil") { 1 } else { -1 };
                        // the last digit is not zero
                        if k > 0 && sg == up { up } else { 0 }
                    };
                    wide_add(&mut want, 0, &Form::c(up));
                    for (st, rv) in c.results() {
                        match rv {
                            RV::Num(r) if !r.nan => wide_is(c, rule, &st, &r, &want),
                            _ => c.never(rule, &st),
                        }
                    }
                    return;
                };
                for (st, rv) in c.results() {
                    match rv {
                        RV::Num(r) if !r.nan => {
                            for (s, f) in values(c, rule, &st, &r, k) {
                                if rule == INC {
                                    c.must_eq(rule, &s, &f, &va.addc(one));
                                    continue;
                                }
                                multiple(c, rule, &s, &f, one);
                                let d = if c.root.ends_with("ceil") { f.sub(&va) } else { va.sub(&f) };
                                c.require(rule, &s, &[vec![lt0(&d)], vec![ge(&d.addc(-one))]]);
                            }
                        }
                        _ => c.never(rule, &st),
                    }
                }
            }));
        }
    }
    // weights far from zero: all digits on one side of the point
    for r in ["ceil", "floor", "b_ceil", "b_floor"] {
        for x in [PS, NS, PL, NL] {
            for nd in 1..=if t == Tier::Quick { 2 } else { 4 } {
                for (lo, hi) in [(-32768i128, -1i128), (nd - 1, 32767)] {
                    let sh = if matches!(x, Sh::Val { long: true, .. }) { (lo, hi) } else { (lo.max(-64), hi.min(63)) };
                    let inp = In::N(x, NumOpt { nd: Some(nd), w: Some(sh), ..NumOpt::default() });
                    v.push(cx(r, vec![inp], false).job(move |c: &mut Case| {
                        let a = c.ins[0].num().clone();
                        for (st, rv) in c.results() {
                            match rv {
                                RV::Num(r) if !r.nan => {
                                    if hi < 0 {
                                        let up = c.root.ends_with("ceil");
                                        let want = if up && a.sh.sign() > 0 { 1 } else if !up && a.sh.sign() < 0 { -1 } else { 0 };
                                        value_is(c, CEIL, &st, &r, &Form::c(want), 0);
                                    } else {
                                        c.check(CEIL, &st, r.neg == (a.sh.sign() < 0));
                                        let (Some(va), Some(vs)) = (lead(&a, nd - 1), rel_value(c, &st, &r, &a)) else {
                                            c.undecided(CEIL);
                                            continue;
                                        };
                                        for (s, f) in vs {
                                            c.must_eq(CEIL, &s, &f, &va);
                                        }
                                    }
                                }
                                _ => c.never(CEIL, &st),
                            }
                        }
                    }));
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ modifiers
pub fn c11(t: Tier) -> Vec<Job> {
    const VAL: &str = "the value is rounded to the scale of the modifier";
    const SCALE: &str = "the value gets the scale of the modifier";
    const FLAG: &str = "true exactly when the rounded value needs more than precision minus scale integer digits";
    const DEF: &str = "the default modifier changes nothing and reports nothing";
    let mut v = vec![];
    let (nds, ws): (&[i128], &[i128]) = if t == Tier::Quick { (&[1, 2], &[-3, -2, -1, 0, 1, 2]) } else { (&[1, 2, 3, 4], &[-4, -3, -2, -1, 0, 1, 2, 3]) };
    let mut cases: Vec<Cx> = vec![];
    for a in wide(&[PS, NS, ZS, ZL, PL, NL], nds, ws) {
        if a.nd > 7 || !(-4..=3).contains(&a.w) {
            // precisions around the number of whole digits
            let whole = 4 * (a.w + 1);
            let mut ps: Vec<(i128, i128)> = vec![(1, 0), (1000, 0), (1000, 1000)];
            for s in [0, 2, 4 * (a.nd - 1 - a.w) - 2] {
                for d in [-16, -4, -3, -1, 0, 4] {
                    ps.push((whole + s + d, s));
                }
            }
            ps.retain(|(p, s)| (1..=1000).contains(p) && (0..=*p).contains(s));
            ps.sort();
            ps.dedup();
            for (p, s) in ps {
                cases.push(cx("typmod_apply", vec![a.inp(), In::I(p, p), In::I(s, s)], false));
            }
            continue;
        }
        for p in [1, 2, 3, 4, 5, 7, 8, 9, 1000] {
            for s in [0, 1, 2, 3, 4, 5, 8, 1000] {
                if s > p || (t == Tier::Quick && matches!(a.sh, Sh::Val { long: true, .. }) && (p + s) % 3 > 0) {
                    continue;
                }
                cases.push(cx("typmod_apply", vec![a.inp(), In::I(p, p), In::I(s, s)], false));
            }
        }
    }
    for k in cases {
        v.push(k.job(|c: &mut Case| {
            let a = c.ins[0].num().clone();
            let (p, s) = (c.ins[1].int().k, c.ins[2].int().k);
            let args = c.args.clone();
            let f = c.f;
            for (st, o) in c.outs.clone() {
                let flags = c.decode(f, &args, &st, &o);
                for (st, rv) in flags {
                    let RV::Int(flag) = rv else {
                        c.never(FLAG, &st);
                        continue;
                    };
                    for (s2, rv) in c.arg_buf(&st, &args[0]) {
                        let RV::Num(r) = rv else {
                            c.undecided(VAL);
                            continue;
                        };
                        rounded(c, VAL, &s2, &a, &r, &Form::c(s), Mode::Round);
                        if r.nan {
                            continue;
                        }
                        c.must_eq(SCALE, &s2, &r.ds, &Form::c(s));
                        let Some(vs) = c.fix(&s2, &r) else {
                            c.undecided(FLAG);
                            continue;
                        };
                        for (s3, r3, nd, w) in vs {
                            let Some(fl) = c.concretise(&s3, &flag, 2) else {
                                c.undecided(FLAG);
                                continue;
                            };
                            for (s4, fl) in fl {
                                for (s5, ds) in c.digits(&s4, &r3, nd) {
                                    // value in units of its last digit against 10^(p-s)
                                    let k = nd - 1 - w;
                                    let e = p - s + 4 * k;
                                    let Some(m) = (if nd <= 8 { combine(&ds, nd - 1, 0) } else { None }) else {
                                        // too long for one number: the first digit tells
                                        let lead = &ds[0];
                                        let (lo, hi) = if e < 4 * nd - 3 { (1, 1) } else { (1, pow10((e - 4 * nd + 4).min(4)).unwrap()) };
                                        // (a first digit of zero is reported elsewhere)
                                        let s5 = with(&s5, &[ge(&lead.addc(-lo))]);
                                        let bad = if fl == 0 { ge(&lead.addc(-hi)) } else { lt0(&lead.addc(-hi)) };
                                        c.require(FLAG, &s5, &[vec![bad]]);
                                        continue;
                                    };
                                    let big = if nd == 0 {
                                        vec![]
                                    } else if e < 0 {
                                        vec![vec![]]
                                    } else if e >= 4 * nd {
                                        vec![]
                                    } else {
                                        vec![vec![ge(&m.addc(-pow10(e).unwrap()))]]
                                    };
                                    let small = if nd == 0 || e >= 4 * nd {
                                        vec![vec![]]
                                    } else if e < 0 {
                                        vec![]
                                    } else {
                                        vec![vec![lt0(&m.addc(-pow10(e).unwrap()))]]
                                    };
                                    c.require(FLAG, &s5, if fl == 0 { &big } else { &small });
                                }
                            }
                        }
                    }
                }
            }
        }));
    }
    for x in Sh::ALL {
        v.push(cx("typmod_apply_default", vec![any(x)], true).job(unchanged(DEF)));
    }
    for a in wide(&[PS, NS, NL], &[1, 2, 3], &[-1, 0, 1]) {
        v.push(cx("typmod_apply_default", vec![a.inp()], false).job(unchanged(DEF)));
    }
    v
}
fn unchanged(rule: &'static str) -> impl Fn(&mut Case) + Send + Sync + Clone {
    move |c: &mut Case| {
        let a = c.ins[0].num().clone();
        let args = c.args.clone();
        let f = c.f;
        for (st, o) in c.outs.clone() {
            for (st, rv) in c.decode(f, &args, &st, &o) {
                match rv {
                    RV::Int(f) => c.must_eq(rule, &st, &f, &Form::c(0)),
                    _ => c.never(rule, &st),
                }
            }
            for (st, rv) in c.arg_buf(&st, &args[0]) {
                match rv {
                    RV::Num(r) => keeps(c, rule, &st, &a, &r),
                    _ => c.undecided(rule),
                }
            }
        }
    }
}
/// r is the stored value a
pub fn keeps(c: &mut Case, rule: &str, st: &State, a: &Num, r: &Res) {
    if r.nan || a.sh.nan() {
        return c.check(rule, st, r.nan && a.sh.nan());
    }
    c.must_eq(rule, st, &r.ds, &a.ds);
    c.must_eq(rule, st, &r.w, &a.w);
    c.must_eq(rule, st, &r.nd, &a.nd);
    let neg = matches!(a.sh, Sh::Val { neg: true, .. });
    c.check(rule, st, r.neg == neg);
    if let Some(n) = a.nd.konst() {
        for i in 0..n {
            for (s, d) in c.s.digit(st, r, &Form::c(i)) {
                c.must_eq(rule, &s, &d, &in_digit(a, i));
            }
        }
    } else {
        let i = input("index", 0, 40000);
        let s = with(st, &[ge(&a.nd.sub(&i).addc(-1))]);
        let want = Form::atom(mk_atom(Kind::Read(a.tag, i.mulc(2).unwrap(), 2, true), 0, 9999));
        for (s2, d) in c.s.digit(&s, r, &i) {
            if s2.dom.eq(&d, &want) {
                c.ok(rule)
            } else {
                c.undecided(rule)
            }
        }
    }
}

// ------------------------------------------------------------------ integers
pub fn c12(t: Tier) -> Vec<Job> {
    const FROM: &str = "an integer converts to its exact value with scale zero";
    const TO: &str = "a numeric converts to the integer nearest to it";
    const RANGE: &str = "out of range is reported only for values that round outside the type";
    let mut v = vec![];
    for (ty, sg, bits) in INTS {
        let (lo, hi) = if sg {
            if bits == 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) }
        } else if bits == 128 {
            (0, i128::MAX)
        } else {
            (0, (1i128 << bits) - 1)
        };
        // 128-bit types: the arithmetic of the analysis covers the middle range
        let lim = 10i128.pow(30);
        let (l, h) = if bits == 128 { (if sg { -lim } else { 0 }, lim) } else { (lo, hi) };
        let mut ranges: Vec<(i128, i128)> = vec![(l.min(0), 0.min(h)), (0, h)];
        ranges.push((l, h));
        if sg {
            ranges.push((l, l));
        }
        ranges.push((h, h));
        for (l, h) in ranges {
            v.push(cx(&format!("from_{}", ty), vec![In::I(l, h)], false).job(|c: &mut Case| {
                let x = c.ins[0].int().clone();
                for (st, rv) in c.results() {
                    match rv {
                        RV::Num(r) if !r.nan => {
                            value_is(c, FROM, &st, &r, &x, 0);
                            c.must_eq(FROM, &st, &r.ds, &Form::c(0));
                        }
                        _ => c.never(FROM, &st),
                    }
                }
            }));
        }
        let forms: &[&str] = if t == Tier::Quick && bits != 32 { &["n"] } else { &["n", "r", "b"] };
        let maxw = match bits {
            8 | 16 => 3,
            32 => 4,
            64 => 6,
            _ => 3,
        };
        for f in forms {
            let nds: &[i128] = if t == Tier::Quick { &[1, 2, 3] } else { &[1, 2, 3, 4, 5] };
            let ws: Vec<i128> = (-2..=maxw).collect();
            for a in wide(&[PS, NS, ZS, ZL, NL], nds, &ws) {
                let m = a.nd - 1 - a.w;
                if m.abs() > 6 {
                    continue;
                }
                v.push(cx(&format!("to_{}_{}", ty, f), vec![a.inp()], false).job(move |c: &mut Case| {
                    let x = c.ins[0].num().clone();
                    let k = m.max(0);
                    let u = pow10(4 * k).unwrap();
                    let Some(va) = in_scaled(&x, k) else { return c.undecided(TO) };
                    for (st, rv) in c.results() {
                        match rv {
                            RV::Int(f) => {
                                // f in range and nearest, halves away from zero
                                if bits < 128 {
                                    c.require(TO, &st, &[vec![lt0(&f.addc(-lo))], vec![lt0(&f.neg().addc(hi))]]);
                                }
                                let Some(d) = va.lin(2, &f, -2 * u) else {
                                    c.undecided(TO);
                                    continue;
                                };
                                let d = if x.sh.sign() < 0 { d.neg() } else { d };
                                // magnitude: 2(|a| - |f|u) < u and >= -u
                                c.require(TO, &st, &[vec![ge(&d.addc(-u))], vec![lt0(&d.addc(u))]]);
                            }
                            RV::Err(e) if e == "Overflow" => {
                                if bits == 128 {
                                    c.undecided(RANGE);
                                    continue;
                                }
                                // not (2a < (2 max + 1) u and 2a > (2 min - 1) u)
                                let (Some(up), Some(dn)) = ((2 * hi + 1).checked_mul(u), (2 * lo - 1).checked_mul(u)) else {
                                    c.undecided(RANGE);
                                    continue;
                                };
                                let a2 = va.mulc(2).unwrap();
                                c.require(RANGE, &st, &[vec![lt0(&a2.addc(-up)), gt0(&a2.addc(-dn))]]);
                            }
                            _ => c.never(TO, &st),
                        }
                    }
                }));
            }
        }
    }
    v.push(cx("from_bool", vec![In::I(0, 1)], false).job(|c: &mut Case| {
        let x = c.ins[0].int().clone();
        for (st, rv) in c.results() {
            match rv {
                RV::Num(r) if !r.nan => value_is(c, FROM, &st, &r, &x, 0),
                _ => c.never(FROM, &st),
            }
        }
    }));
    v
}
