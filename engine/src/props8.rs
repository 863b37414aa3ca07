//! Stored form, range, documented failures.
use crate::check::*;
use crate::ctx::*;
use crate::exec::*;
use crate::mem::*;
use crate::num::*;
use crate::props::*;
use crate::props2::*;
use crate::props3::*;
use crate::props5::*;
use crate::suite::*;

// ------------------------------------------------------------------ stored form
const HEAD: &str = "a stored value decodes to the weight, scale, sign and digit count of its source";
const FORM: &str = "the short form is used exactly for weights -64..63 and scales up to 63";
const LEN: &str = "the stored length is that of the header and digits and lies within the buffer";
fn length(c: &mut Case, st: &State, r: &Res) {
    let hs = if r.nan { 6 } else if r.long { 8 } else { 6 };
    // total == header + digits
    let t = r.total.sub(&r.nd.mulc(2).unwrap()).addc(-hs);
    c.must_eq(LEN, st, &t, &Form::c(0));
    let room = r.buf_len.sub(&r.buf_off).sub(&r.total);
    c.must_ge0(LEN, st, &room);
}
fn form(c: &mut Case, st: &State, r: &Res) {
    length(c, st, r);
    if !r.nan && r.long {
        c.require(FORM, st, &[vec![ge(&r.w.addc(64)), ge(&r.w.neg().addc(63)), ge(&r.ds.neg().addc(63))]]);
    } else {
        c.ok(FORM);
    }
}
fn keeps_header(flip: i32) -> impl Fn(&mut Case) + Send + Sync + Clone {
    move |c: &mut Case| {
        let n = c.ins[0].num().clone();
        let want = match flip {
            0 => n.sh.sign(),
            -1 => -n.sh.sign(),
            _ => n.sh.sign().abs(),
        };
        for (st, rv) in c.results() {
            match rv {
                RV::Num(r) => {
                    c.check(HEAD, &st, r.nan == n.sh.nan());
                    length(c, &st, &r);
                    if r.nan || n.sh.nan() {
                        continue;
                    }
                    c.must_eq(HEAD, &st, &r.ds, &n.ds);
                    c.must_eq(HEAD, &st, &r.w, &n.w);
                    c.must_eq(HEAD, &st, &r.nd, &n.nd);
                    c.check(HEAD, &st, r.neg == (want < 0));
                }
                RV::Unknown => c.undecided(HEAD),
                _ => c.never(HEAD, &st),
            }
        }
    }
}
/// The value obtained is read back by the readers of the library.
fn read_back(c: &mut Case) {
    let n = c.ins[0].num().clone();
    for (st, rv) in c.results() {
        match (c.root.trim_start_matches("root_").trim_start_matches("b_"), rv) {
            ("scale", RV::Int(f)) if !n.sh.nan() => c.must_eq(HEAD, &st, &f, &n.ds),
            ("scale", RV::Absent) => c.check(HEAD, &st, n.sh.nan()),
            ("is_nan", RV::Int(f)) => c.must_eq(HEAD, &st, &f, &Form::c(n.sh.nan() as i128)),
            ("is_negative", RV::Int(f)) => c.must_eq(HEAD, &st, &f, &Form::c((n.sh.sign() < 0) as i128)),
            ("is_positive", RV::Int(f)) => c.must_eq(HEAD, &st, &f, &Form::c((!n.sh.nan() && n.sh.sign() >= 0) as i128)),
            ("n_as_bytes" | "as_bytes" | "as_numeric" | "deref" | "as_ref" | "borrow", RV::Ref(_, l)) => c.must_eq(LEN, &st, &l, &n.total),
            (_, RV::Unknown) => c.undecided(HEAD),
            _ => c.never(HEAD, &st),
        }
    }
}
fn only_form(c: &mut Case) {
    // operations on an owned value may keep the form it has
    let keeps = ["abs", "negate", "_mut", "neg_", "b_"].iter().any(|x| c.root.contains(x));
    each_num(if keeps { length } else { form })(c)
}
pub fn c09(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    for be in [false, true] {
        let mut add = |j: Job| v.push(if be { j.be() } else { j });
        for sh in Sh::ALL {
            for r in ["to_owned", "clone"] {
                add(cx(r, vec![any(sh)], true).job(keeps_header(0)));
            }
            for r in ["negate", "b_negate", "neg_b", "neg_r", "neg_n", "negate_mut"] {
                add(cx(r, vec![any(sh)], true).job(keeps_header(-1)));
            }
            for r in ["abs", "b_abs", "abs_mut"] {
                add(cx(r, vec![any(sh)], true).job(keeps_header(1)));
            }
            for r in [
                "scale", "b_scale", "is_nan", "b_is_nan", "is_negative", "b_is_negative", "is_positive", "b_is_positive",
                "n_as_bytes", "b_as_bytes", "as_numeric", "deref", "as_ref", "borrow",
            ] {
                add(cx(r, vec![any(sh)], true).job(read_back));
            }
        }
        // every weight and scale, few digits: single digit products fill the header
        for (x, y) in [(PS, NS), (PL, NL), (NS, NL), (PL, PL)] {
            let o = |sh, nd| In::N(sh, NumOpt { nd: Some(nd), ..NumOpt::default() });
            for (na, nb) in [(1, 1), (2, 1)] {
                add(cx("checked_mul", vec![o(x, na), o(y, nb)], false).job(only_form));
            }
        }
        for r in ["nan", "zero"] {
            let nan = r == "nan";
            add(cx(r, vec![], false).job(move |c: &mut Case| {
                for (st, rv) in c.results() {
                    match rv {
                        RV::Num(r) => {
                            form(c, &st, &r);
                            c.check(HEAD, &st, r.nan == nan);
                            if !nan {
                                c.must_eq(HEAD, &st, &r.nd, &Form::c(0));
                                c.must_eq(HEAD, &st, &r.w, &Form::c(0));
                                c.must_eq(HEAD, &st, &r.ds, &Form::c(0));
                            }
                        }
                        _ => c.never(HEAD, &st),
                    }
                }
            }));
        }
        for r in ["nan_ref", "zero_ref"] {
            let nan = r == "nan_ref";
            add(cx(r, vec![], false).job(move |c: &mut Case| {
                for (st, rv) in c.results() {
                    let RV::Ref(Val::Ptr(id, off), len) = rv else {
                        c.never(HEAD, &st);
                        continue;
                    };
                    c.must_eq(LEN, &st, &len, &Form::c(6));
                    match c.s.decode_at(&st, id, &off, &off, &len) {
                        Some(rs) => {
                            for (s, r) in rs {
                                c.check(HEAD, &s, r.nan == nan);
                                if !r.nan {
                                    c.must_eq(HEAD, &s, &r.nd, &Form::c(0));
                                    c.must_eq(HEAD, &s, &r.w, &Form::c(0));
                                    c.must_eq(HEAD, &s, &r.ds, &Form::c(0));
                                    c.check(HEAD, &s, !r.neg);
                                }
                            }
                        }
                        None => c.undecided(HEAD),
                    }
                }
            }));
        }
        // other operations: length and form only
        for c in unary_cx(Tier::Quick).into_iter().chain(ints_cx()).chain(binary_cx(Tier::Quick)) {
            if be && t == Tier::Quick && !(c.root.starts_with("round") || c.root.starts_with("from_") || c.root == "ceil" || c.root == "checked_add") {
                continue;
            }
            add(c.job(only_form));
        }
    }
    v
}

// ------------------------------------------------------------------ range
const RANGE: &str = "a result is absent (or the documented panic raised) exactly when its weight or scale is out of range";
const EXACT: &str = "a stored result carries the weight, scale, sign and digits that were computed";
/// V(r) 10000^k / 10000^base == want, where base is a (symbolic) weight
fn value_at(c: &mut Case, rule: &str, st: &State, r: &Res, base: &Form, want: &Form, k: i128) {
    let off = r.w.sub(base);
    let Some(nds) = c.concretise(st, &r.nd, 8) else { return c.undecided(rule) };
    for (s, nd) in nds {
        if nd == 0 {
            c.must_eq(rule, &s, want, &Form::c(0));
            continue;
        }
        let Some(ws) = c.concretise(&s, &off, 12) else {
            c.undecided(rule);
            continue;
        };
        for (s1, o) in ws {
            for (s2, ds) in c.digits(&s1, r, nd) {
                let mut hi = vec![];
                for (i, d) in ds.iter().enumerate() {
                    if o - (i as i128) + k < 0 {
                        c.must_eq(rule, &s2, d, &Form::c(0));
                    } else {
                        hi.push(d.clone());
                    }
                }
                match combine(&hi, o, k) {
                    Some(f) => {
                        let f = if r.neg { f.neg() } else { f };
                        c.must_eq(rule, &s2, &f, want);
                    }
                    None => c.undecided(rule),
                }
            }
        }
    }
}
fn overflowed(rv: &RV) -> bool {
    match rv {
        RV::Absent => true,
        RV::Panic(m) => m.contains("value overflows numeric format"),
        _ => false,
    }
}
/// Digits of an input as one integer: first digit weighs 10000^m.
fn int_at(n: &Num, m: i128) -> Option<Form> {
    let nd = n.nd.konst()?;
    let ds: Vec<Form> = (0..nd).map(|i| in_digit(n, i)).collect();
    let f = combine(&ds, m, 0)?;
    Some(if n.sh.sign() < 0 { f.neg() } else { f })
}
/// True weight of an integer scaled so that weight base has factor 10000^k:
/// one partition per weight offset (None: zero).
fn weights(st: &State, v: &Form, k: i128, lo: i128, hi: i128) -> Vec<(State, Option<i128>)> {
    let mut out = vec![];
    let z = with(st, &[eq0(v)]);
    if !z.dom.bot {
        out.push((z, None));
    }
    for sg in [1, -1] {
        let m = if sg > 0 { v.clone() } else { v.neg() };
        for o in lo..=hi {
            let (Some(l), Some(h)) = (pow10(4 * (o + k)), pow10(4 * (o + k + 1))) else { continue };
            let s = with(st, &[ge(&m.addc(-l)), ge(&m.neg().addc(h - 1))]);
            if !s.dom.bot {
                out.push((s, Some(o)));
            }
        }
    }
    out
}
fn range_post(op: &'static str, db: i128) -> impl Fn(&mut Case) + Send + Sync + Clone {
    move |c: &mut Case| {
        let (a, b) = (c.ins[0].num().clone(), c.ins[1].num().clone());
        let (na, nb) = (a.nd.konst().unwrap_or(0), b.nd.konst().unwrap_or(0));
        for (st0, rv) in c.results() {
            let mut st = st0.clone();
            // value relative to base, factor 10000^k
            let (base, want, k, ds): (Form, Form, i128, Vec<Form>) = if op == "mul" {
                let (Some(fa), Some(fb)) = (int_at(&a, na - 1), int_at(&b, nb - 1)) else { continue };
                let p = {
                    let mut f = Form::c(0);
                    for i in 0..na {
                        for j in 0..nb {
                            let m = c.s.ex.mul(&mut st, &in_digit(&a, i), &in_digit(&b, j));
                            let e = na - 1 - i + nb - 1 - j;
                            f = match pow10(4 * e).and_then(|x| f.lin(1, &m, x)) {
                                Some(f) => f,
                                None => return c.undecided(EXACT),
                            };
                        }
                    }
                    f
                };
                let _ = (fa, fb);
                let p = if a.sh.sign() * b.sh.sign() < 0 { p.neg() } else { p };
                (a.w.add(&b.w), p, na - 1 + nb - 1, vec![a.ds.add(&b.ds)])
            } else {
                let k = (na - 1).max(nb - 1 - db).max(0);
                let (Some(fa), Some(fb)) = (int_at(&a, k), int_at(&b, k + db)) else { continue };
                let w = if op == "add" { fa.add(&fb) } else { fa.sub(&fb) };
                (a.w.clone(), w, k, vec![a.ds.clone(), b.ds.clone()])
            };
            let hi = (db.max(0)) + 1;
            match &rv {
                RV::Num(r) if !r.nan => {
                    // scale
                    if op == "mul" {
                        c.must_eq(EXACT, &st, &r.ds, &ds[0]);
                    } else {
                        let (x, y) = (r.ds.sub(&ds[0]), r.ds.sub(&ds[1]));
                        c.require(EXACT, &st, &[vec![lt0(&x)], vec![lt0(&y)], vec![gt0(&x), gt0(&y)]]);
                    }
                    value_at(c, EXACT, &st, r, &base, &want, k);
                }
                _ if overflowed(&rv) => {
                    // every representable value in this partition is a violation
                    for (s, o) in weights(&st, &want, k, -k - 1, hi) {
                        let mut neg = vec![];
                        if let Some(o) = o {
                            let w = base.addc(o);
                            neg.push(ge(&w.neg().addc(32767)));
                            neg.push(ge(&w.addc(32768)));
                        }
                        if op == "mul" {
                            neg.push(ge(&ds[0].neg().addc(0x3FFF)));
                        }
                        c.require(RANGE, &s, &[neg]);
                    }
                }
                RV::Unknown => c.undecided(RANGE),
                _ => c.never(RANGE, &st),
            }
        }
    }
}
pub fn c07(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let o = |sh, nd| In::N(sh, NumOpt { nd: Some(nd), ..NumOpt::default() });
    // products: any weights and scales
    let nds: &[(i128, i128)] = if t == Tier::Quick { &[(1, 1), (1, 2), (2, 1)] } else { &[(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)] };
    for x in [PS, NS, PL, NL] {
        for y in [PS, PL, NL] {
            for (na, nb) in nds {
                let forms: Vec<String> = if (x, y) == (PL, NL) && (*na, *nb) == (1, 1) {
                    FORMS.iter().map(|f| format!("mul_{}", f)).chain(AFORMS.iter().map(|f| format!("mul_assign_{}", f))).collect()
                } else {
                    vec![]
                };
                for r in std::iter::once("checked_mul".to_string()).chain(forms) {
                    // large values; small values whose scales cover their digits
                    let big = |sh, nd| In::N(sh, NumOpt { nd: Some(nd), w: Some((0, 32767)), ds: Some((4 * nd, 4 * nd + 2)), ..NumOpt::default() });
                    let low = |sh, nd| In::N(sh, NumOpt { nd: Some(nd), w: Some((-4096, -1)), ..NumOpt::default() });
                    if x == PL || x == NL {
                        v.push(cx(&r, vec![big(x, *na), big(y, *nb)], false).job(range_post("mul", 0)));
                    }
                    let mut c = cx(&r, vec![low(x, *na), low(y, *nb)], false);
                    c.ctx += "; scales that cover the digits";
                    c.pre = Some(std::sync::Arc::new(move |s: &mut Sess, i: &[InV]| {
                        for x in i {
                            let x = x.num();
                            let d = x.ds.add(&x.w.mulc(4).unwrap()).addc(4).sub(&x.nd.mulc(4).unwrap());
                            s.st.dom.add_ge0(&d);
                        }
                    }));
                    v.push(c.job(range_post("mul", 0)));
                }
            }
        }
    }
    // sums: any weights a constant distance apart
    let shs: &[(Sh, Sh)] = &[(PL, PL), (NL, NL), (PL, NL), (NL, PL), (PS, PS), (PS, NS), (PS, PL), (NL, NS)];
    for (x, y) in shs {
        for op in ["add", "sub"] {
            for db in [-1i128, 0, 1] {
                for (na, nb) in [(1, 1), (1, 2), (2, 1), (2, 2)] {
                    let forms: Vec<String> = if db == 0 && (na, nb) == (1, 1) && (x, y) == (&PL, &PL) {
                        FORMS.iter().map(|f| format!("{}_{}", op, f)).chain(AFORMS.iter().map(|f| format!("{}_assign_{}", op, f))).collect()
                    } else {
                        vec![]
                    };
                    for r in std::iter::once(format!("checked_{}", op)).chain(forms) {
                        let mut c = cx(&r, vec![o(*x, na), o(*y, nb)], false);
                        c.ctx += &format!("; weights {} apart", db);
                        c.pre = Some(std::sync::Arc::new(move |s: &mut Sess, i: &[InV]| {
                            let d = i[1].num().w.sub(&i[0].num().w).addc(-db);
                            s.st.dom.add_eq0(&d);
                        }));
                        v.push(c.job(range_post(if op == "add" { "add" } else { "sub" }, db)));
                    }
                }
            }
        }
    }
    // the largest values: a carry through every digit leaves the format
    let mut full: Vec<(&str, Sh, i128, Option<i128>, bool)> = vec![
        ("inc", PL, 32768, None, true),
        ("b_inc", PL, 32768, None, true),
        ("ceil", PL, 32769, None, true),
        ("b_ceil", PL, 32769, None, true),
        ("floor", NL, 32769, None, true),
        ("b_floor", NL, 32769, None, true),
        ("round", NL, 32769, Some(0), true),
        ("round_mut", PL, 32769, Some(0), true),
    ];
    if t == Tier::Thorough {
        full.extend([
            ("ceil", NL, 32769, None, false),
            ("floor", PL, 32769, None, false),
            ("trunc", PL, 32769, Some(0), false),
            ("round", PL, 32769, Some(0), true),
            ("round_mut", NL, 32768, Some(-1000), true),
            ("trunc_mut", NL, 32769, Some(0), false),
            ("round", PL, 32768, Some(-1000), true),
            ("round", NL, 32769, Some(4), false),
            ("inc", NL, 32768, None, false),
            ("inc", PL, 32767, None, false),
            ("b_inc", NL, 32768, None, false),
        ]);
    }
    for (r, sh, nd, sc, out) in full {
        let a = In::N(
            sh,
            NumOpt { digits: Some(vec![9999; nd as usize]), w: Some((nd.min(32768) - 1, nd.min(32768) - 1)), ds: Some((4 * (nd - nd.min(32768)), 4)), ..NumOpt::default() },
        );
        let mut ins = vec![a];
        ins.extend(sc.map(|s| In::I(s, s)));
        let mut jb = cx(r, ins, false);
        jb.ctx = format!("{} {} digits 9999, weight {}{}", sh.s(), nd, nd.min(32768) - 1, sc.map(|s| format!(", {}", s)).unwrap_or_default());
        jb.opts.max_iter = 200_000;
        jb.opts.max_steps = 200_000_000;
        jb.opts.max_ms = 60_000;
        v.push(jb.job(move |c: &mut Case| {
            for (st, rv) in c.results() {
                match rv {
                    RV::Unknown => c.undecided(RANGE),
                    rv => c.check(RANGE, &st, overflowed(&rv) == out),
                }
            }
        }));
    }
    // factorials beyond the range
    v.push(cx("factorial", vec![In::I(32178, PINF)], false).job(|c: &mut Case| {
        for (st, rv) in c.results() {
            c.check(RANGE, &st, matches!(rv, RV::Absent));
        }
    }));
    v.push(cx("factorial", vec![In::I(NINF, 1)], false).job(|c: &mut Case| {
        for (st, rv) in c.results() {
            match rv {
                RV::Num(r) if !r.nan => {
                    c.must_eq(EXACT, &st, &r.ds, &Form::c(0));
                    value_is(c, EXACT, &st, &r, &Form::c(1), 0);
                }
                _ => c.never(RANGE, &st),
            }
        }
    }));
    v
}

// ------------------------------------------------------------------ documented failures
const GUARD: &str = "a documented failure is reported for its arguments, before any computation, and for no others";
const NOPANIC: &str = "checked operations, comparisons, conversions, hashing and printing do not panic";
const MSGS: [&str; 6] = [
    "attempt to divide by zero",
    "cannot take square root of a negative number",
    "cannot take logarithm of zero",
    "cannot take logarithm of a negative number",
    "zero raised to a negative power is undefined",
    "a negative number raised to a non-integer power yields a complex result",
];
fn guard(want: Option<usize>) -> impl Fn(&mut Case) + Send + Sync + Clone {
    move |c: &mut Case| {
        for (st, o) in c.outs.clone() {
            let m = match &o {
                Out::Unwind(m) | Out::Abort(m) => Some(m.as_str()),
                _ => None,
            };
            let ok = match (want, m) {
                (Some(w), Some(m)) => m.contains(MSGS[w]),
                (Some(_), None) => false,
                (None, Some(m)) => m.starts_with("kernel"),
                (None, None) => true,
            };
            c.check(GUARD, &st, ok);
        }
    }
}
fn absent(want: bool) -> impl Fn(&mut Case) + Send + Sync + Clone {
    move |c: &mut Case| {
        for (st, rv) in c.results() {
            match rv {
                RV::Absent => c.check(GUARD, &st, want),
                RV::Num(_) => c.check(GUARD, &st, !want),
                RV::Unknown => c.undecided(GUARD),
                _ => c.never(NOPANIC, &st),
            }
        }
    }
}
/// Products whose scale fits the stored format.
fn scale_fits(mut c: Cx) -> Cx {
    if c.root.contains("mul") {
        let old = c.pre.take();
        c.ctx += "; scales sum up to 16383";
        c.pre = Some(std::sync::Arc::new(move |s: &mut Sess, i: &[InV]| {
            if let Some(f) = &old {
                f(s, i);
            }
            let d = i[0].num().ds.add(&i[1].num().ds);
            s.st.dom.add_ge0(&d.neg().addc(0x3FFF));
        }));
    }
    c
}
fn no_panic(c: &mut Case) {
    for (st, o) in c.outs.clone() {
        c.check(NOPANIC, &st, matches!(o, Out::Ret(_)));
    }
}
pub fn c19(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    // division
    for z in [ZS, ZL] {
        for x in Sh::FINITE {
            for r in ["checked_div", "checked_div_trunc", "checked_rem"] {
                v.push(cx(r, vec![any(x), any(z)], true).job(absent(true)));
            }
            for o in ["div", "rem"] {
                for f in FORMS.iter().map(|f| format!("{}_{}", o, f)).chain(AFORMS.iter().map(|f| format!("{}_assign_{}", o, f))) {
                    v.push(cx(&f, vec![any(x), any(z)], true).job(guard(Some(0))));
                }
            }
        }
        for y in NZ4 {
            for r in ["checked_div", "checked_div_trunc", "checked_rem"] {
                v.push(cx(r, vec![any(z), any(y)], true).job(absent(false)));
            }
        }
    }
    // in range: neither absent nor panicking
    for c in binary_cx(t) {
        v.push(scale_fits(c).job(absent(false)));
    }
    for o in OPS {
        for f in FORMS.iter().map(|f| format!("{}_{}", o, f)).chain(AFORMS.iter().map(|f| format!("{}_assign_{}", o, f))) {
            for (x, y) in [(PS, NS), (NL, PS), (ZS, PL)] {
                let b = if o == "div" || o == "rem" { constant(y, &[7], 0, (0, 2)) } else { Shape { sh: y, nd: 1, w: 0, ds: None, pat: 0 }.inp() };
                let a = if x.zero() { any(x) } else { Shape { sh: x, nd: 2, w: 0, ds: Some((4, 4)), pat: 0 }.inp() };
                v.push(scale_fits(cx(&f, vec![a, b], false)).job(guard(None)));
            }
        }
    }
    for c in unary_cx(t).into_iter().chain(ints_cx()).chain(typmod_cx(t)) {
        v.push(c.job(no_panic));
    }
    // roots and logarithms
    let cut = |mut j: Job| {
        j.hook = Some(cut_kernels());
        j
    };
    for x in Sh::FINITE {
        let w1 = if x.sign() < 0 { Some(1) } else { None };
        v.push(cut(cx("sqrt", vec![any(x)], true).job(guard(w1))));
        let w = if x.sign() < 0 { Some(3) } else if x.zero() { Some(2) } else { None };
        for r in ["ln", "log2", "log10"] {
            v.push(cut(cx(r, vec![any(x)], true).job(guard(w))));
            if !x.zero() {
                for a in wide(&[x], &[1, 2, 3], &[-2, -1, 0, 1, 2]) {
                    v.push(cut(cx(r, vec![a.inp()], false).job(guard(w))));
                }
            }
        }
        if !x.zero() {
            for a in wide(&[x], &[1, 2, 3], &[-2, -1, 0, 1, 2]) {
                v.push(cut(cx("sqrt", vec![a.inp()], false).job(guard(w1))));
            }
        }
        for y in Sh::FINITE {
            let bad = |s: Sh| if s.zero() { Some(2) } else if s.sign() < 0 { Some(3) } else { None };
            let w = bad(x).or(bad(y));
            if w.is_some() {
                v.push(cut(cx("log", vec![any(x), any(y)], true).job(guard(w))));
            }
            let ss = |s: Sh| if s.zero() { vec![any(s)] } else { shapes(&[s], &[1, 2], &[-1, 0, 1]).iter().map(|a| a.inp()).collect() };
            for a in ss(x) {
                for b in ss(y) {
                    v.push(cut(cx("log", vec![a.clone(), b], false).job(guard(w))));
                }
            }
            // powers
            if x.zero() {
                let w = if y.sign() < 0 { Some(4) } else { None };
                v.push(cut(cx("pow", vec![any(x), any(y)], true).job(guard(w))));
            }
            if y.zero() {
                v.push(cut(cx("pow", vec![any(x), any(y)], true).job(guard(None))));
                continue;
            }
            for b in wide(&[y], &[1, 2, 3], &[-3, -2, -1, 0, 1, 2, 3]) {
                let int = b.w >= b.nd - 1;
                let w = if x.zero() && y.sign() < 0 {
                    Some(4)
                } else if x.sign() < 0 && !int {
                    Some(5)
                } else {
                    None
                };
                if b.w > 1 && int && !x.zero() {
                    // exponents beyond 32 bits
                    for a in shapes(&[x], &[1, 2], &[-1, 0, 1]) {
                        v.push(cut(cx("pow", vec![a.inp(), b.inp()], false).job(guard(w))));
                    }
                } else if w.is_some() || x.zero() {
                    v.push(cx("pow", vec![any(x), b.inp()], false).job(guard(w)));
                } else if (b.w == 0 || !int) && b.nd < 3 {
                    // small exponents
                    for a in shapes(&[x], &[1, 2], &[-1, 0, 1]) {
                        v.push(cut(cx("pow", vec![a.inp(), b.inp()], false).job(guard(None))));
                    }
                }
            }
        }
    }
    // observers
    for c in crate::props7::observers() {
        v.push(c.job(no_panic));
    }
    v
}
