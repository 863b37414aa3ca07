//! Relational and form properties.
use crate::check::*;
use crate::ctx::*;
use crate::exec::*;
use crate::mem::*;
use crate::num::*;
use crate::props::*;
use crate::props2::*;
use crate::suite::*;

/// Two results are the same stored value.
pub fn same(c: &mut Case, rule: &str, st: &State, x: &RV, y: &RV) {
    match (x, y) {
        (RV::Num(a), RV::Num(b)) => {
            if a.nan != b.nan {
                return c.never(rule, st);
            }
            if a.nan {
                return c.ok(rule);
            }
            if a.neg != b.neg {
                return c.never(rule, st);
            }
            c.must_eq(rule, st, &a.ds, &b.ds);
            c.must_eq(rule, st, &a.w, &b.w);
            c.must_eq(rule, st, &a.nd, &b.nd);
            match c.concretise(st, &a.nd, 12) {
                Some(v) => {
                    for (s, n) in v {
                        for i in 0..n {
                            for (s2, d) in c.s.digit(&s, a, &Form::c(i)) {
                                for (s3, e) in c.s.digit(&s2, b, &Form::c(i)) {
                                    c.must_eq(rule, &s3, &d, &e);
                                }
                            }
                        }
                    }
                }
                None => {
                    // any index
                    let i = input("index", 0, 40000);
                    let s = with(st, &[ge(&a.nd.sub(&i).addc(-1))]);
                    for (s2, d) in c.s.digit(&s, a, &i) {
                        for (s3, e) in c.s.digit(&s2, b, &i) {
                            if s3.dom.eq(&d, &e) {
                                c.ok(rule)
                            } else {
                                c.undecided(rule)
                            }
                        }
                    }
                }
            }
        }
        (RV::Int(a), RV::Int(b)) => c.must_eq(rule, st, a, b),
        (RV::Absent, RV::Absent) => c.ok(rule),
        (RV::Panic(_), RV::Panic(_)) | (RV::Panic(_), RV::Absent) | (RV::Absent, RV::Panic(_)) => c.ok(rule),
        (RV::Err(a), RV::Err(b)) if a == b => c.ok(rule),
        (RV::Unknown, _) | (_, RV::Unknown) => c.undecided(rule),
        _ => c.never(rule, st),
    }
}

/// The root of this case and another root agree on the same inputs.
pub fn agrees(other: &'static str, rule: &'static str, swap: bool) -> impl Fn(&mut Case) + Send + Sync + Clone {
    move |c: &mut Case| {
        let mut ins = c.ins.clone();
        if swap {
            ins.swap(0, 1);
        }
        for (st, rv) in c.results() {
            let Some((f, a, outs)) = c.again(other, &st, &ins) else {
                c.undecided(rule);
                continue;
            };
            for (st2, o) in outs {
                for (st3, rv2) in c.decode(f, &a, &st2, &o) {
                    same(c, rule, &st3, &rv, &rv2);
                }
            }
        }
    }
}

fn checked(o: &str) -> &'static str {
    match o {
        "add" => "checked_add",
        "sub" => "checked_sub",
        "mul" => "checked_mul",
        "div" => "checked_div",
        _ => "checked_rem",
    }
}

pub fn c06(t: Tier) -> Vec<Job> {
    const RULE: &str = "an operator form returns what the checked operation returns, or panics when it returns nothing";
    const NEG: &str = "unary minus equals negation";
    let mut v = vec![];
    let n = |sh, nd, w, ds: (i128, i128)| In::N(sh, NumOpt { nd: Some(nd), w: Some((w, w)), ds: Some(ds), ..NumOpt::default() });
    for o in OPS {
        let mut forms: Vec<String> = FORMS.iter().map(|f| format!("{}_{}", o, f)).collect();
        forms.extend(AFORMS.iter().map(|f| format!("{}_assign_{}", o, f)));
        for r in &forms {
            let mut ps: Vec<(In, In)> = vec![];
            let dv = o == "div" || o == "rem";
            let big: Vec<Sh> = if t == Tier::Quick { vec![PS, NS] } else { vec![PS, NS, PL, NL] };
            for x in &big {
                for y in &big {
                    if dv {
                        // constant digits on both sides: any scale
                        ps.push((constant(*x, &[7], 0, (0, 3)), constant(*y, &[2], 0, (0, 3))));
                        ps.push((constant(*x, &[3], 1, (0, 2)), constant(*y, &[14], 0, (0, 2))));
                        ps.push((n(*x, 1, 0, (0, 0)), constant(*y, &[7], 0, (0, 0))));
                        ps.push((n(*x, 2, 0, (4, 4)), constant(*y, &[5000], -1, (4, 4))));
                    } else {
                        ps.push((n(*x, 1, 0, (0, 5)), n(*y, 1, 0, (0, 5))));
                        ps.push((n(*x, 2, 0, (4, 4)), n(*y, 1, 1, (0, 2))));
                        ps.push((n(*x, 1, 1, (0, 0)), n(*y, 2, 0, (4, 9))));
                    }
                }
            }
            for z in [ZS, ZL] {
                ps.push((any(z), n(NS, 1, 0, (0, 5))));
                ps.push((n(NS, 1, 0, (0, 5)), any(z)));
                ps.push((any(z), any(z)));
            }
            // results out of range
            match o {
                "add" | "sub" => {
                    let y = if o == "add" { PL } else { NL };
                    ps.push((constant(PL, &[9999], 32767, (0, 0)), constant(y, &[1], 32767, (0, 0))));
                    ps.push((constant(PL, &[5000], 32767, (0, 0)), n(y, 1, 32767, (0, 0))));
                }
                "mul" => {
                    ps.push((n(PL, 1, 20000, (0, 0)), n(NL, 1, 20000, (0, 0))));
                    ps.push((n(PL, 1, 16383, (0, 0)), n(NL, 1, 16384, (0, 0))));
                }
                "div" => {
                    ps.push((constant(PL, &[9], 32767, (0, 0)), constant(PL, &[3], -1, (4, 4))));
                }
                _ => {}
            }
            ps.push((any(Sh::Nan), n(PS, 1, 0, (0, 5))));
            ps.push((n(PS, 1, 0, (0, 5)), any(Sh::Nan)));
            ps.push((any(Sh::Nan), any(ZS)));
            ps.push((any(ZS), any(Sh::Nan)));
            for (a, b) in ps {
                v.push(cx(r, vec![a, b], false).job(agrees(checked(o), RULE, false)));
            }
        }
    }
    for r in ["neg_b", "neg_r", "neg_n"] {
        for x in Sh::ALL {
            v.push(cx(r, vec![any(x)], true).job(agrees("negate", NEG, false)));
        }
        for a in wide(&[PS, NS], &[1, 3], &[0, 1]) {
            v.push(cx(r, vec![a.inp()], false).job(agrees("negate", NEG, false)));
        }
    }
    v
}

pub fn c20(t: Tier) -> Vec<Job> {
    const RULE: &str = "the in-place variant leaves what the copying variant returns";
    let mut v = vec![];
    for (r, o) in [("negate_mut", "negate"), ("abs_mut", "abs"), ("neg_b", "negate"), ("b_negate", "negate"), ("b_abs", "abs")] {
        for x in Sh::ALL {
            v.push(cx(r, vec![any(x)], true).job(agrees(o, RULE, false)));
        }
        for a in wide(&NZ4, &[1, 2, 3], &[-1, 0, 2]) {
            v.push(cx(r, vec![a.inp()], false).job(agrees(o, RULE, false)));
        }
    }
    let (nds, ws): (&[i128], &[i128]) = if t == Tier::Quick { (&[1, 2, 3], &[-2, -1, 0, 1]) } else { (&[1, 2, 3, 4], &[-3, -2, -1, 0, 1, 2]) };
    for (r, o) in [("round_mut", "round"), ("trunc_mut", "trunc")] {
        for a in wide(&[PS, NS, ZS, ZL, PL, NL], nds, ws) {
            for b in crate::props4::scales_for(&a) {
                v.push(cx(r, vec![a.inp(), b], false).job(agrees(o, RULE, false)));
            }
        }
        v.push(cx(r, vec![any(Sh::Nan), In::I(NINF, PINF)], true).job(agrees(o, RULE, false)));
        // rounding may overflow
        for x in [PL, NL] {
            let big = In::N(x, NumOpt { nd: Some(1), w: Some((32766, 32767)), ds: Some((0, 0)), ..NumOpt::default() });
            v.push(cx(r, vec![big, In::I(NINF, PINF)], false).job(agrees(o, RULE, false)));
        }
    }
    // compound assignment
    for o in OPS {
        let ops: Vec<&'static str> = match o {
            "add" => vec!["add_assign_b", "add_assign_r", "add_assign_n"],
            "sub" => vec!["sub_assign_b", "sub_assign_r", "sub_assign_n"],
            "mul" => vec!["mul_assign_b", "mul_assign_r", "mul_assign_n"],
            "div" => vec!["div_assign_b", "div_assign_r", "div_assign_n"],
            _ => vec!["rem_assign_b", "rem_assign_r", "rem_assign_n"],
        };
        for r in ops {
            for x in [PS, NS] {
                for y in [PS, NS] {
                    let b = if o == "div" || o == "rem" { constant(y, &[7], 0, (0, 3)) } else { shapes(&[y], &[2], &[0])[0].inp() };
                    let bin: &'static str = match o {
                        "add" => "add_nn",
                        "sub" => "sub_nn",
                        "mul" => "mul_nn",
                        "div" => "div_nn",
                        _ => "rem_nn",
                    };
                    v.push(cx(r, vec![shapes(&[x], &[1], &[1])[0].ds(0, 3).inp(), b], false).job(agrees(bin, RULE, false)));
                }
            }
        }
    }
    v
}

/// Canonical stored form of a built value.
pub fn canonical(c: &mut Case, st: &State, r: &Res) {
    const R1: &str = "no leading or trailing zero digit is stored";
    const R2: &str = "zero is stored without digits, with weight zero and positive sign";
    if r.nan {
        return;
    }
    let mut neg = vec![vec![eq0(&r.nd), gt0(&r.w)], vec![eq0(&r.nd), lt0(&r.w)]];
    if r.neg {
        neg.push(vec![eq0(&r.nd)]);
    }
    c.require(R2, st, &neg);
    let s = with(st, &[gt0(&r.nd)]);
    if s.dom.bot {
        return;
    }
    for (s1, d) in c.s.digit(&s, r, &Form::c(0)) {
        c.require(R1, &s1, &[vec![eq0(&d)]]);
    }
    for (s1, d) in c.s.digit(&s, r, &r.nd.addc(-1)) {
        c.require(R1, &s1, &[vec![eq0(&d)]]);
    }
}
pub fn each_num(f: impl Fn(&mut Case, &State, &Res) + Send + Sync + Clone + 'static) -> impl Fn(&mut Case) + Send + Sync + Clone {
    move |c: &mut Case| {
        let args = c.args.clone();
        // operations reporting a flag leave their value in the first argument
        if c.root.contains("typmod_apply") || c.root.contains("apply_typmod") {
            for (st, o) in c.outs.clone() {
                if let Out::Ret(_) = o {
                    for (s2, rv) in c.arg_buf(&st, &args[0]) {
                        if let RV::Num(r) = rv {
                            f(c, &s2, &r);
                        }
                    }
                }
            }
            return;
        }
        for (st, rv) in c.results() {
            if let RV::Num(r) = rv {
                f(c, &st, &r);
            }
        }
    }
}
pub fn c08(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let mut all = binary_cx(t);
    all.extend(unary_cx(t));
    all.extend(typmod_cx(t));
    all.extend(ints_cx());
    all.extend(general_cx(t));
    for c in all {
        v.push(c.job(each_num(canonical)));
    }
    // many digits cancelled at either end
    let mut ns = vec![30, 130];
    for c in crate::hot::hot() {
        ns.extend([*c, c + 1, c / 4, c / 2].into_iter().filter(|n| *n > 3 && *n < 300));
    }
    ns.sort();
    ns.dedup();
    for n in ns {
        let at = |d: Vec<i128>, w: i128, ds: i128| {
            let f = d.len() as i128 - 1 - w;
            let long = ds > 63 || w > 63 || w < -64;
            assert!(f * 4 <= ds + 3);
            In::N(Sh::Val { neg: false, long }, NumOpt { nd: Some(d.len() as i128), w: Some((w, w)), ds: Some((ds, ds)), digits: Some(d), ..NumOpt::default() })
        };
        let run = |a: i128, m: i128, z: i128| [vec![a], vec![m; n as usize], vec![z]].concat();
        for (f, ds) in [(0, 0), (n + 1, 4 * (n + 1))] {
            let a = || at(run(1, 0, 5), n + 1 - f, ds);
            let last = || at(vec![5], -f, ds);
            let first = || at(vec![1], n + 1 - f, 0);
            for (r, x, y) in [
                ("checked_sub", a(), last()),
                ("checked_sub", a(), first()),
                ("checked_add", at(run(1, 9999, 9999), n + 1 - f, ds), at(vec![1], -f, ds)),
                ("checked_mul", at(run(5000, 0, 5000), n + 1 - f, ds), at(vec![2], 0, 0)),
                ("checked_rem", a(), first()),
            ] {
                v.push(cx(r, vec![x, y], false).job(each_num(canonical)));
            }
            for (r, d) in [("round", 9999), ("trunc", 0), ("round_mut", 9999), ("trunc_mut", 0)] {
                let k = 4 * f - 4;
                v.push(cx(r, vec![at(run(1, d, 9999), n + 1 - f, ds), In::I(k, k)], false).job(each_num(canonical)));
            }
        }
        let a = || at([vec![9999; n as usize], vec![5000]].concat(), n - 1, 4);
        for r in ["inc", "ceil", "b_ceil", "b_floor"] {
            v.push(cx(r, vec![a()], false).job(each_num(canonical)));
        }
    }
    // copies preserve the stored form, even of values with padding zeros
    const KEEP: &str = "copies preserve the stored digits and weight of their source";
    for r in ["to_owned", "clone"] {
        for x in NZ4 {
            for nd in 1..4 {
                let inp = In::N(x, NumOpt { nd: Some(nd), w: Some((-1, 2)), loose: true, ..NumOpt::default() });
                v.push(cx(r, vec![inp], false).job(move |c: &mut Case| {
                    let n = c.ins[0].num().clone();
                    for (st, rv) in c.results() {
                        match rv {
                            RV::Num(r) if !r.nan => {
                                c.must_eq(KEEP, &st, &r.nd, &n.nd);
                                c.must_eq(KEEP, &st, &r.w, &n.w);
                                for i in 0..nd {
                                    for (s, d) in c.s.digit(&st, &r, &Form::c(i)) {
                                        c.must_eq(KEEP, &s, &d, &in_digit(&n, i));
                                    }
                                }
                            }
                            _ => c.never(KEEP, &st),
                        }
                    }
                }));
            }
        }
    }
    v
}
