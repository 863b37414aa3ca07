//! Abstract contexts shared by the properties that range over every operation.
use crate::check::*;
use crate::ctx::*;
use crate::exec::*;
use crate::num::*;
use crate::props::*;
use crate::props2::*;
use crate::props4::scales_for;

#[derive(Clone)]
pub struct Cx {
    pub root: String,
    pub ctx: String,
    pub ins: Vec<In>,
    pub opts: Opts,
    /// arguments of any size (loops are generalised)
    pub gen: bool,
    pub pre: Option<Pre>,
}
impl Cx {
    pub fn job(&self, post: impl Fn(&mut Case) + Send + Sync + 'static) -> Job {
        let mut j = job(&self.root, &self.ctx, self.ins.clone(), self.opts.clone(), post);
        j.pre = self.pre.clone();
        j
    }
}
pub fn ex(root: &str, ctx: &str, ins: Vec<In>) -> Cx {
    Cx { root: root.into(), ctx: ctx.into(), ins, opts: exact(), gen: false, pre: None }
}
pub fn gn(root: &str, ctx: &str, ins: Vec<In>) -> Cx {
    Cx { root: root.into(), ctx: ctx.into(), ins, opts: gen(), gen: true, pre: None }
}
pub fn desc(i: &In) -> String {
    match i {
        In::N(sh, o) => {
            let mut s = sh.s();
            if let Some(d) = &o.digits {
                s += &format!(" {:?}", d);
            } else if let Some(n) = o.nd {
                s += &format!(" nd={}", n);
            }
            if let Some((l, h)) = o.w {
                s += &if l == h { format!(" w={}", l) } else { format!(" w={}..{}", l, h) };
            }
            if let Some((l, h)) = o.ds {
                s += &if l == h { format!(" ds={}", l) } else { format!(" ds={}..{}", l, h) };
            }
            s += pattern(o.pat);
            if o.loose {
                s += " loose";
            }
            s
        }
        In::I(l, h) if l == h => format!("{}", l),
        In::I(NINF, PINF) => "any".into(),
        In::I(l, h) => format!("{}..{}", l, h),
        In::F(f) => f.to_string(),
        In::Fr(l, h, _) => format!("{:e}..{:e}", l, h),
        In::Lit(t) => format!("{:?}", t),
        In::Chars(c) => format!("{:?}", c),
        In::Text(n, l, h) => format!("text {} of {}..{}", n, l, h),
        In::Variant(v) => v.to_string(),
        In::Raw(n, al) => format!("{} bytes, {}-aligned", n, al),
        In::De(h, how, t, b) => format!(
            "{} format holding {}",
            if *h { "text" } else { "binary" },
            if *how < 2 { format!("text {}", desc(t)) } else { format!("{} {}", if *how == 2 { "transient" } else { "borrowed" }, desc(b)) }
        ),
        _ => "-".into(),
    }
}
pub fn cx(root: &str, ins: Vec<In>, g: bool) -> Cx {
    let ctx = ins.iter().map(desc).collect::<Vec<_>>().join("; ");
    if g {
        gn(root, &ctx, ins)
    } else {
        ex(root, &ctx, ins)
    }
}

/// constant divisors: digits, weight, scale
pub fn divisors(t: Tier) -> Vec<(Sh, Vec<i128>, i128, i128)> {
    let mut v: Vec<(Sh, Vec<i128>, i128, i128)> = vec![
        (PS, vec![7], 0, 0),
        (NS, vec![7], 0, 1),
        (PS, vec![5000], -1, 1),
        (NS, vec![9999], 0, 0),
        (PS, vec![1], 1, 0),
        (PL, vec![2], -1, 4),
    ];
    if t == Tier::Thorough {
        v.extend([
            (PS, vec![1], 0, 0),
            (NS, vec![1], 0, 0),
            (NL, vec![3], 2, 0),
            (PS, vec![3333], -2, 8),
            (PS, vec![10], 0, 2),
        ]);
    }
    v
}
pub fn div_cx(t: Tier, ops: &[&str]) -> Vec<Cx> {
    let mut v = vec![];
    let (nds, ws): (&[i128], &[i128]) = if t == Tier::Quick { (&[1, 2], &[-1, 0, 1]) } else { (&[1, 2, 3], &[-2, -1, 0, 1, 2]) };
    for a in wide(&[PS, NS], nds, ws) {
        for (sh, d, w, ds) in divisors(t) {
            for o in ops {
                let a = a.ds(a.frac(), a.frac());
                v.push(cx(o, vec![a.inp(), constant(sh, &d, w, (ds, ds))], false));
            }
        }
    }
    // divisors of several digits, dividends of one small digit
    for x in [PS, NS] {
        for (sh, d, w, ds) in [(PS, vec![1, 1], 1, 0), (NS, vec![3, 5000], 0, 1), (PS, vec![9999, 9999], 1, 0), (PS, vec![1, 0, 1], 2, 0)] {
            for o in ops {
                // long quotients by these divisors are beyond the digit analysis
                if *o == "checked_div" && (d == [3, 5000] || d == [9999, 9999]) {
                    continue;
                }
                for wa in [0, 1] {
                    let a = Shape { sh: x, nd: 1, w: wa, ds: Some((0, 0)), pat: 0 };
                    let mut c = cx(o, vec![a.inp(), constant(sh, &d, w, (ds, ds))], false);
                    c.pre = Some(std::sync::Arc::new(|s: &mut Sess, i: &[InV]| {
                        let d = in_digit(i[0].num(), 0);
                        s.st.dom.add_ge0(&d.addc(-5));
                        s.st.dom.add_ge0(&d.neg().addc(9));
                    }));
                    v.push(c);
                }
            }
        }
    }
    for (sh, d, w, ds) in divisors(t) {
        for o in ops {
            for z in [ZS, ZL] {
                v.push(cx(o, vec![any(z), constant(sh, &d, w, (ds, ds))], true));
            }
        }
    }
    v
}
pub fn binary_cx(t: Tier) -> Vec<Cx> {
    let mut v = vec![];
    for (a, b) in sum_shapes(t) {
        for o in ["checked_add", "checked_sub"] {
            v.push(cx(o, vec![a.inp(), b.inp()], false));
        }
    }
    for (a, b) in hot_pairs() {
        v.push(cx("checked_mul", vec![a.inp(), b.inp()], false));
    }
    let ss = shapes(&[PS, NS, ZS, NL], &[1, 2], &[-1, 1]);
    for a in &ss {
        for b in &ss {
            v.push(cx("checked_mul", vec![a.inp(), b.inp()], false));
        }
    }
    v.extend(div_cx(t, &["checked_div", "checked_div_trunc", "checked_rem"]));
    v
}
/// operations of one value, concrete shapes
pub fn unary_cx(t: Tier) -> Vec<Cx> {
    let mut v = vec![];
    let (nds, ws): (&[i128], &[i128]) = if t == Tier::Quick { (&[1, 2, 3], &[-2, -1, 0, 1, 2]) } else { (&[1, 2, 3, 4], &[-3, -2, -1, 0, 1, 2, 3]) };
    for a in wide(&[PS, NS, ZS, ZL, NL], nds, ws) {
        for r in [
            "negate", "signum", "inc", "ceil", "floor", "abs", "to_owned", "clone", "b_negate", "b_signum", "b_inc", "b_ceil",
            "b_floor", "b_abs", "neg_b", "neg_r", "neg_n", "negate_mut", "abs_mut",
        ] {
            v.push(cx(r, vec![a.inp()], false));
        }
    }
    for a in wide(&[PS, NS, ZS, NL], nds, ws) {
        for r in ["round", "trunc", "round_mut", "trunc_mut"] {
            for b in scales_for(&a) {
                v.push(cx(r, vec![a.inp(), b], false));
            }
        }
    }
    v
}
pub fn typmod_cx(t: Tier) -> Vec<Cx> {
    let mut v = vec![];
    let nds: &[i128] = if t == Tier::Quick { &[1, 2] } else { &[1, 2, 3] };
    for a in wide(&[PS, NS, ZS, NL], nds, &[-2, -1, 0, 1]) {
        for (p, s) in [(1, 0), (2, 2), (4, 0), (5, 2), (7, 4), (8, 8), (10, 6), (1000, 0), (1000, 1000)] {
            v.push(cx("typmod_apply", vec![a.inp(), In::I(p, p), In::I(s, s)], false));
        }
        v.push(cx("typmod_apply_default", vec![a.inp()], false));
    }
    v
}
pub fn ints_cx() -> Vec<Cx> {
    let mut v = vec![];
    for (t, _, _) in INTS {
        v.push(cx(&format!("from_{}", t), vec![In::I(NINF, PINF)], false));
    }
    v.push(cx("from_bool", vec![In::I(0, 1)], false));
    v.push(cx("factorial", vec![In::I(0, 0)], false));
    v
}
/// operations on values of any size
pub fn general_cx(t: Tier) -> Vec<Cx> {
    let mut v = vec![];
    for a in Sh::FINITE {
        for r in [
            "negate", "signum", "inc", "ceil", "floor", "abs", "to_owned", "clone", "b_negate", "b_signum", "b_inc", "b_ceil",
            "b_floor", "b_abs", "neg_b", "neg_r", "neg_n", "negate_mut", "abs_mut",
        ] {
            v.push(cx(r, vec![any(a)], true));
        }
        for r in ["round", "trunc", "round_mut", "trunc_mut"] {
            v.push(cx(r, vec![any(a), In::I(NINF, PINF)], true));
        }
        for b in Sh::FINITE {
            if t == Tier::Thorough || a.zero() || b.zero() {
                for o in ["checked_add", "checked_sub"] {
                    v.push(cx(o, vec![any(a), any(b)], true));
                }
            }
            if a.zero() || b.zero() {
                v.push(cx("checked_mul", vec![any(a), any(b)], true));
            }
            if a.zero() && !b.zero() {
                for o in ["checked_div", "checked_div_trunc", "checked_rem"] {
                    v.push(cx(o, vec![any(a), any(b)], true));
                }
            }
        }
    }
    v
}
