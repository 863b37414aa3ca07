//! The properties: contexts and postconditions.
use crate::check::*;
use crate::ctx::*;
use crate::exec::*;
use crate::mem::*;
use crate::num::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub const UNARY: [&str; 15] = [
    "negate", "signum", "inc", "ceil", "floor", "abs", "sqrt", "ln", "log2", "log10", "to_owned", "b_negate", "b_abs",
    "b_ceil", "b_inc",
];
pub const FORMS: [&str; 9] = ["bb", "br", "bn", "rb", "rr", "rn", "nb", "nr", "nn"];
pub const AFORMS: [&str; 3] = ["b", "r", "n"];
pub const OPS: [&str; 5] = ["add", "sub", "mul", "div", "rem"];
pub const INTS: [(&str, bool, u32); 12] = [
    ("i8", true, 8),
    ("i16", true, 16),
    ("i32", true, 32),
    ("i64", true, 64),
    ("i128", true, 128),
    ("isize", true, 64),
    ("u8", false, 8),
    ("u16", false, 16),
    ("u32", false, 32),
    ("u64", false, 64),
    ("u128", false, 128),
    ("usize", false, 64),
];

pub fn gen() -> Opts {
    Opts { unroll: 2, max_ms: 6000, ..Opts::default() }
}
pub fn exact() -> Opts {
    Opts { max_ms: 10_000, ..Opts::exact() }
}
pub fn any(sh: Sh) -> In {
    In::N(sh, NumOpt::default())
}
pub fn posneg() -> [Sh; 2] {
    [Sh::Val { neg: false, long: false }, Sh::Val { neg: true, long: false }]
}

/// Concrete shape: digit count, weight; scale range covering the digits.
#[derive(Clone, Copy, Debug)]
pub struct Shape {
    pub sh: Sh,
    pub nd: i128,
    pub w: i128,
    pub ds: Option<(i128, i128)>,
    /// digits other than the first, a middle and the last are 9999 (1) or 0 and 1 (2);
    /// all digits given (3)
    pub pat: u8,
}
impl Shape {
    pub fn new(sh: Sh, nd: i128, w: i128, ds: Option<(i128, i128)>) -> Shape {
        Shape { sh, nd, w, ds, pat: 0 }
    }
    pub fn inp(&self) -> In {
        let mut me = *self;
        // values the short form cannot hold
        if let Sh::Val { neg, long: false } = self.sh {
            if self.frac() > 63 || !(-64..=63).contains(&self.w) || self.ds.map_or(false, |d| d.0 > 63) {
                me.sh = Sh::Val { neg, long: true };
            }
        }
        let ds = self.ds.or(if self.sh.zero() { None } else { Some((self.frac(), 1 << 20)) });
        In::N(me.sh, NumOpt { nd: Some(self.nd), w: Some((self.w, self.w)), ds, pat: self.pat, ..NumOpt::default() })
    }
    pub fn ds(mut self, l: i128, h: i128) -> Shape {
        self.ds = Some((l, h));
        self
    }
    pub fn s(&self) -> String {
        let d = pattern(self.pat);
        match self.ds {
            Some((l, h)) => format!("{} nd={} w={} ds={}..{}{}", self.sh.s(), self.nd, self.w, l, h, d),
            None => format!("{} nd={} w={}{}", self.sh.s(), self.nd, self.w, d),
        }
    }
    /// decimal digits after the point that the stored digits may use
    pub fn frac(&self) -> i128 {
        (4 * (self.nd - 1 - self.w)).max(0)
    }
}
pub fn shapes(shs: &[Sh], nds: &[i128], ws: &[i128]) -> Vec<Shape> {
    let mut v = vec![];
    for sh in shs {
        if sh.zero() {
            v.push(Shape { sh: *sh, nd: 0, w: 0, ds: None, pat: 0 });
            continue;
        }
        for nd in nds {
            for w in ws {
                v.push(Shape { sh: *sh, nd: *nd, w: *w, ds: None, pat: 0 });
            }
        }
    }
    v
}
/// shapes on both sides of the constants new to the crate (none on the tree this was built for)
pub fn hot_shapes(sh: Sh) -> Vec<Shape> {
    let Sh::Val { neg, .. } = sh else { return vec![] };
    let mut v: Vec<Shape> = vec![];
    let mut add = |nd: i128, w: i128| {
        let f = (4 * (nd - 1 - w)).max(0);
        if !(1..=140).contains(&nd) || f > 16383 || w.abs() > 32767 {
            return;
        }
        let long = f > 63 || !(-64..=63).contains(&w);
        let sh = if long { Sh::Val { neg, long } } else { sh };
        if !v.iter().any(|s| s.sh == sh && s.nd == nd && s.w == w) {
            for pat in if nd > 8 { &[1u8, 2, 3][..] } else { &[0] } {
                v.push(Shape { sh, nd, w, ds: None, pat: *pat });
            }
        }
    };
    for c in crate::hot::hot() {
        // digit counts and weights, in digits, decimal places and bytes
        for n in [*c, c + 1, c / 4, c / 4 + 1, c / 2 + 1] {
            if n <= 140 {
                add(n, n - 1);
                add(n, 0);
            }
        }
        // whole digits and a fraction
        for w in [c + 1, c / 4 + 1] {
            if w <= 140 {
                add(w + 2, w);
            }
        }
        for w in [c + 1, -c - 1, c / 4 + 1, -c / 4 - 1] {
            add(1, w);
        }
    }
    if !v.is_empty() {
        v.push(Shape { sh: Sh::Val { neg, long: true }, nd: 1, w: 0, ds: None, pat: 0 });
        v.push(Shape { sh: Sh::Val { neg, long: true }, nd: 2, w: 0, ds: None, pat: 0 });
    }
    v
}
/// the selection, and shapes around constants new to the crate
pub fn wide(shs: &[Sh], nds: &[i128], ws: &[i128]) -> Vec<Shape> {
    let mut v: Vec<Shape> = vec![];
    for sh in shs {
        for s in hot_shapes(*sh) {
            if !v.iter().any(|o| o.sh == s.sh && o.nd == s.nd && o.w == s.w && o.pat == s.pat) {
                v.push(s);
            }
        }
    }
    v.extend(shapes(shs, nds, ws));
    v
}
/// pairs around constants new to the crate
pub fn hot_pairs() -> Vec<(Shape, Shape)> {
    let mut v = vec![];
    let at = |sh, nd, w| Shape { sh, nd, w, ds: None, pat: 0 };
    for x in [PS, NS] {
        for a in hot_shapes(x) {
            let o = if x == PS { NS } else { PS };
            for b in [at(PS, 1, 0), at(NS, 2, 0), at(PS, 2, 1)] {
                v.push((a, b));
                v.push((b, a));
            }
            v.push((a, a));
            if let Some(b) = hot_shapes(o).into_iter().find(|b| b.nd == a.nd && b.w == a.w && b.pat == a.pat) {
                v.push((a, b));
            }
        }
    }
    v
}
pub const PS: Sh = Sh::Val { neg: false, long: false };
pub const NS: Sh = Sh::Val { neg: true, long: false };
pub const PL: Sh = Sh::Val { neg: false, long: true };
pub const NL: Sh = Sh::Val { neg: true, long: true };
pub const ZS: Sh = Sh::Zero { long: false };
pub const ZL: Sh = Sh::Zero { long: true };

pub fn pattern(p: u8) -> &'static str {
    ["", " mostly 9999", " mostly 0 and 1", " 12 0 .. 0 1 .. 3400"][p as usize]
}
/// resolution (in base-10000 digits after the point) needed for a set of shapes
pub fn res_of(v: &[&Shape]) -> i128 {
    v.iter().map(|s| (s.nd - 1 - s.w).max(0)).max().unwrap_or(0)
}

pub fn jobs(id: &str, t: Tier) -> Option<Vec<Job>> {
    Some(match id {
        "C01" => c01(),
        "C02" => c02(t),
        "C03" => crate::props2::c03(t),
        "C06" => crate::props3::c06(t),
        "C08" => crate::props3::c08(t),
        "C20" => crate::props3::c20(t),
        "C04" => crate::props4::c04(t),
        "C05" => crate::props4::c05(t),
        "C11" => crate::props4::c11(t),
        "C12" => crate::props4::c12(t),
        "C26" => crate::props4::c26(t),
        "C18" => crate::props5::c18(t),
        "C21" => crate::props6::c21(t),
        "C22" => crate::props6::c22(t),
        "C13" => crate::props9::c13(t),
        "C14" => crate::props9::c14(t),
        "C15" => crate::props7::c15(t),
        "C16" => crate::props7::c16(t),
        "C17" => crate::props7::c17(t),
        "C24" => crate::props7::c24(t),
        "C25" => crate::props7::c25(t),
        "C07" => crate::props8::c07(t),
        "C09" => crate::props8::c09(t),
        "C19" => crate::props8::c19(t),
        "C27" => crate::props10::c27(t),
        "C28" => crate::props10::c28(t),
        "C31" => crate::props7::c31(t),
        "C29" => crate::props10::c29(t),
        "C10" => c10(),
        "C23" => c23(),
        _ => return None,
    })
}

/// Expects NaN.
fn expect_nan(c: &mut Case) {
    for (st, rv) in c.results() {
        match rv {
            RV::Num(r) if r.nan => c.ok("a NaN operand gives NaN"),
            _ => c.never("a NaN operand gives NaN", &st),
        }
    }
}
fn expect_one(c: &mut Case) {
    for (st, rv) in c.results() {
        match rv {
            RV::Num(r) if !r.nan && !r.neg => {
                c.must_eq("NaN^0 and 1^NaN are one", &st, &r.nd, &Form::c(1));
                c.must_eq("NaN^0 and 1^NaN are one", &st, &r.w, &Form::c(0));
                for (s, d) in c.s.digit(&st, &r, &Form::c(0)) {
                    c.must_eq("NaN^0 and 1^NaN are one", &s, &d, &Form::c(1));
                }
            }
            _ => c.never("NaN^0 and 1^NaN are one", &st),
        }
    }
}

fn c01() -> Vec<Job> {
    let mut v = vec![];
    let nan = || any(Sh::Nan);
    for r in UNARY.iter().chain(&["b_signum", "b_floor", "exp", "clone", "neg_b", "neg_r", "neg_n", "negate_mut", "abs_mut"]) {
        v.push(job(r, "nan", vec![nan()], gen(), expect_nan));
    }
    for r in ["round", "trunc", "round_mut", "trunc_mut"] {
        v.push(job(r, "nan, any scale", vec![nan(), In::I(NINF, PINF)], gen(), expect_nan));
    }
    let mut two: Vec<String> = vec![];
    for o in OPS {
        for f in FORMS {
            two.push(format!("{}_{}", o, f));
        }
        for f in AFORMS {
            two.push(format!("{}_assign_{}", o, f));
        }
        two.push(format!("checked_{}", o));
    }
    two.push("checked_div_trunc".into());
    two.push("log".into());
    for r in &two {
        for sh in Sh::ALL {
            v.push(job(r, &format!("nan, {}", sh.s()), vec![nan(), any(sh)], gen(), expect_nan));
            if !sh.nan() {
                v.push(job(r, &format!("{}, nan", sh.s()), vec![any(sh), nan()], gen(), expect_nan));
            }
        }
    }
    // power
    v.push(job("pow", "nan, nan", vec![nan(), nan()], gen(), expect_nan));
    for sh in Sh::FINITE {
        v.push(job("pow", &format!("nan, {}", sh.s()), vec![nan(), any(sh)], gen(), move |c| {
            if sh.zero() {
                expect_one(c)
            } else {
                expect_nan(c)
            }
        }));
        let o = |nd, w| In::N(sh, NumOpt { nd, w, ..NumOpt::default() });
        match sh {
            Sh::Val { neg: false, .. } => {
                let one = In::N(sh, NumOpt { digits: Some(vec![1]), w: Some((0, 0)), ..NumOpt::default() });
                v.push(job("pow", &format!("one ({}), nan", sh.s()), vec![one, nan()], exact(), expect_one));
                let wide = if sh == PS { (-64, 63) } else { (-32767, 32767) };
                v.push(job("pow", &format!("{} weight<0, nan", sh.s()), vec![o(None, Some((wide.0, -1))), nan()], exact(), expect_nan));
                v.push(job("pow", &format!("{} weight>0, nan", sh.s()), vec![o(None, Some((1, wide.1))), nan()], exact(), expect_nan));
                v.push(job("pow", &format!("{} 2..9999, nan", sh.s()), vec![o(Some(1), Some((0, 0))), nan()], exact(), expect_nan).pre(
                    |s, i| {
                        let d = in_digit(i[0].num(), 0);
                        s.st.dom.add_ge0(&d.addc(-2));
                    },
                ));
                for nd in 2..4 {
                    v.push(job("pow", &format!("{} nd={}, nan", sh.s(), nd), vec![o(Some(nd), Some((0, 0))), nan()], exact(), expect_nan));
                }
            }
            _ => v.push(job("pow", &format!("{}, nan", sh.s()), vec![o(None, None), nan()], gen(), expect_nan)),
        }
    }
    // type modifiers
    let flag = |c: &mut Case| {
        let args = c.args.clone();
        let outs = c.outs.clone();
        for (st, rv) in c.results() {
            match rv {
                RV::Int(f) => c.must_eq("a type modifier reports no overflow for NaN", &st, &f, &Form::c(0)),
                _ => c.never("a type modifier reports no overflow for NaN", &st),
            }
        }
        for (st, o) in outs {
            if let Out::Ret(_) = o {
                for (s2, rv) in c.arg_buf(&st, &args[0]) {
                    match rv {
                        RV::Num(r) if r.nan => c.ok("a type modifier leaves NaN"),
                        _ => c.never("a type modifier leaves NaN", &s2),
                    }
                }
            }
        }
    };
    v.push(job("apply_typmod", "nan, any modifier", vec![nan(), In::I(NINF, PINF)], gen(), flag));
    v.push(job("typmod_apply", "nan, any precision and scale", vec![nan(), In::I(NINF, PINF), In::I(NINF, PINF)], gen(), flag));
    v.push(job("typmod_apply_default", "nan", vec![nan()], gen(), flag));
    v
}

/// The text written by a Display implementation, as a list of pieces.
pub fn pieces(st: &State) -> Vec<Piece> {
    let mut v: Vec<Piece> = vec![];
    for e in st.events.iter() {
        match (&*e.name, e.args.first()) {
            ("lit", Some(EvArg::Str(s))) => {
                if let Some(Piece::Lit(p)) = v.last_mut() {
                    p.push_str(s);
                } else {
                    v.push(Piece::Lit(s.to_string()));
                }
            }
            ("char", Some(EvArg::Int(f))) => v.push(Piece::Char(f.clone())),
            (n, _) => v.push(Piece::Other(n.to_string(), e.args.clone())),
        }
    }
    v
}
#[derive(Clone, Debug)]
pub enum Piece {
    Lit(String),
    Char(Form),
    Other(String, Vec<EvArg>),
}

fn bool_is(rule: &'static str, want: i128) -> impl Fn(&mut Case) + Send + Sync + Clone {
    move |c: &mut Case| {
        for (st, rv) in c.results() {
            match rv {
                RV::Int(f) => c.must_eq(rule, &st, &f, &Form::c(want)),
                _ => c.never(rule, &st),
            }
        }
    }
}

fn c02(_t: Tier) -> Vec<Job> {
    let mut v = vec![];
    for sh in Sh::ALL {
        let g = || vec![any(sh)];
        for p in ["", "b_"] {
            v.push(job(&format!("{}is_nan", p), &sh.s(), g(), gen(), bool_is("only NaN is reported as NaN", sh.nan() as i128)));
            v.push(job(&format!("{}is_negative", p), &sh.s(), g(), gen(), bool_is("negative exactly for values below zero", (sh.sign() < 0) as i128)));
            let want = !sh.nan() && sh.sign() >= 0;
            v.push(job(&format!("{}is_positive", p), &sh.s(), g(), gen(), bool_is("positive exactly for non-negative finite values", want as i128)));
            v.push(job(&format!("{}scale", p), &sh.s(), g(), gen(), move |c: &mut Case| {
                let ds = c.ins[0].num().ds.clone();
                for (st, rv) in c.results() {
                    match rv {
                        RV::Absent => c.check("scale is absent exactly for NaN", &st, sh.nan()),
                        RV::Int(f) if !sh.nan() => c.must_eq("scale of a finite value is its stored scale", &st, &f, &ds),
                        _ => c.never("scale is absent exactly for NaN", &st),
                    }
                }
            }));
        }
        // text
        for r in ["fmt", "lexp", "uexp"] {
            for f in ["n", "b"] {
                if sh.nan() {
                    v.push(job(&format!("{}_{}", r, f), "nan", g(), exact(), |c: &mut Case| {
                        for (st, o) in c.outs.clone() {
                            let ok = matches!(o, Out::Ret(_)) && matches!(pieces(&st).as_slice(), [Piece::Lit(s)] if s == "NaN");
                            c.check("NaN prints as NaN", &st, ok);
                        }
                    }));
                } else {
                    let inp = In::N(sh, NumOpt { nd: Some(1), w: Some((0, 0)), ds: Some((0, 2)), ..NumOpt::default() });
                    v.push(job(&format!("{}_{}", r, f), &format!("{} one digit", sh.s()), vec![inp], exact(), |c: &mut Case| {
                        for (st, _) in c.outs.clone() {
                            let nan = matches!(pieces(&st).as_slice(), [Piece::Lit(s)] if s == "NaN");
                            c.check("a finite value does not print as NaN", &st, !nan);
                        }
                    }));
                }
            }
        }
        if sh.nan() {
            v.push(job("normalize", "nan", g(), exact(), |c: &mut Case| {
                for (st, o) in c.outs.clone() {
                    let mut ok = false;
                    if let Out::Ret(e) = &o {
                        ok = string_text(c, &st, e).map(|t| t == "NaN").unwrap_or(false);
                    }
                    c.check("NaN normalises to NaN", &st, ok);
                }
            }));
        }
        // conversions
        for (t, _, _) in INTS {
            for f in AFORMS {
                if sh.nan() {
                    v.push(job(&format!("to_{}_{}", t, f), "nan", g(), gen(), |c: &mut Case| {
                        for (st, rv) in c.results() {
                            c.check("NaN is an invalid integer", &st, matches!(&rv, RV::Err(e) if e == "Invalid"));
                        }
                    }));
                } else if f == "n" || t == "i64" {
                    let inp = In::N(sh, NumOpt { nd: Some(1), w: Some((-1, 1)), ds: Some((0, 4)), ..NumOpt::default() });
                    v.push(job(&format!("to_{}_{}", t, f), &sh.s(), vec![inp], exact(), |c: &mut Case| {
                        for (st, rv) in c.results() {
                            if matches!(&rv, RV::Err(e) if e != "Overflow") {
                                c.never("a finite value is not invalid as an integer", &st)
                            } else {
                                c.ok("a finite value is not invalid as an integer")
                            }
                        }
                    }));
                }
            }
        }
        for t in ["f32", "f64"] {
            for f in AFORMS {
                if sh.nan() {
                    v.push(job(&format!("to_{}_{}", t, f), "nan", g(), gen(), |c: &mut Case| {
                        for (st, rv) in c.results() {
                            c.check("NaN converts to a floating NaN", &st, matches!(&rv, RV::Float(f) if is_nan_const(f)));
                        }
                    }));
                } else {
                    let inp = In::N(sh, NumOpt { nd: Some(1), w: Some((0, 0)), ds: Some((0, 0)), ..NumOpt::default() });
                    v.push(job(&format!("to_{}_{}", t, f), &sh.s(), vec![inp], exact(), |c: &mut Case| {
                        for (st, rv) in c.results() {
                            let bad = matches!(&rv, RV::Float(f) if is_nan_const(f)) || matches!(&rv, RV::Err(e) if e == "Invalid");
                            c.check("a finite value does not convert to a floating NaN", &st, !bad);
                        }
                    }));
                }
            }
        }
    }
    for t in ["f32", "f64"] {
        v.push(job(&format!("from_{}", t), "nan", vec![In::F("nan")], gen(), expect_nan));
        v.push(job(&format!("from_{}", t), "infinite", vec![In::F("inf")], gen(), |c: &mut Case| {
            for (st, rv) in c.results() {
                c.check("an infinite float is invalid", &st, matches!(&rv, RV::Err(e) if e == "Invalid"));
            }
        }));
    }
    for (r, n) in [("nan", true), ("nan_ref", true), ("zero", false), ("zero_ref", false)] {
        v.push(job(r, "constant", vec![], gen(), move |c: &mut Case| {
            for (st, rv) in c.results() {
                match rv {
                    RV::Num(x) => c.check("constants", &st, x.nan == n && (n || !x.neg)),
                    RV::Ref(Val::Ptr(o, off), len) => match c.s.decode_at(&st, o, &off, &Form::c(0), &len) {
                        Some(v) => {
                            for (s, x) in v {
                                c.check("constants", &s, x.nan == n && (n || !x.neg))
                            }
                        }
                        None => c.undecided("constants"),
                    },
                    _ => c.never("constants", &st),
                }
            }
        }));
    }
    v
}

pub fn is_nan_const(f: &Form) -> bool {
    let Some((a, 1)) = f.single() else { return false };
    if let Kind::Op("fconst", v) = atom_info(a).kind {
        let bits = v[1].k as u64;
        let size = v[2].k;
        return if size == 4 { f32::from_bits(bits as u32).is_nan() } else { f64::from_bits(bits).is_nan() };
    }
    false
}

/// Constant contents of a returned String.
pub fn string_text(c: &mut Case, st: &State, e: &[Ent]) -> Option<String> {
    let p = c.s.ex.p;
    let t = p.tys.iter().position(|t| t.n == "std::string::String")?;
    let (a, _) = c.s.ex.path(t, &["vec", "buf", "inner", "ptr"])?;
    let (l, _) = c.s.ex.path(t, &["vec", "len"])?;
    let arg = Arg { ty: t, size: p.size(t), ents: e.to_vec() };
    let ptr = arg.at(a, 8);
    let Val::Int(n) = arg.at(l, 8) else { return None };
    let mut st = st.clone();
    c.s.ex.const_str(&mut st, &ptr, &Val::Int(n))
}

fn pair(e: &[Ent]) -> Option<(Form, Form)> {
    let g = |o: i128| {
        e.iter().rev().find_map(|x| match x {
            Ent::Cell(Cell { off, val: Val::Int(f), size: 4, .. }) if off.is_c(o) => Some(f.clone()),
            _ => None,
        })
    };
    Some((g(0)?, g(4)?))
}

fn c10() -> Vec<Job> {
    let mut v = vec![];
    let anyi = || In::I(i32::MIN as i128, i32::MAX as i128);
    let valid = |p: &Form, s: &Form| vec![ge(&p.addc(-1)), ge(&p.neg().addc(1000)), ge(s), ge(&p.sub(s))];
    let invalid =
        |p: &Form, s: &Form| vec![vec![lt0(&p.addc(-1))], vec![lt0(&p.neg().addc(1000))], vec![lt0(s)], vec![lt0(&p.sub(s))]];
    for (r, two) in [("typmod_roundtrip", true), ("typmod_roundtrip1", false)] {
        let ins = if two { vec![anyi(), anyi()] } else { vec![anyi()] };
        v.push(job(r, "any precision and scale", ins, exact(), move |c: &mut Case| {
            let p = c.ins[0].int().clone();
            let s = if two { c.ins[1].int().clone() } else { Form::c(0) };
            for (st, rv) in c.results() {
                match rv {
                    RV::Absent => c.require("constructible exactly for precision 1..1000 and scale 0..precision", &st, &[valid(&p, &s)]),
                    RV::Raw(e) => {
                        c.require("constructible exactly for precision 1..1000 and scale 0..precision", &st, &invalid(&p, &s));
                        match pair(&e) {
                            Some((a, b)) => {
                                c.must_eq("extraction returns the precision packed", &st, &a, &p);
                                c.must_eq("extraction returns the scale packed", &st, &b, &s);
                            }
                            None => c.undecided("extraction returns the precision packed"),
                        }
                    }
                    _ => c.never("constructing a modifier does not fail otherwise", &st),
                }
            }
        }));
    }
    for (r, two) in [("typmod_new", true), ("typmod_with_precision", false), ("typmod_raw", true), ("typmod_raw1", false)] {
        let ins = if two { vec![anyi(), anyi()] } else { vec![anyi()] };
        v.push(job(r, "any precision and scale, twice", ins, exact(), move |c: &mut Case| {
            let p = c.ins[0].int().clone();
            let s = if two { c.ins[1].int().clone() } else { Form::c(0) };
            for (st, rv) in c.results() {
                let RV::Int(x) = rv else {
                    if let RV::Absent = rv {
                        c.require("constructible exactly for precision 1..1000 and scale 0..precision", &st, &[valid(&p, &s)]);
                    }
                    continue;
                };
                // a second, independent pair
                let p2 = input("p2", i32::MIN as i128, i32::MAX as i128);
                let s2 = if two { input("s2", i32::MIN as i128, i32::MAX as i128) } else { Form::c(0) };
                let ins2 = if two { vec![InV::I(p2.clone()), InV::I(s2.clone())] } else { vec![InV::I(p2.clone())] };
                let Some((f2, a2, outs)) = c.again(r, &st, &ins2) else { continue };
                for (st2, o) in outs {
                    for (st3, rv2) in c.decode(f2, &a2, &st2, &o) {
                        let RV::Int(y) = rv2 else { continue };
                        let same = eq0(&x.sub(&y));
                        c.require(
                            "distinct pairs have distinct values",
                            &st3,
                            &[vec![same.clone(), gt0(&p.sub(&p2))], vec![same.clone(), lt0(&p.sub(&p2))], vec![same.clone(), gt0(&s.sub(&s2))], vec![same, lt0(&s.sub(&s2))]],
                        );
                    }
                }
                let Some((f3, a3, outs)) = c.again("typmod_raw_default", &st, &[]) else { continue };
                for (st2, o) in outs {
                    for (st3, rv2) in c.decode(f3, &a3, &st2, &o) {
                        if let RV::Int(y) = rv2 {
                            c.require("no pair has the value of the default modifier", &st3, &[vec![eq0(&x.sub(&y))]]);
                        }
                    }
                }
                // rebuilding from the raw value and extracting
                let Some((f4, a4, outs)) = c.again("typmod_rebuild", &st, &[InV::I(x.clone())]) else { continue };
                for (st2, o) in outs {
                    for (st3, rv2) in c.decode(f4, &a4, &st2, &o) {
                        match rv2 {
                            RV::Int(y) => c.must_eq("rebuilding from the raw value restores it", &st3, &x, &y),
                            _ => c.never("rebuilding from the raw value restores it", &st3),
                        }
                    }
                }
                let Some((f5, a5, outs)) = c.again("typmod_extract", &st, &[InV::I(x.clone())]) else { continue };
                for (st2, o) in outs {
                    for (st3, rv2) in c.decode(f5, &a5, &st2, &o) {
                        match rv2 {
                            RV::Raw(e) => {
                                if let Some((a, b)) = pair(&e) {
                                    c.must_eq("extraction returns the precision packed", &st3, &a, &p);
                                    c.must_eq("extraction returns the scale packed", &st3, &b, &s);
                                }
                            }
                            _ => c.never("extraction returns the precision packed", &st3),
                        }
                    }
                }
            }
        }));
    }
    v
}

fn c23() -> Vec<Job> {
    let mut v = vec![];
    for (k, want) in [("Empty", "Invalid"), ("Invalid", "Invalid"), ("Overflow", "Overflow")] {
        v.push(job("err_conv", k, vec![In::Variant(k)], gen(), move |c: &mut Case| {
            let f = c.f;
            let ty = c.s.ret_ty(f);
            for (st, o) in c.outs.clone() {
                match &o {
                    Out::Ret(e) => {
                        for (s, n) in c.err_of(&st, ty, e) {
                            c.check("parse errors keep their kind when converted", &s, n == want);
                        }
                    }
                    _ => c.never("parse errors keep their kind when converted", &st),
                }
            }
        }));
    }
    let msgs: [(&str, &str, &str); 5] = [
        ("err_parse_fmt", "Empty", "empty"),
        ("err_parse_fmt", "Invalid", "invalid"),
        ("err_parse_fmt", "Overflow", "overflow"),
        ("err_try_fmt", "Invalid", "cannot convert"),
        ("err_try_fmt", "Overflow", "out of range"),
    ];
    for (r, k, frag) in msgs {
        v.push(job(r, k, vec![In::Variant(k), In::Opaque], gen(), move |c: &mut Case| {
            for (st, o) in c.outs.clone() {
                let p = pieces(&st);
                let ok = matches!(o, Out::Ret(_)) && matches!(p.as_slice(), [Piece::Lit(s)] if s.contains(frag));
                c.check("each error kind prints its own message", &st, ok);
            }
        }));
    }
    v
}
