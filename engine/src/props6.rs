//! Text: parsing and printing.
use crate::check::*;
use crate::ctx::*;
use crate::exec::*;
use crate::mem::*;
use crate::num::*;
use crate::props::*;
use crate::props2::*;
use crate::suite::*;

pub type Cl = (i128, i128);
const D: Cl = (48, 57);
const W: Cl = (9, 10);
const SP: Cl = (32, 32);
fn ch(c: char) -> Cl {
    (c as i128, c as i128)
}
/// What the grammar says about a text.
#[derive(Debug, PartialEq)]
pub enum Said {
    Empty,
    Invalid,
    NaN,
    /// sign, mantissa digit positions, how many of them are fraction digits, exponent sign and digit positions
    Num { neg: bool, man: Vec<usize>, frac: usize, eneg: bool, exp: Vec<usize> },
}
fn is_ws(c: Cl) -> bool {
    matches!(c.0, 9 | 10 | 12 | 13 | 32) && matches!(c.1, 9 | 10 | 12 | 13 | 32)
}
fn is_digit(c: Cl) -> bool {
    c.0 >= 48 && c.1 <= 57
}
fn is(c: Option<&Cl>, x: &str) -> bool {
    c.map(|c| c.0 == c.1 && x.bytes().any(|b| b as i128 == c.0)).unwrap_or(false)
}
pub fn said(t: &[Cl]) -> Said {
    let mut l = 0;
    let mut r = t.len();
    while l < r && is_ws(t[l]) {
        l += 1;
    }
    while r > l && is_ws(t[r - 1]) {
        r -= 1;
    }
    if l == r {
        return Said::Empty;
    }
    let u = &t[l..r];
    if u.len() == 3 && is(u.first(), "nN") && is(u.get(1), "aA") && is(u.get(2), "nN") {
        return Said::NaN;
    }
    let mut i = 0;
    let mut neg = false;
    if is(u.first(), "+-") {
        neg = is(u.first(), "-");
        i = 1;
    }
    let mut man = vec![];
    let mut frac = 0;
    while i < u.len() && is_digit(u[i]) {
        man.push(l + i);
        i += 1;
    }
    if is(u.get(i), ".") {
        i += 1;
        while i < u.len() && is_digit(u[i]) {
            man.push(l + i);
            frac += 1;
            i += 1;
        }
    }
    if man.is_empty() {
        return Said::Invalid;
    }
    let mut exp = vec![];
    let mut eneg = false;
    if is(u.get(i), "eE") {
        i += 1;
        if is(u.get(i), "+-") {
            eneg = is(u.get(i), "-");
            i += 1;
        }
        while i < u.len() && is_digit(u[i]) {
            exp.push(l + i);
            i += 1;
        }
        if exp.is_empty() {
            return Said::Invalid;
        }
    }
    if i < u.len() {
        return Said::Invalid;
    }
    Said::Num { neg, man, frac, eneg, exp }
}
fn show(t: &[Cl]) -> String {
    t.iter()
        .map(|c| {
            if *c == D {
                "9".to_string()
            } else if *c == W {
                "_".to_string()
            } else if c.0 == c.1 {
                (c.0 as u8 as char).to_string()
            } else {
                format!("[{:?}-{:?}]", c.0 as u8 as char, c.1 as u8 as char)
            }
        })
        .collect()
}

const GRAM: &str = "text is accepted exactly when it is one decimal number or NaN, with the documented error otherwise";
const VAL: &str = "the parsed value is the written one";
const SCALE: &str = "the parsed scale is the number of fraction digits reduced by the exponent, at least zero";

fn parse_post(t: Vec<Cl>) -> impl Fn(&mut Case) + Send + Sync + Clone {
    move |c: &mut Case| {
        let InV::Bytes { tag, .. } = c.ins[0].clone() else { return c.undecided(GRAM) };
        for (st, rv) in c.results() {
            parsed(c, &t, tag, 255, st, rv);
        }
    }
}
/// The outcome of reading text t, whose bytes are those of a tag.
pub fn parsed(c: &mut Case, t: &[Cl], tag: u32, top: i128, st: State, rv: RV) {
    let want = said(t);
    let byte = |i: usize| Form::atom(mk_atom(Kind::Read(tag, Form::c(i as i128), 1, false), 0, top));
    match (&want, rv) {
        (_, RV::Unknown) => c.undecided(GRAM),
        (Said::Empty, rv) => c.check(GRAM, &st, matches!(&rv, RV::Err(e) if e == "Empty")),
        (Said::Invalid, rv) => c.check(GRAM, &st, matches!(&rv, RV::Err(e) if e == "Invalid")),
        (Said::NaN, rv) => c.check(GRAM, &st, matches!(&rv, RV::Num(r) if r.nan)),
        (Said::Num { neg, man, frac, exp, .. }, rv) if man.len() > 30 => {
            if !exp.is_empty() {
                return c.undecided(GRAM);
            }
            match rv {
                RV::Num(r) if !r.nan => {
                    c.must_eq(SCALE, &st, &r.ds, &Form::c(*frac as i128));
                    let mut want = Wide::new();
                    for (j, i) in man.iter().enumerate() {
                        let at = (man.len() - 1 - j) as i128 - *frac as i128;
                        let x = pow10(at.rem_euclid(4)).unwrap() * if *neg { -1 } else { 1 };
                        wide_add(&mut want, at.div_euclid(4), &byte(*i).addc(-48).mulc(x).unwrap());
                    }
                    wide_is(c, VAL, &st, &r, &want);
                    if r.neg {
                        c.require("a negative result is not zero", &st, &[vec![eq0(&r.nd)]]);
                    }
                }
                _ => c.never(GRAM, &st),
            }
        }
        (Said::Num { neg, man, frac, eneg, exp }, rv) => {
            let mut m = Form::c(0);
            for i in man {
                m = m.mulc(10).unwrap().add(&byte(*i)).addc(-48);
            }
            let mut e = Form::c(0);
            for i in exp {
                e = e.mulc(10).unwrap().add(&byte(*i)).addc(-48);
            }
            if *eneg {
                e = e.neg();
            }
            // exponents far beyond any representable value
            let fr = *frac as i128;
            let mut mid = st.clone();
            for (far, up) in [(e.addc(-140000), true), (e.neg().addc(-20000), false)] {
                let s = with(&st, &[ge(&far)]);
                mid.dom.add_ge0(&far.neg().addc(-1));
                if s.dom.bot || fr > 1000 {
                    continue;
                }
                match &rv {
                    // only zero has a value this large
                    RV::Num(r) if !r.nan && up => {
                        c.must_eq("a value beyond range is reported as overflow", &s, &m, &Form::c(0));
                        c.must_eq(SCALE, &s, &r.ds, &Form::c(0));
                        value_is(c, VAL, &s, r, &Form::c(0), 0);
                    }
                    RV::Num(_) => c.never("a value beyond range is reported as overflow", &s),
                    RV::Err(x) if x == "Overflow" => {
                        if up {
                            // zero is representable unless the exponent itself is out of bounds
                            c.require(GRAM, &s, &[vec![eq0(&m), ge(&e.neg().addc((1 << 30) - 2))]]);
                        } else {
                            c.ok(GRAM);
                        }
                    }
                    _ => c.never(GRAM, &s),
                }
            }
            if mid.dom.bot {
                return;
            }
            let Some(es) = c.concretise(&mid, &e, 2000) else {
                return c.undecided(VAL);
            };
            for (s, ev) in es {
                let ds = (*frac as i128 - ev).max(0);
                let p = ev - *frac as i128;
                let huge = ev.abs() >= (1 << 30) - 1;
                match &rv {
                    RV::Num(r) if !r.nan => {
                        if ds > 0x3FFF {
                            c.never("a value beyond range is reported as overflow", &s);
                            continue;
                        }
                        c.must_eq(SCALE, &s, &r.ds, &Form::c(ds));
                        let k = -p.div_euclid(4);
                        let want = m.mulc(pow10(p.rem_euclid(4)).unwrap()).unwrap();
                        let want = if *neg { want.neg() } else { want };
                        if p > 131072 {
                            c.must_eq("a value beyond range is reported as overflow", &s, &m, &Form::c(0));
                        } else {
                            value_is(c, VAL, &s, r, &want, k);
                        }
                        if r.neg {
                            c.require("a negative result is not zero", &s, &[vec![eq0(&r.nd)]]);
                        }
                    }
                    RV::Err(x) if x == "Overflow" => {
                        if huge || ds > 0x3FFF || p > 131072 {
                            // zero with an in-range scale is still zero
                            if huge || ds > 0x3FFF {
                                c.ok(GRAM);
                            } else {
                                c.require(GRAM, &s, &[vec![eq0(&m)]]);
                            }
                        } else if 131072 - p > 36 {
                            c.never(GRAM, &s);
                        } else {
                            c.require(GRAM, &s, &[vec![lt0(&m.addc(-pow10(131072 - p).unwrap()))]]);
                        }
                    }
                    _ => c.never(GRAM, &s),
                }
            }
        }
    }
}
fn chars(t: &[Cl]) -> In {
    In::Chars(t.to_vec())
}
fn strings(al: &[Cl], n: usize) -> Vec<Vec<Cl>> {
    let mut v: Vec<Vec<Cl>> = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|s| al.iter().map(move |c| { let mut s = s.clone(); s.push(*c); s })).collect();
    }
    v
}
/// texts with bytes no number contains, before, inside and after one
pub fn strange() -> Vec<Vec<Cl>> {
    let mut texts = vec![];
    let u: [&[Cl]; 12] = [
        &[(0, 8)], &[(11, 11)], &[(12, 12)], &[(14, 31)], &[(28, 31)], &[(127, 127)], &[(33, 42)], &[(58, 64)], &[(194, 194), (128, 191)], &[(195, 223), (128, 191)],
        &[(226, 226), (128, 128), (128, 191)], &[(240, 240), (159, 159), (128, 191), (128, 191)],
    ];
    for g in u {
        for t in ["", "nan", "NaN", "#", "-#", "#.#", "#e#", ".#", "#."] {
            let t: Vec<Cl> = t.chars().map(|c| if c == '#' { D } else { ch(c) }).collect();
            for i in 0..=t.len() {
                for sp in 0..2 {
                    let mut s = t[..i].to_vec();
                    s.extend(vec![SP; sp]);
                    s.extend(g);
                    s.extend(vec![SP; sp]);
                    s.extend(&t[i..]);
                    texts.push(s);
                }
            }
        }
    }
    texts
}
/// every text of at most n characters drawn from the classes the grammar tells apart
pub fn short_texts(n: usize) -> Vec<Vec<Cl>> {
    let al = [W, ch('+'), ch('-'), D, ch('.'), ch('e'), ch('E'), ch('n'), ch('N'), ch('a'), (102, 109), SP, (0, 8), (33, 42), (58, 64)];
    (0..=n).flat_map(|n| strings(&al, n)).collect()
}
pub fn c21(t: Tier) -> Vec<Job> {
    let mut texts: Vec<Vec<Cl>> = vec![];
    let base: Vec<Cl> = vec![W, ch('+'), ch('-'), D, ch('.'), ch('e'), ch('E'), ch('n'), ch('N'), ch('a'), ch('A'), (102, 109)];
    let mut wide = base.clone();
    wide.extend([SP, ch('\r'), ch('/'), (58, 64), (0, 8), (33, 42), ch(','), (98, 100), ch('_')]);
    for n in 0..=3 {
        texts.extend(strings(&wide, n));
    }
    let four: Vec<Cl> = base.iter().copied().filter(|c| t == Tier::Thorough || !(*c == ch('E') || *c == ch('A') || *c == ch('N'))).collect();
    texts.extend(strings(&four, 4));
    if t == Tier::Thorough {
        let five: Vec<Cl> = vec![W, ch('+'), ch('-'), D, ch('.'), ch('e'), ch('N'), ch('a'), (102, 109)];
        texts.extend(strings(&five, 5));
        let six: Vec<Cl> = vec![SP, ch('-'), D, ch('.'), ch('E')];
        texts.extend(strings(&six, 6));
    }
    // longer numbers
    let long = if t == Tier::Quick { 6 } else { 9 };
    for sign in [vec![], vec![ch('-')], vec![ch('+')]] {
        for i in 0..=long {
            for f in 0..=long {
                if i + f == 0 || i + f > long + 3 {
                    continue;
                }
                for e in 0..5 {
                    let mut s = sign.clone();
                    s.extend(vec![D; i]);
                    if f > 0 || (i + e) % 2 == 1 {
                        s.push(ch('.'));
                        s.extend(vec![D; f]);
                    }
                    match e {
                        1 => s.extend([ch('e'), D]),
                        2 => s.extend([ch('E'), ch('-'), D]),
                        3 => s.extend([ch('e'), ch('+'), D, D]),
                        4 => s.extend([ch('E'), ch('-'), D, D]),
                        _ => {}
                    }
                    if s.len() <= 4 || (e > 2 && (t == Tier::Quick && i + f > 4)) {
                        continue;
                    }
                    texts.push(s.clone());
                    if e == 1 || (i + f) % 4 == 0 {
                        let mut a = vec![SP, W];
                        a.extend(s.clone());
                        a.extend([W, SP]);
                        texts.push(a);
                        for g in [ch('.'), ch('e'), (102, 109), ch('-'), ch('+'), (0, 8)] {
                            let mut a = s.clone();
                            a.push(g);
                            texts.push(a.clone());
                            let mut a = s.clone();
                            a.extend([SP, g]);
                            texts.push(a);
                            let mut a = vec![g];
                            a.extend(s.clone());
                            texts.push(a);
                        }
                        let mut a = s.clone();
                        a.extend([SP, D]);
                        texts.push(a);
                    }
                }
            }
        }
    }
    // NaN surrounded
    for a in ["nan", "NaN", "NAN", "nAn"] {
        for (x, y) in [("", " "), (" \t", "\n "), ("-", ""), ("+", ""), ("", "."), ("", " 1"), ("", "n"), ("", "e1"), ("1", ""), ("", " x"), ("", "  ")] {
            let s = format!("{}{}{}", x, a, y);
            texts.push(s.chars().map(ch).collect());
        }
    }
    texts.extend(strange());
    // large exponents
    let fixed = |s: &str| -> Vec<Cl> { s.chars().map(|c| if c == '#' { D } else { ch(c) }).collect() };
    for s in [
        "#e131071", "#e131072", "##e131071", "##e131070", "0.#e131072", "0.#e131073", "0.0#e131073", "#e131068", "#e-16383", "#e-16384", "#.#e-16383", "#.#e-16382",
        "#e200000", "#e999999", "#e-99999", "0e200000", "0e-16383", "0e-16384", "#e1073741823", "#e1073741822", "#e-1073741823", "#e99999999999",
        "#e-99999999999", "#e00000000000001", "#e-00000000000001", "#e0000000000131071", "-#e131072", "+#e131072", "-#e131071", "00000#e131071",
        "#e9223372036854775808", "#e18446744073709551617", "#e4294967297", "#e2147483648", "#e-2147483649",
        "#e##########", "#e-##########", "#e2#########", "#e1#########", "#e-1#########", "#e-2#########", "-#.#e1#########", "0e1#########", "#e#########", "#e-#########",
        "#e########", "#e-########", "#e9#####", "#e-9####", "#.##e2########", "0.0e9######", "#e###########", "#e-###########", "#e0##########", "0e131#####",
        "#e1073741824", "#e-1073741822", "#e-1073741824", "#e2147483646", "#e2147483647", "#e-2147483646", "#e-2147483647", "#e-2147483648", "#e4294967295", "#e4294967296",
        "0e1073741822", "0e1073741823", "0e-99999", "0.00e131073", "#e+2147483646", "#e214748364#",
    ] {
        texts.push(fixed(s));
    }
    texts.into_iter().map(parse_job).collect()
}
pub fn parse_job(s: Vec<Cl>) -> Job {
    let mut x = ex("parse", &show(&s), vec![chars(&s)]);
    x.opts.max_ms = 4000;
    x.job(parse_post(s))
}

// ------------------------------------------------------------------ printing
#[derive(Clone, Debug)]
enum Tok {
    Ch(char),
    /// exactly w decimal digits
    Fixed(i128, Form),
    /// decimal digits without padding
    Free(Form),
    /// sign and at least two digits
    Exp(Form),
}
fn toks(st: &State) -> Option<Vec<Tok>> {
    let mut v = vec![];
    for p in pieces(st) {
        match p {
            Piece::Lit(s) => v.extend(s.chars().map(Tok::Ch)),
            Piece::Char(f) => {
                if let Some(k) = st.dom.norm(&f).konst() {
                    v.push(Tok::Ch(char::from_u32(k as u32)?));
                } else {
                    let (l, h) = st.dom.bounds(&f);
                    if l < 48 || h > 57 {
                        return None;
                    }
                    v.push(Tok::Fixed(1, f.addc(-48)));
                }
            }
            Piece::Other(n, args) => match (n.as_str(), args.as_slice()) {
                ("num", [EvArg::Str(d), EvArg::Int(f), dynw @ ..]) => {
                    let d = d.strip_prefix("Display:")?;
                    let opt = |s: &str| -> Option<i128> { s.strip_prefix("Some(")?.strip_suffix(')')?.parse().ok() };
                    let mut it = d.split('/');
                    let (fl, w, pr) = (it.next()?, it.next()?, it.next()?);
                    if pr != "None" {
                        return None;
                    }
                    if fl == "None" && w == "None" {
                        v.push(Tok::Free(f.clone()));
                        continue;
                    }
                    let (fl, mut w) = (opt(fl)?, if w == "None" { 0 } else { opt(w)? });
                    if let (-1, [EvArg::Int(x)]) = (w, dynw) {
                        w = st.dom.norm(x).konst()?;
                    }
                    let (plus, zero) = (fl & 0x20_0000 != 0, fl & 0x100_0000 != 0);
                    if w < 0 {
                        return None;
                    }
                    match (plus, zero, w) {
                        (false, _, 0) => v.push(Tok::Free(f.clone())),
                        (false, true, w) => v.push(Tok::Fixed(w, f.clone())),
                        (true, true, 3) => v.push(Tok::Exp(f.clone())),
                        _ => return None,
                    }
                }
                ("str", _) => return None,
                ("display", _) => {}
                _ => return None,
            },
        }
    }
    // a run of literal digits is a number
    Some(v)
}
/// The text the events from a position on print, when every part is known.
pub fn const_text(st: &State, from: usize) -> Option<String> {
    let mut s = st.clone();
    s.events = std::rc::Rc::new(st.events.get(from..)?.iter().filter(|e| &*e.name != "to_string" && &*e.name != "display").cloned().collect());
    let k = |f: &Form| st.dom.norm(f).konst();
    let mut v = String::new();
    for t in toks(&s)? {
        match t {
            Tok::Ch(c) if c.is_ascii() => v.push(c),
            Tok::Fixed(w, f) => v += &format!("{:0w$}", k(&f)?, w = w as usize),
            Tok::Free(f) => v += &k(&f)?.to_string(),
            _ => return None,
        }
    }
    Some(v)
}
/// The decimal text of an input whose digits are all known.
pub fn const_plain(st: &State, a: &Num) -> Option<String> {
    let k = |f: &Form| st.dom.norm(f).konst();
    let (nd, w, ds) = (k(&a.nd)?, k(&a.w)?, k(&a.ds)?);
    if a.sh.nan() || nd > 300 || w.abs() > 300 || ds > 1200 {
        return None;
    }
    let mut at = |e: i128| -> Option<String> {
        let i = w - e;
        Some(format!("{:04}", if (0..nd).contains(&i) { k(&in_digit(a, i))? } else { 0 }))
    };
    let mut int = String::new();
    for e in (0..=w.max(0)).rev() {
        int += &at(e)?;
    }
    let int = int.trim_start_matches('0');
    let mut frac = String::new();
    for e in 1..=(ds + 3) / 4 {
        frac += &at(-e)?;
    }
    let frac = &frac[..ds as usize];
    Some(format!("{}{}{}{}", if a.sh.sign() < 0 { "-" } else { "" }, if int.is_empty() { "0" } else { int }, if ds > 0 { "." } else { "" }, frac))
}
/// The text a slice of known bytes holds.
pub fn cells_text(len: &Form, cells: &[Ent]) -> Option<String> {
    let n = len.konst()?;
    let mut v = vec![None; n as usize];
    for c in cells {
        match c {
            Ent::Cell(c) if c.size == 1 => {
                let i = c.off.konst().filter(|i| (0..n).contains(i))?;
                let Val::Int(f) = &c.val else { return None };
                v[i as usize] = Some(u8::try_from(f.konst()?).ok()?);
            }
            _ => return None,
        }
    }
    String::from_utf8(v.into_iter().collect::<Option<Vec<u8>>>()?).ok()
}
const SIGN: &str = "the text starts with a minus exactly for negative values";
const POINT: &str = "a point is printed exactly when the scale is positive, followed by as many digits as the scale";
const DIG: &str = "the printed digits are those of the value";
const SCI: &str = "scientific text has the exponent letter requested, one digit before the point and the exact value";

/// An unsigned decimal read from tokens.
struct Dec {
    int: Option<Form>,
    /// number of fraction digits
    frac: i128,
    /// all digits as one integer, when that fits
    all: Option<Form>,
    /// digit groups: width and value
    groups: Vec<(i128, Form)>,
    point: bool,
    used: usize,
}
fn decimal(c: &mut Case, rule: &str, st: &State, t: &[Tok]) -> Option<Dec> {
    let mut int = Some(Form::c(0));
    let mut all = Some(Form::c(0));
    let mut groups = vec![];
    let mut frac = 0;
    let mut point = false;
    let mut n = 0;
    let mut i = 0;
    let lead = |c: &mut Case, f: &Form| {
        // more digits follow: the first ones must not be zeros
        c.require(rule, st, &[vec![lt0(&f.addc(-1))]]);
    };
    while i < t.len() {
        let (w, f) = match &t[i] {
            Tok::Ch('.') if !point => {
                point = true;
                i += 1;
                continue;
            }
            Tok::Ch(d) if d.is_ascii_digit() => (1, Form::c(*d as i128 - 48)),
            Tok::Ch(_) | Tok::Exp(_) => break,
            Tok::Fixed(w, f) => {
                let m = pow10(*w)?;
                c.require(rule, st, &[vec![lt0(f)], vec![ge(&f.addc(-m))]]);
                (*w, f.clone())
            }
            Tok::Free(f) => {
                c.require(rule, st, &[vec![lt0(f)]]);
                if point || n > 0 {
                    // the number of digits must be known
                    let (l, h) = st.dom.bounds(f);
                    if l < 0 || l.to_string().len() != h.to_string().len() {
                        return None;
                    }
                    (h.to_string().len() as i128, f.clone())
                } else {
                    (0, f.clone())
                }
            }
        };
        if !point && n == 1 {
            lead(c, int.as_ref()?);
        }
        all = if groups.len() > 8 { None } else { all.and_then(|a| Some(a.mulc(pow10(w)?)?.add(&f))) };
        groups.push((w, f));
        if point {
            frac += w;
        } else {
            int = all.clone();
            n += 1;
        }
        i += 1;
    }
    if n == 0 {
        return None;
    }
    Some(Dec { int, frac, all, groups, point, used: i })
}
/// The digit groups, the last digit of which has weight 10^e, spell |a| exactly.
/// Every prefix must agree with the stored digits: a prefix that is off by one
/// unit cannot be made good by the digits after it.
fn spells(c: &mut Case, rule: &str, st: &State, g: &[(i128, Form)], e: i128, a: &Num) -> Option<()> {
    let (nd, w) = (a.nd.konst()?, a.w.konst()?);
    let mut ends = vec![];
    let mut x = e;
    for (w, _) in g.iter().rev() {
        ends.push(x);
        x += w;
    }
    ends.reverse();
    let mut d = Form::c(0);
    let mut unit = 4 * (w + 1);
    let mut j = 0;
    let mut first = true;
    for ((_, f), end) in g.iter().zip(ends) {
        if first && end >= unit {
            unit = end;
        }
        first = false;
        let mut low = false;
        while j < nd && unit > end && 4 * (w - j + 1) > end {
            let u = 4 * (w - j);
            d = d.mulc(pow10(unit - u)?)?.sub(&in_digit(a, j));
            unit = u;
            j += 1;
            low = true;
        }
        if unit > end {
            d = d.mulc(pow10(unit - end)?)?;
            unit = end;
        }
        let _ = low;
        let m = pow10(end - unit)?;
        d = st.dom.norm(&d.add(&f.mulc(m)?));
        c.require(rule, st, &[vec![gt0(&d)], vec![ge(&d.neg().addc(-m))]]);
    }
    while j < nd {
        let u = 4 * (w - j);
        d = d.mulc(pow10(unit - u)?)?.sub(&in_digit(a, j));
        unit = u;
        j += 1;
    }
    c.must_eq(rule, st, &d, &Form::c(0));
    Some(())
}

/// Sets the sign rule aside: the rest of the text.
fn minus(c: &mut Case, st: &State, n: &Num, t: &[Tok]) -> usize {
    let m = matches!(t.first(), Some(Tok::Ch('-')));
    c.check(SIGN, st, m == (n.sh.sign() < 0));
    m as usize
}
fn plain_post(c: &mut Case) {
    let a = c.ins[0].num().clone();
    for (st, o) in c.outs.clone() {
        if !matches!(o, Out::Ret(_)) {
            c.never(DIG, &st);
            continue;
        }
        plain_text(c, &st, &a);
    }
}
/// The text written is the plain text of a.
pub fn plain_text(c: &mut Case, st: &State, a: &Num) {
    let Some(vs) = c.concretise(st, &a.ds, 64) else {
        return c.undecided(POINT);
    };
    for (s, ds) in vs {
        let Some(t) = toks(&s) else {
            c.undecided(DIG);
            continue;
        };
        let m = minus(c, &s, a, &t);
        let Some(Dec { frac, all, point, used, groups, .. }) = decimal(c, DIG, &s, &t[m..]) else {
            c.undecided(DIG);
            continue;
        };
        c.check(POINT, &s, point == (ds > 0) && frac == ds);
        c.check(DIG, &s, used + m == t.len());
        if a.nd.konst().unwrap_or(0) > 5 || a.w.konst().unwrap_or(0).abs() > 6 || ds > 24 {
            if frac == ds && spells(c, DIG, &s, &groups, -ds, a).is_none() {
                c.undecided(DIG);
            }
            continue;
        }
        let Some(all) = all else {
            c.undecided(DIG);
            continue;
        };
        // all == |a| 10^ds
        let k = a.nd.konst().unwrap_or(0) - 1 - a.w.konst().unwrap_or(0);
        let k = k.max((ds + 3) / 4);
        let Some(va) = in_scaled(a, k) else {
            c.undecided(DIG);
            continue;
        };
        let va = if a.sh.sign() < 0 { va.neg() } else { va };
        if frac != ds {
            continue;
        }
        match pow10(4 * k - ds).and_then(|p| all.mulc(p)) {
            Some(x) => c.must_eq(DIG, &s, &x, &va),
            None => c.undecided(DIG),
        }
    }
}
fn sci_post(upper: bool) -> impl Fn(&mut Case) + Send + Sync + Clone {
    move |c: &mut Case| {
        let a = c.ins[0].num().clone();
        for (st, o) in c.outs.clone() {
            if !matches!(o, Out::Ret(_)) {
                c.never(SCI, &st);
                continue;
            }
            let Some(t) = toks(&st) else {
                c.undecided(SCI);
                continue;
            };
            let m = minus(c, &st, &a, &t);
            let Some(Dec { int: Some(int), frac, all, point, used, groups }) = decimal(c, SCI, &st, &t[m..]) else {
                c.undecided(SCI);
                continue;
            };
            let rest = &t[m + used..];
            let letter = if upper { 'E' } else { 'e' };
            match rest {
                [Tok::Ch(l), Tok::Exp(e)] => {
                    c.check(SCI, &st, *l == letter);
                    c.check(SCI, &st, point == (frac > 0));
                    let Some(es) = c.concretise(&st, e, 64) else {
                        c.undecided(SCI);
                        continue;
                    };
                    for (s, e) in es {
                        if a.sh.zero() {
                            c.check(SCI, &s, e == 0);
                            match &all {
                                Some(all) => c.must_eq(SCI, &s, all, &Form::c(0)),
                                None => c.undecided(SCI),
                            }
                            continue;
                        }
                        c.require(SCI, &s, &[vec![lt0(&int.addc(-1))], vec![gt0(&int.addc(-9))]]);
                        if a.nd.konst().unwrap_or(0) > 5 || a.w.konst().unwrap_or(0).abs() > 6 {
                            if spells(c, SCI, &s, &groups, e - frac, &a).is_none() {
                                c.undecided(SCI);
                            }
                            continue;
                        }
                        let Some(all) = all.clone() else {
                            c.undecided(SCI);
                            continue;
                        };
                        // all 10^(e - frac) == |a|
                        let k0 = a.nd.konst().unwrap_or(0) - 1 - a.w.konst().unwrap_or(0);
                        let p = e - frac;
                        let k = k0.max((-p + 3).div_euclid(4));
                        let Some(va) = in_scaled(&a, k) else {
                            c.undecided(SCI);
                            continue;
                        };
                        let va = if a.sh.sign() < 0 { va.neg() } else { va };
                        match pow10(4 * k + p).and_then(|x| all.mulc(x)) {
                            Some(x) => c.must_eq(SCI, &s, &x, &va),
                            None => c.undecided(SCI),
                        }
                    }
                }
                _ if rest.iter().all(|t| matches!(t, Tok::Ch(_))) => c.never(SCI, &st),
                _ => c.undecided(SCI),
            }
        }
    }
}
pub fn plain_jobs(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let (nds, ws): (&[i128], &[i128]) = if t == Tier::Quick { (&[1, 2, 3], &[-3, -2, -1, 0, 1, 2, 3]) } else { (&[1, 2, 3, 4, 5], &[-6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5]) };
    for r in ["fmt_n", "fmt_b"] {
        for a in wide(&[PS, NS, ZS, ZL, PL, NL], nds, ws) {
            let f = if a.sh.zero() { 0 } else { 4 * (a.nd - 1 - a.w) };
            let mut dss: Vec<(i128, i128)> = (f - 3..=f + 6).filter(|d| *d >= 0).map(|d| (d, d)).collect();
            dss.push((f.max(0), f.max(0) + 9));
            if a.sh.zero() {
                dss.extend([(7, 7), (0, 20), (12, 12), (21, 21)]);
            }
            for ds in dss {
                v.push(cx(r, vec![a.ds(ds.0, ds.1).inp()], false).job(plain_post));
            }
        }
    }
    for r in ["fmt_n", "fmt_b"] {
        let long: &[(i128, i128)] = if t == Tier::Quick { &[(8, 3), (27, 13), (30, 28), (28, -3)] } else { &[(6, 2), (8, 3), (9, -5), (16, 7), (27, 13), (30, 28), (28, -3), (33, 40), (60, 30), (64, 0)] };
        for (nd, w) in long {
            for x in [PL, NL] {
                let a = Shape { sh: x, nd: *nd, w: *w, ds: None, pat: 0 };
                let f = (4 * (nd - 1 - w)).max(0);
                for ds in f..=f + 5 {
                    v.push(cx(r, vec![a.ds(ds, ds).inp()], false).job(plain_post));
                }
            }
        }
        // few digits, many zeros
        for (nd, w, ds) in SPARSE {
            for x in [PL, NL, ZL] {
                let a = Shape { sh: x, nd: *nd, w: *w, ds: None, pat: 0 };
                v.push(cx(r, vec![a.ds(*ds, *ds).inp()], false).job(plain_post));
            }
        }
    }
    v
}
const SPARSE: &[(i128, i128, i128)] = &[(1, 0, 100), (1, 0, 301), (2, 80, 0), (1, 70, 66), (1, -60, 240), (2, -30, 150)];
pub fn c22(t: Tier) -> Vec<Job> {
    let mut v = plain_jobs(t);
    for (r, up) in [("lexp_n", false), ("lexp_b", false), ("uexp_n", true), ("uexp_b", true)] {
        let main = r == "lexp_n" || t == Tier::Thorough;
        let nds: &[i128] = if t == Tier::Thorough { &[1, 2, 3] } else if main { &[1, 2] } else { &[1] };
        for a in wide(&[PS, NS, ZS, ZL, NL], nds, if main { &[-3, -2, -1, 0, 1, 2, 3] } else { &[-1, 0, 1] }) {
            let f = if a.sh.zero() { 0 } else { (4 * (a.nd - 1 - a.w)).max(0) };
            v.push(cx(r, vec![a.ds(f, f).inp()], false).job(sci_post(up)));
        }
        // long values
        let long: &[(i128, i128)] = if t == Tier::Quick { &[(8, 3), (27, 13), (30, 28), (28, -3)] } else { &[(6, 2), (8, 3), (9, -5), (16, 7), (27, 13), (30, 28), (28, -3), (33, 40), (60, 30), (64, 0)] };
        for (nd, w) in long {
            for x in [PL, NL] {
                let a = Shape { sh: x, nd: *nd, w: *w, ds: None, pat: 0 };
                let f = (4 * (nd - 1 - w)).max(0);
                for ds in [f, f + 3] {
                    v.push(cx(r, vec![a.ds(ds, ds).inp()], false).job(sci_post(up)));
                }
            }
        }
        for (nd, w, ds) in SPARSE {
            for x in [PL, NL] {
                let a = Shape { sh: x, nd: *nd, w: *w, ds: None, pat: 0 };
                v.push(cx(r, vec![a.ds(*ds, *ds).inp()], false).job(sci_post(up)));
            }
        }
    }
    v
}
