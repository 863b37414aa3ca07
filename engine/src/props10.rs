//! Exactness of sums, products and quotients; printing followed by parsing.
use crate::check::*;
use crate::ctx::*;
use crate::num::Form;
use crate::props::*;
use crate::props2::*;
use crate::props6::*;
use crate::suite::*;

const SUM: &str = "a sum or difference is the exact sum or difference of the operands";
const MUL: &str = "a product is the exact product of the operands";
const QUO: &str = "a quotient is the exact quotient rounded at its scale, halves away from zero";
const TRU: &str = "a truncated quotient is the exact quotient without its fraction";
const REM: &str = "a remainder is what truncating division leaves";

/// sums and products of longer operands
pub fn c27(t: Tier) -> Vec<Job> {
    let mut v = sums(t, SUM);
    v.extend(products(t, MUL));
    let sh = |sh, nd, w| Shape { sh, nd, w, ds: None, pat: 0 };
    let top = if t == Tier::Quick { 5 } else { 7 };
    for (x, y) in [(PS, PS), (PS, NS), (NS, PS), (NL, NL), (PL, NS)] {
        for na in 1..=top {
            for nb in 1..=top {
                if na.max(nb) < 3 || na + nb > top + 2 {
                    continue;
                }
                for (wa, wb) in [(0, 0), (na - 1, nb - 1), (-1, -1), (2, 0), (0, 3), (-3, 1)] {
                    for op in ["add", "sub"] {
                        v.push(sum_job(op, sh(x, na, wa), sh(y, nb, wb), SUM));
                    }
                }
            }
        }
    }
    // operands that do not overlap
    for (x, y) in [(PS, PS), (PL, NS), (NS, PL)] {
        for (na, wa, nb, wb) in [(1, 9, 1, -9), (2, 12, 1, 0), (1, -14, 3, 2), (4, 20, 4, 3), (1, 30, 2, -20)] {
            for op in ["add", "sub"] {
                v.push(sum_job(op, sh(x, na, wa), sh(y, nb, wb), SUM));
                v.push(sum_job(op, sh(y, nb, wb), sh(x, na, wa), SUM));
            }
        }
    }
    let mt = if t == Tier::Quick { 4 } else { 5 };
    for (x, y) in [(PS, NS), (NL, PL)] {
        for na in 1..=mt {
            for nb in 1..=mt {
                if na.max(nb) < 3 || na + nb > mt + 2 {
                    continue;
                }
                v.push(mul_job(sh(x, na, na - 1), sh(y, nb, 0), MUL));
                v.push(mul_job(sh(x, na, -2), sh(y, nb, 1), MUL));
            }
        }
    }
    // long operands of large digits
    let all = |d: i128, n: i128| vec![d; n as usize];
    let mix = |n: i128, k: i128, x: i128, y: i128| (0..n).map(|i| if i % k == k - 1 && i != n - 1 { y } else { x }).collect::<Vec<_>>();
    for n in [8, 16, 24, 30] {
        v.push(long_mul(PL, all(9999, n), NL, n, 0, 9000, &[], false));
    }
    for n in if t == Tier::Quick { &[44, 50][..] } else { &[43, 44, 50, 66, 70, 90, 140] } {
        let n = *n;
        v.push(long_mul(PL, all(9999, n), NL, n, 0, 9000, &[0, 20, 43], true));
        v.push(long_mul(PL, all(9999, n), NL, n, 0, 1, &[0], false));
        v.push(long_mul(PL, all(9999, n), NL, n, 0, 1, &[43], false));
        v.push(long_mul(NL, mix(n, 3, 9999, 0), PL, n, 0, 1, &[43], false));
        v.push(long_mul(NL, mix(n, 2, 1, 9999), PL, n + 7, 3, 1, &[43], true));
        v.push(long_mul(PL, mix(n, 5, 5000, 1), PL, n, 0, 1, &[0, 7], false));
    }
    for n in if t == Tier::Quick { &[20i128][..] } else { &[20, 60, 200] } {
        let n = *n;
        for (x, y) in [(PL, PL), (PL, NL), (NL, PL)] {
            for op in ["add", "sub"] {
                for flip in [false, true] {
                    v.push(long_sum(op, x, all(9999, n), 3, y, all(9999, n), 3, &[0, 7, 13], flip));
                    v.push(long_sum(op, x, all(9999, n), 3, y, all(1, n), 3 - n / 2, &[0, 13], flip));
                    v.push(long_sum(op, x, all(9999, n), 3, y, vec![1], 3 - n + 1, &[0], flip));
                    v.push(long_sum(op, x, mix(n, 4, 9999, 0), 3, y, mix(n + 5, 3, 0, 1).into_iter().enumerate().map(|(i, d)| if i == 0 || i as i128 == n + 4 { 5 } else { d }).collect(), 5, &[0, 9], flip));
                    v.push(long_sum(op, x, mix(n, n - 1, 1, 0), n + 40, y, all(9999, 2), -30, &[1], flip));
                }
            }
        }
    }
    v
}

/// digits i of the input x lie within lims(i)
fn within(c: &mut Cx, k: usize, text: &str, lims: impl Fn(i128) -> (i128, i128) + Send + Sync + 'static) {
    c.ctx += text;
    let old = c.pre.take();
    c.pre = Some(std::sync::Arc::new(move |s: &mut Sess, i: &[InV]| {
        if let Some(p) = &old {
            p(s, i);
        }
        let n = i[k].num();
        for j in 0..n.nd.konst().unwrap_or(0) {
            let (l, h) = lims(j);
            let d = in_digit(n, j);
            if l == h {
                s.st.dom.add_eq0(&d.addc(-l));
            } else {
                s.st.dom.add_ge0(&d.addc(-l));
                s.st.dom.add_ge0(&d.neg().addc(h));
            }
        }
    }));
}
/// product of a known and a long operand whose digits are large
fn long_mul(x: Sh, a: Vec<i128>, y: Sh, nb: i128, wb: i128, lo: i128, free: &'static [i128], flip: bool) -> Job {
    let na = a.len() as i128;
    let fill = |n: i128, w: i128| (4 * (n - 1 - w)).max(0);
    let ia = In::N(x, NumOpt { nd: Some(na), w: Some((0, 0)), ds: Some((fill(na, 0), fill(na, 0))), ..NumOpt::default() });
    let ib = In::N(y, NumOpt { nd: Some(nb), w: Some((wb, wb)), ds: Some((fill(nb, wb), fill(nb, wb))), ..NumOpt::default() });
    let (ka, kb) = if flip { (1, 0) } else { (0, 1) };
    let mut c = cx("checked_mul", if flip { vec![ib, ia] } else { vec![ia, ib] }, false);
    let txt = format!("; the {} {} digits are {}, {}, ..", ["first", "second"][ka], na, a[0], a[(na > 1) as usize]);
    within(&mut c, ka, &txt, move |i| (a[i as usize], a[i as usize]));
    let txt = match free {
        [] => format!("; digits of the other {}..9999", lo),
        f => format!("; digits of the other {}..9999 at {:?}, else 9999", lo, f),
    };
    within(&mut c, kb, &txt, move |i| if free.is_empty() || free.contains(&i) { (lo, 9999) } else { (9999, 9999) });
    c.opts.max_ms = 60_000;
    c.job(move |c: &mut Case| {
        let (x, y) = (c.ins[ka].num().clone(), c.ins[kb].num().clone());
        for (st, rv) in c.results() {
            match rv {
                RV::Num(r) if !r.nan => {
                    let (Some(va), Some(vb)) = (in_wide(&x, 1), in_wide(&y, 1)) else { return c.undecided(MUL) };
                    let mut want = Wide::new();
                    for (e, f) in &va {
                        let Some(k) = st.dom.konst(f) else { return c.undecided(MUL) };
                        for (g, h) in &vb {
                            let Some(p) = h.mulc(k) else { return c.undecided(MUL) };
                            wide_add(&mut want, e + g, &p);
                        }
                    }
                    wide_is(c, MUL, &st, &r, &want);
                }
                _ => c.never(MUL, &st),
            }
        }
    })
}

/// sum of a known and a long operand with a few unknown digits
fn long_sum(op: &'static str, x: Sh, a: Vec<i128>, wa: i128, y: Sh, b: Vec<i128>, wb: i128, free: &'static [i128], flip: bool) -> Job {
    let fill = |n: usize, w: i128| (4 * (n as i128 - 1 - w)).max(0);
    let num = |sh, d: &[i128], w| In::N(sh, NumOpt { nd: Some(d.len() as i128), w: Some((w, w)), ds: Some((fill(d.len(), w), fill(d.len(), w))), ..NumOpt::default() });
    let (ia, ib) = (num(x, &a, wa), num(y, &b, wb));
    let (ka, kb) = if flip { (1, 0) } else { (0, 1) };
    let mut c = cx(&format!("checked_{}", op), if flip { vec![ib, ia] } else { vec![ia, ib] }, false);
    let txt = |k: usize, d: &[i128]| format!("; the {} {} digits are {}, {}, ..", ["first", "second"][k], d.len(), d[0], d[(d.len() > 1) as usize]);
    let (ta, tb) = (txt(ka, &a), txt(kb, &b) + &format!(" save those at {:?}", free));
    within(&mut c, ka, &ta, move |i| (a[i as usize], a[i as usize]));
    within(&mut c, kb, &tb, move |i| if free.contains(&i) { ((i == 0) as i128, 9999) } else { (b[i as usize], b[i as usize]) });
    c.opts.max_ms = 30_000;
    c.job(move |c: &mut Case| {
        let (x, y) = (c.ins[0].num().clone(), c.ins[1].num().clone());
        for (st, rv) in c.results() {
            match rv {
                RV::Num(r) if !r.nan => {
                    let (Some(mut want), Some(vb)) = (in_wide(&x, 1), in_wide(&y, if op == "add" { 1 } else { -1 })) else { return c.undecided(SUM) };
                    for (e, f) in vb {
                        wide_add(&mut want, e, &f);
                    }
                    wide_is(c, SUM, &st, &r, &want);
                    no_neg_zero(c, &st, &r);
                }
                _ => c.never(SUM, &st),
            }
        }
    })
}

/// a / d = q at scale s, D the digits of |d| as an integer scaled by 10000^kd
fn quotient(a: Shape, sh: Sh, d: Vec<i128>, w: i128, ds: i128, lim: Option<(i128, i128)>) -> Job {
    let ka = res_of(&[&a]);
    let kd = (d.len() as i128 - 1 - w).max(0);
    let dd = d.iter().enumerate().fold(0, |x, (i, y)| x + y * pow10(4 * (w - i as i128 + kd)).unwrap_or(0));
    let mut cxt = cx("checked_div", vec![a.inp(), constant(sh, &d, w, (ds, ds))], false);
    first_digit(&mut cxt, lim);
    cxt.job(move |c: &mut Case| {
        let x = c.ins[0].num().clone();
        let Some(va) = in_scaled(&x, ka) else { return c.undecided(QUO) };
        let va = if x.sh.sign() < 0 { va.neg() } else { va };
        let neg = x.sh.sign() * sh.sign() < 0;
        for (st, rv) in c.results() {
            match rv {
                RV::Num(r) if !r.nan => {
                    let Some(ss) = c.concretise(&st, &r.ds, 40) else {
                        c.undecided(QUO);
                        continue;
                    };
                    for (st, s) in ss {
                        let kq = (s + 3) / 4;
                        let qs = values(c, QUO, &st, &r, kq);
                        for (s1, q) in qs {
                            let q = if neg { q.neg() } else { q };
                            let m = pow10(4 * kq - s).unwrap();
                            multiple(c, QUO, &s1, &q, m);
                            // 2 (A 10^(4(kq+kd-ka)) - Q D) against D 10^(4 kq - s)
                            let f = (|| {
                                let e = 4 * (kq + kd - ka);
                                if e < 0 {
                                    return None;
                                }
                                let l = va.mulc(pow10(e)?)?;
                                l.lin(2, &q, 2i128.checked_mul(dd)?.checked_neg()?)
                            })();
                            let (Some(f), Some(u)) = (f, dd.checked_mul(m)) else {
                                c.undecided(QUO);
                                continue;
                            };
                            c.require(QUO, &s1, &[vec![ge(&f.addc(-u))], vec![lt0(&f.addc(u))]]);
                        }
                    }
                }
                _ => c.never(QUO, &st),
            }
        }
    })
}
fn first_digit(c: &mut Cx, lim: Option<(i128, i128)>) {
    if let Some((l, h)) = lim {
        c.ctx += &format!("; first digit {}..{}", l, h);
        c.pre = Some(std::sync::Arc::new(move |s: &mut Sess, i: &[InV]| {
            let d = in_digit(i[0].num(), 0);
            s.st.dom.add_ge0(&d.addc(-l));
            s.st.dom.add_ge0(&d.neg().addc(h));
        }));
    }
}
/// truncated quotient or remainder by a constant
fn whole(op: &'static str, a: Shape, sh: Sh, d: Vec<i128>, w: i128, ds: i128, lim: Option<(i128, i128)>) -> Job {
    let kd = (d.len() as i128 - 1 - w).max(0);
    let k = res_of(&[&a]).max(kd);
    let dd = d.iter().enumerate().fold(0, |x, (i, y)| x + y * pow10(4 * (w - i as i128 + k)).unwrap_or(0));
    let rule = if op == "checked_rem" { REM } else { TRU };
    let mut cxt = cx(op, vec![a.inp(), constant(sh, &d, w, (ds, ds))], false);
    first_digit(&mut cxt, lim);
    cxt.job(move |c: &mut Case| {
        let x = c.ins[0].num().clone();
        let Some(va) = in_scaled(&x, k) else { return c.undecided(rule) };
        let va = if x.sh.sign() < 0 { va.neg() } else { va };
        for (st, rv) in c.results() {
            match rv {
                RV::Num(r) if !r.nan => {
                    for (s, q) in values(c, rule, &st, &r, k) {
                        if rule == REM {
                            let m = if x.sh.sign() < 0 { q.neg() } else { q };
                            multiple(c, rule, &s, &va.sub(&m), dd);
                            c.require(rule, &s, &[vec![lt0(&m)], vec![ge(&m.addc(-dd))]]);
                        } else {
                            let q = if x.sh.sign() * sh.sign() < 0 { q.neg() } else { q };
                            let one = pow10(4 * k).unwrap();
                            multiple(c, rule, &s, &q, one);
                            // 0 <= |a| - |d| q < |d|, at resolution 2k
                            let Some(rem) = va.mulc(one).and_then(|x| x.lin(1, &q, -dd)) else {
                                c.undecided(rule);
                                continue;
                            };
                            let Some(u) = dd.checked_mul(one) else {
                                c.undecided(rule);
                                continue;
                            };
                            c.require(rule, &s, &[vec![lt0(&rem)], vec![ge(&rem.addc(-u))]]);
                        }
                    }
                }
                _ => c.never(rule, &st),
            }
        }
    })
}
/// decimal digits of base-10000 digits
fn decimals(d: &[i128]) -> Vec<u8> {
    d.iter().flat_map(|x| format!("{:04}", x).into_bytes()).map(|b| b - b'0').collect()
}
/// base-10000 coefficients of decimal digits whose last stands for 10^low
fn coefficients(q: &[u8], low: i128, sg: i128) -> Wide {
    let mut v = Wide::new();
    for (i, x) in q.iter().rev().enumerate() {
        let e = low + i as i128;
        wide_add(&mut v, e.div_euclid(4), &Form::c(sg * *x as i128 * pow10(e.rem_euclid(4)).unwrap()));
    }
    v
}
/// digits / d, the remainder, and the digits not looked at, of digits times 10^e
fn long_div(a: &[u8], d: i128, e: i128) -> (Vec<u8>, i128, Vec<u8>) {
    let mut n = a.to_vec();
    let mut cut = vec![];
    if e >= 0 {
        n.resize(a.len() + e as usize, 0);
    } else {
        let keep = a.len().saturating_sub(-e as usize);
        cut = vec![0; (-e) as usize - (a.len() - keep)];
        cut.extend(n.split_off(keep));
    }
    let mut r = 0i128;
    let q = n
        .iter()
        .map(|x| {
            r = r * 10 + *x as i128;
            let y = r / d;
            r %= d;
            y as u8
        })
        .collect();
    (q, r, cut)
}
/// given operands of any length, a divisor of few digits
fn far(op: &'static str, na: bool, a: Vec<i128>, wa: i128, nb: bool, b: Vec<i128>, wb: i128) -> Job {
    let (al, bl) = (wa - a.len() as i128 + 1, wb - b.len() as i128 + 1);
    let put = |neg: bool, d: &[i128], w: i128, l: i128| {
        let ds = (-4 * l).max(0);
        let long = ds > 63 || !(-64..=63).contains(&w);
        constant(Sh::Val { neg, long }, d, w, (ds, ds))
    };
    let (da, d) = (decimals(&a), b.iter().fold(0, |x, y| x * 10000 + y));
    let (x, y) = (put(na, &a, wa, al), put(nb, &b, wb, bl));
    let rule = ["checked_div", "checked_div_trunc", "checked_rem"].iter().position(|o| *o == op).map(|i| [QUO, TRU, REM][i]).unwrap();
    let mut c = cx(op, vec![x, y], false);
    c.ctx = format!("{}{}: {} digits from 10000^{} by {:?} from 10000^{}", if na { "-" } else { "" }, if nb { "-" } else { "" }, a.len(), wa, b, wb);
    c.job(move |c: &mut Case| {
        for (st, rv) in c.results() {
            let RV::Num(r) = rv else {
                c.never(rule, &st);
                continue;
            };
            if r.nan {
                c.never(rule, &st);
                continue;
            }
            let sg = if na == nb { 1 } else { -1 };
            let e = 4 * (al - bl);
            if rule == REM {
                let (_, rest, cut) = long_div(&da, d, e);
                let mut want: Vec<u8> = rest.to_string().bytes().map(|b| b - b'0').collect();
                want.extend(&cut);
                let want = coefficients(&want, if e >= 0 { 4 * bl } else { 4 * al }, if na { -1 } else { 1 });
                wide_is(c, rule, &st, &r, &want);
            } else if rule == TRU {
                let (q, _, _) = long_div(&da, d, e);
                wide_is(c, rule, &st, &r, &coefficients(&q, 0, sg));
            } else {
                let Some(ss) = c.concretise(&st, &r.ds, 4) else {
                    c.undecided(rule);
                    continue;
                };
                for (st, s) in ss {
                    let (q, rest, cut) = long_div(&da, d, e + s);
                    let up = 2 * rest >= d || (2 * rest == d - 1 && cut.first().map_or(false, |x| *x >= 5));
                    let mut want = coefficients(&q, -s, sg);
                    if up {
                        wide_add(&mut want, (-s).div_euclid(4), &Form::c(sg * pow10((-s).rem_euclid(4)).unwrap()));
                    }
                    wide_is(c, rule, &st, &r, &want);
                }
            }
        }
    })
}
fn far_jobs(v: &mut Vec<Job>) {
    let mut ns = vec![35];
    for c in crate::hot::hot() {
        ns.extend([*c, c + 1, c / 4 + 1].into_iter().filter(|n| (4..=150).contains(n)));
    }
    ns.sort();
    ns.dedup();
    for n in ns {
        let run = |a: i128, m: &[i128], z: i128, n: i128| -> Vec<i128> { (0..n).map(|i| if i == 0 { a } else if i == n - 1 { z } else { m[i as usize % m.len()] }).collect() };
        for op in ["checked_div_trunc", "checked_rem", "checked_div"] {
            for (i, m) in [&[9999][..], &[0, 0, 1, 0], &[1234, 5678, 9, 9876, 4321]].iter().enumerate() {
                for (wa, nd) in [(n - 1, n), (n, n), (n + 1, n + 3), (0, n), (-n, 3), (n + 1, 1)] {
                    for (j, (b, wb)) in [(vec![7], 0), (vec![9999], 0), (vec![3], -1), (vec![1, 9999], 1), (vec![5000, 1], 0), (vec![2], 3), (vec![6], -n), (vec![11], n)].into_iter().enumerate() {
                        let (na, nb) = [(false, false), (true, false), (false, true), (true, true)][(i + j) % 4];
                        v.push(far(op, na, run(12, m, 3400, nd), wa, nb, b, wb));
                    }
                }
            }
        }
    }
}
/// quotient digits by several divisor digits may branch without end
fn brief(mut j: Job, full: bool) -> Job {
    j.opts.max_ms = if full { 15_000 } else { 1_500 };
    j
}
pub fn c28(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    far_jobs(&mut v);
    let full = t == Tier::Thorough;
    let (nds, ws): (&[i128], &[i128]) = if full { (&[1, 2, 3], &[-2, -1, 0, 1, 2]) } else { (&[1, 2], &[-1, 0, 1]) };
    let one: Vec<(Sh, Vec<i128>, i128, i128)> = vec![
        (PS, vec![7], 0, 0),
        (NS, vec![3], 0, 0),
        (PS, vec![2], 0, 12),
        (PS, vec![5000], -1, 1),
        (NS, vec![9999], 0, 0),
        (PL, vec![6], -1, 4),
        (PS, vec![1], 1, 0),
    ];
    let many: Vec<(Sh, Vec<i128>, i128, i128)> = vec![
        (PS, vec![1, 1], 1, 0),
        (NS, vec![3, 5000], 0, 1),
        (PS, vec![9999, 9999], 1, 0),
        (PS, vec![1, 0, 1], 2, 0),
        (NL, vec![5000, 0, 1], 1, 4),
        (PS, vec![4999, 9999], 0, 4),
        (PS, vec![1, 9999], 1, 0),
    ];
    for x in SS {
        for a in wide(&[x], nds, ws) {
            if a.nd + a.w.abs() > 8 {
                continue;
            }
            let a = a.ds(a.frac(), a.frac());
            for (sh, d, w, ds) in &one {
                v.push(quotient(a, *sh, d.clone(), *w, *ds, None));
                for op in ["checked_div_trunc", "checked_rem"] {
                    v.push(whole(op, a, *sh, d.clone(), *w, *ds, None));
                }
            }
        }
        for nd in 1..=if full { 4 } else { 3 } {
            for wa in 0..=2 {
                let a = Shape { sh: x, nd, w: wa, ds: Some(((4 * (nd - 1 - wa)).max(0), (4 * (nd - 1 - wa)).max(0))), pat: 0 };
                for (sh, d, w, ds) in &many {
                    let lims: &[Option<(i128, i128)>] = if nd == 1 { &[Some((1, 9)), Some((4995, 5003)), Some((9990, 9999)), None] } else { &[Some((1, 2)), Some((9999, 9999)), None] };
                    for lim in lims {
                        if lim.is_none() && !full {
                            continue;
                        }
                        if nd == 1 || full {
                            v.push(brief(quotient(a, *sh, d.clone(), *w, *ds, *lim), full));
                        }
                        for op in ["checked_div_trunc", "checked_rem"] {
                            v.push(brief(whole(op, a, *sh, d.clone(), *w, *ds, *lim), full));
                        }
                    }
                }
            }
        }
    }
    v
}

/// Printing gives the plain text of the value; reading any plain text gives the value back.
pub fn c29(t: Tier) -> Vec<Job> {
    let mut v = plain_jobs(t);
    let mut texts: Vec<Vec<Cl>> = vec![];
    let d = (48, 57);
    let nz = (49, 57);
    let top = if t == Tier::Quick { 9 } else { 14 };
    for sign in [false, true] {
        for i in 1..=top {
            for f in 0..=top {
                if i + f > top + 4 {
                    continue;
                }
                let mut s = vec![];
                if sign {
                    s.push((45, 45));
                }
                // no superfluous zeros before the point
                s.extend(if i == 1 { vec![d] } else { [vec![nz], vec![d; i - 1]].concat() });
                if f > 0 {
                    s.push((46, 46));
                    s.extend(vec![d; f]);
                }
                texts.push(s);
            }
        }
    }
    for (i, f) in [(1, 30), (30, 0), (17, 16), (33, 2)] {
        for lead in [d, nz] {
            if lead == d && i > 1 {
                continue;
            }
            let mut s = vec![lead];
            s.extend(vec![d; i - 1]);
            if f > 0 {
                s.push((46, 46));
                s.extend(vec![d; f]);
            }
            texts.push(s);
        }
    }
    // long texts: n times a class
    let long: &[&[(Cl, usize)]] = &[
        &[(nz, 1), ((46, 46), 1), (d, 100)],
        &[(nz, 1), ((46, 46), 1), (d, 66), ((48, 48), 4)],
        &[(nz, 1), ((46, 46), 1), (d, 3), ((48, 48), 130)],
        &[((48, 48), 1), ((46, 46), 1), ((48, 48), 90), (d, 4)],
        &[((48, 48), 1), ((46, 46), 1), (nz, 1), ((48, 48), 300)],
        &[(nz, 1), (d, 149)],
        &[(nz, 1), (d, 40), ((48, 48), 63)],
        &[(nz, 1), (d, 5), ((48, 48), 300), ((46, 46), 1), ((48, 48), 40), (d, 3)],
        &[((45, 45), 1), (nz, 1), (d, 70), ((46, 46), 1), (d, 70)],
    ];
    for l in long {
        texts.push(l.iter().flat_map(|(c, n)| vec![*c; *n]).collect());
    }
    let pt = (46, 46);
    let z = (48, 48);
    for c in crate::hot::hot() {
        for n in [*c, 4 * c] {
            let n = n as usize;
            if n > 400 {
                continue;
            }
            let m = n + 5;
            for l in [
                vec![(nz, 1), (pt, 1), (d, m)],
                vec![(nz, 1), (d, m)],
                vec![(z, 1), (pt, 1), (z, n), (d, 6)],
                vec![(nz, 1), (z, n), (d, 4), (pt, 1), (d, 2)],
                vec![((45, 45), 1), (nz, 1), (d, n), (pt, 1), (d, n)],
                vec![(nz, 1), (pt, 1), (d, 2), (z, n)],
                vec![(nz, 1), (pt, 1), (d, 2), (z, n), (nz, 2)],
            ] {
                texts.push(l.iter().flat_map(|(c, n)| vec![*c; *n]).collect());
            }
        }
    }
    for s in texts {
        v.push(parse_job(s));
    }
    v
}
