//! Memory: release of buffers, shared operands, alignment, bounds, 32-bit ranges.
use crate::check::*;
use crate::ctx::*;
use crate::exec::*;
use crate::mem::*;
use crate::num::*;
use crate::prog::*;
use crate::props::*;
use crate::props2::*;
use crate::props5::*;
use crate::suite::*;
use std::collections::BTreeSet;

type CxH = (Cx, Option<HookMk>);

/// Every operation, with operands in every kind of storage it accepts.
pub fn mem_cx(t: Tier) -> Vec<CxH> {
    let mut v: Vec<Cx> = vec![];
    v.extend(binary_cx(t));
    v.extend(unary_cx(t));
    v.extend(typmod_cx(t));
    v.extend(ints_cx());
    if t == Tier::Thorough {
        v.extend(general_cx(t));
    }
    // operators on owned values, also where they panic
    let num = num_in;
    for o in OPS {
        let div = o == "div" || o == "rem";
        for f in FORMS.iter().map(|f| format!("{}_{}", o, f)).chain(AFORMS.iter().map(|f| format!("{}_assign_{}", o, f))) {
            for (x, nx, wx) in [(PS, 2, 0), (NL, 1, 1), (ZS, 0, 0), (Sh::Nan, 0, 0)] {
                for (y, ny, wy) in [(NS, 1, 0), (PL, 2, 0), (ZL, 0, 0), (Sh::Nan, 0, 0)] {
                    let sc = |i: In| match i {
                        In::N(s, mut o) if !s.zero() && !s.nan() => {
                            o.ds = Some((4, 6));
                            In::N(s, o)
                        }
                        i => i,
                    };
                    let (a, b) = if div && !y.zero() && !y.nan() {
                        (sc(num(x, nx, wx)), constant(y, &[7], 0, (0, 2)))
                    } else {
                        (num(x, nx, wx), num(y, ny, wy))
                    };
                    v.push(cx(&f, vec![a, b], false));
                }
            }
            // results out of range
            let far = |sh, w: (i128, i128)| In::N(sh, NumOpt { nd: Some(1), w: Some(w), ds: Some((0, 0)), ..NumOpt::default() });
            match o {
                "mul" => v.push(cx(&f, vec![far(PL, (20000, 32767)), far(NL, (12000, 32767))], false)),
                "add" => {
                    v.push(cx(&f, vec![far(PL, (32767, 32767)), far(PL, (32767, 32767))], false));
                }
                "sub" => {
                    v.push(cx(&f, vec![far(NL, (32767, 32767)), far(PL, (32767, 32767))], false));
                }
                "div" => {
                    let c = In::N(PL, NumOpt { digits: Some(vec![7]), w: Some((-20000, -20000)), ds: Some((1000, 1000)), ..NumOpt::default() });
                    v.push(cx(&f, vec![far(PL, (32700, 32767)), c], false));
                }
                _ => {}
            }
        }
    }
    for r in ["ceil", "inc", "b_ceil", "b_inc"] {
        for w in [32766, 32767] {
            v.push(cx(r, vec![Shape { sh: PL, nd: 1, w, ds: Some((0, 0)), pat: 0 }.inp()], false));
        }
    }
    for r in ["round", "round_mut", "trunc", "trunc_mut"] {
        for w in [32766, 32767] {
            v.push(cx(r, vec![Shape { sh: PL, nd: 1, w, ds: Some((0, 0)), pat: 0 }.inp(), In::I(-6, 3)], false));
        }
    }
    v.extend(observers());
    // text
    for c in texts() {
        v.push(cx("parse", vec![In::Chars(c)], false));
    }
    let mut v: Vec<CxH> = v.into_iter().map(|c| (c, None)).collect();
    // numerical kernels replaced by values of the scale they are asked for
    for sh in [PS, NS, PL, ZS, Sh::Nan] {
        for (nd, w) in [(1, 0), (2, 1), (2, -1)] {
            if (sh.zero() || sh.nan()) && (nd, w) != (1, 0) {
                continue;
            }
            for r in ["sqrt", "ln", "log2", "log10", "exp"] {
                v.push((cx(r, vec![num(sh, nd, w)], false), Some(free_kernels())));
            }
            for y in [PS, NS, ZS, Sh::Nan] {
                for r in ["log", "pow"] {
                    v.push((cx(r, vec![num(sh, nd, w), num(y, 1, 0)], false), Some(free_kernels())));
                }
            }
        }
    }
    v
}
/// Operations that only look at their operands.
pub fn observers() -> Vec<Cx> {
    let mut v: Vec<Cx> = vec![];
    // observers
    for sh in Sh::ALL {
        for r in [
            "as_numeric", "deref", "as_ref", "borrow", "drop", "cow_owned", "cow_buf", "cow_num", "chain_as_numeric", "is_nan",
            "is_negative", "is_positive", "scale", "b_is_nan", "b_is_negative", "b_is_positive", "b_scale", "n_as_bytes",
            "b_as_bytes", "to_owned", "clone",
        ] {
            v.push(cx(r, vec![any(sh)], true));
        }
        for r in ["fmt_n", "fmt_b", "lexp_n", "lexp_b", "uexp_n", "uexp_b", "debug_b", "normalize", "hash_n", "hash_b"] {
            let two = r.starts_with("lexp") || r.starts_with("uexp");
            for (nd, w) in [(1, 0), (2, 0), (2, -1), (1, 1), (3, 1)] {
                if (sh.zero() || sh.nan()) && (nd, w) != (1, 0) || two && nd == 3 || r == "normalize" && !sh.nan() {
                    continue;
                }
                let inp = match num_in(sh, nd, w) {
                    In::N(s, mut o) if !s.nan() => {
                        let f = if s.zero() { 0 } else { (4 * (nd - 1 - w)).max(0) };
                        o.ds = Some((f, if two { f } else { f + 2 }));
                        In::N(s, o)
                    }
                    i => i,
                };
                v.push(cx(r, vec![inp], false));
            }
        }
    }
    for r in ["cmp_n", "cmp_b", "eq_b_n", "pcmp_n_b", "lt_b_b", "eq_n_rn"] {
        for x in Sh::ALL {
            for y in Sh::ALL {
                for (a, b) in [((1, 0), (2, 0)), ((2, 1), (1, 1)), ((2, 0), (3, 0))] {
                    v.push(cx(r, vec![num_in(x, a.0, a.1), num_in(y, b.0, b.1)], false));
                }
            }
        }
    }
    for (ty, _, bits) in INTS {
        for f in AFORMS {
            for sh in Sh::ALL {
                for (nd, w) in [(1, 0), (2, 1), (2, 0), (1, 4), (1, -1), (3, 1)] {
                    if ((sh.zero() || sh.nan()) && (nd, w) != (1, 0)) || (bits == 128 && w > 1) {
                        continue;
                    }
                    v.push(cx(&format!("to_{}_{}", ty, f), vec![num_in(sh, nd, w)], false));
                }
            }
        }
    }
    for f in AFORMS {
        for ty in ["f32", "f64"] {
            for sh in Sh::ALL {
                v.push(cx(&format!("to_{}_{}", ty, f), vec![match num_in(sh, 1, 0) {
                    In::N(s, mut o) if !s.nan() => {
                        o.ds = Some((0, 2));
                        In::N(s, o)
                    }
                    i => i,
                }], false));
            }
        }
    }
    v
}
pub fn num_in(sh: Sh, nd: i128, w: i128) -> In {
    if sh.zero() || sh.nan() {
        any(sh)
    } else {
        Shape { sh, nd, w, ds: None, pat: 0 }.inp()
    }
}
fn texts() -> Vec<Vec<(i128, i128)>> {
    let d = (48, 57);
    let c = |x: char| (x as i128, x as i128);
    let mut v = vec![
        vec![],
        vec![c(' ')],
        vec![c('N'), c('a'), c('N')],
        vec![c('x')],
        vec![c('-')],
        vec![c('.')],
        vec![d, c('e')],
        vec![c(' '), c('-'), d, c('.'), d, c(' ')],
        vec![d, c('e'), d, d, d, d, d, d, d],
        vec![c('.'), d, d, c('e'), c('-'), d],
        vec![d, d, c('e'), c('+'), d, d],
        vec![d, c('.'), c('x')],
        vec![d, c(' '), d],
    ];
    for n in 1..12 {
        v.push(vec![d; n]);
        let mut x = vec![d; n];
        x.insert(n / 2, c('.'));
        v.push(x);
    }
    v
}

/// Objects reachable from values of the given blobs.
fn reach(st: &State, seeds: Vec<Vec<Ent>>) -> BTreeSet<ObjId> {
    let mut seen = BTreeSet::new();
    let mut todo = seeds;
    while let Some(es) = todo.pop() {
        for e in es {
            for id in ptrs(&e) {
                if id & (STACK | GLOBAL) != 0 {
                    continue;
                }
                if seen.insert(id) {
                    if let Some(o) = st.heap.get(id as usize) {
                        todo.push(o.log.to_vec());
                    }
                }
            }
        }
    }
    seen
}
fn ptrs(e: &Ent) -> Vec<ObjId> {
    match e {
        Ent::Cell(c) => match &c.val {
            Val::Ptr(id, _) => vec![*id],
            _ => vec![],
        },
        _ => vec![],
    }
}

const LEAK: &str = "every buffer is released once or owned by one live value";
/// Drops what the caller still owns after each outcome; nothing may be left.
fn settle(c: &mut Case) {
    let p = c.s.ex.p;
    let Some(dropf) = root_fn(p, "drop") else { return c.undecided(LEAK) };
    let bty = c.s.buf_ty().unwrap();
    let bsz = p.size(bty);
    let ps = c.s.params(c.f);
    let rty = c.s.ret_ty(c.f);
    for (st, o) in c.outs.clone() {
        if matches!(&o, Out::Abort(_)) || matches!(&o, Out::Unwind(m) if m.starts_with("kernel")) {
            continue;
        }
        // owned values the caller can reach
        let mut owned: Vec<(State, Vec<Vec<Ent>>)> = vec![(st.clone(), vec![])];
        for (i, t) in ps.iter().enumerate() {
            if let TK::Ptr { e, .. } = &p.tys[*t].k {
                let mut ety = *e;
                let mut a = c.args[i].at(0, 8);
                while let (TK::Ptr { e: e2, .. }, Val::Ptr(id, off)) = (&p.tys[ety].k, &a) {
                    let ob = c.s.ex.obj(&st, *id);
                    let Some(b) = ob.blob(&st.dom, off, &Form::c(8)) else { break };
                    a = Arg { ty: ety, size: 8, ents: b }.at(0, 8);
                    ety = *e2;
                }
                if p.tys[ety].adt.ends_with("NumericBuf") {
                    let Val::Ptr(id, off) = a else { continue };
                    let ob = c.s.ex.obj(&st, id);
                    match ob.blob(&st.dom, &off, &Form::c(bsz as i128)) {
                        Some(b) => owned.iter_mut().for_each(|x| x.1.push(b.clone())),
                        None => {
                            c.undecided(LEAK);
                            continue;
                        }
                    }
                }
            }
        }
        let mut kept = vec![];
        if let Out::Ret(e) = &o {
            owned = owned
                .into_iter()
                .flat_map(|(s, l)| {
                    let mut r = vec![];
                    for (s2, b) in bufs_in(c, s, rty, e) {
                        let mut l = l.clone();
                        l.extend(b);
                        r.push((s2, l));
                    }
                    r
                })
                .collect();
            kept.push(e.clone());
        }
        for (s, l) in owned {
            let mut sts = vec![s];
            for b in l {
                let mut n = vec![];
                for s in sts {
                    let a = Arg { ty: bty, size: bsz, ents: b.clone() };
                    for (s2, o2) in c.s.ex.run_fn(s, dropf, vec![a]) {
                        match o2 {
                            Out::Ret(_) => n.push(s2),
                            _ => c.never(LEAK, &s2),
                        }
                    }
                }
                sts = n;
            }
            for s in sts {
                let globals: Vec<Vec<Ent>> = s.globals.values().map(|o| o.log.to_vec()).collect();
                let mut seeds = globals;
                // strings and boxed errors handed back are the caller's
                if !p.tys[rty].n.contains("Numeric") {
                    seeds.extend(kept.iter().cloned());
                }
                let live = reach(&s, seeds);
                let left = s
                    .heap
                    .iter()
                    .enumerate()
                    .filter(|(i, o)| matches!(o.kind, OKind::Heap { .. }) && o.alive && !live.contains(&(*i as ObjId)))
                    .inspect(|(i, o)| {
                        if c.debug {
                            eprintln!("left #{} {:?} size {} log {:?}", i, o.kind, o.size, o.log.len());
                        }
                    })
                    .count();
                c.check(LEAK, &s, left == 0);
            }
        }
    }
}
/// NumericBufs inside a returned value.
fn bufs_in(c: &mut Case, st: State, ty: TyId, e: &[Ent]) -> Vec<(State, Vec<Vec<Ent>>)> {
    let p = c.s.ex.p;
    let t = &p.tys[ty];
    if t.adt.ends_with("NumericBuf") {
        return vec![(st, vec![e.to_vec()])];
    }
    if t.k == TK::Enum && (t.n.contains("Option") || t.n.contains("Result") || t.n.contains("Cow")) && t.n.contains("Numeric") {
        let mut r = vec![];
        for (s, v, pay) in c.s.variants(st, ty, e) {
            match t.fs.get(v).and_then(|f| f.first()) {
                Some(ft) if p.tys[*ft].adt.ends_with("NumericBuf") => r.push((s, vec![pay])),
                _ => r.push((s, vec![])),
            }
        }
        return r;
    }
    vec![(st, vec![])]
}

pub fn c15(t: Tier) -> Vec<Job> {
    mem_cx(t)
        .into_iter()
        .map(|(c, h)| {
            let mut j = c.job(settle).inh(&["dealloc", "double-free", "uaf", "null"]);
            j.hook = h;
            j
        })
        .collect()
}
fn inherent(t: Tier, k: &'static [&'static str]) -> Vec<Job> {
    mem_cx(t)
        .into_iter()
        .map(|(c, h)| {
            let mut j = c.job(|_| {}).inh(k);
            j.hook = h;
            j
        })
        .collect()
}
pub fn c16(t: Tier) -> Vec<Job> {
    inherent(t, &["ro-write"])
}
pub fn c17(t: Tier) -> Vec<Job> {
    inherent(t, &["align"])
}
pub fn c31(t: Tier) -> Vec<Job> {
    mem_cx(t)
        .into_iter()
        .map(|(mut c, h)| {
            for i in &mut c.ins {
                if let In::N(_, o) = i {
                    o.fresh = true;
                }
            }
            let mut j = c
                .job(|c| {
                    // a returned value is read in full by whoever uses it
                    for (st, rv) in c.results() {
                        let RV::Num(r) = rv else { continue };
                        let v = match c.concretise(&st, &r.nd, 6) {
                            Some(v) => v,
                            None => vec![(st.clone(), 0)],
                        };
                        for (s, nd) in v {
                            c.digits(&s, &r, nd);
                        }
                    }
                })
                .inh(&["init"]);
            j.hook = h;
            j
        })
        .collect()
}
pub fn c24(t: Tier) -> Vec<Job> {
    let k: &'static [&'static str] = &["overflow"];
    let mut v = inherent(t, k);
    // operands over the whole range of weights and scales
    let long = |sh: Sh, nd: Option<i128>| In::N(sh, NumOpt { nd, ..NumOpt::default() });
    let ms = if t == Tier::Quick { 1500 } else { 20_000 };
    for nd in [Some(1), Some(2), None] {
        for x in [PS, NS, PL, NL] {
            for r in ["round", "trunc", "round_mut", "trunc_mut"] {
                let mut c = cx(r, vec![long(x, nd), In::I(NINF, PINF)], true);
                c.opts.max_ms = ms;
                v.push(c.job(|_| {}).inh(k));
            }
            for r in ["apply_typmod"] {
                let mut c = cx(r, vec![long(x, nd), In::I(NINF, PINF)], true);
                c.opts.max_ms = ms;
                v.push(c.job(|_| {}).inh(k));
            }
            for y in [PL, NL] {
                for r in ["checked_add", "checked_sub", "checked_mul", "checked_div", "checked_div_trunc", "checked_rem"] {
                    let mut c = cx(r, vec![long(x, nd), long(y, nd)], true);
                    c.opts.max_ms = ms;
                    v.push(c.job(|_| {}).inh(k));
                }
            }
        }
    }
    v
}
pub fn c25(t: Tier) -> Vec<Job> {
    inherent(t, &["bounds", "index"])
}
