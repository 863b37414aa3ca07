//! Hidden state: a rule over the whole type-checked program (no execution of paths).
use crate::check::*;
use crate::prog::*;
use std::collections::{BTreeMap, BTreeSet};

const STATE: &str = "no function of the crate reaches writable state that outlasts a call";
const ONCE: &str = "one-time initialisers compute from nothing but constants";
const AMBIENT: &str = "no function of the crate reads the environment, the clock, a thread, a file or a random source";
const CELLS: &str = "no type of the crate can be changed through a shared reference";

/// names of what lets a value change behind a shared reference
fn is_cell(n: &str) -> bool {
    n.ends_with("UnsafeCell") || n.ends_with("::Rc") || n.contains("::rc::Weak")
}
/// one-time initialisation: written once, before anyone reads
fn is_once(n: &str) -> bool {
    let l = n.rsplit("::").next().unwrap_or("");
    ["Lazy", "Once", "OnceLock", "LazyLock", "OnceCell", "LazyCell", "OnceBox", "OnceRef", "OnceNonZeroUsize"].contains(&l)
}
/// A path of fields from the type to something writable behind a shared reference.
fn writable(p: &Prog, t: TyId, seen: &mut BTreeSet<TyId>) -> Option<String> {
    if !seen.insert(t) {
        return None;
    }
    let y = &p.tys[t];
    if is_cell(&y.adt) {
        return Some(y.n.clone());
    }
    let base = y.adt.rsplit("::").next().unwrap_or("");
    if is_once(&y.adt) || base == "Arc" || base == "PhantomData" {
        return y.ta.iter().find_map(|t| writable(p, *t, seen));
    }
    match &y.k {
        TK::Array(e, _) | TK::Slice(e) | TK::Pat(e) | TK::Ptr { e, .. } => return writable(p, *e, seen),
        _ => {}
    }
    for v in &y.fs {
        for f in v {
            if let Some(x) = writable(p, *f, seen) {
                return Some(format!("{} in {}", x, y.n));
            }
        }
    }
    None
}
pub fn ops_of(b: &Block) -> (Vec<(u32, &Op)>, Option<(u32, &Callee)>) {
    let mut v = vec![];
    let mut line = 0;
    for s in &b.s {
        match s {
            Stmt::Assign(l, _, r) => {
                line = *l;
                match r {
                    Rv::Agg(_, o) => v.extend(o.iter().map(|o| (*l, o))),
                    Rv::Bin(_, a, b) | Rv::CBin(_, a, b) => v.extend([(*l, a), (*l, b)]),
                    Rv::Cast(_, a, _) | Rv::Use(a) | Rv::Rep(a, _) | Rv::Un(_, a) => v.push((*l, a)),
                    _ => {}
                }
            }
            Stmt::Assume(o) => v.push((line, o)),
            Stmt::Cno(l, a, b, c) => v.extend([(*l, a), (*l, b), (*l, c)]),
            _ => {}
        }
    }
    let mut c = None;
    match &b.t {
        Term::Switch(l, o, ..) | Term::Assert(l, o, ..) => v.push((*l, o)),
        Term::Call(l, f, a, ..) => {
            v.extend(a.iter().map(|o| (*l, o)));
            if let Callee::Ptr(o) = f {
                v.push((*l, o));
            }
            c = Some((*l, f));
        }
        _ => {}
    }
    (v, c)
}
/// statics a constant reaches
fn statics(p: &Prog, b: &Bytes, out: &mut BTreeSet<usize>, fns: &mut BTreeSet<FnId>, seen: &mut BTreeSet<usize>) {
    for (_, a) in &b.p {
        if !seen.insert(*a) {
            continue;
        }
        match &p.allocs[*a] {
            Alloc::Static(_, _, x) => {
                out.insert(*a);
                if let Some(x) = x {
                    statics(p, x, out, fns, seen);
                }
            }
            Alloc::Mem(x) => statics(p, x, out, fns, seen),
            Alloc::Fn(f) => {
                fns.insert(*f);
            }
            _ => {}
        }
    }
}
const SOURCES: &[&str] = &[
    "std::time::", "std::env::", "std::fs::", "std::net::", "std::process::id", "std::thread::current", "std::thread::park", "std::thread::sleep",
    "std::thread::yield_now", "std::io::stdin", "std::io::stdout", "std::io::stderr", "std::io::_print", "std::io::_eprint", "std::hash::RandomState",
    "std::hash::random::", "std::collections::hash_map::RandomState", "std::backtrace::", "std::thread::spawn", "std::thread::available_parallelism",
    "std::thread::id", "std::os::", "std::arch::",
];

pub fn c30(p: &Prog, pbe: Option<&Prog>) -> Rep {
    let mut rep = analyse(p, "default features");
    if let Some(q) = pbe {
        rep.merge(analyse(q, "big-endian-varlen"));
    }
    rep
}
fn analyse(p: &Prog, name: &str) -> Rep {
    let mut rep = Rep { jobs: 1, complete: 1, ..Rep::default() };
    let mut ok = |rep: &mut Rep, r: &str| {
        rep.proved += 1;
        *rep.rules.entry(r.to_string()).or_insert(0) += 1;
    };
    let bad = |rep: &mut Rep, r: &str, k: String, d: String| {
        *rep.rules.entry(r.to_string()).or_insert(0) += 1;
        rep.failed.entry(format!("{}: {}", r, k)).or_insert(d);
    };
    let manual_once = p.fns.iter().any(|f| f.krate == "pgnumeric" && f.body.as_ref().is_some_and(|b| b.bs.iter().any(|b| matches!(ops_of(b).1, Some((_, Callee::Fn(g))) if p.fns[*g].d.contains("sync::once::Once::call") || p.fns[*g].d.contains("sync::Once::call")))));
    let mut refs: BTreeMap<usize, (String, u32)> = BTreeMap::new();
    for f in p.fns.iter().filter(|f| f.krate == "pgnumeric") {
        let Some(b) = &f.body else { continue };
        rep.fns.insert(f.d.clone());
        rep.blocks += b.bs.len() as u64;
        for blk in &b.bs {
            let (ops, call) = ops_of(blk);
            let mut st = BTreeSet::new();
            let mut fns = BTreeSet::new();
            let mut line = 0;
            for (l, o) in ops {
                if let Op::Const(_, Konst::Mem(m)) = o {
                    statics(p, m, &mut st, &mut fns, &mut BTreeSet::new());
                    line = l;
                }
            }
            for a in st {
                refs.entry(a).or_insert((f.d.clone(), line));
            }
            let Some((l, c)) = call else { continue };
            let (d, ta) = match c {
                Callee::Fn(g) => (p.fns[*g].d.clone(), p.fns[*g].ta.clone()),
                Callee::Unres(s) => (s.clone(), vec![]),
                _ => continue,
            };
            let at = format!("{} line {} calls {} ({})", f.d, l, d, name);
            if SOURCES.iter().any(|s| d.starts_with(s) || d.contains(&format!("<{}", s))) {
                bad(&mut rep, AMBIENT, format!("{} calls {}", f.d, d), at.clone());
            } else {
                ok(&mut rep, AMBIENT);
            }
            if d.contains("LocalKey") {
                match ta.iter().find_map(|t| writable(p, *t, &mut BTreeSet::new())) {
                    Some(x) => bad(&mut rep, STATE, format!("{} uses a thread-local {}", f.d, x), at.clone()),
                    None => ok(&mut rep, STATE),
                }
            }
            let last = d.rsplit("::").next().unwrap_or("").to_string();
            let owner = d.strip_suffix(&format!("::{}", last)).unwrap_or("").split("::<").next().unwrap_or("").to_string();
            if is_once(&owner) {
                let captures = ta.iter().any(|t| p.tys[*t].k == TK::Closure && p.tys[*t].l.as_ref().is_some_and(|l| l.sz > 0));
                let sets = ["set", "try_insert", "take", "get_mut", "replace"].contains(&last.as_str());
                if captures && last != "call" && last != "new" || sets {
                    bad(&mut rep, ONCE, format!("{} through {}", f.d, d), at);
                } else {
                    ok(&mut rep, ONCE);
                }
            }
        }
    }
    for (a, (f, l)) in refs {
        let Alloc::Static(t, n, b) = &p.allocs[a] else { continue };
        let at = format!("{} line {} reaches static {} of type {} ({})", f, l, n, p.tys[*t].n, name);
        match writable(p, *t, &mut BTreeSet::new()) {
            Some(x) => bad(&mut rep, STATE, format!("{} reaches {} ({})", f, n, x), at),
            None if b.as_ref().is_some_and(|b| b.mutable) && !has_once(p, *t, &mut BTreeSet::new()) => {
                if manual_once {
                    *rep.undecided.entry(at).or_insert(0) += 1;
                } else {
                    bad(&mut rep, STATE, format!("{} reaches {} (static mut)", f, n), at);
                }
            }
            None => ok(&mut rep, STATE),
        }
    }
    for (i, y) in p.tys.iter().enumerate() {
        if !y.adt.starts_with("pgnumeric::") {
            continue;
        }
        match writable(p, i, &mut BTreeSet::new()) {
            Some(x) => bad(&mut rep, CELLS, format!("{} holds {}", y.n, x), format!("type {} ({})", y.n, name)),
            None => ok(&mut rep, CELLS),
        }
    }
    rep.outcomes = rep.proved;
    rep.samples.push(format!("{} functions, {} types of the crate with {}", rep.fns.len(), p.tys.iter().filter(|y| y.adt.starts_with("pgnumeric::")).count(), name));
    rep
}
fn has_once(p: &Prog, t: TyId, seen: &mut BTreeSet<TyId>) -> bool {
    seen.insert(t) && (is_once(&p.tys[t].adt) || p.tys[t].fs.iter().flatten().any(|f| has_once(p, *f, seen)))
}
