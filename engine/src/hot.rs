//! Constants the crate compares against, to aim contexts at thresholds.
//!
//! A rule quantified over digit counts, weights and scales is checked on a
//! selection of shapes. A constant of the program marks a place where the
//! behaviour may change, so shapes on both sides of it are added.
use crate::prog::*;
use crate::pure::ops_of;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

static HOT: OnceLock<Vec<i128>> = OnceLock::new();

fn value(p: &Prog, o: &Op) -> Option<i128> {
    let Op::Const(t, Konst::Mem(m)) = o else { return None };
    let TK::Int { s, bits } = p.tys[*t].k else { return None };
    if bits < 8 || m.b.len() != bits as usize / 8 || m.b.iter().any(|b| *b < 0) {
        return None;
    }
    int(&m.b.iter().map(|b| *b as u8).collect::<Vec<_>>(), s)
}
fn int(b: &[u8], s: bool) -> Option<i128> {
    let mut x: u128 = 0;
    for (i, b) in b.iter().enumerate() {
        x |= (*b as u128) << (8 * i);
    }
    let n = 8 * b.len() as u32;
    if s && n < 128 && x >> (n - 1) == 1 {
        return Some(x as i128 - (1i128 << n));
    }
    i128::try_from(x).ok()
}
/// every integer constant of every function of the crate: value -> functions
pub fn harvest(p: &Prog) -> BTreeMap<i128, BTreeSet<String>> {
    let mut m: BTreeMap<i128, BTreeSet<String>> = BTreeMap::new();
    for f in p.fns.iter().filter(|f| f.krate == "pgnumeric") {
        let Some(b) = &f.body else { continue };
        for blk in &b.bs {
            for (_, o) in ops_of(blk).0 {
                if let Some(v) = value(p, o) {
                    m.entry(v).or_default().insert(f.d.clone());
                }
            }
            if let Term::Switch(_, _, t, arms, _) = &blk.t {
                if let TK::Int { s, bits } = p.tys[*t].k {
                    for (v, _) in arms {
                        if let Some(v) = int(&v.to_le_bytes()[..bits as usize / 8], s) {
                            m.entry(v).or_default().insert(f.d.clone());
                        }
                    }
                }
            }
        }
    }
    m
}
/// Constants of the tree this machinery was built on (its contexts already cover them).
const KNOWN: &str = include_str!("hot_known.txt");
/// constants to aim at, the ones found nowhere before first
fn news(p: &Prog) -> Vec<i128> {
    let known: BTreeMap<i128, &str> = KNOWN.lines().filter_map(|l| l.split_once(' ')).filter_map(|(v, f)| Some((v.parse().ok()?, f))).collect();
    let (mut fresh, mut moved) = (vec![], vec![]);
    for (v, fs) in harvest(p) {
        let a = v.abs();
        if !(4..=40000).contains(&a) {
            continue;
        }
        match known.get(&v) {
            None => fresh.push(a),
            Some(k) if (8..=2000).contains(&a) && fs.iter().any(|f| !k.contains(&format!("{:?}", f))) => moved.push(a),
            _ => {}
        }
    }
    let mut v: Vec<i128> = vec![];
    for c in fresh.into_iter().chain(moved) {
        if !v.contains(&c) && v.len() < 4 {
            v.push(c);
        }
    }
    v
}
pub fn init(p: &Prog) {
    let _ = HOT.set(match std::env::var("PGNV_HOT") {
        Ok(s) => s.split(',').filter_map(|x| x.parse().ok()).collect(),
        _ => news(p),
    });
}
pub fn hot() -> &'static [i128] {
    if OFF.load(std::sync::atomic::Ordering::SeqCst) {
        return &[];
    }
    HOT.get().map(|v| v.as_slice()).unwrap_or(&[])
}
static OFF: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// the contexts added for new constants, and those that are there anyway
pub fn split(mk: impl Fn() -> Option<Vec<crate::check::Job>>) -> Option<(Vec<crate::check::Job>, Vec<crate::check::Job>)> {
    let key = |j: &crate::check::Job| (j.root.clone(), j.ctx.clone(), j.be);
    let all = mk()?;
    if hot().is_empty() {
        return Some((vec![], all));
    }
    OFF.store(true, std::sync::atomic::Ordering::SeqCst);
    let base: BTreeSet<_> = mk()?.iter().map(key).collect();
    OFF.store(false, std::sync::atomic::Ordering::SeqCst);
    let (rest, mut new): (Vec<_>, Vec<_>) = all.into_iter().partition(|j| base.contains(&key(j)));
    for j in &mut new {
        j.opts.max_ms = j.opts.max_ms.min(4000);
    }
    // an even sample
    const MAX: usize = 2000;
    let n = new.len();
    if n > MAX {
        let mut i = 0;
        new.retain(|_| {
            i += 1;
            (i - 1) * MAX / n != i * MAX / n
        });
    }
    Some((new, rest))
}
