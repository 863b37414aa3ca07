//! The program under analysis, as dumped by the compiler driver.
use serde_json::Value as J;
use std::collections::HashMap;

pub type TyId = usize;
pub type FnId = usize;

#[derive(Clone, Debug, PartialEq)]
pub enum TK {
    Bool,
    Char,
    Int { s: bool, bits: u32 },
    Float,
    Str,
    Never,
    Array(TyId, u64),
    Slice(TyId),
    Ptr { raw: bool, mutable: bool, e: TyId },
    Pat(TyId),
    FnPtr,
    FnDef(Option<FnId>),
    Tuple,
    Closure,
    Struct,
    Enum,
    Union,
    Dyn,
    Other,
}

#[derive(Clone, Debug)]
pub enum Prim {
    Int(bool, u32),
    Float(u32),
    Ptr,
}
#[derive(Clone, Debug)]
pub struct Scalar {
    pub prim: Prim,
    pub valid: Option<(u128, u128)>,
}
#[derive(Clone, Debug)]
pub enum Variants {
    Empty,
    Single(usize),
    Direct { tag: Scalar, off: u64, variants: Vec<Vec<u64>> },
    Niche { tag: Scalar, off: u64, untagged: usize, nstart: usize, nend: usize, start: u128, variants: Vec<Vec<u64>> },
}
#[derive(Clone, Debug)]
pub enum Repr {
    Scalar(Scalar),
    Pair(Scalar, Scalar, u64),
    Agg,
}
#[derive(Clone, Debug)]
pub struct Layout {
    pub sz: u64,
    pub al: u64,
    pub offs: Vec<u64>,
    pub stride: Option<u64>,
    pub variants: Variants,
    pub repr: Repr,
    pub sized: bool,
}

#[derive(Clone, Debug)]
pub struct Ty {
    pub k: TK,
    pub n: String,
    pub l: Option<Layout>,
    pub fs: Vec<Vec<TyId>>,
    pub vn: Vec<String>,
    pub fnames: Vec<Vec<String>>,
    pub d: Vec<u128>,
    pub dt: Option<TyId>,
    pub adt: String,
    pub ta: Vec<TyId>,
}

#[derive(Clone, Debug)]
pub enum Proj {
    Deref,
    Field(usize, TyId),
    Index(usize),
    CIndex(u64, bool),
    Sub(u64, u64, bool),
    Variant(usize),
    Cast(TyId),
}
#[derive(Clone, Debug)]
pub struct Place {
    pub l: usize,
    pub p: Vec<Proj>,
}
#[derive(Clone, Debug)]
pub struct Bytes {
    pub b: Vec<i16>,
    pub p: Vec<(u64, usize)>,
    pub al: u64,
    pub mutable: bool,
}
#[derive(Clone, Debug)]
pub enum Konst {
    Zst,
    Mem(Bytes),
    Unknown(String),
}
#[derive(Clone, Debug)]
pub enum Op {
    Copy(Place),
    Move(Place),
    Const(TyId, Konst),
    Rc(String),
}
#[derive(Clone, Debug)]
pub enum Agg {
    Array(TyId),
    Tuple,
    Adt(TyId, usize, Option<usize>),
    Closure(TyId),
    RawPtr(TyId),
    Other,
}
#[derive(Clone, Debug)]
pub enum Rv {
    AddrOf(bool, Place),
    Ref(bool, Place),
    Agg(Agg, Vec<Op>),
    Bin(String, Op, Op),
    CBin(String, Op, Op),
    Cast(String, Op, TyId),
    Use(Op),
    Discr(Place),
    Len(Place),
    Rep(Op, u64),
    Un(String, Op),
    Tls(String),
}
#[derive(Clone, Debug)]
pub enum Stmt {
    Assign(u32, Place, Rv),
    SetDiscr(u32, Place, usize),
    Live(usize),
    Dead(usize),
    Assume(Op),
    Cno(u32, Op, Op, Op),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Uw {
    Continue,
    Unreachable,
    Terminate,
    To(usize),
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(FnId),
    Virt(usize, String),
    Unres(String),
    Ptr(Op),
}
#[derive(Clone, Debug)]
pub enum Term {
    Goto(usize),
    Switch(u32, Op, TyId, Vec<(u128, usize)>, usize),
    Resume,
    Abort,
    Ret,
    Unreachable,
    Drop(u32, Place, Option<FnId>, usize, Uw),
    Call(u32, Callee, Vec<Op>, Place, Option<usize>, Uw),
    Assert(u32, Op, bool, String, usize, Uw),
    Asm,
}
#[derive(Clone, Debug)]
pub struct Block {
    pub s: Vec<Stmt>,
    pub t: Term,
}
#[derive(Clone, Debug)]
pub struct Body {
    pub argc: usize,
    pub spread: Option<usize>,
    pub ls: Vec<TyId>,
    pub bs: Vec<Block>,
    pub vn: Vec<(usize, String)>,
    pub cfg: Cfg,
    /// per block: locals that may be dropped at entry (never borrowed, not live)
    pub kill: Vec<Vec<usize>>,
}
#[derive(Clone, Debug, Default)]
pub struct Cfg {
    /// reverse postorder index of each block
    pub rpo: Vec<usize>,
    /// loop header -> set of blocks in loop
    pub loops: HashMap<usize, Vec<bool>>,
}
#[derive(Clone, Debug)]
pub struct Func {
    pub n: String,
    pub d: String,
    pub krate: String,
    pub k: String,
    pub i: Option<String>,
    pub ta: Vec<TyId>,
    pub file: String,
    pub line: u32,
    pub foreign: bool,
    pub stop: bool,
    pub body: Option<Body>,
}
#[derive(Clone, Debug)]
pub enum Alloc {
    Fn(FnId),
    Vtable(TyId, Option<usize>),
    Static(TyId, String, Option<Bytes>),
    Mem(Bytes),
    TypeId(TyId),
}
pub struct Prog {
    pub tys: Vec<Ty>,
    pub fns: Vec<Func>,
    pub allocs: Vec<Alloc>,
    pub roots: HashMap<String, FnId>,
    pub defs: Vec<(String, String, u32)>,
}

fn us(j: &J) -> usize {
    j.as_u64().unwrap_or_else(|| panic!("usize: {}", j)) as usize
}
fn st(j: &J) -> String {
    j.as_str().unwrap_or_else(|| panic!("str: {}", j)).to_string()
}
fn u128s(j: &J) -> u128 {
    st(j).parse().unwrap()
}
fn scalar(j: &J) -> Scalar {
    let p = &j[0];
    let b = us(&p[1]) as u32;
    let prim = match p[0].as_str().unwrap() {
        "i" => Prim::Int(true, b),
        "u" => Prim::Int(false, b),
        "f" => Prim::Float(b),
        _ => Prim::Ptr,
    };
    let valid = if j.as_array().unwrap().len() > 1 { Some((u128s(&j[1]), u128s(&j[2]))) } else { None };
    Scalar { prim, valid }
}
fn layout(j: &J) -> Option<Layout> {
    if j.is_null() {
        return None;
    }
    let f = &j["f"];
    let (mut offs, mut stride) = (vec![], None);
    match f[0].as_str().unwrap() {
        "o" => offs = f[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
        "a" => stride = Some(f[1].as_u64().unwrap()),
        "u" => offs = vec![0; us(&f[1])],
        _ => {}
    }
    let v = &j["v"];
    let vs = |j: &J| -> Vec<Vec<u64>> {
        j.as_array().unwrap().iter().map(|x| x.as_array().unwrap().iter().map(|y| y.as_u64().unwrap()).collect()).collect()
    };
    let variants = match v[0].as_str().unwrap() {
        "e" => Variants::Empty,
        "s" => Variants::Single(us(&v[1])),
        _ => {
            let tag = scalar(&v[1]);
            let tf = us(&v[3]);
            let off = offs.get(tf).copied().unwrap_or(0);
            let e = &v[2];
            if e[0] == "d" {
                Variants::Direct { tag, off, variants: vs(&v[4]) }
            } else {
                Variants::Niche {
                    tag,
                    off,
                    untagged: us(&e[1]),
                    nstart: us(&e[2]),
                    nend: us(&e[3]),
                    start: u128s(&e[4]),
                    variants: vs(&v[4]),
                }
            }
        }
    };
    let r = &j["r"];
    let mut sized = true;
    let repr = match r[0].as_str().unwrap() {
        "s" => Repr::Scalar(scalar(&r[1])),
        "sp" => Repr::Pair(scalar(&r[1]), scalar(&r[2]), r[3].as_u64().unwrap()),
        "g" => {
            sized = r[1].as_bool().unwrap();
            Repr::Agg
        }
        _ => Repr::Agg,
    };
    Some(Layout { sz: j["sz"].as_u64().unwrap(), al: j["al"].as_u64().unwrap(), offs, stride, variants, repr, sized })
}
fn bytes(j: &J) -> Bytes {
    Bytes {
        b: j["b"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as i16).collect(),
        p: j["p"].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap(), us(&x[1]))).collect(),
        al: j["al"].as_u64().unwrap_or(1),
        mutable: j["mut"].as_bool().unwrap_or(false),
    }
}
fn ty(j: &J) -> Ty {
    let k = match j["k"].as_str().unwrap() {
        "bool" => TK::Bool,
        "char" => TK::Char,
        "int" => TK::Int { s: j["s"].as_bool().unwrap(), bits: us(&j["bits"]) as u32 },
        "float" => TK::Float,
        "str" => TK::Str,
        "never" => TK::Never,
        "array" => TK::Array(us(&j["e"]), j["len"].as_u64().unwrap()),
        "slice" => TK::Slice(us(&j["e"])),
        "ptr" => TK::Ptr { raw: j["raw"].as_bool().unwrap(), mutable: j["mut"].as_bool().unwrap(), e: us(&j["e"]) },
        "pat" => TK::Pat(us(&j["e"])),
        "fnptr" => TK::FnPtr,
        "fndef" => TK::FnDef(j["fn"].as_u64().map(|x| x as usize)),
        "tuple" => TK::Tuple,
        "closure" => TK::Closure,
        "struct" => TK::Struct,
        "enum" => TK::Enum,
        "union" => TK::Union,
        "dyn" => TK::Dyn,
        _ => TK::Other,
    };
    let arr2 = |k: &str| -> Vec<Vec<TyId>> {
        j[k].as_array().map(|a| a.iter().map(|x| x.as_array().unwrap().iter().map(us).collect()).collect()).unwrap_or_default()
    };
    Ty {
        k,
        n: st(&j["n"]),
        l: layout(&j["l"]),
        fs: arr2("fs"),
        vn: j["vn"].as_array().map(|a| a.iter().map(st).collect()).unwrap_or_default(),
        fnames: j["fn"]
            .as_array()
            .map(|a| a.iter().map(|x| x.as_array().unwrap().iter().map(st).collect()).collect())
            .unwrap_or_default(),
        d: j["d"].as_array().map(|a| a.iter().map(u128s).collect()).unwrap_or_default(),
        dt: j["dt"].as_u64().map(|x| x as usize),
        adt: j["adt"].as_str().unwrap_or("").to_string(),
        ta: j["ta"].as_array().map(|a| a.iter().map(us).collect()).unwrap_or_default(),
    }
}
fn place(j: &J) -> Place {
    Place {
        l: us(&j[0]),
        p: j[1]
            .as_array()
            .unwrap()
            .iter()
            .map(|e| match e[0].as_str().unwrap() {
                "d" => Proj::Deref,
                "f" => Proj::Field(us(&e[1]), us(&e[2])),
                "i" => Proj::Index(us(&e[1])),
                "ci" => Proj::CIndex(e[1].as_u64().unwrap(), e[3].as_bool().unwrap()),
                "ss" => Proj::Sub(e[1].as_u64().unwrap(), e[2].as_u64().unwrap(), e[3].as_bool().unwrap()),
                "v" => Proj::Variant(us(&e[1])),
                _ => Proj::Cast(us(&e[1])),
            })
            .collect(),
    }
}
fn op(j: &J) -> Op {
    match j[0].as_str().unwrap() {
        "c" => Op::Copy(place(&j[1])),
        "m" => Op::Move(place(&j[1])),
        "k" => {
            let c = &j[1];
            let t = us(&c["t"]);
            if c.get("z").is_some() {
                Op::Const(t, Konst::Zst)
            } else if c.get("b").is_some() {
                Op::Const(t, Konst::Mem(bytes(c)))
            } else {
                Op::Const(t, Konst::Unknown(st(&c["u"])))
            }
        }
        _ => Op::Rc(st(&j[1])),
    }
}
fn rv(j: &J) -> Rv {
    match j[0].as_str().unwrap() {
        "addr" => Rv::AddrOf(j[1].as_bool().unwrap(), place(&j[2])),
        "ref" | "reb" => Rv::Ref(j[1].as_bool().unwrap(), place(&j[2])),
        "agg" => {
            let k = &j[1];
            let a = match k[0].as_str().unwrap() {
                "array" => Agg::Array(us(&k[1])),
                "tuple" => Agg::Tuple,
                "adt" => Agg::Adt(us(&k[1]), us(&k[2]), k[3].as_u64().map(|x| x as usize)),
                "closure" => Agg::Closure(us(&k[1])),
                "rawptr" => Agg::RawPtr(us(&k[1])),
                _ => Agg::Other,
            };
            Rv::Agg(a, j[2].as_array().unwrap().iter().map(op).collect())
        }
        "bin" => Rv::Bin(st(&j[1]), op(&j[2]), op(&j[3])),
        "cbin" => Rv::CBin(st(&j[1]), op(&j[2]), op(&j[3])),
        "cast" => Rv::Cast(st(&j[1]), op(&j[2]), us(&j[3])),
        "use" => Rv::Use(op(&j[1])),
        "discr" => Rv::Discr(place(&j[1])),
        "len" => Rv::Len(place(&j[1])),
        "rep" => Rv::Rep(op(&j[1]), j[2].as_u64().unwrap()),
        "un" => Rv::Un(st(&j[1]), op(&j[2])),
        "tls" => Rv::Tls(st(&j[1])),
        x => panic!("rvalue {}", x),
    }
}
fn uw(j: &J) -> Uw {
    match j.as_str() {
        Some("c") => Uw::Continue,
        Some("u") => Uw::Unreachable,
        Some("t") => Uw::Terminate,
        Some(x) => panic!("unwind {}", x),
        None => Uw::To(us(j)),
    }
}
fn stmt(j: &J) -> Stmt {
    let l = us(&j[1]) as u32;
    match j[0].as_str().unwrap() {
        "=" => Stmt::Assign(l, place(&j[2]), rv(&j[3])),
        "sd" => Stmt::SetDiscr(l, place(&j[2]), us(&j[3])),
        "live" => Stmt::Live(us(&j[2])),
        "dead" => Stmt::Dead(us(&j[2])),
        "assume" => Stmt::Assume(op(&j[2])),
        "cno" => Stmt::Cno(l, op(&j[2]), op(&j[3]), op(&j[4])),
        x => panic!("stmt {}", x),
    }
}
fn term(j: &J) -> Term {
    let l = us(&j[1]) as u32;
    match j[0].as_str().unwrap() {
        "goto" => Term::Goto(us(&j[2])),
        "switch" => Term::Switch(
            l,
            op(&j[2]),
            us(&j[3]),
            j[4].as_array().unwrap().iter().map(|x| (u128s(&x[0]), us(&x[1]))).collect(),
            us(&j[5]),
        ),
        "resume" => Term::Resume,
        "abort" => Term::Abort,
        "ret" => Term::Ret,
        "unreachable" => Term::Unreachable,
        "drop" => Term::Drop(l, place(&j[2]), j[3].as_u64().map(|x| x as usize), us(&j[4]), uw(&j[5])),
        "call" => {
            let c = &j[2];
            let callee = match c[0].as_str().unwrap() {
                "fn" => Callee::Fn(us(&c[1])),
                "virt" => Callee::Virt(us(&c[1]), st(&c[2])),
                "unres" => Callee::Unres(st(&c[1])),
                _ => Callee::Ptr(op(&c[1])),
            };
            Term::Call(
                l,
                callee,
                j[3].as_array().unwrap().iter().map(op).collect(),
                place(&j[4]),
                j[5].as_u64().map(|x| x as usize),
                uw(&j[6]),
            )
        }
        "assert" => Term::Assert(l, op(&j[2]), j[3].as_bool().unwrap(), st(&j[4]), us(&j[5]), uw(&j[6])),
        "asm" => Term::Asm,
        x => panic!("term {}", x),
    }
}

pub fn succs(t: &Term) -> Vec<usize> {
    let u = |w: &Uw, v: &mut Vec<usize>| {
        if let Uw::To(b) = w {
            v.push(*b)
        }
    };
    let mut v = vec![];
    match t {
        Term::Goto(b) => v.push(*b),
        Term::Switch(_, _, _, bs, o) => {
            v.extend(bs.iter().map(|x| x.1));
            v.push(*o);
        }
        Term::Drop(_, _, _, b, w) => {
            v.push(*b);
            u(w, &mut v);
        }
        Term::Call(_, _, _, _, b, w) => {
            v.extend(b.iter());
            u(w, &mut v);
        }
        Term::Assert(_, _, _, _, b, w) => {
            v.push(*b);
            u(w, &mut v);
        }
        _ => {}
    }
    v
}

/// Backward liveness of locals whose address is never taken.
fn kills(bs: &[Block], _argc: usize, nl: usize) -> Vec<Vec<usize>> {
    let mut addr = vec![false; nl];
    addr[0] = true;
    fn direct(p: &Place) -> bool {
        !p.p.iter().any(|e| matches!(e, Proj::Deref))
    }
    for b in bs {
        for s in &b.s {
            if let Stmt::Assign(_, _, rv) = s {
                if let Rv::AddrOf(_, p) | Rv::Ref(_, p) = rv {
                    if direct(p) {
                        addr[p.l] = true;
                    }
                }
            }
        }
        if let Term::Drop(_, p, ..) = &b.t {
            addr[p.l] = true;
        }
    }
    fn up(p: &Place, v: &mut Vec<bool>) {
        v[p.l] = true;
        for e in &p.p {
            if let Proj::Index(i) = e {
                v[*i] = true;
            }
        }
    }
    fn uo(o: &Op, v: &mut Vec<bool>) {
        match o {
            Op::Copy(p) | Op::Move(p) => up(p, v),
            _ => {}
        }
    }
    fn def(p: &Place, v: &mut Vec<bool>) {
        if p.p.is_empty() {
            v[p.l] = false;
        } else {
            up(p, v);
        }
    }
    let n = bs.len();
    let mut live: Vec<Vec<bool>> = vec![vec![false; nl]; n];
    let mut ch = true;
    while ch {
        ch = false;
        for b in (0..n).rev() {
            let mut v = vec![false; nl];
            for t in succs(&bs[b].t) {
                for i in 0..nl {
                    v[i] |= live[t][i];
                }
            }
            match &bs[b].t {
                Term::Switch(_, o, ..) | Term::Assert(_, o, ..) => uo(o, &mut v),
                Term::Drop(_, p, ..) => up(p, &mut v),
                Term::Call(_, c, args, d, ..) => {
                    if d.p.is_empty() {
                        v[d.l] = false;
                    } else {
                        up(d, &mut v);
                    }
                    if let Callee::Ptr(o) = c {
                        uo(o, &mut v);
                    }
                    for a in args {
                        uo(a, &mut v);
                    }
                }
                Term::Ret => v[0] = true,
                _ => {}
            }
            for s in bs[b].s.iter().rev() {
                match s {
                    Stmt::Assign(_, d, rv) => {
                        def(d, &mut v);
                        match rv {
                            Rv::AddrOf(_, p) | Rv::Ref(_, p) | Rv::Discr(p) | Rv::Len(p) => up(p, &mut v),
                            Rv::Agg(_, os) => os.iter().for_each(|o| uo(o, &mut v)),
                            Rv::Bin(_, x, y) | Rv::CBin(_, x, y) => {
                                uo(x, &mut v);
                                uo(y, &mut v);
                            }
                            Rv::Cast(_, o, _) | Rv::Use(o) | Rv::Rep(o, _) | Rv::Un(_, o) => uo(o, &mut v),
                            Rv::Tls(_) => {}
                        }
                    }
                    Stmt::SetDiscr(_, p, _) => up(p, &mut v),
                    Stmt::Assume(o) => uo(o, &mut v),
                    Stmt::Cno(_, a, b, c) => {
                        uo(a, &mut v);
                        uo(b, &mut v);
                        uo(c, &mut v);
                    }
                    _ => {}
                }
            }
            if v != live[b] {
                live[b] = v;
                ch = true;
            }
        }
    }
    live.iter().map(|v| (0..nl).filter(|i| !addr[*i] && !v[*i]).collect()).collect()
}

fn cfg(bs: &[Block]) -> Cfg {
    let n = bs.len();
    let mut post = vec![];
    let mut seen = vec![false; n];
    let mut stack: Vec<(usize, usize)> = vec![(0, 0)];
    if n > 0 {
        seen[0] = true;
    }
    let sc: Vec<Vec<usize>> = bs.iter().map(|b| succs(&b.t)).collect();
    while let Some((b, i)) = stack.pop() {
        if i < sc[b].len() {
            stack.push((b, i + 1));
            let s = sc[b][i];
            if !seen[s] {
                seen[s] = true;
                stack.push((s, 0));
            }
        } else {
            post.push(b);
        }
    }
    let mut rpo = vec![usize::MAX; n];
    for (i, b) in post.iter().rev().enumerate() {
        rpo[*b] = i;
    }
    let order: Vec<usize> = post.iter().rev().copied().collect();
    // dominators
    let mut idom = vec![usize::MAX; n];
    let mut preds = vec![vec![]; n];
    for (b, s) in sc.iter().enumerate() {
        if rpo[b] == usize::MAX {
            continue;
        }
        for t in s {
            preds[*t].push(b);
        }
    }
    if n > 0 {
        idom[0] = 0;
    }
    let mut ch = true;
    while ch {
        ch = false;
        for &b in order.iter().skip(1) {
            let mut ni = usize::MAX;
            for &p in &preds[b] {
                if idom[p] == usize::MAX {
                    continue;
                }
                if ni == usize::MAX {
                    ni = p;
                } else {
                    let (mut x, mut y) = (p, ni);
                    while x != y {
                        while rpo[x] > rpo[y] {
                            x = idom[x];
                        }
                        while rpo[y] > rpo[x] {
                            y = idom[y];
                        }
                    }
                    ni = x;
                }
            }
            if ni != idom[b] {
                idom[b] = ni;
                ch = true;
            }
        }
    }
    let dom = |a: usize, mut b: usize| -> bool {
        loop {
            if a == b {
                return true;
            }
            if b == 0 || idom[b] == usize::MAX {
                return false;
            }
            b = idom[b];
        }
    };
    let mut loops: HashMap<usize, Vec<bool>> = HashMap::new();
    for &b in &order {
        for &s in &sc[b] {
            if dom(s, b) {
                // back edge b -> s
                let set = loops.entry(s).or_insert_with(|| {
                    let mut v = vec![false; n];
                    v[s] = true;
                    v
                });
                let mut st = vec![b];
                while let Some(x) = st.pop() {
                    if !set[x] {
                        set[x] = true;
                        st.extend(preds[x].iter().copied());
                    }
                }
            }
        }
    }
    Cfg { rpo, loops }
}

impl Prog {
    pub fn load(path: &str) -> Prog {
        let s = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
        let j: J = serde_json::from_str(&s).expect("dump json");
        let tys = j["types"].as_array().unwrap().iter().map(ty).collect();
        let fns = j["fns"]
            .as_array()
            .unwrap()
            .iter()
            .map(|f| {
                let body = f.get("bs").map(|bs| {
                    let bs: Vec<Block> = bs
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|b| Block { s: b[0].as_array().unwrap().iter().map(stmt).collect(), t: term(&b[1]) })
                        .collect();
                    Body {
                        argc: us(&f["argc"]),
                        spread: f["spread"].as_u64().map(|x| x as usize),
                        ls: f["ls"].as_array().unwrap().iter().map(us).collect(),
                        cfg: cfg(&bs),
                        kill: kills(&bs, us(&f["argc"]), f["ls"].as_array().unwrap().len()),
                        bs,
                        vn: f["vn"].as_array().unwrap().iter().map(|x| (us(&x[0]), st(&x[1]))).collect(),
                    }
                });
                Func {
                    n: st(&f["n"]),
                    d: st(&f["d"]),
                    krate: st(&f["c"]),
                    k: st(&f["k"]),
                    i: f["i"].as_str().map(|x| x.to_string()),
                    ta: f["ta"].as_array().unwrap().iter().map(us).collect(),
                    file: st(&f["file"]),
                    line: us(&f["line"]) as u32,
                    foreign: f.get("foreign").is_some(),
                    stop: f.get("stop").is_some(),
                    body,
                }
            })
            .map(|mut f: Func| {
                // searching word by word finds what searching byte by byte finds
                if f.d == "core::slice::memchr::memchr" {
                    for b in f.body.iter_mut().flat_map(|b| b.bs.iter_mut()) {
                        for x in &mut b.s {
                            if let Stmt::Assign(_, _, Rv::Bin(o, _, Op::Const(_, Konst::Mem(m)))) = x {
                                if o == "Lt" && m.b == [16, 0, 0, 0, 0, 0, 0, 0] {
                                    m.b = vec![255, 255, 255, 255, 255, 255, 255, 127];
                                }
                            }
                        }
                    }
                }
                f
            })
            .collect();
        let allocs = j["allocs"]
            .as_array()
            .unwrap()
            .iter()
            .map(|a| match a["k"].as_str().unwrap() {
                "fn" => Alloc::Fn(us(&a["fn"])),
                "vtable" => Alloc::Vtable(us(&a["t"]), a["mem"].as_u64().map(|x| x as usize)),
                "static" => {
                    Alloc::Static(us(&a["t"]), st(&a["n"]), if a.get("b").is_some() { Some(bytes(a)) } else { None })
                }
                "mem" => Alloc::Mem(bytes(a)),
                _ => Alloc::TypeId(us(&a["t"])),
            })
            .collect();
        let roots = j["roots"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), us(v))).collect();
        let defs = j["defs"]
            .as_array()
            .unwrap()
            .iter()
            .map(|d| (st(&d[0]), st(&d[1]), us(&d[2]) as u32))
            .collect();
        Prog { tys, fns, allocs, roots, defs }
    }
    pub fn size(&self, t: TyId) -> u64 {
        self.tys[t].l.as_ref().map(|l| l.sz).unwrap_or(0)
    }
    pub fn is_sized(&self, t: TyId) -> bool {
        match self.tys[t].k {
            TK::Slice(_) | TK::Str | TK::Dyn => false,
            _ => match self.tys[t].l.as_ref() {
                Some(l) => l.sized,
                None => true,
            },
        }
    }
}
