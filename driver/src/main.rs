//! Compiler driver: dumps the type-checked, monomorphised MIR of everything
//! reachable from the root functions of the harness crate, with layouts,
//! constants and resolved callees, as one JSON file.  Used as RUSTC_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, Primitive, Scalar, TagEncoding, ValueRepr, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

const HARNESS: &str = "pgnv_harness";

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn join<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

#[derive(Default)]
struct Cx {
    tys: HashMap<Ty, usize>,
    ty_json: Vec<String>,
    ty_q: Vec<Ty>,
    fns: HashMap<Instance, usize>,
    fn_json: Vec<String>,
    fn_q: Vec<Instance>,
    allocs: HashMap<AllocId, usize>,
    al_json: Vec<String>,
    al_q: Vec<AllocId>,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(String::new());
        self.ty_q.push(t);
        i
    }
    fn inst(&mut self, t: Instance) -> usize {
        if let Some(&i) = self.fns.get(&t) {
            return i;
        }
        let i = self.fn_json.len();
        self.fns.insert(t, i);
        self.fn_json.push(String::new());
        self.fn_q.push(t);
        i
    }
    fn alloc(&mut self, t: AllocId) -> usize {
        if let Some(&i) = self.allocs.get(&t) {
            return i;
        }
        let i = self.al_json.len();
        self.allocs.insert(t, i);
        self.al_json.push(String::new());
        self.al_q.push(t);
        i
    }

    fn scalar(&self, s: &Scalar) -> String {
        let (v, range) = match s {
            Scalar::Initialized { value, valid_range } => (value, Some(valid_range)),
            Scalar::Union { value } => (value, None),
        };
        let p = match v {
            Primitive::Int { length, signed } => {
                format!("[\"{}\",{}]", if *signed { "i" } else { "u" }, length.bits() / 8)
            }
            Primitive::Float { length } => format!("[\"f\",{}]", length.bits() / 8),
            Primitive::Pointer(_) => "[\"p\",8]".to_string(),
        };
        match range {
            Some(r) => format!("[{},\"{}\",\"{}\"]", p, r.start, r.end),
            None => format!("[{}]", p),
        }
    }

    fn layout(&mut self, t: Ty) -> String {
        let Ok(l) = t.layout() else { return "null".into() };
        let s = l.shape();
        let f = match &s.fields {
            FieldsShape::Primitive => "[\"p\"]".to_string(),
            FieldsShape::Union(n) => format!("[\"u\",{}]", n),
            FieldsShape::Array { stride, count } => format!("[\"a\",{},{}]", stride.bytes(), count),
            FieldsShape::Arbitrary { offsets } => {
                format!("[\"o\",{}]", join(offsets.iter().map(|o| o.bytes().to_string())))
            }
        };
        let v = match &s.variants {
            VariantsShape::Empty => "[\"e\"]".to_string(),
            VariantsShape::Single { index } => format!("[\"s\",{}]", index.to_index()),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let enc = match tag_encoding {
                    TagEncoding::Direct => "[\"d\"]".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "[\"n\",{},{},{},\"{}\"]",
                        untagged_variant.to_index(),
                        niche_variants.start().to_index(),
                        niche_variants.end().to_index(),
                        niche_start
                    ),
                };
                format!(
                    "[\"m\",{},{},{},{}]",
                    self.scalar(tag),
                    enc,
                    tag_field,
                    join(variants.iter().map(|v| join(v.offsets.iter().map(|o| o.bytes().to_string()))))
                )
            }
        };
        let r = match &s.value_repr {
            ValueRepr::Scalar(a) => format!("[\"s\",{}]", self.scalar(a)),
            ValueRepr::ScalarPair { a, b, b_offset } => {
                format!("[\"sp\",{},{},{}]", self.scalar(a), self.scalar(b), b_offset.bytes())
            }
            ValueRepr::Aggregate { sized } => format!("[\"g\",{}]", sized),
            _ => "[\"v\"]".to_string(),
        };
        format!(
            "{{\"sz\":{},\"al\":{},\"f\":{},\"v\":{},\"r\":{}}}",
            s.size.bytes(),
            s.abi_align,
            f,
            v,
            r
        )
    }

    fn dump_ty(&mut self, t: Ty) -> String {
        let kind = t.kind();
        let name = esc(&format!("{}", t));
        let TyKind::RigidTy(r) = kind else {
            return format!("{{\"k\":\"other\",\"n\":{}}}", name);
        };
        let lay = self.layout(t);
        let body = match r {
            RigidTy::Bool => "\"k\":\"bool\"".into(),
            RigidTy::Char => "\"k\":\"char\"".into(),
            RigidTy::Int(i) => format!("\"k\":\"int\",\"s\":true,\"bits\":{}", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("\"k\":\"int\",\"s\":false,\"bits\":{}", i.num_bytes() * 8),
            RigidTy::Float(_) => "\"k\":\"float\"".into(),
            RigidTy::Str => "\"k\":\"str\"".into(),
            RigidTy::Never => "\"k\":\"never\"".into(),
            RigidTy::Array(e, n) => {
                let e = self.ty(e);
                format!("\"k\":\"array\",\"e\":{},\"len\":{}", e, n.eval_target_usize().unwrap_or(0))
            }
            RigidTy::Slice(e) => {
                let e = self.ty(e);
                format!("\"k\":\"slice\",\"e\":{}", e)
            }
            RigidTy::RawPtr(e, m) => {
                let e = self.ty(e);
                format!("\"k\":\"ptr\",\"raw\":true,\"mut\":{},\"e\":{}", m == Mutability::Mut, e)
            }
            RigidTy::Ref(_, e, m) => {
                let e = self.ty(e);
                format!("\"k\":\"ptr\",\"raw\":false,\"mut\":{},\"e\":{}", m == Mutability::Mut, e)
            }
            RigidTy::Pat(e, _) => {
                let e = self.ty(e);
                format!("\"k\":\"pat\",\"e\":{}", e)
            }
            RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
            RigidTy::FnDef(def, args) => {
                let i = match Instance::resolve(def, &args) {
                    Ok(i) => format!("{}", self.inst(i)),
                    Err(_) => "null".into(),
                };
                format!("\"k\":\"fndef\",\"fn\":{}", i)
            }
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("\"k\":\"tuple\",\"fs\":[[{}]]", v.join(","))
            }
            RigidTy::Closure(def, args) => {
                // upvars: last generic arg is the tuple of upvar types
                let mut ups = vec![];
                if let Some(GenericArgKind::Type(t)) = args.0.last() {
                    if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                        ups = ts;
                    }
                }
                let v: Vec<String> = ups.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("\"k\":\"closure\",\"adt\":{},\"fs\":[[{}]]", esc(&def.name().to_string()), v.join(","))
            }
            RigidTy::Adt(def, args) => {
                let mut vs = vec![];
                let mut names = vec![];
                let mut fnames = vec![];
                let mut discr = vec![];
                for (i, v) in def.variants().into_iter().enumerate() {
                    let mut fs = vec![];
                    let mut ns = vec![];
                    for f in v.fields() {
                        fs.push(self.ty(f.ty_with_args(&args)).to_string());
                        ns.push(esc(&f.name.to_string()));
                    }
                    vs.push(format!("[{}]", fs.join(",")));
                    fnames.push(format!("[{}]", ns.join(",")));
                    names.push(esc(&v.name().to_string()));
                    let d = if def.kind() == AdtKind::Enum {
                        def.discriminant_for_variant(VariantIdx::to_val(i)).val
                    } else {
                        0
                    };
                    discr.push(format!("\"{}\"", d));
                }
                let dt = if def.kind() == AdtKind::Enum {
                    let d = RigidTy::Adt(def, args.clone()).discriminant_ty();
                    self.ty(d).to_string()
                } else {
                    "null".into()
                };
                let k = match def.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                let targs: Vec<String> = args
                    .0
                    .iter()
                    .filter_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None })
                    .map(|t| self.ty(t).to_string())
                    .collect();
                format!(
                    "\"k\":\"{}\",\"adt\":{},\"box\":{},\"fs\":[{}],\"vn\":[{}],\"fn\":[{}],\"d\":[{}],\"dt\":{},\"ta\":[{}]",
                    k,
                    esc(&def.name().to_string()),
                    def.is_box(),
                    vs.join(","),
                    names.join(","),
                    fnames.join(","),
                    discr.join(","),
                    dt,
                    targs.join(",")
                )
            }
            RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        format!("{{{},\"n\":{},\"l\":{}}}", body, name, lay)
    }

    fn alloc_json(&mut self, a: &Allocation) -> String {
        let mut b = String::from("[");
        for (i, x) in a.bytes.iter().enumerate() {
            if i > 0 {
                b.push(',');
            }
            match x {
                Some(v) => {
                    let _ = write!(b, "{}", v);
                }
                None => b.push_str("-1"),
            }
        }
        b.push(']');
        let p: Vec<String> =
            a.provenance.ptrs.iter().map(|(o, pr)| format!("[{},{}]", o, self.alloc(pr.0))).collect();
        format!(
            "\"b\":{},\"p\":[{}],\"al\":{},\"mut\":{}",
            b,
            p.join(","),
            a.align,
            a.mutability == Mutability::Mut
        )
    }

    fn dump_alloc(&mut self, id: AllocId) -> String {
        match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => {
                let i = self.inst(i);
                format!("{{\"k\":\"fn\",\"fn\":{}}}", i)
            }
            GlobalAlloc::VTable(t, tr) => {
                let ga = GlobalAlloc::VTable(t, tr.clone());
                let va = ga.vtable_allocation();
                let ti = self.ty(t);
                let va = match va {
                    Some(v) => self.alloc(v).to_string(),
                    None => "null".into(),
                };
                format!("{{\"k\":\"vtable\",\"t\":{},\"mem\":{}}}", ti, va)
            }
            GlobalAlloc::Static(s) => {
                let t = self.ty(s.ty());
                let n = esc(&s.name().to_string());
                match s.eval_initializer() {
                    Ok(a) => format!("{{\"k\":\"static\",\"t\":{},\"n\":{},{}}}", t, n, self.alloc_json(&a)),
                    Err(_) => format!("{{\"k\":\"static\",\"t\":{},\"n\":{}}}", t, n),
                }
            }
            GlobalAlloc::Memory(a) => format!("{{\"k\":\"mem\",{}}}", self.alloc_json(&a)),
            GlobalAlloc::TypeId { ty } => format!("{{\"k\":\"typeid\",\"t\":{}}}", self.ty(ty)),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let v: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            })
            .collect();
        format!("[{},[{}]]", p.local, v.join(","))
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::ZeroSized => format!("{{\"t\":{},\"z\":1}}", t),
            ConstantKind::Allocated(a) => format!("{{\"t\":{},{}}}", t, self.alloc_json(a)),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => format!("{{\"t\":{},{}}}", t, self.alloc_json(a)),
                TyConstKind::ZSTValue(_) => format!("{{\"t\":{},\"z\":1}}", t),
                k => format!("{{\"t\":{},\"u\":{}}}", t, esc(&format!("{:?}", k))),
            },
            k => format!("{{\"t\":{},\"u\":{}}}", t, esc(&format!("{:?}", k))),
        }
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(c) => format!("[\"rc\",{}]", esc(&format!("{:?}", c))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => {
                format!("[\"addr\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(p))
            }
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"reb\",{},{}]", *m == Mutability::Mut, self.place(p))
            }
            Rvalue::Aggregate(k, ops) => {
                let k = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = Ty::from_rigid_kind(RigidTy::Adt(*d, a.clone()));
                        format!(
                            "[\"adt\",{},{},{}]",
                            self.ty(t),
                            v.to_index(),
                            f.map(|f| f.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::from_rigid_kind(RigidTy::Closure(*d, a.clone()));
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, m) => {
                        let t = Ty::from_rigid_kind(RigidTy::RawPtr(*t, *m));
                        format!("[\"rawptr\",{}]", self.ty(t))
                    }
                    _ => "[\"other\"]".into(),
                };
                let ops: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                format!("[\"agg\",{},[{}]]", k, ops.join(","))
            }
            Rvalue::BinaryOp(o, a, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", o, self.operand(a), self.operand(b))
            }
            Rvalue::CheckedBinaryOp(o, a, b) => {
                format!("[\"cbin\",\"{:?}\",{},{}]", o, self.operand(a), self.operand(b))
            }
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(c) => match c {
                        PointerCoercion::ReifyFnPointer(_) => "Reify".to_string(),
                        PointerCoercion::UnsafeFnPointer => "PtrToPtr".to_string(),
                        PointerCoercion::ClosureFnPointer(_) => "ClosureFn".to_string(),
                        PointerCoercion::MutToConstPointer => "PtrToPtr".to_string(),
                        PointerCoercion::ArrayToPointer => "PtrToPtr".to_string(),
                        PointerCoercion::Unsize => "Unsize".to_string(),
                    },
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",\"{}\",{},{}]", ks, self.operand(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                format!("[\"rep\",{},{}]", self.operand(o), n.eval_target_usize().unwrap_or(0))
            }
            Rvalue::ThreadLocalRef(c) => format!("[\"tls\",{}]", esc(&c.name().to_string())),
            Rvalue::UnaryOp(o, a) => format!("[\"un\",\"{:?}\",{}]", o, self.operand(a)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
        }
    }

    fn stmt(&mut self, s: &Statement) -> Option<String> {
        let line = s.source_info.span.get_lines().start_line;
        Some(match &s.kind {
            StatementKind::Assign(p, r) => {
                format!("[\"=\",{},{},{}]", line, self.place(p), self.rvalue(r))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                format!("[\"sd\",{},{},{}]", line, self.place(place), variant_index.to_index())
            }
            StatementKind::StorageLive(l) => format!("[\"live\",{},{}]", line, l),
            StatementKind::StorageDead(l) => format!("[\"dead\",{},{}]", line, l),
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                format!("[\"assume\",{},{}]", line, self.operand(o))
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => format!(
                "[\"cno\",{},{},{},{}]",
                line,
                self.operand(&c.src),
                self.operand(&c.dst),
                self.operand(&c.count)
            ),
            _ => return None,
        })
    }

    fn unwind(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Continue => "\"c\"".into(),
            UnwindAction::Unreachable => "\"u\"".into(),
            UnwindAction::Terminate => "\"t\"".into(),
            UnwindAction::Cleanup(b) => b.to_string(),
        }
    }

    fn term(&mut self, t: &Terminator, locals: &[LocalDecl]) -> String {
        let line = t.source_info.span.get_lines().start_line;
        match &t.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{},{}]", line, target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let v: Vec<String> = targets.branches().map(|(v, b)| format!("[\"{}\",{}]", v, b)).collect();
                let t = discr.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                format!(
                    "[\"switch\",{},{},{},[{}],{}]",
                    line,
                    self.operand(discr),
                    t,
                    v.join(","),
                    targets.otherwise()
                )
            }
            TerminatorKind::Resume => format!("[\"resume\",{}]", line),
            TerminatorKind::Abort => format!("[\"abort\",{}]", line),
            TerminatorKind::Return => format!("[\"ret\",{}]", line),
            TerminatorKind::Unreachable => format!("[\"unreachable\",{}]", line),
            TerminatorKind::Drop { place, target, unwind } => {
                let ty = place.ty(locals).unwrap();
                let inst = Instance::resolve_drop_in_place(ty);
                let f = if inst.is_empty_shim() { "null".to_string() } else { self.inst(inst).to_string() };
                format!(
                    "[\"drop\",{},{},{},{},{}]",
                    line,
                    self.place(place),
                    f,
                    target,
                    Self::unwind(unwind)
                )
            }
            TerminatorKind::Call { func, args, destination, target, unwind } => {
                let fty = func.ty(locals).unwrap();
                let callee = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(def, ga)) => match Instance::resolve(def, &ga) {
                        Ok(i) => match i.kind {
                            InstanceKind::Virtual { idx } => {
                                format!("[\"virt\",{},{}]", idx, esc(&def.name().to_string()))
                            }
                            _ => format!("[\"fn\",{}]", self.inst(i)),
                        },
                        Err(_) => format!("[\"unres\",{}]", esc(&def.name().to_string())),
                    },
                    _ => format!("[\"ptr\",{}]", self.operand(func)),
                };
                let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                format!(
                    "[\"call\",{},{},[{}],{},{},{}]",
                    line,
                    callee,
                    a.join(","),
                    self.place(destination),
                    target.map(|t| t.to_string()).unwrap_or("null".into()),
                    Self::unwind(unwind)
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let m = match msg {
                    AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                    AssertMessage::Overflow(op, ..) => format!("overflow {:?}", op),
                    AssertMessage::OverflowNeg(..) => "overflow Neg".to_string(),
                    AssertMessage::DivisionByZero(..) => "div by zero".to_string(),
                    AssertMessage::RemainderByZero(..) => "rem by zero".to_string(),
                    m => m.description().map(|s| s.to_string()).unwrap_or("other".into()),
                };
                format!(
                    "[\"assert\",{},{},{},{},{},{}]",
                    line,
                    self.operand(cond),
                    expected,
                    esc(&m),
                    target,
                    Self::unwind(unwind)
                )
            }
            TerminatorKind::InlineAsm { .. } => format!("[\"asm\",{}]", line),
        }
    }

    fn dump_fn(&mut self, i: Instance) -> String {
        let name = esc(&i.name().to_string());
        let def = esc(&i.def.name().to_string());
        let krate = esc(&i.def.krate().name.to_string());
        let kind = match i.kind {
            InstanceKind::Item => "item".to_string(),
            InstanceKind::Intrinsic => "intrinsic".to_string(),
            InstanceKind::LlvmIntrinsic => "llvm".to_string(),
            InstanceKind::Virtual { .. } => "virtual".to_string(),
            InstanceKind::Shim => "shim".to_string(),
        };
        let intr = i.intrinsic_name().map(|s| esc(&s.to_string())).unwrap_or("null".into());
        let targs: Vec<String> = i
            .args()
            .0
            .iter()
            .filter_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None })
            .map(|t| self.ty(t).to_string())
            .collect();
        let span = i.def.span();
        let file = esc(&span.get_filename().to_string());
        let line = span.get_lines().start_line;
        let head = format!(
            "\"n\":{},\"d\":{},\"c\":{},\"k\":\"{}\",\"i\":{},\"ta\":[{}],\"file\":{},\"line\":{}",
            name,
            def,
            krate,
            kind,
            intr,
            targs.join(","),
            file,
            line
        );
        let sig = {
            // type of return for bodyless instances
            match i.ty().kind() {
                TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                    let s = d.fn_sig();
                    let _ = a;
                    let _ = s;
                    String::new()
                }
                _ => String::new(),
            }
        };
        let _ = sig;
        if i.is_foreign_item() {
            return format!("{{{},\"foreign\":true}}", head);
        }
        if matches!(i.kind, InstanceKind::Virtual { .. }) {
            return format!("{{{}}}", head);
        }
        let dn = i.def.name().to_string();
        // machinery modelled by the analyser as a unit: do not traverse
        if STOP.iter().any(|p| dn.starts_with(p)) {
            return format!("{{{},\"stop\":true}}", head);
        }
        let Some(body) = i.body() else {
            return format!("{{{}}}", head);
        };
        let locals: Vec<String> = body.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for b in &body.blocks {
            let st: Vec<String> = b.statements.iter().filter_map(|s| self.stmt(s)).collect();
            let t = self.term(&b.terminator, body.locals());
            blocks.push(format!("[[{}],{}]", st.join(","), t));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let Some(l) = v.local() {
                names.push(format!("[{},{}]", l, esc(&v.name.to_string())));
            }
        }
        format!(
            "{{{},\"argc\":{},\"spread\":{},\"ls\":[{}],\"bs\":[{}],\"vn\":[{}]}}",
            head,
            body.arg_locals().len(),
            body.spread_arg().map(|s| s.to_string()).unwrap_or("null".into()),
            locals.join(","),
            blocks.join(",\n  "),
            names.join(",")
        )
    }
}

const STOP: &[&str] = &[
    "core::fmt::builders::",
    "core::fmt::Formatter",
    "std::fmt::Formatter",
    "core::panicking::",
    "std::rt::",
    "std::panicking::",
    "std::process::",
    "alloc::alloc::handle_alloc_error",
    "core::num::flt2dec",
    "core::num::imp::flt2dec",
    "core::num::dec2flt",
    "core::num::imp::dec2flt",
    "std::io::",
    "std::sys::",
    "std::sync::once::",
    "std::sync::Once::",
    "strtod::",
];

fn dump() -> ControlFlow<()> {
    let out = std::env::var("PGNV_OUT").expect("PGNV_OUT");
    let mut cx = Cx::default();
    let krate = rustc_public::local_crate();
    let mut roots = vec![];
    for f in krate.fn_defs() {
        let n = f.name().to_string();
        let last = n.rsplit("::").next().unwrap_or("");
        if !last.starts_with("root_") {
            continue;
        }
        if let Ok(i) = Instance::resolve(f, &GenericArgs(vec![])) {
            roots.push((last.to_string(), cx.inst(i)));
        }
    }
    loop {
        if let Some(i) = cx.fn_q.pop() {
            let id = cx.fns[&i];
            let s = cx.dump_fn(i);
            cx.fn_json[id] = s;
            continue;
        }
        if let Some(t) = cx.ty_q.pop() {
            let id = cx.tys[&t];
            let s = cx.dump_ty(t);
            cx.ty_json[id] = s;
            continue;
        }
        if let Some(a) = cx.al_q.pop() {
            let id = cx.allocs[&a];
            let s = cx.dump_alloc(a);
            cx.al_json[id] = s;
            continue;
        }
        break;
    }
    let mut defs = vec![];
    for c in rustc_public::find_crates("pgnumeric") {
        for f in c.fn_defs() {
            let sp = f.span();
            defs.push(format!(
                "[{},{},{}]",
                esc(&f.name().to_string()),
                esc(&sp.get_filename().to_string()),
                sp.get_lines().start_line
            ));
        }
    }
    let s = format!(
        "{{\"types\":[\n{}\n],\"fns\":[\n{}\n],\"allocs\":[\n{}\n],\"roots\":{},\"defs\":[{}]}}\n",
        cx.ty_json.join(",\n"),
        cx.fn_json.join(",\n"),
        cx.al_json.join(",\n"),
        format!(
            "{{{}}}",
            roots.iter().map(|(n, i)| format!("{}:{}", esc(n), i)).collect::<Vec<_>>().join(",")
        ),
        defs.join(",")
    );
    std::fs::write(&out, s).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc
    let rest: Vec<String> = args[1..].to_vec();
    let crate_name = rest.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone());
    let is_query = crate_name.is_none() || rest.iter().any(|a| a == "___");
    if is_query || crate_name.as_deref() != Some(HARNESS) {
        let mut cmd = std::process::Command::new(&rest[0]);
        cmd.args(&rest[1..]);
        if !is_query && crate_name.as_deref() != Some("build_script_build") {
            cmd.arg("-Zalways-encode-mir");
        }
        let st = cmd.status().expect("run rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    let r = run!(&rest, dump);
    match r {
        Ok(()) => {}
        Err(e) => {
            eprintln!("driver: {:?}", e);
            std::process::exit(1);
        }
    }
    let _ = join(Vec::<String>::new());
}
