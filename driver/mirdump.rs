// mirdump: a rustc_private driver.  It is injected with RUSTC_WORKSPACE_WRAPPER into a real
// `cargo check` of /repo and writes the resolved program -- monomorphic MIR of every function of
// the target crate and of everything reachable from it, the type table with layouts, evaluated
// constants, resolved callees and the implementations behind every trait-object call -- as JSON.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_public::abi::*;
use rustc_public::crate_def::CrateDef;
use rustc_public::crate_def::CrateDefType;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut o = String::from("[");
    for (i, s) in it.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&s);
    }
    o.push(']');
    o
}

const STOP: &[&str] = &[
    "core::panicking", "std::panicking", "core::fmt", "std::fmt", "alloc::fmt", "alloc::raw_vec",
    "alloc::alloc", "std::alloc", "std::io", "std::rt", "std::thread", "std::sync", "core::str",
    "alloc::string", "alloc::str", "core::unicode", "core::char", "std::backtrace", "core::num::fmt",
    "core::num::flt2dec", "core::num::dec2flt", "std::sys",
    "std::collections::hash", "hashbrown", "core::hash", "core::slice::index::slice_", "std::env", "std::process",
    "std::fs", "std::net", "std::time", "core::option::unwrap_failed", "core::option::expect_failed",
    "core::result::unwrap_failed", "alloc::collections",
];
// inside the skipped std::vec module these are still wanted (generic glue over slices)
fn stopped(name: &str) -> bool {
    let n = name.trim_start_matches('<').trim_start_matches("impl ");
    STOP.iter().any(|p| n.starts_with(p))
}

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    ty_queue: VecDeque<Ty>,
    insts: HashMap<String, ()>,
    inst_out: Vec<String>,
    queue: VecDeque<(Instance, bool)>,
    allocs: HashMap<AllocId, usize>,
    alloc_out: Vec<String>,
    files: HashMap<String, usize>,
    file_out: Vec<String>,
    trait_impls: Vec<(TraitDef, GenericArgs)>,
    virt: HashSet<String>,
    virt_out: Vec<String>,
    virt_calls: Vec<(FnDef, GenericArgs)>,
    vt_types: Vec<(Ty, TraitDef)>,
    target: String,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = self.ty_json(t);
        self.ty_out[i] = s;
        i
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|k| match k {
                GenericArgKind::Type(t) => Some(format!("{}", self.ty(*t))),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"c\":{}}}", n),
                    Err(_) => format!("{{\"c\":null}}"),
                }),
                GenericArgKind::Lifetime(_) => None,
            })
            .collect();
        list(v)
    }

    fn layout_json(&mut self, t: Ty) -> String {
        match t.layout() {
            Ok(l) => {
                let sh = l.shape();
                let offs = match &sh.fields {
                    FieldsShape::Arbitrary { offsets } => list(offsets.iter().map(|o| format!("{}", o.bytes()))),
                    _ => "null".into(),
                };
                let vars = match &sh.variants {
                    VariantsShape::Empty => "{\"k\":\"empty\"}".to_string(),
                    VariantsShape::Single { index } => format!("{{\"k\":\"single\",\"i\":{}}}", vi(*index)),
                    VariantsShape::Multiple { tag: _, tag_encoding, tag_field, variants } => {
                        let enc = match tag_encoding {
                            TagEncoding::Direct => "{\"k\":\"direct\"}".to_string(),
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                                "{{\"k\":\"niche\",\"untagged\":{},\"lo\":{},\"hi\":{},\"start\":\"{}\"}}",
                                vi(*untagged_variant),
                                vi(*niche_variants.start()),
                                vi(*niche_variants.end()),
                                niche_start
                            ),
                        };
                        let vs = list(variants.iter().map(|v| {
                            list(v.offsets.iter().map(|o| format!("{}", o.bytes())))
                        }));
                        let tag_off = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.get(*tag_field).map(|o| o.bytes()).unwrap_or(0),
                            _ => 0,
                        };
                        format!("{{\"k\":\"multi\",\"enc\":{},\"tagoff\":{},\"vars\":{}}}", enc, tag_off, vs)
                    }
                };
                format!(
                    "{{\"size\":{},\"align\":{},\"offs\":{},\"vars\":{}}}",
                    sh.size.bytes(),
                    sh.abi_align,
                    offs,
                    vars
                )
            }
            Err(_) => "null".into(),
        }
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let name = format!("{}", t);
        let kind = t.kind();
        let TyKind::RigidTy(rt) = kind else {
            return format!("{{\"k\":\"nonrigid\",\"n\":{}}}", esc(&name));
        };
        let body = match rt {
            RigidTy::Bool => "\"k\":\"bool\"".to_string(),
            RigidTy::Char => "\"k\":\"char\"".to_string(),
            RigidTy::Int(i) => format!("\"k\":\"int\",\"s\":true,\"b\":{}", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("\"k\":\"int\",\"s\":false,\"b\":{}", i.num_bytes() * 8),
            RigidTy::Float(f) => format!(
                "\"k\":\"float\",\"b\":{}",
                match f {
                    FloatTy::F16 => 16,
                    FloatTy::F32 => 32,
                    FloatTy::F64 => 64,
                    FloatTy::F128 => 128,
                }
            ),
            RigidTy::Adt(def, args) => {
                let kind = match def.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Union => "union",
                    AdtKind::Struct => "struct",
                };
                let dname = def.name().to_string();
                let mut vs = vec![];
                for v in def.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let fty = f.ty_with_args(&args);
                        fs.push(format!("[{},{}]", esc(&f.name.to_string()), self.ty(fty)));
                    }
                    let d = if let AdtKind::Enum = def.kind() {
                        format!("{}", def.discriminant_for_variant(v.idx()).val)
                    } else {
                        "0".into()
                    };
                    vs.push(format!(
                        "{{\"n\":{},\"d\":\"{}\",\"f\":{}}}",
                        esc(&v.name().to_string()),
                        d,
                        list(fs)
                    ));
                }
                let a = self.args(&args);
                format!(
                    "\"k\":\"adt\",\"ak\":\"{}\",\"def\":{},\"args\":{},\"v\":{},\"box\":{}",
                    kind,
                    esc(&dname),
                    a,
                    list(vs),
                    def.is_box()
                )
            }
            RigidTy::Foreign(_) => "\"k\":\"foreign\"".into(),
            RigidTy::Str => "\"k\":\"str\"".into(),
            RigidTy::Array(e, c) => {
                let n = c.eval_target_usize().map(|n| n as i64).unwrap_or(-1);
                format!("\"k\":\"array\",\"e\":{},\"len\":{}", self.ty(e), n)
            }
            RigidTy::Pat(e, _) => format!("\"k\":\"pat\",\"e\":{}", self.ty(e)),
            RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
            RigidTy::RawPtr(e, m) => {
                format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut)
            }
            RigidTy::Ref(_, e, m) => {
                format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut)
            }
            RigidTy::FnDef(def, args) => {
                let dn = def.name().to_string();
                let inst = self.resolve(def, &args);
                let a = self.args(&args);
                format!("\"k\":\"fndef\",\"def\":{},\"args\":{},\"inst\":{}", esc(&dn), a, inst)
            }
            RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
            RigidTy::Closure(def, args) => {
                let up = match args.0.last() {
                    Some(GenericArgKind::Type(t)) => format!("{}", self.ty(*t)),
                    _ => "null".into(),
                };
                let mut insts = vec![];
                for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                    let key = Instance::resolve_closure(def, &args, k).ok().map(|i| self.inst(i, false));
                    insts.push(key.map(|k| esc(&k)).unwrap_or("null".into()));
                }
                format!(
                    "\"k\":\"closure\",\"def\":{},\"up\":{},\"insts\":{}",
                    esc(&def.name().to_string()),
                    up,
                    list(insts)
                )
            }
            RigidTy::Dynamic(preds, _) => {
                let p = preds
                    .iter()
                    .filter_map(|b| match &b.value {
                        ExistentialPredicate::Trait(t) => Some(esc(&t.def_id.name().to_string())),
                        _ => None,
                    })
                    .collect::<Vec<_>>();
                format!("\"k\":\"dyn\",\"traits\":{}", list(p))
            }
            RigidTy::Never => "\"k\":\"never\"".into(),
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| format!("{}", self.ty(*t))).collect();
                format!("\"k\":\"tuple\",\"es\":{}", list(v))
            }
            _ => "\"k\":\"other\"".into(),
        };
        let lay = self.layout_json(t);
        format!("{{{},\"n\":{},\"lay\":{}}}", body, esc(&name), lay)
    }

    fn resolve(&mut self, def: FnDef, args: &GenericArgs) -> String {
        match Instance::resolve(def, args) {
            Ok(i) => {
                if let InstanceKind::Virtual { .. } = i.kind {
                    self.resolve_virtual(def, args);
                    let c = (def, args.clone());
                    if !self.virt_calls.contains(&c) {
                        self.virt_calls.push(c);
                    }
                }
                esc(&self.inst(i, false))
            }
            Err(_) => "null".into(),
        }
    }

    // all implementations in the program of the trait method behind a trait-object call
    fn resolve_virtual(&mut self, def: FnDef, args: &GenericArgs) {
        let dn = def.name().to_string();
        let parent = match def.def_id().parent() {
            Some(p) => p,
            None => return,
        };
        let impls = self.trait_impls.clone();
        for (td, targs) in impls {
            if td.def_id() != parent {
                continue;
            }
            let GenericArgKind::Type(self_ty) = targs.0[0].clone() else { continue };
            if !matches!(self_ty.kind(), TyKind::RigidTy(_)) {
                continue;
            }
            let mut a = args.clone();
            a.0[0] = GenericArgKind::Type(self_ty);
            if let Ok(i) = Instance::resolve(def, &a) {
                if let InstanceKind::Virtual { .. } = i.kind {
                    continue;
                }
                let tid = self.ty(self_ty);
                let key = self.inst(i, true);
                let row = format!("[{},{},{}]", esc(&dn), tid, esc(&key));
                if self.virt.insert(row.clone()) {
                    self.virt_out.push(row);
                }
            }
        }
    }

    // a pointer to a concrete type becomes a trait object: the type and the trait
    fn unsized_to(&mut self, from: Ty, to: Ty) {
        let pointee = |t: Ty| -> Option<Ty> {
            match t.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
                TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().find_map(|k| match k {
                    GenericArgKind::Type(t) => Some(*t),
                    _ => None,
                }),
                _ => None,
            }
        };
        let (mut s, mut d) = (from, to);
        for _ in 0..4 {
            if let TyKind::RigidTy(RigidTy::Dynamic(preds, _)) = d.kind() {
                if let TyKind::RigidTy(RigidTy::Dynamic(..)) = s.kind() {
                    return;
                }
                for b in preds.iter() {
                    if let ExistentialPredicate::Trait(t) = &b.value {
                        let row = (s, t.def_id);
                        if !self.vt_types.contains(&row) {
                            self.vt_types.push(row);
                        }
                    }
                }
                return;
            }
            match (pointee(s), pointee(d)) {
                (Some(a), Some(b)) => {
                    s = a;
                    d = b;
                }
                _ => return,
            }
        }
    }

    // methods of the types that became trait objects, for the calls through trait objects
    fn link_virtual(&mut self) {
        let types = self.vt_types.clone();
        let calls = self.virt_calls.clone();
        for (def, args) in calls {
            let parent = match def.def_id().parent() {
                Some(p) => p,
                None => continue,
            };
            for (t, tr) in &types {
                if tr.def_id() != parent || args.0.is_empty() {
                    continue;
                }
                let mut a = args.clone();
                a.0[0] = GenericArgKind::Type(*t);
                if let Ok(i) = Instance::resolve(def, &a) {
                    if let InstanceKind::Virtual { .. } = i.kind {
                        continue;
                    }
                    let tid = self.ty(*t);
                    let key = self.inst(i, false);
                    let row = format!("[{},{},{}]", esc(&def.name().to_string()), tid, esc(&key));
                    if self.virt.insert(row.clone()) {
                        self.virt_out.push(row);
                    }
                }
            }
        }
    }

    fn inst(&mut self, i: Instance, root: bool) -> String {
        let mut key = i.mangled_name().to_string();
        if let InstanceKind::Virtual { idx } = i.kind {
            key = format!("virtual#{}#{}", idx, key);
        } else if let InstanceKind::Shim = i.kind {
            key = format!("shim#{}#{}", i.name().to_string(), key);
        }
        if !self.insts.contains_key(&key) {
            self.insts.insert(key.clone(), ());
            self.queue.push_back((i, root));
        }
        key
    }

    fn span(&mut self, s: Span) -> String {
        let f = s.get_filename().to_string();
        let l = s.get_lines();
        let n = self.file_out.len();
        let fi = *self.files.entry(f.clone()).or_insert(n);
        if fi == n {
            self.file_out.push(esc(&f));
        }
        format!("[{},{},{}]", fi, l.start_line, l.start_col)
    }

    fn place(&mut self, p: &Place) -> String {
        let pr = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", vi(*v)),
                ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
            })
            .collect::<Vec<_>>();
        format!("[{},{}]", p.local, list(pr))
    }

    fn alloc_body(&mut self, a: &Allocation) -> String {
        let bytes = a
            .bytes
            .iter()
            .map(|b| b.map(|b| format!("{:02x}", b)).unwrap_or("??".into()))
            .collect::<Vec<_>>()
            .join("");
        let prov = a
            .provenance
            .ptrs
            .iter()
            .map(|(o, p)| format!("[{},{}]", o, self.alloc(p.0)))
            .collect::<Vec<_>>();
        format!("\"b\":\"{}\",\"p\":{}", bytes, list(prov))
    }

    fn alloc(&mut self, id: AllocId) -> usize {
        if let Some(i) = self.allocs.get(&id) {
            return *i;
        }
        let i = self.alloc_out.len();
        self.allocs.insert(id, i);
        self.alloc_out.push(String::new());
        let s = match GlobalAlloc::from(id) {
            GlobalAlloc::Function(inst) => format!("{{\"k\":\"fn\",\"inst\":{}}}", esc(&self.inst(inst, false))),
            GlobalAlloc::VTable(t, tr) => {
                if let Some(b) = &tr {
                    let row = (t, b.value.def_id);
                    if !self.vt_types.contains(&row) {
                        self.vt_types.push(row);
                    }
                }
                format!("{{\"k\":\"vtable\",\"ty\":{}}}", self.ty(t))
            }
            GlobalAlloc::Static(d) => match d.eval_initializer() {
                Ok(a) => format!("{{\"k\":\"static\",\"n\":{},{}}}", esc(&d.name().to_string()), self.alloc_body(&a)),
                Err(_) => format!("{{\"k\":\"static\",\"n\":{}}}", esc(&d.name().to_string())),
            },
            GlobalAlloc::Memory(a) => format!("{{\"k\":\"mem\",{}}}", self.alloc_body(&a)),
            GlobalAlloc::TypeId { ty } => format!("{{\"k\":\"typeid\",\"ty\":{}}}", self.ty(ty)),
        };
        self.alloc_out[i] = s;
        i
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.alloc_body(a),
            ConstantKind::ZeroSized => "\"zst\":true".into(),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => format!("\"u\":{}", n),
                Err(_) => match tc.kind() {
                    TyConstKind::Value(_, a) => self.alloc_body(a),
                    TyConstKind::ZSTValue(_) => "\"zst\":true".into(),
                    _ => "\"bad\":1".into(),
                },
            },
            _ => "\"bad\":1".into(),
        };
        format!("{{\"t\":{},{}}}", t, v)
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rt\",\"{:?}\"]", r),
        }
    }

    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(m, p) => format!("[\"addr\",\"{:?}\",{}]", m, self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let kk = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, fi) => {
                        let t = d.ty_with_args(a);
                        format!(
                            "[\"adt\",{},{},{}]",
                            self.ty(t),
                            vi(*v),
                            fi.map(|f| f.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                let os: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                format!("[\"agg\",{},{}]", kk, list(os))
            }
            Rvalue::BinaryOp(b, l, r) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(l), self.op(r)),
            Rvalue::CheckedBinaryOp(b, l, r) => format!("[\"chk\",\"{:?}\",{},{}]", b, self.op(l), self.op(r)),
            Rvalue::Cast(k, o, t) => {
                let kk = match k {
                    CastKind::PointerCoercion(pc) => format!("{:?}", pc),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{}]", esc(&kk), self.op(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::Repeat(o, c) => format!(
                "[\"rep\",{},{}]",
                self.op(o),
                c.eval_target_usize().map(|n| n as i64).unwrap_or(-1)
            ),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
        }
    }

    fn body_json(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| format!("{}", self.ty(l.ty))).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                let sp = self.span(s.source_info.span);
                let j = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        if let Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::Unsize), o, t) = r {
                            if let Ok(from) = o.ty(b.locals()) {
                                self.unsized_to(from, *t);
                            }
                        }
                        format!("[\"=\",{},{},{}]", self.place(p), self.rv(r), sp)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"setd\",{},{},{}]", self.place(place), vi(*variant_index), sp)
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        format!("[\"cpno\",{},{},{},{}]", self.op(&c.src), self.op(&c.dst), self.op(&c.count), sp)
                    }
                    _ => continue,
                };
                ss.push(j);
            }
            let tsp = self.span(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = targets
                        .branches()
                        .map(|(v, t)| format!("[\"{}\",{}]", v, t))
                        .collect::<Vec<_>>();
                    format!("[\"sw\",{},{},{},{}]", self.op(discr), list(br), targets.otherwise(), tsp)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unr\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let glue = match place.ty(b.locals()) {
                        Ok(t) => {
                            let i = Instance::resolve_drop_in_place(t);
                            if i.is_empty_shim() {
                                "null".to_string()
                            } else {
                                esc(&self.inst(i, false))
                            }
                        }
                        Err(_) => "\"?\"".to_string(),
                    };
                    format!("[\"drop\",{},{},{}]", self.place(place), target, glue)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|o| self.op(o)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        self.op(func),
                        list(a),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        tsp
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds",
                        AssertMessage::Overflow(..) | AssertMessage::OverflowNeg(..) => "overflow",
                        AssertMessage::DivisionByZero(..) | AssertMessage::RemainderByZero(..) => "divzero",
                        _ => "other",
                    };
                    format!("[\"assert\",{},{},\"{}\",{},{}]", self.op(cond), expected, m, target, tsp)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("[{},{}]", list(ss), t));
        }
        let vars: Vec<String> = b
            .var_debug_info
            .iter()
            .filter_map(|v| v.local().map(|l| format!("[{},{}]", esc(&v.name.to_string()), l)))
            .collect();
        format!(
            "{{\"argc\":{},\"locals\":{},\"spread\":{},\"vars\":{},\"blocks\":{}}}",
            b.arg_locals().len(),
            list(locals),
            b.spread_arg().map(|l| l.to_string()).unwrap_or("null".into()),
            list(vars),
            list(blocks)
        )
    }

    fn drain(&mut self) {
        loop {
            let Some((i, root)) = self.queue.pop_front() else {
                self.link_virtual();
                if self.queue.is_empty() {
                    break;
                }
                continue;
            };
            let mut key = i.mangled_name().to_string();
            if let InstanceKind::Virtual { idx } = i.kind {
                key = format!("virtual#{}#{}", idx, key);
            } else if let InstanceKind::Shim = i.kind {
                key = format!("shim#{}#{}", i.name().to_string(), key);
            }
            let dname = i.def.name().to_string();
            let kr = i.def.krate().name.to_string();
            let local = kr == self.target;
            let kind = match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
                _ => "intrinsic",
            };
            let a = self.args(&i.args());
            let pname = i.name().to_string();
            let skip = !local && (stopped(&dname) || stopped(&pname) || kind == "intrinsic" || kind == "virtual");
            let sp = self.span(i.def.span());
            let body = if !skip && kind != "intrinsic" && kind != "virtual" {
                match i.body() {
                    Some(b) => self.body_json(&b),
                    None => "null".into(),
                }
            } else {
                "null".into()
            };
            let intr = i.intrinsic_name().map(|s| esc(&s.to_string())).unwrap_or("null".into());
            self.inst_out.push(format!(
                "{}:{{\"name\":{},\"def\":{},\"crate\":{},\"local\":{},\"root\":{},\"kind\":\"{}\",\"intr\":{},\"args\":{},\"span\":{},\"body\":{}}}",
                esc(&key), esc(&pname), esc(&dname), esc(&kr), local, root, kind, intr, a, sp, body
            ));
        }
    }
}

fn vi(v: VariantIdx) -> usize {
    // VariantIdx exposes its index only through Debug
    let d = format!("{:?}", v);
    d.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect::<String>().parse().expect("variant index")
}

fn analyze(tcx: rustc_middle::ty::TyCtxt<'_>, out: String) -> ControlFlow<()> {
    use rustc_public as rp;
    let krate = rp::local_crate();
    let mut cx = Cx {
        tys: HashMap::new(),
        ty_out: vec![],
        ty_queue: VecDeque::new(),
        insts: HashMap::new(),
        inst_out: vec![],
        queue: VecDeque::new(),
        allocs: HashMap::new(),
        alloc_out: vec![],
        files: HashMap::new(),
        file_out: vec![],
        trait_impls: vec![],
        virt: HashSet::new(),
        virt_out: vec![],
        virt_calls: vec![],
        vt_types: vec![],
        target: krate.name.to_string(),
    };
    let _ = &cx.ty_queue;
    let mut impl_rows = vec![];
    for im in krate.trait_impls() {
        let tr = im.trait_impl().value;
        cx.trait_impls.push((tr.def_id, tr.args().clone()));
        impl_rows.push(format!(
            "[{},{}]",
            esc(&tr.def_id.name().to_string()),
            esc(&format!("{}", tr.self_ty()))
        ));
    }
    let f32t = Ty::from_rigid_kind(RigidTy::Float(FloatTy::F32));
    let f64t = Ty::from_rigid_kind(RigidTy::Float(FloatTy::F64));
    let mut fn_rows = vec![];
    for fd in krate.fn_defs() {
        let t = fd.ty();
        let TyKind::RigidTy(RigidTy::FnDef(def, args)) = t.kind() else { continue };
        let nparams = args
            .0
            .iter()
            .filter(|a| match a {
                GenericArgKind::Type(t) => matches!(t.kind(), TyKind::Param(_)),
                GenericArgKind::Const(_) => true,
                _ => false,
            })
            .count();
        let did = rp::rustc_internal::internal(tcx, fd.def_id());
        let vis = tcx.visibility(did).is_public();
        let in_trait_decl = tcx.trait_of_assoc(did).is_some();
        let mut insts = vec![];
        if nparams == 0 {
            if let Ok(i) = Instance::resolve(def, &args) {
                insts.push(cx.inst(i, true));
            }
        } else if !in_trait_decl {
            // impls of foreign traits for the crate's generic containers (Index / IndexMut)
            let in_trait_impl = tcx.trait_impl_of_assoc(did).is_some();
            let ntypes = args.0.iter().filter(|a| matches!(a, GenericArgKind::Type(_))).count();
            if in_trait_impl && ntypes == 1 && nparams == 1 {
                for ft in [f32t, f64t] {
                    let a = GenericArgs(
                        args.0
                            .iter()
                            .map(|k| match k {
                                GenericArgKind::Type(_) => GenericArgKind::Type(ft),
                                k => k.clone(),
                            })
                            .collect(),
                    );
                    if let Ok(i) = Instance::resolve(def, &a) {
                        insts.push(cx.inst(i, true));
                    }
                }
            }
        }
        let sig = fd.fn_sig();
        let sigs = format!("{:?}", sig.value.safety);
        let ios: Vec<String> = sig.value.inputs_and_output.iter().map(|t| esc(&format!("{}", t))).collect();
        let sp = cx.span(fd.span());
        fn_rows.push(format!(
            "{{\"def\":{},\"pub\":{},\"generic\":{},\"trait_decl\":{},\"safety\":\"{}\",\"io\":{},\"insts\":{},\"span\":{}}}",
            esc(&fd.name().to_string()),
            vis,
            nparams,
            in_trait_decl,
            sigs,
            list(ios),
            list(insts.iter().map(|s| esc(s))),
            sp
        ));
    }
    cx.drain();
    // every local trait implementation: resolve all its methods so trait-object calls have targets
    // statics: can they change, and from where
    let mut statics: Vec<String> = vec![];
    for s in krate.statics() {
        let did = rp::rustc_internal::internal(tcx, s.def_id());
        let sty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
        let freeze = sty.is_freeze(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized());
        let tl = tcx.is_thread_local_static(did);
        let mutable = tcx.is_mutable_static(did);
        let sp = cx.span(s.span());
        statics.push(format!("[{},{},{},{},{}]", esc(&s.name().to_string()), mutable, freeze, tl, sp));
    }
    // ADT table: names, visibility of fields
    let mut adt_rows = vec![];
    for a in krate.adts() {
        let did = rp::rustc_internal::internal(tcx, a.def_id());
        let ad = tcx.adt_def(did);
        let mut fs = vec![];
        for f in ad.all_fields() {
            fs.push(format!("[{},{}]", esc(f.name.as_str()), f.vis.is_public()));
        }
        adt_rows.push(format!(
            "{{\"n\":{},\"pub\":{},\"f\":{}}}",
            esc(&a.name().to_string()),
            tcx.visibility(did).is_public(),
            list(fs)
        ));
    }
    cx.drain();
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"crate\":{},\"fns\":{},\"impls\":{},\"statics\":{},\"adts\":{},\"virt\":{},\"types\":{},\"allocs\":{},\"files\":{},\"insts\":{{{}}}}}",
        esc(&cx.target),
        list(fn_rows),
        list(impl_rows),
        list(statics),
        list(adt_rows),
        list(cx.virt_out.clone()),
        list(cx.ty_out.clone()),
        list(cx.alloc_out.clone()),
        list(cx.file_out.clone()),
        cx.inst_out.join(",\n")
    );
    std::fs::write(&out, o).expect("cannot write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or("mazth".into());
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let cname = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let is_target = cname.as_deref() == Some(target.as_str()) && !out.is_empty();
    if !is_target {
        struct Nop;
        impl rustc_driver::Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
        return;
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    args.push("-Coverflow-checks=on".into());
    args.push("-Awarnings".into());
    let o2 = out.clone();
    let r = rustc_public::run_with_tcx!(&args, move |tcx| analyze(tcx, o2));
    if r.is_err() {
        eprintln!("mirdump: compilation failed");
        std::process::exit(1);
    }
}
