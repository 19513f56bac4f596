//! Fact extractor: a rustc driver that writes the type-checked, monomorphic MIR of a crate of
//! /repo (and of the library functions it calls) as JSON.  It executes nothing of the analysed
//! crate; it only serialises what the compiler knows after type checking and borrow checking.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape, Scalar};
use rustc_middle::ty::TyCtxt;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: &[String]) -> String { format!("[{}]", v.join(",")) }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    ty_queue: Vec<Ty>,
    syms: HashMap<(String, String), usize>,
    sym_out: Vec<String>,
    work: Vec<(usize, Instance)>,
    poly: bool,
    locals_prefix: Vec<String>,
}

const LIB_SKIP: &[&str] = &[
    "core::fmt", "alloc::fmt", "core::panicking", "std::io", "std::panicking", "alloc::alloc", "core::str",
    "alloc::string", "alloc::str", "core::unicode", "std::sync", "std::thread", "std::collections", "alloc::collections",
    "hashbrown", "core::slice::sort", "std::sys", "std::env", "std::path", "std::fs", "std::time", "core::time",
    "core::char", "core::alloc", "std::hash", "core::hash", "core::num::flt2dec", "core::num::dec2flt", "core::task",
    "core::future", "core::error", "std::error", "core::num::fmt", "core::core_arch", "core::ascii", "core::escape",
    "alloc::raw_vec", "core::num::libm", "std::rt", "std::process", "std::ffi", "core::ffi", "core::sync", "alloc::sync",
    "core::f32", "core::f64", "std::backtrace", "core::async_iter", "core::net", "core::random",
];
const LIB_TAKE: &[&str] = &["core::", "alloc::", "std::"];

fn root_crate(def: &str) -> &str {
    let d = def.trim_start_matches(|c| c == '<' || c == '&' || c == '[' || c == '(');
    d
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        self.ty_queue.push(t);
        i
    }
    fn drain_tys(&mut self) {
        while let Some(t) = self.ty_queue.pop() {
            let i = self.tys[&t];
            let s = self.ty_desc(t);
            self.ty_out[i] = s;
        }
    }
    fn tyconst(&self, c: &TyConst) -> String {
        match c.eval_target_usize() { Ok(n) => n.to_string(), Err(_) => "null".into() }
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(match c.kind() {
                    TyConstKind::Value(_, al) => match al.read_uint() { Ok(n) => format!("[\"c\",{n}]"), Err(_) => "[\"c\",null]".into() },
                    _ => "[\"c\",null]".into() }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(&v)
    }
    fn ty_desc(&mut self, t: Ty) -> String {
        let s = esc(&t.to_string());
        let TyKind::RigidTy(r) = t.kind() else { return format!("{{\"k\":\"other\",\"s\":{s}}}") };
        match r {
            RigidTy::Bool => format!("{{\"k\":\"bool\",\"s\":{s}}}"),
            RigidTy::Char => format!("{{\"k\":\"char\",\"s\":{s}}}"),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"w\":{},\"s\":{s}}}", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"w\":{},\"s\":{s}}}", i.num_bytes() * 8),
            RigidTy::Float(_) => format!("{{\"k\":\"float\",\"s\":{s}}}"),
            RigidTy::Never => format!("{{\"k\":\"never\",\"s\":{s}}}"),
            RigidTy::Str => format!("{{\"k\":\"str\",\"s\":{s}}}"),
            RigidTy::Array(e, n) => { let n = self.tyconst(&n); format!("{{\"k\":\"array\",\"e\":{},\"n\":{n},\"s\":{s}}}", self.ty(e)) }
            RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{},\"s\":{s}}}", self.ty(e)),
            RigidTy::Ref(_, e, m) => format!("{{\"k\":\"ref\",\"m\":{},\"e\":{},\"s\":{s}}}", (m == Mutability::Mut) as u8, self.ty(e)),
            RigidTy::RawPtr(e, m) => format!("{{\"k\":\"ptr\",\"m\":{},\"e\":{},\"s\":{s}}}", (m == Mutability::Mut) as u8, self.ty(e)),
            RigidTy::Tuple(es) => { let v: Vec<_> = es.iter().map(|e| self.ty(*e).to_string()).collect(); format!("{{\"k\":\"tuple\",\"f\":{},\"s\":{s}}}", arr(&v)) }
            RigidTy::FnDef(d, a) => {
                let def = esc(&d.name());
                let ga = self.gargs(&a);
                let sym = if self.poly { None } else { Instance::resolve(d, &a).ok() };
                let sy = match sym { Some(i) => self.sym(i).to_string(), None => "null".into() };
                format!("{{\"k\":\"fndef\",\"def\":{def},\"a\":{ga},\"sym\":{sy},\"s\":{s}}}")
            }
            RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"s\":{s}}}"),
            RigidTy::Closure(d, a) => {
                let def = esc(&d.name());
                let sy = if self.poly { "null".into() } else {
                    match Instance::resolve_closure(d, &a, ClosureKind::FnMut).or_else(|_| Instance::resolve_closure(d, &a, ClosureKind::FnOnce)) {
                        Ok(i) => self.sym(i).to_string(), Err(_) => "null".into() } };
                // upvar tuple is the last generic arg of a closure
                let up = match a.0.last() { Some(GenericArgKind::Type(t)) => self.ty(*t).to_string(), _ => "null".into() };
                format!("{{\"k\":\"closure\",\"def\":{def},\"sym\":{sy},\"up\":{up},\"s\":{s}}}")
            }
            RigidTy::Dynamic(p, _) => {
                let mut n = String::new();
                for b in &p { if let ExistentialPredicate::Trait(t) = &b.value { n = t.def_id.name(); } }
                format!("{{\"k\":\"dyn\",\"tr\":{},\"s\":{s}}}", esc(&n))
            }
            RigidTy::Adt(def, args) => {
                let mut vs = vec![];
                let k = match def.kind() { AdtKind::Struct => "struct", AdtKind::Enum => "enum", AdtKind::Union => "union" };
                for v in def.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&args);
                        fs.push(format!("[{},{}]", esc(&f.name), self.ty(ft)));
                    }
                    let d = if k == "enum" { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                    vs.push(format!("[{},{},{}]", esc(&v.name()), d, arr(&fs)));
                }
                let ga = self.gargs(&args);
                format!("{{\"k\":\"{k}\",\"def\":{},\"a\":{ga},\"v\":{},\"s\":{s}}}", esc(&def.name()), arr(&vs))
            }
            _ => format!("{{\"k\":\"other\",\"s\":{s}}}"),
        }
    }
    fn wanted(&self, inst: &Instance, def: &str) -> bool {
        if inst.kind == InstanceKind::Intrinsic || matches!(inst.kind, InstanceKind::Virtual { .. }) { return false; }
        let krate = inst.def.krate().name;
        if self.locals_prefix.iter().any(|p| p == &krate) { return true; }
        if !matches!(krate.as_str(), "core" | "alloc" | "std") { return false; }
        let d = root_crate(def);
        if LIB_SKIP.iter().any(|p| d.starts_with(p)) { return false; }
        LIB_TAKE.iter().any(|p| d.starts_with(p)) || !d.contains("::") || d.len() - d.trim_start_matches(|c: char| c.is_alphanumeric() || c == '_').len() <= 1
    }
    fn sym(&mut self, i: Instance) -> usize {
        let m = i.mangled_name();
        let kind = match i.kind { InstanceKind::Item => "item".to_string(), InstanceKind::Intrinsic => "intrinsic".into(),
            InstanceKind::LlvmIntrinsic => "llvm".into(), InstanceKind::Virtual { idx } => format!("virtual{idx}"), InstanceKind::Shim => "shim".into() };
        let name = i.name();
        let key = (m.clone(), format!("{kind}{name}"));
        if let Some(x) = self.syms.get(&key) { return *x; }
        let x = self.sym_out.len();
        self.syms.insert(key, x);
        self.sym_out.push(String::new());
        let def = i.def.name();
        let krate = i.def.krate().name;
        let args = self.gargs(&i.args());
        let intr = i.intrinsic_name().map(|s| esc(&s)).unwrap_or("null".into());
        let empty = i.is_empty_shim();
        self.sym_out[x] = format!("{{\"sym\":{},\"kind\":\"{kind}\",\"name\":{},\"def\":{},\"crate\":{},\"args\":{args},\"intr\":{intr},\"es\":{}}}",
            esc(&m), esc(&name), esc(&def), esc(&krate), empty as u8);
        if !empty && self.wanted(&i, &def) { self.work.push((x, i)); }
        x
    }
    fn uint(bytes: &[Option<u8>], off: usize, n: usize) -> Option<u128> {
        let mut v = 0u128;
        for k in (0..n).rev() { v = (v << 8) | (*bytes.get(off + k)?)? as u128; }
        Some(v)
    }
    fn decode(&mut self, al: &Allocation, t: Ty, off: usize, depth: usize) -> Option<String> {
        if depth > 12 { return None; }
        let TyKind::RigidTy(r) = t.kind() else { return None };
        match r {
            RigidTy::Bool => Some(Self::uint(&al.bytes, off, 1)?.to_string()),
            RigidTy::Char => Some(Self::uint(&al.bytes, off, 4)?.to_string()),
            RigidTy::Uint(u) => Some(Self::uint(&al.bytes, off, u.num_bytes())?.to_string()),
            RigidTy::Int(u) => {
                let n = u.num_bytes();
                let v = Self::uint(&al.bytes, off, n)?;
                let sh = 128 - n * 8;
                Some((((v << sh) as i128) >> sh).to_string())
            }
            RigidTy::Float(f) => { let n = match f { FloatTy::F16 => 2, FloatTy::F32 => 4, FloatTy::F64 => 8, FloatTy::F128 => 16 };
                Some(format!("[\"f\",{}]", Self::uint(&al.bytes, off, n)?)) }
            RigidTy::FnDef(..) => Some("[\"z\"]".into()),
            RigidTy::Closure(..) => if t.layout().ok()?.shape().size.bytes() == 0 { Some("[\"z\"]".into()) } else { None },
            RigidTy::Tuple(es) => {
                let sh = t.layout().ok()?.shape();
                let offs = match sh.fields { FieldsShape::Arbitrary { offsets } => offsets, _ => if es.is_empty() { vec![] } else { return None } };
                let mut v = vec![];
                for (k, e) in es.iter().enumerate() { v.push(self.decode(al, *e, off + offs[k].bytes(), depth + 1)?); }
                Some(format!("[\"t\",{}]", arr(&v)))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().ok()? as usize;
                if n > 4096 { return None; }
                let sz = e.layout().ok()?.shape().size.bytes();
                let mut v = vec![];
                for k in 0..n { v.push(self.decode(al, e, off + k * sz, depth + 1)?); }
                Some(format!("[\"t\",{}]", arr(&v)))
            }
            RigidTy::FnPtr(_) => {
                let (_, p) = al.provenance.ptrs.iter().find(|(o, _)| *o == off)?;
                match GlobalAlloc::from(p.0) { GlobalAlloc::Function(i) => Some(format!("[\"fn\",{}]", self.sym(i))), _ => None }
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let (_, p) = al.provenance.ptrs.iter().find(|(o, _)| *o == off)?;
                let a2 = match GlobalAlloc::from(p.0) { GlobalAlloc::Memory(a) => a,
                    GlobalAlloc::Static(s) => return Some(format!("[\"static\",{}]", esc(&s.name()))), _ => return None };
                let o2 = Self::uint(&al.bytes, off, 8)? as usize;
                match e.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let n = Self::uint(&al.bytes, off + 8, 8)? as usize;
                        let b: Option<Vec<u8>> = a2.bytes.get(o2..o2 + n)?.iter().copied().collect();
                        Some(format!("[\"s\",{}]", esc(&String::from_utf8_lossy(&b?))))
                    }
                    TyKind::RigidTy(RigidTy::Slice(el)) => {
                        let n = Self::uint(&al.bytes, off + 8, 8)? as usize;
                        if n > 4096 { return None; }
                        let sz = el.layout().ok()?.shape().size.bytes();
                        let mut v = vec![];
                        for k in 0..n { v.push(self.decode(&a2, el, o2 + k * sz, depth + 1)?); }
                        Some(format!("[\"r\",[\"t\",{}]]", arr(&v)))
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => None,
                    _ => { let v = self.decode(&a2, e, o2, depth + 1)?; Some(format!("[\"r\",{v}]")) }
                }
            }
            RigidTy::Adt(def, args) => {
                if def.kind() == AdtKind::Union { return None; }
                let sh = t.layout().ok()?.shape();
                match &sh.variants {
                    VariantsShape::Empty => None,
                    VariantsShape::Single { index } => {
                        let vd = def.variant(*index)?;
                        let offs: Vec<_> = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.clone(), _ => return None };
                        let mut v = vec![];
                        for (k, f) in vd.fields().iter().enumerate() { v.push(self.decode(al, f.ty_with_args(&args), off + offs[k].bytes(), depth + 1)?); }
                        Some(format!("[\"a\",{},{}]", index.to_index(), arr(&v)))
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let to = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => return None };
                        let prim = match tag { Scalar::Initialized { value, .. } | Scalar::Union { value } => value };
                        let n = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                        let is_ptr_prov = al.provenance.ptrs.iter().any(|(o, _)| *o == off + to);
                        let raw = Self::uint(&al.bytes, off + to, n)?;
                        let mask = if n >= 16 { u128::MAX } else { (1u128 << (n * 8)) - 1 };
                        let idx = match tag_encoding {
                            TagEncoding::Direct => def.variants().iter().find(|v| (def.discriminant_for_variant(v.idx()).val & mask) == raw)?.idx().to_index(),
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if is_ptr_prov { untagged_variant.to_index() } else {
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    let lo = niche_variants.start().to_index();
                                    let hi = niche_variants.end().to_index();
                                    if rel <= (hi - lo) as u128 { lo + rel as usize } else { untagged_variant.to_index() }
                                }
                            }
                        };
                        let vd = def.variants().into_iter().find(|v| v.idx().to_index() == idx)?;
                        let offs = &variants[idx].offsets;
                        let mut v = vec![];
                        for (k, f) in vd.fields().iter().enumerate() { v.push(self.decode(al, f.ty_with_args(&args), off + offs[k].bytes(), depth + 1)?); }
                        Some(format!("[\"a\",{},{}]", idx, arr(&v)))
                    }
                }
            }
            _ => None,
        }
    }
    fn konst(&mut self, c: &ConstOperand) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let v = match c.const_.kind() {
            ConstantKind::ZeroSized => "[\"z\"]".to_string(),
            ConstantKind::Allocated(al) => {
                // scalar pairs for wide refs are laid out at offset 0
                self.decode(al, t, 0, 0).unwrap_or("[\"?\"]".into())
            }
            ConstantKind::Param(p) => format!("[\"param\",{}]", esc(&p.name)),
            ConstantKind::Unevaluated(u) => format!("[\"unev\",{}]", esc(&u.def.name())),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t2, al) => { let (t2, al) = (*t2, al.clone()); self.decode(&al, t2, 0, 0).unwrap_or("[\"?\"]".into()) }
                TyConstKind::ZSTValue(_) => "[\"z\"]".into(),
                TyConstKind::Param(p) => format!("[\"param\",{}]", esc(&p.name)),
                _ => "[\"?\"]".into() },
        };
        format!("[\"k\",{ti},{v}]")
    }
    fn place(&mut self, p: &Place) -> String {
        if p.projection.is_empty() { return p.local.to_string(); }
        let mut v = vec![p.local.to_string()];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(i, t) => format!("[\".\",{i},{}]", self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{offset},{min_length},{}]", *from_end as u8),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{from},{to},{}]", *from_end as u8),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            });
        }
        arr(&v)
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{r:?}\"]"),
        }
    }
    fn ops(&mut self, o: &[Operand]) -> String { let v: Vec<_> = o.iter().map(|x| self.op(x)).collect(); arr(&v) }
    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(m, p) => format!("[\"addr\",{},{}]", (m.to_mutable_lossy() == Mutability::Mut) as u8, self.place(p)),
            Rvalue::Aggregate(k, o) => {
                let o = self.ops(o);
                match k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},0,{o}]", self.ty(*t)),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,0,{o}]"),
                    AggregateKind::Adt(d, v, a, _, f) => { let t = d.ty_with_args(a); let ti = self.ty(t);
                        if let Some(f) = f { format!("[\"agg\",\"union\",{ti},{f},{o}]") } else { format!("[\"agg\",\"adt\",{ti},{},{o}]", v.to_index()) } }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(*d, a.clone()); format!("[\"agg\",\"closure\",{},0,{o}]", self.ty(t)) }
                    AggregateKind::RawPtr(t, _) => format!("[\"agg\",\"rawptr\",{},0,{o}]", self.ty(*t)),
                    _ => format!("[\"agg\",\"other\",null,0,{o}]"),
                }
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{b:?}\",{},{}]", self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{b:?}\",{},{}]", self.op(x), self.op(y)),
            Rvalue::Cast(k, o, t) => { let ks = esc(&format!("{k:?}")); format!("[\"cast\",{ks},{},{}]", self.op(o), self.ty(*t)) }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, b, p) => format!("[\"ref\",{},{}]", (b.to_mutable_lossy() == Mutability::Mut) as u8, self.place(p)),
            Rvalue::Repeat(o, c) => { let n = self.tyconst(c); format!("[\"repeat\",{},{n}]", self.op(o)) }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{u:?}\",{}]", self.op(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", (*m == Mutability::Mut) as u8, self.place(p)),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locs: Vec<_> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value { names.push(format!("[{},{}]", esc(&v.name), self.place(p))); }
        }
        let mut bl = vec![];
        for blk in &b.blocks {
            let mut st = vec![];
            for s in &blk.statements {
                let ln = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => { let p = self.place(p); let r = self.rv(r); st.push(format!("[{ln},\"=\",{p},{r}]")) }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!("[{ln},\"sd\",{},{}]", self.place(place), variant_index.to_index())),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) =>
                        st.push(format!("[{ln},\"cno\",{},{},{}]", self.op(&c.src), self.op(&c.dst), self.op(&c.count))),
                    _ => {}
                }
            }
            let t = &blk.terminator;
            let ln = t.source_info.span.get_lines().start_line;
            let unw = |u: &UnwindAction| match u { UnwindAction::Cleanup(x) => x.to_string(), _ => "null".into() };
            let ts = match &t.kind {
                TerminatorKind::Goto { target } => format!("[{ln},\"goto\",{target}]"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr);
                    let v: Vec<_> = targets.branches().map(|(a, b)| format!("[{a},{b}]")).collect();
                    format!("[{ln},\"sw\",{d},{},{}]", arr(&v), targets.otherwise())
                }
                TerminatorKind::Resume => format!("[{ln},\"resume\"]"),
                TerminatorKind::Abort => format!("[{ln},\"abort\"]"),
                TerminatorKind::Return => format!("[{ln},\"ret\"]"),
                TerminatorKind::Unreachable => format!("[{ln},\"unreach\"]"),
                TerminatorKind::Drop { place, target, unwind } => {
                    let pt = place.ty(b.locals()).ok();
                    let (ti, sy) = match pt { Some(t) => (self.ty(t).to_string(), if self.poly { "null".into() } else { let i = Instance::resolve_drop_in_place(t); if i.is_empty_shim() { "-1".into() } else { self.sym(i).to_string() } }), None => ("null".into(), "null".into()) };
                    format!("[{ln},\"drop\",{},{target},{},{ti},{sy}]", self.place(place), unw(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let f = self.op(func);
                    let callee = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                                let r = if self.poly { None } else { Instance::resolve(d, &a).ok() };
                                let r = r.map(|i| self.sym(i).to_string()).unwrap_or("null".into());
                                let ga = self.gargs(&a);
                                format!("[{},{r},{ga}]", esc(&d.name()))
                            }
                            _ => "null".into(),
                        },
                        _ => "null".into(),
                    };
                    let a = self.ops(args);
                    let d = self.place(destination);
                    let tg = target.map(|x| x.to_string()).unwrap_or("null".into());
                    format!("[{ln},\"call\",{callee},{a},{d},{tg},{},{f}]", unw(unwind))
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.op(len), self.op(index)),
                        AssertMessage::Overflow(b, x, y) => format!("[\"ovf\",\"{b:?}\",{},{}]", self.op(x), self.op(y)),
                        AssertMessage::OverflowNeg(x) => format!("[\"ovfneg\",{}]", self.op(x)),
                        AssertMessage::DivisionByZero(x) => format!("[\"div0\",{}]", self.op(x)),
                        AssertMessage::RemainderByZero(x) => format!("[\"rem0\",{}]", self.op(x)),
                        _ => "[\"other\"]".into(),
                    };
                    format!("[{ln},\"assert\",{},{},{m},{target},{}]", self.op(cond), *expected as u8, unw(unwind))
                }
                TerminatorKind::InlineAsm { destination, .. } => format!("[{ln},\"asm\",{}]", destination.map(|x| x.to_string()).unwrap_or("null".into())),
            };
            bl.push(format!("[{},{}]", arr(&st), ts));
        }
        let file = b.span.get_filename().to_string();
        let line = b.span.get_lines().start_line;
        format!("\"file\":{},\"line\":{line},\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":{}",
            esc(&file), b.arg_locals().len(), b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), arr(&locs), arr(&names), arr(&bl))
    }
}

fn extract(tcx: TyCtxt<'_>) {
    let Ok(dir) = std::env::var("TWFACTS_DIR") else { return };
    let krate = rustc_public::local_crate().name.to_string();
    let want: Vec<String> = std::env::var("TWFACTS_CRATES").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    if !want.iter().any(|w| *w == krate) { return; }
    let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], ty_queue: vec![], syms: HashMap::new(), sym_out: vec![], work: vec![], poly: false, locals_prefix: want };
    let mut bodies: Vec<String> = vec![];
    let items = rustc_public::all_local_items();
    let mut vis = vec![];
    let mut generic = vec![];
    let mut roots = vec![];
    let ev = tcx.effective_visibilities(());
    for it in &items {
        if !matches!(it.kind(), rustc_public::ItemKind::Fn | rustc_public::ItemKind::Ctor(_)) { continue; }
        let did = rustc_internal::internal(tcx, it.def_id());
        let exported = did.as_local().map(|d| ev.is_reachable(d)).unwrap_or(false);
        let is_unsafe = matches!(tcx.def_kind(did), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) && tcx.fn_sig(did).skip_binder().safety().is_unsafe();
        vis.push(format!("{}:[{},{}]", esc(&it.name()), exported as u8, is_unsafe as u8));
        if it.requires_monomorphization() { generic.push(*it); continue; }
        if let Ok(i) = Instance::try_from(*it) { let s = cx.sym(i); roots.push(s.to_string()); }
    }
    // provided methods of this crate's traits, for every concrete implementor (reached through trait objects)
    for im in tcx.trait_impls_in_crate(rustc_hir::def_id::LOCAL_CRATE) {
        let im = *im;
        if tcx.generics_of(im).requires_monomorphization(tcx) { continue; }
        let tref = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
        if !tref.def_id.is_local() { continue; }
        for it in tcx.associated_items(tref.def_id).in_definition_order() {
            if !matches!(tcx.def_kind(it.def_id), rustc_hir::def::DefKind::AssocFn) { continue; }
            if tcx.generics_of(it.def_id).own_requires_monomorphization() { continue; }
            let args = rustc_middle::ty::GenericArgs::for_item(tcx, it.def_id, |p, _| {
                if (p.index as usize) < tref.args.len() { tref.args[p.index as usize] } else { tcx.lifetimes.re_erased.into() }
            });
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = rustc_middle::ty::Instance::try_resolve(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized(), it.def_id, args) {
                let i: Instance = rustc_internal::stable(i);
                let s = cx.sym(i); roots.push(s.to_string());
            }
        }
    }
    let mut done = std::collections::HashSet::new();
    let mut inst_defs = std::collections::HashSet::new();
    loop {
        while let Some((x, i)) = cx.work.pop() {
            if !done.insert(x) { continue; }
            inst_defs.insert(i.def.name());
            if i.kind == InstanceKind::Item && !i.has_body() { continue; }
            let Some(b) = i.body() else { continue };
            let s = cx.body(&b);
            bodies.push(format!("\"{x}\":{{{s}}}"));
        }
        cx.drain_tys();
        if cx.work.is_empty() { break; }
    }
    // polymorphic bodies of generic functions that nothing in this crate instantiates
    cx.poly = true;
    let mut poly = vec![];
    for it in generic {
        if inst_defs.contains(&it.name()) { continue; }
        if let Some(b) = it.body() {
            let s = cx.body(&b);
            poly.push(format!("{{\"def\":{},{s}}}", esc(&it.name())));
        }
    }
    cx.drain_tys();
    // ADTs and trait impls
    let mut impls = vec![];
    for im in rustc_public::local_crate().trait_impls() {
        let tr = im.trait_impl();
        let tref = &tr.value;
        let sty = cx.ty(tref.self_ty());
        impls.push(format!("[{},{},{}]", esc(&tref.def_id.name()), sty, esc(&im.name())));
    }
    cx.drain_tys();
    let bin = tcx.entry_fn(()).is_some();
    let mut out = String::new();
    let _ = write!(out, "{{\"crate\":{},\"types\":[{}],\"syms\":[{}],\"roots\":[{}],\"vis\":{{{}}},\"bodies\":{{{}}},\"poly\":[{}],\"impls\":[{}]}}",
        esc(&krate), cx.ty_out.join(","), cx.sym_out.join(","), roots.join(","), vis.join(","), bodies.join(",\n"), poly.join(",\n"), impls.join(","));
    let krate = if bin { format!("{krate}-bin") } else { krate };
    let tmp = format!("{dir}/{krate}.json.tmp{}", std::process::id());
    std::fs::write(&tmp, out).unwrap();
    std::fs::rename(&tmp, format!("{dir}/{krate}.json")).unwrap();
    let _ = cx.tcx;
}


struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let _ = rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(rustc_internal::run(tcx, || extract(tcx))));
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
