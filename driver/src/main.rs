//! rustc_private driver: dumps the monomorphised MIR of the crate being compiled as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...].
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;

use rustc_middle::ty::TyCtxt;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Ctx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    insts: HashMap<Instance, usize>,
    dropped: HashSet<Ty>,
    inst_out: Vec<String>,
    queue: VecDeque<(usize, Instance)>,
    crate_name: String,
}

// std bodies that are simple enough to be analysed like local code
const STD_INLINE: &[&str] = &[
    "core::option::", "core::result::", "core::cmp::", "core::mem::replace", "core::mem::swap", "core::mem::take",
    "core::bool::", "core::ops::", "core::convert::", "core::num::", "core::f32::", "core::tuple::",
    "std::option::", "std::result::", "std::cmp::", "std::mem::replace", "std::mem::swap", "std::mem::take",
    "std::ops::", "std::convert::", "std::f32::", "core::array::", "std::array::", "core::default::", "std::default::",
    "core::clone::", "std::clone::",
];

impl<'tcx> Ctx<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tys.get(&t) { return i; }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = self.ty_json(t);
        self.ty_out[i] = s;
        i
    }

    /// the `Drop::drop` of a dropped value and of what it owns, so that their bodies are analysed too
    fn destructor(&mut self, t: Ty) {
        if !self.dropped.insert(t) { return; }
        if let TyKind::RigidTy(RigidTy::Adt(d, args)) = t.kind() {
            let id = rustc_internal::internal(self.tcx, d.def_id());
            let own = id.is_local() || self.tcx.crate_name(id.krate).as_str() == "bitboost";
            if !own { return; }
            if let Some(x) = self.tcx.adt_destructor(id) {
                let f = rustc_internal::stable(self.tcx.type_of(x.did).instantiate_identity().skip_norm_wip());
                if let TyKind::RigidTy(RigidTy::FnDef(f, _)) = f.kind() {
                    if let Ok(i) = Instance::resolve(f, &args) { self.inst(i); }
                }
            }
            for v in d.variants() { for f in v.fields() { self.destructor(f.ty_with_args(&args)); } }
        }
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = Vec::new();
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => format!("[\"const\",{}]", n),
                    Err(_) => format!("[\"const\",{}]", esc(&format!("{:?}", c))),
                }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let name = esc(&format!("{}", t));
        let k = t.kind();
        let r = match k.rigid() { Some(r) => r.clone(), None => return format!("{{\"k\":\"param\",\"s\":{}}}", name) };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\",\"s\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\",\"s\":\"char\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"bits\":{},\"s\":{}}}", i.num_bytes() * 8, name),
            RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"bits\":{},\"s\":{}}}", i.num_bytes() * 8, name),
            RigidTy::Float(_) => format!("{{\"k\":\"float\",\"s\":{}}}", name),
            RigidTy::Adt(def, args) => {
                let kind = match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                let local = def.krate().is_local || def.krate().name == "bitboost";
                let mut vs = Vec::new();
                let dname = if local && !def.krate().is_local { rustc_middle::ty::print::with_no_visible_paths!(def.name().to_string()) } else { def.name().to_string() };
                let small_std = ["Option", "Result", "Range", "Ordering", "ControlFlow", "Wrapping", "ops::", "SwitchTargets"].iter().any(|x| dname.contains(x));
                if local || small_std || def.is_simd() {
                    for v in def.variants() {
                        let mut fs = Vec::new();
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            fs.push(format!("[{},{}]", esc(&f.name.to_string()), self.ty(ft)));
                        }
                        let d = if def.kind() == AdtKind::Enum { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(&v.name().to_string()), d, fs.join(",")));
                    }
                }
                let a = self.args(&args);
                let mut extra = String::new();
                if local {
                    let ity = rustc_internal::internal(self.tcx, t);
                    let li = self.tcx.lang_items();
                    for (key, f) in [("next", li.next_fn()), ("into_iter", li.into_iter_fn())] {
                        let Some(f) = f else { continue };
                        let Some(trt) = self.tcx.trait_of_assoc(f) else { continue };
                        if self.tcx.non_blanket_impls_for_ty(trt, ity).next().is_none() { continue; }
                        let ga = self.tcx.mk_args(&[ity.into()]);
                        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
                        if let Ok(Some(inst)) = rustc_middle::ty::Instance::try_resolve(self.tcx, env, f, ga) {
                            if !rustc_middle::ty::TypeVisitableExt::has_param(&ity) {
                                let si = rustc_internal::stable(inst);
                                let id = self.inst(si);
                                extra.push_str(&format!(",\"{}\":{}", key, id));
                            }
                        }
                    }
                }
                let layout = match t.layout() { Ok(l) => l.shape().size.bytes() as i64, Err(_) => -1 };
                format!("{{\"k\":\"adt\",\"kind\":\"{}\",\"name\":{},\"local\":{},\"args\":{},\"variants\":[{}],\"nv\":{},\"simd\":{},\"size\":{},\"s\":{}{}}}",
                    kind, esc(&dname), local, a, vs.join(","), def.num_variants(), def.is_simd(), layout, name, extra)
            }
            RigidTy::Str => "{\"k\":\"str\",\"s\":\"str\"}".into(),
            RigidTy::Array(e, n) => {
                let nn = match n.eval_target_usize() { Ok(n) => n.to_string(), Err(_) => "null".into() };
                format!("{{\"k\":\"array\",\"e\":{},\"n\":{},\"s\":{}}}", self.ty(e), nn, name)
            }
            RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{},\"s\":{}}}", self.ty(e), name),
            RigidTy::RawPtr(e, m) => format!("{{\"k\":\"ptr\",\"e\":{},\"m\":{},\"s\":{}}}", self.ty(e), m == Mutability::Mut, name),
            RigidTy::Ref(_, e, m) => format!("{{\"k\":\"ref\",\"e\":{},\"m\":{},\"s\":{}}}", self.ty(e), m == Mutability::Mut, name),
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(*x).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"f\":[{}],\"s\":{}}}", v.join(","), name)
            }
            RigidTy::Closure(def, args) => {
                let inst = Instance::resolve_closure(def, &args, ClosureKind::FnOnce).ok();
                let inst2 = Instance::resolve_closure(def, &args, ClosureKind::FnMut).ok();
                let inst3 = Instance::resolve_closure(def, &args, ClosureKind::Fn).ok();
                // prefer the real body over the by-value shim
                let mut id = None;
                for i in [inst3, inst2, inst] {
                    if let Some(i) = i { if i.kind != InstanceKind::Shim && i.has_body() { id = Some(self.inst(i)); break; } }
                }
                format!("{{\"k\":\"closure\",\"name\":{},\"body\":{},\"s\":{}}}", esc(&def.name().to_string()),
                    id.map_or("null".into(), |x| x.to_string()), name)
            }
            RigidTy::FnDef(def, args) => {
                let id = Instance::resolve(def, &args).ok().map(|i| self.inst(i));
                format!("{{\"k\":\"fndef\",\"name\":{},\"inst\":{},\"s\":{}}}", esc(&def.name().to_string()),
                    id.map_or("null".into(), |x| x.to_string()), name)
            }
            RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", name),
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", name),
            RigidTy::Never => format!("{{\"k\":\"never\",\"s\":{}}}", name),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", name),
        }
    }

    fn inst(&mut self, i: Instance) -> usize {
        let key = i;
        if let Some(&n) = self.insts.get(&key) { return n; }
        let n = self.inst_out.len();
        self.insts.insert(key, n);
        self.inst_out.push(String::new());
        let def_id = i.def.def_id();
        let krate = i.def.krate();
        let idef = rustc_internal::internal(self.tcx, def_id);
        let vis = match self.tcx.def_kind(idef) {
            rustc_hir::def::DefKind::Closure => "closure".to_string(),
            rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn =>
                if self.tcx.visibility(idef).is_public() { "pub".to_string() } else { "priv".to_string() },
            _ => "other".to_string(),
        };
        let dname = if !idef.is_local() && self.tcx.crate_name(idef.krate).as_str() == "bitboost" {
            // the path of the definition, not of a re-export; the standard library's as usual
            let mut n = rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(idef));
            for b in [" ", "<", "&", "(", "["] { for l in ["core", "alloc"] { n = n.replace(&format!("{b}{l}::"), &format!("{b}std::")); } }
            n
        } else { self.tcx.def_path_str(idef) };
        let kind = match i.kind {
            InstanceKind::Item => "item", InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic",
            InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim",
        };
        let mut tr = String::from("null");
        let mut safety = "null".to_string();
        let mut extc = false;
        let dk = self.tcx.def_kind(idef);
        if matches!(dk, rustc_hir::def::DefKind::AssocFn) {
            if let Some(imp) = self.tcx.impl_of_assoc(idef) {
                if let Some(t) = self.tcx.impl_opt_trait_ref(imp) {
                    let t = t.skip_binder();
                    tr = esc(&self.tcx.def_path_str(t.def_id));
                }
            } else if let Some(t) = self.tcx.trait_of_assoc(idef) {
                tr = esc(&self.tcx.def_path_str(t));
            }
        }
        if matches!(dk, rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) {
            let sig = self.tcx.fn_sig(idef).skip_binder();
            safety = if sig.safety().is_safe() { "\"safe\"".into() } else { "\"unsafe\"".into() };
            extc = format!("{:?}", sig.abi()).contains("C");
        }
        let exported = idef.as_local().map_or(false, |l| self.tcx.codegen_fn_attrs(l).contains_extern_indicator());
        let item_name = match dk { rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn => self.tcx.item_name(idef).to_string(), _ => String::new() };
        let local = krate.is_local || krate.name == "bitboost";
        let inl = local || STD_INLINE.iter().any(|p| dname.trim_start_matches('<').starts_with(p));
        let has_body = kind != "virtual" && kind != "intrinsic" && i.has_body();
        let a = self.args(&i.args());
        let want = has_body && (local || (inl && matches!(i.kind, InstanceKind::Item)));
        let crate_n = krate.name.to_string();
        let iname = i.name().to_string();
        let intrinsic = i.intrinsic_name().map_or("null".to_string(), |s| esc(&s.to_string()));
        self.inst_out[n] = format!(
            "{{\"def\":{},\"name\":{},\"item\":{},\"crate\":{},\"local\":{},\"kind\":\"{}\",\"vis\":\"{}\",\"args\":{},\"trait\":{},\"body\":{},\"has_body\":{},\"intrinsic\":{},\"safety\":{},\"extern_c\":{},\"exported\":{}}}",
            esc(&dname), esc(&iname), esc(&item_name), esc(&crate_n), local, kind, vis, a, tr, want, has_body, intrinsic, safety, extc, exported);
        if want { self.queue.push_back((n, i)); }
        n
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = Vec::new();
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", rustc_internal::internal(self.tcx, *v).as_usize()),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }

    fn alloc(&mut self, a: &Allocation, t: Ty, depth: usize) -> String {
        let tk = t.kind();
        let ti = self.ty(t);
        // references: follow provenance
        if let Some(rig) = tk.rigid() {
            if let RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) = rig {
                if let Some((off, prov)) = a.provenance.ptrs.first() {
                    if *off == 0 {
                        let ga = GlobalAlloc::from(prov.0);
                        match ga {
                            GlobalAlloc::Memory(m) => {
                                if inner.kind().is_str() || inner.kind().is_slice() {
                                    let len = a.read_partial_uint(8..16).unwrap_or(0) as usize;
                                    let start = a.read_partial_uint(0..8).unwrap_or(0) as usize;
                                    let bytes: Vec<u8> = m.bytes.iter().skip(start).take(len).map(|b| b.unwrap_or(0)).collect();
                                    if inner.kind().is_str() {
                                        return format!("{{\"t\":{},\"str\":{}}}", ti, esc(&String::from_utf8_lossy(&bytes)));
                                    }
                                    let et = match inner.kind().rigid() { Some(RigidTy::Slice(e)) => Some(*e), _ => None };
                                    if let Some(e) = et {
                                        if let Ok(l) = e.layout() {
                                            let sz = l.shape().size.bytes();
                                            if sz > 0 && len <= 64 && depth < 3 {
                                                let mut xs = Vec::new();
                                                for i in 0..len {
                                                    let o = start + i * sz;
                                                    let sub = Allocation { bytes: m.bytes[o..o + sz].to_vec(), provenance: ProvenanceMap { ptrs: m.provenance.ptrs.iter().filter(|(p, _)| *p >= o && *p < o + sz).map(|(p, q)| (*p - o, *q)).collect() }, align: m.align, mutability: m.mutability };
                                                    xs.push(self.alloc(&sub, e, depth + 1));
                                                }
                                                return format!("{{\"t\":{},\"refslice\":[{}]}}", ti, xs.join(","));
                                            }
                                        }
                                    }
                                    return format!("{{\"t\":{},\"opaque\":{}}}", ti, esc(&format!("{:?}", bytes)));
                                }
                                if depth < 3 {
                                    let start = a.read_partial_uint(0..8).unwrap_or(0) as usize;
                                    if start == 0 {
                                        let s = self.alloc(&m, *inner, depth + 1);
                                        return format!("{{\"t\":{},\"refto\":{}}}", ti, s);
                                    }
                                }
                                return format!("{{\"t\":{},\"opaque\":\"ref\"}}", ti);
                            }
                            GlobalAlloc::Static(s) => return format!("{{\"t\":{},\"static\":{}}}", ti, esc(&s.name().to_string())),
                            GlobalAlloc::Function(i) => { let n = self.inst(i); return format!("{{\"t\":{},\"fnptr\":{}}}", ti, n); }
                            _ => {}
                        }
                    }
                }
            }
            match rig {
                RigidTy::Tuple(ts) if ts.is_empty() => return format!("{{\"t\":{},\"zst\":1}}", ti),
                RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) => {
                    if let Ok(u) = a.read_uint() { return format!("{{\"t\":{},\"int\":{}}}", ti, u); }
                }
                RigidTy::Array(e, _) if depth < 4 => {
                    if let Ok(l) = e.layout() {
                        let sz = l.shape().size.bytes();
                        if sz > 0 && a.bytes.len() / sz <= 600 {
                            let e = *e;
                            let mut xs = Vec::new();
                            for i in 0..a.bytes.len() / sz {
                                let o = i * sz;
                                let sub = Allocation { bytes: a.bytes[o..o + sz].to_vec(), provenance: ProvenanceMap { ptrs: a.provenance.ptrs.iter().filter(|(p, _)| *p >= o && *p < o + sz).map(|(p, q)| (*p - o, *q)).collect() }, align: a.align, mutability: a.mutability };
                                xs.push(self.alloc(&sub, e, depth + 1));
                            }
                            return format!("{{\"t\":{},\"arr\":[{}]}}", ti, xs.join(","));
                        }
                    }
                }
                _ => {}
            }
        }
        let bytes: Vec<String> = a.bytes.iter().take(256).map(|b| b.map_or("null".to_string(), |x| x.to_string())).collect();
        format!("{{\"t\":{},\"bytes\":[{}]}}", ti, bytes.join(","))
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let tk = t.kind();
        if let Some((def, args)) = tk.fn_def() {
            let id = Instance::resolve(def, args).ok().map(|i| self.inst(i));
            return format!("{{\"t\":{},\"fn\":{},\"fname\":{}}}", ti, id.map_or("null".into(), |x| x.to_string()), esc(&def.name().to_string()));
        }
        match c.kind() {
            ConstantKind::Allocated(a) => self.alloc(&a.clone(), t, 0),
            ConstantKind::ZeroSized => format!("{{\"t\":{},\"zst\":1}}", ti),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t2, a) => self.alloc(&a.clone(), *t2, 0),
                TyConstKind::ZSTValue(_) => format!("{{\"t\":{},\"zst\":1}}", ti),
                _ => format!("{{\"t\":{},\"opaque\":{}}}", ti, esc(&format!("{:?}", tc))),
            },
            k => format!("{{\"t\":{},\"opaque\":{}}}", ti, esc(&format!("{:?}", k))),
        }
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(p), if matches!(bk, BorrowKind::Mut { .. }) { 1 } else { 0 }),
            Rvalue::Aggregate(k, ops) => {
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, fld) => {
                        let t = self.ty(d.ty_with_args(args));
                        format!("[\"adt\",{},{},{}]", t, rustc_internal::internal(self.tcx, *v).as_usize(), fld.map_or("null".into(), |f| f.to_string()))
                    }
                    AggregateKind::Closure(d, args) => { let t = self.ty(Ty::new_closure(*d, args.clone())); format!("[\"closure\",{}]", t) }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                format!("[\"agg\",{},[{}]]", ks, v.join(","))
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.op(o), self.ty(*t)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(o), n.eval_target_usize().map_or("null".to_string(), |n| n.to_string())),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn line(&self, s: &SourceInfo) -> usize { s.span.get_lines().start_line }

    fn body(&mut self, n: usize, b: &Body, poly: bool) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut dbg = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(format!("[{},{}]", esc(&v.name.to_string()), self.place(p)));
            }
        }
        let mut blocks = Vec::new();
        for bb in &b.blocks {
            let mut st = Vec::new();
            for s in &bb.statements {
                let ln = self.line(&s.source_info);
                match &s.kind {
                    StatementKind::Assign(p, r) => st.push(format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), ln)),
                    StatementKind::SetDiscriminant { place, variant_index } =>
                        st.push(format!("[\"sd\",{},{},{}]", self.place(place), rustc_internal::internal(self.tcx, *variant_index).as_usize(), ln)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) =>
                        st.push(format!("[\"cpy\",{},{},{},{}]", self.op(&c.src), self.op(&c.dst), self.op(&c.count), ln)),
                    _ => {}
                }
            }
            let ln = self.line(&bb.terminator.source_info);
            let uw = |u: &UnwindAction| match u { UnwindAction::Cleanup(b) => b.to_string(), UnwindAction::Continue => "-1".into(), _ => "-2".into() };
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    let dt = discr.ty(b.locals()).ok().map(|t| self.ty(t));
                    format!("[\"switch\",{},[{}],{},{},{}]", self.op(discr), v.join(","), targets.otherwise(), dt.map_or("null".into(), |x| x.to_string()), ln)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let pt = place.ty(b.locals()).ok();
                    if let (false, Some(t)) = (poly, pt) { self.destructor(t); }
                    let dt = pt.map(|t| self.ty(t));
                    format!("[\"drop\",{},{},{},{},{}]", self.place(place), target, uw(unwind), dt.map_or("null".into(), |x| x.to_string()), ln)
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let a: Vec<String> = args.iter().map(|o| self.op(o)).collect();
                    format!("[\"call\",{},[{}],{},{},{},{}]", self.op(func), a.join(","), self.place(destination),
                        target.map_or("null".into(), |t| t.to_string()), uw(unwind), ln)
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (m, ops): (&str, Vec<String>) = match msg {
                        AssertMessage::BoundsCheck { len, index } => ("bounds", vec![self.op(len), self.op(index)]),
                        AssertMessage::Overflow(bo, x, y) => (match bo { BinOp::Add => "ovf_add", BinOp::Sub => "ovf_sub", BinOp::Mul => "ovf_mul", BinOp::Shl => "ovf_shl", BinOp::Shr => "ovf_shr", _ => "ovf" }, vec![self.op(x), self.op(y)]),
                        AssertMessage::OverflowNeg(x) => ("ovf_neg", vec![self.op(x)]),
                        AssertMessage::DivisionByZero(x) => ("div0", vec![self.op(x)]),
                        AssertMessage::RemainderByZero(x) => ("rem0", vec![self.op(x)]),
                        _ => ("other", vec![]),
                    };
                    format!("[\"assert\",{},{},\"{}\",[{}],{},{},{}]", self.op(cond), expected, m, ops.join(","), target, uw(unwind), ln)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("[[{}],{}]", st.join(","), t));
        }
        let sp = b.span;
        let file = sp.get_filename();
        let lines = sp.get_lines();
        format!("{{\"id\":{},\"poly\":{},\"argc\":{},\"spread\":{},\"locals\":[{}],\"dbg\":[{}],\"file\":{},\"l0\":{},\"l1\":{},\"blocks\":[{}]}}",
            n, poly, b.arg_locals().len(), b.spread_arg().map_or("null".into(), |x: usize| x.to_string()), locals.join(","), dbg.join(","), esc(&file), lines.start_line, lines.end_line, blocks.join(",\n"))
    }
}

fn analyze(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    if out.is_empty() { return ControlFlow::Continue(()); }
    let krate = rustc_public::local_crate();
    let mut cx = Ctx { tcx, tys: HashMap::new(), ty_out: vec![], insts: HashMap::new(), dropped: HashSet::new(), inst_out: vec![], queue: VecDeque::new(), crate_name: krate.name.to_string() };
    let items = rustc_public::all_local_items();
    let mut roots = Vec::new();
    let mut generic: Vec<CrateItem> = Vec::new();
    for it in &items {
        if it.kind() == ItemKind::Fn {
            match Instance::try_from(*it) {
                Ok(i) => roots.push(cx.inst(i)),
                Err(_) => generic.push(*it),
            }
        }
    }
    let mut bodies = Vec::new();
    let mut seen_defs: HashSet<String> = HashSet::new();
    let drain = |cx: &mut Ctx, bodies: &mut Vec<String>, seen: &mut HashSet<String>| {
        while let Some((n, i)) = cx.queue.pop_front() {
            seen.insert(i.def.name().to_string());
            if let Some(b) = i.body() { let s = cx.body(n, &b, false); bodies.push(s); }
        }
    };
    drain(&mut cx, &mut bodies, &mut seen_defs);
    // trait impls for local types reached only virtually are non-generic items already; generic items never
    // instantiated inside the crate are dumped polymorphically (callees may be unresolved there)
    let mut polys = Vec::new();
    for it in &generic {
        if seen_defs.contains(&it.name().to_string()) { continue; }
        polys.push(it.name().to_string());
        if it.has_body() {
            let b = it.expect_body();
            let n = cx.inst_out.len();
            let idef = rustc_internal::internal(tcx, it.def_id());
            let vis = match tcx.def_kind(idef) {
                rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn => if tcx.visibility(idef).is_public() { "pub" } else { "priv" },
                _ => "other" };
            let safety = match tcx.def_kind(idef) {
                rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn => if tcx.fn_sig(idef).skip_binder().safety().is_safe() { "\"safe\"" } else { "\"unsafe\"" },
                _ => "null" };
            cx.inst_out.push(format!("{{\"def\":{},\"name\":{},\"item\":\"\",\"crate\":{},\"local\":true,\"kind\":\"item\",\"vis\":\"{}\",\"args\":[],\"trait\":null,\"body\":true,\"has_body\":true,\"intrinsic\":null,\"safety\":{},\"extern_c\":false,\"exported\":false,\"poly\":true}}",
                esc(&tcx.def_path_str(idef)), esc(&it.name().to_string()), esc(&cx.crate_name.clone()), vis, safety));
            let s = cx.body(n, &b, true);
            bodies.push(s);
            drain(&mut cx, &mut bodies, &mut seen_defs);
        }
    }
    // constants / statics
    let mut statics = Vec::new();
    for it in &items { if it.kind() != ItemKind::Fn { statics.push(format!("[\"{:?}\",{}]", it.kind(), esc(&it.name().to_string()))); } }
    let mut s = String::new();
    let _ = write!(s, "{{\"crate\":{},\"roots\":{:?},\"polys\":[{}],\"consts\":[{}],\n\"types\":[\n{}\n],\n\"insts\":[\n{}\n],\n\"bodies\":[\n{}\n]}}\n",
        esc(&cx.crate_name), roots, polys.iter().map(|p| esc(p)).collect::<Vec<_>>().join(","), statics.join(","), cx.ty_out.join(",\n"), cx.inst_out.join(",\n"), bodies.join(",\n"));
    let kind = if tcx.crate_types().iter().any(|c| format!("{:?}", c) == "Executable") { "bin" } else { "lib" };
    let path = format!("{}/{}.{}.json", out, cx.crate_name, kind);
    std::fs::write(&path, s).expect("write mir dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked by cargo as: mirdump /path/to/rustc ARGS...
    if args.len() > 1 && args[1].contains("rustc") { args.remove(0); }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && !w[1].starts_with("build_script") && w[1] != "___");
    if !is_target || args.iter().any(|a| a == "-vV" || a.starts_with("--print")) {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = run_with_tcx!(&args, analyze);
    match r { Ok(_) => {}, Err(_) => std::process::exit(1) }
}
