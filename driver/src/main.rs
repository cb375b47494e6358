// Dumps the type-checked, resolved MIR of the analysed crate (and of the small generic core helpers
// it calls) as JSON.  Injected with RUSTC_WORKSPACE_WRAPPER; it never runs the analysed code.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

struct J(String);
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn obj(v: Vec<(&str, String)>) -> String {
    format!("{{{}}}", v.into_iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","))
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum BodyId<'tcx> {
    Inst(Instance<'tcx>, DefId),
    Promoted(Instance<'tcx>, Promoted, DefId),
    Const(DefId, GenericArgsRef<'tcx>, DefId),
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    types_out: Vec<String>,
    bodies: HashMap<BodyId<'tcx>, usize>,
    queue: Vec<BodyId<'tcx>>,
    consts: bool,
}

// std/core modules whose generic helpers are analysed from their own MIR
fn inline_external(krate: &str, path: &str) -> bool {
    if krate != "core" && krate != "alloc" && krate != "std" {
        return false;
    }
    const OK: &[&str] = &["option", "result", "cmp", "ops", "convert", "bool", "mem", "default", "borrow", "tuple", "clone", "num::nonzero"];
    let p = path.trim_start_matches('<');
    OK.iter().any(|m| {
        p.starts_with(&format!("core::{m}::")) || p.starts_with(&format!("std::{m}::")) || p.starts_with(&format!("alloc::{m}::"))
            || path.contains(&format!("core::{m}::")) && path.starts_with('<')
    })
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_forced_impl_filename_line!(self.tcx.def_path_str(d))
        ))
    }
    fn dpath(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(t.to_string()))
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let p = sm.lookup_char_pos(s.lo());
        let f = match &p.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|x| x.display().to_string()).unwrap_or_default(),
            _ => String::new(),
        };
        esc(&format!("{}:{}", f, p.line))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        self.tyid(t).to_string()
    }
    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.types_out.len();
        self.types.insert(t, i);
        self.types_out.push(String::new());
        let s = esc(&self.tystr(t));
        let tcx = self.tcx;
        let mut v: Vec<(&str, String)> = vec![("s", s)];
        match *t.kind() {
            ty::Bool => v.push(("k", esc("bool"))),
            ty::Char => v.push(("k", esc("char"))),
            ty::Int(_) => v.push(("k", esc("int"))),
            ty::Uint(_) => v.push(("k", esc("uint"))),
            ty::Float(_) => v.push(("k", esc("float"))),
            ty::Str => v.push(("k", esc("str"))),
            ty::Never => v.push(("k", esc("never"))),
            ty::Param(p) => {
                v.push(("k", esc("param")));
                v.push(("name", esc(p.name.as_str())));
            }
            ty::Adt(def, args) => {
                v.push(("k", esc("adt")));
                v.push(("path", esc(&self.dpath(def.did()))));
                let a: Vec<String> = args.types().map(|x| self.ty(x)).collect();
                v.push(("args", arr(a)));
                v.push(("enum", (def.is_enum() as u8).to_string()));
                v.push(("box", (def.is_box() as u8).to_string()));
                let kr = tcx.crate_name(def.did().krate);
                let p = self.dpath(def.did());
                let show = def.did().is_local()
                    || (["core", "alloc", "std"].contains(&kr.as_str())
                        && ["::option::", "::result::", "::ops::", "::cmp::", "::borrow::"].iter().any(|m| p.contains(m)))
                    || (kr.as_str() == "nalgebra" && p.contains("::linalg::") && def.is_struct()
                        && def.all_fields().all(|f| f.vis.is_public()));
                if show && !def.is_union() {
                    let mut vs = vec![];
                    for (vi, var) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in var.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = tcx.erase_and_anonymize_regions(ft);
                            fs.push(obj(vec![("n", esc(f.name.as_str())), ("t", self.ty(ft)),
                                ("pub", (f.vis.is_public() as u8).to_string())]));
                        }
                        let d = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                        vs.push(obj(vec![("n", esc(var.name.as_str())), ("d", esc(&d)), ("f", arr(fs))]));
                    }
                    v.push(("variants", arr(vs)));
                }
            }
            ty::Ref(_, x, m) => {
                v.push(("k", esc("ref")));
                v.push(("mut", (m.is_mut() as u8).to_string()));
                v.push(("t", self.ty(x)));
            }
            ty::RawPtr(x, m) => {
                v.push(("k", esc("ptr")));
                v.push(("mut", (m.is_mut() as u8).to_string()));
                v.push(("t", self.ty(x)));
            }
            ty::Slice(x) => {
                v.push(("k", esc("slice")));
                v.push(("t", self.ty(x)));
            }
            ty::Array(x, n) => {
                v.push(("k", esc("array")));
                v.push(("t", self.ty(x)));
                let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                v.push(("n", n));
            }
            ty::Tuple(ts) => {
                v.push(("k", esc("tuple")));
                let a: Vec<String> = ts.iter().map(|x| self.ty(x)).collect();
                v.push(("args", arr(a)));
            }
            ty::Closure(d, _) => {
                v.push(("k", esc("closure")));
                v.push(("path", esc(&self.dpath(d))));
            }
            ty::FnDef(d, _) => {
                v.push(("k", esc("fndef")));
                v.push(("path", esc(&self.dpath(d))));
            }
            ty::FnPtr(..) => v.push(("k", esc("fnptr"))),
            ty::Dynamic(p, ..) => {
                v.push(("k", esc("dyn")));
                if let Some(d) = p.principal_def_id() {
                    v.push(("path", esc(&self.dpath(d))));
                }
            }
            ty::Alias(..) => v.push(("k", esc("alias"))),
            _ => v.push(("k", esc("other"))),
        }
        self.types_out[i] = obj(v);
        i
    }
    fn body_id(&mut self, b: BodyId<'tcx>) -> usize {
        if let Some(&i) = self.bodies.get(&b) {
            return i;
        }
        let i = self.bodies.len();
        self.bodies.insert(b, i);
        self.queue.push(b);
        i
    }
    fn env(&self, root: DefId) -> TypingEnv<'tcx> {
        TypingEnv::post_analysis(self.tcx, root)
    }
    // description of a function item as used at a call or as a value
    fn fnref(&mut self, d: DefId, args: GenericArgsRef<'tcx>, root: DefId) -> String {
        let tcx = self.tcx;
        let mut v = self.fninfo(d);
        let targs: Vec<String> = args.types().map(|x| self.ty(x)).collect();
        v.push(("targs", arr(targs)));
        let env = self.env(root);
        let args = tcx.erase_and_anonymize_regions(args);
        let r = if matches!(tcx.def_kind(d), DefKind::Ctor(..)) { None } else {
            Instance::try_resolve(tcx, env, d, args).ok().flatten()
        };
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let adt = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip().skip_binder().output();
            v.push(("ctor", self.ty(adt)));
            let var = tcx.parent(d);
            let idx = if let ty::Adt(def, _) = adt.kind() {
                def.variants().iter_enumerated().find(|(_, x)| x.def_id == var || def.did() == var).map(|(i, _)| i.as_usize()).unwrap_or(0)
            } else { 0 };
            v.push(("variant", idx.to_string()));
        }
        if let Some(inst) = r {
            let rd = inst.def_id();
            let kind = match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(ShimKind::Clone(..)) => "clone",
                InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closureonce",
                InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
                _ => "shim",
            };
            v.push(("kind", esc(kind)));
            let ri = self.fninfo(rd);
            v.push(("r", obj(ri)));
            if kind == "item" {
                let kr = tcx.crate_name(rd.krate);
                let take = rd.is_local() || inline_external(kr.as_str(), &self.path_plain(rd)) ;
                if take && tcx.is_mir_available(rd) && !matches!(tcx.def_kind(rd), DefKind::Ctor(..)) {
                    v.push(("body", self.body_id(BodyId::Inst(inst, root)).to_string()));
                }
            }
        }
        obj(v)
    }
    fn path_plain(&self, d: DefId) -> String {
        // module path of the item's own crate, e.g. core::option::{impl#3}::map
        self.dpath(d)
    }
    fn fninfo(&mut self, d: DefId) -> Vec<(&'static str, String)> {
        let tcx = self.tcx;
        let mut v: Vec<(&'static str, String)> = vec![("p", esc(&self.dpath(d)))];
        let name = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_else(|| "{closure}".into());
        v.push(("n", esc(&name)));
        v.push(("crate", esc(tcx.crate_name(d.krate).as_str())));
        if let Some(p) = tcx.opt_parent(d) {
            match tcx.def_kind(p) {
                DefKind::Trait => v.push(("trait", esc(&self.dpath(p)))),
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let st = self.ty(st);
                    v.push(("selfty", st));
                    if let Some(t) = tcx.impl_opt_trait_id(p) {
                        v.push(("itrait", esc(&self.dpath(t))));
                    }
                }
                _ => {}
            }
        }
        v
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => arr(vec![esc("deref")]),
                ProjectionElem::Field(f, t) => arr(vec![esc("field"), f.as_usize().to_string(), self.ty(t)]),
                ProjectionElem::Index(l) => arr(vec![esc("index"), l.as_usize().to_string()]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    arr(vec![esc("cindex"), offset.to_string(), (from_end as u8).to_string()])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    arr(vec![esc("subslice"), from.to_string(), to.to_string(), (from_end as u8).to_string()])
                }
                ProjectionElem::Downcast(_, v) => arr(vec![esc("downcast"), v.as_usize().to_string()]),
                _ => arr(vec![esc("other")]),
            });
        }
        obj(vec![("l", p.local.as_usize().to_string()), ("p", arr(v))])
    }
    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>) -> Option<String> {
        match s {
            Scalar::Int(i) => {
                let val = match *t.kind() {
                    ty::Bool => if i.try_to_bool().ok()? { "true".to_string() } else { "false".to_string() },
                    ty::Char => esc(&char::from_u32(i.to_u32())?.to_string()),
                    ty::Int(_) => i.to_int(i.size()).to_string(),
                    ty::Uint(_) => i.to_uint(i.size()).to_string(),
                    ty::Float(ty::FloatTy::F64) => esc(&format!("{:?}", f64::from_bits(i.to_u64()))),
                    ty::Float(ty::FloatTy::F32) => esc(&format!("{:?}", f32::from_bits(i.to_u32()))),
                    _ => return None,
                };
                Some(obj(vec![("v", val), ("t", self.ty(t))]))
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                let tcx = self.tcx;
                match tcx.try_get_global_alloc(prov.alloc_id())? {
                    GlobalAlloc::Memory(a) => {
                        let inner = t.builtin_deref(true)?;
                        // &[u8; N]
                        if let ty::Array(e, n) = *inner.kind() {
                            if e == tcx.types.u8 {
                                let n = n.try_to_target_usize(tcx)? as usize;
                                let o = off.bytes_usize();
                                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                                return Some(obj(vec![
                                    ("bytes", arr(b.iter().map(|x| x.to_string()).collect())),
                                    ("t", self.ty(t)),
                                ]));
                            }
                        }
                        // reference to a sized constant
                        if inner.is_sized(tcx, TypingEnv::fully_monomorphized()) {
                            let cv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                            if let Some(s) = self.constval(cv, inner) {
                                return Some(obj(vec![("refto", s), ("t", self.ty(t))]));
                            }
                        }
                        None
                    }
                    GlobalAlloc::Static(d) => Some(obj(vec![("static", esc(&self.dpath(d))), ("t", self.ty(t))])),
                    _ => None,
                }
            }
        }
    }
    fn constval(&mut self, c: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        match c {
            ConstValue::Scalar(s) => {
                if let Some(x) = self.scalar(s, t) {
                    return Some(x);
                }
            }
            ConstValue::ZeroSized => {}
            ConstValue::Slice { .. } => {
                if let Some(b) = c.try_get_slice_bytes_for_diagnostics(tcx) {
                    if let ty::Ref(_, inner, _) = *t.kind() {
                        if inner.is_str() {
                            return Some(obj(vec![("str", esc(&String::from_utf8_lossy(b))), ("t", self.ty(t))]));
                        }
                    }
                    return Some(obj(vec![("bytes", arr(b.iter().map(|x| x.to_string()).collect())), ("t", self.ty(t))]));
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                // scalars in memory
                if matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_)) {
                    if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                        let size = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)).ok()?.size;
                        let o = offset.bytes_usize();
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + size.bytes_usize());
                        let mut x: u128 = 0;
                        for (i, y) in b.iter().enumerate() {
                            x |= (*y as u128) << (8 * i);
                        }
                        let si = ty::ScalarInt::try_from_uint(x, size)?;
                        return self.scalar(Scalar::Int(si), t);
                    }
                }
            }
        }
        if let ty::Adt(..) | ty::Tuple(..) | ty::Array(..) = t.kind() {
            if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(c, t) {
                let mut fs = vec![];
                for (fc, ft) in d.fields.iter() {
                    match self.constval(*fc, *ft) {
                        Some(s) => fs.push(s),
                        None => return None,
                    }
                }
                return Some(obj(vec![
                    ("agg", arr(fs)),
                    ("variant", d.variant.map(|x| x.as_usize()).unwrap_or(0).to_string()),
                    ("t", self.ty(t)),
                ]));
            }
        }
        None
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, root: DefId, inst: Option<Instance<'tcx>>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = *t.kind() {
            let f = self.fnref(d, args.skip_binder(), root);
            return obj(vec![("fn", f), ("t", self.ty(t))]);
        }
        if let ty::Closure(..) = *t.kind() {
            let cl = self.closure_ref(t, root);
            return obj(vec![("closure", cl), ("t", self.ty(t))]);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let pi = match inst {
                    Some(i) if i.def_id() == u.def => i,
                    _ => Instance::new_raw(u.def, u.args),
                };
                let b = self.body_id(BodyId::Promoted(pi, p, root));
                return obj(vec![("promoted", b.to_string()), ("t", self.ty(t))]);
            }
        }
        let env = self.env(root);
        let ev = if self.consts { c.const_.eval(tcx, env, c.span).ok() } else { None };
        let mut name = "null".to_string();
        if let Const::Unevaluated(u, _) = c.const_ {
            name = esc(&self.dpath(u.def));
        }
        if let Some(v) = ev {
            if let Some(s) = self.constval(v, t) {
                return format!("{},\"name\":{}}}", &s[..s.len() - 1], name);
            }
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if tcx.is_mir_available(u.def) || u.def.is_local() {
                let b = self.body_id(BodyId::Const(u.def, u.args, root));
                return obj(vec![("cbody", b.to_string()), ("name", name), ("t", self.ty(t))]);
            }
        }
        if let Const::Ty(_, ct) = c.const_ {
            name = esc(&ct.to_string());
        }
        obj(vec![("opaque", esc(&format!("{}", c.const_))), ("name", name), ("t", self.ty(t))])
    }
    fn closure_ref(&mut self, t: Ty<'tcx>, root: DefId) -> String {
        if let ty::Closure(d, args) = *t.kind() {
            let args = self.tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(d, args);
            let b = self.body_id(BodyId::Inst(inst, root));
            return b.to_string();
        }
        "null".into()
    }
    fn operand(&mut self, o: &Operand<'tcx>, root: DefId, inst: Option<Instance<'tcx>>) -> String {
        match o {
            Operand::Copy(p) => obj(vec![("c", self.place(p))]),
            Operand::Move(p) => obj(vec![("m", self.place(p))]),
            Operand::Constant(c) => {
                let s = self.constant(c, root, inst);
                obj(vec![("k", s)])
            }
            _ => obj(vec![("rtcheck", "1".into())]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, root: DefId, inst: Option<Instance<'tcx>>) -> String {
        match r {
            Rvalue::Use(o, ..) => arr(vec![esc("use"), self.operand(o, root, inst)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                arr(vec![esc("repeat"), self.operand(o, root, inst), n])
            }
            Rvalue::Ref(_, k, p) => arr(vec![
                esc("ref"),
                esc(if matches!(k, BorrowKind::Mut { .. }) { "mut" } else { "shared" }),
                self.place(p),
            ]),
            Rvalue::RawPtr(k, p) => arr(vec![esc("ref"), esc(if matches!(k, RawPtrKind::Mut) { "mut" } else { "shared" }), self.place(p)]),
            Rvalue::Reborrow(_, m, p) => arr(vec![esc("ref"), esc(if m.is_mut() { "mut" } else { "shared" }), self.place(p)]),
            Rvalue::Cast(k, o, t) => arr(vec![
                esc("cast"),
                esc(&format!("{:?}", k)),
                self.operand(o, root, inst),
                self.ty(*t),
            ]),
            Rvalue::BinaryOp(op, b) => arr(vec![
                esc("bin"),
                esc(&format!("{:?}", op)),
                self.operand(&b.0, root, inst),
                self.operand(&b.1, root, inst),
            ]),
            Rvalue::UnaryOp(op, a) => arr(vec![esc("un"), esc(&format!("{:?}", op)), self.operand(a, root, inst)]),
            Rvalue::Discriminant(p) => arr(vec![esc("discr"), self.place(p)]),
            Rvalue::CopyForDeref(p) => arr(vec![esc("use"), obj(vec![("c", self.place(p))])]),
            Rvalue::Aggregate(k, fs) => {
                let a: Vec<String> = fs.iter().map(|x| self.operand(x, root, inst)).collect();
                let kd = match **k {
                    AggregateKind::Array(t) => arr(vec![esc("array"), self.ty(t)]),
                    AggregateKind::Tuple => arr(vec![esc("tuple")]),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let t = self.tcx.type_of(d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.tcx.erase_and_anonymize_regions(t);
                        arr(vec![esc("adt"), self.ty(t), v.as_usize().to_string(),
                            active.map(|x| x.as_usize().to_string()).unwrap_or("null".into())])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, d, args);
                        let tid = self.ty(t);
                        let b = self.closure_ref(t, root);
                        arr(vec![esc("closure"), b, tid])
                    }
                    _ => arr(vec![esc("other")]),
                };
                arr(vec![esc("agg"), kd, arr(a)])
            }
            _ => arr(vec![esc("other"), esc(&format!("{:?}", r))]),
        }
    }
    fn body(&mut self, b: &Body<'tcx>, root: DefId, inst: Option<Instance<'tcx>>, mut head: Vec<(&'static str, String)>) -> String {
        let mut locals = vec![];
        let mut names: HashMap<usize, String> = HashMap::new();
        for d in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = d.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(d.name.to_string());
                }
            }
        }
        for (l, d) in b.local_decls.iter_enumerated() {
            let n = names.get(&l.as_usize()).map(|x| esc(x)).unwrap_or("null".into());
            locals.push(arr(vec![self.ty(d.ty), n]));
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let r = self.rvalue(&a.1, root, inst);
                        st.push(arr(vec![esc("="), self.place(&a.0), r, self.span(s.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(arr(vec![
                        esc("setdiscr"),
                        self.place(place),
                        variant_index.as_usize().to_string(),
                        self.span(s.source_info.span),
                    ])),
                    StatementKind::Intrinsic(i) => {
                        if !matches!(**i, NonDivergingIntrinsic::Assume(_)) {
                            st.push(arr(vec![esc("intrinsic"), esc(&format!("{:?}", i))]));
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => arr(vec![esc("goto"), target.as_usize().to_string()]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = vec![];
                    for (val, t) in targets.iter() {
                        v.push(arr(vec![esc(&val.to_string()), t.as_usize().to_string()]));
                    }
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    arr(vec![
                        esc("switch"),
                        self.operand(discr, root, inst),
                        arr(v),
                        targets.otherwise().as_usize().to_string(),
                        self.ty(dt),
                        sp,
                    ])
                }
                TerminatorKind::Return => arr(vec![esc("return")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    arr(vec![esc("drop"), self.place(place), target.as_usize().to_string(), self.ty(pt)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, root, inst);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, root, inst)).collect();
                    let dt = destination.ty(&b.local_decls, self.tcx).ty;
                    let at: Vec<String> = args.iter().map(|x| { let t = x.node.ty(&b.local_decls, self.tcx); self.ty(t) }).collect();
                    arr(vec![
                        esc("call"),
                        f,
                        arr(a),
                        self.place(destination),
                        target.map(|x| x.as_usize().to_string()).unwrap_or("null".into()),
                        self.ty(dt),
                        sp,
                        arr(at),
                    ])
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => arr(vec![
                    esc("assert"),
                    self.operand(cond, root, inst),
                    expected.to_string(),
                    target.as_usize().to_string(),
                    esc(&format!("{:?}", std::mem::discriminant(&**msg))),
                    sp,
                ]),
                TerminatorKind::FalseEdge { real_target, .. } => arr(vec![esc("goto"), real_target.as_usize().to_string()]),
                TerminatorKind::FalseUnwind { real_target, .. } => arr(vec![esc("goto"), real_target.as_usize().to_string()]),
                _ => arr(vec![esc("unreachable")]),
            };
            blocks.push(obj(vec![("c", (bb.is_cleanup as u8).to_string()), ("s", arr(st)), ("t", ts)]));
        }
        head.push(("argc", b.arg_count.to_string()));
        head.push(("spread", b.spread_arg.map(|x| x.as_usize().to_string()).unwrap_or("null".into())));
        head.push(("span", self.span(b.span)));
        head.push(("locals", arr(locals)));
        head.push(("blocks", arr(blocks)));
        obj(head)
    }
    fn dump(&mut self, id: BodyId<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        match id {
            BodyId::Inst(inst, root) => {
                let env = self.env(root);
                let mir = match inst.def {
                    InstanceKind::Item(d) => tcx.optimized_mir(d),
                    _ => tcx.instance_mir(inst.def),
                };
                let body = inst.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    env,
                    ty::EarlyBinder::bind(tcx, mir.clone()),
                );
                let d = inst.def_id();
                let mut h = self.fninfo(d);
                h.push(("kind", esc(if tcx.is_closure_like(d) { "closure" } else { "fn" })));
                h.push(("local", (d.is_local() as u8).to_string()));
                if tcx.is_closure_like(d) {
                    let p = self.dpath(tcx.typeck_root_def_id(d));
                    h.push(("owner", esc(&p)));
                } else {
                    h.push(("pub", (tcx.visibility(d).is_public() as u8).to_string()));
                    if let Some(ld) = d.as_local() {
                        let eff = tcx.effective_visibilities(()).is_reachable(ld);
                        h.push(("reach", (eff as u8).to_string()));
                    }
                    let u = tcx.fn_sig(d).skip_binder().safety() == rustc_hir::Safety::Unsafe;
                    h.push(("unsafe", (u as u8).to_string()));
                }
                let targs: Vec<String> = inst.args.types().map(|x| self.ty(x)).collect();
                h.push(("targs", arr(targs)));
                Some(self.body(&body, root, Some(inst), h))
            }
            BodyId::Promoted(inst, p, root) => {
                let env = self.env(root);
                let all = tcx.promoted_mir(inst.def_id());
                let body = inst.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    env,
                    ty::EarlyBinder::bind(tcx, all[p].clone()),
                );
                let mut h = self.fninfo(inst.def_id());
                h.push(("kind", esc("promoted")));
                Some(self.body(&body, root, Some(inst), h))
            }
            BodyId::Const(d, args, root) => {
                let env = self.env(root);
                let inst = Instance::new_raw(d, args);
                let mir = tcx.mir_for_ctfe(d);
                let body = inst.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    env,
                    ty::EarlyBinder::bind(tcx, mir.clone()),
                );
                let mut h = self.fninfo(d);
                h.push(("kind", esc("const")));
                Some(self.body(&body, root, Some(inst), h))
            }
        }
    }
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = Dump {
            tcx,
            types: HashMap::new(),
            types_out: vec![],
            bodies: HashMap::new(),
            queue: vec![],
            consts: true,
        };
        let mut roots = vec![];
        let mut unsafes = 0;
        let mut items = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            let k = tcx.def_kind(did);
            match k {
                DefKind::Fn | DefKind::AssocFn => {
                    if !tcx.is_mir_available(did) {
                        continue;
                    }
                    let args = ty::GenericArgs::identity_for_item(tcx, did);
                    let inst = Instance::new_raw(did, tcx.erase_and_anonymize_regions(args));
                    let b = d.body_id(BodyId::Inst(inst, did));
                    roots.push(b.to_string());
                }
                DefKind::Static { mutability, .. } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let env = ty::TypingEnv::post_analysis(tcx, did);
                    let tl = tcx.is_thread_local_static(did);
                    items.push(obj(vec![("static", esc(&d.dpath(did))), ("mut", (mutability.is_mut() as u8).to_string()),
                        ("freeze", (st.is_freeze(tcx, env) as u8).to_string()), ("local", (tl as u8).to_string()), ("ty", esc(&d.tystr(st))), ("span", d.span(tcx.def_span(did)))]));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let tr = tcx.impl_opt_trait_id(did).map(|t| d.dpath(t)).unwrap_or_default();
                    let preds: Vec<String> = tcx
                        .clauses_of(did)
                        .instantiate_identity(tcx)
                        .clauses
                        .into_iter()
                        .map(|p| esc(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", p.skip_norm_wip()))))
                        .collect();
                    let safety = if tcx.impl_opt_trait_id(did).is_some() {
                        (tcx.impl_trait_header(did).safety == rustc_hir::Safety::Unsafe) as u8
                    } else { 0 };
                    items.push(obj(vec![("impl", d.ty(st)), ("trait", esc(&tr)), ("unsafe", safety.to_string()), ("preds", arr(preds)),
                        ("span", d.span(tcx.def_span(did)))]));
                }
                DefKind::Struct | DefKind::Enum => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let x = d.ty(st);
                    let mut v = vec![("adt", x), ("span", d.span(tcx.def_span(did)))];
                    for (nm, tr) in [("send", tcx.get_diagnostic_item(rustc_span::sym::Send)), ("sync", tcx.lang_items().sync_trait())] {
                        if let Some(tr) = tr { v.push((nm, (auto_trait(tcx, did, st, tr) as u8).to_string())); }
                    }
                    items.push(obj(v));
                }
                DefKind::Trait => {
                    let ms: Vec<String> = tcx.associated_items(did).in_definition_order().filter(|a| a.is_fn()).map(|a| {
                        let sig = tcx.fn_sig(a.def_id).skip_binder().skip_binder();
                        let ins: Vec<String> = sig.inputs().iter().map(|t| esc(&d.tystr(*t))).collect();
                        obj(vec![("n", esc(a.name().as_str())), ("in", arr(ins)), ("out", esc(&d.tystr(sig.output())))])
                    }).collect();
                    let sup: Vec<String> = tcx.explicit_super_clauses_of(did).skip_binder().iter().map(|(p, _)| esc(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", p)))).collect();
                    items.push(obj(vec![("trait", esc(&d.dpath(did))), ("methods", arr(ms)), ("super", arr(sup))]));
                }
                _ => {}
            }
        }
        // count unsafe blocks in bodies
        for ld in tcx.hir_body_owners() {
            if let Some(b) = tcx.hir_maybe_body_owned_by(ld) {
                struct V<'t> { n: usize, tcx: TyCtxt<'t> }
                impl<'t> rustc_hir::intravisit::Visitor<'t> for V<'t> {
                    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
                    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt { self.tcx }
                    fn visit_block(&mut self, b: &'t rustc_hir::Block<'t>) {
                        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules { self.n += 1; }
                        rustc_hir::intravisit::walk_block(self, b);
                    }
                }
                let mut v = V { n: 0, tcx };
                rustc_hir::intravisit::Visitor::visit_body(&mut v, b);
                unsafes += v.n;
            }
        }
        let mut out: HashMap<usize, String> = HashMap::new();
        while let Some(id) = d.queue.pop() {
            let i = d.bodies[&id];
            if let Some(s) = d.dump(id) {
                out.insert(i, s);
            }
        }
        let n = d.bodies.len();
        let bodies: Vec<String> = (0..n).map(|i| out.remove(&i).unwrap_or("null".into())).collect();
        let j = J(obj(vec![
            ("crate", esc(tcx.crate_name(LOCAL_CRATE).as_str())),
            ("unsafe_blocks", unsafes.to_string()),
            ("roots", arr(roots)),
            ("items", arr(items)),
            ("types", arr(d.types_out)),
            ("bodies", arr(bodies)),
        ]));
        std::fs::write(&self.out, j.0).expect("write dump");
        Compilation::Continue
    }
}

/// does the type implement the auto trait when all its type parameters do?
fn auto_trait<'t>(tcx: TyCtxt<'t>, did: DefId, st: ty::Ty<'t>, tr: DefId) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let mut cl: Vec<ty::Clause<'t>> = tcx.param_env(did).caller_bounds().collect();
    for a in ty::GenericArgs::identity_for_item(tcx, did).types() {
        let r: ty::TraitRef<'t> = ty::TraitRef::new(tcx, tr, [a]);
        cl.push(ty::Upcast::upcast(r, tcx));
    }
    let env = ty::ParamEnv::new(tcx, tcx.mk_clauses(&cl));
    let icx = tcx.infer_ctxt().build(ty::TypingMode::PostAnalysis);
    icx.type_implements_trait(tr, [st], env).must_apply_modulo_regions()
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    args.remove(0);
    let out = std::env::var("MIRDUMP_OUT").ok();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is = name.as_deref() == Some(&want) && !args.iter().any(|a| a == "--test");
    if is && out.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Zalways-encode-mir".into());
        let mut cb = Cb { out: out.unwrap() };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
