//! mirdump: a rustc driver that type-checks a workspace crate exactly as cargo
//! would and dumps, as JSON, the resolved program: for every function of the
//! crate (and everything it calls inside the workspace and the small std
//! combinators it uses) the MIR before coroutine lowering, with callees
//! resolved under the function's own generic environment; the ADT tables with
//! their discriminants; the types live across every suspension point; and all
//! hand-written unsafe code.  No program code is executed.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TyKind, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet, VecDeque};

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    promoted_bodies: HashMap<LocalDefId, (Body<'tcx>, Vec<Body<'tcx>>)>,
    bodies: Map<String, Value>,
    queued: HashSet<String>,
    work: VecDeque<(String, Work<'tcx>)>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_list: Vec<Value>,
    adts: Map<String, Value>,
}

enum Work<'tcx> {
    Inst(Instance<'tcx>, TypingEnv<'tcx>, usize),
    Promoted(DefId, usize, GenericArgsRef<'tcx>, TypingEnv<'tcx>, usize),
    Const(DefId, GenericArgsRef<'tcx>, TypingEnv<'tcx>, usize),
}

const WORKSPACE: &[&str] = &["vmodels", "haproxy_spop", "haproxy_spoa", "haproxy_spoe", "haproxy"];

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        let k = self.tcx.crate_name(d.krate);
        format!("{}{}", k, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())))
    }
    fn args_str(&self, args: GenericArgsRef<'tcx>) -> Vec<String> {
        args.iter()
            .filter_map(|a| match a.kind() {
                ty::GenericArgKind::Type(t) => Some(self.tystr(t)),
                ty::GenericArgKind::Const(c) => {
                    Some(with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(c.to_string()))))
                }
                _ => None,
            })
            .collect()
    }
    fn parent_args(&self, d: DefId, args: GenericArgsRef<'tcx>) -> GenericArgsRef<'tcx> {
        if self.tcx.is_closure_like(d) {
            let base = self.tcx.typeck_root_def_id(d);
            let n = self.tcx.generics_of(base).count();
            self.tcx.mk_args(&args[..n.min(args.len())])
        } else {
            args
        }
    }
    fn key(&self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let a = self.args_str(self.parent_args(d, args));
        if a.is_empty() {
            self.path(d)
        } else {
            format!("{}<{}>", self.path(d), a.join(", "))
        }
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) -> String {
        let p = self.path(def.did());
        if !self.adts.contains_key(&p) {
            self.adts.insert(p.clone(), Value::Null);
            let mut vs = vec![];
            if def.is_enum() {
                for (i, disc) in def.discriminants(self.tcx) {
                    let v = def.variant(i);
                    vs.push(json!({"name": v.name.to_string(), "discr": disc.val.to_string(),
                        "fields": v.fields.iter().map(|f| f.name.to_string()).collect::<Vec<_>>()}));
                }
            } else {
                for v in def.variants() {
                    vs.push(json!({"name": v.name.to_string(), "discr": "0",
                        "fields": v.fields.iter().map(|f| f.name.to_string()).collect::<Vec<_>>()}));
                }
            }
            let drop = self.tcx.adt_destructor(def.did()).map(|d| self.path(d.did));
            self.adts.insert(
                p.clone(),
                json!({"kind": if def.is_enum() {"enum"} else if def.is_union() {"union"} else {"struct"},
                       "variants": vs, "drop": drop}),
            );
        }
        p
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_list.len();
        self.tys.insert(t, i);
        self.ty_list.push(Value::Null);
        let s = self.tystr(t);
        let v = match t.kind() {
            TyKind::Bool => json!({"k":"bool"}),
            TyKind::Char => json!({"k":"char"}),
            TyKind::Int(it) => json!({"k":"int","bits": it.bit_width().unwrap_or(64)}),
            TyKind::Uint(it) => json!({"k":"uint","bits": it.bit_width().unwrap_or(64)}),
            TyKind::Adt(def, args) => {
                let p = self.adt(*def);
                let a: Vec<usize> = args.types().map(|t| self.ty(t)).collect();
                json!({"k":"adt","path":p,"args":a})
            }
            TyKind::Ref(_, inner, m) => {
                let x = self.ty(*inner);
                json!({"k":"ref","inner":x,"mut":m.is_mut()})
            }
            TyKind::RawPtr(inner, m) => {
                let x = self.ty(*inner);
                json!({"k":"ptr","inner":x,"mut":m.is_mut()})
            }
            TyKind::Tuple(ts) => {
                let a: Vec<usize> = ts.iter().map(|t| self.ty(t)).collect();
                json!({"k":"tuple","args":a})
            }
            TyKind::Array(e, n) => {
                let x = self.ty(*e);
                json!({"k":"array","inner":x,"len": n.try_to_target_usize(self.tcx)})
            }
            TyKind::Slice(e) => {
                let x = self.ty(*e);
                json!({"k":"slice","inner":x})
            }
            TyKind::Str => json!({"k":"str"}),
            TyKind::Never => json!({"k":"never"}),
            TyKind::Param(p) => json!({"k":"param","name":p.name.to_string()}),
            TyKind::Closure(d, args) => json!({"k":"closure","key":self.key(*d, args)}),
            TyKind::Coroutine(d, args) => json!({"k":"coroutine","key":self.key(*d, args)}),
            TyKind::CoroutineClosure(d, args) => json!({"k":"coroutine_closure","key":self.key(*d, args)}),
            TyKind::FnDef(d, _) => json!({"k":"fndef","path":self.path(*d)}),
            TyKind::Dynamic(..) => json!({"k":"dyn"}),
            _ => json!({"k":"other"}),
        };
        let mut v = v;
        v.as_object_mut().unwrap().insert("s".into(), Value::String(s));
        self.ty_list[i] = v;
        i
    }
    fn span(&self, sp: Span) -> Value {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_remapped_unconditionally());
        Value::String(format!("{}:{}", f, loc.line))
    }

    // ----- following policy
    fn follow(&self, d: DefId, depth: usize) -> bool {
        let k = self.tcx.crate_name(d.krate);
        let k = k.as_str();
        if d.is_local() || WORKSPACE.contains(&k) {
            return true;
        }
        if depth >= 4 {
            return false;
        }
        if k == "core" || k == "alloc" || k == "std" {
            let p = self.path(d);
            const OK: &[&str] = &[
                "core::option::", "core::result::", "core::bool::", "core::ops::control_flow::", "core::mem::{",
                "core::mem::replace", "core::mem::take", "core::mem::swap", "core::convert::", "core::tuple::",
                "core::pin::", "core::future::poll_fn", "core::cmp::", "core::task::poll::",
                "core::iter::sources::", "core::array::",
            ];
            return OK.iter().any(|o| p.starts_with(o));
        }
        false
    }
    fn enqueue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> Option<String> {
        let d = inst.def_id();
        match inst.def {
            ty::InstanceKind::Item(_) => {}
            _ => return None,
        }
        if !self.follow(d, depth) {
            return None;
        }
        let has = if d.is_local() {
            self.promoted_bodies.contains_key(&d.expect_local()) || self.tcx.is_mir_available(d)
        } else {
            self.tcx.is_mir_available(d)
        };
        if !has || self.tcx.is_constructor(d) {
            return None;
        }
        let key = self.key(d, inst.args);
        if self.queued.insert(key.clone()) {
            self.work.push_back((key.clone(), Work::Inst(inst, env, depth)));
        }
        Some(key)
    }
    fn next_depth(&self, d: DefId, depth: usize) -> usize {
        let k = self.tcx.crate_name(d.krate);
        if d.is_local() || WORKSPACE.contains(&k.as_str()) { 0 } else { depth + 1 }
    }
    fn run(&mut self) {
        while let Some((key, w)) = self.work.pop_front() {
            let v = match w {
                Work::Inst(inst, env, depth) => {
                    let d = inst.def_id();
                    let raw: Body<'tcx> = match d.as_local().and_then(|l| self.promoted_bodies.get(&l)) {
                        Some((b, _)) => b.clone(),
                        None => self.tcx.instance_mir(inst.def).clone(),
                    };
                    let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(
                        self.tcx, env, ty::EarlyBinder::bind(self.tcx, raw)) {
                        Ok(b) => b,
                        Err(_) => continue,
                    };
                    self.body(&body, d, inst.args, env, self.next_depth(d, depth))
                }
                Work::Promoted(d, i, args, env, depth) => {
                    let raw = match d.as_local().and_then(|l| self.promoted_bodies.get(&l)) {
                        Some((_, p)) => p[i].clone(),
                        None => self.tcx.promoted_mir(d)[Promoted::from_usize(i)].clone(),
                    };
                    let inst = Instance::new_raw(d, args);
                    match inst.try_instantiate_mir_and_normalize_erasing_regions(
                        self.tcx, env, ty::EarlyBinder::bind(self.tcx, raw)) {
                        Ok(b) => self.body(&b, d, args, env, depth),
                        Err(_) => continue,
                    }
                }
                Work::Const(d, args, env, depth) => {
                    let raw = match d.as_local().and_then(|l| self.promoted_bodies.get(&l)) {
                        Some((b, _)) => b.clone(),
                        None => self.tcx.mir_for_ctfe(d).clone(),
                    };
                    let inst = Instance::new_raw(d, args);
                    match inst.try_instantiate_mir_and_normalize_erasing_regions(
                        self.tcx, env, ty::EarlyBinder::bind(self.tcx, raw)) {
                        Ok(b) => self.body(&b, d, args, env, depth),
                        Err(_) => continue,
                    }
                }
            };
            self.bodies.insert(key, v);
        }
    }

    // ----- bodies
    fn body(&mut self, b: &Body<'tcx>, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> Value {
        let locals: Vec<usize> = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = Map::new();
        for vdi in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = vdi.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize().to_string(), Value::String(vdi.name.to_string()));
                }
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                if let Some(v) = self.stmt(s, env, d, args, depth, b) {
                    st.push(v);
                }
            }
            let t = self.term(bb.terminator(), env, d, args, depth, b);
            blocks.push(json!({"s": st, "t": t, "cleanup": bb.is_cleanup}));
        }
        json!({
            "path": self.path(d),
            "kind": format!("{:?}", self.tcx.def_kind(d)),
            "argc": b.arg_count,
            "spread": b.spread_arg.map(|l| l.as_usize()),
            "coroutine": b.coroutine.is_some() && b.coroutine.as_ref().unwrap().coroutine_drop.is_none()
                && b.coroutine_kind().is_some(),
            "lowered": !matches!(b.phase, MirPhase::Built | MirPhase::Analysis(_)),
            "locals": locals,
            "names": names,
            "blocks": blocks,
            "span": self.span(b.span),
        })
    }
    fn place(&mut self, p: Place<'tcx>, b: &Body<'tcx>) -> Value {
        let mut proj = vec![];
        let mut pt = mir::PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let v = match e {
                ProjectionElem::Deref => json!("*"),
                ProjectionElem::Field(f, t) => {
                    let ti = self.ty(t);
                    json!(["f", f.as_usize(), ti])
                }
                ProjectionElem::Index(l) => json!(["i", l.as_usize()]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!(["ci", offset, min_length, from_end]),
                ProjectionElem::Subslice { from, to, from_end } => json!(["ss", from, to, from_end]),
                ProjectionElem::Downcast(_, vi) => {
                    if let TyKind::Adt(def, _) = pt.ty.kind() {
                        self.adt(*def);
                        json!(["v", vi.as_usize(), def.variant(vi).name.to_string()])
                    } else {
                        json!(["v", vi.as_usize(), ""])
                    }
                }
                _ => json!(["o"]),
            };
            proj.push(v);
            pt = pt.projection_ty(self.tcx, e);
        }
        json!([p.local.as_usize(), proj])
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>, depth: usize, b: &Body<'tcx>) -> Value {
        match o {
            Operand::Copy(p) => json!(["c", self.place(*p, b)]),
            Operand::Move(p) => json!(["m", self.place(*p, b)]),
            Operand::Constant(c) => json!(["k", self.konst(c.const_, env, d, args, depth)]),
            Operand::RuntimeChecks(r) => json!(["k", {"rt": format!("{:?}", r)}]),
        }
    }
    fn fnref(&mut self, fd: DefId, fargs: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> Value {
        let path = self.path(fd);
        let name = self.tcx.opt_item_name(fd).map(|s| s.to_string()).unwrap_or_default();
        let a = self.args_str(fargs);
        let mut m = Map::new();
        m.insert("path".into(), json!(path));
        m.insert("name".into(), json!(name));
        m.insert("args".into(), json!(a));
        if self.tcx.is_constructor(fd) {
            // tuple struct / variant constructor used as a function
            let ret = self.tcx.fn_sig(fd).instantiate(self.tcx, fargs).skip_norm_wip().skip_binder().output();
            if let TyKind::Adt(def, _) = ret.kind() {
                let p = self.adt(*def);
                let vi = def.variant_index_with_ctor_id(fd);
                m.insert("ctor".into(), json!([p, vi.as_usize(), def.variant(vi).name.to_string()]));
            }
            return Value::Object(m);
        }
        let trait_did = self.tcx.trait_of_assoc(fd);
        if let Some(t) = trait_did {
            m.insert("trait".into(), json!(self.path(t)));
        } else if let Some(imp) = self.tcx.impl_of_assoc(fd) {
            let st = self.tcx.type_of(imp).instantiate(self.tcx, self.tcx.mk_args(&fargs[..self.tcx.generics_of(imp).count().min(fargs.len())]));
            if let Ok(st) = self.tcx.try_normalize_erasing_regions(env, st) {
                let i = self.ty(st);
                m.insert("self".into(), json!(i));
            }
        }
        if trait_did.is_some() && !fargs.is_empty() {
            if let Some(t) = fargs.types().next() {
                let i = self.ty(t);
                m.insert("self".into(), json!(i));
            }
        }
        // type arguments as indices (for models that dispatch on types)
        let ta: Vec<usize> = fargs.types().collect::<Vec<_>>().into_iter().map(|t| self.ty(t)).collect();
        m.insert("targs".into(), json!(ta));
        if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, env, fd, fargs) {
            let rd = inst.def_id();
            m.insert("inst_path".into(), json!(self.path(rd)));
            if let ty::InstanceKind::Item(_) = inst.def {
                if let Some(k) = self.enqueue(inst, env, depth) {
                    m.insert("inst".into(), json!(k));
                }
                if rd != fd {
                    if let Some(imp) = self.tcx.impl_of_assoc(rd) {
                        if let Some(t) = self.tcx.impl_opt_trait_ref(imp) {
                            let _ = t;
                            m.insert("impl".into(), json!(self.path(imp)));
                        }
                    }
                }
            } else {
                m.insert("shim".into(), json!(format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string()));
            }
        }
        Value::Object(m)
    }
    fn konst(&mut self, c: Const<'tcx>, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>, depth: usize) -> Value {
        let t = c.ty();
        if let TyKind::FnDef(fd, fargs) = t.kind() {
            let fargs = fargs.no_bound_vars().unwrap_or_else(|| fargs.skip_binder());
            return json!({"fn": self.fnref(*fd, fargs, env, depth)});
        }
        if let TyKind::Closure(cd, cargs) = t.kind() {
            if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, env, *cd, cargs) {
                let k = self.enqueue(inst, env, depth);
                return json!({"closure": k, "upvars": []});
            }
        }
        let ti = self.ty(t);
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let key = format!("{}::promoted[{}]", self.key(u.def, u.args), p.as_usize());
                if self.queued.insert(key.clone()) {
                    self.work.push_back((key.clone(), Work::Promoted(u.def, p.as_usize(), u.args, env, depth)));
                }
                return json!({"promoted": key, "ty": ti});
            }
            if !u.args.has_non_region_param() {
                if let Ok(v) = c.eval(self.tcx, TypingEnv::fully_monomorphized(), rustc_span::DUMMY_SP) {
                    let mut v = self.cval(v, t, ti, 0);
                    if let Some(o) = v.as_object_mut() {
                        o.insert("name".into(), json!(self.path(u.def)));
                    }
                    return v;
                }
            }
            // generic associated constant: dump its body when resolvable
            if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, env, u.def, u.args) {
                let rd = inst.def_id();
                if self.follow(rd, depth) && (rd.is_local() && self.promoted_bodies.contains_key(&rd.expect_local()) || self.tcx.is_mir_available(rd)) {
                    let key = self.key(rd, inst.args);
                    if self.queued.insert(key.clone()) {
                        self.work.push_back((key.clone(), Work::Const(rd, inst.args, env, depth)));
                    }
                    return json!({"promoted": key, "ty": ti, "name": self.path(u.def)});
                }
            }
            return json!({"unk": self.path(u.def), "ty": ti});
        }
        let _ = (d, args);
        match c {
            Const::Ty(_, ct) => match ct.try_to_scalar() {
                Some(s) => self.scalar(s, t, ti),
                None => json!({"unk": format!("{:?}", ct), "ty": ti}),
            },
            Const::Val(v, _) => self.cval(v, t, ti, 0),
            _ => unreachable!(),
        }
    }
    fn scalar(&mut self, s: mir::interpret::Scalar, t: Ty<'tcx>, ti: usize) -> Value {
        match s {
            mir::interpret::Scalar::Int(i) => {
                let size = i.size();
                let v = match t.kind() {
                    TyKind::Int(_) => i.to_int(size).to_string(),
                    _ => i.to_bits(size).to_string(),
                };
                json!({"int": v, "ty": ti})
            }
            mir::interpret::Scalar::Ptr(p, _) => {
                // reference to a static/promoted allocation: try to read it
                if let TyKind::Ref(_, inner, _) = t.kind() {
                    let (prov, off) = p.into_raw_parts();
                    let id = prov.alloc_id();
                    if let mir::interpret::GlobalAlloc::Memory(_) = self.tcx.global_alloc(id) {
                        if !inner.has_non_region_param() {
                            let it = self.ty(*inner);
                            let cv = ConstValue::Indirect { alloc_id: id, offset: off };
                            let inner_v = self.cval(cv, *inner, it, 1);
                            return json!({"ref": inner_v, "ty": ti});
                        }
                    }
                    if let mir::interpret::GlobalAlloc::Static(sd) = self.tcx.global_alloc(id) {
                        return json!({"static": self.path(sd), "ty": ti});
                    }
                }
                json!({"unk": "ptr", "ty": ti})
            }
        }
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, ti: usize, depth: usize) -> Value {
        if depth > 6 {
            return json!({"unk": "deep", "ty": ti});
        }
        if let TyKind::FnDef(fd, fargs) = t.kind() {
            let fargs = fargs.no_bound_vars().unwrap_or_else(|| fargs.skip_binder());
            return json!({"fn": self.fnref(*fd, fargs, TypingEnv::fully_monomorphized(), 3)});
        }
        match v {
            ConstValue::Scalar(s) => {
                match t.kind() {
                    TyKind::Adt(..) | TyKind::Tuple(..) | TyKind::Array(..) => {}
                    _ => return self.scalar(s, t, ti),
                }
            }
            ConstValue::ZeroSized => {
                if let TyKind::Tuple(ts) = t.kind() {
                    if ts.is_empty() {
                        return json!({"tuple": [], "ty": ti});
                    }
                }
            }
            ConstValue::Slice { .. } if matches!(t.kind(), TyKind::Ref(_, i, _) if i.is_str() || matches!(i.kind(), TyKind::Slice(e) if *e == self.tcx.types.u8)) => {
                if let TyKind::Ref(_, inner, _) = t.kind() {
                    if let Some(bytes) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        if inner.is_str() {
                            return json!({"str": String::from_utf8_lossy(bytes), "ty": ti});
                        }
                        if let TyKind::Slice(e) = inner.kind() {
                            if *e == self.tcx.types.u8 {
                                return json!({"bytes": bytes, "ty": ti});
                            }
                        }
                    }
                }
                return json!({"unk": "slice", "ty": ti});
            }
            _ => {}
        }
        if t.has_non_region_param() {
            return json!({"unk": "generic", "ty": ti});
        }
        match t.kind() {
            TyKind::Adt(..) | TyKind::Tuple(_) | TyKind::Array(..) => {
                if let Some(dc) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fields: Vec<Value> = dc.fields.iter().map(|(fv, ft)| {
                        let fti = self.ty(*ft);
                        self.cval(*fv, *ft, fti, depth + 1)
                    }).collect();
                    return match t.kind() {
                        TyKind::Adt(def, _) => {
                            let p = self.adt(*def);
                            let vi = dc.variant.unwrap_or(rustc_abi::FIRST_VARIANT);
                            json!({"adt": p, "variant": vi.as_usize(), "vname": def.variant(vi).name.to_string(), "fields": fields, "ty": ti})
                        }
                        TyKind::Tuple(_) => json!({"tuple": fields, "ty": ti}),
                        _ => json!({"array": fields, "ty": ti}),
                    };
                }
                json!({"unk": "aggregate", "ty": ti})
            }
            TyKind::Ref(_, inner, _) if inner.is_str() => {
                // indirect str
                if let Some(b) = self.read_fat(v) {
                    return json!({"str": String::from_utf8_lossy(&b), "ty": ti});
                }
                json!({"unk": "str", "ty": ti})
            }
            TyKind::Ref(_, inner, _) if matches!(inner.kind(), TyKind::Slice(e) if *e == self.tcx.types.u8) => {
                if let Some(b) = self.read_fat(v) {
                    return json!({"bytes": b, "ty": ti});
                }
                json!({"unk": "bytes", "ty": ti})
            }
            TyKind::Ref(_, inner, _) if matches!(inner.kind(), TyKind::Slice(_)) => {
                let TyKind::Slice(e) = *inner.kind() else { unreachable!() };
                if let Some((id, off, n)) = self.fat_parts(v) {
                    if let Ok(l) = self.tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(e)) {
                        if n <= 64 {
                            let ei = self.ty(e);
                            let els: Vec<Value> = (0..n).map(|i| self.cval(ConstValue::Indirect { alloc_id: id, offset: off + l.size * i }, e, ei, depth + 1)).collect();
                            return json!({"ref": {"array": els, "ty": ti}, "ty": ti});
                        }
                    }
                }
                json!({"unk": "slice", "ty": ti})
            }
            TyKind::Int(_) | TyKind::Uint(_) | TyKind::Bool | TyKind::Char | TyKind::Ref(..) => {
                if let TyKind::Ref(_, inner, _) = t.kind() {
                    if matches!(inner.kind(), TyKind::Dynamic(..)) {
                        return json!({"unk": "dyn", "ty": ti});
                    }
                }
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let mir::interpret::GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                        if let Ok(l) = self.tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                            let r = mir::interpret::AllocRange { start: offset, size: l.size };
                            let is_ptr = matches!(t.kind(), TyKind::Ref(..));
                            if let Ok(s) = a.inner().read_scalar(&self.tcx, r, is_ptr) {
                                return self.scalar(s, t, ti);
                            }
                        }
                    }
                }
                json!({"unk": "indirect", "ty": ti})
            }
            _ => json!({"unk": "other", "ty": ti}),
        }
    }
    fn fat_parts(&self, v: ConstValue) -> Option<(mir::interpret::AllocId, rustc_abi::Size, u64)> {
        if let ConstValue::Slice { alloc_id, meta } = v {
            return Some((alloc_id, rustc_abi::Size::ZERO, meta));
        }
        if let ConstValue::Indirect { alloc_id, offset } = v {
            if let mir::interpret::GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                let a = a.inner();
                let ps = self.tcx.data_layout.pointer_size();
                if a.size() < offset + ps + ps {
                    return None;
                }
                let p = a.read_scalar(&self.tcx, mir::interpret::AllocRange { start: offset, size: ps }, true).ok()?;
                let n = a.read_scalar(&self.tcx, mir::interpret::AllocRange { start: offset + ps, size: ps }, false).ok()?;
                let n = n.to_target_usize(&self.tcx).discard_err()?;
                if let mir::interpret::Scalar::Ptr(p, _) = p {
                    let (prov, off) = p.into_raw_parts();
                    return Some((prov.alloc_id(), off, n));
                }
            }
        }
        None
    }
    fn read_fat(&self, v: ConstValue) -> Option<Vec<u8>> {
        if let ConstValue::Indirect { alloc_id, offset } = v {
            if let mir::interpret::GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                let a = a.inner();
                let ps = self.tcx.data_layout.pointer_size();
                let p = a.read_scalar(&self.tcx, mir::interpret::AllocRange { start: offset, size: ps }, true).ok()?;
                let n = a.read_scalar(&self.tcx, mir::interpret::AllocRange { start: offset + ps, size: ps }, false).ok()?;
                let n = n.to_target_usize(&self.tcx).discard_err()?;
                if let mir::interpret::Scalar::Ptr(p, _) = p {
                    let (prov, off) = p.into_raw_parts();
                    if let mir::interpret::GlobalAlloc::Memory(m) = self.tcx.global_alloc(prov.alloc_id()) {
                        let m = m.inner();
                        let s = off.bytes() as usize;
                        return Some(m.inspect_with_uninit_and_ptr_outside_interpreter(s..s + n as usize).to_vec());
                    }
                }
            }
        }
        None
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>, depth: usize, b: &Body<'tcx>) -> Value {
        match r {
            Rvalue::Use(o, _) => json!(["use", self.operand(o, env, d, args, depth, b)]),
            Rvalue::Repeat(o, n) => json!(["repeat", self.operand(o, env, d, args, depth, b), n.try_to_target_usize(self.tcx)]),
            Rvalue::Ref(_, bk, p) => json!(["ref", matches!(bk, BorrowKind::Mut{..}), self.place(*p, b), matches!(bk, BorrowKind::Fake(_))]),
            Rvalue::RawPtr(k, p) => json!(["ref", matches!(k, RawPtrKind::Mut), self.place(*p, b), false]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&b.local_decls, self.tcx);
                let f = self.ty(from);
                let ti = self.ty(*t);
                // closure -> fn pointer, fn item -> fn pointer keep the value
                json!(["cast", format!("{:?}", k), self.operand(o, env, d, args, depth, b), ti, f])
            }
            Rvalue::BinaryOp(op, ops) => {
                let t = ops.0.ty(&b.local_decls, self.tcx);
                let ti = self.ty(t);
                json!(["bin", format!("{:?}", op), self.operand(&ops.0, env, d, args, depth, b), self.operand(&ops.1, env, d, args, depth, b), ti])
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(&b.local_decls, self.tcx);
                let ti = self.ty(t);
                json!(["un", format!("{:?}", op), self.operand(o, env, d, args, depth, b), ti])
            }
            Rvalue::Discriminant(p) => { let t = p.ty(&b.local_decls, self.tcx).ty; let ti = self.ty(t); json!(["discr", self.place(*p, b), ti]) }
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<Value> = ops.iter().map(|o| self.operand(o, env, d, args, depth, b)).collect();
                match &**k {
                    AggregateKind::Array(_) => json!(["agg", "array", fs]),
                    AggregateKind::Tuple => json!(["agg", "tuple", fs]),
                    AggregateKind::Adt(ad, vi, _, _, active) => {
                        let def = self.tcx.adt_def(*ad);
                        let p = self.adt(def);
                        let _ = active;
                        json!(["agg", "adt", fs, p, vi.as_usize(), def.variant(*vi).name.to_string()])
                    }
                    AggregateKind::Closure(cd, cargs) | AggregateKind::Coroutine(cd, cargs) | AggregateKind::CoroutineClosure(cd, cargs) => {
                        let inst = Instance::new_raw(*cd, cargs);
                        let k2 = self.enqueue(inst, env, depth);
                        let kind = match &**k { AggregateKind::Closure(..) => "closure", AggregateKind::Coroutine(..) => "coroutine", _ => "coroutine_closure" };
                        json!(["agg", kind, fs, k2])
                    }
                    AggregateKind::RawPtr(..) => json!(["agg", "rawptr", fs]),
                }
            }
            Rvalue::CopyForDeref(p) => json!(["use", ["c", self.place(*p, b)]]),
            Rvalue::Reborrow(_, m, p) => json!(["use", [if m.is_mut() {"m"} else {"c"}, self.place(*p, b)]]),
            Rvalue::ThreadLocalRef(dd) => json!(["tls", self.path(*dd)]),
            Rvalue::WrapUnsafeBinder(o, _) => json!(["use", self.operand(o, env, d, args, depth, b)]),
        }
    }
    fn stmt(&mut self, s: &Statement<'tcx>, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>, depth: usize, b: &Body<'tcx>) -> Option<Value> {
        match &s.kind {
            StatementKind::Assign(a) => {
                let (p, r) = &**a;
                Some(json!(["=", self.place(*p, b), self.rvalue(r, env, d, args, depth, b), self.span(s.source_info.span)]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => Some(json!(["setdiscr", self.place(**place, b), variant_index.as_usize()])),
            StatementKind::StorageDead(l) => Some(json!(["dead", l.as_usize()])),
            StatementKind::StorageLive(l) => Some(json!(["live", l.as_usize()])),
            _ => None,
        }
    }
    fn term(&mut self, t: &Terminator<'tcx>, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>, depth: usize, b: &Body<'tcx>) -> Value {
        let sp = self.span(t.source_info.span);
        let uw = |u: &UnwindAction| match u {
            UnwindAction::Cleanup(b) => json!(b.as_usize()),
            _ => Value::Null,
        };
        match &t.kind {
            TerminatorKind::Goto { target, .. } => json!(["goto", target.as_usize()]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&b.local_decls, self.tcx);
                let ti = self.ty(ty);
                let signed_bits = match ty.kind() { TyKind::Int(it) => it.bit_width(), _ => None };
                let vs: Vec<Value> = targets.iter().map(|(v, bb)| {
                    let s = if let Some(bits) = signed_bits {
                        let sh = 128 - bits as u32;
                        (((v << sh) as i128) >> sh).to_string()
                    } else { v.to_string() };
                    json!([s, bb.as_usize()])
                }).collect();
                json!(["switch", self.operand(discr, env, d, args, depth, b), vs, targets.otherwise().as_usize(), ti, sp])
            }
            TerminatorKind::Return => json!(["return", sp]),
            TerminatorKind::Unreachable => json!(["unreachable"]),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => json!(["resume"]),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let ty = place.ty(&b.local_decls, self.tcx).ty;
                let ti = self.ty(ty);
                json!(["drop", self.place(*place, b), target.as_usize(), ti, uw(unwind), sp])
            }
            TerminatorKind::Call { func, args: cargs, destination, target, unwind, .. } => {
                let f = self.operand(func, env, d, args, depth, b);
                let a: Vec<Value> = cargs.iter().map(|o| self.operand(&o.node, env, d, args, depth, b)).collect();
                let rt = destination.ty(&b.local_decls, self.tcx).ty;
                let rti = self.ty(rt);
                let sp2 = self.span(t.source_info.span);
                json!(["call", f, a, self.place(*destination, b), target.map(|t| t.as_usize()), uw(unwind), sp2, rti])
            }
            TerminatorKind::TailCall { .. } => json!(["tailcall", sp]),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (kind, ops): (String, Vec<Value>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![self.operand(len, env, d, args, depth, b), self.operand(index, env, d, args, depth, b)]),
                    AssertKind::Overflow(op, x, y) => (format!("Overflow({:?})", op), vec![self.operand(x, env, d, args, depth, b), self.operand(y, env, d, args, depth, b)]),
                    AssertKind::OverflowNeg(x) => ("OverflowNeg".into(), vec![self.operand(x, env, d, args, depth, b)]),
                    AssertKind::DivisionByZero(x) => ("DivisionByZero".into(), vec![self.operand(x, env, d, args, depth, b)]),
                    AssertKind::RemainderByZero(x) => ("RemainderByZero".into(), vec![self.operand(x, env, d, args, depth, b)]),
                    AssertKind::ResumedAfterReturn(_) | AssertKind::ResumedAfterPanic(_) | AssertKind::ResumedAfterDrop(_) => ("Resumed".into(), vec![]),
                    AssertKind::MisalignedPointerDereference { .. } | AssertKind::NullPointerDereference | AssertKind::NullReferenceConstructed => ("Ptr".into(), vec![]),
                    AssertKind::InvalidEnumConstruction(_) => ("InvalidEnum".into(), vec![]),
                };
                json!(["assert", self.operand(cond, env, d, args, depth, b), expected, kind, ops, target.as_usize(), sp])
            }
            TerminatorKind::Yield { resume, resume_arg, value, .. } => json!(["yield", self.operand(value, env, d, args, depth, b), resume.as_usize(), self.place(*resume_arg, b), sp]),
            TerminatorKind::CoroutineDrop => json!(["resume"]),
            TerminatorKind::FalseEdge { real_target, .. } => json!(["goto", real_target.as_usize()]),
            TerminatorKind::FalseUnwind { real_target, .. } => json!(["goto", real_target.as_usize()]),
            TerminatorKind::InlineAsm { .. } => json!(["asm", sp]),
        }
    }
}

// ----- hand-written unsafe code
struct UnsafeVisitor<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(String, Span)>,
    checked: usize,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeVisitor<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        self.checked += 1;
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            if own_code(self.tcx, b.span) {
                self.found.push(("unsafe block".into(), b.span));
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        self.checked += 1;
        match &i.kind {
            rustc_hir::ItemKind::Impl(im) => {
                if let Some(t) = im.of_trait {
                    if !t.safety.is_safe() && own_code(self.tcx, i.span) {
                        self.found.push(("unsafe impl".into(), i.span));
                    }
                }
            }
            rustc_hir::ItemKind::ForeignMod { .. } => {
                if own_code(self.tcx, i.span) {
                    self.found.push(("foreign items".into(), i.span));
                }
            }
            rustc_hir::ItemKind::Fn { sig, .. } => {
                if !sig.header.is_safe() && own_code(self.tcx, i.span) {
                    self.found.push(("unsafe fn".into(), i.span));
                }
            }
            rustc_hir::ItemKind::Static(m, ..) => {
                if m.is_mut() && own_code(self.tcx, i.span) {
                    self.found.push(("static mut".into(), i.span));
                }
            }
            _ => {}
        }
        rustc_hir::intravisit::walk_item(self, i);
    }
    fn visit_impl_item(&mut self, i: &'tcx rustc_hir::ImplItem<'tcx>) {
        self.checked += 1;
        if let rustc_hir::ImplItemKind::Fn(sig, _) = &i.kind {
            if !sig.header.is_safe() && own_code(self.tcx, i.span) {
                self.found.push(("unsafe fn".into(), i.span));
            }
        }
        rustc_hir::intravisit::walk_impl_item(self, i);
    }
}
/// Written in this workspace: not produced by a macro defined in another crate.
fn own_code(tcx: TyCtxt<'_>, sp: Span) -> bool {
    let _ = tcx;
    let mut sp = sp;
    loop {
        let ctxt = sp.ctxt();
        if ctxt.is_root() {
            return true;
        }
        let data = ctxt.outer_expn_data();
        match data.macro_def_id {
            Some(d) if !d.is_local() => return false,
            _ => {}
        }
        sp = data.call_site;
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if !WORKSPACE.contains(&name.as_str()) {
            return Compilation::Continue;
        }
        let mut du = Dump {
            tcx,
            promoted_bodies: HashMap::new(),
            bodies: Map::new(),
            queued: HashSet::new(),
            work: VecDeque::new(),
            tys: HashMap::new(),
            ty_list: vec![],
            adts: Map::new(),
        };
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        let mut stolen = vec![];
        for &o in &owners {
            let did = o.to_def_id();
            if tcx.is_constructor(did) || tcx.is_trivial_const(o) {
                continue;
            }
            if matches!(tcx.def_kind(o), DefKind::GlobalAsm) {
                continue;
            }
            let (b, p) = tcx.mir_promoted(o);
            if b.is_stolen() {
                stolen.push(du.path(did));
                continue;
            }
            let pb: Vec<Body<'tcx>> = if p.is_stolen() {
                tcx.promoted_mir(did).iter().cloned().collect()
            } else {
                p.borrow().iter().cloned().collect()
            };
            du.promoted_bodies.insert(o, (b.borrow().clone(), pb));
        }
        // roots: every fn of the crate under its own generics
        let mut roots = vec![];
        let mut fns = vec![];
        let mut witnesses = Map::new();
        for &o in &owners {
            let did = o.to_def_id();
            let kind = tcx.def_kind(o);
            match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    let args = ty::GenericArgs::identity_for_item(tcx, did);
                    let env = TypingEnv::post_analysis(tcx, did);
                    let inst = Instance::new_raw(did, args);
                    if let Some(k) = du.enqueue(inst, env, 0) {
                        roots.push(json!(k));
                    }
                    let trait_impl = tcx.impl_of_assoc(did).and_then(|i| tcx.impl_opt_trait_ref(i)).map(|t| du.path(t.skip_binder().def_id));
                    let self_ty = tcx.impl_of_assoc(did).map(|i| du.tystr(tcx.type_of(i).instantiate_identity().skip_norm_wip()));
                    fns.push(json!({"path": du.path(did), "key": du.key(did, args), "span": du.span(tcx.def_span(did)),
                        "vis": format!("{:?}", tcx.visibility(did)), "impl_of": trait_impl, "self": self_ty,
                        "async": tcx.asyncness(did).is_async()}));
                }
                DefKind::Closure => {
                    if tcx.is_coroutine(did) {
                        if let Some(w) = tcx.mir_coroutine_witnesses(did) {
                            let mut pts = vec![];
                            for (v, fields) in w.variant_fields.iter_enumerated() {
                                let sp = w.variant_source_info[v].span;
                                let tys: Vec<Value> = fields.iter().map(|f| {
                                    let st = &w.field_tys[*f];
                                    let e = tcx.try_normalize_erasing_regions(TypingEnv::post_analysis(tcx, did), ty::Unnormalized::new_wip(tcx.erase_and_anonymize_regions(st.ty))).unwrap_or(st.ty);
                                    let t = du.ty(e);
                                    json!([t, du.span(st.source_info.span)])
                                }).collect();
                                pts.push(json!({"variant": v.as_usize(), "span": du.span(sp), "tys": tys}));
                            }
                            witnesses.insert(du.path(did), json!({"span": du.span(tcx.def_span(did)), "points": pts}));
                        }
                    }
                }
                _ => {}
            }
        }
        du.run();
        // every local ADT, also those no body mentions
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
                du.adt(tcx.adt_def(id.to_def_id()));
            }
        }
        let mut uv = UnsafeVisitor { tcx, found: vec![], checked: 0 };
        tcx.hir_walk_toplevel_module(&mut uv);
        let unsafes: Vec<Value> = uv.found.iter().map(|(k, s)| json!([k, du.span(*s)])).collect();
        let attrs: Vec<String> = vec![];
        let out = json!({
            "crate": name, "roots": roots, "fns": fns, "bodies": du.bodies, "types": du.ty_list, "adts": du.adts,
            "witnesses": witnesses, "unsafe": unsafes, "unsafe_checked": uv.checked, "stolen": stolen, "attrs": attrs,
        });
        let f = format!("{}/{}.json", self.out, name);
        std::fs::write(&f, serde_json::to_string(&out).unwrap()).expect("write dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    args.remove(0);
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let info_only = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"));
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    let is_test = args.iter().any(|a| a == "--test");
    if out.is_empty() || info_only || !is_lib || is_test {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    args.push("-Zalways-encode-mir".into());
    args.push("-Zmir-opt-level=0".into());
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
