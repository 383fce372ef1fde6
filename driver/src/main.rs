//! A MIR server: runs as rustc (RUSTC_WORKSPACE_WRAPPER), and after type checking answers
//! JSON requests about the crate being compiled over the unix socket named in SRV_SOCK.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate rustc_trait_selection;
extern crate rustc_infer;
extern crate serde_json;

use rustc_middle::ty::{self as mty, TyCtxt};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::rustc_internal;
use rustc_public::ty::{ClosureKind, FnDef, GenericArgKind, GenericArgs, Region, RegionKind, RigidTy, Ty, TyKind};
use rustc_public::{CrateDef, DefId};
use rustc_public_bridge::IndexedVal;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::ops::ControlFlow;
use std::os::unix::net::UnixStream;

struct Srv {
    insts: HashMap<usize, Instance>,
    fndefs: HashMap<usize, FnDef>,
}

fn ti(t: &Ty) -> usize {
    serde_json::to_value(t).unwrap().as_u64().unwrap() as usize
}

fn span_str(s: &rustc_public::ty::Span) -> String {
    let l = s.get_lines();
    format!("{}:{}", s.get_filename(), l.start_line)
}

fn path(tcx: TyCtxt<'_>, d: rustc_hir::def_id::DefId) -> String {
    let _g = rustc_middle::ty::print::NoTrimmedGuard::new();
    let _v = rustc_middle::ty::print::NoVisibleGuard::new();
    tcx.def_path_str(d)
}

fn erased(a: &GenericArgs) -> GenericArgs {
    GenericArgs(
        a.0.iter()
            .map(|k| match k {
                GenericArgKind::Lifetime(_) => GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }),
                k => k.clone(),
            })
            .collect(),
    )
}

impl Srv {
    fn inst_info<'tcx>(&mut self, tcx: TyCtxt<'tcx>, i: Instance) -> Value {
        let id = i.def.to_index();
        self.insts.insert(id, i);
        let internal = rustc_internal::internal(tcx, i);
        let did = internal.def_id();
        let is_fn = matches!(tcx.def_kind(did), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn);
        let mut v = json!({
            "id": id,
            "kind": format!("{:?}", i.kind),
            "shim": format!("{:?}", internal.def).split('(').next().unwrap_or("").to_string(),
            "name": i.name(),
            "path": path(tcx, did),
            "local": did.is_local(),
            "defkind": format!("{:?}", tcx.def_kind(did)),
            "intrinsic": i.intrinsic_name(),
            "ty": ti(&i.ty()),
            "has_body": i.has_body() || matches!(i.kind, InstanceKind::Shim),
            "track_caller": i.requires_caller_location(),
            "args": i.args().0.iter().filter_map(|k| k.ty().map(ti)).collect::<Vec<_>>(),
        });
        if is_fn {
            let env = mty::TypingEnv::fully_monomorphized();
            let sig = tcx.fn_sig(did).instantiate(tcx, internal.args).skip_norm_wip();
            let out = tcx.instantiate_bound_regions_with_erased(sig).output();
            let out = tcx.normalize_erasing_regions(env, mty::Unnormalized::new_wip(out));
            v["ret"] = json!(ti(&rustc_internal::stable(out)));
            let krate = did.krate;
            v["krate"] = json!(tcx.crate_name(krate).to_string());
            v["def"] = json!(rustc_internal::stable(did).to_index());
            if let Some(ai) = tcx.opt_associated_item(did) {
                v["method"] = json!(ai.name().to_string());
                let parent = tcx.parent(did);
                if tcx.is_trait(parent) {
                    v["trait"] = json!(path(tcx, parent));
                    let args = internal.args;
                    if args.len() > 0 {
                        if let Some(t) = args[0].as_type() {
                            v["self_ty"] = json!(ti(&rustc_internal::stable(t)));
                        }
                    }
                    let n = tcx.generics_of(parent).count();
                    v["trait_args"] = json!(args.iter().take(n).filter_map(|a| a.as_type()).map(|t| ti(&rustc_internal::stable(t))).collect::<Vec<_>>());
                } else {
                    let st = tcx.type_of(parent);
                    let n = tcx.generics_of(parent).count();
                    let pargs = tcx.mk_args(&internal.args[..n.min(internal.args.len())]);
                    let env = mty::TypingEnv::fully_monomorphized();
                    let sty = tcx.instantiate_and_normalize_erasing_regions(pargs, env, st);
                    v["self_ty"] = json!(ti(&rustc_internal::stable(sty)));
                    if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                        let tr = tcx.instantiate_and_normalize_erasing_regions(pargs, env, tr);
                        v["trait"] = json!(path(tcx, tr.def_id));
                        v["trait_args"] = json!(tr.args.iter().filter_map(|a| a.as_type()).map(|t| ti(&rustc_internal::stable(t))).collect::<Vec<_>>());
                        v["derived"] = json!(tcx.is_automatically_derived(parent));
                    }
                }
            }
        }
        v
    }

    fn ty_info<'tcx>(&mut self, tcx: TyCtxt<'tcx>, t: Ty) -> Value {
        let name = {
            let it = rustc_internal::internal(tcx, t);
            let _g = rustc_middle::ty::print::NoTrimmedGuard::new();
            format!("{}", it)
        };
        let k = t.kind();
        let mut v = json!({"name": name});
        let r = match &k {
            TyKind::RigidTy(r) => r,
            _ => {
                v["k"] = json!("other");
                return v;
            }
        };
        match r {
            RigidTy::Bool => v["k"] = json!("bool"),
            RigidTy::Char => v["k"] = json!("char"),
            RigidTy::Int(_) => v["k"] = json!("int"),
            RigidTy::Uint(_) => v["k"] = json!("uint"),
            RigidTy::Float(_) => v["k"] = json!("float"),
            RigidTy::Str => v["k"] = json!("str"),
            RigidTy::Never => v["k"] = json!("never"),
            RigidTy::Slice(t) => {
                v["k"] = json!("slice");
                v["elem"] = json!(ti(t));
            }
            RigidTy::Array(t, n) => {
                v["k"] = json!("array");
                v["elem"] = json!(ti(t));
                v["len"] = json!(n.eval_target_usize().ok());
            }
            RigidTy::Ref(_, t, m) => {
                v["k"] = json!("ref");
                v["elem"] = json!(ti(t));
                v["mut"] = json!(format!("{:?}", m) == "Mut");
            }
            RigidTy::RawPtr(t, m) => {
                v["k"] = json!("ptr");
                v["elem"] = json!(ti(t));
                v["mut"] = json!(format!("{:?}", m) == "Mut");
            }
            RigidTy::Tuple(ts) => {
                v["k"] = json!("tuple");
                v["elems"] = json!(ts.iter().map(ti).collect::<Vec<_>>());
            }
            RigidTy::FnDef(d, a) => {
                v["k"] = json!("fndef");
                let did = rustc_internal::internal(tcx, d.def_id());
                v["path"] = json!(path(tcx, did));
                v["krate"] = json!(tcx.crate_name(did.krate).to_string());
                v["args"] = json!(a.0.iter().filter_map(|k| k.ty().map(ti)).collect::<Vec<_>>());
            }
            RigidTy::FnPtr(_) => v["k"] = json!("fnptr"),
            RigidTy::Closure(d, a) => {
                v["k"] = json!("closure");
                v["def"] = json!(d.def_id().to_index());
                let it = rustc_internal::internal(tcx, t);
                if let mty::Closure(_, args) = it.kind() {
                    let up = args.as_closure().upvar_tys();
                    v["elems"] = json!(up.iter().map(|t| ti(&rustc_internal::stable(t))).collect::<Vec<_>>());
                    v["ckind"] = json!(format!("{:?}", args.as_closure().kind()));
                }
                let _ = a;
            }
            RigidTy::Dynamic(..) => v["k"] = json!("dyn"),
            RigidTy::Adt(d, a) => {
                v["k"] = json!("adt");
                let did = rustc_internal::internal(tcx, d.def_id());
                v["adt"] = json!(path(tcx, did));
                v["local"] = json!(did.is_local());
                v["adtkind"] = json!(format!("{:?}", d.kind()));
                v["args"] = json!(a.0.iter().filter_map(|k| k.ty().map(ti)).collect::<Vec<_>>());
                let it = rustc_internal::internal(tcx, t);
                let env = mty::TypingEnv::fully_monomorphized();
                if let mty::Adt(ad, args) = it.kind() {
                    let vs: Vec<Value> = ad
                        .variants()
                        .iter_enumerated()
                        .map(|(idx, vd)| {
                            let discr = if ad.is_enum() { ad.discriminant_for_variant(tcx, idx).val.to_string() } else { "0".to_string() };
                            json!({
                                "name": vd.name.to_string(),
                                "discr": discr,
                                "fields": vd.fields.iter().map(|f| {
                                    let ft = tcx.normalize_erasing_regions(env, f.ty(tcx, args));
                                    json!([f.name.to_string(), ti(&rustc_internal::stable(ft))])
                                }).collect::<Vec<_>>(),
                            })
                        })
                        .collect();
                    v["variants"] = json!(vs);
                    v["freeze"] = json!(it.is_freeze(tcx, env));
                }
            }
            _ => v["k"] = json!("other"),
        }
        v
    }

    fn handle<'tcx>(&mut self, tcx: TyCtxt<'tcx>, q: &Value) -> Value {
        let op = q["q"].as_str().unwrap_or("");
        let u = |k: &str| q[k].as_u64().unwrap_or(0) as usize;
        match op {
            "crate" => self.krate(tcx),
            "ty" => self.ty_info(tcx, Ty::to_val(u("i"))),
            "layout" => match Ty::to_val(u("i")).layout() {
                Ok(l) => json!({"raw": serde_json::to_string(&l.shape()).unwrap()}),
                Err(e) => json!({"err": format!("{:?}", e)}),
            },
            "span" => json!(span_str(&rustc_public::ty::Span::to_val(u("i")))),
            "body" => {
                let i = self.insts[&u("id")];
                match i.body() {
                    Some(b) => {
                        let mut v = serde_json::to_value(&b).unwrap();
                        v["span_str"] = json!(span_str(&b.span));
                        v
                    }
                    None => Value::Null,
                }
            }
            "gbody" => {
                // the body of a local function as written, type parameters and all
                let d = self.fndefs[&u("def")];
                match d.body() {
                    Some(b) => serde_json::to_value(&b).unwrap(),
                    None => Value::Null,
                }
            }
            "resolve" => {
                let t = Ty::to_val(u("i"));
                match t.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                        let a = erased(&a);
                        self.fndefs.insert(d.def_id().to_index(), d);
                        match Instance::resolve(d, &a) {
                            Ok(i) => self.inst_info(tcx, i),
                            Err(e) => json!({"err": format!("{:?}", e)}),
                        }
                    }
                    TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                        let kind = match q["ckind"].as_str().unwrap_or("FnOnce") {
                            "Fn" => ClosureKind::Fn,
                            "FnMut" => ClosureKind::FnMut,
                            _ => ClosureKind::FnOnce,
                        };
                        match Instance::resolve_closure(d, &a, kind) {
                            Ok(i) => self.inst_info(tcx, i),
                            Err(e) => json!({"err": format!("{:?}", e)}),
                        }
                    }
                    _ => json!({"err": "not a function type"}),
                }
            }
            "mono" => {
                // instantiate a local generic function with the given types, if its bounds hold
                let d = self.fndefs[&u("def")];
                let did = rustc_internal::internal(tcx, d.def_id());
                let tys: Vec<Ty> = q["args"].as_array().unwrap().iter().map(|x| Ty::to_val(x.as_u64().unwrap() as usize)).collect();
                let mut it = tys.iter();
                let args = mty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                    mty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => rustc_internal::internal(tcx, *it.next().unwrap()).into(),
                });
                if tcx.instantiate_and_check_impossible_clauses((did, args)) {
                    return json!({"err": "bounds"});
                }
                let env = mty::TypingEnv::fully_monomorphized();
                match mty::Instance::try_resolve(tcx, env, did, args) {
                    Ok(Some(i)) => {
                        let i: Instance = rustc_internal::stable(i);
                        self.inst_info(tcx, i)
                    }
                    _ => json!({"err": "resolve"}),
                }
            }
            "mkref" => {
                let t = Ty::to_val(u("i"));
                json!({"i": ti(&Ty::new_ref(rustc_public::ty::Region { kind: rustc_public::ty::RegionKind::ReErased }, t, rustc_public::mir::Mutability::Not))})
            }
            "trait_method" => {
                let tname = q["trait"].as_str().unwrap();
                let m = q["method"].as_str().unwrap();
                let tys: Vec<Ty> = q["args"].as_array().unwrap().iter().map(|x| Ty::to_val(x.as_u64().unwrap() as usize)).collect();
                for td in tcx.all_traits_including_private() {
                    if path(tcx, td) != tname {
                        continue;
                    }
                    for ai in tcx.associated_items(td).in_definition_order() {
                        if ai.opt_name().map(|n| n.to_string()).as_deref() != Some(m) {
                            continue;
                        }
                        let mut it = tys.iter();
                        let args = mty::GenericArgs::for_item(tcx, ai.def_id, |p, _| match p.kind {
                            mty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                            _ => rustc_internal::internal(tcx, *it.next().unwrap()).into(),
                        });
                        let env = mty::TypingEnv::fully_monomorphized();
                        return match mty::Instance::try_resolve(tcx, env, ai.def_id, args) {
                            Ok(Some(i)) => {
                                let i: Instance = rustc_internal::stable(i);
                                self.inst_info(tcx, i)
                            }
                            _ => json!({"err": "resolve"}),
                        };
                    }
                }
                json!({"err": "no such trait method"})
            }
            "alloc" => {
                let g = GlobalAlloc::from(AllocId::to_val(u("id")));
                match g {
                    GlobalAlloc::Memory(a) => json!({"mem": serde_json::to_value(&a).unwrap()}),
                    GlobalAlloc::Static(s) => {
                        let init = s.eval_initializer();
                        json!({"static": s.name(), "ty": ti(&s.ty()), "mem": init.ok().map(|a| serde_json::to_value(&a).unwrap())})
                    }
                    GlobalAlloc::Function(i) => json!({"fn": self.inst_info(tcx, i)}),
                    o => json!({"other": format!("{:?}", o)}),
                }
            }
            _ => json!({"err": format!("unknown request {}", op)}),
        }
    }

    fn krate<'tcx>(&mut self, tcx: TyCtxt<'tcx>) -> Value {
        let c = rustc_public::local_crate();
        let mut fns = vec![];
        for d in c.fn_defs() {
            let did = rustc_internal::internal(tcx, d.def_id());
            self.fndefs.insert(d.def_id().to_index(), d);
            let g = tcx.generics_of(did);
            let mut ntys = 0;
            for i in 0..g.count() {
                if !matches!(g.param_at(i, tcx).kind, mty::GenericParamDefKind::Lifetime) {
                    ntys += 1;
                }
            }
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            let has_body = tcx.is_mir_available(did);
            let sigs = {
                let _g = rustc_middle::ty::print::NoTrimmedGuard::new();
                format!("{}", sig)
            };
            let mut v = json!({
                "def": d.def_id().to_index(),
                "path": path(tcx, did),
                "span": span_str(&d.span()),
                "ntys": ntys,
                "unsafe": !sig.safety().is_safe(),
                "has_body": has_body,
                "sig": sigs,
                "in_trait_decl": tcx.trait_of_assoc(did).is_some(),
                "public": tcx.visibility(did).is_public(),
            });
            if ntys == 0 && has_body {
                let args = mty::GenericArgs::for_item(tcx, did, |_, _| tcx.lifetimes.re_erased.into());
                let env = mty::TypingEnv::fully_monomorphized();
                if let Ok(Some(i)) = mty::Instance::try_resolve(tcx, env, did, args) {
                    let i: Instance = rustc_internal::stable(i);
                    v["inst"] = self.inst_info(tcx, i);
                }
            } else if let Some(ai) = tcx.opt_associated_item(did) {
                v["method"] = json!(ai.name().to_string());
                let parent = tcx.parent(did);
                if let Some(tr) = if tcx.is_trait(parent) { None } else { tcx.impl_opt_trait_ref(parent) } {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    v["trait"] = json!(path(tcx, tr.def_id));
                    let _g = rustc_middle::ty::print::NoTrimmedGuard::new();
                    v["self_name"] = json!(format!("{}", tr.self_ty()));
                }
            }
            fns.push(v);
        }
        let statics: Vec<Value> = c
            .statics()
            .iter()
            .map(|s| {
                let did = rustc_internal::internal(tcx, s.def_id());
                let it = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let env = mty::TypingEnv::fully_monomorphized();
                json!({"name": path(tcx, did), "ty": ti(&rustc_internal::stable(it)), "mut": tcx.is_mutable_static(did), "freeze": it.is_freeze(tcx, env),
                       "thread_local": tcx.is_thread_local_static(did), "span": span_str(&s.span())})
            })
            .collect();
        let adts: Vec<Value> = c
            .adts()
            .iter()
            .map(|a| {
                let did = rustc_internal::internal(tcx, a.def_id());
                let g = tcx.generics_of(did);
                let mut v = json!({"path": path(tcx, did), "span": span_str(&a.span()), "ngen": g.count()});
                if g.count() == 0 {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    v["ty"] = json!(ti(&rustc_internal::stable(t)));
                }
                v
            })
            .collect();
        let prims: Value = {
            let t = &tcx.types;
            let l = [
                ("bool", t.bool), ("i8", t.i8), ("i16", t.i16), ("i32", t.i32), ("i64", t.i64), ("i128", t.i128), ("isize", t.isize),
                ("u8", t.u8), ("u16", t.u16), ("u32", t.u32), ("u64", t.u64), ("u128", t.u128), ("usize", t.usize),
                ("f32", t.f32), ("f64", t.f64), ("unit", t.unit), ("char", t.char),
            ];
            let mut m = serde_json::Map::new();
            for (n, t) in l {
                m.insert(n.to_string(), json!(ti(&rustc_internal::stable(t))));
            }
            Value::Object(m)
        };
        // user-written unsafe
        let mut uns = vec![];
        struct V<'a, 'tcx> {
            tcx: TyCtxt<'tcx>,
            out: &'a mut Vec<String>,
        }
        impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                self.tcx
            }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                    self.out.push(self.tcx.sess.source_map().span_to_diagnostic_string(b.span));
                }
                rustc_hir::intravisit::walk_block(self, b)
            }
        }
        tcx.hir_walk_toplevel_module(&mut V { tcx, out: &mut uns });
        let mut impls = vec![];
        for im in c.trait_impls() {
            let did = rustc_internal::internal(tcx, im.def_id());
            let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
            let _g = rustc_middle::ty::print::NoTrimmedGuard::new();
            impls.push(json!({"trait": path(tcx, tr.def_id), "ref": format!("{}", tr), "self": format!("{}", tr.self_ty()),
                "derived": tcx.is_automatically_derived(did),
                "unsafe": !tcx.trait_def(tr.def_id).safety.is_safe()}));
        }
        let foreign = c.foreign_modules().len();
        json!({"name": c.name, "fns": fns, "statics": statics, "adts": adts, "prims": prims, "unsafe_blocks": uns, "impls": impls,
               "foreign_modules": foreign})
    }
}

fn serve(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let sock = match std::env::var("SRV_SOCK") {
        Ok(s) => s,
        Err(_) => return ControlFlow::Continue(()),
    };
    let _ = DefId::to_val;
    let s = UnixStream::connect(&sock).expect("connect");
    let mut w = s.try_clone().unwrap();
    let r = BufReader::new(s);
    let mut srv = Srv { insts: HashMap::new(), fndefs: HashMap::new() };
    for line in r.lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        let q: Value = serde_json::from_str(&line).unwrap();
        if q["q"] == "quit" {
            break;
        }
        let a = srv.handle(tcx, &q);
        let mut s = serde_json::to_string(&a).unwrap();
        s.push('\n');
        if w.write_all(s.as_bytes()).is_err() {
            break;
        }
    }
    ControlFlow::Continue(())
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let _ = rustc_internal::run(tcx, || serve(tcx));
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let primary = std::env::var("CARGO_PRIMARY_PACKAGE").is_ok() && !args.iter().any(|a| a == "--print" || a == "-vV");
    if primary {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=on".into());
        // the pointer sanity checks of debug builds are no part of the program's logic
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
