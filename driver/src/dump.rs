use crate::json::J;
use crate::obj;
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::Span;

/// The `unsafe` blocks of a body.
struct UnsafeBlocks(Vec<Span>);
impl<'v> rustc_hir::intravisit::Visitor<'v> for UnsafeBlocks {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules { self.0.push(b.span); }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: FxHashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    ty_queue: Vec<(Ty<'tcx>, TypingEnv<'tcx>)>,
    insts: FxHashMap<(Instance<'tcx>, DefId), usize>,
    queue: Vec<(Instance<'tcx>, DefId, TypingEnv<'tcx>)>,
    deep: Option<Vec<String>>,
}

pub fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(with_no_visible_paths!(tcx.def_path_str(d)))
}

fn tystr(t: Ty<'_>) -> String {
    with_no_trimmed_paths!(with_no_visible_paths!(format!("{t}")))
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, deep: Option<&str>) -> String {
    let mut cx = Cx {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        tys: Default::default(),
        ty_out: vec![],
        ty_queue: vec![],
        insts: Default::default(),
        queue: vec![],
        deep: deep.map(|s| s.split(',').map(|x| x.to_string()).filter(|x| !x.is_empty()).collect()),
    };
    let mut roots = vec![];
    for ld in tcx.mir_keys(()).iter() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => (),
            DefKind::Ctor(..) => continue,
            _ => continue,
        }
        // const fns are included as well
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let args = tcx.erase_and_anonymize_regions(args);
        let inst = Instance::new_raw(d, args);
        roots.push((inst, d));
    }
    for (inst, d) in roots {
        let env = TypingEnv::post_analysis(tcx, d);
        cx.inst_id(inst, d, env);
    }
    let mut fns = vec![];
    let mut i = 0;
    while i < cx.queue.len() {
        let (inst, root, env) = cx.queue[i];
        cx.env = env;
        fns.push(cx.func(i, inst, root));
        i += 1;
    }
    // statics and consts of the crate (bodies of statics are analysed as functions without args)
    let mut statics = vec![];
    for ld in tcx.mir_keys(()).iter() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Static { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = cx.ty(t);
                statics.push(obj! {"path": path(tcx, d), "ty": t, "span": cx.span(tcx.def_span(d))});
            }
            DefKind::Const { .. } => {
                if tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let c = Const::from_unevaluated(tcx, d).instantiate_identity().skip_norm_wip();
                cx.env = TypingEnv::fully_monomorphized();
                let v = cx.constant(c, tcx.def_span(d));
                let t = cx.ty(t);
                statics.push(obj! {"path": path(tcx, d), "const": true, "ty": t, "value": v, "span": cx.span(tcx.def_span(d))});
            }
            _ => (),
        }
    }
    // trait impls of the crate
    let mut impls = vec![];
    for (tr, ids) in tcx.all_local_trait_impls(()).iter() {
        for id in ids {
            let t = tcx.type_of(id.to_def_id()).instantiate_identity().skip_norm_wip();
            let items: Vec<J> = tcx.associated_item_def_ids(id.to_def_id()).iter().map(|x| J::from(path(tcx, *x))).collect();
            impls.push(obj! {"trait": path(tcx, *tr), "self": tystr(t), "items": items, "span": cx.span(tcx.def_span(id.to_def_id()))});
        }
    }
    // local ADTs
    let mut adts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            let t = tcx.type_of(id.to_def_id()).instantiate_identity().skip_norm_wip();
            cx.env = TypingEnv::non_body_analysis(tcx, id.to_def_id());
            let n = cx.ty(t);
            adts.push(obj! {"path": path(tcx, id.to_def_id()), "ty": n});
        }
    }
    // types refer to closure bodies, bodies to types: run to closure
    let mut k = 0;
    loop {
        while k < cx.ty_queue.len() {
            let (t, env) = cx.ty_queue[k];
            cx.env = env;
            cx.fill_ty(k, t);
            k += 1;
        }
        if i >= cx.queue.len() { break; }
        while i < cx.queue.len() {
            let (inst, root, env) = cx.queue[i];
            cx.env = env;
            fns.push(cx.func(i, inst, root));
            i += 1;
        }
    }
    let types = std::mem::take(&mut cx.ty_out);
    let j = obj! {
        "crate": tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string(),
        "fns": fns, "statics": statics, "impls": impls, "adts": adts, "types": types,
    };
    let mut s = String::new();
    j.write(&mut s);
    s
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let mut mac = vec![];
        for e in sp.macro_backtrace() {
            mac.push(J::from(match e.macro_def_id {
                Some(d) => path(self.tcx, d),
                None => format!("{:?}", e.kind),
            }));
        }
        let o = sp.source_callsite();
        let lo = sm.lookup_char_pos(o.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        let l: u64 = lo.line as u64;
        let c: u64 = lo.col.0 as u64;
        let mut v = vec![J::from(f), J::from(l), J::from(c)];
        if !mac.is_empty() { v.push(J::A(mac)); }
        J::A(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(J::Null);
        self.ty_queue.push((t, self.env));
        i
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }

    fn gargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let v: Vec<Ty<'tcx>> = args.types().collect();
        J::A(v.into_iter().map(|t| J::from(self.ty(t))).collect())
    }

    fn fill_ty(&mut self, i: usize, t: Ty<'tcx>) {
        let tcx = self.tcx;
        let s = tystr(t);
        let j = match t.kind() {
            TyKind::Bool => obj! {"k":"bool"},
            TyKind::Char => obj! {"k":"char"},
            TyKind::Int(x) => obj! {"k":"int","bits": x.bit_width().unwrap_or(64)},
            TyKind::Uint(x) => obj! {"k":"uint","bits": x.bit_width().unwrap_or(64)},
            TyKind::Float(x) => obj! {"k":"float","bits": x.bit_width()},
            TyKind::Str => obj! {"k":"str"},
            TyKind::Never => obj! {"k":"never"},
            TyKind::Array(e, n) => {
                let len = n.try_to_target_usize(tcx);
                obj! {"k":"array","elem": self.ty(*e),"len": len}
            }
            TyKind::Slice(e) => obj! {"k":"slice","elem": self.ty(*e)},
            TyKind::RawPtr(e, m) => obj! {"k":"ptr","to": self.ty(*e),"mut": m.is_mut()},
            TyKind::Ref(_, e, m) => obj! {"k":"ref","to": self.ty(*e),"mut": m.is_mut()},
            TyKind::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|t| J::from(self.ty(t))).collect();
                obj! {"k":"tuple","elems": v}
            }
            TyKind::Adt(def, args) => {
                let mut vs = vec![];
                let p = path(tcx, def.did());
                let opaque = p.starts_with("alloc::") && !p.starts_with("alloc::borrow::Cow") || p.starts_with("std::") || p.starts_with("hashbrown::");
                if !opaque && !def.is_union() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = self.norm(ft);
                            fs.push(obj! {"name": f.name.to_string(), "ty": self.ty(ft), "pub": f.vis.is_public()});
                        }
                        let discr = if def.is_enum() { J::I(def.discriminant_for_variant(tcx, vi).val as i128) } else { J::Null };
                        vs.push(obj! {"name": v.name.to_string(), "fields": fs, "discr": discr});
                    }
                }
                let a = self.gargs(args);
                obj! {"k":"adt","path": p,"enum": def.is_enum(), "opaque": opaque, "variants": vs,"args": a, "box": def.is_box()}
            }
            TyKind::FnDef(d, args) => {
                let d: DefId = (*d).into();
                let args = args.skip_binder();
                let c = self.callee(d, args);
                obj! {"k":"fndef","callee": c}
            }
            TyKind::Closure(d, args) => {
                let d: DefId = (*d).into();
                let ups: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let ups: Vec<J> = ups.into_iter().map(|t| { let t = self.norm(t); J::from(self.ty(t)) }).collect();
                let names: Vec<J> = tcx.closure_saved_names_of_captured_variables(d).iter().map(|x| J::from(x.to_string())).collect();
                let inst = Instance::new_raw(d, tcx.erase_and_anonymize_regions(*args));
                let env = self.env;
                let id = self.lookup_inst(inst, env);
                let kind = format!("{:?}", args.as_closure().kind());
                obj! {"k":"closure","path": path(tcx, d),"upvars": ups,"names": names,"inst": id, "ckind": kind}
            }
            TyKind::FnPtr(..) => obj! {"k":"fnptr"},
            TyKind::Dynamic(preds, _) => {
                obj! {"k":"dyn","trait": preds.principal_def_id().map(|d| path(tcx, d))}
            }
            TyKind::Param(p) => obj! {"k":"param","name": p.name.to_string()},
            TyKind::Alias(..) => obj! {"k":"alias"},
            _ => obj! {"k":"other"},
        };
        let J::O(mut v) = j else { unreachable!() };
        v.push(("s", J::S(s)));
        self.ty_out[i] = J::O(v);
    }

    /// Should external bodies of this instance be dumped?
    fn wants(&self, inst: Instance<'tcx>) -> bool {
        let d = inst.def_id();
        if d.is_local() { return matches!(inst.def, ty::InstanceKind::Item(_)); }
        let Some(pats) = &self.deep else { return false };
        match inst.def {
            ty::InstanceKind::Item(d) => {
                if !self.tcx.is_mir_available(d) { return false; }
                if self.tcx.is_constructor(d) { return false; }
                let p = path(self.tcx, d);
                let p = p.strip_prefix('<').unwrap_or(&p);
                pats.iter().any(|x| p.starts_with(x.as_str()))
            }
            _ => false,
        }
    }

    fn lookup_inst(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> Option<usize> {
        // closures and fns of this crate are dumped in identity form; look the instance up under
        // its own def first (generic callers), else as an exact instance
        let d = inst.def_id();
        if self.deep.is_some() {
            if self.wants(inst) { return Some(self.inst_id(inst, d, env)); }
            None
        } else if d.is_local() && matches!(inst.def, ty::InstanceKind::Item(_)) {
            let args = ty::GenericArgs::identity_for_item(self.tcx, d);
            let args = self.tcx.erase_and_anonymize_regions(args);
            self.insts.get(&(Instance::new_raw(d, args), d)).copied()
        } else {
            None
        }
    }

    fn inst_id(&mut self, inst: Instance<'tcx>, root: DefId, env: TypingEnv<'tcx>) -> usize {
        if let Some(i) = self.insts.get(&(inst, root)) { return *i; }
        let i = self.queue.len();
        self.insts.insert((inst, root), i);
        self.queue.push((inst, root, env));
        i
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let p = path(tcx, d);
        let mut tr = J::Null;
        if let Some(a) = tcx.opt_associated_item(d) {
            if let Some(t) = a.trait_container(tcx) { tr = J::from(path(tcx, t)); }
        }
        let mut rpath = J::Null;
        let mut id = J::Null;
        let mut kind = J::Null;
        let mut local = d.is_local();
        let mut rargs = J::Null;
        let mut self_s = J::Null;
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            kind = J::from("ctor");
            if let DefKind::Ctor(..) = tcx.def_kind(d) {
                let parent = tcx.parent(d);
                rpath = J::from(path(tcx, parent));
            }
        } else {
            if let J::S(_) = tr {
                if let Some(t) = args.types().next() { self_s = J::from(self.ty(t)); }
            }
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, eargs) {
                let rd = inst.def_id();
                rpath = J::from(path(tcx, rd));
                local = rd.is_local();
                kind = J::from(match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(..) => "intrinsic",
                    _ => "shim",
                });
                if let ty::InstanceKind::Item(_) = inst.def {
                    let env = self.env;
                    id = J::from(self.lookup_inst(inst, env));
                    rargs = self.gargs(inst.args);
                }
                if let ty::InstanceKind::Shim(_) = inst.def {
                    kind = J::from(format!("shim:{:?}", inst.def).split(['(', '{', ' ']).take(2).collect::<Vec<_>>().join("("));
                }
            } else {
                kind = J::from("unresolved");
            }
        }
        let name = tcx.opt_item_name(d).map(|s| s.to_string());
        let a = self.gargs(args);
        obj! {"path": p, "name": name, "trait": tr, "rpath": rpath, "id": id, "kind": kind, "local": local, "args": a, "rargs": rargs, "self": self_s}
    }

    fn func(&mut self, i: usize, inst: Instance<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let d = inst.def_id();
        let _ = root;
        let body0: &Body<'tcx> = match inst.def {
            ty::InstanceKind::Item(d) => {
                if tcx.is_const_fn(d) || !d.is_local() || true { tcx.optimized_mir(d) } else { unreachable!() }
            }
            k => tcx.instance_mir(k),
        };
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx, self.env, EarlyBinder::bind(tcx, body0.clone()));
        let j = self.body(&body);
        let parent = if tcx.is_closure_like(d) { Some(path(tcx, tcx.typeck_root_def_id(d))) } else { None };
        let mut promoted = vec![];
        if d.is_local() {
            for pb in tcx.promoted_mir(d).iter() {
                let pb: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
                    tcx, self.env, EarlyBinder::bind(tcx, pb.clone()));
                promoted.push(self.body(&pb));
            }
        }
        let a = self.gargs(inst.args);
        let mut impl_trait = J::Null;
        let mut self_ty = J::Null;
        if let Some(im) = tcx.impl_of_assoc(tcx.typeck_root_def_id(d)) {
            if let Some(t) = tcx.impl_opt_trait_ref(im) {
                impl_trait = J::from(path(tcx, t.skip_binder().def_id));
            }
            self_ty = J::from(tystr(tcx.type_of(im).instantiate_identity().skip_norm_wip()));
        }
        let vis = match tcx.def_kind(d) { DefKind::Fn | DefKind::AssocFn => J::from(format!("{:?}", tcx.visibility(d))), _ => J::Null };
        let isunsafe = match tcx.def_kind(d) { DefKind::Fn | DefKind::AssocFn => tcx.fn_sig(d).skip_binder().safety().is_unsafe(), _ => false };
        let mut ub = UnsafeBlocks(vec![]);
        if let Some(l) = d.as_local() {
            if let Some(b) = tcx.hir_maybe_body_owned_by(l) { rustc_hir::intravisit::Visitor::visit_body(&mut ub, b); }
        }
        let ub: Vec<J> = ub.0.iter().map(|s| self.span(*s)).collect();
        let sp = self.span(tcx.def_span(d));
        obj! {"id": i, "unsafe_blocks": ub, "path": path(tcx, d), "name": tcx.opt_item_name(d).map(|s| s.to_string()), "local": d.is_local(), "args": a, "span": sp,
              "closure_of": parent, "impl_trait": impl_trait, "impl_self": self_ty, "vis": vis, "unsafe": isunsafe, "body": j, "promoted": promoted}
    }

    fn body(&mut self, b: &Body<'tcx>) -> J {
        let mut names: FxHashMap<Local, String> = Default::default();
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.insert(p.local, v.name.to_string()); }
                else {
                    let pl = self.place(p);
                    dbg.push(obj! {"name": v.name.to_string(), "place": pl});
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in b.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            locals.push(obj! {"ty": t, "name": names.get(&l).cloned()});
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                if let Some(j) = self.stmt(b, s) { st.push(j); }
            }
            let t = self.term(b, bb.terminator());
            blocks.push(obj! {"s": st, "t": t, "c": if bb.is_cleanup { J::B(true) } else { J::Null }});
        }
        obj! {"nargs": b.arg_count, "spread": b.spread_arg.map(|l| l.as_usize()), "locals": locals, "blocks": blocks, "dbg": dbg, "span": self.span(b.span)}
    }

    fn place(&mut self, p: Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::from("*"),
                ProjectionElem::Field(f, _) => J::A(vec![J::from("f"), J::from(f.as_usize())]),
                ProjectionElem::Index(l) => J::A(vec![J::from("i"), J::from(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![J::from("c"), J::from(offset), J::from(min_length), J::from(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![J::from("s"), J::from(from), J::from(to), J::from(from_end)]),
                ProjectionElem::Downcast(_, vi) => J::A(vec![J::from("d"), J::from(vi.as_usize())]),
                _ => J::from("?"),
            });
        }
        J::A(vec![J::from(p.local.as_usize()), J::A(v)])
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => obj! {"o":"copy","p": self.place(*p)},
            Operand::Move(p) => obj! {"o":"move","p": self.place(*p)},
            Operand::Constant(c) => {
                let v = self.constant(c.const_, c.span);
                obj! {"o":"const","c": v}
            }
            Operand::RuntimeChecks(_) => obj! {"o":"rtcheck"},
        }
    }

    fn constant(&mut self, c: Const<'tcx>, span: Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tid = self.ty(t);
        if let TyKind::FnDef(d, args) = t.kind() {
            let d: DefId = (*d).into();
            let cal = self.callee(d, args.skip_binder());
            return obj! {"k":"fn","ty": tid,"callee": cal};
        }
        let mut name = J::Null;
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                if let Err(_) = c.eval(tcx, self.env, span) {
                    return obj! {"k":"promoted","n": p.as_usize(),"of": path(tcx, u.def),"ty": tid};
                }
            } else {
                name = J::from(path(tcx, u.def));
            }
        }
        match c.eval(tcx, self.env, span) {
            Ok(v) => {
                let j = self.cval(v, t, 0);
                if let (J::O(mut o), J::S(n)) = (j, name) {
                    o.push(("name", J::S(n)));
                    J::O(o)
                } else {
                    self.cval(v, t, 0)
                }
            }
            Err(_) => obj! {"k":"uneval","ty": tid,"name": name, "s": format!("{c:?}")},
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let tid = self.ty(t);
        if depth > 6 { return obj! {"k":"opaque","ty": tid}; }
        if let TyKind::FnDef(d, args) = t.kind() {
            let d: DefId = (*d).into();
            let cal = self.callee(d, args.skip_binder());
            return obj! {"k":"fn","ty": tid,"callee": cal};
        }
        match (t.kind(), v) {
            (TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_), ConstValue::Scalar(Scalar::Int(i))) => {
                let bits = i.to_bits(i.size());
                let val = if let TyKind::Int(_) = t.kind() { i.size().sign_extend(bits) as i128 } else { bits as i128 };
                if bits > i128::MAX as u128 {
                    return obj! {"k":"int","ty": tid,"big": format!("{bits}")};
                }
                return obj! {"k":"int","ty": tid,"v": J::I(val)};
            }
            (TyKind::Ref(_, inner, _), ConstValue::Slice { alloc_id, meta }) => {
                if inner.is_str() || matches!(inner.kind(), TyKind::Slice(e) if *e == tcx.types.u8) {
                    let a = tcx.global_alloc(alloc_id).unwrap_memory().inner();
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                    return obj! {"k": if inner.is_str() {"str"} else {"bytes"},"ty": tid,"v": String::from_utf8_lossy(b).into_owned()};
                }
                if let TyKind::Slice(e) = inner.kind() {
                    // a constant slice: its elements, as an array of that length
                    let arr = Ty::new_array(tcx, *e, meta);
                    let j = self.cval(ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO }, arr, depth + 1);
                    return obj! {"k":"ref","ty": tid,"v": j};
                }
            }
            (TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _), ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let (prov, off) = p.prov_and_relative_offset();
                let id = prov.alloc_id();
                match tcx.try_get_global_alloc(id) {
                    Some(GlobalAlloc::Static(d)) => return obj! {"k":"static","ty": tid,"path": path(tcx, d)},
                    Some(GlobalAlloc::Memory(_)) => {
                        if inner.is_sized(tcx, self.env) {
                            let v = ConstValue::Indirect { alloc_id: id, offset: off };
                            let j = self.cval(v, *inner, depth + 1);
                            return obj! {"k":"ref","ty": tid,"v": j};
                        }
                    }
                    _ => (),
                }
            }
            (TyKind::Ref(_, inner, _), ConstValue::Indirect { alloc_id, offset }) => {
                // a reference stored in memory (an element of an array of &str, say)
                let a = tcx.global_alloc(alloc_id).unwrap_memory().inner();
                let ps = tcx.data_layout.pointer_size();
                let rd = |o, p| a.read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(o, ps), p);
                if let Ok(Scalar::Ptr(p, _)) = rd(offset, true) {
                    let (prov, off) = p.prov_and_relative_offset();
                    if inner.is_str() || matches!(inner.kind(), TyKind::Slice(e) if *e == tcx.types.u8) {
                        if let Ok(Scalar::Int(n)) = rd(offset + ps, false) {
                            let n = n.to_bits(ps) as usize;
                            if let Some(GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                                let s = off.bytes() as usize;
                                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(s..s + n);
                                return obj! {"k": if inner.is_str() {"str"} else {"bytes"},"ty": tid,"v": String::from_utf8_lossy(b).into_owned()};
                            }
                        }
                    } else if let TyKind::Slice(e) = inner.kind() {
                        if let (Ok(Scalar::Int(n)), Some(GlobalAlloc::Memory(_))) = (rd(offset + ps, false), tcx.try_get_global_alloc(prov.alloc_id())) {
                            let arr = Ty::new_array(tcx, *e, n.to_bits(ps) as u64);
                            let j = self.cval(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }, arr, depth + 1);
                            return obj! {"k":"ref","ty": tid,"v": j};
                        }
                    } else if inner.is_sized(tcx, self.env) {
                        if let Some(GlobalAlloc::Memory(_)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                            let j = self.cval(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }, *inner, depth + 1);
                            return obj! {"k":"ref","ty": tid,"v": j};
                        }
                    }
                }
            }
            (TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_), ConstValue::Indirect { alloc_id, offset }) => {
                let a = tcx.global_alloc(alloc_id).unwrap_memory().inner();
                if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                    if let Ok(s) = a.read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, l.size), false) {
                        return self.cval(ConstValue::Scalar(s), t, depth + 1);
                    }
                }
            }
            _ => (),
        }
        let destr = match t.kind() {
            TyKind::Adt(d, _) => !d.is_union() && !path(tcx, d.did()).starts_with("alloc::"),
            TyKind::Tuple(_) | TyKind::Array(..) => true,
            _ => false,
        };
        if destr && t.is_sized(tcx, self.env) {
            if let TyKind::Array(_, n) = t.kind() {
                if n.try_to_target_usize(tcx).map_or(true, |n| n > 256) { return obj! {"k":"opaque","ty": tid}; }
            }
            if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                let mut fs = vec![];
                for (v, t) in dc.fields.iter() { fs.push(self.cval(*v, *t, depth + 1)); }
                return obj! {"k":"adt","ty": tid,"variant": dc.variant.map(|v| v.as_usize()),"fields": fs};
            }
        }
        if let ConstValue::ZeroSized = v { return obj! {"k":"zst","ty": tid}; }
        obj! {"k":"opaque","ty": tid}
    }

    fn stmt(&mut self, b: &Body<'tcx>, s: &Statement<'tcx>) -> Option<J> {
        let sp = self.span(s.source_info.span);
        Some(match &s.kind {
            StatementKind::Assign(bx) => {
                let (p, r) = &**bx;
                let pl = self.place(*p);
                let rv = self.rvalue(b, r);
                obj! {"k":"=","p": pl,"r": rv,"sp": sp}
            }
            StatementKind::SetDiscriminant { place, variant_index } => obj! {"k":"setdiscr","p": self.place(**place),"v": variant_index.as_usize(),"sp": sp},
            StatementKind::StorageDead(l) => obj! {"k":"dead","l": l.as_usize()},
            StatementKind::StorageLive(l) => obj! {"k":"live","l": l.as_usize()},
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(o) => obj! {"k":"assume","c": self.operand(o)},
                _ => obj! {"k":"copynonoverlapping","sp": sp},
            },
            _ => return None,
        })
    }

    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => obj! {"r":"use","a": self.operand(o)},
            Rvalue::Repeat(o, n) => obj! {"r":"repeat","a": self.operand(o),"n": n.try_to_target_usize(tcx)},
            Rvalue::Ref(_, k, p) => obj! {"r":"ref","mut": matches!(k, BorrowKind::Mut { .. }),"p": self.place(*p)},
            Rvalue::RawPtr(k, p) => obj! {"r":"ref","raw": true, "mut": matches!(k, RawPtrKind::Mut), "p": self.place(*p)},
            Rvalue::ThreadLocalRef(d) => obj! {"r":"tls","path": path(tcx, *d)},
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&b.local_decls, tcx);
                let from = self.ty(from);
                obj! {"r":"cast","kind": format!("{k:?}"),"a": self.operand(o),"ty": self.ty(*t),"from": from}
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&b.local_decls, tcx);
                let t = self.ty(t);
                obj! {"r":"bin","op": format!("{op:?}"),"a": self.operand(&ab.0),"b": self.operand(&ab.1),"ty": t}
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(&b.local_decls, tcx);
                let t = self.ty(t);
                obj! {"r":"un","op": format!("{op:?}"),"a": self.operand(a),"ty": t}
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, tcx).ty;
                let t = self.ty(t);
                obj! {"r":"discr","p": self.place(*p),"ty": t}
            }
            Rvalue::Aggregate(k, ops) => {
                let (kind, t, variant, field) = match &**k {
                    AggregateKind::Array(_) => ("array", J::Null, J::Null, J::Null),
                    AggregateKind::Tuple => ("tuple", J::Null, J::Null, J::Null),
                    AggregateKind::Adt(_, vi, _, _, f) => ("adt", J::Null, J::from(vi.as_usize()), J::from(f.map(|f| f.as_usize()))),
                    AggregateKind::Closure(..) => ("closure", J::Null, J::Null, J::Null),
                    AggregateKind::RawPtr(..) => ("rawptr", J::Null, J::Null, J::Null),
                    _ => ("coroutine", J::Null, J::Null, J::Null),
                };
                let _ = t;
                let ty = r.ty(&b.local_decls, tcx);
                let ty = self.ty(ty);
                let v: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                obj! {"r":"agg","kind": kind,"ty": ty,"variant": variant,"field": field,"ops": v}
            }
            Rvalue::CopyForDeref(p) => obj! {"r":"use","a": obj!{"o":"copy","p": self.place(*p)}},
            _ => obj! {"r":"other","s": format!("{r:?}")},
        }
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => J::from(b.as_usize()),
            UnwindAction::Continue => J::from("continue"),
            UnwindAction::Unreachable => J::from("unreachable"),
            UnwindAction::Terminate(_) => J::from("terminate"),
        }
    }

    fn term(&mut self, b: &Body<'tcx>, t: &Terminator<'tcx>) -> J {
        let tcx = self.tcx;
        let sp = self.span(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => obj! {"k":"goto","to": target.as_usize()},
            TerminatorKind::SwitchInt { discr, targets } => {
                let v: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), J::from(b.as_usize())])).collect();
                let ty = discr.ty(&b.local_decls, tcx);
                let ty = self.ty(ty);
                obj! {"k":"switch","d": self.operand(discr),"v": v,"else": targets.otherwise().as_usize(),"ty": ty,"sp": sp}
            }
            TerminatorKind::Return => obj! {"k":"return","sp": sp},
            TerminatorKind::Unreachable => obj! {"k":"unreachable"},
            TerminatorKind::UnwindResume => obj! {"k":"resume"},
            TerminatorKind::UnwindTerminate(_) => obj! {"k":"abort"},
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let ty = place.ty(&b.local_decls, tcx).ty;
                let needs = ty.needs_drop(tcx, self.env);
                let ty = self.ty(ty);
                obj! {"k":"drop","p": self.place(*place),"ty": ty,"needs": needs,"to": target.as_usize(),"uw": self.unwind(unwind),"sp": sp}
            }
            TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                let (cal, ind) = match func.const_fn_def() {
                    Some((d, a)) => (self.callee(d, a), J::Null),
                    None => (J::Null, self.operand(func)),
                };
                let av: Vec<J> = args.iter().map(|a| self.operand(&a.node)).collect();
                let atys: Vec<J> = args.iter().map(|a| { let t = a.node.ty(&b.local_decls, tcx); J::from(self.ty(t)) }).collect();
                let dt = destination.ty(&b.local_decls, tcx).ty;
                let dt = self.ty(dt);
                obj! {"k":"call","f": cal,"ind": ind,"args": av,"atys": atys,"dest": self.place(*destination),"dty": dt,"to": target.map(|b| b.as_usize()),"uw": self.unwind(unwind),"sp": sp,"fsp": self.span(*fn_span)}
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                    AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                    AssertKind::DivisionByZero(_) => "divzero".into(),
                    AssertKind::RemainderByZero(_) => "remzero".into(),
                    AssertKind::MisalignedPointerDereference { .. } => "misaligned".into(),
                    AssertKind::NullPointerDereference => "nullptr".into(),
                    AssertKind::NullReferenceConstructed => "nullref".into(),
                    AssertKind::InvalidEnumConstruction(_) => "invalidenum".into(),
                    _ => "coroutine".into(),
                };
                obj! {"k":"assert","c": self.operand(cond),"exp": *expected,"m": m,"to": target.as_usize(),"uw": self.unwind(unwind),"sp": sp}
            }
            TerminatorKind::FalseEdge { real_target, .. } => obj! {"k":"goto","to": real_target.as_usize()},
            TerminatorKind::FalseUnwind { real_target, .. } => obj! {"k":"goto","to": real_target.as_usize()},
            k => obj! {"k":"other","s": format!("{k:?}")},
        }
    }
}
