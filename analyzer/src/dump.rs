use crate::ja;
use crate::json::{i, s, J};
use rustc_abi::{FieldIdx, VariantIdx};
use rustc_const_eval::const_eval::{mk_eval_cx_for_const_val, CompileTimeInterpCx};
use rustc_const_eval::interpret::{Immediate, OpTy, Projectable};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::{Span, DUMMY_SP};
use std::collections::HashMap;

pub struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_list: Vec<Ty<'tcx>>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_list: Vec<Instance<'tcx>>,
    vts: HashMap<(Ty<'tcx>, Ty<'tcx>), usize>,
    vt_list: Vec<(Ty<'tcx>, Ty<'tcx>)>,
    nodescend: Vec<String>,
    generic: bool,
}

fn bodycrates() -> Vec<String> {
    std::env::var("SA_BODY_CRATES")
        .unwrap_or_default()
        .split(',')
        .map(|x| x.to_string())
        .collect()
}

pub fn dump_crate<'tcx>(tcx: TyCtxt<'tcx>, krate: &str) -> String {
    let nodescend = std::env::var("SA_NODESCEND")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .unwrap_or_default()
        .lines()
        .map(|x| x.trim().to_string())
        .filter(|x| !x.is_empty())
        .collect();
    let mut d = D {
        tcx,
        env: ty::TypingEnv::fully_monomorphized(),
        tys: HashMap::new(),
        ty_list: vec![],
        insts: HashMap::new(),
        inst_list: vec![],
        vts: HashMap::new(),
        vt_list: vec![],
        nodescend,
        generic: false,
    };
    let j = d.run(krate);
    let mut o = String::new();
    j.write(&mut o);
    o
}

impl<'tcx> D<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(x) = self.tys.get(&t) {
            return *x;
        }
        let n = self.ty_list.len();
        self.tys.insert(t, n);
        self.ty_list.push(t);
        n
    }
    fn inst(&mut self, t: Instance<'tcx>) -> usize {
        if let Some(x) = self.insts.get(&t) {
            return *x;
        }
        let n = self.inst_list.len();
        self.insts.insert(t, n);
        self.inst_list.push(t);
        n
    }
    fn path(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }

    fn run(&mut self, krate: &str) -> J {
        let tcx = self.tcx;
        let mut roots = vec![];
        let is_fixture = krate == "fixture";
        if is_fixture {
            for ld in tcx.hir_crate_items(()).definitions() {
                let did = ld.to_def_id();
                if tcx.def_kind(did) == DefKind::Fn {
                    let p = self.path(did);
                    let last = p.rsplit("::").next().unwrap().to_string();
                    if last.starts_with("root_") && tcx.generics_of(did).own_requires_monomorphization() == false {
                        let inst = Instance::mono(tcx, did);
                        let id = self.inst(inst);
                        roots.push(ja![s(p), i(id)]);
                    }
                }
            }
        }
        let mut insts = vec![];
        let mut idx = 0;
        while idx < self.inst_list.len() {
            let inst = self.inst_list[idx];
            insts.push(self.dump_inst(inst));
            idx += 1;
        }
        // generic bodies of this crate (whole-crate inventories)
        let mut bodies = vec![];
        if !is_fixture {
            self.generic = true;
            for ld in tcx.mir_keys(()) {
                let did = ld.to_def_id();
                match tcx.def_kind(did) {
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                    _ => continue,
                }
                bodies.push(self.dump_generic(did));
            }
        }
        let mut vts = vec![];
        let mut k = 0;
        let mut tys = vec![];
        let mut ti = 0;
        // types and vtables can add each other (and instances)
        loop {
            let mut progress = false;
            while k < self.vt_list.len() {
                progress = true;
                let (t, dy) = self.vt_list[k];
                vts.push(self.dump_vt(t, dy));
                k += 1;
            }
            while ti < self.ty_list.len() {
                progress = true;
                let t = self.ty_list[ti];
                tys.push(self.dump_ty(t));
                ti += 1;
            }
            while idx < self.inst_list.len() {
                progress = true;
                let inst = self.inst_list[idx];
                insts.push(self.dump_inst(inst));
                idx += 1;
            }
            if !progress {
                break;
            }
        }
        J::O(vec![
            ("crate", s(krate)),
            ("roots", J::A(roots)),
            ("insts", J::A(insts)),
            ("types", J::A(tys)),
            ("vtables", J::A(vts)),
            ("bodies", J::A(bodies)),
            ("impls", self.dump_impls()),
        ])
    }

    /// all impls (in the repository's crates) of traits of the repository
    fn dump_impls(&mut self) -> J {
        let tcx = self.tcx;
        let crates = bodycrates();
        let mut rv = vec![];
        for tr in tcx.all_traits_including_private() {
            let cn = tcx.crate_name(tr.krate).to_string();
            if !crates.contains(&cn) {
                continue;
            }
            for im in tcx.all_impls(tr) {
                let tref = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                let items: Vec<J> = tcx
                    .associated_item_def_ids(im)
                    .iter()
                    .map(|x| s(tcx.item_name(*x).to_string()))
                    .collect();
                rv.push(ja![
                    s(self.path(tr)),
                    s(format!("{}", tref.self_ty())),
                    s(tcx.crate_name(im.krate).to_string()),
                    J::A(items)
                ]);
            }
        }
        J::A(rv)
    }

    fn dump_vt(&mut self, t: Ty<'tcx>, dy: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let mut methods = vec![];
        if let ty::Dynamic(preds, ..) = dy.kind() {
            if let Some(p) = preds.principal() {
                let p = tcx.instantiate_bound_regions_with_erased(p);
                let tref = p.with_self_ty(tcx, t);
                let tref = tcx.erase_and_anonymize_regions(tref);
                for e in tcx.vtable_entries(tref) {
                    if let ty::VtblEntry::Method(inst) = e {
                        // identify by the trait's item
                        let mut did = inst.def_id();
                        if let Some(t) = tcx.trait_item_of(did) {
                            did = t;
                        }
                        let name = self.path(did);
                        let id = self.inst(*inst);
                        methods.push(ja![s(name), i(id)]);
                    }
                }
            }
        }
        let a = self.ty(t);
        let b = self.ty(dy);
        ja![i(a), i(b), J::A(methods)]
    }

    fn dump_ty(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let pretty = s(format!("{}", t));
        let needs_drop = if t.has_param() || t.has_aliases() || t.has_escaping_bound_vars() || self.generic {
            J::Null
        } else {
            J::B(t.needs_drop(tcx, self.env))
        };
        let mut o = vec![("p", pretty), ("nd", needs_drop)];
        if !self.generic && !t.has_param() && !t.has_aliases() {
            if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                o.push(("sz", J::I(l.size.bytes() as i128)));
            }
        }
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(x) => {
                o.push(("k", s("int")));
                o.push(("n", s(x.name_str())));
            }
            ty::Uint(x) => {
                o.push(("k", s("uint")));
                o.push(("n", s(x.name_str())));
            }
            ty::Float(x) => {
                o.push(("k", s("float")));
                o.push(("n", s(x.name_str())));
            }
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| i(self.ty(x))).collect();
                o.push(("f", J::A(v)));
            }
            ty::Array(e, n) => {
                o.push(("k", s("array")));
                o.push(("e", i(self.ty(*e))));
                o.push((
                    "len",
                    n.try_to_target_usize(tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null),
                ));
            }
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                o.push(("e", i(self.ty(*e))));
            }
            ty::Pat(e, _) => {
                o.push(("k", s("pat")));
                o.push(("e", i(self.ty(*e))));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                o.push(("e", i(self.ty(*e))));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                o.push(("e", i(self.ty(*e))));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::FnDef(did, args) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(self.path(*did))));
                if !self.generic {
                    let args = args.no_bound_vars().unwrap_or_else(|| {
                        tcx.instantiate_bound_regions_with_erased(*args)
                    });
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, *did, args) {
                        o.push(("inst", i(self.inst(inst))));
                    }
                }
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Closure(did, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(*did))));
                let v = args.as_closure().upvar_tys().iter().map(|x| i(self.ty(x))).collect();
                o.push(("f", J::A(v)));
            }
            ty::Dynamic(preds, ..) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal() {
                    o.push(("path", s(self.path(p.def_id()))));
                }
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(def.did()))));
                o.push(("crate", s(tcx.crate_name(def.did().krate).to_string())));
                o.push((
                    "ak",
                    s(if def.is_struct() {
                        "struct"
                    } else if def.is_enum() {
                        "enum"
                    } else {
                        "union"
                    }),
                ));
                if def.is_box() {
                    o.push(("box", J::B(true)));
                }
                if def.repr().transparent() {
                    o.push(("transparent", J::B(true)));
                }
                if def.is_manually_drop() {
                    o.push(("mdrop", J::B(true)));
                }
                o.push(("args", self.args(args)));
                if !self.generic {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() {
                            let d = def.discriminant_for_variant(tcx, vi);
                            let x = d.val;
                            // sign extension of signed discriminants
                            let size = tcx
                                .layout_of(self.env.as_query_input(d.ty))
                                .map(|l| l.size)
                                .unwrap();
                            if d.ty.is_signed() {
                                J::I(size.sign_extend(x))
                            } else {
                                J::I(x as i128)
                            }
                        } else {
                            J::Null
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let fty = tcx.normalize_erasing_regions(
                                self.env,
                                f.ty(tcx, args),
                            );
                            fs.push(ja![s(f.name.to_string()), i(self.ty(fty))]);
                        }
                        vs.push(ja![s(v.name.to_string()), discr, J::A(fs)]);
                    }
                    o.push(("v", J::A(vs)));
                    let pth0 = self.path(def.did());
                    if let Some(tr) = match pth0.as_str() {
                        "std::collections::HashMap" | "std::collections::HashSet" => tcx.get_diagnostic_item(rustc_span::sym::PartialEq).or(tcx.lang_items().eq_trait()),
                        _ => None,
                    } {
                        let k = args.type_at(0);
                        let m = tcx.associated_item_def_ids(tr)[0];
                        let a = tcx.mk_args(&[k.into(), k.into()]);
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, m, a) {
                            o.push(("keyeq", i(self.inst(inst))));
                        }
                    }
                    if let Some(d) = tcx.adt_destructor(def.did()) {
                        o.push(("hasdrop", J::B(true)));
                        let cn = tcx.crate_name(def.did().krate).to_string();
                        let pth = self.path(def.did());
                        let std_ok = ["std::rc::Rc", "std::rc::Weak", "std::cell::BorrowRef", "std::cell::BorrowRefMut", "core::cell::BorrowRef", "core::cell::BorrowRefMut", "alloc::rc::Rc"].contains(&pth.as_str());
                        if bodycrates().contains(&cn) || cn == "fixture" || std_ok {
                            let inst = Instance::expect_resolve(
                                tcx,
                                self.env,
                                d.did,
                                args,
                                DUMMY_SP,
                            );
                            o.push(("drop", i(self.inst(inst))));
                        }
                    }
                }
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("n", s(p.name.to_string())));
            }
            _ => o.push(("k", s("other"))),
        }
        J::O(o)
    }

    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(i(self.ty(t)));
            } else if let Some(c) = a.as_const() {
                v.push(ja![match c.try_to_target_usize(self.tcx) {
                    Some(x) => J::I(x as i128),
                    None => s(format!("{}", c)),
                }]);
            }
        }
        J::A(v)
    }

    fn descend(&self, inst: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        let did = inst.def_id();
        let cn = tcx.crate_name(did.krate).to_string();
        let own = cn == "fixture" || bodycrates().contains(&cn);
        match inst.def {
            InstanceKind::Item(_) => {
                if !tcx.is_mir_available(did) {
                    return false;
                }
                if own {
                    return true;
                }
                if !matches!(cn.as_str(), "core" | "alloc" | "std") {
                    return false;
                }
                let p = self.path(did);
                !self.nodescend.iter().any(|x| p.starts_with(x.as_str()))
            }
            InstanceKind::Shim(k) => match k {
                ShimKind::FnPtr(..) | ShimKind::ClosureOnce { .. } | ShimKind::Reify(..) | ShimKind::Clone(..) => {
                    let p = format!("{:?}", k);
                    let _ = p;
                    true
                }
                _ => false,
            },
            _ => false,
        }
    }

    fn span(&self, sp: Span) -> J {
        // report the macro call site's line for macro generated code
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = lo.file.name.prefer_local_unconditionally().to_string();
        s(format!("{}:{}", name, lo.line))
    }

    fn inst_header(&mut self, inst: Instance<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let did = inst.def_id();
        let mut o = vec![];
        o.push(("name", s(self.path(did))));
        o.push(("full", s(format!("{}", inst))));
        o.push(("crate", s(tcx.crate_name(did.krate).to_string())));
        let kind = match inst.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::LlvmIntrinsic(_) => "llvm",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(k) => match k {
                ShimKind::DropGlue(..) => "dropglue",
                ShimKind::FnPtr(..) => "fnptrshim",
                ShimKind::ClosureOnce { .. } => "closureonce",
                ShimKind::Clone(..) => "cloneshim",
                _ => "shim",
            },
        };
        o.push(("kind", s(kind)));
        o.push(("args", self.args(inst.args)));
        // trait method implemented by this function
        if let Some(t) = tcx.trait_item_of(did) {
            o.push(("trait_item", s(self.path(t))));
            o.push(("tname", s(tcx.item_name(t).to_string())));
        }
        if let Some(im) = tcx.impl_of_assoc(did) {
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("impl_trait", s(self.path(tr.def_id))));
            }
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("impl_self", s(format!("{}", st))));
        }
        if let DefKind::Ctor(of, _) = tcx.def_kind(did) {
            let v = match of {
                rustc_hir::def::CtorOf::Struct => 0,
                rustc_hir::def::CtorOf::Variant => {
                    let vid = tcx.parent(did);
                    let adt = tcx.adt_def(tcx.parent(vid));
                    adt.variant_index_with_id(vid).as_usize()
                }
            };
            o.push(("ctor", i(v)));
            if !self.generic {
                let sig = tcx.fn_sig(did).instantiate(tcx, inst.args).skip_norm_wip();
                let ret = tcx.instantiate_bound_regions_with_erased(sig).output();
                let ret = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ret));
                o.push(("ret", i(self.ty(ret))));
            }
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            o.push(("unsafe", J::B(tcx.fn_sig(did).skip_binder().safety().is_unsafe())));
        }
        o
    }

    fn dump_inst(&mut self, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = self.inst_header(inst);
        if self.descend(inst) {
            let body = tcx.instance_mir(inst.def);
            let body = inst.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                self.env,
                ty::EarlyBinder::bind(tcx, body.clone()),
            );
            self.dump_body(&body, &mut o);
        }
        J::O(o)
    }

    fn dump_generic(&mut self, did: DefId) -> J {
        let tcx = self.tcx;
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let inst = Instance { def: InstanceKind::Item(did), args };
        self.env = ty::TypingEnv::post_analysis(tcx, did);
        let mut o = self.inst_header(inst);
        let body = tcx.optimized_mir(did).clone();
        self.dump_body(&body, &mut o);
        J::O(o)
    }

    fn dump_body(&mut self, body: &Body<'tcx>, o: &mut Vec<(&'static str, J)>) {
        o.push(("span", self.span(body.span)));
        o.push(("argc", i(body.arg_count)));
        if body.spread_arg.is_some() {
            o.push(("spread", i(body.spread_arg.unwrap().as_usize())));
        }
        let locals = body.local_decls.iter().map(|l| i(self.ty(l.ty))).collect();
        o.push(("locals", J::A(locals)));
        let names: Vec<J> = body
            .var_debug_info
            .iter()
            .filter_map(|v| match &v.value {
                VarDebugInfoContents::Place(p) => {
                    Some(ja![s(v.name.to_string()), self.place(p)])
                }
                _ => None,
            })
            .collect();
        o.push(("vars", J::A(names)));
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                if let Some(j) = self.stmt(body, x) {
                    st.push(j);
                }
            }
            let t = self.term(body, bb.terminator());
            let sp = self.span(bb.terminator().source_info.span);
            blocks.push(ja![J::A(st), t, sp, J::B(bb.is_cleanup)]);
        }
        o.push(("blocks", J::A(blocks)));
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![i(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => ja![s("f"), i(f.as_usize()), i(self.ty(t))],
                ProjectionElem::Index(l) => ja![s("i"), i(l.as_usize())],
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => ja![
                    s("c"),
                    J::I(offset as i128),
                    J::I(min_length as i128),
                    J::B(from_end)
                ],
                ProjectionElem::Subslice { from, to, from_end } => {
                    ja![s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)]
                }
                ProjectionElem::Downcast(_, v) => ja![s("v"), i(v.as_usize())],
                _ => s("?"),
            });
        }
        J::A(v)
    }

    fn op(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => ja![s("c"), self.place(p)],
            Operand::Move(p) => ja![s("m"), self.place(p)],
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let tid = self.ty(t);
                let v = self.konst(&c.const_, c.span);
                ja![s("k"), i(tid), v]
            }
            Operand::RuntimeChecks(r) => ja![s("rc"), s(format!("{:?}", r))],
        }
    }

    fn konst(&mut self, c: &mir::Const<'tcx>, span: Span) -> J {
        let t = c.ty();
        if let ty::FnDef(..) = t.kind() {
            return ja![s("fn")];
        }
        if self.generic {
            // only the literal scalars are of interest
            if let Some(x) = c.try_to_scalar_int() {
                return ja![s("i"), J::I(x.to_bits_unchecked() as i128)];
            }
            return ja![s("?"), s(format!("{}", c))];
        }
        match c.eval(self.tcx, self.env, span) {
            Ok(v) => match mk_eval_cx_for_const_val(self.tcx.at(span), self.env, v, t) {
                Some((ecx, op)) => self.dec(&ecx, &op, 0),
                None => ja![s("?"), s("cx")],
            },
            Err(_) => ja![s("?"), s("eval")],
        }
    }

    fn dec(&mut self, ecx: &CompileTimeInterpCx<'tcx>, op: &OpTy<'tcx>, depth: usize) -> J {
        self.dec2(ecx, op, depth).unwrap_or_else(|| ja![s("?"), s("dec")])
    }

    fn dec2(&mut self, ecx: &CompileTimeInterpCx<'tcx>, op: &OpTy<'tcx>, depth: usize) -> Option<J> {
        let t = op.layout().ty;
        let tcx = self.tcx;
        if depth > 12 {
            return None;
        }
        Some(match t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) => {
                let sc = ecx.read_scalar(op).discard_err()?;
                let x = sc.try_to_scalar_int().ok()?;
                ja![s("i"), J::I(x.to_bits_unchecked() as i128)]
            }
            ty::Int(_) => {
                let sc = ecx.read_scalar(op).discard_err()?;
                let x = sc.try_to_scalar_int().ok()?;
                ja![s("i"), J::I(x.size().sign_extend(x.to_bits_unchecked()))]
            }
            ty::Float(_) => {
                let sc = ecx.read_scalar(op).discard_err()?;
                let x = sc.try_to_scalar_int().ok()?;
                ja![s("fl"), J::I(x.to_bits_unchecked() as i128)]
            }
            ty::FnDef(..) => ja![s("fn")],
            ty::Pat(..) => {
                let sc = ecx.read_scalar(op).discard_err()?;
                let x = sc.try_to_scalar_int().ok()?;
                ja![s("i"), J::I(x.to_bits_unchecked() as i128)]
            }
            ty::Tuple(ts) => {
                let mut v = vec![s("tup")];
                let mut f = vec![];
                for k in 0..ts.len() {
                    let p = ecx.project_field(op, FieldIdx::from_usize(k)).discard_err()?;
                    f.push(self.dec(ecx, &p, depth + 1));
                }
                v.push(J::A(f));
                J::A(v)
            }
            ty::Closure(_, args) => {
                let n = args.as_closure().upvar_tys().len();
                let mut f = vec![];
                for k in 0..n {
                    let p = ecx.project_field(op, FieldIdx::from_usize(k)).discard_err()?;
                    f.push(self.dec(ecx, &p, depth + 1));
                }
                ja![s("cl"), J::A(f)]
            }
            ty::Array(_, n) => {
                let n = n.try_to_target_usize(tcx)?;
                let mut f = vec![];
                for k in 0..n {
                    let p = ecx.project_index(op, k).discard_err()?;
                    f.push(self.dec(ecx, &p, depth + 1));
                }
                ja![s("arr"), J::A(f)]
            }
            ty::Adt(def, args) => {
                if def.is_union() {
                    return None;
                }
                let path = self.path(def.did());
                if path == "std::any::TypeId" {
                    // the halves are pointers into an allocation which names the type
                    let mut q = op.clone();
                    for _ in 0..4 {
                        match q.layout().ty.kind() {
                            ty::Adt(..) => q = ecx.project_field(&q, FieldIdx::from_usize(0)).discard_err()?,
                            ty::Array(..) => q = ecx.project_index(&q, 0).discard_err()?,
                            _ => break,
                        }
                    }
                    let p = ecx.read_pointer(&q).discard_err()?;
                    let id = p.provenance?.alloc_id();
                    if let GlobalAlloc::TypeId { ty } = tcx.global_alloc(id) {
                        let n = self.ty(ty);
                        return Some(ja![s("tid"), i(n)]);
                    }
                    return None;
                }
                let (vi, down) = if def.is_enum() {
                    let v = ecx.read_discriminant(op).discard_err()?;
                    (v, ecx.project_downcast(op, v).discard_err()?)
                } else {
                    (VariantIdx::from_usize(0), op.clone())
                };
                let _ = args;
                let n = def.variant(vi).fields.len();
                let mut f = vec![];
                for k in 0..n {
                    let p = ecx.project_field(&down, FieldIdx::from_usize(k)).discard_err()?;
                    f.push(self.dec(ecx, &p, depth + 1));
                }
                let tid = self.ty(t);
                ja![s("adt"), i(tid), i(vi.as_usize()), J::A(f)]
            }
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                let e = *e;
                let imm = ecx.read_immediate(op).discard_err()?;
                let sc: Scalar<_> = match *imm { Immediate::Scalar(x) => x, Immediate::ScalarPair(x, _) => x, _ => return None };
                let (key, st) = match sc {
                    Scalar::Ptr(p, _) => {
                        let (prov, off) = p.into_raw_parts();
                        let aid = prov.alloc_id();
                        let st = match tcx.try_get_global_alloc(aid) {
                            Some(GlobalAlloc::Static(did)) => s(self.path(did)),
                            _ => J::Null,
                        };
                        (s(format!("a{}+{}", aid.0, off.bytes())), st)
                    }
                    Scalar::Int(x) => return Some(ja![s("ptrint"), J::I(x.to_bits_unchecked() as i128)]),
                };
                let tid = self.ty(e);
                let mp = ecx.deref_pointer(op).discard_err()?;
                match e.kind() {
                    ty::Str => {
                        let x = ecx.read_str(&mp).discard_err()?;
                        let b: Vec<J> = x.bytes().map(|c| i(c as usize)).collect();
                        ja![s("ref"), key, st, i(tid), ja![s("str"), J::A(b)]]
                    }
                    ty::Slice(_) => {
                        let opx: OpTy<'tcx> = mp.into();
                        let n = opx.len(ecx).discard_err()?;
                        let mut f = vec![];
                        for k in 0..n {
                            let p = ecx.project_index(&opx, k).discard_err()?;
                            f.push(self.dec(ecx, &p, depth + 1));
                        }
                        ja![s("ref"), key, st, i(tid), ja![s("arr"), J::A(f)]]
                    }
                    ty::Dynamic(..) => {
                        // unpack the trait object
                        let vt = match *imm {
                            Immediate::ScalarPair(_, Scalar::Ptr(p, _)) => p.provenance.alloc_id(),
                            _ => return None,
                        };
                        if let Some(GlobalAlloc::VTable(ct, _)) = tcx.try_get_global_alloc(vt) {
                            let v = self.vt(ct, e);
                            let cop = mp.layout();
                            let _ = cop;
                            let cl = tcx.layout_of(self.env.as_query_input(ct)).ok()?;
                            let inner = if cl.is_zst() {
                                match ct.kind() {
                                    ty::Adt(d, _) if d.is_struct() => {
                                        let ctid = self.ty(ct);
                                        ja![s("adt"), i(ctid), i(0), J::A(vec![])]
                                    }
                                    _ => return None,
                                }
                            } else {
                                let mp2 = ecx.ptr_to_mplace(mp.ptr(), cl);
                                self.dec(ecx, &mp2.into(), depth + 1)
                            };
                            ja![s("dynref"), key, st, i(v), inner]
                        } else {
                            return None;
                        }
                    }
                    _ => {
                        let inner = self.dec(ecx, &mp.into(), depth + 1);
                        ja![s("ref"), key, st, i(tid), inner]
                    }
                }
            }
            _ => return None,
        })
    }

    fn vt(&mut self, t: Ty<'tcx>, dy: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let dy = self.tcx.erase_and_anonymize_regions(dy);
        if let Some(x) = self.vts.get(&(t, dy)) {
            return *x;
        }
        let n = self.vt_list.len();
        self.vts.insert((t, dy), n);
        self.vt_list.push((t, dy));
        n
    }

    fn stmt(&mut self, body: &Body<'tcx>, x: &Statement<'tcx>) -> Option<J> {
        match &x.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                let r = self.rv(body, r, x.source_info.span);
                Some(ja![s("="), self.place(p), r])
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                Some(ja![s("sd"), self.place(place), i(variant_index.as_usize())])
            }
            StatementKind::StorageDead(l) => Some(ja![s("dead"), i(l.as_usize())]),
            StatementKind::StorageLive(l) => Some(ja![s("live"), i(l.as_usize())]),
            StatementKind::Intrinsic(b) => match &**b {
                NonDivergingIntrinsic::Assume(o) => Some(ja![s("assume"), self.op(o)]),
                NonDivergingIntrinsic::CopyNonOverlapping(c) => Some(ja![
                    s("cno"),
                    self.op(&c.src),
                    self.op(&c.dst),
                    self.op(&c.count)
                ]),
            },
            _ => None,
        }
    }

    fn rv(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, sp: Span) -> J {
        match r {
            Rvalue::Use(o, ..) => ja![s("use"), self.op(o)],
            Rvalue::CopyForDeref(p) => ja![s("use"), ja![s("c"), self.place(p)]],
            Rvalue::Repeat(o, n) => ja![
                s("rep"),
                self.op(o),
                n.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null)
            ],
            Rvalue::Ref(_, k, p) => {
                ja![s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), self.place(p)]
            }
            Rvalue::RawPtr(_, p) => ja![s("raw"), J::Null, self.place(p)],
            Rvalue::Reborrow(_, _, p) => ja![s("use"), ja![s("c"), self.place(p)]],
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, self.tcx);
                let ft = self.ty(from);
                let tt = self.ty(*t);
                let oj = self.op(o);
                let (ks, extra) = match k {
                    CastKind::PointerCoercion(c, _) => match c {
                        ty::adjustment::PointerCoercion::Unsize => {
                            let e = if self.generic { J::Null } else { self.unsize(from, *t) };
                            ("unsize", e)
                        }
                        ty::adjustment::PointerCoercion::ReifyFnPointer(..) => ("reify", J::Null),
                        ty::adjustment::PointerCoercion::ClosureFnPointer(..) => {
                            ("closurefnptr", J::Null)
                        }
                        _ => ("ptr", J::Null),
                    },
                    CastKind::IntToInt => ("i2i", J::Null),
                    CastKind::FloatToInt => ("f2i", J::Null),
                    CastKind::FloatToFloat => ("f2f", J::Null),
                    CastKind::IntToFloat => ("i2f", J::Null),
                    CastKind::PtrToPtr => ("p2p", J::Null),
                    CastKind::Transmute | CastKind::BoxDerefTransmute => ("transmute", J::Null),
                    CastKind::Subtype => ("use", J::Null),
                    _ => ("other", J::Null),
                };
                ja![s("cast"), s(ks), oj, i(ft), i(tt), extra, self.span(sp)]
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, self.tcx);
                let tid = self.ty(t);
                ja![
                    s("bin"),
                    s(format!("{:?}", b)),
                    self.op(&ops.0),
                    self.op(&ops.1),
                    i(tid)
                ]
            }
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(&body.local_decls, self.tcx);
                let tid = self.ty(t);
                ja![s("un"), s(format!("{:?}", u)), self.op(o), i(tid)]
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let tid = self.ty(t);
                ja![s("discr"), self.place(p), i(tid)]
            }
            Rvalue::Aggregate(k, f) => {
                let fs: Vec<J> = f.iter().map(|x| self.op(x)).collect();
                match &**k {
                    AggregateKind::Array(_) => ja![s("aarr"), J::A(fs)],
                    AggregateKind::Tuple => ja![s("atup"), J::A(fs)],
                    AggregateKind::Adt(did, v, args, _, active) => {
                        let t = self.tcx.type_of(*did).instantiate(self.tcx, args).skip_norm_wip();
                        let tid = self.ty(t);
                        ja![
                            s("aadt"),
                            i(tid),
                            i(v.as_usize()),
                            J::A(fs),
                            active.map(|x| i(x.as_usize())).unwrap_or(J::Null)
                        ]
                    }
                    AggregateKind::Closure(did, args) => {
                        let t = Ty::new_closure(self.tcx, *did, args);
                        let tid = self.ty(t);
                        ja![s("acl"), i(tid), J::A(fs)]
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let tid = self.ty(*t);
                        ja![s("aptr"), i(tid), J::A(fs)]
                    }
                    _ => ja![s("?"), s("aggr")],
                }
            }
            x => ja![s("?"), s(format!("{:?}", x))],
        }
    }

    fn unsize(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        // walk through struct wrappers (Box, Rc, ...) to the pointers
        let (mut a, mut b) = (from, to);
        loop {
            match (a.kind(), b.kind()) {
                (ty::Ref(_, x, _) | ty::RawPtr(x, _), ty::Ref(_, y, _) | ty::RawPtr(y, _)) => {
                    let (x, y) = tcx.struct_lockstep_tails_for_codegen(*x, *y, self.env);
                    return match (x.kind(), y.kind()) {
                        (ty::Array(_, n), ty::Slice(_)) => {
                            ja![s("arr"), J::I(n.try_to_target_usize(tcx).unwrap() as i128)]
                        }
                        (ty::Dynamic(..), ty::Dynamic(..)) => ja![s("upcast")],
                        (_, ty::Dynamic(..)) => {
                            let v = self.vt(x, y);
                            ja![s("vt"), i(v)]
                        }
                        _ => J::Null,
                    };
                }
                (ty::Adt(d, aa), ty::Adt(_, ba)) => {
                    // find the coerced field
                    let mut next = None;
                    for f in d.non_enum_variant().fields.iter() {
                        let x = tcx.normalize_erasing_regions(self.env, f.ty(tcx, aa));
                        let y = tcx.normalize_erasing_regions(self.env, f.ty(tcx, ba));
                        if x != y && !x.is_phantom_data() {
                            next = Some((x, y));
                        }
                    }
                    match next {
                        Some((x, y)) => {
                            a = x;
                            b = y;
                        }
                        None => return J::Null,
                    }
                }
                (ty::Pat(x, _), ty::Pat(y, _)) => {
                    a = *x;
                    b = *y;
                }
                _ => return J::Null,
            }
        }
    }

    fn uw(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => i(b.as_usize()),
            _ => J::Null,
        }
    }

    fn callee(&mut self, body: &Body<'tcx>, func: &Operand<'tcx>) -> J {
        let tcx = self.tcx;
        let fty = func.ty(&body.local_decls, tcx);
        if let ty::FnDef(did, args) = fty.kind() {
            let args = args
                .no_bound_vars()
                .unwrap_or_else(|| tcx.instantiate_bound_regions_with_erased(*args));
            if self.generic {
                // try to resolve, fall back to the trait's item
                let args = tcx.erase_and_anonymize_regions(args);
                let r = Instance::try_resolve(tcx, self.env, *did, args);
                let tr = tcx.trait_of_assoc(*did).map(|t| s(self.path(t))).unwrap_or(J::Null);
                let selfty = if tcx.trait_of_assoc(*did).is_some() {
                    s(format!("{}", args.type_at(0)))
                } else {
                    J::Null
                };
                return match r {
                    Ok(Some(inst)) => {
                        let virt = matches!(inst.def, InstanceKind::Virtual(..));
                        ja![
                            s("g"),
                            s(self.path(inst.def_id())),
                            J::B(virt),
                            s(self.path(*did)),
                            tr,
                            selfty,
                            s(format!("{:?}", args)),
                            J::B(tcx.fn_sig(*did).skip_binder().safety().is_unsafe())
                        ]
                    }
                    _ => ja![
                        s("g"),
                        J::Null,
                        J::B(false),
                        s(self.path(*did)),
                        tr,
                        selfty,
                        s(format!("{:?}", args)),
                        J::B(tcx.fn_sig(*did).skip_binder().safety().is_unsafe())
                    ],
                };
            }
            match Instance::try_resolve(tcx, self.env, *did, args) {
                Ok(Some(inst)) => {
                    if let InstanceKind::Virtual(did, _) = inst.def {
                        return ja![s("virt"), s(self.path(did)), i(self.inst(inst))];
                    }
                    return ja![s("inst"), i(self.inst(inst))];
                }
                _ => return ja![s("?"), s(format!("{}", fty))],
            }
        }
        ja![s("ptr"), self.op(func)]
    }

    fn term(&mut self, body: &Body<'tcx>, t: &Terminator<'tcx>) -> J {
        match &t.kind {
            TerminatorKind::Goto { target, .. } => ja![s("goto"), i(target.as_usize())],
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&body.local_decls, self.tcx);
                let tid = self.ty(ty);
                let size = if self.generic {
                    None
                } else {
                    self.tcx.layout_of(self.env.as_query_input(ty)).ok().map(|l| l.size)
                };
                let v: Vec<J> = targets
                    .iter()
                    .map(|(x, b)| {
                        let x = match (ty.is_signed(), size) {
                            (true, Some(sz)) => sz.sign_extend(x),
                            _ => x as i128,
                        };
                        ja![J::I(x), i(b.as_usize())]
                    })
                    .collect();
                ja![
                    s("switch"),
                    self.op(discr),
                    i(tid),
                    J::A(v),
                    i(targets.otherwise().as_usize())
                ]
            }
            TerminatorKind::Return => ja![s("ret")],
            TerminatorKind::Unreachable => ja![s("unreachable")],
            TerminatorKind::UnwindResume => ja![s("resume")],
            TerminatorKind::UnwindTerminate(_) => ja![s("abort")],
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let ty = place.ty(&body.local_decls, self.tcx).ty;
                let tid = self.ty(ty);
                ja![
                    s("drop"),
                    self.place(place),
                    i(tid),
                    i(target.as_usize()),
                    self.uw(unwind)
                ]
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let c = self.callee(body, func);
                let a: Vec<J> = args.iter().map(|x| self.op(&x.node)).collect();
                let at: Vec<J> = args
                    .iter()
                    .map(|x| {
                        let t = x.node.ty(&body.local_decls, self.tcx);
                        i(self.ty(t))
                    })
                    .collect();
                let dt = destination.ty(&body.local_decls, self.tcx).ty;
                let dt = self.ty(dt);
                ja![
                    s("call"),
                    c,
                    J::A(a),
                    self.place(destination),
                    target.map(|x| i(x.as_usize())).unwrap_or(J::Null),
                    self.uw(unwind),
                    J::A(at),
                    i(dt)
                ]
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => ja![
                s("assert"),
                self.op(cond),
                J::B(*expected),
                s(assert_name(msg)),
                i(target.as_usize()),
                self.uw(unwind)
            ],
            TerminatorKind::FalseEdge { real_target, .. } => ja![s("goto"), i(real_target.as_usize())],
            TerminatorKind::FalseUnwind { real_target, .. } => {
                ja![s("goto"), i(real_target.as_usize())]
            }
            x => ja![s("?"), s(format!("{:?}", x))],
        }
    }
}

fn assert_name<'tcx>(m: &AssertMessage<'tcx>) -> String {
    let x = format!("{:?}", m);
    x.split('(').next().unwrap_or("").to_string()
        + match m {
            AssertKind::Overflow(op, ..) => match op {
                BinOp::Add => "-add",
                BinOp::Sub => "-sub",
                BinOp::Mul => "-mul",
                BinOp::Shl => "-shl",
                BinOp::Shr => "-shr",
                _ => "-x",
            },
            _ => "",
        }
}
