#![feature(rustc_private)]
#![allow(clippy::all)]
//! rustc driver: dumps the type-checked MIR of every function of a crate as JSON facts.
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir;
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths};
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt};
use rustc_span::def_id::{DefId, LocalDefId};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;

mod json;
use json::J;

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let is_bin = tcx
            .crate_types()
            .iter()
            .any(|t| format!("{:?}", t) == "Executable");
        if name == "build_script_build" {
            return Compilation::Continue;
        }
        let mut d = Dumper {
            tcx,
            tys: HashMap::new(),
            ty_out: Vec::new(),
            cname: name.clone(),
            cur: None,
        };
        let j = d.dump();
        let path = format!("{}/{}{}.json", self.out, name, if is_bin { ".bin" } else { "" });
        let tmp = format!("{}.tmp{}", path, std::process::id());
        let mut f = std::fs::File::create(&tmp).unwrap();
        let mut s = String::new();
        j.write(&mut s);
        f.write_all(s.as_bytes()).unwrap();
        drop(f);
        std::fs::rename(&tmp, &path).unwrap();
        Compilation::Continue
    }
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    cname: String,
    cur: Option<DefId>,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn i(x: usize) -> J {
    J::I(x as i128)
}

impl<'tcx> Dumper<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = with_no_trimmed_paths!(with_crate_prefix!(self.tcx.def_path_str(d)));
        self.fix(p)
    }

    // `crate::` -> crate name
    fn fix(&self, p: String) -> String {
        let b = p.as_bytes();
        let mut out = String::with_capacity(p.len());
        let mut k = 0;
        while k < b.len() {
            if p[k..].starts_with("crate::")
                && (k == 0 || !(b[k - 1].is_ascii_alphanumeric() || b[k - 1] == b'_' || b[k - 1] == b':'))
            {
                out.push_str(&self.cname);
                out.push_str("::");
                k += 7;
            } else {
                let c = p[k..].chars().next().unwrap();
                out.push(c);
                k += c.len_utf8();
            }
        }
        out
    }

    fn line(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        i(lo.line)
    }

    fn file(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.source_callsite().lo());
        format!("{}", lo.file.name.prefer_local_unconditionally())
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(&k) = self.tys.get(&t) {
            return i(k);
        }
        let k = self.ty_out.len();
        self.tys.insert(t, k);
        self.ty_out.push(J::N);
        let j = self.ty_inner(t);
        self.ty_out[k] = j;
        i(k)
    }

    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => {
                    let j = self.ty(t);
                    v.push(j)
                }
                GenericArgKind::Const(c) => v.push(J::O(vec![("c", s(format!("{}", c)))])),
                #[allow(unreachable_patterns)]
                _ => v.push(J::O(vec![("c", s("?"))])),
            }
        }
        J::A(v)
    }

    fn ty_inner(&mut self, t: Ty<'tcx>) -> J {
        match *t.kind() {
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let a = self.args(args);
                J::O(vec![("k", s("adt")), ("d", s(p)), ("a", a)])
            }
            ty::Ref(_, inner, m) => {
                let j = self.ty(inner);
                J::O(vec![("k", s("ref")), ("m", i(m.is_mut() as usize)), ("t", j)])
            }
            ty::RawPtr(inner, m) => {
                let j = self.ty(inner);
                J::O(vec![("k", s("ptr")), ("m", i(m.is_mut() as usize)), ("t", j)])
            }
            ty::Tuple(l) => {
                let a: Vec<J> = l.iter().map(|x| self.ty(x)).collect();
                J::O(vec![("k", s("tuple")), ("a", J::A(a))])
            }
            ty::Slice(inner) => {
                let j = self.ty(inner);
                J::O(vec![("k", s("slice")), ("t", j)])
            }
            ty::Array(inner, n) => {
                let j = self.ty(inner);
                J::O(vec![("k", s("array")), ("t", j), ("n", s(format!("{}", n)))])
            }
            ty::FnDef(d, args) => {
                let p = self.path(d);
                let a = self.args(args.no_bound_vars().unwrap_or_else(|| args.skip_binder()));
                J::O(vec![("k", s("fndef")), ("d", s(p)), ("a", a)])
            }
            ty::Closure(d, args) => {
                let p = self.path(d);
                let a = self.args(args.as_closure().parent_args_ref(self.tcx));
                J::O(vec![("k", s("closure")), ("d", s(p)), ("a", a)])
            }
            ty::Param(p) => J::O(vec![
                ("k", s("param")),
                ("n", s(p.name.to_string())),
                ("i", i(p.index as usize)),
            ]),
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr")), ("s", s(format!("{}", t)))]),
            ty::Dynamic(preds, ..) => {
                let p = preds.principal_def_id().map(|d| self.path(d));
                J::O(vec![("k", s("dyn")), ("d", p.map(s).unwrap_or(J::N))])
            }
            _ => {
                let st = with_no_trimmed_paths!(with_crate_prefix!(format!("{}", t)));
                let st = self.fix(st);
                let kind = match t.kind() {
                    ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => "prim",
                    ty::Alias(..) => "alias",
                    ty::Foreign(_) => "foreign",
                    _ => "other",
                };
                J::O(vec![("k", s(kind)), ("n", s(st))])
            }
        }
    }

    fn dump(&mut self) -> J {
        let tcx = self.tcx;
        let mut fns: Vec<(String, J)> = vec![];
        let mut seen: HashMap<String, usize> = HashMap::new();
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let is_const = matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. });
            let kd = format!("{:?}", kind);
            if !is_fn && !is_const {
                continue;
            }
            let mut p = self.path(d);
            let n = seen.entry(p.clone()).or_insert(0);
            *n += 1;
            if *n > 1 {
                let _ = write!(p, "#{}", n);
            }
            self.cur = Some(d);
            let body = if is_fn && !tcx.is_constructor(d) {
                tcx.optimized_mir(d)
            } else {
                tcx.mir_for_ctfe(d)
            };
            let mut j = self.body(body, ld);
            if let J::O(v) = &mut j {
                v.push(("kind", s(kd)));
                let proms = tcx.promoted_mir(d);
                let mut pv = vec![];
                for pb in proms.iter() {
                    pv.push(self.body(pb, ld));
                }
                v.push(("prom", J::A(pv)));
                if is_fn && kind != DefKind::Closure {
                    v.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
                }
                let par = tcx.parent(d);
                v.push(("parent", s(self.path(par))));
                let g = tcx.generics_of(if kind == DefKind::Closure { tcx.typeck_root_def_id(d) } else { d });
                let mut gv = vec![];
                for k in 0..g.count() {
                    let gp = g.param_at(k, tcx);
                    if matches!(gp.kind, ty::GenericParamDefKind::Lifetime) {
                        continue;
                    }
                    gv.push(J::A(vec![i(gp.index as usize), s(gp.name.to_string())]));
                }
                v.push(("gen", J::A(gv)));
            }
            fns.push((p, j));
        }
        // foreign (extern "C") fns, impls, traits, adts
        let mut impls = vec![];
        let mut traits = vec![];
        let mut adts = vec![];
        let mut externs = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Impl { .. } => impls.push(self.imp(d)),
                DefKind::Trait => {
                    let mut ms = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        ms.push(J::O(vec![
                            ("n", s(it.name().to_string())),
                            ("p", s(self.path(it.def_id))),
                            ("def", i(it.defaultness(tcx).has_value() as usize)),
                        ]));
                    }
                    let p = self.path(d);
                    traits.push(J::O(vec![("p", s(p)), ("items", J::A(ms))]));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let j = self.adt(d);
                    adts.push(j)
                }
                DefKind::ForeignMod => {}
                DefKind::Fn if tcx.is_foreign_item(d) => {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                    let sig = tcx.instantiate_bound_regions_with_erased(sig);
                    let ins: Vec<J> = sig.inputs().iter().map(|t| self.ty(*t)).collect();
                    let out = self.ty(sig.output());
                    let p = self.path(d);
                    externs.push(J::O(vec![
                        ("p", s(p)),
                        ("sym", s(tcx.item_name(d).to_string())),
                        ("in", J::A(ins)),
                        ("out", out),
                        ("file", s(self.file(tcx.def_span(d)))),
                        ("line", self.line(tcx.def_span(d))),
                    ]));
                }
                _ => {}
            }
        }
        let tys = std::mem::take(&mut self.ty_out);
        J::O(vec![
            ("crate", s(self.cname.clone())),
            ("types", J::A(tys)),
            ("fns", J::M(fns)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
            ("adts", J::A(adts)),
            ("externs", J::A(externs)),
        ])
    }

    fn gens(&self, d: DefId) -> J {
        let g = self.tcx.generics_of(d);
        let mut gv = vec![];
        for k in 0..g.count() {
            let gp = g.param_at(k, self.tcx);
            if matches!(gp.kind, ty::GenericParamDefKind::Lifetime) {
                continue;
            }
            gv.push(J::A(vec![i(gp.index as usize), s(gp.name.to_string())]));
        }
        J::A(gv)
    }

    fn imp(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let st = self.ty(st);
        let mut v = vec![("self", st), ("gen", self.gens(d))];
        if let Some(tr) = tcx.impl_opt_trait_ref(d) {
            let tr = tr.instantiate_identity().skip_norm_wip();
            v.push(("trait", s(self.path(tr.def_id))));
            let a = self.args(tr.args);
            v.push(("targs", a));
        }
        let mut ms = vec![];
        for it in tcx.associated_items(d).in_definition_order() {
            let mut o = vec![("n", s(it.name().to_string())), ("p", s(self.path(it.def_id)))];
            if matches!(tcx.def_kind(it.def_id), DefKind::AssocTy) {
                let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                let t = self.ty(t);
                o.push(("ty", t));
            }
            ms.push(J::O(o));
        }
        v.push(("items", J::A(ms)));
        v.push(("line", self.line(tcx.def_span(d))));
        v.push(("file", s(self.file(tcx.def_span(d)))));
        v.push(("unsafe", i(0)));
        J::O(v)
    }

    fn adt(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                J::I(def.discriminant_for_variant(tcx, vi).val as i128)
            } else {
                J::N
            };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = self.ty(t);
                fs.push(J::O(vec![
                    ("n", s(f.name.to_string())),
                    ("t", t),
                    ("pub", i(f.vis.is_public() as usize)),
                ]));
            }
            vs.push(J::O(vec![("n", s(v.name.to_string())), ("discr", discr), ("fields", J::A(fs))]));
        }
        // layout (only for non-generic types)
        let mut lay = J::N;
        let g = tcx.generics_of(d);
        let only_lt = (0..g.count()).all(|k| {
            matches!(g.param_at(k, tcx).kind, ty::GenericParamDefKind::Lifetime)
        });
        if only_lt {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let t = tcx.erase_and_anonymize_regions(t);
            if let Ok(l) = tcx.layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(t)) {
                let mut offs = vec![];
                if !def.is_enum() {
                    for k in 0..l.fields.count() {
                        offs.push(J::I(l.fields.offset(k).bytes() as i128));
                    }
                }
                lay = J::O(vec![
                    ("size", J::I(l.size.bytes() as i128)),
                    ("align", J::I(l.align.abi.bytes() as i128)),
                    ("offs", J::A(offs)),
                ]);
            }
        }
        J::O(vec![
            ("p", s(self.path(d))),
            ("kind", s(format!("{:?}", tcx.def_kind(d)))),
            ("repr", s(format!("{:?}", def.repr()))),
            ("reprc", i(def.repr().c() as usize)),
            ("gen", self.gens(d)),
            ("variants", J::A(vs)),
            ("layout", lay),
            ("file", s(self.file(tcx.def_span(d)))),
            ("line", self.line(tcx.def_span(d))),
        ])
    }

    fn body(&mut self, b: &mir::Body<'tcx>, _ld: LocalDefId) -> J {
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv = vec![];
        for v in b.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    upv.push(J::A(vec![s(v.name.to_string()), self.place(b, p)]));
                }
            }
        }
        let locals: Vec<J> = b
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                match names.get(&l.as_usize()) {
                    Some(n) => J::A(vec![t, s(n.clone())]),
                    None => J::A(vec![t]),
                }
            })
            .collect();
        let mut blocks = vec![];
        for (_bi, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                if let Some(j) = self.stmt(b, x) {
                    st.push(j)
                }
            }
            let t = self.term(b, bb.terminator());
            let mut o = vec![("s", J::A(st)), ("t", t)];
            if bb.is_cleanup {
                o.push(("c", i(1)));
            }
            blocks.push(J::O(o));
        }
        J::O(vec![
            ("file", s(self.file(b.span))),
            ("line", self.line(b.span)),
            ("argc", i(b.arg_count)),
            ("locals", J::A(locals)),
            ("upvars", J::A(upv)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn stmt(&mut self, b: &mir::Body<'tcx>, x: &mir::Statement<'tcx>) -> Option<J> {
        match &x.kind {
            mir::StatementKind::Assign(bx) => {
                let (p, r) = &**bx;
                let pj = self.place(b, p);
                let rj = self.rvalue(b, r);
                Some(J::A(vec![s("="), pj, rj, self.line(x.source_info.span)]))
            }
            mir::StatementKind::SetDiscriminant { place, variant_index } => {
                let pj = self.place(b, place);
                Some(J::A(vec![s("sd"), pj, i(variant_index.as_usize())]))
            }
            _ => None,
        }
    }

    fn place(&mut self, b: &mir::Body<'tcx>, p: &mir::Place<'tcx>) -> J {
        let mut v = vec![i(p.local.as_usize())];
        let mut cur = mir::PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                mir::ProjectionElem::Deref => v.push(s("*")),
                mir::ProjectionElem::Field(f, t) => {
                    let mut nm = String::new();
                    if let ty::Adt(def, _) = cur.ty.kind() {
                        let vi = cur.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if def.is_enum() && cur.variant_index.is_none() {
                        } else if let Some(fd) = def.variant(vi).fields.get(f) {
                            nm = fd.name.to_string();
                        }
                    }
                    let tj = self.ty(t);
                    v.push(J::A(vec![s("f"), i(f.as_usize()), s(nm), tj]))
                }
                mir::ProjectionElem::Downcast(n, vi) => v.push(J::A(vec![
                    s("d"),
                    i(vi.as_usize()),
                    s(n.map(|x| x.to_string()).unwrap_or_default()),
                ])),
                mir::ProjectionElem::Index(l) => v.push(J::A(vec![s("i"), i(l.as_usize())])),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => v.push(J::A(vec![
                    s("ci"),
                    i(offset as usize),
                    i(from_end as usize),
                    i(min_length as usize),
                ])),
                mir::ProjectionElem::Subslice { from, to, from_end } => v.push(J::A(vec![
                    s("ss"),
                    i(from as usize),
                    i(to as usize),
                    i(from_end as usize),
                ])),
                _ => v.push(s("?")),
            }
            cur = cur.projection_ty(self.tcx, e);
        }
        J::A(v)
    }

    fn operand(&mut self, b: &mir::Body<'tcx>, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => {
                let j = self.place(b, p);
                J::A(vec![s("c"), j])
            }
            mir::Operand::Move(p) => {
                let j = self.place(b, p);
                J::A(vec![s("m"), j])
            }
            mir::Operand::Constant(c) => self.konst(c),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![s("rt"), s(format!("{:?}", o))]),
        }
    }

    fn konst(&mut self, c: &mir::ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tj = self.ty(t);
        let mut o = vec![("t", tj)];
        if let ty::FnDef(..) = t.kind() {
            o.push(("k", s("fn")));
            return J::A(vec![s("k"), J::O(o)]);
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("k", s("prom")));
                o.push(("i", i(p.as_usize())));
                o.push(("of", s(self.path(u.def))));
                return J::A(vec![s("k"), J::O(o)]);
            }
            o.push(("path", s(self.path(u.def))));
            let a = self.args(u.args);
            o.push(("args", a));
        }
        let owner = self.cur.unwrap();
        let env = ty::TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(owner));
        let ev = c.const_.eval(tcx, env, c.span);
        match ev {
            Ok(val) => {
                let bits = val.try_to_bits(match tcx.layout_of(env.as_query_input(t)) {
                    Ok(l) => l.size,
                    Err(_) => rustc_abi::Size::ZERO,
                });
                if let (Some(bt), true) = (bits, t.is_scalar_like()) {
                    o.push(("k", s("int")));
                    o.push(("v", J::I(bt as i128)));
                    return J::A(vec![s("k"), J::O(o)]);
                }
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        if let Some(bs) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                            o.push(("k", s("str")));
                            o.push(("v", s(String::from_utf8_lossy(bs).to_string())));
                            return J::A(vec![s("k"), J::O(o)]);
                        }
                    }
                    if let ty::Slice(_) = inner.kind() {
                        if let Some(bs) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                            o.push(("k", s("bytes")));
                            o.push(("v", J::A(bs.iter().map(|x| i(*x as usize)).collect())));
                            return J::A(vec![s("k"), J::O(o)]);
                        }
                    }
                }
                if let mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(ptr, _)) = val {
                    let (prov, _off) = ptr.prov_and_relative_offset();
                    match tcx.global_alloc(prov.alloc_id()) {
                        mir::interpret::GlobalAlloc::Static(d) => {
                            o.push(("k", s("static")));
                            o.push(("of", s(self.path(d))));
                            return J::A(vec![s("k"), J::O(o)]);
                        }
                        mir::interpret::GlobalAlloc::Function { instance } => {
                            o.push(("k", s("fnptr")));
                            o.push(("of", s(self.path(instance.def_id()))));
                            return J::A(vec![s("k"), J::O(o)]);
                        }
                        mir::interpret::GlobalAlloc::Memory(m) => {
                            let a = m.inner();
                            let n = a.size().bytes_usize();
                            if n <= 256 {
                                let bs = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                                o.push(("mem", J::A(bs.iter().map(|x| i(*x as usize)).collect())));
                            }
                        }
                        _ => {}
                    }
                }
            }
            Err(_) => {}
        }
        o.push(("k", s("other")));
        let st = with_no_trimmed_paths!(with_crate_prefix!(format!("{}", c.const_)));
        let st = self.fix(st);
        o.push(("v", s(st)));
        J::A(vec![s("k"), J::O(o)])
    }

    fn rvalue(&mut self, b: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> J {
        match r {
            mir::Rvalue::Use(o, ..) => {
                let j = self.operand(b, o);
                J::A(vec![s("use"), j])
            }
            mir::Rvalue::Repeat(o, n) => {
                let j = self.operand(b, o);
                J::A(vec![s("rep"), j, s(format!("{}", n))])
            }
            mir::Rvalue::Ref(_, k, p) => {
                let j = self.place(b, p);
                let m = matches!(k, mir::BorrowKind::Mut { .. });
                J::A(vec![s("ref"), i(m as usize), j])
            }
            mir::Rvalue::RawPtr(k, p) => {
                let j = self.place(b, p);
                J::A(vec![s("raw"), s(format!("{:?}", k)), j])
            }
            mir::Rvalue::Cast(k, o, t) => {
                let j = self.operand(b, o);
                let tj = self.ty(*t);
                let from = o.ty(&b.local_decls, self.tcx);
                let fj = self.ty(from);
                J::A(vec![s("cast"), s(format!("{:?}", k)), j, tj, fj])
            }
            mir::Rvalue::BinaryOp(op, bx) => {
                let l = self.operand(b, &bx.0);
                let r = self.operand(b, &bx.1);
                let t = bx.0.ty(&b.local_decls, self.tcx);
                let tj = self.ty(t);
                J::A(vec![s("bin"), s(format!("{:?}", op)), l, r, tj])
            }
            mir::Rvalue::UnaryOp(op, o) => {
                let j = self.operand(b, o);
                let t = o.ty(&b.local_decls, self.tcx);
                let tj = self.ty(t);
                J::A(vec![s("un"), s(format!("{:?}", op)), j, tj])
            }
            mir::Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let j = self.place(b, p);
                let tj = self.ty(t);
                J::A(vec![s("discr"), j, tj])
            }
            mir::Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(b, o)).collect();
                let kj = match &**k {
                    mir::AggregateKind::Adt(d, vi, args, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let a = self.args(args);
                        let p = self.path(*d);
                        J::A(vec![
                            s("adt"),
                            s(p),
                            i(vi.as_usize()),
                            s(if def.is_enum() { def.variant(*vi).name.to_string() } else { String::new() }),
                            a,
                        ])
                    }
                    mir::AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    mir::AggregateKind::Array(t) => {
                        let tj = self.ty(*t);
                        J::A(vec![s("array"), tj])
                    }
                    mir::AggregateKind::Closure(d, a) => {
                        let p = self.path(*d);
                        let aj = self.args(a.as_closure().parent_args_ref(self.tcx));
                        J::A(vec![s("closure"), s(p), aj])
                    }
                    x => J::A(vec![s("other"), s(format!("{:?}", x))]),
                };
                J::A(vec![s("agg"), kj, J::A(os)])
            }
            mir::Rvalue::CopyForDeref(p) => {
                let j = self.place(b, p);
                J::A(vec![s("use"), J::A(vec![s("c"), j])])
            }
            x => J::A(vec![s("other"), s(format!("{:?}", x))]),
        }
    }

    fn callee(&mut self, b: &mir::Body<'tcx>, f: &mir::Operand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = f.ty(&b.local_decls, tcx);
        if let ty::FnDef(d, args) = *t.kind() {
            let d: DefId = d.into();
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            let p = self.path(d);
            let a = self.args(args);
            let mut o = vec![("d", s(p)), ("a", a)];
            if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("tr", s(self.path(tr))));
                o.push(("m", s(tcx.item_name(d).to_string())));
            }
            let owner = self.cur.unwrap();
            let env = ty::TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(owner));
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, eargs) {
                let rp = self.path(inst.def_id());
                let ra = self.args(inst.args);
                if let ty::InstanceKind::Virtual(..) = inst.def {
                    o.push(("virt", i(1)));
                } else {
                    o.push(("r", s(rp)));
                    o.push(("ra", ra));
                }
                if tcx.is_foreign_item(inst.def_id()) {
                    o.push(("ext", s(tcx.item_name(inst.def_id()).to_string())));
                }
            } else if tcx.is_foreign_item(d) {
                o.push(("ext", s(tcx.item_name(d).to_string())));
            }
            J::O(o)
        } else {
            let j = self.operand(b, f);
            J::O(vec![("dyn", j)])
        }
    }

    fn unwind(&self, u: &mir::UnwindAction) -> J {
        match u {
            mir::UnwindAction::Cleanup(bb) => i(bb.as_usize()),
            _ => J::N,
        }
    }

    fn term(&mut self, b: &mir::Body<'tcx>, t: &mir::Terminator<'tcx>) -> J {
        let ln = self.line(t.source_info.span);
        match &t.kind {
            mir::TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_usize())]),
            mir::TerminatorKind::SwitchInt { discr, targets } => {
                let o = self.operand(b, discr);
                let ts: Vec<J> = targets
                    .iter()
                    .map(|(v, bb)| J::A(vec![J::I(v as i128), i(bb.as_usize())]))
                    .collect();
                let ty = discr.ty(&b.local_decls, self.tcx);
                let tj = self.ty(ty);
                J::A(vec![s("sw"), o, J::A(ts), i(targets.otherwise().as_usize()), tj, ln])
            }
            mir::TerminatorKind::Return => J::A(vec![s("ret")]),
            mir::TerminatorKind::Unreachable => J::A(vec![s("unr")]),
            mir::TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
            mir::TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort")]),
            mir::TerminatorKind::Drop { place, target, unwind, .. } => {
                let ty = place.ty(&b.local_decls, self.tcx).ty;
                let p = self.place(b, place);
                let tj = self.ty(ty);
                J::A(vec![s("drop"), p, i(target.as_usize()), self.unwind(unwind), tj, ln])
            }
            mir::TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let f = self.callee(b, func);
                let a: Vec<J> = args.iter().map(|x| self.operand(b, &x.node)).collect();
                let p = self.place(b, destination);
                J::A(vec![
                    s("call"),
                    f,
                    J::A(a),
                    p,
                    target.map(|x| i(x.as_usize())).unwrap_or(J::N),
                    self.unwind(unwind),
                    ln,
                ])
            }
            mir::TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let o = self.operand(b, cond);
                let m = format!("{:?}", msg);
                J::A(vec![
                    s("assert"),
                    o,
                    i(*expected as usize),
                    s(m.split('(').next().unwrap_or("").to_string()),
                    i(target.as_usize()),
                    self.unwind(unwind),
                    ln,
                ])
            }
            mir::TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_usize())]),
            mir::TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_usize())]),
            x => J::A(vec![s("other"), s(format!("{:?}", x))]),
        }
    }
}

trait ScalarLike {
    fn is_scalar_like(&self) -> bool;
}
impl<'tcx> ScalarLike for Ty<'tcx> {
    fn is_scalar_like(&self) -> bool {
        matches!(self.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_))
    }
}
trait ParentArgs<'tcx> {
    fn parent_args_ref(&self, tcx: TyCtxt<'tcx>) -> ty::GenericArgsRef<'tcx>;
}
impl<'tcx> ParentArgs<'tcx> for ty::ClosureArgs<TyCtxt<'tcx>> {
    fn parent_args_ref(&self, tcx: TyCtxt<'tcx>) -> ty::GenericArgsRef<'tcx> {
        tcx.mk_args(self.parent_args())
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").ok();
    let query = args.iter().any(|a| a == "-vV" || a.starts_with("--print"));
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    args.push("-Coverflow-checks=on".into());
    rustc_driver::catch_with_exit_code(move || match out {
        Some(out) if !query => {
            let mut cb = Cb { out };
            rustc_driver::compiler_entrypoint(&args, &mut cb)
        }
        _ => {
            struct Nop;
            impl Callbacks for Nop {}
            rustc_driver::compiler_entrypoint(&args, &mut Nop)
        }
    })
}
