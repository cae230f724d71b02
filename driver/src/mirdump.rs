use crate::json::{i, s, J};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};

pub fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d))))
}
pub fn path_args<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, a: GenericArgsRef<'tcx>) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str_with_args(d, a))))
}
pub fn ty_str(t: Ty<'_>) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<J>,
    tyid: HashMap<Ty<'tcx>, usize>,
    queue: VecDeque<(Instance<'tcx>, Option<Promoted>, bool)>,
    seen: HashSet<String>,
    fns: Vec<(String, J)>,
    models: HashMap<String, DefId>,
    stop: Vec<String>,
    iter_next: Vec<(String, J)>,
    iter_done: HashSet<Ty<'tcx>>,
    drops: Vec<(String, J)>,
    notes: Vec<J>,
}

fn key_of<'tcx>(tcx: TyCtxt<'tcx>, inst: Instance<'tcx>) -> String {
    let p = path_args(tcx, inst.def_id(), inst.args);
    match inst.def {
        InstanceKind::Item(_) => p,
        InstanceKind::Shim(k) => match k {
            ShimKind::FnPtr(_, t) => format!("shim-fnptr {} {}", p, ty_str(t)),
            ShimKind::ClosureOnce { closure, .. } => format!("shim-once {} {}", p, path(tcx, closure)),
            ShimKind::DropGlue(_, t) => format!("shim-drop {}", t.map(|t| ty_str(t)).unwrap_or_default()),
            ShimKind::Clone(_, t) => format!("shim-clone {}", ty_str(t)),
            _ => format!("shim {} {:?}", p, k),
        },
        _ => format!("intrinsic {}", p),
    }
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            n => format!("{}", n.prefer_local_unconditionally()),
        };
        s(format!("{}:{}", f, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.tyn(t) as i128)
    }

    fn tyn(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(n) = self.tyid.get(&t) {
            return *n;
        }
        let n = self.types.len();
        self.tyid.insert(t, n);
        self.types.push(J::Null);
        let tcx = self.tcx;
        let name = ty_str(t);
        let mut o: Vec<(&'static str, J)> = vec![("s", s(name))];
        match *t.kind() {
            TyKind::Bool => o.push(("k", s("bool"))),
            TyKind::Char => o.push(("k", s("char"))),
            TyKind::Int(it) => {
                o.push(("k", s("int")));
                o.push(("bits", i(it.bit_width().unwrap_or(64) as usize)));
                o.push(("signed", J::B(true)));
            }
            TyKind::Uint(it) => {
                o.push(("k", s("int")));
                o.push(("bits", i(it.bit_width().unwrap_or(64) as usize)));
                o.push(("signed", J::B(false)));
            }
            TyKind::Float(_) => o.push(("k", s("float"))),
            TyKind::Str => o.push(("k", s("str"))),
            TyKind::Never => o.push(("k", s("never"))),
            TyKind::Array(e, c) => {
                o.push(("k", s("array")));
                o.push(("elem", self.ty(e)));
                let len = c.try_to_target_usize(tcx);
                o.push(("len", len.map(|x| J::I(x as i128)).unwrap_or(J::Null)));
            }
            TyKind::Slice(e) => {
                o.push(("k", s("slice")));
                o.push(("elem", self.ty(e)));
            }
            TyKind::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                o.push(("elem", self.ty(e)));
                o.push(("mut", J::B(m.is_mut())));
            }
            TyKind::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                o.push(("elem", self.ty(e)));
                o.push(("mut", J::B(m.is_mut())));
            }
            TyKind::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("elems", J::A(v)));
            }
            TyKind::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(path(tcx, d))));
                let ups: Vec<_> = args.as_closure().upvar_tys().iter().collect();
                let v = ups.into_iter().map(|t| self.ty(t)).collect();
                o.push(("elems", J::A(v)));
            }
            TyKind::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(path(tcx, d))));
                let args = args.skip_binder();
                o.push(("full", s(path_args(tcx, d, args))));
            }
            TyKind::FnPtr(..) => o.push(("k", s("fnptr"))),
            TyKind::Dynamic(..) => o.push(("k", s("dyn"))),
            TyKind::Adt(def, args) => {
                o.push(("k", s("adt")));
                let p = path(tcx, def.did());
                o.push(("path", s(p.clone())));
                o.push(("crate", s(tcx.crate_name(def.did().krate).to_string())));
                o.push(("enum", J::B(def.is_enum())));
                o.push(("union", J::B(def.is_union())));
                let ta: Vec<Ty<'tcx>> = args.types().collect();
                let v = ta.into_iter().map(|t| self.ty(t)).collect();
                o.push(("args", J::A(v)));
                let opaque = p.starts_with("alloc::") && !p.starts_with("alloc::borrow");
                if !opaque {
                    let mut vs = vec![];
                    let discrs: Vec<_> = if def.is_enum() {
                        def.discriminants(tcx).map(|(_, d)| d.val as i128).collect()
                    } else {
                        vec![0]
                    };
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = tcx
                                .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft))
                                .unwrap_or(ft);
                            let tj = self.ty(ft);
                            fs.push(J::A(vec![s(f.name.to_string()), tj]));
                        }
                        vs.push(J::O(vec![
                            ("name", s(v.name.to_string())),
                            ("d", J::I(discrs.get(vi.as_usize()).copied().unwrap_or(0))),
                            ("fields", J::A(fs)),
                        ]));
                    }
                    o.push(("variants", J::A(vs)));
                }
                // user written Drop
                if let Some(dtor) = tcx.adt_destructor(def.did()) {
                    if !def.did().is_local() && tcx.crate_name(def.did().krate).as_str() == "rstar" || def.did().is_local() {
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, dtor.did, args) {
                            let k = self.enqueue(inst);
                            o.push(("drop", s(k.clone())));
                            self.drops.push((k, J::Null));
                        }
                    }
                }
            }
            _ => o.push(("k", s("other"))),
        }
        let freeze_copy = tcx.type_is_copy_modulo_regions(self.env, t);
        o.push(("copy", J::B(freeze_copy)));
        self.types[n] = J::O(o);
        self.iterator_of(t);
        n
    }

    /// Remember how to advance any type that is an iterator, call any callable, and compare.
    fn iterator_of(&mut self, t: Ty<'tcx>) {
        if !self.iter_done.insert(t) {
            return;
        }
        let tcx = self.tcx;
        if let TyKind::Adt(..) = t.kind() {
            if let Some(tr) = tcx.get_diagnostic_item(rustc_span::sym::Iterator) {
                let ok = tcx.infer_ctxt_implements(tr, t, self.env);
                if ok {
                    if let Some(next) = tcx.associated_items(tr).in_definition_order().find(|a| a.name().as_str() == "next") {
                        let args = tcx.mk_args(&[t.into()]);
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, next.def_id, args) {
                            let k = self.enqueue(inst);
                            self.iter_next.push((ty_str(t), s(k)));
                        }
                    }
                }
            }
        }
    }

    fn stopped(&self, p: &str) -> bool {
        self.stop.iter().any(|x| p.starts_with(x.as_str()))
    }

    fn enqueue(&mut self, inst: Instance<'tcx>) -> String {
        let k = key_of(self.tcx, inst);
        if self.seen.insert(k.clone()) {
            let p = path(self.tcx, inst.def_id());
            let local = inst.def_id().is_local();
            if !self.stopped(&p) || local {
                self.queue.push_back((inst, None, false));
            }
        }
        k
    }

    fn body_json(&mut self, inst: Instance<'tcx>, body: &Body<'tcx>, span: Span, name: String) -> J {
        let tcx = self.tcx;
        let mono = |b: Body<'tcx>| -> Body<'tcx> {
            inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, b))
        };
        let body = mono(body.clone());
        let locals: Vec<J> = body.local_decls.iter().map(|l| l.ty).collect::<Vec<_>>().into_iter().map(|t| self.ty(t)).collect();
        let mut names: Vec<(String, J)> = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push((p.local.as_usize().to_string(), s(v.name.to_string())));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            if !bb.is_cleanup {
                for x in bb.statements.iter() {
                    if let Some(j) = self.stmt(x, &body) {
                        st.push(j);
                    }
                }
            }
            let t = if bb.is_cleanup { J::O(vec![("k", s("cleanup"))]) } else { self.term(inst, bb.terminator(), &body) };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", t)]));
        }
        let p = path(tcx, inst.def_id());
        let parent = tcx.opt_parent(inst.def_id());
        let mut trait_name = J::Null;
        if let Some(par) = parent {
            if matches!(tcx.def_kind(par), DefKind::Impl { of_trait: true }) {
                trait_name = s(path(tcx, tcx.impl_trait_ref(par).skip_binder().def_id));
            }
        }
        J::O(vec![
            ("name", s(name)),
            ("path", s(p)),
            ("item", s(tcx.opt_item_name(inst.def_id()).map(|x| x.to_string()).unwrap_or_default())),
            ("trait", trait_name),
            ("crate", s(tcx.crate_name(inst.def_id().krate).to_string())),
            ("local", J::B(inst.def_id().krate == LOCAL_CRATE)),
            ("span", self.span(span)),
            ("args", i(body.arg_count)),
            ("spread", body.spread_arg.map(|l| i(l.as_usize())).unwrap_or(J::Null)),
            ("closure", J::B(tcx.is_closure_like(inst.def_id()) && matches!(inst.def, InstanceKind::Item(_)))),
            ("locals", J::A(locals)),
            ("names", J::M(names)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn place(&mut self, p: &Place<'tcx>, _body: &Body<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), i(f.as_usize()), self.ty(t)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("c"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), i(v.as_usize())]),
                _ => s("?"),
            });
        }
        J::A(vec![i(p.local.as_usize()), J::A(pr)])
    }

    fn const_json(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("k", s("const")), ("ty", self.ty(t))];
        if let TyKind::FnDef(d, args) = *t.kind() {
            let args = args.skip_binder();
            // a function value: resolve so that it can be called later
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
                let k = self.callee(inst, d, args);
                o.push(("fn", k));
            }
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let inst = Instance::new_raw(u.def, u.args);
                let k = format!("promoted {} {}", p.as_usize(), path_args(tcx, u.def, u.args));
                if self.seen.insert(k.clone()) {
                    self.queue.push_back((inst, Some(p), false));
                }
                o.push(("body", s(k)));
                return J::O(o);
            }
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, u.def, u.args) {
                let d = inst.def_id();
                let cr = tcx.crate_name(d.krate).to_string();
                if d.is_local() {
                    o.push(("sym", s(path_args(tcx, d, inst.args))));
                    return J::O(o);
                }
                if cr == "rstar" && tcx.trivial_const(d).is_none() {
                    let k = format!("const {}", path_args(tcx, d, inst.args));
                    if self.seen.insert(k.clone()) {
                        self.queue.push_back((inst, None, true));
                    }
                    o.push(("body", s(k)));
                    return J::O(o);
                }
            }
        }
        if let Some(si) = c.const_.try_eval_scalar_int(tcx, self.env) {
            let sz = si.size();
            let v: i128 = match t.kind() {
                TyKind::Int(_) => si.to_int(sz),
                _ => si.to_uint(sz) as i128,
            };
            o.push(("v", J::I(v)));
            if let TyKind::Float(ft) = t.kind() {
                o.push(("fbits", i(ft.bit_width() as usize)));
            }
            return J::O(o);
        }
        if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
            if matches!(v, ConstValue::ZeroSized) {
                o.push(("zst", J::B(true)));
            } else if let TyKind::Ref(_, inner, _) = t.kind() {
                if inner.is_str() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                    }
                } else {
                    o.push(("other", s(format!("{}", c.const_))));
                }
            } else {
                o.push(("other", s(with_no_trimmed_paths!(format!("{}", c.const_)))));
                // scalar-layout aggregates (newtypes, C-like enums)
                if let Some(sc) = v.try_to_scalar_int() {
                    let sz = sc.size();
                    o.push(("raw", J::I(sc.to_uint(sz) as i128)));
                }
            }
        } else {
            o.push(("other", s(format!("{:?}", c.const_))));
        }
        J::O(o)
    }

    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(p, body))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(p, body))]),
            Operand::Constant(c) => self.const_json(c),
            Operand::RuntimeChecks(_) => {
                let b = self.ty(self.tcx.types.bool);
                J::O(vec![("k", s("const")), ("ty", b), ("v", J::I(0))])
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o, body)]),
            Rvalue::Repeat(o, c) => {
                let n = c.try_to_target_usize(tcx);
                let oj = self.operand(o, body);
                J::A(vec![s("repeat"), oj, n.map(|x| J::I(x as i128)).unwrap_or(J::Null)])
            }
            Rvalue::Ref(_, bk, p) => {
                J::A(vec![s("ref"), self.place(p, body), J::B(matches!(bk, BorrowKind::Mut { .. }))])
            }
            Rvalue::RawPtr(k, p) => {
                J::A(vec![s("addr"), self.place(p, body), J::B(matches!(k, RawPtrKind::Mut)), J::B(matches!(k, RawPtrKind::FakeForPtrMetadata))])
            }
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(body, tcx);
                let oj = self.operand(o, body);
                let f = self.ty(ft);
                let tj = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), oj, tj, f])
            }
            Rvalue::BinaryOp(op, b) => {
                let l = self.operand(&b.0, body);
                let r = self.operand(&b.1, body);
                let lt = b.0.ty(body, tcx);
                let t = self.ty(lt);
                J::A(vec![s("bin"), s(format!("{:?}", op)), l, r, t])
            }
            Rvalue::UnaryOp(op, o) => {
                let lt = o.ty(body, tcx);
                let t = self.ty(lt);
                J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(o, body), t])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                let tj = self.ty(t);
                J::A(vec![s("discr"), self.place(p, body), tj])
            }
            Rvalue::Aggregate(k, ops) => {
                let kj = match **k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(t)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, af) => {
                        let t = tcx.type_of(d).instantiate(tcx, args).skip_norm_wip();
                        let tj = self.ty(t);
                        J::A(vec![s("adt"), tj, i(v.as_usize()), af.map(|f| i(f.as_usize())).unwrap_or(J::Null)])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(tcx, d, args);
                        let tj = self.ty(t);
                        J::A(vec![s("closure"), tj])
                    }
                    AggregateKind::RawPtr(t, m) => J::A(vec![s("rawptr"), self.ty(t), J::B(m.is_mut())]),
                    _ => J::A(vec![s("other")]),
                };
                let v = ops.iter().map(|o| self.operand(o, body)).collect();
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let pj = self.place(p, body);
                J::A(vec![s("use"), J::O(vec![("k", s("copy")), ("p", pj)])])
            }
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("reborrow"), self.place(p, body), J::B(m.is_mut())]),
            _ => J::A(vec![s("?"), s(format!("{:?}", r))]),
        }
    }

    fn stmt(&mut self, x: &Statement<'tcx>, body: &Body<'tcx>) -> Option<J> {
        let sp = self.span(x.source_info.span);
        Some(match &x.kind {
            StatementKind::Assign(b) => {
                let p = self.place(&b.0, body);
                let t = b.0.ty(body, self.tcx).ty;
                let tj = self.ty(t);
                let r = self.rvalue(&b.1, body);
                J::A(vec![s("="), p, r, tj, sp])
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                J::A(vec![s("setd"), self.place(place, body), i(variant_index.as_usize()), sp])
            }
            StatementKind::StorageDead(l) => J::A(vec![s("dead"), i(l.as_usize())]),
            StatementKind::StorageLive(l) => J::A(vec![s("live"), i(l.as_usize())]),
            StatementKind::Intrinsic(n) => match &**n {
                NonDivergingIntrinsic::Assume(o) => J::A(vec![s("assume"), self.operand(o, body)]),
                NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let a = self.operand(&c.src, body);
                    let b = self.operand(&c.dst, body);
                    let n = self.operand(&c.count, body);
                    J::A(vec![s("copynon"), a, b, n])
                }
            },
            _ => return None,
        })
    }

    /// JSON description of a resolved callee, applying the model redirects.
    fn callee(&mut self, inst: Instance<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut inst = inst;
        let rp = path(tcx, inst.def_id());
        let tp = path(tcx, d);
        let rcrate = tcx.crate_name(inst.def_id().krate).to_string();
        let mut model = false;
        if rcrate != "rstar" && !inst.def_id().is_local() {
            if let Some(tr) = tcx.trait_of_assoc(d) {
                let trp = path(tcx, tr);
                let name = tcx.item_name(d).to_string();
                let cand = match trp.as_str() {
                    "core::iter::traits::iterator::Iterator" => Some(format!("m_iter_{}", name)),
                    "core::iter::traits::double_ended::DoubleEndedIterator" => Some(format!("m_dei_{}", name)),
                    "core::iter::traits::exact_size::ExactSizeIterator" => Some(format!("m_esi_{}", name)),
                    "core::iter::traits::collect::Extend" | "core::iter::traits::collect::FromIterator" | "core::clone::Clone" => {
                        let st = args.type_at(0);
                        match st.kind() {
                            TyKind::Adt(a, _) => {
                                let p = path(tcx, a.did());
                                let last = p.rsplit("::").next().unwrap_or("").to_lowercase();
                                Some(format!("m_{}_{}", name, last))
                            }
                            _ => None,
                        }
                    }
                    _ => None,
                };
                if let Some(c) = cand {
                    if let Some(m) = self.models.get(&c) {
                        inst = Instance::new_raw(*m, args);
                        if let Ok(Some(x)) = Instance::try_resolve(tcx, self.env, *m, args) {
                            inst = x;
                        }
                        model = true;
                    }
                }
            } else {
                // inherent/free functions: model name derived from the path
                let last: Vec<&str> = rp.split("::").filter(|x| !x.starts_with('<')).collect();
                if last.len() >= 2 {
                    let pre = if rcrate == "heapless" { "m_heapless" } else { "m_fn" };
                    let c = format!("{}_{}_{}", pre, last[last.len() - 2].to_lowercase(), last[last.len() - 1]);
                    if let Some(m) = self.models.get(&c) {
                        if let Ok(Some(x)) = Instance::try_resolve(tcx, self.env, *m, args) {
                            inst = x;
                            model = true;
                        }
                    }
                }
            }
        }
        let k = self.enqueue(inst);
        let targs: Vec<Ty<'tcx>> = args.types().collect();
        let ta = targs.into_iter().map(|t| self.ty(t)).collect();
        let mut o = vec![
            ("key", s(k)),
            ("path", s(path(tcx, inst.def_id()))),
            ("tpath", s(tp)),
            ("rpath", s(rp)),
            ("args", J::A(ta)),
            ("crate", s(tcx.crate_name(inst.def_id().krate).to_string())),
            ("kind", s(match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Shim(_) => "shim",
                InstanceKind::Virtual(..) => "virtual",
                _ => "intrinsic",
            })),
        ];
        if model {
            o.push(("model", J::B(true)));
        }
        if tcx.is_closure_like(inst.def_id()) {
            o.push(("closure", J::B(matches!(inst.def, InstanceKind::Item(_)))));
        }
        J::O(o)
    }

    fn term(&mut self, _inst: Instance<'tcx>, t: &Terminator<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let sp = self.span(t.source_info.span);
        let mut o: Vec<(&'static str, J)> = vec![("sp", sp)];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.push(("k", s("goto")));
                o.push(("t", i(target.as_usize())));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("k", s("switch")));
                let dt = discr.ty(body, tcx);
                o.push(("d", self.operand(discr, body)));
                o.push(("ty", self.ty(dt)));
                let bits = match dt.kind() {
                    TyKind::Int(it) => Some(it.bit_width().unwrap_or(64)),
                    _ => None,
                };
                let v = targets
                    .iter()
                    .map(|(v, b)| {
                        let mut x = v as i128;
                        if let Some(w) = bits {
                            if w < 128 && x >= (1i128 << (w - 1)) {
                                x -= 1i128 << w;
                            }
                        }
                        J::A(vec![J::I(x), i(b.as_usize())])
                    })
                    .collect();
                o.push(("c", J::A(v)));
                o.push(("o", i(targets.otherwise().as_usize())));
            }
            TerminatorKind::Return => o.push(("k", s("return"))),
            TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => o.push(("k", s("cleanup"))),
            TerminatorKind::Drop { place, target, .. } => {
                o.push(("k", s("drop")));
                let ty = place.ty(body, tcx).ty;
                o.push(("p", self.place(place, body)));
                o.push(("ty", self.ty(ty)));
                o.push(("t", i(target.as_usize())));
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                o.push(("k", s("assert")));
                o.push(("c", self.operand(cond, body)));
                o.push(("e", J::B(*expected)));
                let m = format!("{:?}", msg);
                o.push(("m", s(m.chars().take(60).collect::<String>())));
                o.push(("t", i(target.as_usize())));
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                o.push(("k", s("call")));
                let ft = func.ty(body, tcx);
                if let TyKind::FnDef(d, ga) = *ft.kind() {
                    let ga = ga.skip_binder();
                    match Instance::try_resolve(tcx, self.env, d, ga) {
                        Ok(Some(inst)) => {
                            let c = self.callee(inst, d, ga);
                            o.push(("f", c));
                        }
                        _ => o.push(("f", J::O(vec![("path", s(path(tcx, d))), ("unresolved", J::B(true))]))),
                    }
                } else {
                    o.push(("fop", self.operand(func, body)));
                }
                let a = args.iter().map(|x| self.operand(&x.node, body)).collect();
                o.push(("a", J::A(a)));
                let at: Vec<Ty<'tcx>> = args.iter().map(|x| x.node.ty(body, tcx)).collect();
                let at = at.into_iter().map(|t| self.ty(t)).collect();
                o.push(("at", J::A(at)));
                o.push(("dst", self.place(destination, body)));
                let dt = destination.ty(body, tcx).ty;
                o.push(("dty", self.ty(dt)));
                o.push(("t", target.map(|b| i(b.as_usize())).unwrap_or(J::Null)));
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                o.push(("k", s("goto")));
                o.push(("t", i(real_target.as_usize())));
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                o.push(("k", s("goto")));
                o.push(("t", i(real_target.as_usize())));
            }
            k => {
                o.push(("k", s("?")));
                o.push(("what", s(format!("{:?}", k))));
            }
        }
        J::O(o)
    }

    fn process(&mut self, inst: Instance<'tcx>, prom: Option<Promoted>, konst: bool) {
        let tcx = self.tcx;
        let d = inst.def_id();
        if let Some(p) = prom {
            let k = format!("promoted {} {}", p.as_usize(), path_args(tcx, d, inst.args));
            let body = tcx.promoted_mir(d)[p].clone();
            let j = self.body_json(inst, &body, tcx.def_span(d), k.clone());
            self.fns.push((k, j));
            return;
        }
        if konst {
            let k = format!("const {}", path_args(tcx, d, inst.args));
            let body = tcx.mir_for_ctfe(d).clone();
            let j = self.body_json(inst, &body, tcx.def_span(d), k.clone());
            self.fns.push((k, j));
            return;
        }
        let k = key_of(tcx, inst);
        match inst.def {
            InstanceKind::Item(_) => {
                if !tcx.is_mir_available(d) {
                    self.notes.push(s(format!("no mir: {}", k)));
                    return;
                }
                if tcx.is_foreign_item(d) {
                    return;
                }
            }
            InstanceKind::Shim(ShimKind::DropGlue(..)) => return,
            InstanceKind::Shim(_) => {}
            _ => return,
        }
        let body = tcx.instance_mir(inst.def).clone();
        let j = self.body_json(inst, &body, tcx.def_span(d), k.clone());
        self.fns.push((k, j));
    }
}

trait Implements<'tcx> {
    fn infer_ctxt_implements(self, tr: DefId, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> bool;
}
impl<'tcx> Implements<'tcx> for TyCtxt<'tcx> {
    fn infer_ctxt_implements(self, tr: DefId, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> bool {
        // decided through method resolution: an impl exists iff `next` resolves
        let tcx = self;
        let tref = ty::TraitRef::new(tcx, tr, [t]);
        tcx.codegen_select_candidate(tcx.erase_and_anonymize_regions(env.as_query_input(tref))).is_ok()
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut cx = Cx {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        types: vec![],
        tyid: HashMap::new(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
        fns: vec![],
        models: HashMap::new(),
        stop: vec![],
        iter_next: vec![],
        iter_done: HashSet::new(),
        drops: vec![],
        notes: vec![],
    };
    if let Ok(f) = std::env::var("MIRDUMP_STOP") {
        if let Ok(t) = std::fs::read_to_string(f) {
            cx.stop = t.lines().map(|x| x.trim().to_string()).filter(|x| !x.is_empty() && !x.starts_with('#')).collect();
        }
    }
    let mut roots: Vec<(String, J)> = vec![];
    let mut root_insts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn) {
            continue;
        }
        let n = tcx.item_name(d).to_string();
        if n.starts_with("m_") {
            cx.models.insert(n, d);
        } else if n.starts_with("root_") {
            root_insts.push((n, d));
        }
    }
    for (n, d) in root_insts {
        if tcx.generics_of(d).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) {
            continue;
        }
        let args = ty::GenericArgs::for_item(tcx, d, |_, _| tcx.lifetimes.re_erased.into());
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, cx.env, d, args) {
            let k = cx.enqueue(inst);
            let m = tcx.item_name(tcx.parent(d)).to_string();
            let n = if m.starts_with("roots") { n } else { format!("{}@{}", n, m) };
            roots.push((n, s(k)));
        }
    }
    while let Some((inst, p, c)) = cx.queue.pop_front() {
        cx.process(inst, p, c);
    }
    let j = J::O(vec![
        ("roots", J::M(roots)),
        ("types", J::A(cx.types)),
        ("fns", J::M(cx.fns)),
        ("iter_next", J::M(cx.iter_next)),
        ("notes", J::A(cx.notes)),
    ]);
    let mut o = String::new();
    j.write(&mut o);
    std::fs::write(out, o).expect("write dump");
}
