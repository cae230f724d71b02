//! Facts about the crate under analysis that its own HIR, types and trait solver know.
use crate::json::{i, s, J};
use crate::mirdump::{path, ty_str};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_infer::traits::{Obligation, ObligationCause};
use rustc_middle::hir::nested_filter;
use rustc_middle::middle::privacy::Level;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TyKind, TypeSuperVisitable, TypeVisitable, TypeVisitor, TypingEnv};
use rustc_span::Span;
use rustc_trait_selection::traits::query::evaluate_obligation::InferCtxtExt;
use std::collections::HashSet;

fn span(tcx: TyCtxt<'_>, sp: Span) -> J {
    let sm = tcx.sess.source_map();
    let sp = sp.source_callsite();
    let lo = sm.lookup_char_pos(sp.lo());
    s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
}

// ---------------------------------------------------------------- unsafe code
struct Unsafe<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<J>,
    blocks: usize,
}
impl<'tcx> Unsafe<'tcx> {
    fn hit(&mut self, what: &str, sp: Span) {
        let j = J::O(vec![("what", s(what)), ("at", span(self.tcx, sp))]);
        self.found.push(j);
    }
}
impl<'tcx> Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        self.blocks += 1;
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.hit("unsafe block", b.span);
        }
        intravisit::walk_block(self, b)
    }
}

// ---------------------------------------------------------------- types
struct Parts<'tcx> {
    tcx: TyCtxt<'tcx>,
    seen: HashSet<Ty<'tcx>>,
    hits: Vec<String>,
}
impl<'tcx> Parts<'tcx> {
    /// Everything a value of the type consists of or points to.
    fn deep(&mut self, t: Ty<'tcx>, trail: &str) {
        if !self.seen.insert(t) {
            return;
        }
        let tcx = self.tcx;
        match *t.kind() {
            TyKind::Adt(def, args) => {
                if Some(def.did()) == tcx.lang_items().unsafe_cell_type() {
                    self.hits.push(format!("interior mutability: {}", trail));
                    return;
                }
                for f in def.all_fields() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    self.deep(ft, &format!("{} > {}", trail, ty_str(ft)));
                }
                for a in args.types() {
                    self.deep(a, &format!("{} > {}", trail, ty_str(a)));
                }
            }
            TyKind::RawPtr(e, _) | TyKind::Ref(_, e, _) | TyKind::Array(e, _) | TyKind::Slice(e) => self.deep(e, &format!("{} > {}", trail, ty_str(e))),
            TyKind::Tuple(ts) => {
                for e in ts.iter() {
                    self.deep(e, &format!("{} > {}", trail, ty_str(e)));
                }
            }
            TyKind::Dynamic(..) => self.hits.push(format!("trait object: {}", trail)),
            TyKind::Closure(_, a) => {
                for e in a.as_closure().upvar_tys().iter() {
                    self.deep(e, &format!("{} > {}", trail, ty_str(e)));
                }
            }
            _ => {}
        }
    }
}

/// Parameters and projections a type mentions, in the fields of local types as well.
struct Leaves<'tcx> {
    tcx: TyCtxt<'tcx>,
    seen: HashSet<Ty<'tcx>>,
    out: Vec<Ty<'tcx>>,
}
impl<'tcx> TypeVisitor<TyCtxt<'tcx>> for Leaves<'tcx> {
    fn visit_ty(&mut self, t: Ty<'tcx>) {
        if !self.seen.insert(t) {
            return;
        }
        match *t.kind() {
            TyKind::Param(_) => self.out.push(t),
            TyKind::Alias(..) => {
                self.out.push(t);
            }
            TyKind::Adt(def, args) => {
                for f in def.all_fields() {
                    if def.did().is_local() || !t.has_escaping_bound_vars_() {
                        let ft = f.ty(self.tcx, args).skip_norm_wip();
                        if self.seen.len() < 4000 {
                            ft.visit_with(self);
                        }
                    }
                }
            }
            _ => {}
        }
        t.super_visit_with(self)
    }
}
trait Esc {
    fn has_escaping_bound_vars_(&self) -> bool;
}
impl<'tcx> Esc for Ty<'tcx> {
    fn has_escaping_bound_vars_(&self) -> bool {
        use rustc_middle::ty::TypeVisitableExt;
        self.has_escaping_bound_vars()
    }
}

fn implements_if_leaves_do<'tcx>(tcx: TyCtxt<'tcx>, owner: DefId, t: Ty<'tcx>, tr: DefId, both: &[DefId]) -> bool {
    let mut l = Leaves { tcx, seen: HashSet::new(), out: vec![] };
    t.visit_with(&mut l);
    let mut clauses: Vec<ty::Clause<'tcx>> = tcx.param_env(owner).caller_bounds().collect();
    for x in l.out {
        for b in both {
            let tref = ty::TraitRef::new(tcx, *b, [x]);
            use rustc_middle::ty::Upcast;
            clauses.push(tref.upcast(tcx));
        }
    }
    let env = ty::ParamEnv::new(tcx, clauses);
    let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
    let tref = ty::TraitRef::new(tcx, tr, [t]);
    let ob = Obligation::new(tcx, ObligationCause::dummy(), env, tref);
    infcx.predicate_must_hold_modulo_regions(&ob)
}

// ---------------------------------------------------------------- types as trees
fn tj<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, d: usize) -> J {
    if d > 12 {
        return J::O(vec![("k", s("deep"))]);
    }
    let mut o: Vec<(&'static str, J)> = vec![("s", s(ty_str(t)))];
    match *t.kind() {
        TyKind::Adt(def, args) => {
            o.push(("k", s("adt")));
            o.push(("path", s(path(tcx, def.did()))));
            o.push(("local", J::B(def.did().is_local())));
            o.push(("args", J::A(args.types().map(|x| tj(tcx, x, d + 1)).collect())));
        }
        TyKind::Ref(_, e, m) => {
            o.push(("k", s("ref")));
            o.push(("mut", J::B(m.is_mut())));
            o.push(("args", J::A(vec![tj(tcx, e, d + 1)])));
        }
        TyKind::RawPtr(e, m) => {
            o.push(("k", s("ptr")));
            o.push(("mut", J::B(m.is_mut())));
            o.push(("args", J::A(vec![tj(tcx, e, d + 1)])));
        }
        TyKind::Slice(e) | TyKind::Array(e, _) => {
            o.push(("k", s("slice")));
            o.push(("args", J::A(vec![tj(tcx, e, d + 1)])));
        }
        TyKind::Tuple(ts) => {
            o.push(("k", s("tuple")));
            o.push(("args", J::A(ts.iter().map(|x| tj(tcx, x, d + 1)).collect())));
        }
        TyKind::Param(_) => o.push(("k", s("param"))),
        TyKind::Alias(_, a) => {
            let def = match a.kind {
                ty::AliasTyKind::Projection { def_id } => def_id,
                ty::AliasTyKind::Inherent { def_id } => def_id,
                ty::AliasTyKind::Opaque { def_id } => def_id,
                ty::AliasTyKind::Free { def_id } => def_id,
            };
            if matches!(tcx.def_kind(def), DefKind::OpaqueTy) {
                o.push(("k", s("opaque")));
                let mut items = vec![];
                for c in tcx.explicit_item_bounds(def).iter_instantiated_copied(tcx, a.args) {
                    let (c, _) = c.skip_norm_wip();
                    if let ty::ClauseKind::Projection(p) = c.kind().skip_binder() {
                        if let Some(x) = p.term.as_type() {
                            items.push(tj(tcx, x, d + 1));
                        }
                    }
                }
                o.push(("args", J::A(items)));
            } else {
                o.push(("k", s("proj")));
                o.push(("path", s(path(tcx, def))));
                o.push(("args", J::A(a.args.types().map(|x| tj(tcx, x, d + 1)).collect())));
            }
        }
        TyKind::Dynamic(..) => o.push(("k", s("dyn"))),
        TyKind::FnPtr(..) => o.push(("k", s("fnptr"))),
        _ => o.push(("k", s("other"))),
    }
    J::O(o)
}

fn norm<'tcx>(tcx: TyCtxt<'tcx>, owner: DefId, t: Ty<'tcx>) -> Ty<'tcx> {
    use rustc_middle::ty::TypeVisitableExt;
    let env = TypingEnv::non_body_analysis(tcx, owner);
    let t = tcx.erase_and_anonymize_regions(t);
    if t.has_escaping_bound_vars() {
        return t;
    }
    tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
}

// ---------------------------------------------------------------- serialisation
fn trace<'tcx>(body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
    let mut p = match o {
        Operand::Copy(p) | Operand::Move(p) => *p,
        Operand::Constant(c) => return s(format!("const {}", c)),
        _ => return J::Null,
    };
    let mut fields: Vec<String> = vec![];
    for _ in 0..20 {
        let mut here = vec![];
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Field(f, _) => here.push(format!("f{}", f.as_usize())),
                ProjectionElem::Downcast(_, v) => here.push(format!("v{}", v.as_usize())),
                ProjectionElem::Deref => {}
                _ => here.push("?".into()),
            }
        }
        here.append(&mut fields);
        fields = here;
        if p.local.as_usize() == 1 {
            return s(format!("self.{}", fields.join(".")));
        }
        let mut def = None;
        let mut n = 0;
        for b in body.basic_blocks.iter() {
            for st in b.statements.iter() {
                if let StatementKind::Assign(bx) = &st.kind {
                    if bx.0.local == p.local && bx.0.projection.is_empty() {
                        n += 1;
                        def = match &bx.1 {
                            Rvalue::Ref(_, _, q) => Some(*q),
                            Rvalue::Use(Operand::Copy(q) | Operand::Move(q), ..) => Some(*q),
                            Rvalue::CopyForDeref(q) => Some(*q),
                            _ => None,
                        };
                    }
                }
            }
        }
        match (n, def) {
            (1, Some(q)) => p = q,
            _ => return s(format!("?{}", fields.join("."))),
        }
    }
    J::Null
}

fn calls<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId) -> Vec<J> {
    let mut out = vec![];
    if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
        return out;
    }
    let body = tcx.optimized_mir(d);
    for b in body.basic_blocks.iter() {
        if b.is_cleanup {
            continue;
        }
        if let TerminatorKind::Call { func, args, .. } = &b.terminator().kind {
            let ft = func.ty(&body.local_decls, tcx);
            if let TyKind::FnDef(c, ga) = *ft.kind() {
                let ga = ga.skip_binder();
                let mut av = vec![];
                for a in args.iter() {
                    av.push(trace(body, &a.node));
                }
                let tys: Vec<J> = ga.types().map(|x| s(ty_str(norm(tcx, d.to_def_id(), x)))).collect();
                out.push(J::O(vec![("f", s(path(tcx, c))), ("a", J::A(av)), ("t", J::A(tys)), ("at", span(tcx, b.terminator().source_info.span))]));
            }
        }
    }
    out
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut u = Unsafe { tcx, found: vec![], blocks: 0 };
    tcx.hir_visit_all_item_likes_in_crate(&mut u);
    let ev = tcx.effective_visibilities(());
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send).expect("Send");
    let sync = tcx.lang_items().sync_trait().expect("Sync");
    let mut adts = vec![];
    let mut fns = vec![];
    let mut statics = vec![];
    let mut impls = vec![];
    let mut serde = vec![];
    let mut opaque = vec![];
    let items: Vec<LocalDefId> = tcx.iter_local_def_id().collect();
    for d in items {
        let id = d.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let def = tcx.adt_def(d);
                let mut parts = Parts { tcx, seen: HashSet::new(), hits: vec![] };
                parts.deep(t, &ty_str(t));
                let mut vs = vec![];
                for v in def.variants().iter() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        fs.push(J::O(vec![
                            ("name", s(f.name.to_string())),
                            ("pub", J::B(tcx.visibility(f.did).is_public())),
                            ("norm", s(ty_str(norm(tcx, id, ft)))),
                            ("ty", tj(tcx, ft, 0)),
                        ]));
                    }
                    vs.push(J::O(vec![("name", s(v.name.to_string())), ("fields", J::A(fs))]));
                }
                adts.push(J::O(vec![
                    ("path", s(path(tcx, id))),
                    ("enum", J::B(def.is_enum())),
                    ("reach", J::B(ev.is_reachable(d))),
                    ("nameable", J::B(ev.is_public_at_level(d, Level::Reexported))),
                    ("inner", J::A(parts.hits.into_iter().map(s).collect())),
                    ("send", J::B(implements_if_leaves_do(tcx, id, t, send, &[send, sync]))),
                    ("sync", J::B(implements_if_leaves_do(tcx, id, t, sync, &[send, sync]))),
                    ("variants", J::A(vs)),
                    ("at", span(tcx, tcx.def_span(d))),
                ]));
            }
            DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut parts = Parts { tcx, seen: HashSet::new(), hits: vec![] };
                parts.deep(t, &ty_str(t));
                let m = matches!(tcx.def_kind(d), DefKind::Static { mutability: rustc_hir::Mutability::Mut, .. });
                statics.push(J::O(vec![
                    ("path", s(path(tcx, id))),
                    ("mut", J::B(m)),
                    ("static", J::B(matches!(tcx.def_kind(d), DefKind::Static { .. }))),
                    ("inner", J::A(parts.hits.into_iter().map(s).collect())),
                    ("at", span(tcx, tcx.def_span(d))),
                ]));
            }
            DefKind::Trait => {
                if tcx.trait_def(d).safety.is_unsafe() {
                    u.hit("unsafe trait", tcx.def_span(d));
                }
            }
            DefKind::ForeignMod => u.hit("foreign items", tcx.def_span(d)),
            DefKind::Impl { of_trait } => {
                if of_trait {
                    let h = tcx.impl_trait_header(d);
                    let tr = tcx.impl_trait_ref(d).skip_binder();
                    let trp = path(tcx, tr.def_id);
                    if h.safety.is_unsafe() {
                        u.hit(&format!("unsafe impl of {}", trp), tcx.def_span(d));
                    }
                    impls.push(J::O(vec![
                        ("trait", s(trp)),
                        ("for", s(ty_str(tr.self_ty()))),
                        ("derived", J::B(tcx.is_automatically_derived(id))),
                        ("neg", J::B(matches!(h.polarity, ty::ImplPolarity::Negative))),
                        ("at", span(tcx, tcx.def_span(d))),
                    ]));
                }
            }
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                if sig.safety().is_unsafe() {
                    u.hit("unsafe fn", tcx.def_span(d));
                }
                // reachable: by itself, or as the method of a trait impl
                let par = tcx.parent(id);
                let is_trait_impl = matches!(tcx.def_kind(par), DefKind::Impl { of_trait: true });
                let reach = if is_trait_impl {
                    // callable from outside if the trait can be named there (or is foreign)
                    let tr = tcx.impl_trait_ref(par).skip_binder();
                    let tv = tr.def_id.as_local().map(|x| ev.is_reachable(x)).unwrap_or(true);
                    tv && ev.is_reachable(d)
                } else {
                    ev.is_reachable(d)
                };
                let sg = sig.skip_binder();
                let ins: Vec<J> = sg.inputs().iter().map(|x| tj(tcx, norm(tcx, id, *x), 0)).collect();
                let o = tj(tcx, norm(tcx, id, sg.output()), 0);
                // what the function passes to the caller's closures
                let mut cl = vec![];
                for c in tcx.param_env(id).caller_bounds() {
                    if let ty::ClauseKind::Trait(t) = c.kind().skip_binder() {
                        if tcx.fn_trait_kind_from_def_id(t.def_id()).is_some() {
                            for a in t.trait_ref.args.types().skip(1) {
                                cl.push(tj(tcx, norm(tcx, id, a), 0));
                            }
                        }
                    }
                }
                let tr = if is_trait_impl { s(path(tcx, tcx.impl_trait_ref(par).skip_binder().def_id)) } else { J::Null };
                let derived = is_trait_impl && tcx.is_automatically_derived(par);
                fns.push(J::O(vec![
                    ("path", s(path(tcx, id))),
                    ("reach", J::B(reach)),
                    ("in", J::A(ins)),
                    ("out", o),
                    ("closures", J::A(cl)),
                    ("trait", tr),
                    ("name", s(tcx.item_name(id).to_string())),
                    ("derived", J::B(derived)),
                    ("at", span(tcx, tcx.def_span(d))),
                ]));
            }
            DefKind::OpaqueTy => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                opaque.push(J::O(vec![
                    ("path", s(path(tcx, id))),
                    ("hidden", s(ty_str(t))),
                    ("send", J::B(implements_if_leaves_do(tcx, id, t, send, &[send, sync]))),
                    ("sync", J::B(implements_if_leaves_do(tcx, id, t, sync, &[send, sync]))),
                    ("at", span(tcx, tcx.def_span(d))),
                ]));
            }
            _ => {}
        }
        // bodies below an impl of a serde trait
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            let mut p = Some(id);
            let mut owner = None;
            while let Some(x) = p {
                if matches!(tcx.def_kind(x), DefKind::Impl { of_trait: true }) {
                    let tr = tcx.impl_trait_ref(x).skip_binder();
                    let tp = path(tcx, tr.def_id);
                    if tp.ends_with("::Serialize") || tp.ends_with("::Deserialize") {
                        if let TyKind::Adt(def, _) = tr.self_ty().kind() {
                            // helper types of the derive are local to the body
                            owner = Some((tp, path(tcx, def.did()), tcx.is_automatically_derived(x)));
                        }
                    }
                }
                p = tcx.opt_parent(x);
            }
            if let Some((tp, adt, derived)) = owner {
                serde.push(J::O(vec![
                    ("trait", s(tp)),
                    ("adt", s(adt)),
                    ("fn", s(path(tcx, id))),
                    ("name", s(tcx.opt_item_name(id).map(|x| x.to_string()).unwrap_or_default())),
                    ("derived", J::B(derived)),
                    ("calls", J::A(calls(tcx, d))),
                    ("at", span(tcx, tcx.def_span(d))),
                ]));
            }
        }
    }
    let mut o = String::new();
    J::O(vec![
        ("unsafe", J::A(u.found)),
        ("blocks", i(u.blocks)),
        ("adts", J::A(adts)),
        ("statics", J::A(statics)),
        ("impls", J::A(impls)),
        ("fns", J::A(fns)),
        ("opaque", J::A(opaque)),
        ("serde", J::A(serde)),
    ])
    .write(&mut o);
    std::fs::write(out, o).expect("write");
}
