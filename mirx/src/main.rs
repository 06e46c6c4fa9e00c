//! mirx: a rustc driver that writes the type-checked program of one crate (items, fields,
//! visibilities, MIR bodies with resolved callees) as JSON. It is used as RUSTC_WORKSPACE_WRAPPER,
//! so it sees exactly the flags and sources cargo uses for the crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(String),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => o.push_str(n),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::S(k.to_string()).w(o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
fn n<T: ToString>(x: T) -> J {
    J::N(x.to_string())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    did: DefId,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        path(self.tcx, d)
    }
    fn span(&self, sp: Span) -> J {
        // The call site of a macro expansion is where a reader looks.
        let expn = sp.from_expansion();
        let root = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(root.lo());
        let mac = if expn {
            // outermost macro name
            let mut cur = sp;
            let mut name = String::new();
            while cur.from_expansion() {
                let d = cur.ctxt().outer_expn_data();
                name = format!("{}", d.kind.descr());
                cur = d.call_site;
            }
            s(name)
        } else {
            J::Null
        };
        J::A(vec![s(lo.file.name.prefer_local_unconditionally()), n(lo.line), mac])
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        s(t)
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut proj = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("deref")]),
                ProjectionElem::Field(f, _) => {
                    let mut name = f.index().to_string();
                    let mut owner = J::Null;
                    match pt.ty.kind() {
                        ty::Adt(adt, _) => {
                            let v = match pt.variant_index {
                                Some(v) => Some(v),
                                None if adt.is_struct() || adt.is_union() => {
                                    Some(rustc_abi::FIRST_VARIANT)
                                }
                                None => None,
                            };
                            if let Some(v) = v {
                                name = adt.variant(v).fields[f].name.to_string();
                            }
                            owner = s(self.path(adt.did()));
                        }
                        ty::Closure(d, _) => owner = s(self.path(*d)),
                        _ => {}
                    }
                    J::A(vec![s("field"), n(f.index()), s(name), owner])
                }
                ProjectionElem::Index(l) => J::A(vec![s("index"), n(l.index())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("cindex"), n(offset), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("subslice"), n(from), n(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(name, v) => J::A(vec![
                    s("downcast"),
                    n(v.index()),
                    name.map(|x| s(x)).unwrap_or(J::Null),
                ]),
                _ => J::A(vec![s("other"), s(format!("{:?}", e))]),
            };
            proj.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(vec![n(p.local.index()), J::A(proj)])
    }
    fn callee(&self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("path", s(self.path(def))),
            ("name", s(tcx.opt_item_name(def).map(|x| x.to_string()).unwrap_or_default())),
            ("args", J::A(args.iter().map(|a| s(a)).collect())),
            ("local", J::B(def.is_local())),
            ("krate", s(tcx.crate_name(def.krate))),
        ];
        if let Some(tr) = tcx.trait_of_assoc(def) {
            o.push(("trait", s(self.path(tr))));
            o.push(("self_ty", s(args.type_at(0))));
        } else if let Some(im) = tcx.impl_of_assoc(def) {
            o.push(("impl_self", s(tcx.type_of(im).instantiate_identity().skip_norm_wip())));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                o.push(("impl_trait", s(self.path(tr.skip_binder().def_id))));
            }
        }
        if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, def, args) {
                let rd = inst.def_id();
                if rd != def {
                    o.push(("resolved", s(self.path(rd))));
                    o.push(("resolved_local", J::B(rd.is_local())));
                }
            }
        }
        J::O(o)
    }
    fn cst(&self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return J::O(vec![("fn", self.callee(*d, args.no_bound_vars().unwrap()))]);
        }
        let mut o = vec![("ty", self.ty(t))];
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("def", s(self.path(u.def))));
            if let Some(p) = u.promoted {
                o.push(("promoted", n(p.index())));
                return J::O(o);
            }
        }
        match t.kind() {
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char | ty::Float(_) => {
                if let Some(b) = c.const_.try_eval_scalar_int(self.tcx, self.env) {
                    let bits = b.to_bits(b.size());
                    match t.kind() {
                        ty::Bool => o.push(("bool", J::B(bits != 0))),
                        ty::Int(_) => o.push(("int", n(b.to_int(b.size())))),
                        ty::Float(ty::FloatTy::F64) => {
                            o.push(("float", s(format!("{:?}", f64::from_bits(bits as u64)))))
                        }
                        ty::Float(ty::FloatTy::F32) => {
                            o.push(("float", s(format!("{:?}", f32::from_bits(bits as u32)))))
                        }
                        _ => o.push(("int", n(bits))),
                    }
                }
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Ok(v) = c.const_.eval(self.tcx, self.env, c.span) {
                    if let Some(bytes) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        o.push(("str", s(String::from_utf8_lossy(bytes))));
                    }
                }
            }
            ty::Adt(..) | ty::Tuple(..) => {
                o.push(("dbg", s(format!("{}", c.const_))));
            }
            _ => {
                o.push(("dbg", s(format!("{}", c.const_))));
            }
        }
        J::O(o)
    }
    fn op(&self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(body, p)]),
            Operand::Constant(c) => J::A(vec![s("const"), self.cst(c)]),
            _ => J::A(vec![s("const"), J::O(vec![("ty", s("bool")), ("bool", J::B(true)), ("dbg", s("runtime-check"))])]),
        }
    }
    fn rv(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let t = self.ty(r.ty(body, self.tcx));
        let mut v = match r {
            Rvalue::Use(o, ..) => vec![s("use"), self.op(body, o)],
            Rvalue::Repeat(o, c) => vec![s("repeat"), self.op(body, o), s(c)],
            Rvalue::Ref(_, k, p) => vec![
                s("ref"),
                s(match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                }),
                self.place(body, p),
            ],
            Rvalue::ThreadLocalRef(d) => vec![s("tls"), s(self.path(*d))],
            Rvalue::RawPtr(k, p) => vec![s("rawptr"), s(format!("{:?}", k)), self.place(body, p)],
            Rvalue::Cast(k, o, ty) => {
                vec![s("cast"), s(format!("{:?}", k)), self.op(body, o), self.ty(*ty), self.ty(o.ty(body, self.tcx))]
            }
            Rvalue::BinaryOp(b, ops) => vec![
                s("bin"),
                s(format!("{:?}", b)),
                self.op(body, &ops.0),
                self.op(body, &ops.1),
                self.ty(ops.0.ty(body, self.tcx)),
            ],
            Rvalue::UnaryOp(u, o) => vec![s("un"), s(format!("{:?}", u)), self.op(body, o)],
            Rvalue::Discriminant(p) => {
                let pt = p.ty(body, self.tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(adt, _) = pt.kind() {
                    if adt.is_enum() {
                        for (i, d) in adt.discriminants(self.tcx) {
                            vs.push(J::A(vec![n(d.val), s(adt.variant(i).name)]));
                        }
                    }
                }
                vec![s("discr"), self.place(body, p), self.ty(pt), J::A(vs)]
            }
            Rvalue::Aggregate(k, ops) => {
                let kd = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let adt = self.tcx.adt_def(*d);
                        J::A(vec![
                            s("adt"),
                            s(self.path(*d)),
                            n(v.index()),
                            s(adt.variant(*v).name),
                            J::A(adt.variant(*v).fields.iter().map(|f| s(f.name)).collect()),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.path(*d))]),
                    x => J::A(vec![s("other"), s(format!("{:?}", x))]),
                };
                vec![s("agg"), kd, J::A(ops.iter().map(|o| self.op(body, o)).collect())]
            }
            Rvalue::CopyForDeref(p) => vec![s("use"), J::A(vec![s("copy"), self.place(body, p)])],
            x => vec![s("other"), s(format!("{:?}", x))],
        };
        v.push(t);
        J::A(v)
    }
    fn body(&self, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let mut names: Vec<J> = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![
                    s(v.name),
                    self.place(body, p),
                    v.argument_index.map(|x| n(x)).unwrap_or(J::Null),
                ]));
            }
        }
        let locals = body
            .local_decls
            .iter()
            .map(|d| J::A(vec![self.ty(d.ty), J::B(d.mutability.is_mut())]))
            .collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(b) => st.push(J::A(vec![
                        s("assign"),
                        self.place(body, &b.0),
                        self.rv(body, &b.1),
                        self.span(x.source_info.span),
                    ])),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::A(vec![
                        s("setdiscr"),
                        self.place(body, place),
                        n(variant_index.index()),
                        self.span(x.source_info.span),
                    ])),
                    StatementKind::Intrinsic(i) => {
                        st.push(J::A(vec![s("intrinsic"), s(format!("{:?}", i))]))
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.index())]),
                TerminatorKind::SwitchInt { discr, targets } => J::A(vec![
                    s("switch"),
                    self.op(body, discr),
                    J::A(targets
                        .iter()
                        .map(|(v, t)| J::A(vec![n(v), n(t.index())]))
                        .collect()),
                    n(targets.otherwise().index()),
                    self.ty(discr.ty(body, self.tcx)),
                    sp,
                ]),
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    J::A(vec![s("drop"), self.place(body, place), n(target.index())])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => J::A(vec![
                    s("call"),
                    self.op(body, func),
                    J::A(args.iter().map(|a| self.op(body, &a.node)).collect()),
                    self.place(body, destination),
                    target.map(|t| n(t.index())).unwrap_or(J::Null),
                    sp,
                    self.ty(destination.ty(body, self.tcx).ty),
                ]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => J::A(vec![
                    s("assert"),
                    self.op(body, cond),
                    J::B(*expected),
                    s(msg.description_or_kind()),
                    n(target.index()),
                    sp,
                ]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.index())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.index())])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::A(vec![s("unwind")])
                }
                x => J::A(vec![s("other"), s(format!("{:?}", x))]),
            };
            blocks.push(J::O(vec![
                ("cleanup", J::B(bb.is_cleanup)),
                ("st", J::A(st)),
                ("t", t),
            ]));
        }
        vec![
            ("argc", n(body.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("span", self.span(body.span)),
        ]
    }
}

trait DescOr {
    fn description_or_kind(&self) -> String;
}
impl<'tcx> DescOr for AssertMessage<'tcx> {
    fn description_or_kind(&self) -> String {
        match self {
            AssertKind::BoundsCheck { .. } => "bounds".into(),
            AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
            AssertKind::DivisionByZero(..) => "div0".into(),
            AssertKind::RemainderByZero(..) => "rem0".into(),
            _ => "other".into(),
        }
    }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d))
}

struct UnsafeV<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.found.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn dump(tcx: TyCtxt<'_>) -> String {
    let mut fns = vec![];
    let mut adts = vec![];
    let mut impls = vec![];
    let mut statics = vec![];
    let mut traits = vec![];
    let eff = tcx.effective_visibilities(());
    let mut keys: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
    for k in tcx.mir_keys(()).iter() {
        if !keys.contains(k) {
            keys.push(*k);
        }
    }
    let fakebody = |did: LocalDefId| Cx {
        tcx,
        did: did.to_def_id(),
        env: if did == rustc_hir::def_id::CRATE_DEF_ID {
            TypingEnv::fully_monomorphized()
        } else {
            TypingEnv::post_analysis(tcx, did.to_def_id())
        },
    };
    let mut unsafes = vec![];
    {
        let mut v = UnsafeV { tcx, found: vec![] };
        tcx.hir_walk_toplevel_module(&mut v);
        let cx = fakebody(rustc_hir::def_id::CRATE_DEF_ID);
        for sp in v.found {
            unsafes.push(cx.span(sp));
        }
    }
    for did in keys {
        let d = did.to_def_id();
        let kind = tcx.def_kind(d);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const | DefKind::AssocConst => {
                if !tcx.is_mir_available(d) {
                    continue;
                }
                let cx = fakebody(did);
                let mut o = vec![
                    ("path", s(path(tcx, d))),
                    ("kind", s(format!("{:?}", kind))),
                    ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
                    ("public", J::B(eff.is_reachable(did))),
                ];
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    o.push(("trait_default", s(path(tcx, tr))));
                }
                if let Some(im) = tcx.impl_of_assoc(d) {
                    o.push(("impl_self", s(tcx.type_of(im).instantiate_identity().skip_norm_wip())));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        o.push(("impl_trait", s(path(tcx, tr.skip_binder().def_id))));
                    }
                    let sp = tcx.def_span(im);
                    o.push(("derived", J::B(sp.from_expansion())));
                }
                if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                    o.push(("unsafe", J::B(!sig.safety().is_safe())));
                    o.push(("sig", s(sig)));
                    let g = tcx.generics_of(d);
                    let mut gs = vec![];
                    for i in 0..g.count() {
                        gs.push(s(g.param_at(i, tcx).name));
                    }
                    o.push(("generics", J::A(gs)));
                }
                if matches!(kind, DefKind::Closure) {
                    o.push(("parent", s(path(tcx, tcx.typeck_root_def_id(d)))));
                    let ups: Vec<J> = tcx
                        .closure_captures(did)
                        .iter()
                        .map(|c| {
                            J::A(vec![s(c.to_symbol()), s(format!("{:?}", c.info.capture_kind))])
                        })
                        .collect();
                    o.push(("captures", J::A(ups)));
                }
                let body = if matches!(kind, DefKind::Const | DefKind::AssocConst) {
                    tcx.mir_for_ctfe(d)
                } else {
                    tcx.optimized_mir(d)
                };
                o.extend(cx.body(body));
                let mut proms = vec![];
                for p in tcx.promoted_mir(d).iter() {
                    proms.push(J::O(cx.body(p)));
                }
                o.push(("promoted", J::A(proms)));
                fns.push(J::O(o));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let cx = fakebody(did);
                let adt = tcx.adt_def(d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let vars = adt
                    .variants()
                    .iter()
                    .map(|v| {
                        J::O(vec![
                            ("name", s(v.name)),
                            (
                                "fields",
                                J::A(v
                                    .fields
                                    .iter()
                                    .map(|f| {
                                        J::O(vec![
                                            ("name", s(f.name)),
                                            ("ty", cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                                            ("vis", s(match f.vis {
                                                ty::Visibility::Public => "pub".to_string(),
                                                ty::Visibility::Restricted(m) => path(tcx, m.to_def_id()),
                                            })),
                                        ])
                                    })
                                    .collect()),
                            ),
                        ])
                    })
                    .collect();
                adts.push(J::O(vec![
                    ("path", s(path(tcx, d))),
                    ("kind", s(format!("{:?}", kind))),
                    ("public", J::B(eff.is_reachable(did))),
                    ("freeze", J::B(t.is_freeze(tcx, cx.env))),
                    ("variants", J::A(vars)),
                    ("span", cx.span(tcx.def_span(d))),
                ]));
            }
            DefKind::Trait => {
                traits.push(J::O(vec![
                    ("path", s(path(tcx, d))),
                    (
                        "items",
                        J::A(tcx.associated_item_def_ids(d).iter().map(|x| s(path(tcx, *x))).collect()),
                    ),
                ]));
            }
            DefKind::Impl { .. } => {
                let cx = fakebody(did);
                let tr = tcx.impl_opt_trait_ref(d);
                impls.push(J::O(vec![
                    ("self", s(tcx.type_of(d).instantiate_identity().skip_norm_wip())),
                    ("trait", tr.map(|t| s(path(tcx, t.skip_binder().def_id))).unwrap_or(J::Null)),
                    ("derived", J::B(tcx.def_span(d).from_expansion())),
                    (
                        "items",
                        J::A(tcx.associated_item_def_ids(d).iter().map(|x| s(path(tcx, *x))).collect()),
                    ),
                    ("span", cx.span(tcx.def_span(d))),
                ]));
            }
            DefKind::Static { mutability, .. } => {
                let cx = fakebody(did);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                statics.push(J::O(vec![
                    ("path", s(path(tcx, d))),
                    ("mut", J::B(mutability.is_mut())),
                    ("ty", cx.ty(t)),
                    ("freeze", J::B(t.is_freeze(tcx, cx.env))),
                    ("span", cx.span(tcx.def_span(d))),
                ]));
            }
            _ => {}
        }
    }
    let top = J::O(vec![
        ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE))),
        ("fns", J::A(fns)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("traits", J::A(traits)),
        ("statics", J::A(statics)),
        ("unsafe_blocks", J::A(unsafes)),
    ]);
    let mut out = String::new();
    top.w(&mut out);
    out
}

struct Cb {
    out: Option<String>,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(out) = &self.out {
            let text = rustc_middle::ty::print::with_no_trimmed_paths!(
                rustc_middle::ty::print::with_no_visible_paths!(dump(tcx))
            );
            std::fs::write(out, text).expect("write MIRX_OUT");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER: mirx <rustc> <args...>
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let krate = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let want = std::env::var("MIRX_CRATE").unwrap_or_default();
    let mut cb = Cb { out: None };
    if !want.is_empty() && krate == want {
        cb.out = std::env::var("MIRX_OUT").ok();
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Zalways-encode-mir".into());
        args.push("--cap-lints=allow".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
