//! Compiler driver used as RUSTC_WORKSPACE_WRAPPER: compiles as rustc would, and writes what the
//! static rules need (control-flow graphs with resolved callees, types, field names, impls) as JSON
//! into $MIRFACTS_OUT/<crate>.json. It runs none of the analysed code.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::Span;
use std::fmt::Write as _;

enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::S(x) => esc(x, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        // canonical and the same whichever crate looks at it
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{t}"))
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_default(),
            _ => String::new(),
        };
        J::A(vec![s(f), J::I(lo.line as i128)])
    }
    /// a type, with enough structure to find ADTs, closures and references
    fn tyj(&self, t: Ty<'tcx>) -> J {
        let mut o = vec![("s", s(self.ty(t)))];
        match t.kind() {
            ty::Adt(a, args) => {
                o.push(("adt", s(self.id(a.did()))));
                o.push((
                    "args",
                    J::A(args.types().map(|x| self.tyj(x)).collect()),
                ));
            }
            ty::Ref(_, x, m) => {
                o.push(("ref", J::B(m.is_mut())));
                o.push(("to", self.tyj(*x)));
            }
            ty::Closure(d, _) => o.push(("closure", s(self.id(*d)))),
            ty::Coroutine(d, _) => o.push(("coroutine", s(self.id(*d)))),
            ty::FnDef(d, _) => o.push(("fndef", s(self.id(*d)))),
            ty::Tuple(v) => o.push(("tuple", J::A(v.iter().map(|x| self.tyj(x)).collect()))),
            ty::Slice(x) => o.push(("slice", self.tyj(*x))),
            ty::Array(x, _) => o.push(("array", self.tyj(*x))),
            ty::Param(p) => o.push(("param", s(p.name.as_str()))),
            _ => {}
        }
        J::O(o)
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut v = vec![J::I(p.local.as_usize() as i128)];
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(i, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if a.is_enum() && pt.variant_index.is_none() {
                                i.as_usize().to_string()
                            } else {
                                a.variant(vi).fields[i].name.to_string()
                            }
                        }
                        _ => i.as_usize().to_string(),
                    };
                    J::A(vec![s("f"), s(name)])
                }
                ProjectionElem::Downcast(_, vi) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => a.variant(vi).name.to_string(),
                        _ => vi.as_usize().to_string(),
                    };
                    J::A(vec![s("v"), s(name)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex {
                    offset, from_end, ..
                } => J::A(vec![s("c"), J::I(offset as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                _ => J::A(vec![s("?")]),
            };
            v.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::A(v)
    }
    fn callee(&self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("decl", s(self.path(d))), ("id", s(self.id(d)))];
        o.push((
            "targs",
            J::A(args.types().map(|x| s(self.ty(x))).collect()),
        ));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(t))));
            if let Some(x) = args.types().next() {
                o.push(("self", self.tyj(x)));
            }
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx
                .type_of(im)
                .instantiate(tcx, args)
                .skip_norm_wip();
            o.push(("self", self.tyj(st)));
        }
        if matches!(
            tcx.def_kind(d),
            DefKind::Fn | DefKind::AssocFn | DefKind::AssocConst { .. }
        ) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                let r = inst.def_id();
                match inst.def {
                    ty::InstanceKind::Item(_) => {
                        o.push(("res", s(self.id(r))));
                        o.push(("rpath", s(self.path(r))));
                    }
                    _ => o.push(("shim", s(format!("{:?}", inst.def)))),
                }
            }
        }
        if tcx.def_kind(d) == DefKind::Ctor(rustc_hir::def::CtorOf::Struct, rustc_hir::def::CtorKind::Fn)
            || tcx.def_kind(d)
                == DefKind::Ctor(rustc_hir::def::CtorOf::Variant, rustc_hir::def::CtorKind::Fn)
        {
            let parent = tcx.parent(d);
            let (adt, variant) = if tcx.def_kind(parent) == DefKind::Variant {
                (tcx.parent(parent), tcx.item_name(parent).to_string())
            } else {
                (parent, tcx.item_name(parent).to_string())
            };
            o.push(("ctor", J::A(vec![s(self.id(adt)), s(variant)])));
        }
        J::O(o)
    }
    fn konst(&self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("k", s("const")), ("ty", s(self.ty(t)))];
        if let ty::FnDef(d, args) = t.kind() {
            o.push(("fn", self.callee(env, *d, args.no_bound_vars().unwrap())));
            return J::O(o);
        }
        if let ty::Closure(d, _) = t.kind() {
            o.push(("closure", s(self.id(*d))));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("def", s(self.id(u.def))));
            if let Some(p) = u.promoted {
                o.push(("promoted", J::I(p.as_usize() as i128)));
                return J::O(o);
            }
        }
        match c.const_ {
            Const::Ty(_, ct) => o.push(("param", s(format!("{ct}")))),
            _ => {
                if let Some(bits) = c.const_.try_eval_scalar_int(tcx, env) {
                    let size = bits.size();
                    let v = match t.kind() {
                        ty::Int(_) => bits.to_int(size),
                        _ => bits.to_bits(size) as i128,
                    };
                    match t.kind() {
                        ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => o.push(("int", J::I(v))),
                        _ => o.push(("bits", J::S(format!("{v}")))),
                    }
                } else if let Ok(val) = c.const_.eval(tcx, env, c.span) {
                    let is_str = matches!(t.kind(), ty::Ref(_, x, _) if x.is_str());
                    if is_str {
                        if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                            o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                        }
                    }
                }
            }
        }
        o.push((
            "txt",
            s(with_no_trimmed_paths!(format!("{}", c.const_))),
        ));
        J::O(o)
    }
    fn op(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>, p: &Operand<'tcx>) -> J {
        match p {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(body, p))]),
            Operand::Constant(c) => self.konst(env, c),
            #[allow(unreachable_patterns)]
            x => J::O(vec![("k", s("other")), ("txt", s(format!("{x:?}")))]),
        }
    }
    fn rvalue(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        let op = |p: &Operand<'tcx>| self.op(body, env, p);
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("r", s("use")), ("o", op(o))]),
            Rvalue::Repeat(o, n) => J::O(vec![
                ("r", s("repeat")),
                ("o", op(o)),
                ("n", s(format!("{n}"))),
            ]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("r", s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(body, p)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![
                ("r", s("ref")),
                ("raw", J::B(true)),
                ("mut", J::B(true)),
                ("p", self.place(body, p)),
            ]),
            Rvalue::Cast(k, o, t) => J::O(vec![
                ("r", s("cast")),
                ("kind", s(format!("{k:?}"))),
                ("o", op(o)),
                ("from", s(self.ty(o.ty(body, self.tcx)))),
                ("ty", s(self.ty(*t))),
            ]),
            Rvalue::BinaryOp(b, x) => J::O(vec![
                ("r", s("bin")),
                ("op", s(format!("{b:?}"))),
                ("a", op(&x.0)),
                ("b", op(&x.1)),
                ("ty", s(self.ty(x.0.ty(body, self.tcx)))),
            ]),
            Rvalue::UnaryOp(u, x) => J::O(vec![
                ("r", s("un")),
                ("op", s(format!("{u:?}"))),
                ("o", op(x)),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let mut o = vec![("r", s("discr")), ("p", self.place(body, p))];
                if let ty::Adt(a, _) = t.kind() {
                    if a.is_enum() {
                        o.push((
                            "variants",
                            J::M(
                                a.discriminants(self.tcx)
                                    .map(|(vi, d)| {
                                        (d.val.to_string(), s(a.variant(vi).name.to_string()))
                                    })
                                    .collect(),
                            ),
                        ));
                    }
                }
                J::O(o)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut o = vec![("r", s("agg"))];
                match &**k {
                    AggregateKind::Array(_) => o.push(("kind", s("array"))),
                    AggregateKind::Tuple => o.push(("kind", s("tuple"))),
                    AggregateKind::Adt(d, vi, ..) => {
                        let a = self.tcx.adt_def(*d);
                        o.push(("kind", s("adt")));
                        o.push(("adt", s(self.id(*d))));
                        o.push(("enum", J::B(a.is_enum())));
                        o.push(("variant", s(a.variant(*vi).name.to_string())));
                        o.push((
                            "fields",
                            J::A(
                                a.variant(*vi)
                                    .fields
                                    .iter()
                                    .map(|f| s(f.name.to_string()))
                                    .collect(),
                            ),
                        ));
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("kind", s("closure")));
                        o.push(("closure", s(self.id(*d))));
                    }
                    AggregateKind::Coroutine(d, _) => {
                        o.push(("kind", s("coroutine")));
                        o.push(("closure", s(self.id(*d))));
                    }
                    _ => o.push(("kind", s("other"))),
                }
                o.push(("ops", J::A(ops.iter().map(op).collect())));
                J::O(o)
            }
            #[allow(unreachable_patterns)]
            x => J::O(vec![("r", s("other")), ("txt", s(format!("{x:?}")))]),
        }
    }
    fn body(&self, owner: DefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, owner);
        let mut names: Vec<(String, J)> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push((v.name.to_string(), self.place(body, p)));
            }
        }
        let locals = body
            .local_decls
            .iter()
            .map(|l| self.tyj(l.ty))
            .collect::<Vec<_>>();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => st.push(J::O(vec![
                        ("d", self.place(body, &a.0)),
                        ("v", self.rvalue(body, env, &a.1)),
                        ("at", self.span(x.source_info.span)),
                    ])),
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => {
                        let name = match place.ty(body, tcx).ty.kind() {
                            ty::Adt(a, _) => a.variant(*variant_index).name.to_string(),
                            _ => variant_index.as_usize().to_string(),
                        };
                        st.push(J::O(vec![
                            ("d", self.place(body, place)),
                            ("setv", s(name)),
                        ]))
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::O(vec![("dead", J::I(l.as_usize() as i128))]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let bi = |b: BasicBlock| J::I(b.as_usize() as i128);
            let mut o = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("t", s("goto")), ("to", bi(*target))],
                TerminatorKind::SwitchInt { discr, targets } => vec![
                    ("t", s("switch")),
                    ("o", self.op(body, env, discr)),
                    ("ty", s(self.ty(discr.ty(body, tcx)))),
                    (
                        "cases",
                        J::A(
                            targets
                                .iter()
                                .map(|(v, b)| J::A(vec![J::S(v.to_string()), bi(b)]))
                                .collect(),
                        ),
                    ),
                    ("else", bi(targets.otherwise())),
                ],
                TerminatorKind::Return => vec![("t", s("return"))],
                TerminatorKind::Unreachable => vec![("t", s("unreachable"))],
                TerminatorKind::Drop { place, target, .. } => vec![
                    ("t", s("drop")),
                    ("p", self.place(body, place)),
                    ("ty", self.tyj(place.ty(body, tcx).ty)),
                    ("to", bi(*target)),
                ],
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => {
                    let mut o = vec![("t", s("call"))];
                    if let Some((d, ga)) = func.const_fn_def() {
                        o.push(("fn", self.callee(env, d, ga)));
                    } else {
                        o.push(("fnop", self.op(body, env, func)));
                    }
                    o.push((
                        "args",
                        J::A(args.iter().map(|a| self.op(body, env, &a.node)).collect()),
                    ));
                    o.push((
                        "argtys",
                        J::A(
                            args.iter()
                                .map(|a| self.tyj(a.node.ty(body, tcx)))
                                .collect(),
                        ),
                    ));
                    o.push(("dest", self.place(body, destination)));
                    o.push(("dty", self.tyj(destination.ty(body, tcx).ty)));
                    o.push(("to", target.map(bi).unwrap_or(J::N)));
                    o
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    target,
                    msg,
                    ..
                } => vec![
                    ("t", s("assert")),
                    ("o", self.op(body, env, cond)),
                    ("exp", J::B(*expected)),
                    ("to", bi(*target)),
                    (
                        "msg",
                        s(match &**msg {
                            AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                            AssertKind::Overflow(b, ..) => format!("overflow {b:?}"),
                            AssertKind::OverflowNeg(_) => "overflow Neg".to_string(),
                            AssertKind::DivisionByZero(_) => "div0".to_string(),
                            AssertKind::RemainderByZero(_) => "rem0".to_string(),
                            _ => "other".to_string(),
                        }),
                    ),
                ],
                TerminatorKind::Yield { resume, value, .. } => vec![
                    ("t", s("yield")),
                    ("o", self.op(body, env, value)),
                    ("to", bi(*resume)),
                ],
                TerminatorKind::FalseEdge { real_target, .. } => {
                    vec![("t", s("goto")), ("to", bi(*real_target))]
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    vec![("t", s("goto")), ("to", bi(*real_target))]
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    vec![("t", s("resume"))]
                }
                x => vec![("t", s("other")), ("txt", s(format!("{x:?}")))],
            };
            o.push(("at", self.span(t.source_info.span)));
            blocks.push(J::O(vec![
                ("cleanup", J::B(bb.is_cleanup)),
                ("s", J::A(st)),
                ("t", J::O(o)),
            ]));
        }
        J::O(vec![
            ("argc", J::I(body.arg_count as i128)),
            ("names", J::M(names)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ])
    }
    fn func(&self, l: LocalDefId) -> Option<J> {
        let tcx = self.tcx;
        let d = l.to_def_id();
        let kind = tcx.def_kind(d);
        let mut o = vec![
            ("id", s(self.id(d))),
            ("path", s(self.path(d))),
            ("kind", s(format!("{kind:?}"))),
            ("span", self.span(tcx.def_span(d))),
        ];
        let derived = tcx.is_builtin_derived(d)
            || tcx
                .impl_of_assoc(d)
                .map(|i| tcx.is_builtin_derived(i))
                .unwrap_or(false);
        o.push(("derived", J::B(derived)));
        if let Some(p) = tcx.opt_parent(d) {
            o.push(("parent", s(self.id(p))));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push(("name", s(tcx.item_name(d).to_string())));
            o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
            o.push((
                "reachable",
                J::B(tcx.effective_visibilities(()).is_reachable(l)),
            ));
            o.push(("async", J::B(tcx.asyncness(d).is_async())));
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            o.push((
                "inputs",
                J::A(sig.inputs().iter().map(|x| self.tyj(*x)).collect()),
            ));
            o.push(("output", self.tyj(sig.output())));
            o.push((
                "params",
                J::A(
                    tcx.fn_arg_idents(d)
                        .iter()
                        .map(|x| match x {
                            Some(i) => s(i.name.to_string()),
                            None => J::N,
                        })
                        .collect(),
                ),
            ));
            if let Some(im) = tcx.impl_of_assoc(d) {
                o.push(("impl", s(self.id(im))));
                o.push((
                    "self",
                    self.tyj(tcx.type_of(im).instantiate_identity().skip_norm_wip()),
                ));
                if tcx.def_kind(im) == (DefKind::Impl { of_trait: true }) {
                    let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(self.path(tr.def_id))));
                    o.push((
                        "traitref",
                        s(with_no_trimmed_paths!(format!("{tr}"))),
                    ));
                    o.push((
                        "traitargs",
                        J::A(tr.args.types().map(|x| s(self.ty(x))).collect()),
                    ));
                }
            }
            if let Some(t) = tcx.trait_of_assoc(d) {
                o.push(("intrait", s(self.path(t))));
            }
        }
        let ctor = matches!(kind, DefKind::Ctor(..));
        if ctor || !tcx.is_mir_available(d) {
            return None;
        }
        let is_const = matches!(
            kind,
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst
        );
        let body = if is_const {
            tcx.mir_for_ctfe(d)
        } else {
            tcx.optimized_mir(d)
        };
        o.push(("body", self.body(d, body)));
        let prom = tcx.promoted_mir(d);
        o.push((
            "promoted",
            J::A(prom.iter().map(|b| self.body(d, b)).collect()),
        ));
        Some(J::O(o))
    }
}

fn auto_trait<'tcx>(tcx: TyCtxt<'tcx>, owner: DefId, t: Ty<'tcx>, tr: DefId) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let env = TypingEnv::post_analysis(tcx, owner);
    let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
    infcx
        .type_implements_trait(tr, [t], penv)
        .must_apply_modulo_regions()
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let Ok(out) = std::env::var("MIRFACTS_OUT") else {
            return Compilation::Continue;
        };
        let cx = Cx { tcx };
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let mut fns = vec![];
        let mut adts = vec![];
        let mut impls = vec![];
        for l in tcx.hir_body_owners() {
            if let Some(j) = cx.func(l) {
                fns.push(j);
            }
        }
        let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
        let sync = tcx.lang_items().sync_trait();
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    let a = tcx.adt_def(d);
                    let vs = a
                        .variants()
                        .iter()
                        .map(|v| {
                            J::O(vec![
                                ("name", s(v.name.to_string())),
                                (
                                    "fields",
                                    J::A(
                                        v.fields
                                            .iter()
                                            .map(|f| {
                                                let t = tcx
                                                    .type_of(f.did)
                                                    .instantiate_identity()
                                                    .skip_norm_wip();
                                                let at = |x: Option<DefId>| {
                                                    J::B(x
                                                        .map(|x| auto_trait(tcx, d, t, x))
                                                        .unwrap_or(false))
                                                };
                                                J::O(vec![
                                                    ("name", s(f.name.to_string())),
                                                    ("ty", cx.tyj(t)),
                                                    ("pub", J::B(f.vis.is_public())),
                                                    ("send", at(send)),
                                                    ("sync", at(sync)),
                                                ])
                                            })
                                            .collect(),
                                    ),
                                ),
                            ])
                        })
                        .collect();
                    adts.push(J::O(vec![
                        ("id", s(cx.id(d))),
                        ("path", s(cx.path(d))),
                        ("enum", J::B(a.is_enum())),
                        ("vis", s(format!("{:?}", tcx.visibility(d)))),
                        (
                            "reachable",
                            J::B(tcx.effective_visibilities(()).is_reachable(l)),
                        ),
                        ("variants", J::A(vs)),
                        ("span", cx.span(tcx.def_span(d))),
                    ]));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut o = vec![
                        ("id", s(cx.id(d))),
                        ("self", cx.tyj(st)),
                        ("derived", J::B(tcx.is_builtin_derived(d))),
                        ("span", cx.span(tcx.def_span(d))),
                    ];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(cx.path(tr.def_id))));
                        o.push((
                            "traitref",
                            s(with_no_trimmed_paths!(format!("{tr}"))),
                        ));
                        o.push((
                            "traitargs",
                            J::A(tr.args.types().map(|x| s(cx.ty(x))).collect()),
                        ));
                        o.push((
                            "unsafe",
                            J::B(format!("{:?}", tcx.impl_trait_header(d).safety) == "Unsafe"),
                        ));
                        o.push((
                            "negative",
                            J::B(format!("{:?}", tcx.impl_polarity(d)) == "Negative"),
                        ));
                    }
                    o.push((
                        "items",
                        J::A(
                            tcx.associated_items(d)
                                .in_definition_order()
                                .map(|i| {
                                    J::A(vec![
                                        s(i.opt_name().map(|n| n.to_string()).unwrap_or_default()),
                                        s(cx.id(i.def_id)),
                                    ])
                                })
                                .collect(),
                        ),
                    ));
                    impls.push(J::O(o));
                }
                _ => {}
            }
        }
        let mut text = String::new();
        J::O(vec![
            ("crate", s(name.clone())),
            ("fns", J::A(fns)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
        ])
        .w(&mut text);
        std::fs::create_dir_all(&out).unwrap();
        std::fs::write(format!("{out}/{name}.json"), text).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    args.push("-Cdebug-assertions=on".into());
    args.push("-Awarnings".into());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
