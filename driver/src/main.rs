//! A rustc driver which type-checks a crate exactly as cargo asked for it and
//! writes out the resolved program: MIR bodies (unoptimised), item tables,
//! impl tables, visibility and unsafety facts, as one JSON file per crate.
//! It never executes any of the analysed code.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_structures;

mod json;

use std::collections::HashSet;
use std::fmt::Write as _;

use json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{
    self, AggregateKind, BasicBlock, Body, CastKind, Const, ConstValue, Operand, Place,
    ProjectionElem, Rvalue, StatementKind, TerminatorKind, VarDebugInfoContents,
};
use rustc_middle::ty::print::{
    with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name,
};
use rustc_middle::ty::{self, AssocContainer, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::ModId;
use rustc_span::Span;

/// Whether a value of the type has interior mutability, behind whatever references and containers.
fn has_cell<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, seen: &mut HashSet<Ty<'tcx>>, depth: usize) -> bool {
    if depth > 40 || !seen.insert(t) {
        return false;
    }
    match t.kind() {
        ty::Adt(def, args) => {
            if def.is_unsafe_cell() {
                return true;
            }
            if args.types().any(|a| has_cell(tcx, a, seen, depth + 1)) {
                return true;
            }
            // an Arc counts atomically and hands out shared references only
            !def.is_phantom_data()
                && path(tcx, def.did()) != "alloc::sync::Arc"
                && def.all_fields().any(|f| {
                    let ft = tcx.type_of(f.did).instantiate(tcx, args).skip_norm_wip();
                    has_cell(tcx, ft, seen, depth + 1)
                })
        }
        ty::Ref(_, i, _) | ty::RawPtr(i, _) | ty::Slice(i) | ty::Array(i, _) => has_cell(tcx, *i, seen, depth + 1),
        ty::Tuple(l) => l.iter().any(|i| has_cell(tcx, i, seen, depth + 1)),
        ty::Dynamic(..) => true,
        _ => false,
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    foreign_adts: HashSet<DefId>,
    adts_out: Vec<J>,
}

fn path<'tcx>(tcx: TyCtxt<'tcx>, id: DefId) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(id))))
}

fn hash<'tcx>(tcx: TyCtxt<'tcx>, id: DefId) -> String {
    let h = tcx.def_path_hash(id);
    let mut s = String::new();
    write!(s, "{:?}", h.0).ok();
    s.chars().filter(|c| c.is_ascii_hexdigit()).collect()
}

impl<'tcx> Dump<'tcx> {
    fn did(&self, id: DefId) -> J {
        J::arr(vec![J::s(hash(self.tcx, id)), J::s(path(self.tcx, id))])
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = loc.file.name.prefer_local_unconditionally().to_string();
        J::s(format!("{}:{}", f, loc.line))
    }

    fn tystr(&self, ty: Ty<'tcx>) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(format!("{ty}"))))
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>) -> J {
        self.args_slice(args.as_slice())
    }

    fn args_slice(&mut self, args: &[ty::GenericArg<'tcx>]) -> J {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => v.push(self.tyconst(c)),
                _ => {}
            }
        }
        J::arr(v)
    }

    fn tyconst(&mut self, c: ty::Const<'tcx>) -> J {
        if let ty::ConstKind::Param(p) = c.kind() {
            return J::obj(vec![("k", J::s("cparam")), ("n", J::s(p.name.to_string()))]);
        }
        if let Some(v) = c.try_to_value() {
            if let Some(u) = v.try_to_target_usize(self.tcx) {
                return J::obj(vec![("k", J::s("cval")), ("v", J::s(u.to_string()))]);
            }
            if let Some(bits) =
                v.try_to_bits(self.tcx, TypingEnv::fully_monomorphized())
            {
                return J::obj(vec![("k", J::s("cval")), ("v", J::s(bits.to_string()))]);
            }
        }
        J::obj(vec![("k", J::s("cother")), ("s", J::s(format!("{c}")))])
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Bool | ty::Char | ty::Str | ty::Never => {
                J::obj(vec![("k", J::s("prim")), ("n", J::s(format!("{t}")))])
            }
            ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                J::obj(vec![("k", J::s("num")), ("n", J::s(format!("{t}")))])
            }
            ty::Adt(def, args) => {
                self.note_adt(def.did());
                let a = self.args(args);
                J::obj(vec![("k", J::s("adt")), ("d", self.did(def.did())), ("a", a)])
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                J::obj(vec![("k", J::s("ref")), ("m", J::b(m.is_mut())), ("t", i)])
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                J::obj(vec![("k", J::s("ptr")), ("m", J::b(m.is_mut())), ("t", i)])
            }
            ty::Slice(inner) => {
                let i = self.ty(*inner);
                J::obj(vec![("k", J::s("slice")), ("t", i)])
            }
            ty::Array(inner, n) => {
                let i = self.ty(*inner);
                let n = self.tyconst(*n);
                J::obj(vec![("k", J::s("array")), ("t", i), ("n", n)])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|x| self.ty(x)).collect();
                J::obj(vec![("k", J::s("tuple")), ("a", J::arr(v))])
            }
            ty::Closure(did, args) => {
                let a = self.args_slice(args.as_closure().parent_args());
                J::obj(vec![("k", J::s("closure")), ("d", self.did(*did)), ("a", a)])
            }
            ty::FnDef(did, args) => {
                let a = self.args(args.skip_binder());
                J::obj(vec![("k", J::s("fndef")), ("d", self.did(*did)), ("a", a)])
            }
            ty::Param(p) => J::obj(vec![("k", J::s("param")), ("n", J::s(p.name.to_string()))]),
            ty::Alias(_, al) => match al.kind {
                ty::AliasTyKind::Projection { def_id } => {
                    let a = self.args(al.args);
                    J::obj(vec![("k", J::s("proj")), ("d", self.did(def_id.into())), ("a", a)])
                }
                ty::AliasTyKind::Opaque { def_id } => {
                    let a = self.args(al.args);
                    J::obj(vec![("k", J::s("opaque")), ("d", self.did(def_id.into())), ("a", a)])
                }
                _ => J::obj(vec![("k", J::s("other")), ("s", J::s(self.tystr(t)))]),
            },
            _ => J::obj(vec![("k", J::s("other")), ("s", J::s(self.tystr(t)))]),
        }
    }

    fn note_adt(&mut self, id: DefId) {
        if !self.foreign_adts.insert(id) {
            return;
        }
        let tcx = self.tcx;
        let def = tcx.adt_def(id);
        let mut variants = vec![];
        // Layout-defining details of foreign types stay foreign; the field lists of
        // small foreign structs are still useful (tuple wrappers such as u5 or Bytes32).
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                def.discriminant_for_variant(tcx, vi).val.to_string()
            } else {
                "0".to_string()
            };
            let mut fields = vec![];
            for f in v.fields.iter() {
                let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = if id.is_local() { self.ty(fty) } else { J::s(self.tystr(fty)) };
                fields.push(J::obj(vec![
                    ("n", J::s(f.name.to_string())),
                    ("vis", J::s(self.vis(f.vis))),
                    ("cell", J::b(id.is_local() && has_cell(tcx, fty, &mut HashSet::new(), 0))),
                    ("ty", t),
                ]));
            }
            variants.push(J::obj(vec![
                ("n", J::s(v.name.to_string())),
                ("discr", J::s(discr)),
                ("fields", J::arr(fields)),
            ]));
        }
        let o = J::obj(vec![
            ("d", self.did(id)),
            ("local", J::b(id.is_local())),
            ("kind", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("vis", J::s(self.vis(tcx.visibility(id)))),
            ("span", self.span(tcx.def_span(id))),
            ("variants", J::arr(variants)),
        ]);
        self.adts_out.push(o);
    }

    fn vis(&self, v: ty::Visibility<ModId>) -> String {
        match v {
            ty::Visibility::Public => "pub".into(),
            ty::Visibility::Restricted(d) => format!("in {}", path(self.tcx, d.to_def_id())),
        }
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let _ = body;
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, _) => J::arr(vec![J::s("f"), J::n(f.as_usize())]),
                ProjectionElem::Downcast(_, vi) => {
                    J::arr(vec![J::s("d"), J::n(vi.as_usize())])
                }
                ProjectionElem::Index(l) => J::arr(vec![J::s("i"), J::n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::arr(vec![
                    J::s("ci"),
                    J::n(offset as usize),
                    J::b(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::arr(vec![
                    J::s("sub"),
                    J::n(from as usize),
                    J::n(to as usize),
                    J::b(from_end),
                ]),
                other => J::arr(vec![J::s("?"), J::s(format!("{other:?}"))]),
            });
        }
        J::arr(vec![J::n(p.local.as_usize()), J::arr(v)])
    }

    fn const_bytes(&self, cv: ConstValue, t: Ty<'tcx>) -> Option<Vec<u8>> {
        let tcx = self.tcx;
        match cv {
            ConstValue::Indirect { alloc_id, offset } => {
                let env = TypingEnv::fully_monomorphized();
                let size = tcx.layout_of(env.as_query_input(t)).ok()?.size;
                let a = tcx.global_alloc(alloc_id).unwrap_memory().inner();
                if !a.provenance().ptrs().is_empty() || size.bytes() > 65536 {
                    return None;
                }
                let lo = offset.bytes_usize();
                let hi = lo + size.bytes_usize();
                Some(
                    a.inspect_with_uninit_and_ptr_outside_interpreter(lo..hi)
                        .to_vec(),
                )
            }
            _ => None,
        }
    }

    fn constval(&mut self, cv: ConstValue, t: Ty<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        match cv {
            ConstValue::ZeroSized => vec![("k", J::s("zst"))],
            ConstValue::Scalar(s) => match s {
                mir::interpret::Scalar::Int(i) => {
                    let size = i.size();
                    vec![
                        ("k", J::s("int")),
                        ("v", J::s(i.to_bits(size).to_string())),
                        ("size", J::n(size.bytes_usize())),
                    ]
                }
                mir::interpret::Scalar::Ptr(p, _) => {
                    // A reference to constant memory: &[u8; N], &&str, &T ...
                    let (prov, off) = p.prov_and_relative_offset();
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if let mir::interpret::GlobalAlloc::Memory(_) =
                            tcx.global_alloc(prov.alloc_id())
                        {
                            if let Some(b) = self.const_bytes(
                                ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off },
                                *inner,
                            ) {
                                return vec![("k", J::s("refbytes")), ("v", J::s(hex(&b)))];
                            }
                        }
                    }
                    vec![("k", J::s("ptr"))]
                }
            },
            ConstValue::Slice { alloc_id, meta } => {
                let a = tcx.global_alloc(alloc_id).unwrap_memory().inner();
                let b = a
                    .inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize)
                    .to_vec();
                let is_str = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
                if is_str {
                    vec![("k", J::s("str")), ("v", J::s(String::from_utf8_lossy(&b).into_owned()))]
                } else {
                    vec![("k", J::s("slice")), ("v", J::s(hex(&b)))]
                }
            }
            ConstValue::Indirect { .. } => match self.const_bytes(cv, t) {
                Some(b) => vec![("k", J::s("bytes")), ("v", J::s(hex(&b)))],
                None => vec![("k", J::s("indirect"))],
            },
        }
    }

    fn constant(&mut self, body_id: DefId, c: &Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let env = TypingEnv::post_analysis(tcx, body_id);
        let mut o: Vec<(&'static str, J)> = match c {
            Const::Ty(_, ct) => {
                let cc = self.tyconst(*ct);
                vec![("k", J::s("tyconst")), ("c", cc)]
            }
            Const::Unevaluated(u, _) => {
                let a = self.args(u.args);
                let mut v = vec![("k", J::s("uneval")), ("d", self.did(u.def)), ("a", a)];
                if let Some(p) = u.promoted {
                    v.push(("promoted", J::n(p.as_usize())));
                }
                if let Ok(cv) = tcx.const_eval_resolve(env, *u, rustc_span::DUMMY_SP) {
                    let val = self.constval(cv, t);
                    v.push(("val", J::obj(val)));
                }
                if let Ok(args) = tcx
                    .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(u.args))
                {
                    if u.promoted.is_none() && tcx.trait_of_assoc(u.def).is_some() {
                        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, u.def, args) {
                            v.push(("res", self.did(i.def_id())));
                        }
                    }
                }
                v
            }
            Const::Val(cv, t) => self.constval(*cv, *t),
        };
        let tj = self.ty(t);
        if let ty::FnDef(did, args) = t.kind() {
            let args = args.skip_binder();
            // Resolve trait methods to impl items wherever the types in scope allow it.
            if let Ok(args) = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)) {
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, (*did).into(), args) {
                    let ra = self.args(inst.args);
                    let kind = match inst.def {
                        ty::InstanceKind::Item(_) => "item",
                        ty::InstanceKind::Virtual(..) => "virtual",
                        ty::InstanceKind::Intrinsic(_) => "intrinsic",
                        _ => "shim",
                    };
                    o.push(("inst", J::obj(vec![
                        ("d", self.did(inst.def_id())),
                        ("a", ra),
                        ("kind", J::s(kind)),
                    ])));
                }
            }
        }
        o.push(("ty", tj));
        J::obj(o)
    }

    fn operand(&mut self, id: DefId, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::arr(vec![J::s("copy"), self.place(body, p)]),
            Operand::Move(p) => J::arr(vec![J::s("move"), self.place(body, p)]),
            Operand::Constant(c) => J::arr(vec![J::s("const"), self.constant(id, &c.const_)]),
            Operand::RuntimeChecks(k) => {
                J::arr(vec![J::s("rtcheck"), J::s(format!("{k:?}"))])
            }
        }
    }

    fn rvalue(&mut self, id: DefId, body: &Body<'tcx>, rv: &Rvalue<'tcx>) -> J {
        match rv {
            Rvalue::Use(op, _) => J::arr(vec![J::s("use"), self.operand(id, body, op)]),
            Rvalue::Repeat(op, n) => {
                let n = self.tyconst(*n);
                J::arr(vec![J::s("repeat"), self.operand(id, body, op), n])
            }
            Rvalue::Ref(_, bk, p) => J::arr(vec![
                J::s("ref"),
                J::b(matches!(bk, mir::BorrowKind::Mut { .. })),
                self.place(body, p),
            ]),
            Rvalue::RawPtr(k, p) => J::arr(vec![
                J::s("rawptr"),
                J::b(matches!(k, mir::RawPtrKind::Mut)),
                self.place(body, p),
            ]),
            Rvalue::Cast(k, op, t) => {
                let from = op.ty(&body.local_decls, self.tcx);
                let from = self.ty(from);
                let to = self.ty(*t);
                let kk = match k {
                    CastKind::IntToInt => "int".to_string(),
                    CastKind::PointerCoercion(c, _) => format!("coerce:{c:?}"),
                    CastKind::Transmute => "transmute".into(),
                    other => format!("{other:?}"),
                };
                J::arr(vec![J::s("cast"), J::s(kk), self.operand(id, body, op), from, to])
            }
            Rvalue::BinaryOp(op, b) => J::arr(vec![
                J::s("bin"),
                J::s(format!("{op:?}")),
                self.operand(id, body, &b.0),
                self.operand(id, body, &b.1),
            ]),
            Rvalue::UnaryOp(op, a) => {
                J::arr(vec![J::s("un"), J::s(format!("{op:?}")), self.operand(id, body, a)])
            }
            Rvalue::Discriminant(p) => J::arr(vec![J::s("discr"), self.place(body, p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops = J::arr(ops.iter().map(|o| self.operand(id, body, o)).collect());
                let kind = match &**k {
                    AggregateKind::Array(_) => J::arr(vec![J::s("array")]),
                    AggregateKind::Tuple => J::arr(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        self.note_adt(*d);
                        let a = self.args(args);
                        J::arr(vec![J::s("adt"), self.did(*d), J::n(v.as_usize()), a])
                    }
                    AggregateKind::Closure(d, args) => {
                        let a = self.args_slice(args.as_closure().parent_args());
                        J::arr(vec![J::s("closure"), self.did(*d), a])
                    }
                    other => J::arr(vec![J::s("?"), J::s(format!("{other:?}"))]),
                };
                J::arr(vec![J::s("agg"), kind, ops])
            }
            Rvalue::CopyForDeref(p) => {
                J::arr(vec![J::s("use"), J::arr(vec![J::s("copy"), self.place(body, p)])])
            }
            Rvalue::Reborrow(_, m, p) => {
                J::arr(vec![J::s("reborrow"), J::b(m.is_mut()), self.place(body, p)])
            }
            other => J::arr(vec![J::s("?"), J::s(format!("{other:?}"))]),
        }
    }

    fn body(&mut self, id: DefId, body: &Body<'tcx>) -> J {
        let mut locals = vec![];
        for d in body.local_decls.iter() {
            locals.push(self.ty(d.ty));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::arr(vec![J::s(v.name.to_string()), self.place(body, p)]));
            }
        }
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(id, body, &b.1);
                        st.push(J::arr(vec![J::s("="), p, r, self.span(s.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(J::arr(vec![J::s("setd"), p, J::n(variant_index.as_usize())]));
                    }
                    _ => {}
                }
            }
            let t = data.terminator();
            let bbj = |b: BasicBlock| J::n(b.as_usize());
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::arr(vec![J::s("goto"), bbj(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut arms = vec![];
                    for (v, b) in targets.iter() {
                        arms.push(J::arr(vec![J::s(v.to_string()), bbj(b)]));
                    }
                    let dty = discr.ty(&body.local_decls, self.tcx);
                    let dty = self.ty(dty);
                    J::arr(vec![
                        J::s("switch"),
                        self.operand(id, body, discr),
                        J::arr(arms),
                        bbj(targets.otherwise()),
                        dty,
                    ])
                }
                TerminatorKind::Return => J::arr(vec![J::s("return")]),
                TerminatorKind::Unreachable => J::arr(vec![J::s("unreachable")]),
                TerminatorKind::Drop { target, place, .. } => {
                    J::arr(vec![J::s("drop"), bbj(*target), self.place(body, place)])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(id, body, func);
                    let a = J::arr(
                        args.iter().map(|a| self.operand(id, body, &a.node)).collect(),
                    );
                    let d = self.place(body, destination);
                    J::arr(vec![
                        J::s("call"),
                        f,
                        a,
                        d,
                        target.map(bbj).unwrap_or(J::Null),
                        self.span(*fn_span),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => J::arr(vec![
                    J::s("assert"),
                    self.operand(id, body, cond),
                    J::b(*expected),
                    J::s(assert_kind(msg)),
                    bbj(*target),
                    self.span(t.source_info.span),
                ]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::arr(vec![J::s("goto"), bbj(*real_target)])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::arr(vec![J::s("goto"), bbj(*real_target)])
                }
                _ => J::arr(vec![J::s("dead")]),
            };
            blocks.push(J::obj(vec![
                ("s", J::arr(st)),
                ("t", term),
                ("l", self.span(t.source_info.span)),
                ("c", J::b(data.is_cleanup)),
            ]));
        }
        J::obj(vec![
            ("argc", J::n(body.arg_count)),
            ("locals", J::arr(locals)),
            ("names", J::arr(names)),
            ("blocks", J::arr(blocks)),
        ])
    }
}

fn assert_kind<O>(m: &mir::AssertKind<O>) -> String {
    use mir::AssertKind::*;
    match m {
        BoundsCheck { .. } => "bounds".into(),
        Overflow(op, ..) => format!("overflow:{op:?}"),
        OverflowNeg(_) => "overflow:Neg".into(),
        DivisionByZero(_) => "div0".into(),
        RemainderByZero(_) => "rem0".into(),
        _ => "other".into(),
    }
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        write!(s, "{x:02x}").ok();
    }
    s
}

struct UnsafeFinder<'a, 'tcx> {
    d: &'a Dump<'tcx>,
    out: Vec<J>,
}

impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt { self.d.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            let user = matches!(src, rustc_hir::UnsafeSource::UserProvided);
            self.out.push(J::obj(vec![
                ("what", J::s("unsafe block")),
                ("user", J::b(user)),
                ("expn", J::b(b.span.from_expansion())),
                ("span", self.d.span(b.span)),
            ]));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb {
    out: String,
    flavour: String,
    stop: bool,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        dump(tcx, &self.out, &self.flavour);
        if self.stop {
            rustc_driver::Compilation::Stop
        } else {
            rustc_driver::Compilation::Continue
        }
    }
}

fn dump(tcx: TyCtxt<'_>, outdir: &str, flavour: &str) {
    let mut d = Dump { tcx, foreign_adts: HashSet::new(), adts_out: vec![] };
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let eff = tcx.effective_visibilities(());
    let mut fns = vec![];
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()));
    for k in keys {
        let id = k.to_def_id();
        let kind = tcx.def_kind(id);
        let mut o: Vec<(&'static str, J)> = vec![
            ("d", d.did(id)),
            ("kind", J::s(format!("{kind:?}"))),
            ("span", d.span(tcx.def_span(id))),
        ];
        let mut promoted_ok = true;
        let body: Option<&Body<'_>> = match kind {
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(id).instantiate_identity().skip_norm_wip().skip_binder();
                let ins = sig.inputs().iter().map(|t| d.ty(*t)).collect();
                let out = d.ty(sig.output());
                o.push(("ins", J::arr(ins)));
                o.push(("out", out));
                o.push(("unsafe", J::b(!sig.safety().is_safe())));
                Some(tcx.optimized_mir(id))
            }
            DefKind::Closure => Some(tcx.optimized_mir(id)),
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }
            | DefKind::AnonConst  => Some(tcx.mir_for_ctfe(id)),
            DefKind::Ctor(..) => { promoted_ok = false; None }
            _ => None,
        };
        // generic parameter names in order (types and consts only)
        let g = tcx.generics_of(id);
        let mut names = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, tcx);
            match p.kind {
                ty::GenericParamDefKind::Lifetime => {}
                _ => names.push(J::s(p.name.to_string())),
            }
        }
        o.push(("generics", J::arr(names)));
        o.push(("vis", J::s(match kind {
            DefKind::Closure | DefKind::AnonConst  => "closure".to_string(),
            _ => d.vis(tcx.visibility(id)),
        })));
        o.push(("reach", J::b(eff.is_reachable(k))));
        if let Some(p) = tcx.opt_parent(id) {
            o.push(("parent", d.did(p)));
            o.push(("pkind", J::s(format!("{:?}", tcx.def_kind(p)))));
        }
        if let Some(ai) = tcx.opt_associated_item(id) {
            o.push(("name", J::s(ai.opt_name().map(|n| n.to_string()).unwrap_or("<rpitit>".into()))));
            match ai.container {
                AssocContainer::Trait => o.push(("assoc", J::s("trait"))),
                AssocContainer::InherentImpl => o.push(("assoc", J::s("inherent"))),
                AssocContainer::TraitImpl(_) => o.push(("assoc", J::s("impl"))),
            }
        } else if matches!(kind, DefKind::Fn) {
            o.push(("name", J::s(tcx.item_name(id).to_string())));
        }
        o.push(("expn", J::b(tcx.def_span(id).from_expansion())));
        if let Some(b) = body {
            let bj = d.body(id, b);
            o.push(("body", bj));
            if promoted_ok {
                let mut pv = vec![];
                for pb in tcx.promoted_mir(id).iter() {
                    pv.push(d.body(id, pb));
                }
                o.push(("promoted", J::arr(pv)));
            }
        }
        fns.push(J::obj(o));
    }

    // Impl table and traits.
    let mut impls = vec![];
    let mut traits = vec![];
    let mut misc = vec![];
    let mut items: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
    items.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()));
    for k in items {
        let id = k.to_def_id();
        match tcx.def_kind(id) {
            DefKind::Impl { of_trait } => {
                let self_ty = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let sj = d.ty(self_ty);
                let mut o = vec![
                    ("d", d.did(id)),
                    ("self", sj),
                    ("span", d.span(tcx.def_span(id))),
                    ("expn", J::b(tcx.def_span(id).from_expansion())),
                ];
                if of_trait {
                    let tr = tcx.impl_trait_ref(id).instantiate_identity().skip_norm_wip();
                    let a = d.args(tr.args);
                    o.push(("trait", d.did(tr.def_id)));
                    o.push(("targs", a));
                    o.push(("unsafe", J::b(!tcx.impl_trait_header(id).safety.is_safe())));
                }
                let mut its = vec![];
                for it in tcx.associated_items(id).in_definition_order() {
                    let mut io = vec![
                        ("n", J::s(it.opt_name().map(|n| n.to_string()).unwrap_or("<rpitit>".into()))),
                        ("d", d.did(it.def_id)),
                        ("k", J::s(match it.kind {
                            ty::AssocKind::Fn { .. } => "fn",
                            ty::AssocKind::Const { .. } => "const",
                            ty::AssocKind::Type { .. } => "type",
                        })),
                    ];
                    if let Some(t) = it.trait_item_def_id() {
                        io.push(("of", d.did(t)));
                    }
                    if matches!(it.kind, ty::AssocKind::Type { .. }) {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        let t = d.ty(t);
                        io.push(("ty", t));
                    }
                    its.push(J::obj(io));
                }
                o.push(("items", J::arr(its)));
                let g = tcx.generics_of(id);
                let mut names = vec![];
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        names.push(J::s(p.name.to_string()));
                    }
                }
                o.push(("generics", J::arr(names)));
                let preds = tcx.clauses_of(id).instantiate_identity(tcx);
                let pv = preds
                    .clauses
                    .iter()
                    .map(|p| J::s(with_resolve_crate_name!(with_no_visible_paths!(
                        with_no_trimmed_paths!(format!("{:?}", p.as_ref().skip_norm_wip()))
                    ))))
                    .collect();
                o.push(("preds", J::arr(pv)));
                impls.push(J::obj(o));
            }
            DefKind::Trait => {
                let mut its = vec![];
                for it in tcx.associated_items(id).in_definition_order() {
                    its.push(J::obj(vec![
                        ("n", J::s(it.opt_name().map(|n| n.to_string()).unwrap_or("<rpitit>".into()))),
                        ("d", d.did(it.def_id)),
                        ("default", J::b(it.defaultness(tcx).has_value())),
                        ("k", J::s(match it.kind {
                            ty::AssocKind::Fn { .. } => "fn",
                            ty::AssocKind::Const { .. } => "const",
                            ty::AssocKind::Type { .. } => "type",
                        })),
                    ]));
                }
                traits.push(J::obj(vec![
                    ("d", d.did(id)),
                    ("span", d.span(tcx.def_span(id))),
                    ("vis", J::s(d.vis(tcx.visibility(id)))),
                    ("items", J::arr(its)),
                ]));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => d.note_adt(id),
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let freeze = t.is_freeze(tcx, TypingEnv::post_analysis(tcx, id));
                let tj = d.ty(t);
                misc.push(J::obj(vec![
                    ("what", J::s("static")),
                    ("d", d.did(id)),
                    ("mut", J::b(mutability.is_mut())),
                    ("freeze", J::b(freeze)),
                    ("ty", tj),
                    ("span", d.span(tcx.def_span(id))),
                ]));
            }
            DefKind::ForeignMod => {
                misc.push(J::obj(vec![
                    ("what", J::s("extern block")),
                    ("span", d.span(tcx.def_span(id))),
                ]));
            }
            _ => {}
        }
    }
    let unsafes = {
        let mut uf = UnsafeFinder { d: &d, out: vec![] };
        tcx.hir_visit_all_item_likes_in_crate(&mut uf);
        uf.out
    };
    let adts = std::mem::take(&mut d.adts_out);
    let cfgs: Vec<J> = {
        let mut v: Vec<String> = tcx
            .sess
            .config
            .iter()
            .map(|(k, v)| match v {
                Some(v) => format!("{k}={v}"),
                None => k.to_string(),
            })
            .collect();
        v.sort();
        v.into_iter().map(J::s).collect()
    };
    let o = J::obj(vec![
        ("crate", J::s(krate.clone())),
        ("flavour", J::s(flavour)),
        ("proc_macro", J::b(tcx.crate_types().contains(&rustc_structures::CrateType::ProcMacro))),
        ("bin", J::b(tcx.crate_types().contains(&rustc_structures::CrateType::Executable))),
        ("cfg", J::arr(cfgs)),
        ("fns", J::arr(fns)),
        ("adts", J::arr(adts)),
        ("impls", J::arr(impls)),
        ("traits", J::arr(traits)),
        ("misc", J::arr(misc)),
        ("unsafe", J::arr(unsafes)),
    ]);
    let suffix = std::env::var("MIRDUMP_CONFIG").unwrap_or_default();
    let f = format!("{outdir}/{suffix}.{krate}.{flavour}.json");
    std::fs::write(&f, o.to_string()).expect("write dump");
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WRAPPER or RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    // Lints are the business of the build, not of the analysis.
    if !args.iter().any(|a| a.starts_with("--cap-lints")) && args.iter().any(|a| a == "--crate-name") {
        args.push("--cap-lints=allow".into());
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_query = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"))
        || !args.iter().any(|a| a == "--crate-name");
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let unwanted = std::env::var("MIRDUMP_CRATES")
        .map(|l| !l.split(',').any(|c| c == name))
        .unwrap_or(false);
    if is_query || out.is_empty() || unwanted || name == "___" || name.starts_with("build_script") {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
        return;
    }
    if let Ok(flavour) = std::env::var("MIRDUMP_FLAVOUR") {
        // Second run over the same crate, only for its dump.
        args.push("-Zmir-opt-level=0".into());
        args.push("-Awarnings".into());
        let mut cb = Cb { out, flavour, stop: true };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
        return;
    }
    // The release flavour: debug assertions and overflow checks off.
    let mut rel: Vec<String> = vec![];
    let mut skip = false;
    for a in args.iter().skip(1) {
        if skip {
            skip = false;
            continue;
        }
        if a.starts_with("-Cincremental") {
            continue;
        }
        rel.push(a.clone());
    }
    rel.push("-Cdebug-assertions=off".into());
    rel.push("-Coverflow-checks=off".into());
    let st = std::process::Command::new(&args[0])
        .args(&rel)
        .env("MIRDUMP_FLAVOUR", "release")
        .stderr(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .status()
        .expect("respawn");
    if !st.success() {
        eprintln!("mirdump: release flavour of {name} failed");
    }
    args.push("-Zmir-opt-level=0".into());
    let mut cb = Cb { out, flavour: "debug".into(), stop: false };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
