// MIR dumper: a rustc_private driver used as RUSTC_WORKSPACE_WRAPPER.  For every workspace
// crate it writes $VP_MIR_OUT/<crate>-<stable crate id>.json with the resolved program:
// bodies (MIR, before optimisation), resolved callees, constants, type definitions.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

enum J {
    N,
    B(bool),
    I(i128),
    U(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(t: T) -> J {
    J::S(t.into())
}
fn esc(o: &mut String, t: &str) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::U(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(t) => esc(o, t),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o)
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    // stable identity of an item: crate name, crate id, path inside the crate
    fn did(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let k = tcx.crate_name(d.krate).to_string();
        let id = format!("{:x}", tcx.stable_crate_id(d.krate).as_u64());
        let p = tcx.def_path(d).to_string_no_crate_verbose();
        J::A(vec![s(k), s(id), s(p)])
    }
    fn pretty(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        s(with_no_trimmed_paths!(format!("{}", t)))
    }
    // the head of a type: adt path / closure id / primitive, references peeled
    fn tyhead(&self, t: Ty<'tcx>) -> J {
        let mut t = t;
        let mut refs = 0;
        loop {
            match t.kind() {
                ty::Ref(_, u, _) => {
                    t = *u;
                    refs += 1;
                }
                _ => break,
            }
        }
        let k = match t.kind() {
            ty::Adt(a, _) => s(self.pretty(a.did())),
            ty::Closure(d, _) => J::A(vec![s("closure"), self.did(*d)]),
            ty::FnDef(d, _) => J::A(vec![s("fndef"), self.did(*d)]),
            ty::Dynamic(..) => s("dyn"),
            ty::Tuple(_) => s("tuple"),
            ty::Str => s("str"),
            _ => s(with_no_trimmed_paths!(format!("{}", t))),
        };
        J::A(vec![J::I(refs), k])
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, lo.line))
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut out = vec![J::U(p.local.as_u32() as u128)];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let idx = f.as_usize();
                    let name = match pty.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if a.is_union() {
                                format!("{}", idx)
                            } else {
                                a.variant(v).fields[f].name.to_string()
                            }
                        }
                        _ => format!("{}", idx),
                    };
                    J::A(vec![s("f"), s(name), J::I(idx as i128)])
                }
                ProjectionElem::Downcast(n, i) => {
                    let name = match n {
                        Some(n) => n.to_string(),
                        None => match pty.ty.kind() {
                            ty::Adt(a, _) => a.variant(i).name.to_string(),
                            _ => format!("{}", i.as_u32()),
                        },
                    };
                    J::A(vec![s("v"), s(name)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::U(l.as_u32() as u128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), J::U(offset as u128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::U(from as u128), J::U(to as u128), J::B(from_end)])
                }
                _ => s("?"),
            };
            out.push(j);
            pty = pty.projection_ty(tcx, e);
        }
        J::A(out)
    }
    fn callee(&self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("k", s("fn")),
            ("id", self.did(d)),
            ("name", s(self.pretty(d))),
            ("args", s(with_no_trimmed_paths!(format!("{:?}", args)))),
        ];
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let v = tcx.parent(d);
            if tcx.def_kind(v) == DefKind::Variant {
                let a = tcx.parent(v);
                o.push(("ctor", J::A(vec![s(self.pretty(a)), s(tcx.item_name(v).to_string())])));
            } else {
                o.push(("ctor", J::A(vec![s(self.pretty(v)), s(tcx.item_name(v).to_string())])));
            }
        }
        if let Some(t) = args.types().next() {
            o.push(("self", self.tyhead(t)));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.pretty(tr))));
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let args = tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(tcx.erase_and_anonymize_regions(args)));
            Instance::try_resolve(tcx, env, d, args)
        }));
        if let Ok(Ok(Some(i))) = r {
            let rd = i.def_id();
            o.push(("rid", self.did(rd)));
            o.push(("rname", s(self.pretty(rd))));
            let kind = format!("{:?}", i.def);
            o.push(("rk", s(kind.split('(').next().unwrap_or("").to_string())));
        }
        J::O(o)
    }
    fn constant(&self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        match t.kind() {
            ty::FnDef(d, a) => return self.callee(*d, a.skip_binder(), env),
            _ => {}
        }
        let mut o = vec![("k", s("const")), ("ty", self.ty(t))];
        match c.const_ {
            Const::Unevaluated(u, _) => {
                o.push(("id", self.did(u.def)));
                o.push(("name", s(self.pretty(u.def))));
                if let Some(p) = u.promoted {
                    o.push(("promoted", J::I(p.as_u32() as i128)));
                }
            }
            _ => {}
        }
        if !matches!(c.const_, Const::Unevaluated(u, _) if u.promoted.is_some()) {
            self.eval(&mut o, c, t, env);
        }
        let _ = tcx;
        J::O(o)
    }
    fn eval(&self, o: &mut Vec<(&'static str, J)>, c: &ConstOperand<'tcx>, t: Ty<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.const_.eval(tcx, env, c.span)));
        let Ok(Ok(v)) = r else { return };
        match v {
            ConstValue::Scalar(sc) => {
                if let Ok(si) = sc.try_to_scalar_int() {
                    let sz = si.size();
                    if t.is_bool() {
                        o.push(("bool", J::B(si.to_bits(sz) != 0)));
                    } else if t.is_char() {
                        o.push(("char", s(char::from_u32(si.to_bits(sz) as u32).unwrap_or('?').to_string())));
                    } else if t.is_signed() {
                        o.push(("int", J::I(si.to_int(sz))));
                    } else if t.is_integral() {
                        o.push(("int", J::U(si.to_bits(sz))));
                    } else if let ty::Adt(a, _) = t.kind() {
                        if a.is_enum() {
                            let bits = si.to_bits(sz);
                            for (vi, dc) in a.discriminants(tcx) {
                                if dc.val == bits {
                                    o.push(("variant", s(a.variant(vi).name.to_string())));
                                }
                            }
                        } else {
                            o.push(("bits", J::U(si.to_bits(sz))));
                        }
                        o.push(("adt", s(self.pretty(a.did()))));
                    }
                } else if let ty::Ref(_, inner, _) = t.kind() {
                    // &[u8; N]
                    if let ty::Array(el, n) = inner.kind() {
                        if el.is_integral() {
                            if let Some(n) = n.try_to_target_usize(tcx) {
                                if let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = sc {
                                    let (prov, off) = p.prov_and_relative_offset();
                                    if let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) =
                                        tcx.global_alloc(prov.alloc_id())
                                    {
                                        let a = m.inner();
                                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                                            off.bytes() as usize..(off.bytes() + n) as usize,
                                        );
                                        o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            ConstValue::ZeroSized => {
                o.push(("zst", J::B(true)));
                if let ty::Closure(d, _) = t.kind() {
                    o.push(("closure", self.did(*d)));
                }
                if let ty::Adt(a, _) = t.kind() {
                    o.push(("adt", s(self.pretty(a.did()))));
                }
            }
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                }
            }
            ConstValue::Indirect { .. } => {}
        }
    }
    fn operand(&self, body: &Body<'tcx>, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(body, p))]),
            Operand::Constant(c) => self.constant(c, env),
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("k", s("other"))]),
        }
    }
    fn variants(&self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(a, _) if a.is_enum() => J::A(
                a.discriminants(tcx)
                    .map(|(vi, dc)| J::A(vec![s(a.variant(vi).name.to_string()), J::U(dc.val)]))
                    .collect(),
            ),
            _ => J::N,
        }
    }
    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let op = |o: &Operand<'tcx>| self.operand(body, o, env);
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("k", s("use")), ("o", op(o))]),
            Rvalue::Repeat(o, _) => J::O(vec![("k", s("repeat")), ("o", op(o))]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", s("ref")),
                ("m", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(body, p)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![("k", s("ref")), ("m", J::B(true)), ("p", self.place(body, p))]),
            Rvalue::Cast(k, o, t) => J::O(vec![
                ("k", s("cast")),
                ("ck", s(format!("{:?}", k))),
                ("o", op(o)),
                ("ty", self.ty(*t)),
            ]),
            Rvalue::BinaryOp(b, bx) => J::O(vec![
                ("k", s("bin")),
                ("op", s(format!("{:?}", b))),
                ("a", op(&bx.0)),
                ("b", op(&bx.1)),
            ]),
            Rvalue::UnaryOp(u, o) => {
                J::O(vec![("k", s("un")), ("op", s(format!("{:?}", u))), ("o", op(o))])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                J::O(vec![
                    ("k", s("discr")),
                    ("p", self.place(body, p)),
                    ("vs", self.variants(t)),
                    ("ty", self.tyhead(t)),
                ])
            }
            Rvalue::Aggregate(k, ops) => {
                let os = J::A(ops.iter().map(|o| op(o)).collect());
                match &**k {
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let a = tcx.adt_def(*d);
                        let v = a.variant(*vi);
                        let fs = J::A(v.fields.iter().map(|f| s(f.name.to_string())).collect());
                        J::O(vec![
                            ("k", s("adt")),
                            ("adt", s(self.pretty(*d))),
                            ("enum", J::B(a.is_enum())),
                            ("v", s(v.name.to_string())),
                            ("fs", fs),
                            ("os", os),
                        ])
                    }
                    AggregateKind::Closure(d, _) => {
                        J::O(vec![("k", s("closure")), ("id", self.did(*d)), ("os", os)])
                    }
                    AggregateKind::Tuple => J::O(vec![("k", s("tuple")), ("os", os)]),
                    AggregateKind::Array(_) => J::O(vec![("k", s("array")), ("os", os)]),
                    o => J::O(vec![("k", s("agg?")), ("d", s(format!("{:?}", o))), ("os", os)]),
                }
            }
            Rvalue::CopyForDeref(p) => {
                J::O(vec![("k", s("use")), ("o", J::O(vec![("k", s("copy")), ("p", self.place(body, p))]))])
            }
            o => J::O(vec![("k", s("rv?")), ("d", s(format!("{:?}", o)))]),
        }
    }
    fn body(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let locals = J::A(
            body.local_decls
                .iter()
                .map(|d| J::A(vec![self.ty(d.ty), self.tyhead(d.ty)]))
                .collect(),
        );
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![s(v.name.to_string()), self.place(body, p)]));
            }
        }
        let blocks = J::A(
            body.basic_blocks
                .iter()
                .map(|b| {
                    let st = b
                        .statements
                        .iter()
                        .filter_map(|x| match &x.kind {
                            StatementKind::Assign(bx) => Some(J::O(vec![
                                ("d", self.place(body, &bx.0)),
                                ("r", self.rvalue(body, &bx.1, env)),
                            ])),
                            StatementKind::SetDiscriminant { place, variant_index } => {
                                let t = place.ty(&body.local_decls, tcx).ty;
                                let n = match t.kind() {
                                    ty::Adt(a, _) => a.variant(*variant_index).name.to_string(),
                                    _ => String::new(),
                                };
                                Some(J::O(vec![
                                    ("d", self.place(body, place)),
                                    ("setd", s(n)),
                                ]))
                            }
                            _ => None,
                        })
                        .collect();
                    let t = b.terminator();
                    let term = self.term(body, t, env);
                    J::O(vec![("s", J::A(st)), ("t", term), ("c", J::B(b.is_cleanup))])
                })
                .collect(),
        );
        J::O(vec![
            ("argc", J::I(body.arg_count as i128)),
            ("locals", locals),
            ("names", J::A(names)),
            ("spread", J::B(body.spread_arg.is_some())),
            ("blocks", blocks),
        ])
    }
    fn term(&self, body: &Body<'tcx>, t: &Terminator<'tcx>, env: TypingEnv<'tcx>) -> J {
        let b = |x: BasicBlock| J::U(x.as_u32() as u128);
        let sp = self.span(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::O(vec![("k", s("goto")), ("t", b(*target))]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let vals = targets.iter().map(|(v, x)| J::A(vec![J::U(v), b(x)])).collect();
                J::O(vec![
                    ("k", s("switch")),
                    ("o", self.operand(body, discr, env)),
                    ("ty", self.ty(discr.ty(&body.local_decls, self.tcx))),
                    ("ts", J::A(vals)),
                    ("e", b(targets.otherwise())),
                    ("sp", sp),
                ])
            }
            TerminatorKind::Return => J::O(vec![("k", s("return"))]),
            TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
            TerminatorKind::Drop { target, .. } => J::O(vec![("k", s("goto")), ("t", b(*target))]),
            TerminatorKind::Assert { cond, expected, target, msg, .. } => J::O(vec![
                ("k", s("assert")),
                ("o", self.operand(body, cond, env)),
                ("x", J::B(*expected)),
                ("m", s(format!("{:?}", msg).chars().take(60).collect::<String>())),
                ("t", b(*target)),
                ("sp", sp),
            ]),
            TerminatorKind::Call { func, args, destination, target, .. } => J::O(vec![
                ("k", s("call")),
                ("f", self.operand(body, func, env)),
                ("a", J::A(args.iter().map(|a| self.operand(body, &a.node, env)).collect())),
                ("d", self.place(body, destination)),
                ("dt", self.tyhead(destination.ty(&body.local_decls, self.tcx).ty)),
                ("t", match target {
                    Some(x) => b(*x),
                    None => J::N,
                }),
                ("sp", sp),
            ]),
            TerminatorKind::FalseEdge { real_target, .. } => {
                J::O(vec![("k", s("goto")), ("t", b(*real_target))])
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                J::O(vec![("k", s("goto")), ("t", b(*real_target))])
            }
            o => J::O(vec![("k", s("term?")), ("d", s(format!("{:?}", o).chars().take(60).collect::<String>()))]),
        }
    }

    /// calls of a body in order, with their literal arguments
    fn wire_calls(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut out = vec![];
        for (_, bb) in traversal::reverse_postorder(body) {
            if bb.is_cleanup {
                continue;
            }
            if let TerminatorKind::Call { func: Operand::Constant(c), args, .. } = &bb.terminator().kind {
                if let ty::FnDef(d, ga) = c.const_.ty().kind() {
                    let tys = ga.skip_binder().types().map(|t| self.ty(t)).collect();
                    let lits = args
                        .iter()
                        .filter_map(|a| match &a.node {
                            Operand::Constant(k) => Some(self.constant(k, env)),
                            _ => None,
                        })
                        .collect();
                    out.push(J::A(vec![s(self.tcx.item_name(*d).to_string()), J::A(lits), J::A(tys)]));
                }
            }
        }
        J::A(out)
    }
    fn run(&self, out: &str) {
        let tcx = self.tcx;
        let mut fns = vec![];
        let mut wire = vec![];
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()));
        for ld in keys {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            // derived impls are modelled, not interpreted
            let mut anc = d;
            let mut derived = false;
            let mut serde = None;
            loop {
                if tcx.def_kind(anc) == (DefKind::Impl { of_trait: true }) && tcx.is_automatically_derived(anc) {
                    derived = true;
                    let t = tcx.impl_trait_ref(anc).instantiate_identity().skip_norm_wip();
                    let n = tcx.item_name(t.def_id).to_string();
                    if n == "Serialize" || n == "Deserialize" || n == "QueryResponses" {
                        serde = Some((n, anc));
                    }
                }
                match tcx.opt_parent(anc) {
                    Some(p) => anc = p,
                    None => break,
                }
            }
            if let Some((n, anc)) = serde {
                // the names a derived (de)serializer writes and reads
                let last = tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default();
                if matches!(last.as_str(), "serialize" | "visit_str" | "visit_map" | "response_schemas_impl") {
                    let st = tcx.type_of(anc).instantiate_identity().skip_norm_wip();
                    wire.push(J::O(vec![
                        ("of", self.tyhead(st)),
                        ("trait", s(n)),
                        ("fn", s(tcx.def_path(d).to_string_no_crate_verbose())),
                        ("calls", self.wire_calls(tcx.optimized_mir(d), TypingEnv::post_analysis(tcx, d))),
                    ]));
                }
                continue;
            }
            if derived {
                continue;
            }
            let path = tcx.def_path(d).to_string_no_crate_verbose();
            if path.contains("_serde") || path.contains("JsonSchema") {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, d);
            let body = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(d) {
                        continue;
                    }
                    tcx.optimized_mir(d)
                }
                DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => tcx.mir_for_ctfe(d),
                _ => continue,
            };
            let prom = tcx.promoted_mir(d);
            let pj = J::A(prom.iter().map(|p| self.body(p, env)).collect());
            let mut o = vec![
                ("id", self.did(d)),
                ("name", s(self.pretty(d))),
                ("kind", s(format!("{:?}", kind))),
                ("span", self.span(tcx.def_span(d))),
                ("body", self.body(body, env)),
                ("promoted", pj),
            ];
            if let Some(p) = tcx.opt_parent(d) {
                if let DefKind::Impl { .. } = tcx.def_kind(p) {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    o.push(("impl_self", self.tyhead(st)));
                }
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                o.push(("vis", s(format!("{:?}", tcx.visibility(d)).split('(').next().unwrap_or("").to_string())));
            }
            fns.push(J::O(o));
        }
        // type definitions
        let mut adts = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                continue;
            }
            let a = tcx.adt_def(d);
            let vs = a
                .variants()
                .iter()
                .map(|v| {
                    let fs = v
                        .fields
                        .iter()
                        .map(|f| {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            J::A(vec![s(f.name.to_string()), self.ty(t)])
                        })
                        .collect();
                    J::O(vec![("n", s(v.name.to_string())), ("fs", J::A(fs))])
                })
                .collect();
            adts.push(J::O(vec![
                ("id", self.did(d)),
                ("name", s(self.pretty(d))),
                ("enum", J::B(a.is_enum())),
                ("vs", J::A(vs)),
                ("span", self.span(tcx.def_span(d))),
            ]));
        }
        let cn = tcx.crate_name(LOCAL_CRATE).to_string();
        let id = format!("{:x}", tcx.stable_crate_id(LOCAL_CRATE).as_u64());
        let j = J::O(vec![
            ("crate", s(cn.clone())),
            ("crate_id", s(id.clone())),
            ("fns", J::A(fns)),
            ("adts", J::A(adts)),
            ("wire", J::A(wire)),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        let f = format!("{}/{}-{}.json", out, cn, id);
        std::fs::write(&f, o).expect("write mir json");
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Ok(out) = std::env::var("VP_MIR_OUT") {
            let cn = tcx.crate_name(LOCAL_CRATE).to_string();
            let list = std::env::var("VP_MIR_CRATES").unwrap_or_default();
            if list.split(',').any(|x| x == cn) {
                // dependencies from the registry go to their own directory: cargo keeps them fresh
                let dir = std::env::var("CARGO_MANIFEST_DIR").unwrap_or_default();
                let ext = std::env::var("VP_MIR_EXT").unwrap_or_default();
                Cx { tcx }.run(if dir.contains("/registry/") { &ext } else { &out });
            }
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
