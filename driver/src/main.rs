//! A rustc driver that type-checks the crate under analysis with the real
//! build's flags and writes its MIR (resolved callees, constants, types) as
//! JSON.  It is injected with RUSTC_WORKSPACE_WRAPPER, so argv is
//! `mirdump <rustc> <rustc args...>`.  Nothing of the crate is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    tys: Vec<J>,
    adts: BTreeMap<String, J>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(
            self.tcx.def_path_str(d)
        ))
    }
    /// Path with the source crate and disambiguators: unique per definition.
    fn upath(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d);
        format!("{}{}", self.tcx.crate_name(p.krate), p.to_string_no_crate_verbose())
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let exp = sp.from_expansion();
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        J::A(vec![
            s(loc.file.name.prefer_remapped_unconditionally()),
            J::I(loc.line as i128),
            J::B(exp),
        ])
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.ty_ids.get(&t) {
            return J::I(*i as i128);
        }
        let id = self.tys.len();
        self.ty_ids.insert(t, id);
        self.tys.push(J::Null);
        let st = ty::print::with_no_trimmed_paths!(format!("{}", t));
        let mut o: Vec<(&'static str, J)> = vec![("s", J::S(st))];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("def", J::S(self.path(def.did()))));
                let mut a = vec![];
                for g in args.iter() {
                    if let Some(t) = g.as_type() {
                        a.push(self.ty(t));
                    }
                }
                o.push(("args", J::A(a)));
                self.adt(*def);
            }
            ty::Ref(_, t, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*t);
                o.push(("args", J::A(vec![x])));
            }
            ty::RawPtr(t, _) => {
                o.push(("k", s("ptr")));
                let x = self.ty(*t);
                o.push(("args", J::A(vec![x])));
            }
            ty::Slice(t) | ty::Array(t, _) => {
                o.push(("k", s("seq")));
                let x = self.ty(*t);
                o.push(("args", J::A(vec![x])));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let mut a = vec![];
                for t in ts.iter() {
                    a.push(self.ty(t));
                }
                o.push(("args", J::A(a)));
            }
            ty::Closure(d, _) => {
                o.push(("k", s("closure")));
                o.push(("def", J::S(self.upath(*d))));
            }
            ty::FnDef(d, _) => {
                o.push(("k", s("fndef")));
                o.push(("def", J::S(self.path(*d))));
            }
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => o.push(("k", s("prim"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            _ => o.push(("k", s("other"))),
        }
        self.tys[id] = J::O(o);
        J::I(id as i128)
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let p = self.path(def.did());
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), J::Null);
        let mut vs = vec![];
        for (i, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                def.discriminant_for_variant(self.tcx, i).val as i128
            } else {
                0
            };
            let mut fs = vec![];
            let local = def.did().is_local();
            for f in v.fields.iter() {
                let t = if local {
                    self.ty(self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip())
                } else {
                    J::Null
                };
                fs.push(J::A(vec![
                    s(f.name),
                    t,
                    J::B(f.vis.is_public()),
                ]));
            }
            vs.push(J::O(vec![("name", s(v.name)), ("discr", J::I(discr)), ("fields", J::A(fs))]));
        }
        self.adts.insert(
            p,
            J::O(vec![
                ("enum", J::B(def.is_enum())),
                ("local", J::B(def.did().is_local())),
                ("variants", J::A(vs)),
            ]),
        );
    }
    fn alloc_bytes(&self, id: interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => Some(
                a.inner()
                    .inspect_with_uninit_and_ptr_outside_interpreter(off..off + len)
                    .to_vec(),
            ),
            _ => None,
        }
    }
    fn bytes(b: &[u8]) -> J {
        match std::str::from_utf8(b) {
            Ok(x) => J::O(vec![("str", s(x))]),
            Err(_) => J::O(vec![("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect()))]),
        }
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                if let Some(si) = v.try_to_scalar_int() {
                    let val = match t.kind() {
                        ty::Int(_) => si.to_int(si.size()),
                        _ => si.to_uint(si.size()) as i128,
                    };
                    if val > i64::MAX as i128 {
                        return J::O(vec![("big", s(val))]);
                    }
                    return J::O(vec![("int", J::I(val))]);
                }
                J::O(vec![("unk", s("scalar"))])
            }
            ty::Ref(_, inner, _) => match (v, inner.kind()) {
                (ConstValue::Slice { alloc_id, meta }, ty::Str) => {
                    match self.alloc_bytes(alloc_id, 0, meta as usize) {
                        Some(b) => Self::bytes(&b),
                        None => J::O(vec![("unk", s("slice"))]),
                    }
                }
                (ConstValue::Slice { alloc_id, meta }, ty::Slice(e)) if *e == tcx.types.u8 => {
                    match self.alloc_bytes(alloc_id, 0, meta as usize) {
                        Some(b) => J::O(vec![(
                            "bytes",
                            J::A(b.iter().map(|x| J::I(*x as i128)).collect()),
                        )]),
                        None => J::O(vec![("unk", s("slice"))]),
                    }
                }
                (ConstValue::Scalar(Scalar::Ptr(p, _)), ty::Array(e, n)) if *e == tcx.types.u8 => {
                    let (prov, off) = p.prov_and_relative_offset();
                    let n = n.try_to_target_usize(tcx).unwrap_or(0) as usize;
                    match self.alloc_bytes(prov.alloc_id(), off.bytes_usize(), n) {
                        Some(b) => J::O(vec![(
                            "bytes",
                            J::A(b.iter().map(|x| J::I(*x as i128)).collect()),
                        )]),
                        None => J::O(vec![("unk", s("bytes"))]),
                    }
                }
                (ConstValue::Scalar(Scalar::Ptr(p, _)), k)
                    if !matches!(k, ty::Str | ty::Slice(_) | ty::Dynamic(..)) =>
                {
                    let (prov, off) = p.prov_and_relative_offset();
                    let x = self.cval(
                        ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off },
                        *inner,
                    );
                    J::O(vec![("ref", x)])
                }
                (ConstValue::Indirect { .. }, _) => J::O(vec![("unk", s("indirect ref"))]),
                _ => J::O(vec![("unk", s("ref"))]),
            },
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_union() {
                        return J::O(vec![("unk", s("union"))]);
                    }
                }
                // std types with private pointers inside are not destructured
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let mut fs = vec![];
                        for (fv, ft) in d.fields.iter() {
                            fs.push(self.cval(*fv, *ft));
                        }
                        let var = d.variant.map(|v| v.as_u32() as i128).unwrap_or(0);
                        let tj = self.ty(t);
                        J::O(vec![("agg", J::A(fs)), ("variant", J::I(var)), ("ty", tj)])
                    }
                    None => J::O(vec![("unk", s("adt"))]),
                }
            }
            ty::FnDef(d, _) => J::O(vec![("fn", J::S(self.path(*d)))]),
            ty::Closure(d, _) => J::O(vec![("closure", J::S(self.upath(*d)))]),
            _ => J::O(vec![("unk", s("kind"))]),
        }
    }
    fn konst(&mut self, owner: DefId, c: &Const<'tcx>) -> J {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        let t = c.ty();
        let tj = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            return self.fnref(owner, *d, args.skip_binder());
        }
        let mut named = J::Null;
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let pb = self.upath(u.def);
                return J::O(vec![("promoted", J::I(p.as_u32() as i128)), ("of", J::S(pb)), ("ty", tj)]);
            }
            named = J::S(self.path(u.def));
        }
        let v = match c.eval(tcx, env, rustc_span::DUMMY_SP) {
            Ok(v) => self.cval(v, t),
            Err(_) => J::O(vec![("unk", s("uneval"))]),
        };
        J::O(vec![("v", v), ("ty", tj), ("named", named)])
    }
    fn fnref(&mut self, owner: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        let mut o = vec![("fn", J::S(self.path(d)))];
        let mut a = vec![];
        for g in args.iter() {
            if let Some(t) = g.as_type() {
                a.push(self.ty(t));
            }
        }
        o.push(("targs", J::A(a)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(self.path(tr))));
            o.push(("method", s(tcx.item_name(d))));
        }
        if tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
            o.push(("unsafe", J::B(true)));
        }
        let ctor = matches!(tcx.def_kind(d), DefKind::Ctor(..));
        if ctor {
            o.push(("ctor", J::B(true)));
            let p = tcx.parent(d);
            // tuple-struct ctor: parent is the struct or the variant
            if tcx.def_kind(p) == DefKind::Variant {
                let adt = tcx.adt_def(tcx.parent(p));
                let vi = adt.variant_index_with_id(p);
                o.push(("adt", J::S(self.path(adt.did()))));
                o.push(("variant", J::I(vi.as_u32() as i128)));
                self.adt(adt);
            } else {
                let adt = tcx.adt_def(p);
                o.push(("adt", J::S(self.path(p))));
                o.push(("variant", J::I(0)));
                self.adt(adt);
            }
        } else {
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
                let id = inst.def_id();
                o.push(("inst", J::S(self.upath(id))));
                o.push(("instp", J::S(self.path(id))));
                o.push(("local", J::B(id.is_local())));
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                o.push(("ikind", s(kind)));
            } else {
                o.push(("local", J::B(d.is_local())));
            }
        }
        J::O(o)
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::O(vec![("f", J::I(f.as_u32() as i128)), ("t", t)])
                }
                ProjectionElem::Index(l) => J::O(vec![("idx", J::I(l.as_u32() as i128))]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::O(vec![("ci", J::I(offset as i128)), ("end", J::B(from_end))])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::O(vec![
                    ("sub", J::A(vec![J::I(from as i128), J::I(to as i128)])),
                    ("end", J::B(from_end)),
                ]),
                ProjectionElem::Downcast(_, v) => J::O(vec![("v", J::I(v.as_u32() as i128))]),
                _ => s("?"),
            });
        }
        J::A(vec![J::I(p.local.as_u32() as i128), J::A(pr)])
    }
    fn op(&mut self, owner: DefId, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("c", self.place(p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(p))]),
            Operand::Constant(c) => J::O(vec![("k", self.konst(owner, &c.const_))]),
            _ => J::O(vec![("k", J::O(vec![("v", J::O(vec![("int", J::I(0))]))]))]),
        }
    }
    fn rvalue(&mut self, owner: DefId, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(owner, o)]),
            Rvalue::Repeat(o, _) => J::A(vec![s("repeat"), self.op(owner, o)]),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), self.place(p), J::B(m)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(p), J::B(true)]),
            Rvalue::Cast(k, o, t) => {
                let ft = J::S(format!("{:?}", k));
                let o = self.op(owner, o);
                J::A(vec![s("cast"), o, self.ty(*t), ft])
            }
            Rvalue::BinaryOp(b, ops) => {
                let (x, y) = &**ops;
                J::A(vec![s("bin"), s(format!("{:?}", b)), self.op(owner, x), self.op(owner, y)])
            }
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), self.op(owner, o)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::O(vec![("c", self.place(p))])])
            }
            Rvalue::Aggregate(k, fs) => {
                let mut v = vec![];
                for f in fs.iter() {
                    v.push(self.op(owner, f));
                }
                let kk = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let adt = self.tcx.adt_def(*d);
                        self.adt(adt);
                        J::A(vec![s("adt"), J::S(self.path(*d)), J::I(vi.as_u32() as i128)])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), J::S(self.upath(*d))]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kk, J::A(v)])
            }
            _ => J::A(vec![s("other"), J::S(format!("{:?}", r))]),
        }
    }
    fn body(&mut self, owner: DefId, b: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let mut locals = vec![];
        for d in b.local_decls.iter() {
            let t = self.ty(d.ty);
            locals.push(t);
        }
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let p = self.place(p);
                names.push(J::A(vec![s(v.name), p]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        let pj = self.place(p);
                        let rj = self.rvalue(owner, r);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![pj, rj, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![
                            pj,
                            J::A(vec![s("setdiscr"), J::I(variant_index.as_u32() as i128)]),
                            sp,
                        ]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    J::A(vec![s("goto"), J::I(target.as_u32() as i128)])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = vec![];
                    for (val, tgt) in targets.iter() {
                        v.push(J::A(vec![J::I(val as i128), J::I(tgt.as_u32() as i128)]));
                    }
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    J::A(vec![
                        s("switch"),
                        self.op(owner, discr),
                        J::A(v),
                        J::I(targets.otherwise().as_u32() as i128),
                        dt,
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::A(vec![s("resume")])
                }
                TerminatorKind::Drop { target, place, .. } => {
                    let p = self.place(place);
                    J::A(vec![s("drop"), J::I(target.as_u32() as i128), p])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(owner, func);
                    let mut v = vec![];
                    for a in args.iter() {
                        v.push(self.op(owner, &a.node));
                    }
                    let d = self.place(destination);
                    let t = match target {
                        Some(t) => J::I(t.as_u32() as i128),
                        None => J::Null,
                    };
                    J::A(vec![s("call"), f, J::A(v), d, t])
                }
                TerminatorKind::Assert { target, cond, expected, .. } => {
                    let c = self.op(owner, cond);
                    J::A(vec![s("assert"), J::I(target.as_u32() as i128), c, J::B(*expected)])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), J::I(real_target.as_u32() as i128)])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), J::I(real_target.as_u32() as i128)])
                }
                _ => J::A(vec![s("other")]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("sp", sp),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }
        vec![
            ("argc", J::I(b.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ]
    }
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let mut cx = Cx { tcx, ty_ids: HashMap::new(), tys: vec![], adts: BTreeMap::new() };
        let mut fns = vec![];
        let mut statics = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            match kind {
                DefKind::Static { mutability, .. } => {
                    statics.push(J::O(vec![
                        ("path", J::S(cx.path(d))),
                        ("mut", J::B(mutability.is_mut())),
                        ("ty", {
                            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                            cx.ty(t)
                        }),
                        ("span", cx.span(tcx.def_span(d))),
                    ]));
                    continue;
                }
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                _ => continue,
            }
            let up = cx.upath(d);
            // the table-driven half of the generated grammar parser is lalrpop's own code
            let gen = up.contains("::parser::grammar::") && !up.contains("__action");
            if gen {
                continue;
            }
            let b = tcx.optimized_mir(d);
            let mut o = vec![
                ("path", J::S(cx.path(d))),
                ("upath", J::S(up)),
                ("kind", s(format!("{:?}", kind))),
                ("span", cx.span(tcx.def_span(d))),
                ("derived", {
                    let root = tcx.typeck_root_def_id(d);
                    let dv = tcx
                        .impl_of_assoc(root)
                        .map(|i| tcx.is_automatically_derived(i))
                        .unwrap_or(false);
                    J::B(dv)
                }),
            ];
            if let Some(im) = tcx.impl_of_assoc(d) {
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::S(cx.path(tr.def_id))));
                    o.push(("self", {
                        let t = tr.self_ty();
                        cx.ty(t)
                    }));
                } else {
                    let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    o.push(("self", cx.ty(t)));
                }
                o.push(("name", s(tcx.item_name(d))));
            }
            if kind != DefKind::Closure {
                o.push(("vis", J::B(tcx.visibility(d).is_public())));
                o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
            } else {
                let par = tcx.parent(d);
                o.push(("parent", J::S(cx.upath(par))));
            }
            let body = cx.body(d, b);
            o.extend(body);
            let mut pr = vec![];
            for p in tcx.promoted_mir(d).iter() {
                let x = cx.body(d, p);
                pr.push(J::O(x));
            }
            o.push(("promoted", J::A(pr)));
            fns.push(J::O(o));
        }
        // impls of std traits that have no body of their own in this crate (derives have)
        let mut impls = vec![];
        for (tr, ims) in tcx.all_local_trait_impls(()).iter() {
            for im in ims.iter() {
                let t = tcx.type_of(im.to_def_id()).instantiate_identity().skip_norm_wip();
                impls.push(J::O(vec![
                    ("trait", J::S(cx.path(*tr))),
                    ("self", cx.ty(t)),
                    ("derived", J::B(tcx.is_automatically_derived(im.to_def_id()))),
                    ("span", cx.span(tcx.def_span(im.to_def_id()))),
                ]));
            }
        }
        let adts = std::mem::take(&mut cx.adts);
        let tys = std::mem::take(&mut cx.tys);
        let root = J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE))),
            ("fns", J::A(fns)),
            ("statics", J::A(statics)),
            ("impls", J::A(impls)),
            ("types", J::A(tys)),
            ("adts", J::M(adts.into_iter().collect())),
        ]);
        let mut o = String::new();
        root.w(&mut o);
        std::fs::write(&self.out, o).expect("write dump");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // argv[1] is the real rustc (wrapper protocol)
    args.remove(1);
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let mut cb = Cb { out: std::env::var("MIRDUMP_OUT").unwrap_or_default() };
    if crate_name == want && is_lib {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Cdebug-assertions=on".into());
        args.push("-Awarnings".into());
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
