// MIR dumper: a rustc wrapper (RUSTC_WRAPPER).  For the crates named in MIRDUMP_CRATES it runs
// the compiler with callbacks that write the type-checked, borrow-checked MIR of every body as JSON
// into MIRDUMP_OUT; every other compilation is handed to the real rustc.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::fmt::Write as _;

enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(n),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::Str(k.to_string()).w(o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: impl ToString) -> J {
    J::Str(x.to_string())
}
fn n(x: impl ToString) -> J {
    J::Num(x.to_string())
}

fn id_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

fn ty_head(tcx: TyCtxt<'_>, t: Ty<'_>) -> String {
    match t.kind() {
        TyKind::Adt(a, _) => format!("{}::{}", tcx.crate_name(a.did().krate), tcx.item_name(a.did())),
        TyKind::Ref(_, t, _) => ty_head(tcx, *t),
        TyKind::Slice(_) => "[]".into(),
        TyKind::Array(..) => "[;]".into(),
        TyKind::Tuple(_) => "()".into(),
        TyKind::Param(p) => p.name.to_string(),
        TyKind::Dynamic(preds, ..) => match preds.principal_def_id() {
            Some(d) => format!("dyn {}::{}", tcx.crate_name(d.krate), tcx.item_name(d)),
            None => "dyn".into(),
        },
        _ => format!("{}", t),
    }
}

// crate::Type::method, <crate::Type as crate::Trait>::method, crate::function, ...::{closure}
fn pretty(tcx: TyCtxt<'_>, d: DefId) -> String {
    let krate = tcx.crate_name(d.krate);
    match tcx.def_kind(d) {
        DefKind::AssocFn | DefKind::AssocConst { .. } => {
            let p = tcx.parent(d);
            match tcx.def_kind(p) {
                DefKind::Impl { of_trait } => {
                    let st = ty_head(tcx, tcx.type_of(p).instantiate_identity().skip_norm_wip());
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).skip_binder();
                        format!("<{} as {}::{}>::{}", st, tcx.crate_name(tr.def_id.krate), tcx.item_name(tr.def_id), tcx.item_name(d))
                    } else {
                        format!("{}::{}", st, tcx.item_name(d))
                    }
                }
                _ => format!("{}::{}::{}", krate, tcx.item_name(p), tcx.item_name(d)),
            }
        }
        DefKind::Closure => format!("{}::{{closure}}", pretty(tcx, tcx.parent(d))),
        DefKind::Ctor(..) => format!("{}::{{ctor}}", pretty(tcx, tcx.parent(d))),
        DefKind::AnonConst => format!("{}::{{const}}", pretty(tcx, tcx.parent(d))),
        _ => match tcx.opt_item_name(d) {
            Some(nm) => {
                if let Some(p) = tcx.opt_parent(d) {
                    if tcx.def_kind(p) == DefKind::Enum {
                        return format!("{}::{}::{}", krate, tcx.item_name(p), nm);
                    }
                }
                format!("{}::{}", krate, nm)
            }
            None => id_of(tcx, d),
        },
    }
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> D<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::Arr(vec![s(f), n(lo.line), n(lo.col.0 + 1)])
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        s(format!("{}", t))
    }
    fn tyk(&self, t: Ty<'tcx>) -> J {
        // structured: [head, args...]
        match t.kind() {
            TyKind::Ref(_, t, m) => J::Arr(vec![s(if m.is_mut() { "&mut" } else { "&" }), self.tyk(*t)]),
            TyKind::Adt(a, args) => {
                let mut v = vec![s(format!("{}::{}", self.tcx.crate_name(a.did().krate), self.tcx.item_name(a.did())))];
                for x in args.types() {
                    v.push(self.tyk(x));
                }
                J::Arr(v)
            }
            TyKind::Tuple(ts) => {
                let mut v = vec![s("()")];
                for x in ts.iter() {
                    v.push(self.tyk(x));
                }
                J::Arr(v)
            }
            TyKind::Slice(t) => J::Arr(vec![s("[]"), self.tyk(*t)]),
            TyKind::Array(t, _) => J::Arr(vec![s("[;]"), self.tyk(*t)]),
            TyKind::Closure(d, _) => J::Arr(vec![s("closure"), s(id_of(self.tcx, *d))]),
            TyKind::FnDef(d, _) => J::Arr(vec![s("fndef"), s(id_of(self.tcx, *d))]),
            _ => J::Arr(vec![s(ty_head(self.tcx, t))]),
        }
    }
    fn place(&self, b: &Body<'tcx>, p: Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pt = PlaceTy::from_ty(b.local_decls[p.local].ty);
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let nm = match pt.ty.kind() {
                        TyKind::Adt(a, _) if a.is_box() || matches!(tcx.item_name(a.did()).as_str(), "Unique" | "NonNull" | "MaybeUninit" | "ManuallyDrop" | "MaybeDangling") && !tcx.crate_name(a.did().krate).as_str().starts_with("lapex") => {
                            v.push(s("box"));
                            pt = pt.projection_ty(tcx, e);
                            continue;
                        }
                        TyKind::Adt(a, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            a.variant(vi).fields[f].name.to_string()
                        }
                        _ => format!("{}", f.index()),
                    };
                    J::Arr(vec![s("f"), s(nm), n(f.index())])
                }
                ProjectionElem::Index(l) => J::Arr(vec![s("i"), n(l.index())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::Arr(vec![s("ci"), n(offset), J::Bool(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![s("ss"), n(from), n(to), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(_, vi) => {
                    let nm = match pt.ty.kind() {
                        TyKind::Adt(a, _) => a.variant(vi).name.to_string(),
                        _ => format!("{}", vi.index()),
                    };
                    J::Arr(vec![s("d"), s(nm)])
                }
                _ => s("?"),
            });
            pt = pt.projection_ty(tcx, e);
        }
        J::Arr(vec![n(p.local.index()), J::Arr(v)])
    }
    fn fnref(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut o = vec![("id", s(id_of(tcx, d))), ("name", s(pretty(tcx, d)))];
        let targs: Vec<J> = args.types().map(|t| self.tyk(t)).collect();
        o.push(("targs", J::Arr(targs)));
        let cargs: Vec<J> = args.consts().map(|c| s(format!("{}", c))).collect();
        if !cargs.is_empty() {
            o.push(("cargs", J::Arr(cargs)));
        }
        if let Some(p) = tcx.opt_parent(d) {
            if tcx.def_kind(p) == DefKind::Trait {
                o.push(("trait", s(format!("{}::{}", tcx.crate_name(p.krate), tcx.item_name(p)))));
                if args.types().next().is_some() {
                    o.push(("selfty", self.tyk(args.type_at(0))));
                }
            } else if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                o.push(("selfty", self.tyk(tcx.type_of(p).instantiate_identity().skip_norm_wip())));
                if of_trait {
                    let tr = tcx.impl_trait_ref(p).skip_binder();
                    o.push(("implof", s(format!("{}::{}", tcx.crate_name(tr.def_id.krate), tcx.item_name(tr.def_id)))));
                    o.push(("derived", s(format!("{}", tcx.is_automatically_derived(p)))));
                }
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
                let rd = inst.def_id();
                if rd != d {
                    o.push(("rid", s(id_of(tcx, rd))));
                    o.push(("rname", s(pretty(tcx, rd))));
                    o.push(("rtargs", J::Arr(inst.args.types().map(|t| self.tyk(t)).collect())));
                    let rc: Vec<J> = inst.args.consts().map(|c| s(format!("{}", c))).collect();
                    if !rc.is_empty() {
                        o.push(("rcargs", J::Arr(rc)));
                    }
                }
            }
        } else if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let p = tcx.parent(d);
            o.push(("ctor", s(id_of(tcx, p))));
            let (adt, var) = match tcx.def_kind(p) {
                DefKind::Variant => (tcx.parent(p), tcx.item_name(p).to_string()),
                _ => (p, tcx.item_name(p).to_string()),
            };
            o.push(("adt", s(format!("{}::{}", tcx.crate_name(adt.krate), tcx.item_name(adt)))));
            o.push(("variant", s(var)));
        }
        o
    }
    fn bytes_json(b: &[u8]) -> J {
        let mut h = String::new();
        for x in b {
            let _ = write!(h, "{:02x}", x);
        }
        J::Str(h)
    }
    fn constant(&self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o: Vec<(&'static str, J)> = vec![("ty", self.tyk(t))];
        if let TyKind::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            o.push(("fn", J::Obj(self.fnref(*d, args))));
            return J::Obj(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", n(p.index())));
                o.push(("of", s(id_of(tcx, u.def))));
                return J::Obj(o);
            }
            o.push(("item", s(pretty(tcx, u.def))));
            o.push(("itemid", s(id_of(tcx, u.def))));
        }
        if let Const::Ty(_, ct) = c.const_ {
            o.push(("cparam", s(format!("{}", ct))));
        }
        match c.const_.eval(tcx, self.env, c.span) {
            Ok(v) => match v {
                ConstValue::ZeroSized => o.push(("zst", J::Bool(true))),
                ConstValue::Scalar(Scalar::Int(i)) => {
                    let sz = i.size();
                    if t.is_bool() {
                        o.push(("bool", J::Bool(i.to_bits(sz) != 0)));
                    } else if t.is_signed() {
                        o.push(("int", s(i.to_int(sz))));
                    } else if t.is_char() {
                        o.push(("char", n(i.to_bits(sz))));
                    } else {
                        o.push(("int", s(i.to_bits(sz))));
                        if let TyKind::Adt(a, _) = t.kind() {
                            if a.is_enum() {
                                for (vi, d) in a.discriminants(tcx) {
                                    if d.val == i.to_bits(sz) {
                                        o.push(("variant", s(a.variant(vi).name)));
                                    }
                                }
                            }
                        }
                    }
                }
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Memory(a) => {
                            let a = a.inner();
                            let st = off.bytes() as usize;
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(st..a.len());
                            if b.len() <= 1 << 18 {
                                o.push(("ptrbytes", Self::bytes_json(b)));
                            }
                        }
                        GlobalAlloc::Static(d) => o.push(("static", s(pretty(tcx, d)))),
                        GlobalAlloc::Function { instance } => {
                            o.push(("fnptr", s(pretty(tcx, instance.def_id()))))
                        }
                        _ => {}
                    }
                }
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        match t.kind() {
                            TyKind::Ref(_, it, _) if it.is_str() => {
                                o.push(("str", s(String::from_utf8_lossy(b))))
                            }
                            _ => o.push(("bytes", Self::bytes_json(b))),
                        }
                    }
                }
                ConstValue::Indirect { .. } => {
                    if let TyKind::Ref(_, it, _) = t.kind() {
                        if it.is_str() {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                o.push(("str", s(String::from_utf8_lossy(b))));
                            }
                        }
                    }
                    o.push(("indirect", J::Bool(true)));
                }
            },
            Err(_) => {
                o.push(("uneval", s(format!("{:?}", c.const_))));
            }
        }
        J::Obj(o)
    }
    fn op(&self, b: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![s("copy"), self.place(b, *p)]),
            Operand::Move(p) => J::Arr(vec![s("move"), self.place(b, *p)]),
            Operand::Constant(c) => J::Arr(vec![s("const"), self.constant(c)]),
            _ => J::Arr(vec![s("rtcheck")]),
        }
    }
    fn rv(&self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::Arr(vec![s("use"), self.op(b, o)]),
            Rvalue::Repeat(o, c) => J::Arr(vec![s("repeat"), self.op(b, o), s(format!("{}", c))]),
            Rvalue::Ref(_, k, p) => J::Arr(vec![
                s("ref"),
                s(match k {
                    BorrowKind::Mut { .. } => "mut",
                    _ => "shared",
                }),
                self.place(b, *p),
            ]),
            Rvalue::Reborrow(_, m, p) => {
                J::Arr(vec![s("reborrow"), s(if m.is_mut() { "mut" } else { "shared" }), self.place(b, *p)])
            }
            Rvalue::RawPtr(_, p) => J::Arr(vec![s("ref"), s("raw"), self.place(b, *p)]),
            Rvalue::Cast(k, o, t) => J::Arr(vec![
                s("cast"),
                s(format!("{:?}", k)),
                self.op(b, o),
                self.tyk(*t),
                self.tyk(o.ty(&b.local_decls, tcx)),
            ]),
            Rvalue::BinaryOp(op, x) => {
                J::Arr(vec![s("bin"), s(format!("{:?}", op)), self.op(b, &x.0), self.op(b, &x.1), self.tyk(x.0.ty(&b.local_decls, tcx))])
            }
            Rvalue::UnaryOp(op, x) => J::Arr(vec![s("un"), s(format!("{:?}", op)), self.op(b, x)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, tcx).ty;
                J::Arr(vec![s("discr"), self.place(b, *p), self.tyk(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.op(b, o)).collect();
                let kind = match &**k {
                    AggregateKind::Array(t) => J::Arr(vec![s("array"), self.tyk(*t)]),
                    AggregateKind::Tuple => J::Arr(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let a = tcx.adt_def(*d);
                        let v = a.variant(*vi);
                        let fields: Vec<J> = match active {
                            Some(f) => vec![s(v.fields[*f].name)],
                            None => v.fields.iter().map(|f| s(f.name)).collect(),
                        };
                        J::Arr(vec![
                            s("adt"),
                            s(format!("{}::{}", tcx.crate_name(d.krate), tcx.item_name(*d))),
                            s(v.name),
                            J::Arr(fields),
                            J::Bool(a.is_enum()),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::Arr(vec![s("closure"), s(id_of(tcx, *d))]),
                    _ => J::Arr(vec![s("other")]),
                };
                J::Arr(vec![s("agg"), kind, J::Arr(ops)])
            }
            Rvalue::CopyForDeref(p) => J::Arr(vec![s("use"), J::Arr(vec![s("copy"), self.place(b, *p)])]),
            _ => J::Arr(vec![s("other"), s(format!("{:?}", r))]),
        }
    }
    fn body(&self, b: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut names: Vec<Option<String>> = vec![None; b.local_decls.len()];
        let mut upv: Vec<J> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.index()] = Some(v.name.to_string());
                } else {
                    upv.push(J::Arr(vec![s(v.name), self.place(b, p)]));
                }
            }
        }
        let locals: Vec<J> = b
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                J::Arr(vec![
                    self.tyk(d.ty),
                    match &names[l.index()] {
                        Some(x) => s(x),
                        None => J::Null,
                    },
                    self.ty(d.ty),
                ])
            })
            .collect();
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(bx) => st.push(J::Arr(vec![
                        s("="),
                        self.place(b, bx.0),
                        self.rv(b, &bx.1),
                        self.span(x.source_info.span),
                    ])),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::Arr(vec![
                        s("setd"),
                        self.place(b, **place),
                        n(variant_index.index()),
                    ])),
                    StatementKind::StorageDead(l) => st.push(J::Arr(vec![s("dead"), n(l.index())])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let mut o: Vec<(&'static str, J)> = vec![("span", self.span(t.source_info.span))];
            if let Some(m) = t.source_info.span.macro_backtrace().last() {
                o.push(("mac", s(m.kind.descr())));
            }
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("to", n(target.index())));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k", s("switch")));
                    o.push(("op", self.op(b, discr)));
                    o.push(("ty", self.tyk(discr.ty(&b.local_decls, tcx))));
                    o.push((
                        "targets",
                        J::Arr(targets.iter().map(|(v, t)| J::Arr(vec![s(v), n(t.index())])).collect()),
                    ));
                    o.push(("otherwise", n(targets.otherwise().index())));
                }
                TerminatorKind::Return => o.push(("k", s("return"))),
                TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
                TerminatorKind::Drop { place, target, .. } => {
                    o.push(("k", s("drop")));
                    o.push(("place", self.place(b, *place)));
                    o.push(("pty", self.tyk(place.ty(&b.local_decls, tcx).ty)));
                    o.push(("to", n(target.index())));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    o.push(("k", s("call")));
                    o.push(("func", self.op(b, func)));
                    o.push(("args", J::Arr(args.iter().map(|a| self.op(b, &a.node)).collect())));
                    o.push(("dest", self.place(b, *destination)));
                    o.push((
                        "to",
                        match target {
                            Some(t) => n(t.index()),
                            None => J::Null,
                        },
                    ));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    o.push(("k", s("assert")));
                    o.push(("op", self.op(b, cond)));
                    o.push(("expected", J::Bool(*expected)));
                    o.push(("msg", s(match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds",
                        mir::AssertKind::Overflow(..) => "overflow",
                        mir::AssertKind::OverflowNeg(..) => "overflow",
                        mir::AssertKind::DivisionByZero(..) => "div0",
                        mir::AssertKind::RemainderByZero(..) => "rem0",
                        _ => "other",
                    })));
                    o.push(("to", n(target.index())));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("to", n(real_target.index())));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("to", n(real_target.index())));
                }
                _ => o.push(("k", s("unwind"))),
            }
            blocks.push(J::Obj(vec![
                ("cleanup", J::Bool(bb.is_cleanup)),
                ("s", J::Arr(st)),
                ("t", J::Obj(o)),
            ]));
        }
        vec![
            ("argc", n(b.arg_count)),
            ("locals", J::Arr(locals)),
            ("upvars", J::Arr(upv)),
            ("blocks", J::Arr(blocks)),
            ("span", self.span(b.span)),
        ]
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.cg.overflow_checks = Some(false);
        c.opts.cg.debug_assertions = Some(false);
        c.opts.debug_assertions = false;
        c.opts.unstable_opts.ub_checks = Some(false);
        c.opts.cg.incremental = None;
        c.opts.incremental = None;
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let mut bodies = vec![];
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            if matches!(kind, DefKind::Ctor(..)) {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, d);
            let dd = D { tcx, env };
            let (body, kn) = match kind {
                DefKind::Fn | DefKind::AssocFn => (tcx.optimized_mir(d), "fn"),
                DefKind::Closure => (tcx.optimized_mir(d), "closure"),
                _ => (tcx.mir_for_ctfe(d), "const"),
            };
            let mut o = vec![
                ("id", s(id_of(tcx, d))),
                ("name", s(pretty(tcx, d))),
                ("kind", s(kn)),
            ];
            if kn == "fn" {
                o.push(("vis", s(format!("{:?}", tcx.visibility(d).is_public()))));
                if let Some(p) = tcx.opt_parent(d) {
                    if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                        o.push(("selfty", dd.tyk(tcx.type_of(p).instantiate_identity().skip_norm_wip())));
                        if of_trait {
                            let tr = tcx.impl_trait_ref(p).skip_binder();
                            o.push(("implof", s(format!("{}::{}", tcx.crate_name(tr.def_id.krate), tcx.item_name(tr.def_id)))));
                            o.push(("derived", s(format!("{}", tcx.is_automatically_derived(p)))));
                        }
                    } else if tcx.def_kind(p) == DefKind::Trait {
                        o.push(("trait", s(format!("{}::{}", tcx.crate_name(p.krate), tcx.item_name(p)))));
                    }
                }
            }
            let gen: Vec<J> = {
                let g = tcx.generics_of(d);
                (0..g.count()).map(|i| s(g.param_at(i, tcx).name)).collect()
            };
            o.push(("generics", J::Arr(gen)));
            o.extend(dd.body(body));
            if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. }) {
                let pr: Vec<J> = tcx.promoted_mir(d).iter().map(|b| J::Obj(dd.body(b))).collect();
                o.push(("promoted", J::Arr(pr)));
            }
            bodies.push(J::Obj(o));
        }
        // ADTs
        let mut adts = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut add = |d: DefId, adts: &mut Vec<J>| {
            if !seen.insert(d) {
                return;
            }
            let a = tcx.adt_def(d);
            let dd = D { tcx, env: TypingEnv::post_analysis(tcx, d) };
            let mut vs = vec![];
            if a.is_enum() {
                for (vi, dis) in a.discriminants(tcx) {
                    let v = a.variant(vi);
                    vs.push(J::Obj(vec![
                        ("name", s(v.name)),
                        ("discr", s(dis.val)),
                        (
                            "fields",
                            J::Arr(
                                v.fields
                                    .iter()
                                    .map(|f| {
                                        J::Arr(vec![
                                            s(f.name),
                                            dd.tyk(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()),
                                        ])
                                    })
                                    .collect(),
                            ),
                        ),
                    ]));
                }
            } else {
                for v in a.variants() {
                    vs.push(J::Obj(vec![
                        ("name", s(v.name)),
                        ("discr", s("0")),
                        (
                            "fields",
                            J::Arr(
                                v.fields
                                    .iter()
                                    .map(|f| {
                                        J::Arr(vec![
                                            s(f.name),
                                            dd.tyk(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()),
                                        ])
                                    })
                                    .collect(),
                            ),
                        ),
                    ]));
                }
            }
            adts.push(J::Obj(vec![
                ("name", s(format!("{}::{}", tcx.crate_name(d.krate), tcx.item_name(d)))),
                ("id", s(id_of(tcx, d))),
                ("enum", J::Bool(a.is_enum())),
                ("local", J::Bool(d.is_local())),
                ("variants", J::Arr(vs)),
            ]));
        };
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                add(d, &mut adts);
            }
        }
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let body = match kind {
                DefKind::Ctor(..) => continue,
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(d),
                _ => tcx.mir_for_ctfe(d),
            };
            for bb in body.basic_blocks.iter() {
                for st in &bb.statements {
                    if let StatementKind::Assign(b) = &st.kind {
                        if let Rvalue::Discriminant(p) = &b.1 {
                            if let TyKind::Adt(a, _) = p.ty(&body.local_decls, tcx).ty.kind() {
                                add(a.did(), &mut adts);
                            }
                        }
                    }
                }
            }
        }
        let j = J::Obj(vec![
            ("crate", s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE))),
            ("adts", J::Arr(adts)),
            ("bodies", J::Arr(bodies)),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        std::fs::write(&tmp, o).unwrap();
        std::fs::rename(&tmp, &self.out).unwrap();
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut raw: Vec<String> = std::env::args().skip(1).collect();
    // rustix's build script asks the nightly compiler for rustc_attrs; this nightly no longer accepts it.
    let mut args: Vec<String> = vec![];
    let mut i = 0;
    while i < raw.len() {
        if raw[i] == "--cfg" && i + 1 < raw.len() && raw[i + 1] == "rustc_attrs" {
            i += 2;
            continue;
        }
        args.push(std::mem::take(&mut raw[i]));
        i += 1;
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let wanted = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let hit = match &name {
        Some(nm) => !is_test && (wanted.split(',').any(|w| w == nm)),
        None => false,
    };
    if !hit {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    let nm = name.unwrap();
    let out = format!("{}/{}.json", std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT"), nm);
    let mut cb = Cb { out };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
