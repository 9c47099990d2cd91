// rustc_private driver: dumps the type-checked MIR of the local crate as JSON.
// Used as RUSTC_WORKSPACE_WRAPPER; active only for the crate named in KDUMP_CRATE.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_hir::intravisit::{self, Visitor};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(String),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn n<T: std::fmt::Display>(x: T) -> J {
    J::N(x.to_string())
}
fn esc(o: &mut String, x: &str) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(x) => o.push_str(x),
            J::S(x) => esc(o, x),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}
fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    // unique, stable across runs of one source
    let dp = tcx.def_path(d);
    format!("{}{}", tcx.crate_name(d.krate), dp.to_string_no_crate_verbose())
}
fn span(tcx: TyCtxt<'_>, sp: Span) -> J {
    let sm = tcx.sess.source_map();
    let exp = sp.from_expansion();
    let root = sp.source_callsite();
    let lo = sm.lookup_char_pos(root.lo());
    let file = format!("{}", lo.file.name.prefer_local_unconditionally());
    J::A(vec![s(file), n(lo.line), n(lo.col.0 + 1), J::B(exp)])
}

fn generic_args<'tcx>(tcx: TyCtxt<'tcx>, args: ty::GenericArgsRef<'tcx>) -> J {
    J::A(
        args.iter()
            .filter_map(|a| match a.kind() {
                GenericArgKind::Lifetime(_) => None,
                GenericArgKind::Type(t) => Some(ty_j(tcx, t)),
                GenericArgKind::Const(c) => Some(J::O(vec![("const", cst(tcx, c))])),
                #[allow(unreachable_patterns)]
                _ => None,
            })
            .collect(),
    )
}
fn cst<'tcx>(tcx: TyCtxt<'tcx>, c: ty::Const<'tcx>) -> J {
    match c.kind() {
        ty::ConstKind::Param(p) => J::O(vec![("param", s(p.name.as_str()))]),
        ty::ConstKind::Value(v) => match v.try_to_target_usize(tcx) {
            Some(x) => n(x),
            None => s(format!("{}", c)),
        },
        _ => s(format!("{}", c)),
    }
}
fn ty_j<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> J {
    match t.kind() {
        TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) | TyKind::Str | TyKind::Never => {
            s(t.to_string())
        }
        TyKind::Adt(d, a) => J::O(vec![("adt", s(path(tcx, d.did()))), ("args", generic_args(tcx, a))]),
        TyKind::Array(e, c) => J::O(vec![("arr", ty_j(tcx, *e)), ("len", cst(tcx, *c))]),
        TyKind::Slice(e) => J::O(vec![("slice", ty_j(tcx, *e))]),
        TyKind::Ref(_, e, m) => J::O(vec![("ref", ty_j(tcx, *e)), ("mut", J::B(m.is_mut()))]),
        TyKind::RawPtr(e, _) => J::O(vec![("ptr", ty_j(tcx, *e))]),
        TyKind::Tuple(ts) => J::O(vec![("tup", J::A(ts.iter().map(|x| ty_j(tcx, x)).collect()))]),
        TyKind::Param(p) => J::O(vec![("param", s(p.name.as_str()))]),
        TyKind::Closure(d, _) => J::O(vec![("closure", s(key(tcx, *d)))]),
        TyKind::FnDef(..) | TyKind::FnPtr(..) => J::O(vec![("fnty", s(with_no_trimmed_paths!(t.to_string())))]),
        TyKind::Dynamic(..) => J::O(vec![("dyn", s(with_no_trimmed_paths!(t.to_string())))]),
        TyKind::Alias(..) => J::O(vec![("alias", s(with_no_trimmed_paths!(t.to_string())))]),
        _ => J::O(vec![("other", s(with_no_trimmed_paths!(t.to_string())))]),
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    owner: DefId,
}
impl<'tcx> Cx<'tcx> {
    fn place(&self, p: &Place<'tcx>) -> J {
        let pr: Vec<J> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => J::O(vec![("f", n(f.as_usize()))]),
                ProjectionElem::Index(l) => J::O(vec![("ix", n(l.as_usize()))]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::O(vec![("cix", n(offset)), ("end", J::B(from_end))])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::O(vec![("sub", n(from)), ("to", n(to)), ("end", J::B(from_end))])
                }
                ProjectionElem::Downcast(_, v) => J::O(vec![("v", n(v.as_usize()))]),
                _ => s("?"),
            })
            .collect();
        J::A(vec![n(p.local.as_usize()), J::A(pr)])
    }
    fn fnref(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("fn", s(path(tcx, d))), ("key", s(key(tcx, d))), ("args", generic_args(tcx, args))];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, tr))));
            o.push(("name", s(tcx.item_name(d).as_str())));
            let a = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, a) {
                let rd = inst.def_id();
                if rd != d {
                    o.push(("impl", s(path(tcx, rd))));
                    o.push(("implkey", s(key(tcx, rd))));
                    o.push(("implargs", generic_args(tcx, inst.args)));
                }
            }
        } else if let Some(k) = tcx.opt_item_name(d) {
            o.push(("name", s(k.as_str())));
        }
        if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(im).skip_binder();
            o.push(("self", ty_j(tcx, st)));
        }
        if tcx.def_kind(d) == DefKind::Ctor(rustc_hir::def::CtorOf::Variant, rustc_hir::def::CtorKind::Fn)
            || tcx.def_kind(d) == DefKind::Ctor(rustc_hir::def::CtorOf::Struct, rustc_hir::def::CtorKind::Fn)
        {
            let parent = tcx.parent(d);
            let (adt, vi) = if tcx.def_kind(parent) == DefKind::Variant {
                let a = tcx.parent(parent);
                (a, tcx.adt_def(a).variant_index_with_id(parent).as_usize())
            } else {
                (parent, 0)
            };
            o.push(("ctor", s(path(tcx, adt))));
            o.push(("variant", n(vi)));
        }
        o.push(("local", J::B(d.is_local())));
        J::O(o)
    }
    fn fnty(&self, t: Ty<'tcx>) -> Option<J> {
        match t.kind() {
            TyKind::FnDef(d, a) => {
                let a = a.skip_binder();
                let d: DefId = (*d).into();
                Some(self.fnref(d, a))
            }
            _ => None,
        }
    }
    fn constant(&self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("ty", ty_j(tcx, t))];
        if let Some(f) = self.fnty(t) {
            o.push(("c", f));
            return J::O(vec![("const", J::O(o))]);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("def", s(key(tcx, u.def))));
            o.push(("path", s(path(tcx, u.def))));
            if let Some(p) = u.promoted {
                o.push(("promoted", n(p.as_usize())));
            }
        }
        if let Const::Ty(_, cc) = c.const_ {
            if let ty::ConstKind::Param(p) = cc.kind() {
                o.push(("cparam", s(p.name.as_str())));
                return J::O(vec![("const", J::O(o))]);
            }
        }
        let scalar_ty = matches!(
            t.kind(),
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_)
        );
        if scalar_ty {
            if let Some(si) = c.const_.try_eval_scalar_int(tcx, self.env) {
                let sz = si.size();
                let bits = si.to_bits(sz);
                match t.kind() {
                    TyKind::Bool => o.push(("v", n(bits))),
                    TyKind::Int(_) => {
                        let v = sz.sign_extend(bits);
                        o.push(("v", n(v)))
                    }
                    TyKind::Float(ft) => {
                        let v = match ft.bit_width() {
                            64 => format!("{:?}", f64::from_bits(bits as u64)),
                            32 => format!("{:?}", f32::from_bits(bits as u32)),
                            _ => "?".into(),
                        };
                        o.push(("v", s(v)))
                    }
                    _ => o.push(("v", n(bits))),
                }
            }
        } else {
            o.push(("dbg", s(with_no_trimmed_paths!(format!("{}", c.const_)))));
            if let Some(al) = match c.const_ {
                Const::Val(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), _) => {
                    Some(p.provenance.alloc_id())
                }
                _ => None,
            } {
                if let Some(ga) = tcx.try_get_global_alloc(al) {
                    if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = ga {
                        o.push(("static", s(path(tcx, d))));
                        let m = tcx.is_mutable_static(d);
                        o.push(("staticmut", J::B(m)));
                    }
                }
            }
        }
        J::O(vec![("const", J::O(o))])
    }
    fn operand(&self, x: &Operand<'tcx>) -> J {
        match x {
            Operand::Copy(p) => J::O(vec![("cp", self.place(p))]),
            Operand::Move(p) => J::O(vec![("mv", self.place(p))]),
            Operand::Constant(c) => self.constant(c),
            _ => J::O(vec![("rtc", J::Null)]),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(x, _) => J::A(vec![s("use"), self.operand(x)]),
            Rvalue::Repeat(x, c) => J::A(vec![s("repeat"), self.operand(x), cst(tcx, *c)]),
            Rvalue::Ref(_, bk, p) => J::A(vec![
                s("ref"),
                self.place(p),
                J::B(matches!(bk, BorrowKind::Mut { .. })),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(p)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(path(tcx, *d))]),
            Rvalue::Cast(k, x, t) => J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(x), ty_j(tcx, *t)]),
            Rvalue::BinaryOp(b, ab) => {
                J::A(vec![s("bin"), s(format!("{:?}", b)), self.operand(&ab.0), self.operand(&ab.1)])
            }
            Rvalue::UnaryOp(u, x) => J::A(vec![s("un"), s(format!("{:?}", u)), self.operand(x)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("cp", self.place(p))])]),
            Rvalue::Aggregate(k, fs) => {
                let ops = J::A(fs.iter().map(|x| self.operand(x)).collect());
                match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), ops, ty_j(tcx, *t)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple"), ops]),
                    AggregateKind::Adt(d, v, a, _, _) => J::A(vec![
                        s("adt"),
                        ops,
                        s(path(tcx, *d)),
                        n(v.as_usize()),
                        generic_args(tcx, a),
                    ]),
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), ops, s(key(tcx, *d))]),
                    _ => J::A(vec![s("aggother"), ops]),
                }
            }
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("use"), J::O(vec![("cp", self.place(p))])]),
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }
    fn bb(&self, b: BasicBlock) -> J {
        n(b.as_usize())
    }
    fn body(&self, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let locals = J::A(body.local_decls.iter().map(|d| ty_j(tcx, d.ty)).collect());
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name.as_str()), self.place(&p)]));
            }
        }
        let mut blocks = vec![];
        for (_bi, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &b.statements {
                let j = match &x.kind {
                    StatementKind::Assign(a) => {
                        J::A(vec![s("="), self.place(&a.0), self.rvalue(&a.1), span(tcx, x.source_info.span)])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        J::A(vec![s("setdiscr"), self.place(place), n(variant_index.as_usize())])
                    }
                    StatementKind::StorageDead(l) => J::A(vec![s("dead"), n(l.as_usize())]),
                    StatementKind::Intrinsic(i) => J::A(vec![s("intrinsic"), s(format!("{:?}", i))]),
                    _ => continue,
                };
                st.push(j);
            }
            let t = b.terminator();
            let sp = span(tcx, t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), self.bb(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![n(v), self.bb(b)])).collect();
                    let ot = discr.ty(body, tcx);
                    J::A(vec![s("switch"), self.operand(discr), J::A(ts), self.bb(targets.otherwise()), ty_j(tcx, ot), sp])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("unwind")]),
                TerminatorKind::Drop { target, place, .. } => {
                    J::A(vec![s("drop"), self.bb(*target), self.place(place)])
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = format!("{:?}", msg);
                    let kind = m.split('(').next().unwrap_or("").to_string();
                    let full = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow{:?}", op),
                        AssertKind::DivisionByZero(_) => "div0".into(),
                        AssertKind::RemainderByZero(_) => "rem0".into(),
                        _ => kind,
                    };
                    J::A(vec![s("assert"), self.operand(cond), J::B(*expected), self.bb(*target), s(full), sp])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(body, tcx);
                    let f = match self.fnty(ft) {
                        Some(x) => x,
                        None => J::O(vec![("ptr", self.operand(func)), ("ty", ty_j(tcx, ft))]),
                    };
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(args.iter().map(|a| self.operand(&a.node)).collect()),
                        self.place(destination),
                        target.map(|t| self.bb(t)).unwrap_or(J::Null),
                        sp,
                    ])
                }
                other => J::A(vec![s("other"), s(format!("{:?}", other))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("cleanup", J::B(b.is_cleanup))]));
        }
        vec![
            ("argc", n(body.arg_count)),
            ("locals", locals),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("span", span(tcx, body.span)),
            ("spread", match body.spread_arg { Some(l) => n(l.as_usize()), None => J::Null }),
        ]
    }
}

struct UnsafeV<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<J>,
}
impl<'tcx> Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            let own = !b.span.from_expansion()
                || b.span.macro_backtrace().any(|e| e.macro_def_id.map_or(false, |d| d.is_local()));
            let f = path(self.tcx, self.tcx.hir_enclosing_body_owner(b.hir_id).to_def_id());
            self.out.push(J::A(vec![span(self.tcx, b.span), s(format!("{:?}", src)), J::B(own), s(f)]));
        }
        intravisit::walk_block(self, b)
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("KDUMP_OUT") {
            Ok(x) => x,
            Err(_) => return Compilation::Continue,
        };
        let mut bodies = vec![];
        let mut adts = vec![];
        let mut impls = vec![];
        let mut statics = vec![];
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            if matches!(kind, DefKind::GlobalAsm) {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, d);
            let cx = Cx { tcx, env, owner: d };
            let _ = cx.owner;
            let is_const = matches!(
                kind,
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst
            );
            let isctor = matches!(kind, DefKind::Ctor(..));
            let mut o: Vec<(&'static str, J)> = vec![
                ("key", s(key(tcx, d))),
                ("path", s(path(tcx, d))),
                ("kind", s(format!("{:?}", kind))),
            ];
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                o.push(("vis", s(format!("{:?}", tcx.visibility(d).is_public()))));
                let ev = tcx.effective_visibilities(()).is_reachable(ld);
                o.push(("reachable", J::B(ev)));
                let sig = tcx.fn_sig(d).skip_binder();
                o.push(("unsafe", J::B(format!("{:?}", sig).starts_with("unsafe"))));
                let pr: Vec<J> = tcx
                    .generics_of(d)
                    .own_params
                    .iter()
                    .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
                    .map(|p| s(p.name.as_str()))
                    .collect();
                o.push(("generics", J::A(pr)));
                let mut all = vec![];
                let g = tcx.generics_of(d);
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        all.push(s(p.name.as_str()));
                    }
                }
                o.push(("allgenerics", J::A(all)));
                if let Some(im) = tcx.trait_impl_of_assoc(d) {
                    let tr = tcx.impl_trait_ref(im).skip_binder();
                    o.push(("impltrait", s(path(tcx, tr.def_id))));
                    o.push(("implself", ty_j(tcx, tr.self_ty())));
                    o.push(("name", s(tcx.item_name(d).as_str())));
                } else if let Some(im) = tcx.inherent_impl_of_assoc(d) {
                    o.push(("inhself", ty_j(tcx, tcx.type_of(im).skip_binder())));
                    o.push(("name", s(tcx.item_name(d).as_str())));
                } else {
                    o.push(("name", s(tcx.item_name(d).as_str())));
                    if let Some(tr) = tcx.trait_of_assoc(d) {
                        o.push(("deftrait", s(path(tcx, tr))));
                    }
                }
            }
            if matches!(kind, DefKind::Static { .. }) {
                let t = tcx.type_of(d).skip_binder();
                let m = tcx.is_mutable_static(d);
                let fr = t.is_freeze(tcx, env);
                let tl = tcx.is_thread_local_static(d);
                let own = !tcx.def_span(d).from_expansion();
                statics.push(J::A(vec![
                    s(path(tcx, d)),
                    span(tcx, tcx.def_span(d)),
                    ty_j(tcx, t),
                    J::B(m),
                    J::B(fr),
                    J::B(tl),
                    J::B(own),
                    s(format!("{:?}", t)),
                ]));
            }
            o.push(("parent", s(key(tcx, tcx.parent(d)))));
            o.push(("expn", J::B(tcx.def_span(d).from_expansion())));
            if kind == DefKind::Closure {
                let caps: Vec<J> = tcx
                    .closure_captures(ld)
                    .iter()
                    .map(|c| s(format!("{:?}:{}", c.info.capture_kind, c.to_symbol())))
                    .collect();
                o.push(("captures", J::A(caps)));
            }
            if !isctor {
                let body: &mir::Body<'tcx> = if is_const { tcx.mir_for_ctfe(d) } else { tcx.optimized_mir(d) };
                o.extend(cx.body(body));
                let pm = tcx.promoted_mir(d);
                let ps: Vec<J> = pm.iter().map(|b| J::O(cx.body(b))).collect();
                o.push(("promoted", J::A(ps)));
            }
            bodies.push(J::O(o));
        }
        for id in tcx.hir_crate_items(()).free_items() {
            let d = id.owner_id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    let a = tcx.adt_def(d);
                    let vs: Vec<J> = a
                        .variants()
                        .iter()
                        .map(|v| {
                            J::O(vec![
                                ("name", s(v.name.as_str())),
                                (
                                    "fields",
                                    J::A(v.fields.iter().map(|f| J::A(vec![s(f.name.as_str()), ty_j(tcx, tcx.type_of(f.did).skip_binder())])).collect()),
                                ),
                            ])
                        })
                        .collect();
                    adts.push(J::O(vec![("path", s(path(tcx, d))), ("variants", J::A(vs))]));
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(d).skip_binder();
                    let items: Vec<J> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .map(|i| J::A(vec![s(i.opt_name().map(|x| x.as_str().to_string()).unwrap_or_default()), s(key(tcx, i.def_id))]))
                        .collect();
                    impls.push(J::O(vec![
                        ("trait", s(path(tcx, tr.def_id))),
                        ("self", ty_j(tcx, tr.self_ty())),
                        ("items", J::A(items)),
                        ("unsafe", J::B(tcx.impl_trait_header(d).safety.is_unsafe())),
                        ("own", J::B(!tcx.def_span(d).from_expansion())),
                        ("span", span(tcx, tcx.def_span(d))),
                    ]));
                }
                _ => {}
            }
        }
        let mut uv = UnsafeV { tcx, out: vec![] };
        tcx.hir_walk_toplevel_module(&mut uv);
        let j = J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
            ("bodies", J::A(bodies)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("statics", J::A(statics)),
            ("unsafe", J::A(uv.out)),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        std::fs::write(&out, o).expect("write dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let code;
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("KDUMP_CRATE").unwrap_or_default();
    let mut it = args.iter();
    let mut name = String::new();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            if let Some(x) = it.next() {
                name = x.clone();
            }
        }
    }
    struct Nop;
    impl Callbacks for Nop {}
    if name == want && !args.iter().any(|a| a == "--test") {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Zinline-mir=no".into());
        args.push("--cap-lints=allow".into());
        code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    } else {
        code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop));
    }
    code
}
