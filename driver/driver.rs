// rustc_private driver: type-checks the crate under analysis with the real compiler front end and
// writes its resolved program (MIR of every local body and of every `core`/`alloc` body reachable
// from it, types, ADT layouts, trait facts, signatures, variances) as JSON to $VP_DUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;
extern crate rustc_type_ir;
extern crate rustc_abi;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J { N, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>), M(Vec<(String, J)>) }
impl J {
    fn s(x: impl Into<String>) -> J { J::S(x.into()) }
    fn u(x: usize) -> J { J::I(x as i128) }
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{}", i); }
            J::S(s) => esc(s, o),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(k, o); o.push(':'); x.w(o); } o.push('}'); }
            J::M(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(k, o); o.push(':'); x.w(o); } o.push('}'); }
        }
    }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyjson: Vec<J>,
    work_tys: VecDeque<(usize, Ty<'tcx>, TypingEnv<'tcx>)>,
    inst_keys: HashMap<Instance<'tcx>, String>,
    work: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    out: BTreeMap<String, J>,
    promoted: VecDeque<(String, Body<'tcx>, TypingEnv<'tcx>)>,
    promoted_keys: HashMap<(DefId, usize, GenericArgsRef<'tcx>), String>,
    cur_env: TypingEnv<'tcx>,
}

fn def_name<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    let krate = tcx.crate_name(d.krate).to_string();
    match tcx.def_kind(d) {
        DefKind::Closure => return format!("{}::{{closure{}}}", def_name(tcx, tcx.parent(d)), tcx.def_key(d).disambiguated_data.disambiguator),
        DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::AssocTy => {
            let p = tcx.parent(d);
            let name = tcx.item_name(d);
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let sn = ty_name(tcx, st);
                if of_trait {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    return format!("<{} as {}>::{}", sn, def_name(tcx, tr.def_id), name);
                }
                return format!("{}::{}", sn, name);
            }
            return format!("{}::{}", def_name(tcx, p), name);
        }
        _ => {}
    }
    if d.is_crate_root() { return krate; }
    match tcx.opt_parent(d) {
        Some(p) => match tcx.opt_item_name(d) {
            Some(n) => match tcx.def_kind(p) {
                DefKind::Impl { .. } => format!("{}::{}", ty_name(tcx, tcx.type_of(p).instantiate_identity().skip_norm_wip()), n),
                _ => format!("{}::{}", def_name(tcx, p), n),
            },
            None => format!("{}::{{anon}}", def_name(tcx, p)),
        },
        None => krate,
    }
}
fn ty_name<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        TyKind::Adt(a, _) => def_name(tcx, a.did()),
        TyKind::RawPtr(_, m) => if m.is_mut() { "mut_ptr".into() } else { "const_ptr".into() },
        TyKind::Ref(_, i, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, ty_name(tcx, *i)),
        TyKind::Slice(_) => "slice".into(),
        TyKind::Array(..) => "array".into(),
        TyKind::Str => "str".into(),
        TyKind::Tuple(_) => "tuple".into(),
        TyKind::Param(p) => format!("param:{}", p.name),
        TyKind::Closure(d, _) => def_name(tcx, *d),
        TyKind::FnDef(d, _) => def_name(tcx, *d),
        TyKind::FnPtr(..) => "fnptr".into(),
        TyKind::Dynamic(..) => "dyn".into(),
        _ => format!("{}", t),
    }
}
fn span_s<'tcx>(tcx: TyCtxt<'tcx>, s: Span) -> String {
    let s = s.source_callsite();
    let lo = tcx.sess.source_map().lookup_char_pos(s.lo());
    let f = format!("{}", lo.file.name.prefer_local_unconditionally());
    format!("{}:{}", f.trim_matches('"'), lo.line)
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.tyjson.len();
        self.tyjson.push(J::N);
        self.tys.insert(t, i);
        self.work_tys.push_back((i, t, self.cur_env));
        i
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let tys: Vec<Ty<'tcx>> = a.types().collect();
        J::A(tys.into_iter().map(|t| J::u(self.ty(t))).collect())
    }
    fn do_ty(&mut self, i: usize, t: Ty<'tcx>) {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(format!("{}", t)))];
        macro_rules! k { ($x:expr) => { o.push(("k", J::s($x))) } }
        match t.kind() {
            TyKind::Bool => k!("bool"),
            TyKind::Char => k!("char"),
            TyKind::Int(x) => { k!("int"); o.push(("n", J::s(x.name_str()))); }
            TyKind::Uint(x) => { k!("int"); o.push(("n", J::s(x.name_str()))); }
            TyKind::Float(x) => { k!("float"); o.push(("n", J::s(x.name_str()))); }
            TyKind::Str => k!("str"),
            TyKind::Never => k!("never"),
            TyKind::Param(p) => { k!("param"); o.push(("n", J::s(p.name.to_string()))); }
            TyKind::Ref(_, x, m) => { k!("ref"); o.push(("m", J::B(m.is_mut()))); let x = self.ty(*x); o.push(("t", J::u(x))); }
            TyKind::RawPtr(x, m) => { k!("ptr"); o.push(("m", J::B(m.is_mut()))); let x = self.ty(*x); o.push(("t", J::u(x))); }
            TyKind::Slice(x) => { k!("slice"); let x = self.ty(*x); o.push(("t", J::u(x))); }
            TyKind::Array(x, n) => { k!("array"); let x = self.ty(*x); o.push(("t", J::u(x))); o.push(("len", J::s(format!("{}", n)))); }
            TyKind::Tuple(ts) => { k!("tuple"); let v: Vec<Ty<'tcx>> = ts.iter().collect(); let v = v.into_iter().map(|x| J::u(self.ty(x))).collect(); o.push(("ts", J::A(v))); }
            TyKind::FnDef(d, a) => {
                k!("fndef"); o.push(("n", J::s(def_name(tcx, *d))));
                let a2 = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                let aj = self.args(a2); o.push(("args", aj));
                let c = self.callee(*d, a2); o.push(("call", c));
            }
            TyKind::FnPtr(..) => k!("fnptr"),
            TyKind::Dynamic(..) => k!("dyn"),
            TyKind::Closure(d, a) => {
                k!("closure"); o.push(("n", J::s(def_name(tcx, *d))));
                let ups: Vec<Ty<'tcx>> = a.as_closure().upvar_tys().iter().collect();
                let v = ups.into_iter().map(|x| J::u(self.ty(x))).collect(); o.push(("ts", J::A(v)));
                let inst = Instance { def: InstanceKind::Item(*d), args: a };
                let key = self.inst(inst, true); o.push(("body", J::s(key)));
                o.push(("ckind", J::s(format!("{:?}", a.as_closure().kind()))));
            }
            TyKind::Adt(def, a) => {
                k!("adt"); o.push(("n", J::s(def_name(tcx, def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                o.push(("ak", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                o.push(("pd", J::B(def.is_phantom_data()))); o.push(("md", J::B(def.is_manually_drop()))); o.push(("box", J::B(def.is_box())));
                let aj = self.args(a); o.push(("args", aj));
                let nm = def_name(tcx, def.did());
                let opaque = !def.did().is_local() && (nm.starts_with("core::fmt") || nm.starts_with("alloc::string") || nm.starts_with("std::"));
                if !opaque {
                    let mut vs = Vec::new();
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = Vec::new();
                        for f in v.fields.iter() {
                            let fty = f.ty(tcx, a).skip_norm_wip();
                            let fty = tcx.try_normalize_erasing_regions(self.cur_env, rustc_middle::ty::Unnormalized::new_wip(fty)).unwrap_or(fty);
                            let ti = self.ty(fty);
                            fs.push(J::A(vec![J::s(f.name.to_string()), J::u(ti)]));
                        }
                        let d = if def.is_enum() { J::I(def.discriminant_for_variant(tcx, vi).val as i128) } else { J::I(0) };
                        vs.push(J::O(vec![("n", J::s(v.name.to_string())), ("d", d), ("f", J::A(fs))]));
                    }
                    o.push(("vs", J::A(vs)));
                }
                if let Some(d) = tcx.adt_destructor(def.did()) {
                    let inst = Instance { def: InstanceKind::Item(d.did), args: a };
                    let key = self.inst(inst, def.did().is_local()); o.push(("drop", J::s(key)));
                }
                o.push(("needs_drop", J::B(t.needs_drop(tcx, self.cur_env))));
            }
            TyKind::Alias(..) => k!("alias"),
            TyKind::Pat(x, _) => { k!("pat"); let x = self.ty(*x); o.push(("t", J::u(x))); }
            _ => k!("other"),
        }
        if !matches!(t.kind(), TyKind::Adt(..)) { o.push(("needs_drop", J::B(t.needs_drop(tcx, self.cur_env)))); }
        if !t.has_escaping_bound_vars() {
            o.push(("copy", J::B(tcx.type_is_copy_modulo_regions(self.cur_env, t))));
        }
        use rustc_type_ir::TypeVisitableExt;
        self.tyjson[i] = J::O(o);
    }
    fn wants_body(&self, inst: &Instance<'tcx>) -> bool {
        let d = inst.def_id();
        if d.is_local() { return true; }
        let n = def_name(self.tcx, d);
        let k = self.tcx.crate_name(d.krate);
        if k.as_str() != "core" && k.as_str() != "alloc" { return false; }
        for bad in ["core::fmt", "core::panicking", "core::str", "core::slice::sort", "core::num::", "core::char", "core::unicode", "core::intrinsics", "core::hash", "core::ub_checks", "core::hint", "alloc::alloc", "alloc::fmt", "alloc::string", "alloc::raw_vec", "alloc::sync", "alloc::rc::", "alloc::rcs", "alloc::vec", "alloc::collections", "alloc::boxed", "alloc::slice", "core::alloc", "core::sync::atomic"] {
            if n.starts_with(bad) || n.starts_with(&format!("<{}", bad)) { return false; }
        }
        true
    }
    fn inst(&mut self, inst: Instance<'tcx>, want: bool) -> String {
        if let Some(k) = self.inst_keys.get(&inst) { return k.clone(); }
        let kind = match inst.def { InstanceKind::Item(_) => "".to_string(), o => format!("{:?}", o).split('(').next().unwrap().to_string() };
        let key = format!("{}#{}{}", def_name(self.tcx, inst.def_id()), self.inst_keys.len(), kind);
        self.inst_keys.insert(inst, key.clone());
        if want { self.work.push_back((inst, self.cur_env)); }
        key
    }
    fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("def", J::s(def_name(tcx, d)))];
        let aj = self.args(a);
        o.push(("args", aj));
        if let Some(tr) = tcx.trait_of_assoc(d) { o.push(("trait", J::s(def_name(tcx, tr)))); }
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) { o.push(("kind", J::s("other"))); return J::O(o); }
        if let DefKind::Ctor(..) = tcx.def_kind(d) { o.push(("kind", J::s("ctor"))); return J::O(o); }
        match Instance::try_resolve(tcx, self.cur_env, d, a) {
            Ok(Some(inst)) => {
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptrshim",
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closureonce",
                    InstanceKind::Shim(ShimKind::DropGlue(..)) => "dropglue",
                    InstanceKind::Shim(ShimKind::Clone(..)) => "cloneshim",
                    _ => "othershim",
                };
                o.push(("kind", J::s(kind)));
                o.push(("res", J::s(def_name(tcx, inst.def_id()))));
                let is_closure = matches!(tcx.def_kind(inst.def_id()), DefKind::Closure);
                o.push(("closure", J::B(is_closure)));
                if kind == "item" {
                    let want = self.wants_body(&inst);
                    let key = self.inst(inst, want);
                    o.push(("key", J::s(key)));
                } else if kind == "fnptrshim" {
                    // call through FnDef: resolve target
                    if let InstanceKind::Shim(ShimKind::FnPtr(_, t)) = inst.def {
                        if let TyKind::FnDef(d2, a2) = t.kind() { let a2 = a2.no_bound_vars().unwrap_or_else(|| a2.skip_binder()); let c = self.callee(*d2, a2); o.push(("target", c)); }
                    }
                } else if kind == "closureonce" {
                    if let InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) = inst.def {
                        let ct = a.type_at(0);
                        if let TyKind::Closure(_, ca) = ct.kind() {
                            let i2 = Instance { def: InstanceKind::Item(closure), args: ca };
                            let key = self.inst(i2, true);
                            o.push(("key", J::s(key)));
                        }
                    }
                }
                let ra = self.args(inst.args);
                o.push(("rargs", ra));
            }
            _ => { o.push(("kind", J::s("unresolved"))); }
        }
        J::O(o)
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = Vec::new();
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![J::s("*")]),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); J::A(vec![J::s("."), J::u(f.index()), J::u(t)]) }
                ProjectionElem::Downcast(_, v) => J::A(vec![J::s("as"), J::u(v.index())]),
                ProjectionElem::Index(l) => J::A(vec![J::s("[]"), J::u(l.index())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![J::s("[c]"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![J::s("[..]"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::OpaqueCast(t) => { let t = self.ty(t); J::A(vec![J::s("cast"), J::u(t)]) }
                ProjectionElem::UnwrapUnsafeBinder(t) => { let t = self.ty(t); J::A(vec![J::s("cast"), J::u(t)]) }
                _ => J::A(vec![J::s("?")]),
            });
        }
        J::A(vec![J::u(p.local.index()), J::A(pr)])
    }
    fn op(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("cp"), self.place(p)]),
            Operand::Move(p) => J::A(vec![J::s("mv"), self.place(p)]),
            Operand::RuntimeChecks(_) => J::A(vec![J::s("rtchk")]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let ti = self.ty(t);
                let mut v = J::N;
                match t.kind() {
                    TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) => {
                        if let Some(b) = c.const_.try_eval_bits(self.tcx, self.cur_env) {
                            v = if let TyKind::Int(it) = t.kind() {
                                let bits = it.bit_width().unwrap_or(64);
                                let sh = 128 - bits as u32;
                                J::I(((b << sh) as i128) >> sh)
                            } else { J::I(b as i128) };
                        }
                    }
                    TyKind::Adt(d, _) if d.is_enum() => {
                        if let Some(b) = c.const_.try_eval_bits(self.tcx, self.cur_env) { v = J::I(b as i128); }
                    }
                    _ => {}
                }
                let mut pk = J::N;
                if let Const::Unevaluated(u, _) = c.const_ {
                    if let Some(p) = u.promoted {
                        let k = (u.def, p.index(), u.args);
                        let key = if let Some(k) = self.promoted_keys.get(&k) { k.clone() } else {
                            let key = format!("promoted::{}::{}#{}", def_name(self.tcx, u.def), p.index(), self.promoted_keys.len());
                            let b = self.tcx.promoted_mir(u.def)[p].clone();
                            if let Ok(b) = self.tcx.try_instantiate_and_normalize_erasing_regions(u.args, self.cur_env, EarlyBinder::bind(self.tcx, b)) {
                                self.promoted.push_back((key.clone(), b, self.cur_env));
                            }
                            self.promoted_keys.insert(k, key.clone());
                            key
                        };
                        pk = J::s(key);
                    }
                }
                J::A(vec![J::s("k"), J::u(ti), v, J::s(format!("{}", c.const_)), pk])
            }
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![J::s("use"), self.op(o)]),
            Rvalue::Repeat(o, n) => J::A(vec![J::s("repeat"), self.op(o), J::s(format!("{}", n))]),
            Rvalue::Ref(_, bk, p) => J::A(vec![J::s("ref"), J::B(matches!(bk, BorrowKind::Mut { .. })), self.place(p)]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![J::s("use"), J::A(vec![J::s("cp"), self.place(p)]), J::B(m.is_mut())]),
            Rvalue::RawPtr(k, p) => J::A(vec![J::s("addr"), J::B(matches!(k, RawPtrKind::Mut)), self.place(p)]),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); J::A(vec![J::s("cast"), J::s(format!("{:?}", k)), self.op(o), J::u(t)]) }
            Rvalue::BinaryOp(b, ops) => J::A(vec![J::s("bin"), J::s(format!("{:?}", b)), self.op(&ops.0), self.op(&ops.1)]),
            Rvalue::UnaryOp(b, o) => J::A(vec![J::s("un"), J::s(format!("{:?}", b)), self.op(o)]),
            Rvalue::Discriminant(p) => J::A(vec![J::s("discr"), self.place(p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![J::s("use"), J::A(vec![J::s("cp"), self.place(p)])]),
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, af) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, a).skip_norm_wip();
                        let t = self.ty(t);
                        J::A(vec![J::s("adt"), J::u(t), J::u(v.index()), af.map_or(J::N, |f| J::u(f.index()))])
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, *d, a);
                        let t = self.ty(t);
                        J::A(vec![J::s("closure"), J::u(t)])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![J::s("rawptr")]),
                    _ => J::A(vec![J::s("other")]),
                };
                let v = ops.iter().map(|o| self.op(o)).collect();
                J::A(vec![J::s("agg"), kj, J::A(v)])
            }
            other => J::A(vec![J::s("other"), J::s(format!("{:?}", other))]),
        }
    }
    fn uw(&self, u: &UnwindAction) -> J { match u { UnwindAction::Cleanup(b) => J::u(b.index()), UnwindAction::Continue => J::s("continue"), UnwindAction::Unreachable => J::s("unreachable"), UnwindAction::Terminate(_) => J::s("terminate") } }
    fn body(&mut self, inst: Instance<'tcx>, key: String) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let mut o: Vec<(&'static str, J)> = vec![("def", J::s(def_name(tcx, d))), ("local", J::B(d.is_local()))];
        let aj = self.args(inst.args);
        o.push(("args", aj));
        o.push(("span", J::s(span_s(tcx, tcx.def_span(d)))));
        let avail = match inst.def { InstanceKind::Item(d) => tcx.is_mir_available(d), InstanceKind::Shim(_) => true, _ => false };
        if !avail { o.push(("body", J::N)); self.out.insert(key, J::O(o)); return; }
        let body = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.cur_env, EarlyBinder::bind(tcx, body.clone())) {
            Ok(b) => b,
            Err(_) => { o.push(("body", J::N)); self.out.insert(key, J::O(o)); return; }
        };
        let bj = self.dump_body(&body);
        o.push(("body", bj));
        self.out.insert(key, J::O(o));
    }
    fn dump_body(&mut self, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info { if let VarDebugInfoContents::Place(p) = v.value { if p.projection.is_empty() { names.insert(p.local.index(), v.name.to_string()); } } }
        let mut locals = Vec::new();
        for (i, l) in body.local_decls.iter_enumerated() {
            let t = self.ty(l.ty);
            locals.push(J::A(vec![J::u(t), names.get(&i.index()).map_or(J::N, |n| J::s(n.clone()))]));
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in &bb.statements {
                let sp = span_s(tcx, s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => { let p = self.place(&b.0); let r = self.rv(&b.1); st.push(J::A(vec![J::s("="), p, r, J::s(sp)])); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(J::A(vec![J::s("setd"), p, J::u(variant_index.index()), J::s(sp)])); }
                    StatementKind::StorageLive(l) => st.push(J::A(vec![J::s("live"), J::u(l.index())])),
                    StatementKind::StorageDead(l) => st.push(J::A(vec![J::s("dead"), J::u(l.index())])),
                    StatementKind::Intrinsic(i) => { if let NonDivergingIntrinsic::CopyNonOverlapping(c) = &**i { let a = self.op(&c.src); let b = self.op(&c.dst); let n = self.op(&c.count); st.push(J::A(vec![J::s("copy"), a, b, n, J::s(sp)])); } }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = span_s(tcx, t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("k", J::s("goto")), ("t", J::u(target.index()))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dj = self.op(discr);
                    let ty = discr.ty(&body.local_decls, tcx);
                    let tyj = self.ty(ty);
                    let v = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), J::u(b.index())])).collect();
                    J::O(vec![("k", J::s("switch")), ("d", dj), ("ty", J::u(tyj)), ("ts", J::A(v)), ("o", J::u(targets.otherwise().index()))])
                }
                TerminatorKind::UnwindResume => J::O(vec![("k", J::s("resume"))]),
                TerminatorKind::UnwindTerminate(_) => J::O(vec![("k", J::s("terminate"))]),
                TerminatorKind::Return => J::O(vec![("k", J::s("return"))]),
                TerminatorKind::Unreachable => J::O(vec![("k", J::s("unreachable"))]),
                TerminatorKind::Drop { place, target, unwind, .. } => { let ty = place.ty(&body.local_decls, tcx).ty; let tj = self.ty(ty); let p = self.place(place); J::O(vec![("k", J::s("drop")), ("p", p), ("ty", J::u(tj)), ("t", J::u(target.index())), ("u", self.uw(unwind))]) }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let c = if let TyKind::FnDef(d, a) = ft.kind() { let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder()); self.callee(*d, a) } else { let f = self.op(func); J::O(vec![("kind", J::s("ptr")), ("f", f)]) };
                    let av = args.iter().map(|x| self.op(&x.node)).collect();
                    let dp = self.place(destination);
                    let rt = destination.ty(&body.local_decls, tcx).ty; let rt = self.ty(rt);
                    J::O(vec![("k", J::s("call")), ("f", c), ("a", J::A(av)), ("d", dp), ("rt", J::u(rt)), ("t", target.map_or(J::N, |b| J::u(b.index()))), ("u", self.uw(unwind))])
                }
                TerminatorKind::Assert { cond, expected, target, unwind, msg } => { let c = self.op(cond); let m = format!("{:?}", msg); J::O(vec![("k", J::s("assert")), ("c", c), ("e", J::B(*expected)), ("t", J::u(target.index())), ("u", self.uw(unwind)), ("m", J::s(m))]) }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => J::O(vec![("k", J::s("goto")), ("t", J::u(real_target.index()))]),
                other => J::O(vec![("k", J::s("other")), ("m", J::s(format!("{:?}", other)))]),
            };
            blocks.push(J::A(vec![J::A(st), tj, J::B(bb.is_cleanup), J::s(sp)]));
        }
        J::O(vec![
            ("argc", J::u(body.arg_count)), ("spread", body.spread_arg.map_or(J::N, |l| J::u(l.index()))),
            ("locals", J::A(locals)), ("blocks", J::A(blocks)),
        ])
    }
    fn drain(&mut self) {
        loop {
            if let Some((inst, env)) = self.work.pop_front() {
                self.cur_env = env;
                let key = self.inst_keys[&inst].clone();
                self.body(inst, key);
                continue;
            }
            if let Some((key, b, env)) = self.promoted.pop_front() {
                self.cur_env = env;
                let bj = self.dump_body(&b);
                self.out.insert(key.clone(), J::O(vec![("def", J::s(key)), ("promoted", J::B(true)), ("body", bj)]));
                continue;
            }
            if let Some((i, t, env)) = self.work_tys.pop_front() { self.cur_env = env; self.do_ty(i, t); continue; }
            break;
        }
    }
    // Type tree with regions kept (for signatures).
    fn rty(&self, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 8 { return J::N; }
        let r = |t: Ty<'tcx>| self.rty(t, depth + 1);
        match t.kind() {
            TyKind::Ref(rg, x, m) => J::A(vec![J::s("ref"), J::s(format!("{}", rg)), J::B(m.is_mut()), r(*x)]),
            TyKind::RawPtr(x, m) => J::A(vec![J::s("ptr"), J::B(m.is_mut()), r(*x)]),
            TyKind::Slice(x) => J::A(vec![J::s("slice"), r(*x)]),
            TyKind::Array(x, _) => J::A(vec![J::s("array"), r(*x)]),
            TyKind::Tuple(ts) => { let mut v = vec![J::s("tuple")]; for x in ts.iter() { v.push(r(x)); } J::A(v) }
            TyKind::Adt(d, a) => {
                let mut v = vec![J::s("adt"), J::s(def_name(tcx, d.did()))];
                let mut regs = Vec::new(); let mut tys = Vec::new();
                for g in a.iter() { match g.kind() { ty::GenericArgKind::Lifetime(rg) => regs.push(J::s(format!("{}", rg))), ty::GenericArgKind::Type(x) => tys.push(r(x)), _ => {} } }
                v.push(J::A(regs)); v.push(J::A(tys)); J::A(v)
            }
            TyKind::Param(p) => J::A(vec![J::s("param"), J::s(p.name.to_string())]),
            _ => J::A(vec![J::s("other"), J::s(format!("{}", t))]),
        }
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("VP_DUMP_OUT") { Ok(o) => o, Err(_) => return Compilation::Continue };
        if let Ok(n) = std::env::var("VP_DUMP_CRATE") { if tcx.crate_name(LOCAL_CRATE).as_str() != n { return Compilation::Continue; } }
        rustc_middle::ty::print::with_no_trimmed_paths!(dump(tcx, &out));
        Compilation::Stop
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let root_env = TypingEnv::fully_monomorphized();
    let mut cx = Cx { tcx, tys: HashMap::new(), tyjson: vec![], work_tys: VecDeque::new(), inst_keys: HashMap::new(), work: VecDeque::new(), out: BTreeMap::new(), promoted: VecDeque::new(), promoted_keys: HashMap::new(), cur_env: root_env };
    let ev = tcx.effective_visibilities(());
    let mut roots = Vec::new();
    for ld in tcx.mir_keys(()) {
        let d = ld.to_def_id();
        let dk = tcx.def_kind(d);
        if !matches!(dk, DefKind::Fn | DefKind::AssocFn) { continue; }
        cx.cur_env = TypingEnv::post_analysis(tcx, d);
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let inst = Instance { def: InstanceKind::Item(d), args };
        let key = cx.inst(inst, true);
        let mut o: Vec<(&'static str, J)> = vec![("key", J::s(key)), ("def", J::s(def_name(tcx, d))), ("name", J::s(tcx.item_name(d).to_string())), ("span", J::s(span_s(tcx, tcx.def_span(d))))];
        let p = tcx.parent(d);
        if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
            let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
            let ti = cx.ty(st);
            o.push(("self_ty", J::u(ti))); o.push(("self_name", J::s(ty_name(tcx, st))));
            if of_trait { let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip(); o.push(("trait", J::s(def_name(tcx, tr.def_id)))); let aj = cx.args(tr.args); o.push(("trait_args", aj)); }
        }
        o.push(("pub", J::B(ev.is_reachable(*ld))));
        o.push(("exported", J::B(ev.is_exported(*ld))));
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
        o.push(("unsafe", J::B(!sig.safety().is_safe())));
        let sig = tcx.liberate_late_bound_regions(d, sig);
        let ins = sig.inputs().iter().map(|t| cx.rty(*t, 0)).collect();
        o.push(("ins", J::A(ins)));
        o.push(("outp", cx.rty(sig.output(), 0)));
        let intys: Vec<Ty<'tcx>> = sig.inputs().to_vec();
        let iv = intys.into_iter().map(|t| J::u(cx.ty(t))).collect();
        o.push(("in_tys", J::A(iv)));
        let ot = cx.ty(sig.output()); o.push(("out_ty", J::u(ot)));
        let preds = tcx.clauses_of(d).instantiate_identity(tcx);
        let mut ps = Vec::new();
        for (pr, _) in preds.into_iter() { ps.push(J::s(format!("{}", pr.skip_norm_wip()))); }
        o.push(("preds", J::A(ps)));
        roots.push(J::O(o));
    }
    // local ADTs + auto traits + variances
    let mut adts = Vec::new();
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send).unwrap();
    let sync = tcx.lang_items().sync_trait().unwrap();
    let unpin = tcx.lang_items().unpin_trait().unwrap();
    let copy = tcx.lang_items().copy_trait().unwrap();
    let clone = tcx.lang_items().clone_trait().unwrap();
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) { continue; }
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        cx.cur_env = TypingEnv::post_analysis(tcx, d);
        let ti = cx.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("def", J::s(def_name(tcx, d))), ("ty", J::u(ti)), ("span", J::s(span_s(tcx, tcx.def_span(d)))), ("pub", J::B(ev.is_reachable(id)))];
        o.push(("variances", J::A(tcx.variances_of(d).iter().map(|v| J::s(format!("{:?}", v))).collect())));
        let g = tcx.generics_of(d);
        o.push(("params", J::A(g.own_params.iter().map(|p| J::A(vec![J::s(p.name.to_string()), J::B(matches!(p.kind, ty::GenericParamDefKind::Type { .. }))])).collect())));
        let base: Vec<ty::Clause<'tcx>> = tcx.param_env(d).caller_bounds().collect();
        let tparams: Vec<Ty<'tcx>> = ty::GenericArgs::identity_for_item(tcx, d).types().collect();
        let mut au = Vec::new();
        for (bn, bounds) in [("none", vec![]), ("Send", vec![send]), ("Sync", vec![sync]), ("SendSync", vec![send, sync]), ("CopyAll", vec![send, sync, copy, clone]), ("Clone", vec![clone])] {
            let mut cl = base.clone();
            for tp in &tparams { for b in &bounds {
                let tr = ty::TraitRef::new(tcx, *b, [*tp]);
                use rustc_middle::ty::Upcast;
                cl.push(tr.upcast(tcx));
            } }
            let pe = rustc_trait_selection::traits::normalize_param_env_or_error(tcx, ty::ParamEnv::new(tcx, cl), rustc_trait_selection::traits::ObligationCause::dummy());
            let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
            let mut row = vec![J::s(bn)];
            for tr in [send, sync, unpin, copy, clone] {
                let r = infcx.type_implements_trait(tr, [t], pe);
                row.push(J::B(r.must_apply_modulo_regions()));
            }
            au.push(J::A(row));
        }
        o.push(("auto", J::A(au)));
        if let Some(ds) = tcx.adt_destructor(d) { o.push(("has_drop", J::B(true))); let _ = ds; }
        adts.push(J::O(o));
    }
    // impls
    let mut impls = Vec::new();
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let mut o: Vec<(&'static str, J)> = vec![("self", J::s(format!("{}", st))), ("self_name", J::s(ty_name(tcx, st))), ("span", J::s(span_s(tcx, tcx.def_span(d))))];
            if of_trait { let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip(); o.push(("trait", J::s(def_name(tcx, tr.def_id)))); o.push(("trait_ref", J::s(format!("{}", tr)))); 
                let h = tcx.impl_trait_header(d); o.push(("unsafe", J::B(!h.safety.is_safe()))); o.push(("neg", J::B(matches!(h.polarity, ty::ImplPolarity::Negative)))); }
            let preds = tcx.clauses_of(d).instantiate_identity(tcx);
            let mut ps = Vec::new();
            for (pr, _) in preds.into_iter() { ps.push(J::s(format!("{}", pr.skip_norm_wip()))); }
            o.push(("preds", J::A(ps)));
            let items = tcx.associated_item_def_ids(d).iter().map(|x| J::s(tcx.opt_item_name(*x).map_or(String::new(), |n| n.to_string()))).collect();
            o.push(("items", J::A(items)));
            impls.push(J::O(o));
        }
    }
    let mut crates = Vec::new();
    for c in tcx.crates(()) { crates.push(J::A(vec![J::s(tcx.crate_name(*c).to_string()), J::B(tcx.extern_crate(*c).map_or(false, |e| e.is_direct()))])); }
    // public fields of exported structs
    let mut pubfields = Vec::new();
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) { continue; }
        if !ev.is_reachable(id) { continue; }
        for v in tcx.adt_def(d).variants() { for f in &v.fields { if f.vis.is_public() { pubfields.push(J::s(format!("{}.{}", def_name(tcx, d), f.name))); } } }
    }
    cx.drain();
    let insts: Vec<(String, J)> = cx.out.clone().into_iter().collect();
    let mut s = String::new();
    J::O(vec![("types", J::A(cx.tyjson.clone())), ("insts", J::M(insts)), ("roots", J::A(roots)), ("adts", J::A(adts)), ("impls", J::A(impls)), ("crates", J::A(crates)), ("pubfields", J::A(pubfields))]).w(&mut s);
    std::fs::write(out, s).unwrap();
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER style: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1] == "rustc") { args.remove(1); }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
