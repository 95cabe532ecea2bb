//! Dumps the typed MIR (as built, before any optimisation) of every body of a
//! workspace crate as JSON, for the analyser.
//!
//! Used as `RUSTC_WORKSPACE_WRAPPER`. The output goes to
//! `$MIRDUMP_OUT/<crate>.json`.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;

use json::J;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap};

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Ok(out) = std::env::var("MIRDUMP_OUT") {
            let name = tcx.crate_name(LOCAL_CRATE).to_string();
            let mut d = Dump::new(tcx);
            let j = d.run();
            let mut s = String::new();
            j.write(&mut s);
            std::fs::write(format!("{out}/{name}.json"), s).expect("write dump");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo passes the path of rustc as the first argument
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if args.iter().any(|a| a == "-vV" || a.starts_with("--print")) || !args.iter().any(|a| a == "--crate-name") {
        std::env::remove_var("MIRDUMP_OUT");
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Self { tcx, types: vec![], type_ids: HashMap::new(), adts: BTreeMap::new() }
    }

    fn path(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        s(format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line))
    }

    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(n(self.ty(t)));
            } else if let Some(c) = x.as_const() {
                v.push(s(format!("{c:?}")));
            } else {
                v.push(s("'"));
            }
        }
        J::A(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.type_ids.insert(t, i);
        let j = match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                J::o([("k", s("prim")), ("n", s(t.to_string()))])
            }
            ty::Adt(def, args) => {
                self.adt(*def);
                let p = self.path(def.did());
                let a = self.args(args);
                J::o([("k", s("adt")), ("p", s(p)), ("a", a)])
            }
            ty::Ref(_, t, m) => {
                let x = self.ty(*t);
                J::o([("k", s("ref")), ("t", n(x)), ("m", J::B(m.is_mut()))])
            }
            ty::RawPtr(t, m) => {
                let x = self.ty(*t);
                J::o([("k", s("ptr")), ("t", n(x)), ("m", J::B(m.is_mut()))])
            }
            ty::Slice(t) => {
                let x = self.ty(*t);
                J::o([("k", s("slice")), ("t", n(x))])
            }
            ty::Array(t, l) => {
                let x = self.ty(*t);
                J::o([("k", s("array")), ("t", n(x)), ("len", s(format!("{l:?}")))])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| n(self.ty(t))).collect();
                J::o([("k", s("tuple")), ("a", J::A(v))])
            }
            ty::FnDef(d, args) => {
                let p = self.path(*d);
                let a = self.args((*args).skip_binder());
                J::o([("k", s("fndef")), ("p", s(p)), ("a", a)])
            }
            ty::Closure(d, args) => {
                let p = self.path(*d);
                let a = self.args(args.as_closure().parent_args().to_vec().into_args(self.tcx));
                J::o([("k", s("closure")), ("p", s(p)), ("a", a)])
            }
            ty::Param(p) => J::o([("k", s("param")), ("i", n(p.index as usize)), ("n", s(p.name.to_string()))]),
            ty::Dynamic(preds, ..) => {
                let name = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                J::o([("k", s("dyn")), ("p", s(name))])
            }
            ty::FnPtr(..) => J::o([("k", s("fnptr")), ("s", s(t.to_string()))]),
            ty::Alias(..) => {
                let h = self.hidden(t);
                J::o([("k", s("alias")), ("s", s(t.to_string())), ("h", h)])
            }
            _ => J::o([("k", s("other")), ("s", s(format!("{t:?}")))]),
        };
        self.types[i] = j;
        i
    }

    /// the type behind an `impl Trait`
    fn hidden(&mut self, t: Ty<'tcx>) -> J {
        if let ty::Alias(_, a) = t.kind() {
            if let ty::AliasTyKind::Opaque { def_id } = a.kind {
                let def: DefId = def_id.into();
                if def.is_local() {
                    let x = self.tcx.type_of(def).instantiate(self.tcx, a.args).skip_norm_wip();
                    return n(self.ty(x));
                }
            }
        }
        J::Null
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let p = self.path(def.did());
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), J::Null);
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let local = def.did().is_local();
        let mut vs = vec![];
        for v in def.variants() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let tid = if local || def.is_enum() || self.tcx.lang_items().range_inclusive_struct().is_some() {
                    n(self.ty(t))
                } else {
                    J::Null
                };
                fs.push(J::o([
                    ("n", s(f.name.to_string())),
                    ("t", tid),
                    ("pub", J::B(f.vis.is_public())),
                ]));
            }
            vs.push(J::o([("n", s(v.name.to_string())), ("f", J::A(fs))]));
        }
        self.adts.insert(
            p,
            J::o([("k", s(kind)), ("local", J::B(local)), ("v", J::A(vs)), ("pub", J::B(self.tcx.visibility(def.did()).is_public()))]),
        );
    }

    fn run(&mut self) -> J {
        let tcx = self.tcx;
        // take a copy of every body before anything can steal one
        let mut owned = vec![];
        for def in tcx.hir_body_owners() {
            let did = def.to_def_id();
            let kind = tcx.def_kind(did);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            owned.push((did, tcx.mir_built(def).borrow().clone()));
        }
        let mut bodies = vec![];
        for (did, body) in owned {
            let j = self.body(did, &body);
            bodies.push(j);
        }
        let mut impls = vec![];
        for (tr, list) in tcx.all_local_trait_impls(()) {
            for imp in list {
                let iid = imp.to_def_id();
                let tref = tcx.impl_trait_ref(iid).instantiate_identity().skip_norm_wip();
                let ta = self.args(tref.args);
                let mut items = BTreeMap::new();
                for it in tcx.associated_items(iid).in_definition_order() {
                    if let Some(t) = it.trait_item_def_id() {
                        if it.is_fn() {
                            items.insert(self.path(t), s(self.path(it.def_id)));
                        } else if it.is_type() {
                            let t2 = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                            let x = self.ty(t2);
                            items.insert(self.path(t), n(x));
                        }
                    }
                }
                impls.push(J::o([
                    ("trait", s(self.path(*tr))),
                    ("path", s(self.path(iid))),
                    ("ta", ta),
                    ("derived", J::B(tcx.is_automatically_derived(iid))),
                    ("items", J::O(items.into_iter().collect())),
                    ("span", self.span(tcx.def_span(iid))),
                ]));
            }
        }
        J::o([
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("bodies", J::A(bodies)),
            ("impls", J::A(impls)),
            ("adts", J::O(std::mem::take(&mut self.adts).into_iter().collect())),
            ("types", J::A(std::mem::take(&mut self.types))),
        ])
    }

    fn body(&mut self, did: DefId, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut locals = vec![];
        for d in b.local_decls.iter() {
            locals.push(n(self.ty(d.ty)));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![s(v.name.to_string()), self.place(b, p)]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                if let Some(j) = self.stmt(did, b, x) {
                    st.push(j);
                }
            }
            let term = bb.terminator();
            let mut t = self.term(did, b, term);
            if let J::O(v) = &mut t {
                v.push(("span".into(), self.span(term.source_info.span)));
            }
            blocks.push(J::o([("s", J::A(st)), ("t", t), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let parent = tcx.opt_parent(did);
        let (mut self_ty, mut of_trait, mut tdef, mut derived) = (J::Null, J::Null, J::Null, false);
        if let Some(p) = parent {
            if let DefKind::Impl { of_trait: ot } = tcx.def_kind(p) {
                let t = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                self_ty = n(self.ty(t));
                if ot {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    of_trait = s(self.path(tr.def_id));
                    derived = tcx.is_automatically_derived(p);
                }
            } else if tcx.def_kind(p) == DefKind::Trait {
                tdef = s(self.path(p));
            }
        }
        let is_closure = tcx.def_kind(did) == DefKind::Closure;
        let (mut sig_in, mut sig_out, mut exported) = (vec![], vec![], false);
        if !is_closure {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            for t in sig.inputs() {
                sig_in.push(self.regions(*t));
            }
            sig_out.push(self.regions(sig.output()));
            exported = tcx.effective_visibilities(()).is_reachable(did.expect_local());
        }
        J::o([
            ("path", s(self.path(did))),
            ("pretty", s(tcx.def_path_str(did))),
            ("name", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())),
            ("span", self.span(tcx.def_span(did))),
            ("closure", J::B(is_closure)),
            ("pub", J::B(!is_closure && tcx.visibility(did).is_public())),
            ("exported", J::B(exported)),
            ("sig_in", J::A(sig_in)),
            ("sig_out", J::A(sig_out)),
            ("argc", n(b.arg_count)),
            ("self_ty", self_ty),
            ("of_trait", of_trait),
            ("trait_def", tdef),
            ("derived", J::B(derived)),
            ("nparams", n(tcx.generics_of(did).count())),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }

    /// the lifetimes in a type, with the type behind them for references
    fn regions(&mut self, t: Ty<'tcx>) -> J {
        let mut v = vec![];
        for a in t.walk() {
            if let Some(r) = a.as_region() {
                v.push(J::A(vec![s(format!("{r:?}")), J::Null]));
            } else if let Some(t) = a.as_type() {
                if let ty::Ref(r, x, _) = t.kind() {
                    let x = self.ty(*x);
                    v.push(J::A(vec![s(format!("{r:?}")), n(x)]));
                }
            }
        }
        J::A(v)
    }

    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for (base, e) in p.iter_projections() {
            v.push(match e {
                ProjectionElem::Deref => {
                    let t = base.ty(b, self.tcx).ty;
                    let x = self.ty(t);
                    J::A(vec![s("*"), n(x)])
                }
                ProjectionElem::Field(f, t) => {
                    let bt = base.ty(b, self.tcx);
                    let name = match bt.ty.kind() {
                        ty::Adt(d, _) if !d.is_union() => {
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            d.variant(vi).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let x = self.ty(t);
                    J::A(vec![s("f"), n(f.as_usize()), s(name), n(x)])
                }
                ProjectionElem::Downcast(name, vi) => {
                    J::A(vec![s("v"), n(vi.as_usize()), s(name.map(|x| x.to_string()).unwrap_or_default())])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), n(offset as usize), n(min_length as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                _ => J::A(vec![s("?"), s(format!("{e:?}"))]),
            });
        }
        let t = p.ty(b, self.tcx).ty;
        let x = self.ty(t);
        J::o([("l", n(p.local.as_usize())), ("p", J::A(v)), ("ty", n(x))])
    }

    fn konst(&mut self, did: DefId, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        let mut v: Vec<(&'static str, J)> = vec![("k", s("const")), ("ty", n(tid))];
        if let ty::FnDef(d, args) = t.kind() {
            v.push(("fn", s(self.path(*d))));
            v.push(("fnargs", self.args((*args).skip_binder())));
            v.push(("pretty", s(tcx.def_path_str(*d))));
            self.resolve(did, *d, (*args).skip_binder(), &mut v);
            return J::o(v);
        }
        let env = TypingEnv::non_body_analysis(tcx, tcx.typeck_root_def_id(did));
        let val = match c.const_ {
            Const::Val(val, _) => Some(val),
            _ => c.const_.eval(tcx, env, c.span).ok(),
        };
        if let Some(val) = val {
            if let Some(sc) = val.try_to_scalar_int() {
                let u = sc.to_bits(sc.size());
                let num = match t.kind() {
                    ty::Int(_) => {
                        let bits = sc.size().bits();
                        let sh = 128 - bits;
                        ((u as i128) << sh) >> sh
                    }
                    _ => u as i128,
                };
                v.push(("v", J::N(num)));
                return J::o(v);
            }
            let is_str = matches!(t.kind(), ty::Ref(_, x, _) if x.is_str());
            let bytes = if is_str { val.try_get_slice_bytes_for_diagnostics(tcx) } else { None };
            if let Some(d) = bytes {
                v.push(("str", s(String::from_utf8_lossy(d).to_string())));
                return J::o(v);
            }
            if matches!(val, ConstValue::ZeroSized) {
                v.push(("zst", J::B(true)));
                return J::o(v);
            }
        }
        v.push(("raw", s(format!("{:?}", c.const_))));
        J::o(v)
    }

    fn resolve(&mut self, did: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>, v: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        if let Some(tr) = tcx.trait_of_assoc(d) {
            v.push(("trait", s(self.path(tr))));
        }
        let env = TypingEnv::non_body_analysis(tcx, tcx.typeck_root_def_id(did));
        let args = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, args) {
            let kind = match i.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                _ => "shim",
            };
            v.push(("rk", s(kind)));
            v.push(("rp", s(self.path(i.def_id()))));
            v.push(("ra", self.args(i.args)));
        }
    }

    fn operand(&mut self, did: DefId, b: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::o([("k", s("copy")), ("p", self.place(b, p))]),
            Operand::Move(p) => J::o([("k", s("move")), ("p", self.place(b, p))]),
            Operand::Constant(c) => self.konst(did, c),
            #[allow(unreachable_patterns)]
            o => J::o([("k", s("?")), ("s", s(format!("{o:?}")))]),
        }
    }

    fn rvalue(&mut self, did: DefId, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::o([("k", s("use")), ("o", self.operand(did, b, o))]),
            Rvalue::Ref(_, bk, p) => J::o([
                ("k", s("ref")),
                ("m", s(match bk {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                    #[allow(unreachable_patterns)]
                    _ => "mut",
                })),
                ("p", self.place(b, p)),
            ]),
            Rvalue::RawPtr(k, p) => J::o([("k", s("rawptr")), ("m", s(format!("{k:?}"))), ("p", self.place(b, p))]),
            Rvalue::BinaryOp(op, x) => J::o([
                ("k", s("bin")),
                ("ty", { let t = x.0.ty(b, tcx); n(self.ty(t)) }),
                ("op", s(format!("{op:?}"))),
                ("a", self.operand(did, b, &x.0)),
                ("b", self.operand(did, b, &x.1)),
            ]),
            Rvalue::UnaryOp(op, x) => J::o([("k", s("un")), ("op", s(format!("{op:?}"))), ("a", self.operand(did, b, x))]),
            Rvalue::Cast(k, o, t) => {
                let ot = o.ty(b, tcx);
                let (x, y) = (self.ty(*t), self.ty(ot));
                J::o([("k", s("cast")), ("ck", s(format!("{k:?}"))), ("o", self.operand(did, b, o)), ("ty", n(x)), ("from", n(y))])
            }
            Rvalue::Discriminant(p) => J::o([("k", s("discr")), ("p", self.place(b, p))]),
            Rvalue::Repeat(o, c) => J::o([("k", s("repeat")), ("o", self.operand(did, b, o)), ("n", s(format!("{c:?}")))]),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(did, b, o)).collect();
                let kk = match &**k {
                    AggregateKind::Tuple => J::o([("k", s("tuple"))]),
                    AggregateKind::Array(_) => J::o([("k", s("array"))]),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let def = tcx.adt_def(*d);
                        self.adt(def);
                        let a = self.args(args);
                        J::o([("k", s("adt")), ("p", s(self.path(*d))), ("v", n(vi.as_usize())), ("a", a)])
                    }
                    AggregateKind::Closure(d, args) => {
                        let a = self.args(args.as_closure().parent_args().to_vec().into_args(tcx));
                        J::o([("k", s("closure")), ("p", s(self.path(*d))), ("a", a)])
                    }
                    x => J::o([("k", s("?")), ("s", s(format!("{x:?}")))]),
                };
                J::o([("k", s("agg")), ("a", kk), ("o", J::A(os))])
            }
            Rvalue::CopyForDeref(p) => {
                let pl = self.place(b, p);
                J::o([("k", s("use")), ("o", J::o([("k", s("copy")), ("p", pl)]))])
            }
            r => J::o([("k", s("?")), ("s", s(format!("{r:?}")))]),
        }
    }

    fn stmt(&mut self, did: DefId, b: &Body<'tcx>, st: &Statement<'tcx>) -> Option<J> {
        let sp = self.span(st.source_info.span);
        Some(match &st.kind {
            StatementKind::Assign(x) => J::o([
                ("k", s("=")),
                ("p", self.place(b, &x.0)),
                ("r", self.rvalue(did, b, &x.1)),
                ("span", sp),
            ]),
            StatementKind::StorageDead(l) => J::o([("k", s("dead")), ("l", n(l.as_usize()))]),
            StatementKind::SetDiscriminant { place, variant_index } => J::o([
                ("k", s("setdiscr")),
                ("p", self.place(b, place)),
                ("v", n(variant_index.as_usize())),
            ]),
            _ => return None,
        })
    }

    fn term(&mut self, did: DefId, b: &Body<'tcx>, t: &Terminator<'tcx>) -> J {
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::o([("k", s("goto")), ("t", n(target.as_usize()))]),
            TerminatorKind::FalseEdge { real_target, .. } => J::o([("k", s("goto")), ("t", n(real_target.as_usize()))]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::o([("k", s("goto")), ("t", n(real_target.as_usize()))]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = targets.iter().map(|(v, t)| J::A(vec![J::N(v as i128), n(t.as_usize())])).collect();
                let ot = discr.ty(b, self.tcx);
                let x = self.ty(ot);
                J::o([
                    ("k", s("switch")),
                    ("o", self.operand(did, b, discr)),
                    ("ty", n(x)),
                    ("ts", J::A(v)),
                    ("else", n(targets.otherwise().as_usize())),
                ])
            }
            TerminatorKind::Return => J::o([("k", s("return"))]),
            TerminatorKind::Unreachable => J::o([("k", s("unreachable"))]),
            TerminatorKind::UnwindResume => J::o([("k", s("resume"))]),
            TerminatorKind::Drop { place, target, .. } => {
                J::o([("k", s("drop")), ("p", self.place(b, place)), ("t", n(target.as_usize()))])
            }
            TerminatorKind::Assert { cond, expected, target, .. } => J::o([
                ("k", s("assert")),
                ("o", self.operand(did, b, cond)),
                ("e", J::B(*expected)),
                ("t", n(target.as_usize())),
            ]),
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let a: Vec<J> = args.iter().map(|x| self.operand(did, b, &x.node)).collect();
                let at: Vec<J> = args.iter().map(|x| { let t = x.node.ty(b, self.tcx); n(self.ty(t)) }).collect();
                J::o([
                    ("k", s("call")),
                    ("f", self.operand(did, b, func)),
                    ("a", J::A(a)),
                    ("at", J::A(at)),
                    ("d", self.place(b, destination)),
                    ("t", target.map(|x| n(x.as_usize())).unwrap_or(J::Null)),
                ])
            }
            k => J::o([("k", s("?")), ("s", s(format!("{k:?}")))]),
        }
    }
}

trait IntoArgs<'tcx> {
    fn into_args(self, tcx: TyCtxt<'tcx>) -> ty::GenericArgsRef<'tcx>;
}
impl<'tcx> IntoArgs<'tcx> for Vec<ty::GenericArg<'tcx>> {
    fn into_args(self, tcx: TyCtxt<'tcx>) -> ty::GenericArgsRef<'tcx> {
        tcx.mk_args(&self)
    }
}
