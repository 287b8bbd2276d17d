// mirfacts: a rustc driver that type-checks a crate exactly as cargo asked for and
// writes its MIR (before optimisation, drops elaborated, no inlining) as JSON facts.
// Injected with RUSTC_WORKSPACE_WRAPPER; only crates named in MIRFACTS_CRATES are dumped.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: BTreeMap<String, usize>,
    type_list: Vec<String>,
    adts: HashSet<DefId>,
    adt_done: HashSet<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn note_ty(&mut self, t: Ty<'tcx>) {
        for g in t.walk() {
            if let Some(t) = g.as_type() {
                if let ty::Adt(a, _) = t.kind() {
                    self.adts.insert(a.did());
                }
            }
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let s = with_no_trimmed_paths!(t.to_string());
        if let Some(i) = self.types.get(&s) {
            return *i;
        }
        self.note_ty(t);
        let i = self.type_list.len();
        self.types.insert(s.clone(), i);
        self.type_list.push(s);
        i
    }
    fn line(&self, sp: Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }
    fn file(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}", loc.file.name.prefer_local_unconditionally())
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = match pt.variant_index {
                                Some(v) => Some(a.variant(v)),
                                None if a.is_enum() => None,
                                None => Some(a.non_enum_variant()),
                            };
                            v.map(|v| v.fields[f].name.to_string())
                                .unwrap_or_else(|| f.as_usize().to_string())
                        }
                        ty::Closure(d, _) => {
                            let names = self.tcx.closure_saved_names_of_captured_variables(*d);
                            names
                                .get(f)
                                .map(|s| s.to_string())
                                .unwrap_or_else(|| f.as_usize().to_string())
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let _ = write!(o, ",[\"f\",{},{}]", f.as_usize(), q(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, ",[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"sub\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => a.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    let _ = write!(o, ",[\"d\",{},{}]", v.as_usize(), q(&name));
                }
                ProjectionElem::OpaqueCast(_)
                | ProjectionElem::UnwrapUnsafeBinder(_)
                | ProjectionElem::PhantomDeref => {}
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push(']');
        o
    }
    fn fndef(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"def\":{}", q(&self.path(d)));
        let mut a = Vec::new();
        for g in args.iter() {
            if let Some(t) = g.as_type() {
                a.push(self.ty(t).to_string());
            } else if let Some(c) = g.as_const() {
                a.push(q(&with_no_trimmed_paths!(c.to_string())));
            }
        }
        let _ = write!(o, ",\"ga\":[{}]", a.join(","));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", q(&self.path(tr)));
            let r = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, r) {
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Shim(_) => "shim",
                    _ => "shim",
                };
                let _ = write!(
                    o,
                    ",\"res\":{},\"rk\":\"{}\"",
                    q(&self.path(inst.def_id())),
                    kind
                );
            }
        }
        if d.is_local() {
            o.push_str(",\"loc\":1");
        }
        o.push('}');
        o
    }
    fn constant(&mut self, env: TypingEnv<'tcx>, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        let mut o = format!("{{\"t\":{}", ti);
        match t.kind() {
            ty::FnDef(d, args) => {
                let f = self.fndef(env, *d, args.no_bound_vars().unwrap_or(ty::List::empty()));
                let _ = write!(o, ",\"fn\":{}", f);
            }
            ty::Closure(d, _) => {
                let _ = write!(o, ",\"cl\":{}", q(&self.path(*d)));
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let _ = write!(
                    o,
                    ",\"prom\":[{},{}]",
                    q(&self.path(u.def)),
                    p.as_usize()
                );
            } else {
                let _ = write!(o, ",\"name\":{}", q(&self.path(u.def)));
            }
        }
        if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
            if let Some(s) = c.try_eval_scalar_int(tcx, env) {
                let bits = s.to_bits(s.size());
                let _ = write!(o, ",\"v\":{}", bits);
            }
        } else if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        let _ = write!(o, ",\"s\":{}", q(&String::from_utf8_lossy(b)));
                    }
                }
            }
        }
        if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
            if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                let id = p.provenance.alloc_id();
                match tcx.try_get_global_alloc(id) {
                    Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) => {
                        let _ = write!(o, ",\"static\":{}", q(&self.path(d)));
                    }
                    Some(rustc_middle::mir::interpret::GlobalAlloc::Function { instance }) => {
                        let _ = write!(o, ",\"fnptr\":{}", q(&self.path(instance.def_id())));
                    }
                    _ => {}
                }
            }
        }
        o.push('}');
        o
    }
    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(env, &c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", q(&format!("{:?}", r))),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(body, env, o)),
            Rvalue::Repeat(o, n) => format!(
                "[\"rep\",{},{}]",
                self.operand(body, env, o),
                q(&with_no_trimmed_paths!(n.to_string()))
            ),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                matches!(k, BorrowKind::Mut { .. }) as u8,
                self.place(body, p)
            ),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", q(&self.path(*d))),
            Rvalue::RawPtr(k, p) => format!(
                "[\"raw\",{},{}]",
                q(&format!("{:?}", k)),
                self.place(body, p)
            ),
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(&body.local_decls, self.tcx);
                format!(
                    "[\"cast\",{},{},{},{}]",
                    q(&format!("{:?}", k)),
                    self.operand(body, env, o),
                    self.ty(ft),
                    self.ty(*t)
                )
            }
            Rvalue::BinaryOp(b, x) => {
                let t = x.0.ty(&body.local_decls, self.tcx);
                format!(
                    "[\"bin\",{},{},{},{}]",
                    q(&format!("{:?}", b)),
                    self.operand(body, env, &x.0),
                    self.operand(body, env, &x.1),
                    self.ty(t)
                )
            }
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(&body.local_decls, self.tcx);
                format!(
                    "[\"un\",{},{},{}]",
                    q(&format!("{:?}", u)),
                    self.operand(body, env, o),
                    self.ty(t)
                )
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                format!("[\"disc\",{},{}]", self.place(body, p), self.ty(t))
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let kind = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        self.adts.insert(*d);
                        let a = self.tcx.adt_def(*d);
                        let var = a.variant(*vi);
                        let fields: Vec<String> = match active {
                            Some(f) => vec![q(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| q(f.name.as_str())).collect(),
                        };
                        format!(
                            "[\"adt\",{},{},{},[{}]]",
                            q(&self.path(*d)),
                            vi.as_usize(),
                            q(var.name.as_str()),
                            fields.join(",")
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        let names: Vec<String> = self
                            .tcx
                            .closure_saved_names_of_captured_variables(*d)
                            .iter()
                            .map(|s| q(s.as_str()))
                            .collect();
                        format!("[\"closure\",{},[{}]]", q(&self.path(*d)), names.join(","))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kind, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            Rvalue::WrapUnsafeBinder(o, _) => {
                format!("[\"use\",{}]", self.operand(body, env, o))
            }
            Rvalue::Reborrow(_, m, p) => format!(
                "[\"ref\",{},{}]",
                (*m == rustc_middle::ty::Mutability::Mut) as u8,
                self.place(body, p)
            ),
        }
    }
    fn body(&mut self, name: &str, kind: &str, env: TypingEnv<'tcx>, body: &Body<'tcx>, extra: &str) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let file = self.file(body.span);
        let _ = write!(
            o,
            "{{\"name\":{},\"kind\":{},\"args\":{},\"file\":{},\"line\":{}{},\"locals\":[",
            q(name),
            q(kind),
            body.arg_count,
            q(&file),
            self.line(body.span),
            extra
        );
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        for (i, l) in body.local_decls.iter_enumerated() {
            if i.as_usize() > 0 {
                o.push(',');
            }
            let t = self.ty(l.ty);
            match names.get(&i.as_usize()) {
                Some(n) => {
                    let _ = write!(o, "[{},{}]", t, q(n));
                }
                None => {
                    let _ = write!(o, "[{}]", t);
                }
            }
        }
        o.push_str("],\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push_str(",\n");
            }
            let _ = write!(o, "{{\"c\":{},\"s\":[", bb.is_cleanup as u8);
            let mut first = true;
            for s in &bb.statements {
                let txt = match &s.kind {
                    StatementKind::Assign(x) => {
                        let (p, r) = &**x;
                        format!(
                            "[\"=\",{},{},{}]",
                            self.place(body, p),
                            self.rvalue(body, env, r),
                            self.line(s.source_info.span)
                        )
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!(
                            "[\"sd\",{},{}]",
                            self.place(body, place),
                            variant_index.as_usize()
                        )
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    StatementKind::StorageLive(l) => format!("[\"live\",{}]", l.as_usize()),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(op) => {
                            format!("[\"assume\",{}]", self.operand(body, env, op))
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => format!(
                            "[\"copyno\",{},{},{}]",
                            self.operand(body, env, &c.src),
                            self.operand(body, env, &c.dst),
                            self.operand(body, env, &c.count)
                        ),
                    },
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&txt);
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", target.as_usize());
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty_ = discr.ty(&body.local_decls, tcx);
                    let tg: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", v, b.as_usize()))
                        .collect();
                    let _ = write!(
                        o,
                        "[\"switch\",{},{},[{}],{},{}]",
                        self.operand(body, env, discr),
                        self.ty(ty_),
                        tg.join(","),
                        targets.otherwise().as_usize(),
                        ln
                    );
                }
                TerminatorKind::Return => o.push_str("[\"ret\"]"),
                TerminatorKind::Unreachable => o.push_str("[\"unreach\"]"),
                TerminatorKind::UnwindResume
                | TerminatorKind::UnwindTerminate(_)
                | TerminatorKind::CoroutineDrop => o.push_str("[\"unwind\"]"),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty_ = place.ty(&body.local_decls, tcx).ty;
                    let _ = write!(
                        o,
                        "[\"drop\",{},{},{},{}]",
                        self.place(body, place),
                        target.as_usize(),
                        self.ty(ty_),
                        ln
                    );
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, env, func);
                    let a: Vec<String> = args
                        .iter()
                        .map(|x| self.operand(body, env, &x.node))
                        .collect();
                    let _ = write!(
                        o,
                        "[\"call\",{},[{}],{},{},{}]",
                        f,
                        a.join(","),
                        self.place(body, destination),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                        ln
                    );
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let f = self.operand(body, env, func);
                    let a: Vec<String> = args
                        .iter()
                        .map(|x| self.operand(body, env, &x.node))
                        .collect();
                    let _ = write!(o, "[\"tailcall\",{},[{}],{}]", f, a.join(","), ln);
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (&str, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds",
                            vec![self.operand(body, env, len), self.operand(body, env, index)],
                        ),
                        AssertKind::Overflow(_, a, b) => (
                            "overflow",
                            vec![self.operand(body, env, a), self.operand(body, env, b)],
                        ),
                        AssertKind::OverflowNeg(a) => {
                            ("overflow_neg", vec![self.operand(body, env, a)])
                        }
                        AssertKind::DivisionByZero(a) => {
                            ("div0", vec![self.operand(body, env, a)])
                        }
                        AssertKind::RemainderByZero(a) => {
                            ("rem0", vec![self.operand(body, env, a)])
                        }
                        _ => ("other", vec![]),
                    };
                    let _ = write!(
                        o,
                        "[\"assert\",{},{},{},[{}],{},{}]",
                        self.operand(body, env, cond),
                        *expected as u8,
                        q(k),
                        ops.join(","),
                        target.as_usize(),
                        ln
                    );
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", real_target.as_usize());
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", real_target.as_usize());
                }
                TerminatorKind::Yield { .. } | TerminatorKind::InlineAsm { .. } => {
                    o.push_str("[\"unsupported\"]")
                }
            }
            o.push('}');
        }
        o.push_str("]}");
        o
    }
    fn dump(&mut self) -> String {
        let tcx = self.tcx;
        let mut fns = Vec::new();
        let ids: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        for ld in ids {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            let env = TypingEnv::post_analysis(tcx, d);
            let name = self.path(d);
            let mut extra = String::new();
            let kind = match k {
                DefKind::Fn => "fn",
                DefKind::AssocFn => "assoc",
                DefKind::Closure => "closure",
                DefKind::Const { .. } => "const",
                DefKind::AssocConst { .. } => "const",
                DefKind::Static { .. } => "static",
                DefKind::Ctor(..) => continue,
                _ => continue,
            };
            if matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                // generics names
                let g = tcx.generics_of(d);
                let mut names = Vec::new();
                let mut cur = Some(g);
                let mut chain = Vec::new();
                while let Some(g) = cur {
                    chain.push(g);
                    cur = g.parent.map(|p| tcx.generics_of(p));
                }
                for g in chain.iter().rev() {
                    for p in &g.own_params {
                        if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                            names.push(q(p.name.as_str()));
                        }
                    }
                }
                let _ = write!(extra, ",\"generics\":[{}]", names.join(","));
                if let Some(imp) = tcx.impl_of_assoc(d) {
                    if let Some(tr) = tcx.impl_opt_trait_id(imp) {
                        let _ = write!(extra, ",\"impl_trait\":{}", q(&self.path(tr)));
                    }
                    let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    let si = self.ty(st);
                    let _ = write!(extra, ",\"self_ty\":{}", si);
                }
                let vis = tcx.visibility(if k == DefKind::Closure { tcx.typeck_root_def_id(d) } else { d });
                let _ = write!(extra, ",\"pub\":{}", vis.is_public() as u8);
                let body = tcx.optimized_mir(d);
                fns.push(self.body(&name, kind, env, body, &extra));
            } else {
                let body = tcx.mir_for_ctfe(d);
                fns.push(self.body(&name, kind, env, body, &extra));
            }
            let proms = tcx.promoted_mir(d);
            for (i, p) in proms.iter_enumerated() {
                let n = format!("{}::promoted#{}", name, i.as_usize());
                fns.push(self.body(&n, "promoted", env, p, ""));
            }
        }
        // adts, transitively through field types of local ADTs (one level for foreign)
        let mut adts = Vec::new();
        for ld in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(ld), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                self.adts.insert(ld.to_def_id());
            }
        }
        loop {
            let todo: Vec<DefId> = self
                .adts
                .iter()
                .copied()
                .filter(|d| !self.adt_done.contains(d))
                .collect();
            if todo.is_empty() {
                break;
            }
            for d in todo {
                self.adt_done.insert(d);
                let a = tcx.adt_def(d);
                let mut vs = Vec::new();
                let discrs: Vec<u128> = if a.is_enum() {
                    a.discriminants(tcx).map(|(_, d)| d.val).collect()
                } else {
                    vec![0]
                };
                for (vi, v) in a.variants().iter_enumerated() {
                    let mut fs = Vec::new();
                    for f in v.fields.iter() {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let ti = if d.is_local() {
                            self.ty(t)
                        } else {
                            let s = with_no_trimmed_paths!(t.to_string());
                            if let Some(i) = self.types.get(&s) {
                                *i
                            } else {
                                let i = self.type_list.len();
                                self.types.insert(s.clone(), i);
                                self.type_list.push(s);
                                i
                            }
                        };
                        let dline = self.line(tcx.def_span(f.did));
                        fs.push(format!("[{},{},{}]", q(f.name.as_str()), ti, dline));
                    }
                    vs.push(format!(
                        "[{},{},[{}]]",
                        q(v.name.as_str()),
                        discrs.get(vi.as_usize()).copied().unwrap_or(0),
                        fs.join(",")
                    ));
                }
                let kind = if a.is_enum() {
                    "enum"
                } else if a.is_union() {
                    "union"
                } else {
                    "struct"
                };
                adts.push(format!(
                    "{{\"name\":{},\"kind\":\"{}\",\"local\":{},\"file\":{},\"variants\":[{}]}}",
                    q(&self.path(d)),
                    kind,
                    d.is_local() as u8,
                    q(&if d.is_local() { self.file(tcx.def_span(d)) } else { String::new() }),
                    vs.join(",")
                ));
            }
        }
        let types: Vec<String> = self.type_list.iter().map(|s| q(s)).collect();
        format!(
            "{{\"crate\":{},\"types\":[{}],\n\"adts\":[{}],\n\"fns\":[\n{}\n]}}\n",
            q(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str()),
            types.join(","),
            adts.join(",\n"),
            fns.join(",\n")
        )
    }
}

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(out) = &self.out {
            let mut cx = Cx {
                tcx,
                types: BTreeMap::new(),
                type_list: Vec::new(),
                adts: HashSet::new(),
                adt_done: HashSet::new(),
            };
            let s = cx.dump();
            let tmp = format!("{}.tmp{}", out, std::process::id());
            std::fs::write(&tmp, s).expect("write facts");
            std::fs::rename(&tmp, out).expect("rename facts");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let mut name = String::new();
    let mut ctype = String::from("bin");
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            name = args[i + 1].clone();
        }
        if args[i] == "--crate-type" && i + 1 < args.len() {
            ctype = args[i + 1].clone();
        }
        i += 1;
    }
    let want = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
    let mut out = None;
    if want.split(',').any(|w| w == name) {
        if let Ok(dir) = std::env::var("MIRFACTS_OUT") {
            out = Some(format!("{}/{}.{}.json", dir, name, ctype));
        }
        if let Ok(x) = std::env::var("MIRFACTS_ARGS") {
            args.extend(x.split_whitespace().map(|s| s.to_string()));
        }
    }
    let mut cb = Cb { out };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
