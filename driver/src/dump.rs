use crate::json::J;
use crate::obj;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::{HashSet, VecDeque};

pub struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<DefId>,
    seen: HashSet<DefId>,
    adts: HashSet<DefId>,
    adt_queue: VecDeque<DefId>,
    models: HashSet<String>,
}

/// Modules of other crates whose bodies are dumped too (small combinators the analysis descends into).
fn want_external(path: &str) -> bool {
    const P: &[&str] = &[
        "core::option::", "core::result::", "core::ops::control_flow::", "core::ops::try_trait::",
        "core::convert::", "core::cmp::", "core::bool::", "core::ops::function::",
        "itertools::",
    ];
    P.iter().any(|p| path.starts_with(p))
}

/// Library code the analyser has no model for is analysed from its own body, as far as that is in reach
fn may_inline(path: &str) -> bool {
    const P: &[&str] = &["nalgebra::", "simba::", "num_traits::", "approx::", "core::mem::", "core::iter::", "core::array::"];
    const N: &[&str] = &["nalgebra::linalg::", "nalgebra::base::storage", "nalgebra::base::array_storage", "nalgebra::base::vec_storage", "nalgebra::base::allocator", "nalgebra::base::default_allocator", "nalgebra::base::blas"];
    P.iter().any(|p| path.starts_with(p)) && !N.iter().any(|p| path.starts_with(p))
}

fn last(p: &str) -> String {
    let p = p.split('<').next().unwrap_or(p);
    p.rsplit("::").next().unwrap_or(p).to_string()
}

impl<'tcx> Dumper<'tcx> {
    fn id(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn span(&self, s: rustc_span::Span) -> J {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        J::S(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }

    fn garg(&mut self, a: ty::GenericArg<'tcx>) -> Option<J> {
        match a.kind() {
            GenericArgKind::Lifetime(_) => None,
            GenericArgKind::Type(t) => Some(self.ty(t)),
            GenericArgKind::Const(c) => Some(self.cnst(c)),
            #[allow(unreachable_patterns)]
            _ => None,
        }
    }
    fn gargs(&mut self, a: GenericArgsRef<'tcx>) -> J {
        J::A(a.iter().filter_map(|x| self.garg(x)).collect())
    }
    fn cnst(&mut self, c: ty::Const<'tcx>) -> J {
        match c.try_to_target_usize(self.tcx) {
            Some(v) => obj! {"t" => "const", "v" => J::I(v as i128)},
            None => obj! {"t" => "const", "v" => format!("{:?}", c)},
        }
    }

    pub fn ty(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                obj! {"t" => "prim", "n" => format!("{}", t)}
            }
            ty::Adt(def, args) => {
                let did = def.did();
                if self.adts.insert(did) {
                    self.adt_queue.push_back(did);
                }
                let a = self.gargs(args);
                obj! {"t" => "adt", "id" => self.id(did), "n" => tcx.def_path_str(did), "a" => a}
            }
            ty::Ref(_, e, m) => obj! {"t" => "ref", "m" => m.is_mut(), "e" => self.ty(*e)},
            ty::RawPtr(e, m) => obj! {"t" => "ptr", "m" => m.is_mut(), "e" => self.ty(*e)},
            ty::Slice(e) => obj! {"t" => "slice", "e" => self.ty(*e)},
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = self.cnst(*n);
                obj! {"t" => "array", "e" => e, "len" => n}
            }
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                obj! {"t" => "tuple", "a" => v}
            }
            ty::Param(p) => obj! {"t" => "param", "n" => p.name.to_string()},
            ty::FnDef(d, args) => {
                let a = self.gargs(args.skip_binder());
                let did: DefId = (*d).into();
                obj! {"t" => "fndef", "id" => self.id(did), "n" => tcx.def_path_str(did), "a" => a}
            }
            ty::Closure(d, args) => {
                let did: DefId = *d;
                self.want(did);
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                obj! {"t" => "closure", "id" => self.id(did), "ups" => ups}
            }
            ty::Alias(..) => obj! {"t" => "alias", "n" => format!("{}", t)},
            ty::Dynamic(..) => obj! {"t" => "dyn", "n" => format!("{}", t)},
            ty::FnPtr(..) => obj! {"t" => "fnptr", "n" => format!("{}", t)},
            _ => obj! {"t" => "other", "n" => format!("{}", t)},
        }
    }

    fn modelled(&mut self, d: DefId) -> bool {
        let tcx = self.tcx;
        if self.models.is_empty() {
            return true;
        }
        let name = match tcx.opt_item_name(d) {
            Some(n) => n.to_string(),
            None => return false,
        };
        let cls = match tcx.opt_associated_item(d) {
            Some(ai) => {
                let c = ai.container_id(tcx);
                if tcx.is_trait(c) {
                    last(&tcx.def_path_str(c))
                } else if let Some(t) = tcx.impl_opt_trait_ref(c) {
                    last(&tcx.def_path_str(t.instantiate_identity().skip_norm_wip().def_id))
                } else {
                    let st = tcx.type_of(c).instantiate_identity().skip_norm_wip();
                    match st.kind() {
                        ty::Adt(def, _) => last(&tcx.def_path_str(def.did())),
                        _ => format!("{}", st),
                    }
                }
            }
            None => "free".to_string(),
        };
        self.models.contains(&format!("{} {}", cls, name)) || self.models.contains(&format!("free {}", tcx.def_path_str(d)))
    }

    fn want(&mut self, d: DefId) {
        if self.seen.contains(&d) {
            return;
        }
        let ok = d.is_local() || {
            let p = self.id(d);
            want_external(&p) || (may_inline(&p) && !self.modelled(d))
        };
        if ok && self.tcx.is_mir_available(d) {
            self.seen.insert(d);
            self.queue.push_back(d);
        }
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut proj = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => obj! {"k" => "deref"},
                ProjectionElem::Field(f, fty) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pt.variant_index {
                                Some(v) => def.variant(v),
                                None if def.is_enum() => def.variant(rustc_abi::FIRST_VARIANT),
                                None => def.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let t = self.ty(fty);
                    obj! {"k" => "field", "i" => f.as_usize(), "n" => name, "ty" => t}
                }
                ProjectionElem::Index(l) => obj! {"k" => "index", "l" => l.as_usize()},
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    obj! {"k" => "cindex", "o" => J::I(offset as i128), "min" => J::I(min_length as i128), "end" => from_end}
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    obj! {"k" => "subslice", "from" => J::I(from as i128), "to" => J::I(to as i128), "end" => from_end}
                }
                ProjectionElem::Downcast(name, v) => {
                    obj! {"k" => "downcast", "v" => v.as_usize(), "n" => name.map(|s| s.to_string()).unwrap_or_default()}
                }
                other => obj! {"k" => "other", "d" => format!("{:?}", other)},
            };
            proj.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        obj! {"l" => p.local.as_usize(), "p" => proj}
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, did: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        self.want(did);
        let name = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
        let cont = match tcx.opt_associated_item(did) {
            Some(ai) => {
                let c = ai.container_id(tcx);
                if tcx.is_trait(c) {
                    let st = self.ty(args.type_at(0));
                    obj! {"kind" => "trait", "trait" => tcx.def_path_str(c), "self" => st}
                } else {
                    let st = tcx.type_of(c).instantiate_identity().skip_norm_wip();
                    let st_inst = {
                        // instantiate impl self type with the callee args (parent args come first)
                        ty::EarlyBinder::bind(tcx, st).instantiate(tcx, args).skip_norm_wip()
                    };
                    let head = self.ty(st_inst);
                    let tr = tcx.impl_opt_trait_ref(c).map(|t| tcx.def_path_str(t.instantiate_identity().skip_norm_wip().def_id));
                    obj! {"kind" => if tr.is_some() {"traitimpl"} else {"inherent"}, "self" => head,
                          "trait" => tr.map(J::S)}
                }
            }
            None => obj! {"kind" => "free"},
        };
        let resolved = match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => {
                let args = tcx.erase_and_anonymize_regions(args);
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, did, args))) {
                    Ok(Ok(Some(inst))) => {
                        let rd = inst.def_id();
                        self.want(rd);
                        let ra = self.gargs(inst.args);
                        let shim = match inst.def { ty::InstanceKind::Item(_) => "", _ => "shim" };
                        obj! {"id" => self.id(rd), "a" => ra, "shim" => shim}
                    }
                    _ => J::Null,
                }
            }
            _ => J::Null,
        };
        let a = self.gargs(args);
        let unsafe_ = match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => tcx.fn_sig(did).skip_binder().safety().is_unsafe(),
            _ => false,
        };
        obj! {"id" => self.id(did), "name" => name, "krate" => tcx.crate_name(did.krate).to_string(),
              "pretty" => tcx.def_path_str(did), "cont" => cont, "a" => a, "res" => resolved, "unsafe" => unsafe_,
              "ctor" => matches!(tcx.def_kind(did), DefKind::Ctor(..))}
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let cal = self.callee(env, (*d).into(), args.skip_binder());
            return obj! {"k" => "fn", "f" => cal};
        }
        if let ty::Closure(..) = t.kind() {
            return obj! {"k" => "zst", "ty" => self.ty(t)};
        }
        let tj = self.ty(t);
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return obj! {"k" => "promoted", "id" => self.id(u.def), "p" => p.as_usize(), "ty" => tj};
            }
        }
        let from = match c.const_ {
            mir::Const::Unevaluated(u, _) if u.def.is_local() => J::S(self.id(u.def)),
            _ => J::Null,
        };
        let val = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.const_.eval(tcx, env, c.span)));
        if let Ok(Ok(v)) = val {
            match v {
                ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                    let bits = i.to_bits(i.size());
                    let r = match t.kind() {
                        ty::Float(ty::FloatTy::F64) => obj! {"k" => "float", "v" => format!("{:?}", f64::from_bits(bits as u64)), "from" => from, "ty" => tj},
                        ty::Float(ty::FloatTy::F32) => obj! {"k" => "float", "v" => format!("{:?}", f32::from_bits(bits as u32)), "from" => from, "ty" => tj},
                        ty::Int(_) => obj! {"k" => "int", "v" => J::I(i.to_int(i.size())), "ty" => tj},
                        ty::Uint(_) => obj! {"k" => "int", "v" => J::I(bits as i128), "ty" => tj},
                        ty::Bool => obj! {"k" => "bool", "v" => bits != 0, "ty" => tj},
                        ty::Char => obj! {"k" => "char", "v" => J::I(bits as i128), "ty" => tj},
                        _ => obj! {"k" => "scalar", "v" => format!("{}", bits), "ty" => tj, "d" => format!("{}", c.const_)},
                    };
                    return r;
                }
                ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                    if let Some(mir::interpret::GlobalAlloc::Static(sd)) = tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                        let s = self.static_entry(sd);
                        return obj! {"k" => "static", "s" => s, "ty" => tj};
                    }
                }
                ConstValue::ZeroSized => return obj! {"k" => "zst", "ty" => tj},
                ConstValue::Slice { .. } => {
                    if let ty::Ref(_, e, _) = t.kind() {
                        if e.is_str() {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                return obj! {"k" => "str", "v" => String::from_utf8_lossy(b).to_string(), "ty" => tj};
                            }
                        } else if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return obj! {"k" => "bytes", "v" => String::from_utf8_lossy(b).to_string(), "ty" => tj};
                        }
                    }
                }
                _ => {}
            }
        }
        let def = match c.const_ {
            mir::Const::Unevaluated(u, _) => {
                self.want_const(u.def);
                J::S(self.id(u.def))
            }
            _ => J::Null,
        };
        obj! {"k" => "const", "d" => format!("{}", c.const_), "def" => def, "ty" => tj}
    }

    fn want_const(&mut self, d: DefId) {
        if d.is_local() && !self.seen.contains(&d) && matches!(self.tcx.def_kind(d), DefKind::Const{..} | DefKind::AssocConst{..} | DefKind::Static{..}) {
            self.seen.insert(d);
            self.queue.push_back(d);
        }
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => obj! {"k" => "copy", "p" => self.place(body, p)},
            Operand::Move(p) => obj! {"k" => "move", "p" => self.place(body, p)},
            Operand::Constant(c) => obj! {"k" => "const", "c" => self.constant(env, c)},
            #[allow(unreachable_patterns)]
            other => obj! {"k" => "other", "d" => format!("{:?}", other)},
        }
    }

    fn static_entry(&mut self, did: DefId) -> J {
        let tcx = self.tcx;
        let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
        let freeze = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
        let tj = self.ty(t);
        obj! {"id" => self.id(did), "span" => self.span(tcx.def_span(did)), "ty" => tj, "freeze" => freeze, "krate" => tcx.crate_name(did.krate).to_string(),
              "mut" => tcx.is_mutable_static(did), "tls" => tcx.is_thread_local_static(did), "foreign" => tcx.is_foreign_item(did)}
    }

    fn unsafe_blocks(&mut self, did: DefId) -> J {
        use rustc_hir::intravisit::Visitor;
        struct V(Vec<rustc_span::Span>);
        impl<'v> Visitor<'v> for V {
            fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                    self.0.push(b.span);
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        let mut v = V(vec![]);
        if let Some(l) = did.as_local() {
            if let Some(b) = self.tcx.hir_maybe_body_owned_by(l) {
                v.visit_body(b);
            }
        }
        J::A(v.0.into_iter().map(|s| self.span(s)).collect())
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => obj! {"k" => "use", "o" => self.operand(env, body, o)},
            Rvalue::Repeat(o, n) => {
                let o = self.operand(env, body, o);
                let n = self.cnst(*n);
                obj! {"k" => "repeat", "o" => o, "n" => n}
            }
            Rvalue::Ref(_, k, p) => obj! {"k" => "ref", "m" => matches!(k, BorrowKind::Mut{..}), "fake" => matches!(k, BorrowKind::Fake(_)), "p" => self.place(body, p)},
            Rvalue::RawPtr(k, p) => obj! {"k" => "rawptr", "m" => format!("{:?}", k), "p" => self.place(body, p)},
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(env, body, o);
                let t = self.ty(*t);
                obj! {"k" => "cast", "ck" => format!("{:?}", k), "o" => o, "ty" => t}
            }
            Rvalue::BinaryOp(op, b) => {
                let l = self.operand(env, body, &b.0);
                let rr = self.operand(env, body, &b.1);
                obj! {"k" => "bin", "op" => format!("{:?}", op), "l" => l, "r" => rr}
            }
            Rvalue::UnaryOp(op, o) => obj! {"k" => "un", "op" => format!("{:?}", op), "o" => self.operand(env, body, o)},
            Rvalue::Discriminant(p) => obj! {"k" => "discr", "p" => self.place(body, p)},
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(env, body, o)).collect();
                let tcx = self.tcx;
                match &**k {
                    AggregateKind::Array(_) => obj! {"k" => "agg", "ak" => "array", "ops" => os},
                    AggregateKind::Tuple => obj! {"k" => "agg", "ak" => "tuple", "ops" => os},
                    AggregateKind::Adt(did, v, args, _, _) => {
                        let def = tcx.adt_def(*did);
                        if self.adts.insert(*did) {
                            self.adt_queue.push_back(*did);
                        }
                        let vd = def.variant(*v);
                        let names: Vec<J> = vd.fields.iter().map(|f| J::S(f.name.to_string())).collect();
                        let a = self.gargs(args);
                        obj! {"k" => "agg", "ak" => "adt", "id" => self.id(*did), "n" => tcx.def_path_str(*did),
                              "enum" => def.is_enum(), "v" => v.as_usize(), "vn" => vd.name.to_string(),
                              "fields" => names, "a" => a, "ops" => os}
                    }
                    AggregateKind::Closure(did, _) => {
                        self.want(*did);
                        obj! {"k" => "agg", "ak" => "closure", "id" => self.id(*did), "ops" => os}
                    }
                    other => obj! {"k" => "agg", "ak" => "other", "d" => format!("{:?}", other), "ops" => os},
                }
            }
            Rvalue::CopyForDeref(p) => obj! {"k" => "use", "o" => obj!{"k" => "copy", "p" => self.place(body, p)}},
            #[allow(unreachable_patterns)]
            other => obj! {"k" => "other", "d" => format!("{:?}", other)},
        }
    }

    fn body(&mut self, did: DefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, did);
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if let Some(l) = p.as_local() {
                    names[l.as_usize()] = Some(v.name.to_string());
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                obj! {"ty" => t, "n" => names[l.as_usize()].clone().map(J::S)}
            })
            .collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut stmts = vec![];
            for s in &bb.statements {
                let j = match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(env, body, &b.1);
                        obj! {"k" => "assign", "p" => p, "r" => r, "s" => self.span(s.source_info.span)}
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        obj! {"k" => "setdiscr", "p" => self.place(body, place), "v" => variant_index.as_usize(), "s" => self.span(s.source_info.span)}
                    }
                    StatementKind::Intrinsic(i) => obj! {"k" => "intrinsic", "d" => format!("{:?}", i), "s" => self.span(s.source_info.span)},
                    _ => continue,
                };
                stmts.push(j);
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => obj! {"k" => "goto", "t" => target.as_usize()},
                TerminatorKind::SwitchInt { discr, targets } => {
                    let vals: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), J::from(b.as_usize())])).collect();
                    obj! {"k" => "switch", "o" => self.operand(env, body, discr), "vals" => vals, "otherwise" => targets.otherwise().as_usize(), "s" => sp}
                }
                TerminatorKind::Return => obj! {"k" => "return"},
                TerminatorKind::Unreachable => obj! {"k" => "unreachable"},
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => obj! {"k" => "unwind"},
                TerminatorKind::Drop { place, target, .. } => {
                    let t = body.local_decls[place.local].ty;
                    let tj = self.ty(t);
                    obj! {"k" => "drop", "t" => target.as_usize(), "p" => self.place(body, place), "ty" => tj}
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(env, body, func);
                    let a: Vec<J> = args.iter().map(|x| self.operand(env, body, &x.node)).collect();
                    obj! {"k" => "call", "f" => f, "args" => a, "dest" => self.place(body, destination),
                          "t" => target.map(|t| J::from(t.as_usize())), "s" => sp}
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(env, body, len);
                            let i = self.operand(env, body, index);
                            obj! {"m" => "bounds", "len" => l, "index" => i}
                        }
                        AssertKind::Overflow(op, l, r) => {
                            let l = self.operand(env, body, l);
                            let r = self.operand(env, body, r);
                            obj! {"m" => "overflow", "op" => format!("{:?}", op), "l" => l, "r" => r}
                        }
                        o => obj! {"m" => "other", "d" => format!("{:?}", o)},
                    };
                    obj! {"k" => "assert", "o" => self.operand(env, body, cond), "exp" => *expected, "msg" => m, "t" => target.as_usize(), "s" => sp}
                }
                TerminatorKind::FalseEdge { real_target, .. } => obj! {"k" => "goto", "t" => real_target.as_usize()},
                TerminatorKind::FalseUnwind { real_target, .. } => obj! {"k" => "goto", "t" => real_target.as_usize()},
                other => obj! {"k" => "other", "d" => format!("{:?}", other)},
            };
            blocks.push(obj! {"s" => stmts, "t" => term, "c" => bb.is_cleanup});
        }
        obj! {"argc" => body.arg_count, "locals" => locals, "blocks" => blocks, "span" => self.span(body.span)}
    }

    fn fn_entry(&mut self, did: DefId) -> J {
        let tcx = self.tcx;
        let kind = tcx.def_kind(did);
        let body_j;
        let mut promoted = vec![];
        match kind {
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                let b = tcx.mir_for_ctfe(did);
                body_j = self.body(did, b);
                for p in tcx.promoted_mir(did).iter() {
                    promoted.push(self.body(did, p));
                }
            }
            _ => {
                let b = tcx.optimized_mir(did);
                body_j = self.body(did, b);
                for p in tcx.promoted_mir(did).iter() {
                    promoted.push(self.body(did, p));
                }
            }
        }
        let gen: Vec<J> = {
            let g = ty::GenericArgs::identity_for_item(tcx, did);
            g.iter().filter_map(|x| self.garg(x)).collect()
        };
        let cont = match tcx.opt_associated_item(did) {
            Some(ai) => {
                let c = ai.container_id(tcx);
                if tcx.is_trait(c) {
                    obj! {"kind" => "trait", "trait" => tcx.def_path_str(c)}
                } else {
                    let st = tcx.type_of(c).instantiate_identity().skip_norm_wip();
                    let sj = self.ty(st);
                    let tr = tcx.impl_opt_trait_ref(c).map(|t| {
                        let t = t.instantiate_identity().skip_norm_wip();
                        let a = self.gargs(t.args);
                        obj! {"n" => tcx.def_path_str(t.def_id), "a" => a}
                    });
                    let derived = tcx.is_automatically_derived(c);
                    obj! {"kind" => if tr.is_some() {"traitimpl"} else {"inherent"}, "impl" => self.id(c), "self" => sj, "trait" => tr, "derived" => derived}
                }
            }
            None => obj! {"kind" => "free"},
        };
        let parent = tcx.opt_parent(did).map(|p| J::S(self.id(p)));
        let (reach, pubv) = match did.as_local() {
            Some(l) => {
                let ev = tcx.effective_visibilities(());
                (ev.is_reachable(l), ev.is_exported(l))
            }
            None => (true, true),
        };
        let sig = match kind {
            DefKind::Fn | DefKind::AssocFn => {
                let s = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                let i: Vec<J> = s.inputs().iter().map(|t| self.ty(*t)).collect();
                let o = self.ty(s.output());
                obj! {"in" => i, "out" => o, "unsafe" => s.safety().is_unsafe()}
            }
            _ => J::Null,
        };
        let mut preds: Vec<J> = vec![];
        {
            let ip = tcx.clauses_of(did).instantiate_identity(tcx);
            for c in ip.clauses.iter() {
                let c = c.skip_norm_wip();
                if let Some(tp) = c.as_trait_clause() {
                    let tp = tp.skip_binder();
                    let st = self.ty(tp.self_ty());
                    preds.push(obj! {"ty" => st, "trait" => tcx.def_path_str(tp.trait_ref.def_id)});
                }
            }
        }
        obj! {"id" => self.id(did), "preds" => preds, "name" => tcx.opt_item_name(did).map(|s| J::S(s.to_string())), "pretty" => tcx.def_path_str(did),
              "krate" => tcx.crate_name(did.krate).to_string(), "local" => did.is_local(), "kind" => format!("{:?}", kind),
              "generics" => gen, "cont" => cont, "parent" => parent, "reach" => reach, "exported" => pubv, "sig" => sig,
              "body" => body_j, "promoted" => promoted, "unsafe_blocks" => self.unsafe_blocks(did)}
    }

    fn adt_entry(&mut self, did: DefId) -> J {
        let tcx = self.tcx;
        let def = tcx.adt_def(did);
        let mut vs = vec![];
        for v in def.variants().iter() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = if did.is_local() {
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    self.ty(ft)
                } else {
                    J::Null
                };
                fs.push(obj! {"n" => f.name.to_string(), "vis" => if f.vis.is_public() {"pub"} else {"priv"}, "ty" => t});
            }
            vs.push(obj! {"n" => v.name.to_string(), "fields" => fs});
        }
        let (exported, span) = match did.as_local() {
            Some(l) => (tcx.effective_visibilities(()).is_exported(l), self.span(tcx.def_span(did))),
            None => (true, J::Null),
        };
        let gen: Vec<J> = {
            let g = ty::GenericArgs::identity_for_item(tcx, did);
            g.iter().filter_map(|x| self.garg(x)).collect()
        };
        obj! {"id" => self.id(did), "n" => tcx.def_path_str(did), "krate" => tcx.crate_name(did.krate).to_string(), "local" => did.is_local(), "generics" => gen,
              "kind" => if def.is_enum() {"enum"} else if def.is_union() {"union"} else {"struct"},
              "non_exhaustive" => def.is_variant_list_non_exhaustive(), "exported" => exported, "variants" => vs, "span" => span}
    }
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let models = std::env::var("MIRFACTS_MODELS").ok().and_then(|p| std::fs::read_to_string(p).ok()).map(|s| s.lines().map(|l| l.to_string()).collect()).unwrap_or_default();
    let mut d = Dumper { models, tcx, queue: VecDeque::new(), seen: HashSet::new(), adts: HashSet::new(), adt_queue: VecDeque::new() };
    let mut statics = vec![];
    let mut impls = vec![];
    for l in tcx.hir_crate_items(()).definitions() {
        let did = l.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                if d.adts.insert(did) {
                    d.adt_queue.push_back(did);
                }
            }
            DefKind::Static { .. } => {
                let s = d.static_entry(did);
                statics.push(s)
            }
            DefKind::Impl { .. } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let sj = d.ty(st);
                let tr = tcx.impl_opt_trait_ref(did).map(|t| {
                    let t = t.instantiate_identity().skip_norm_wip();
                    let a = d.gargs(t.args);
                    obj! {"n" => tcx.def_path_str(t.def_id), "a" => a}
                });
                let mut items = vec![];
                for ai in tcx.associated_items(did).in_definition_order() {
                    items.push(obj! {"n" => ai.opt_name().map(|s| J::S(s.to_string())), "id" => d.id(ai.def_id)});
                    if ai.is_type() {
                        let t = tcx.type_of(ai.def_id).instantiate_identity().skip_norm_wip();
                        let tj = d.ty(t);
                        items.push(obj! {"n" => ai.opt_name().map(|s| J::S(s.to_string())), "ty" => tj});
                    }
                }
                impls.push(obj! {"id" => d.id(did), "self" => sj, "trait" => tr, "derived" => tcx.is_automatically_derived(did), "items" => items, "unsafe" => tcx.impl_is_of_trait(did) && tcx.impl_trait_header(did).safety.is_unsafe(), "span" => d.span(tcx.def_span(did))});
            }
            _ => {}
        }
    }
    for l in tcx.mir_keys(()).iter() {
        let did = l.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_mir_available(did) && d.seen.insert(did) {
                    d.queue.push_back(did);
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                if d.seen.insert(did) {
                    d.queue.push_back(did);
                }
            }
            _ => {}
        }
    }
    let mut fns = vec![];
    let mut adts = vec![];
    loop {
        if let Some(did) = d.queue.pop_front() {
            fns.push(d.fn_entry(did));
            continue;
        }
        if let Some(did) = d.adt_queue.pop_front() {
            adts.push(d.adt_entry(did));
            continue;
        }
        break;
    }
    let externs: Vec<J> = tcx.crates(()).iter().map(|c| J::S(tcx.crate_name(*c).to_string())).collect();
    let o = obj! {"crate" => tcx.crate_name(LOCAL_CRATE).to_string(), "fns" => fns, "adts" => adts, "statics" => statics, "impls" => impls, "crates" => externs};
    let mut s = String::new();
    o.write(&mut s);
    s
}
