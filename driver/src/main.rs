//! rustc wrapper that dumps type-resolved, polymorphic MIR of the selected crates as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::ty::{self, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let mut d = Dump {
            tcx,
            defs: BTreeMap::new(),
            adts: BTreeMap::new(),
            pending_adts: VecDeque::new(),
            ext_fns: BTreeMap::new(),
        };
        let j = d.krate();
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        std::fs::create_dir_all(&self.out).unwrap();
        std::fs::write(format!("{}/{}.json", self.out, name), j.render()).unwrap();
        rustc_driver::Compilation::Continue
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    defs: BTreeMap<String, J>,
    adts: BTreeMap<String, J>,
    pending_adts: VecDeque<DefId>,
    ext_fns: BTreeMap<String, DefId>,
}

fn s(x: impl ToString) -> J {
    J::S(x.to_string())
}

impl<'tcx> Dump<'tcx> {
    fn id(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let id = format!(
            "{}{}",
            tcx.crate_name(d.krate),
            tcx.def_path(d).to_string_no_crate_verbose()
        );
        if !self.defs.contains_key(&id) {
            self.defs.insert(id.clone(), J::Null);
            let mut o = vec![];
            o.push(("pretty", s(rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d)))));
            o.push(("crate", s(tcx.crate_name(d.krate))));
            let kind = tcx.def_kind(d);
            o.push(("kind", s(format!("{:?}", kind))));
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) && !tcx.fn_sig(d).skip_binder().safety().is_safe() {
                o.push(("unsafe", J::B(true)));
            }
            if let Some(n) = tcx.opt_item_name(d) {
                o.push(("name", s(n)));
            }
            if let Some(p) = tcx.opt_parent(d) {
                if p.index != rustc_span::def_id::CRATE_DEF_INDEX {
                    let pk = tcx.def_kind(p);
                    match pk {
                        DefKind::Trait => {
                            let t = self.id(p);
                            o.push(("trait", J::S(t)));
                        },
                        DefKind::Impl { of_trait } => {
                            let i = self.id(p);
                            o.push(("impl", J::S(i)));
                            if of_trait {
                                let tr = tcx.impl_trait_ref(p).skip_binder();
                                let t = self.id(tr.def_id);
                                o.push(("impl_trait", J::S(t)));
                            }
                            if let Some(ai) = tcx.opt_associated_item(d) {
                                if let ty::AssocContainer::TraitImpl(Ok(ti)) = ai.container {
                                    let t = self.id(ti);
                                    o.push(("trait_item", J::S(t)));
                                }
                            }
                        },
                        _ => {},
                    }
                    let pid = self.id(p);
                    o.push(("parent", J::S(pid)));
                }
            }
            self.defs.insert(id.clone(), J::o(o));
        }
        id
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let f = |sp: Span| {
            let l = sm.lookup_char_pos(sp.lo());
            format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
        };
        let a = f(sp);
        let b = f(sp.source_callsite());
        if a == b {
            J::S(a)
        } else {
            J::S(format!("{} (expanded at {})", a, b))
        }
    }

    fn gargs(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        J::A(
            a.iter()
                .filter_map(|g| match g.kind() {
                    ty::GenericArgKind::Type(t) => Some(self.ty(t)),
                    ty::GenericArgKind::Const(c) => Some(self.cst(c)),
                    ty::GenericArgKind::Lifetime(_) => None,
                    #[allow(unreachable_patterns)]
                    _ => None,
                })
                .collect(),
        )
    }

    fn ty(&mut self, t: ty::Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                J::A(vec![s("prim"), s(format!("{}", t))])
            },
            ty::Adt(ad, args) => {
                let id = self.id(ad.did());
                if !self.adts.contains_key(&id) {
                    self.adts.insert(id.clone(), J::Null);
                    self.pending_adts.push_back(ad.did());
                }
                J::A(vec![s("adt"), J::S(id), self.gargs(args)])
            },
            ty::Array(e, n) => J::A(vec![s("array"), self.ty(e), self.cst(n)]),
            ty::Slice(e) => J::A(vec![s("slice"), self.ty(e)]),
            ty::RawPtr(e, m) => J::A(vec![s("ptr"), self.ty(e), J::B(m.is_mut())]),
            ty::Ref(_, e, m) => J::A(vec![s("ref"), self.ty(e), J::B(m.is_mut())]),
            ty::FnDef(d, args) => {
                let id = self.id(d);
                let args = args.skip_binder();
                J::A(vec![s("fndef"), J::S(id), self.gargs(args)])
            },
            ty::Closure(d, args) => {
                let id = self.id(d);
                let pa = tcx.mk_args(args.as_closure().parent_args());
                J::A(vec![s("closure"), J::S(id), self.gargs(pa)])
            },
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t)).collect();
                J::A(vec![s("tuple"), J::A(v)])
            },
            ty::Alias(_, at) => match at.kind {
                ty::AliasTyKind::Projection { def_id } => {
                    let id = self.id(def_id);
                    J::A(vec![s("proj"), J::S(id), self.gargs(at.args)])
                },
                _ => J::A(vec![s("alias"), s(format!("{}", t))]),
            },
            ty::Param(p) => J::A(vec![s("param"), s(p.name), J::I(p.index as i128)]),
            ty::Dynamic(preds, _) => {
                let mut v = vec![];
                for p in preds.iter() {
                    if let ty::ExistentialPredicate::Trait(tr) = p.skip_binder() {
                        v.push(J::S(self.id(tr.def_id)));
                    }
                }
                J::A(vec![s("dyn"), J::A(v)])
            },
            _ => J::A(vec![s("other"), s(format!("{}", t))]),
        }
    }

    fn cst(&mut self, c: ty::Const<'tcx>) -> J {
        match c.kind() {
            ty::ConstKind::Param(p) => J::A(vec![s("cparam"), s(p.name), J::I(p.index as i128)]),
            ty::ConstKind::Value(v) => {
                if let Some(b) = v.try_to_leaf() {
                    let sz = b.size();
                    let bits = b.to_bits(sz);
                    J::A(vec![s("cval"), J::I(bits as i128)])
                } else {
                    J::A(vec![s("cother"), s(format!("{:?}", v))])
                }
            },
            _ => J::A(vec![s("cother"), s(format!("{}", c))]),
        }
    }

    fn place(&mut self, p: mir::Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                mir::ProjectionElem::Deref => J::A(vec![s("deref")]),
                mir::ProjectionElem::Field(f, _) => J::A(vec![s("field"), J::I(f.as_usize() as i128)]),
                mir::ProjectionElem::Index(l) => J::A(vec![s("index"), J::I(l.as_usize() as i128)]),
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("cindex"), J::I(offset as i128), J::B(from_end)])
                },
                mir::ProjectionElem::Downcast(_, vi) => J::A(vec![s("downcast"), J::I(vi.as_usize() as i128)]),
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("subslice"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                },
                _ => J::A(vec![s("projother"), s(format!("{:?}", e))]),
            });
        }
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(v)])
    }

    fn bytes(&self, id: mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                if off + len <= a.len() {
                    Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
                } else {
                    None
                }
            },
            _ => None,
        }
    }

    fn bytes_j(&self, b: Vec<u8>) -> J {
        J::A(b.into_iter().map(|x| J::I(x as i128)).collect())
    }

    fn constant(&mut self, owner: DefId, c: &mir::ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        let tj = self.ty(ty);
        if let ty::FnDef(..) = ty.kind() {
            return J::A(vec![s("const"), s("fn"), tj]);
        }
        let val = match c.const_ {
            mir::Const::Ty(_, ct) => return J::A(vec![s("const"), s("tyconst"), self.cst(ct), tj]),
            mir::Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    let id = self.id(u.def);
                    return J::A(vec![s("const"), s("promoted"), J::S(id), J::I(p.as_usize() as i128), tj]);
                }
                let env = ty::TypingEnv::post_analysis(tcx, owner);
                let id = self.id(u.def);
                let g = self.gargs(u.args);
                if u.args.has_param() {
                    return J::A(vec![s("const"), s("uneval"), J::S(id), g, tj]);
                }
                match c.const_.eval(tcx, env, c.span) {
                    Ok(v) => {
                        let vj = self.cval(v, ty);
                        return J::A(vec![s("const"), s("uneval"), J::S(id), g, tj, vj]);
                    },
                    Err(_) => return J::A(vec![s("const"), s("uneval"), J::S(id), g, tj]),
                }
            },
            mir::Const::Val(v, _) => v,
        };
        let vj = self.cval(val, ty);
        J::A(vec![s("const"), s("val"), vj, tj])
    }

    fn cval(&mut self, v: mir::ConstValue, ty: ty::Ty<'tcx>) -> J {
        match v {
            mir::ConstValue::ZeroSized => J::A(vec![s("zst")]),
            mir::ConstValue::Scalar(Scalar::Int(i)) => {
                J::A(vec![s("bits"), J::S(i.to_bits(i.size()).to_string()), J::I(i.size().bytes() as i128)])
            },
            mir::ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                let off = off.bytes() as usize;
                match ty.kind() {
                    ty::Ref(_, inner, _) => match inner.kind() {
                        ty::Array(e, n) if e == &self.tcx.types.u8 => {
                            if let Some(n) = n.try_to_target_usize(self.tcx) {
                                if let Some(b) = self.bytes(aid, off, n as usize) {
                                    return J::A(vec![s("bytes"), self.bytes_j(b)]);
                                }
                            }
                        },
                        ty::Uint(_) | ty::Int(_) | ty::Float(_) | ty::Bool | ty::Char => {
                            let sz = match inner.kind() {
                                ty::Uint(u) => u.bit_width().unwrap_or(64) / 8,
                                ty::Int(u) => u.bit_width().unwrap_or(64) / 8,
                                ty::Float(f) => f.bit_width() / 8,
                                ty::Bool => 1,
                                _ => 4,
                            };
                            if let Some(b) = self.bytes(aid, off, sz as usize) {
                                let mut x: u128 = 0;
                                for (i, y) in b.iter().enumerate() {
                                    x |= (*y as u128) << (8 * i);
                                }
                                return J::A(vec![
                                    s("refbits"),
                                    J::S(x.to_string()),
                                    J::I(sz as i128),
                                    self.ty(*inner),
                                ]);
                            }
                        },
                        _ => {},
                    },
                    _ => {},
                }
                J::A(vec![s("ptr"), s(format!("{:?}", self.tcx.global_alloc(aid)))])
            },
            mir::ConstValue::Slice { alloc_id, meta } => {
                match self.bytes(alloc_id, 0, meta as usize) {
                    Some(b) => {
                        let is_str = matches!(ty.kind(), ty::Ref(_, i, _) if i.is_str());
                        if is_str {
                            J::A(vec![s("str"), J::S(String::from_utf8_lossy(&b).to_string())])
                        } else {
                            J::A(vec![s("bytes"), self.bytes_j(b)])
                        }
                    },
                    None => J::A(vec![s("opaque")]),
                }
            },
            mir::ConstValue::Indirect { .. } => J::A(vec![s("opaque")]),
        }
    }

    fn operand(&mut self, owner: DefId, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::A(vec![s("copy"), self.place(*p)]),
            mir::Operand::Move(p) => J::A(vec![s("move"), self.place(*p)]),
            mir::Operand::Constant(c) => self.constant(owner, c),
            _ => J::A(vec![s("rtcheck")]),
        }
    }

    fn rvalue(&mut self, owner: DefId, r: &mir::Rvalue<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => J::A(vec![s("use"), self.operand(owner, o)]),
            Repeat(o, n) => J::A(vec![s("repeat"), self.operand(owner, o), self.cst(*n)]),
            Ref(_, bk, p) => {
                J::A(vec![s("ref"), J::B(matches!(bk, mir::BorrowKind::Mut { .. })), self.place(*p)])
            },
            RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(*p)]),
            Cast(k, o, t) => J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(owner, o), self.ty(*t)]),
            BinaryOp(b, ops) => J::A(vec![
                s("bin"),
                s(format!("{:?}", b)),
                self.operand(owner, &ops.0),
                self.operand(owner, &ops.1),
            ]),
            UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), self.operand(owner, o)]),
            Discriminant(p) => J::A(vec![s("discr"), self.place(*p)]),
            CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(*p)])]),
            Reborrow(_, _, p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(*p)])]),
            Aggregate(k, ops) => {
                let kj = match &**k {
                    mir::AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t)]),
                    mir::AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    mir::AggregateKind::Adt(d, vi, args, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args);
                        let t = t.skip_norm_wip();
                        J::A(vec![s("adt"), self.ty(t), J::I(vi.as_usize() as i128)])
                    },
                    mir::AggregateKind::Closure(d, args) => {
                        let id = self.id(*d);
                        let pa = self.tcx.mk_args(args.as_closure().parent_args());
                        J::A(vec![s("closure"), J::S(id), self.gargs(pa)])
                    },
                    _ => J::A(vec![s("aggother"), s(format!("{:?}", k))]),
                };
                let v = ops.iter().map(|o| self.operand(owner, o)).collect();
                J::A(vec![s("agg"), kj, J::A(v)])
            },
            _ => J::A(vec![s("rvother"), s(format!("{:?}", r))]),
        }
    }

    fn body(&mut self, owner: DefId, b: &mir::Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![J::I(p.local.as_usize() as i128), s(v.name)]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                use mir::StatementKind::*;
                match &x.kind {
                    Assign(a) => st.push(J::A(vec![
                        s("="),
                        self.place(a.0),
                        self.rvalue(owner, &a.1),
                        self.span(x.source_info.span),
                    ])),
                    SetDiscriminant { place, variant_index } => st.push(J::A(vec![
                        s("setdiscr"),
                        self.place(**place),
                        J::I(variant_index.as_usize() as i128),
                        self.span(x.source_info.span),
                    ])),
                    Intrinsic(i) => st.push(J::A(vec![s("intrinsic"), s(format!("{:?}", i)), J::Null, self.span(x.source_info.span)])),
                    _ => {},
                }
            }
            let t = bb.terminator();
            use mir::TerminatorKind::*;
            let tj = match &t.kind {
                Goto { target, .. } => J::A(vec![s("goto"), J::I(target.as_usize() as i128)]),
                FalseEdge { real_target, .. } => J::A(vec![s("goto"), J::I(real_target.as_usize() as i128)]),
                FalseUnwind { real_target, .. } => J::A(vec![s("goto"), J::I(real_target.as_usize() as i128)]),
                SwitchInt { discr, targets } => {
                    let ts = targets
                        .iter()
                        .map(|(v, t)| J::A(vec![J::S(v.to_string()), J::I(t.as_usize() as i128)]))
                        .collect();
                    let dty = discr.ty(&b.local_decls, tcx);
                    J::A(vec![
                        s("switch"),
                        self.operand(owner, discr),
                        J::A(ts),
                        J::I(targets.otherwise().as_usize() as i128),
                        self.ty(dty),
                    ])
                },
                Return => J::A(vec![s("return")]),
                Unreachable => J::A(vec![s("unreachable")]),
                UnwindResume | UnwindTerminate(_) => J::A(vec![s("resume")]),
                Drop { place, target, .. } => {
                    J::A(vec![s("drop"), J::I(target.as_usize() as i128), self.place(*place)])
                },
                Call { func, args, destination, target, fn_span, .. } => {
                    let fj = self.operand(owner, func);
                    let aj = args.iter().map(|a| self.operand(owner, &a.node)).collect();
                    let mut res = J::Null;
                    if let ty::FnDef(d, ga) = func.ty(&b.local_decls, tcx).kind() {
                        let d: DefId = (*d).into();
                        let ga = ga.skip_binder();
                        let env = ty::TypingEnv::post_analysis(tcx, owner);
                        let ga = tcx.erase_and_anonymize_regions(ga);
                        if tcx.trait_of_assoc(d).is_some() {
                            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, ga) {
                                let rid = self.id(inst.def_id());
                                let k = format!("{:?}", inst.def);
                                let k = k.split('(').next().unwrap().to_string();
                                res = J::A(vec![J::S(rid.clone()), self.gargs(inst.args), s(k)]);
                                self.note_fn(rid, inst.def_id());
                            }
                        } else {
                            let rid = self.id(d);
                            self.note_fn(rid, d);
                        }
                    }
                    J::A(vec![
                        s("call"),
                        fj,
                        J::A(aj),
                        self.place(*destination),
                        match target {
                            Some(t) => J::I(t.as_usize() as i128),
                            None => J::Null,
                        },
                        res,
                        self.span(*fn_span),
                    ])
                },
                Assert { cond, expected, msg, target, .. } => {
                    let mk = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => J::A(vec![
                            s("bounds"),
                            self.operand(owner, len),
                            self.operand(owner, index),
                        ]),
                        m => {
                            let k = format!("{:?}", m);
                            J::A(vec![s("other"), s(k)])
                        },
                    };
                    J::A(vec![
                        s("assert"),
                        self.operand(owner, cond),
                        J::B(*expected),
                        mk,
                        J::I(target.as_usize() as i128),
                        self.span(t.source_info.span),
                    ])
                },
                k => J::A(vec![s("termother"), s(format!("{:?}", k))]),
            };
            blocks.push(J::o(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("c", J::B(bb.is_cleanup)),
                ("sp", self.span(t.source_info.span)),
            ]));
        }
        J::o(vec![
            ("argc", J::I(b.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn note_fn(&mut self, id: String, d: DefId) {
        if !d.is_local() {
            self.ext_fns.insert(id, d);
        }
    }

    fn generics(&mut self, d: DefId) -> J {
        let g = self.tcx.generics_of(d);
        let mut v = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            let k = match p.kind {
                ty::GenericParamDefKind::Lifetime => continue,
                ty::GenericParamDefKind::Type { .. } => "type",
                ty::GenericParamDefKind::Const { .. } => "const",
            };
            v.push(J::A(vec![s(k), s(p.name), J::I(p.index as i128)]));
        }
        J::A(v)
    }

    fn predicates(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let preds = tcx.clauses_of(d).instantiate_identity(tcx);
        let mut v = vec![];
        for p in preds.clauses.iter() {
            let p = p.skip_norm_wip();
            match p.kind().skip_binder() {
                ty::ClauseKind::Trait(tp) => {
                    let t = self.id(tp.trait_ref.def_id);
                    let a = self.gargs(tp.trait_ref.args);
                    v.push(J::A(vec![s("trait"), J::S(t), a]));
                },
                ty::ClauseKind::Projection(pp) => {
                    let t = self.id(pp.projection_term.expect_projection_def_id());
                    let a = self.gargs(pp.projection_term.args);
                    let r = match pp.term.kind() {
                        ty::TermKind::Ty(t) => self.ty(t),
                        ty::TermKind::Const(c) => self.cst(c),
                    };
                    v.push(J::A(vec![s("proj"), J::S(t), a, r]));
                },
                _ => {},
            }
        }
        J::A(v)
    }

    fn func(&mut self, d: DefId) -> Option<J> {
        let tcx = self.tcx;
        if !tcx.is_mir_available(d) {
            return None;
        }
        let kind = tcx.def_kind(d);
        let b = tcx.instance_mir(ty::InstanceKind::Item(d));
        let bj = self.body(d, b);
        let mut proms = vec![];
        for p in tcx.promoted_mir(d).iter() {
            proms.push(self.body(d, p));
        }
        let g = self.generics(d);
        let pr = self.predicates(d);
        let id = self.id(d);
        let unsafe_ = match kind {
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(d).skip_binder();
                !sig.safety().is_safe()
            },
            _ => false,
        };
        Some(J::o(vec![
            ("id", J::S(id)),
            ("kind", s(format!("{:?}", kind))),
            ("span", self.span(tcx.def_span(d))),
            ("generics", g),
            ("preds", pr),
            ("body", bj),
            ("promoted", J::A(proms)),
            ("unsafe", J::B(unsafe_)),
            ("vis", s(if d.is_local() { format!("{:?}", tcx.visibility(d)) } else { String::new() })),
        ]))
    }

    fn krate(&mut self) -> J {
        let tcx = self.tcx;
        let mut fns = vec![];
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if let Some(f) = self.func(d) {
                        fns.push(f);
                    }
                },
                _ => {},
            }
        }
        let mut impls = vec![];
        let mut traits = vec![];
        let mut statics = vec![];
        let mut consts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Impl { of_trait } => {
                    let iid = self.id(d);
                    let mut o = vec![
                        ("id", J::S(iid)),
                        ("span", self.span(tcx.def_span(d))),
                        ("generics", self.generics(d)),
                        ("preds", self.predicates(d)),
                    ];
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    o.push(("self", self.ty(st)));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        let t = self.id(tr.def_id);
                        o.push(("trait", J::S(t)));
                        o.push(("targs", self.gargs(tr.args)));
                    }
                    let mut items = vec![];
                    for ai in tcx.associated_items(d).in_definition_order() {
                        let aid = self.id(ai.def_id);
                        let n = match ai.opt_name() {
                            Some(n) => n.to_string(),
                            None => continue,
                        };
                        match ai.kind {
                            ty::AssocKind::Fn { .. } => {
                                items.push(J::A(vec![s("fn"), s(n), J::S(aid)]));
                            },
                            ty::AssocKind::Type { .. } => {
                                let t = tcx.type_of(ai.def_id).instantiate_identity().skip_norm_wip();
                                let tj = self.ty(t);
                                let g = self.generics(ai.def_id);
                                items.push(J::A(vec![s("type"), s(n), J::S(aid), tj, g]));
                            },
                            ty::AssocKind::Const { .. } => {
                                let v = tcx.const_eval_poly(ai.def_id).ok();
                                let t = tcx.type_of(ai.def_id).instantiate_identity().skip_norm_wip();
                                let vj = match v {
                                    Some(v) => self.cval(v, t),
                                    None => J::Null,
                                };
                                items.push(J::A(vec![s("const"), s(n), J::S(aid), vj]));
                                let b = tcx.mir_for_ctfe(ai.def_id);
                                let bj = self.body(ai.def_id, b);
                                consts.push(J::o(vec![("id", J::S(self.id(ai.def_id))), ("body", bj), ("generics", self.generics(ai.def_id))]));
                            },
                        }
                    }
                    o.push(("items", J::A(items)));
                    impls.push(J::o(o));
                },
                DefKind::Trait => {
                    let tid = self.id(d);
                    let mut items = vec![];
                    for ai in tcx.associated_items(d).in_definition_order() {
                        let aid = self.id(ai.def_id);
                        let n = match ai.opt_name() {
                            Some(n) => n.to_string(),
                            None => continue,
                        };
                        let k = match ai.kind {
                            ty::AssocKind::Fn { .. } => "fn",
                            ty::AssocKind::Type { .. } => "type",
                            ty::AssocKind::Const { .. } => "const",
                        };
                        let has_default = ai.defaultness(tcx).has_value();
                        items.push(J::A(vec![s(k), s(n), J::S(aid), J::B(has_default), self.predicates(ai.def_id)]));
                    }
                    let g = self.generics(d);
                    let p = self.predicates(d);
                    traits.push(J::o(vec![
                        ("id", J::S(tid)),
                        ("generics", g),
                        ("preds", p),
                        ("items", J::A(items)),
                        ("span", self.span(tcx.def_span(d))),
                    ]));
                },
                DefKind::Static { mutability, .. } => {
                    let sid = self.id(d);
                    statics.push(J::A(vec![J::S(sid), J::B(mutability.is_mut()), self.span(tcx.def_span(d))]));
                },
                DefKind::Struct | DefKind::Enum => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let _ = self.ty(t);
                },
                _ => {},
            }
        }
        while let Some(d) = self.pending_adts.pop_front() {
            let ad = tcx.adt_def(d);
            let id = self.id(d);
            let mut vs = vec![];
            for (vi, v) in ad.variants().iter_enumerated() {
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let tj = if d.is_local() { self.ty(t) } else { J::Null };
                    fs.push(J::A(vec![s(f.name), tj]));
                }
                let dis = if ad.is_enum() {
                    J::S(ad.discriminant_for_variant(tcx, vi).val.to_string())
                } else {
                    J::S("0".to_string())
                };
                vs.push(J::A(vec![s(v.name), J::A(fs), dis]));
            }
            let g = self.generics(d);
            let sp = self.span(tcx.def_span(d));
            self.adts.insert(
                id,
                J::o(vec![
                    ("variants", J::A(vs)),
                    ("generics", g),
                    ("enum", J::B(ad.is_enum())),
                    ("span", sp),
                    ("local", J::B(d.is_local())),
                    ("union", J::B(ad.is_union())),
                    ("repr_c", J::B(ad.repr().c())),
                ]),
            );
        }
        // External bodies reachable from local code (one hop at a time, bounded).
        let mut ext = vec![];
        let mut seen: BTreeSet<String> = BTreeSet::new();
        let limit: usize = std::env::var("MIRDUMP_EXT_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
        let mut round = 0;
        while round < 3 && ext.len() < limit {
            let todo: Vec<_> = self.ext_fns.iter().filter(|x| !seen.contains(x.0)).map(|(a,b)| (a.clone(), *b)).collect();
            if todo.is_empty() {
                break;
            }
            for (id, d) in todo {
                seen.insert(id);
                if ext.len() >= limit {
                    break;
                }
                if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                    if let Some(f) = self.func(d) {
                        ext.push(f);
                    }
                }
            }
            round += 1;
        }
        let defs: Vec<(String, J)> = std::mem::take(&mut self.defs).into_iter().collect();
        let adts: Vec<(String, J)> = std::mem::take(&mut self.adts).into_iter().collect();
        J::o(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE))),
            ("defs", J::M(defs)),
            ("adts", J::M(adts)),
            ("fns", J::A(fns)),
            ("ext", J::A(ext)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
            ("statics", J::A(statics)),
            ("consts", J::A(consts)),
        ])
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER protocol: argv[1] is the real rustc.
    let rustc = args.remove(1);
    let crates = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let want = crates.split(',').any(|c| c == name) && !args.iter().any(|a| a == "--print" || a.starts_with("--print="));
    if !want {
        let st = std::process::Command::new(rustc).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Coverflow-checks=off".into());
    args.push("-Cdebug-assertions=off".into());
    args.push("-Awarnings".into());
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    });
    let _ = code;
    // ExitCode is opaque: re-derive via process termination protocol.
    std::process::exit(if format!("{:?}", code) == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 });
}
