//! Collection of reachable instances and their serialisation.
use crate::json::J;
use crate::{arr, obj};
use rustc_hir::def::DefKind;
use rustc_middle::ty::TyCtxt;
use rustc_public::rustc_internal;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, DefId};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty, usize>,
    type_json: Vec<J>,
    type_queue: VecDeque<(Ty, usize)>,
    inst_ids: HashMap<Instance, usize>,
    inst_queue: VecDeque<(Instance, usize)>,
    insts: Vec<Option<J>>,
    models: HashMap<String, FnDef>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
    allocs: Vec<J>,
}

/// std functions replaced by equivalent, simpler code in the harness (module `model`).
const MODEL_PREFIX: &str = "model::";

fn def_path(d: DefId) -> String {
    d.name().to_string()
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(J::Null);
        self.type_queue.push_back((t, i));
        i
    }

    fn generic_args(&mut self, args: &GenericArgs) -> J {
        let mut v = vec![];
        for a in args.0.iter() {
            match a {
                GenericArgKind::Type(t) => v.push(J::from(self.ty(*t))),
                GenericArgKind::Const(c) => {
                    let n = c.eval_target_usize().ok().map(|x| x as usize);
                    v.push(obj! {"const": n})
                }
                GenericArgKind::Lifetime(_) => {}
            }
        }
        J::A(v)
    }

    fn drain_types(&mut self) {
        while let Some((t, i)) = self.type_queue.pop_front() {
            let j = self.type_to_json(t);
            self.type_json[i] = j;
        }
    }

    fn layout_json(&mut self, t: Ty) -> J {
        let Ok(l) = t.layout() else { return J::Null };
        let s = l.shape();
        let fields = match &s.fields {
            FieldsShape::Arbitrary { offsets } => J::A(offsets.iter().map(|o| J::from(o.bytes())).collect()),
            FieldsShape::Array { stride, count } => obj! {"stride": stride.bytes(), "count": *count as usize},
            FieldsShape::Union(n) => obj! {"union": n.get()},
            FieldsShape::Primitive => J::Null,
        };
        let variants = match &s.variants {
            VariantsShape::Empty => obj! {"k": "empty"},
            VariantsShape::Single { index } => obj! {"k": "single", "idx": index.to_index()},
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let prim = match tag {
                    rustc_public::abi::Scalar::Initialized { value, .. } => *value,
                    rustc_public::abi::Scalar::Union { value } => *value,
                };
                let tsize = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                let toff = match &s.fields {
                    FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                    _ => 0,
                };
                let enc = match tag_encoding {
                    TagEncoding::Direct => J::from("direct"),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => obj! {
                        "untagged": untagged_variant.to_index(),
                        "lo": niche_variants.start().to_index(),
                        "hi": niche_variants.end().to_index(),
                        "start": *niche_start,
                    },
                };
                let vs: Vec<J> = variants
                    .iter()
                    .map(|v| J::A(v.offsets.iter().map(|o| J::from(o.bytes())).collect()))
                    .collect();
                obj! {"k": "multi", "tag_size": tsize, "tag_off": toff, "enc": enc, "vs": J::A(vs)}
            }
        };
        obj! {"size": s.size.bytes(), "fields": fields, "variants": variants}
    }

    fn type_to_json(&mut self, t: Ty) -> J {
        let s = format!("{}", DisplayTy(t));
        let lay = self.layout_json(t);
        let TyKind::RigidTy(r) = t.kind() else {
            return obj! {"k": "other", "s": s};
        };
        match r {
            RigidTy::Bool => obj! {"k": "bool", "s": s},
            RigidTy::Char => obj! {"k": "char", "s": s},
            RigidTy::Int(i) => obj! {"k": "int", "bits": i.num_bytes() * 8, "s": s},
            RigidTy::Uint(i) => obj! {"k": "uint", "bits": i.num_bytes() * 8, "s": s},
            RigidTy::Float(f) => obj! {"k": "float", "s": format!("{f:?}"), "layout": lay},
            RigidTy::Str => obj! {"k": "str", "s": s},
            RigidTy::Never => obj! {"k": "never", "s": s},
            RigidTy::Adt(def, args) => {
                let kind = match def.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                let mut vs = vec![];
                for v in def.variants() {
                    let d = if def.kind() == AdtKind::Enum { J::U(def.discriminant_for_variant(v.idx()).val) } else { J::Null };
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&args);
                        fs.push(arr![f.name.to_string(), self.ty(ft)]);
                    }
                    vs.push(obj! {"name": v.name().to_string(), "discr": d, "fields": J::A(fs)});
                }
                let a = self.generic_args(&args);
                obj! {"k": kind, "name": def_path(def.def_id()), "args": a, "s": s, "variants": J::A(vs), "layout": lay, "local": is_ws(&def.krate().name.to_string())}
            }
            RigidTy::Foreign(_) => obj! {"k": "foreign", "s": s},
            RigidTy::Array(e, n) => {
                let e = self.ty(e);
                obj! {"k": "array", "elem": e, "len": n.eval_target_usize().ok().map(|x| x as usize), "s": s, "layout": lay}
            }
            RigidTy::Slice(e) => {
                let e = self.ty(e);
                obj! {"k": "slice", "elem": e, "s": s}
            }
            RigidTy::RawPtr(p, m) => {
                let p = self.ty(p);
                obj! {"k": "ptr", "to": p, "mut": m == Mutability::Mut, "s": s}
            }
            RigidTy::Ref(_, p, m) => {
                let p = self.ty(p);
                obj! {"k": "ref", "to": p, "mut": m == Mutability::Mut, "s": s}
            }
            RigidTy::FnDef(def, args) => {
                let callee = self.fn_ref(def, &args, true);
                obj! {"k": "fndef", "s": s, "callee": callee}
            }
            RigidTy::FnPtr(_) => obj! {"k": "fnptr", "s": s},
            RigidTy::Closure(def, args) => {
                let ups: Vec<J> = closure_upvars(&args).into_iter().map(|t| J::from(self.ty(t))).collect();
                let body = Instance::resolve_closure(def, &args, ClosureKind::FnOnce).ok().map(|i| self.inst(i));
                obj! {"k": "closure", "name": def_path(def.def_id()), "upvars": J::A(ups), "s": s, "layout": lay, "inst": body}
            }
            RigidTy::Dynamic(..) => obj! {"k": "dyn", "s": s},
            RigidTy::Tuple(ts) => {
                let e: Vec<J> = ts.iter().map(|t| J::from(self.ty(*t))).collect();
                obj! {"k": "tuple", "elems": J::A(e), "s": s, "layout": lay}
            }
            _ => obj! {"k": "other", "s": s},
        }
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&n) = self.inst_ids.get(&i) {
            return n;
        }
        let n = self.insts.len();
        self.inst_ids.insert(i, n);
        self.insts.push(None);
        self.inst_queue.push_back((i, n));
        n
    }

    /// A reference to a function item: definition path, generic arguments, resolved instance.
    fn fn_ref(&mut self, def: FnDef, args: &GenericArgs, via_ptr: bool) -> J {
        let name = def_path(def.def_id());
        let a = self.generic_args(args);
        let _ = via_ptr;
        let model = self.models.get(&name).copied();
        if let Some(m) = model {
            if let Ok(i) = Instance::resolve(m, args) {
                let n = self.inst(i);
                return obj! {"def": name, "args": a, "inst": n, "kind": "item", "model": true};
            }
        }
        match Instance::resolve(def, args) {
            Ok(i) => {
                let i = self.unspecialised(i);
                let kind = match i.kind {
                    InstanceKind::Item => "item",
                    InstanceKind::Intrinsic => "intrinsic",
                    InstanceKind::LlvmIntrinsic => "llvm",
                    InstanceKind::Virtual { .. } => "virtual",
                    InstanceKind::Shim => "shim",
                };
                let n = self.inst(i);
                obj! {"def": name, "args": a, "inst": n, "kind": kind}
            }
            Err(_) => obj! {"def": name, "args": a, "inst": J::Null, "kind": "unresolved"},
        }
    }

    /// Index of the variant that this function constructs, if it is a constructor.
    fn ctor(&self, i: Instance) -> Option<usize> {
        if i.kind != InstanceKind::Item {
            return None;
        }
        let id = rustc_internal::internal(self.tcx, i.def.def_id());
        if !self.tcx.is_constructor(id) {
            return None;
        }
        let parent = self.tcx.parent(id);
        let adt = if self.tcx.def_kind(parent) == DefKind::Variant { self.tcx.parent(parent) } else { parent };
        Some(self.tcx.adt_def(adt).variant_index_with_ctor_id(id).as_usize())
    }

    /// The general implementation behind one that is specialised for random access.
    fn unspecialised(&self, i: Instance) -> Instance {
        if i.kind != InstanceKind::Item {
            return i;
        }
        let id = rustc_internal::internal(self.tcx, i.def.def_id());
        let Some(imp) = self.tcx.impl_of_assoc(id) else { return i };
        let Some(tr) = self.tcx.impl_opt_trait_id(imp) else { return i };
        if !self.tcx.def_path_str(tr).ends_with("zip::ZipImpl") {
            return i;
        }
        for other in self.tcx.all_impls(tr) {
            for item in self.tcx.associated_items(other).in_definition_order() {
                if item.name() == self.tcx.item_name(id) && self.tcx.defaultness(item.def_id).is_default() && other != imp {
                    let def = FnDef(rustc_internal::stable(item.def_id));
                    if let Ok(j) = Instance::resolve(def, &i.args()) {
                        return j;
                    }
                }
            }
        }
        i
    }

    fn file(&mut self, s: String) -> usize {
        if let Some(&i) = self.files.get(&s) {
            return i;
        }
        let i = self.file_list.len();
        self.files.insert(s.clone(), i);
        self.file_list.push(s);
        i
    }

    fn span(&mut self, sp: &Span) -> J {
        let f = self.file(sp.get_filename().to_string());
        let l = sp.get_lines();
        arr![f, l.start_line, l.start_col]
    }

    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![J::from(p.local)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => arr!["*"],
                ProjectionElem::Field(i, t) => arr![".", *i, self.ty(*t)],
                ProjectionElem::Index(l) => arr!["[]", *l],
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    arr!["c", *offset as usize, *min_length as usize, *from_end]
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    arr!["s", *from as usize, *to as usize, *from_end]
                }
                ProjectionElem::Downcast(v) => arr!["v", v.to_index()],
                ProjectionElem::OpaqueCast(t) => arr!["o", self.ty(*t)],
            });
        }
        J::A(v)
    }

    fn alloc(&mut self, a: &Allocation) -> J {
        let bytes: Vec<J> = a
            .bytes
            .iter()
            .map(|b| match b {
                Some(x) => J::from(*x as usize),
                None => J::Null,
            })
            .collect();
        let mut prov = vec![];
        for (off, p) in &a.provenance.ptrs {
            let g = GlobalAlloc::from(p.0);
            let gj = match g {
                GlobalAlloc::Function(i) => {
                    let n = self.inst(i);
                    obj! {"fn": n}
                }
                GlobalAlloc::VTable(t, _) => {
                    let t = self.ty(t);
                    // everything reachable through the vtable
                    obj! {"vtable": t}
                }
                GlobalAlloc::Static(s) => {
                    obj! {"static": def_path(s.def_id()), "mut": is_mut_static(s)}
                }
                GlobalAlloc::Memory(m) => {
                    let j = self.alloc(&m);
                    obj! {"mem": j}
                }
                GlobalAlloc::TypeId { ty } => {
                    let t = self.ty(ty);
                    obj! {"typeid": t}
                }
            };
            prov.push(arr![*off, gj]);
        }
        obj! {"bytes": J::A(bytes), "prov": J::A(prov)}
    }

    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => arr!["copy", self.place(p)],
            Operand::Move(p) => arr!["move", self.place(p)],
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let ti = self.ty(t);
                let k = match c.const_.kind() {
                    ConstantKind::Allocated(a) => self.alloc(a),
                    ConstantKind::ZeroSized => J::from("zst"),
                    ConstantKind::Ty(tc) => obj! {"usize": tc.eval_target_usize().ok().map(|x| x as usize)},
                    ConstantKind::Unevaluated(u) => obj! {"uneval": def_path(u.def.def_id())},
                    ConstantKind::Param(_) => J::from("param"),
                };
                arr!["const", ti, k]
            }
            Operand::RuntimeChecks(r) => arr!["rt", format!("{r:?}")],
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        match r {
            Rvalue::AddressOf(k, p) => arr!["addr", *k == RawPtrKind::Mut, self.place(p)],
            Rvalue::Ref(_, k, p) => {
                arr!["ref", matches!(k, BorrowKind::Mut { .. }), self.place(p)]
            }
            Rvalue::Reborrow(_, m, p) => arr!["ref", *m == Mutability::Mut, self.place(p)],
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<J> = ops.iter().map(|x| self.operand(x)).collect();
                let t = r.ty(locals).ok().map(|t| self.ty(t));
                let kk = match k {
                    AggregateKind::Array(_) => arr!["array"],
                    AggregateKind::Tuple => arr!["tuple"],
                    AggregateKind::Adt(_, v, _, _, f) => arr!["adt", v.to_index(), *f],
                    AggregateKind::Closure(..) => arr!["closure"],
                    AggregateKind::RawPtr(..) => arr!["rawptr"],
                    _ => arr!["other"],
                };
                arr!["agg", kk, t, J::A(o)]
            }
            Rvalue::BinaryOp(op, a, b) => arr!["bin", format!("{op:?}"), self.operand(a), self.operand(b)],
            Rvalue::CheckedBinaryOp(op, a, b) => {
                arr!["cbin", format!("{op:?}"), self.operand(a), self.operand(b)]
            }
            Rvalue::UnaryOp(op, a) => arr!["un", format!("{op:?}"), self.operand(a)],
            Rvalue::Cast(k, o, t) => {
                let reify = match k {
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => {
                        o.ty(locals).ok().and_then(|t| match t.kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) => Some((d, a)),
                            _ => None,
                        })
                    }
                    _ => None,
                };
                let closure_ptr = match k {
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
                        o.ty(locals).ok().and_then(|t| match t.kind() {
                            TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                                Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok()
                            }
                            _ => None,
                        })
                    }
                    _ => None,
                };
                let rj = if let Some((d, a)) = reify {
                    self.fn_ref(d, &a, true)
                } else if let Some(i) = closure_ptr {
                    let n = self.inst(i);
                    obj! {"inst": n}
                } else {
                    J::Null
                };
                arr!["cast", format!("{k:?}"), self.operand(o), self.ty(*t), rj]
            }
            Rvalue::CopyForDeref(p) => arr!["use", arr!["copy", self.place(p)]],
            Rvalue::Discriminant(p) => arr!["discr", self.place(p)],
            Rvalue::Len(p) => arr!["len", self.place(p)],
            Rvalue::Repeat(o, n) => {
                arr!["repeat", self.operand(o), n.eval_target_usize().ok().map(|x| x as usize)]
            }
            Rvalue::ThreadLocalRef(i) => arr!["tls", def_path(i.def_id())],
            Rvalue::Use(o, _) => arr!["use", self.operand(o)],
        }
    }

    fn body(&mut self, b: &Body) -> J {
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let lt: Vec<J> = locals.iter().map(|l| J::from(self.ty(l.ty))).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let sp = self.span(&s.source_info.span);
                        st.push(arr!["=", self.place(p), self.rvalue(r, &locals), sp])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(arr!["setdiscr", self.place(place), variant_index.to_index()])
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        st.push(arr!["assume", self.operand(o)])
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        st.push(arr!["copynon", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count)])
                    }
                    StatementKind::StorageDead(l) => st.push(arr!["dead", *l]),
                    StatementKind::StorageLive(l) => st.push(arr!["live", *l]),
                    _ => {}
                }
            }
            let sp = self.span(&bb.terminator.source_info.span);
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => J::from(*b),
                _ => J::Null,
            };
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => arr!["goto", *target],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&locals).ok().map(|t| self.ty(t));
                    let br: Vec<J> = targets.branches().map(|(v, b)| arr![v, b]).collect();
                    arr!["switch", self.operand(discr), J::A(br), targets.otherwise(), ty]
                }
                TerminatorKind::Resume => arr!["resume"],
                TerminatorKind::Abort => arr!["abort"],
                TerminatorKind::Return => arr!["return"],
                TerminatorKind::Unreachable => arr!["unreachable"],
                TerminatorKind::Drop { place, target, unwind } => {
                    let inst = place.ty(&locals).ok().map(|t| {
                        let i = Instance::resolve_drop_in_place(t);
                        (i.is_empty_shim(), i, t)
                    });
                    let (ij, tj) = match inst {
                        Some((false, i, t)) => (J::from(self.inst(i)), J::from(self.ty(t))),
                        Some((true, _, t)) => (J::Null, J::from(self.ty(t))),
                        None => (J::Null, J::Null),
                    };
                    arr!["drop", self.place(place), *target, ij, uw(unwind), tj]
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let fty = func.ty(&locals);
                    let callee = match fty.map(|t| t.kind()) {
                        Ok(TyKind::RigidTy(RigidTy::FnDef(d, a))) => self.fn_ref(d, &a, false),
                        _ => obj! {"ptr": self.operand(func)},
                    };
                    let a: Vec<J> = args.iter().map(|x| self.operand(x)).collect();
                    arr!["call", callee, J::A(a), self.place(destination), *target, uw(unwind)]
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (m, ops): (String, Vec<J>) = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(len), self.operand(index)])
                        }
                        AssertMessage::Overflow(op, a, b) => {
                            (format!("overflow:{op:?}"), vec![self.operand(a), self.operand(b)])
                        }
                        AssertMessage::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.operand(a)]),
                        AssertMessage::DivisionByZero(a) => ("div0".into(), vec![self.operand(a)]),
                        AssertMessage::RemainderByZero(a) => ("rem0".into(), vec![self.operand(a)]),
                        AssertMessage::MisalignedPointerDereference { .. } => ("misaligned".into(), vec![]),
                        AssertMessage::NullPointerDereference => ("null".into(), vec![]),
                        other => (format!("{other:?}"), vec![]),
                    };
                    arr!["assert", self.operand(cond), *expected, m, J::A(ops), *target, uw(unwind)]
                }
                TerminatorKind::InlineAsm { .. } => arr!["asm"],
            };
            blocks.push(arr![J::A(st), t, sp]);
        }
        // names of user variables, for diagnostics only
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(arr![l, v.name.to_string()]);
            }
        }
        let sp = self.span(&b.span);
        obj! {"locals": J::A(lt), "argc": b.arg_locals().len(), "blocks": J::A(blocks), "names": J::A(names), "span": sp,
        "spread": b.spread_arg()}
    }

    fn instance_json(&mut self, i: Instance) -> J {
        let name = i.name().to_string();
        let def = def_path(i.def.def_id());
        let krate = i.def.krate().name.to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let a = i.args();
        let args = self.generic_args(&a);
        let has_body = !matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic) && skip_body(&def, &krate) == false;
        let body = if has_body && (i.kind != InstanceKind::Item || i.has_body()) { i.body() } else { None };
        let bj = match body {
            Some(b) => self.body(&b),
            None => J::Null,
        };
        let ctor = self.ctor(i);
        let intr = i.intrinsic_name().map(|s| s.to_string());
        obj! {"name": name, "def": def, "crate": krate, "kind": kind, "args": args, "intrinsic": intr, "ctor": ctor, "foreign": i.kind == InstanceKind::Item && i.is_foreign_item(), "body": bj}
    }
}

fn is_mut_static(_s: StaticDef) -> bool {
    false
}

fn is_ws(krate: &str) -> bool {
    krate == "whasm" || krate == "parser" || krate == "verif_harness"
}

/// Library internals whose bodies are never needed (formatting, allocation, panic machinery, I/O).
fn skip_body(def: &str, krate: &str) -> bool {
    if is_ws(krate) {
        return false;
    }
    const P: &[&str] = &[
        "core::fmt::", "std::fmt::", "alloc::fmt::", "std::io::", "std::fs::", "std::panicking", "core::panicking", "std::sys",
        "alloc::raw_vec", "alloc::alloc", "std::alloc", "std::backtrace", "std::thread", "std::rt", "core::str::",
        "std::str::", "core::num::flt2dec", "core::num::bignum", "alloc::string::", "std::string::", "alloc::sync", "std::env", "std::process",
        "core::char", "std::char", "core::unicode", "alloc::collections", "std::collections", "hashbrown", "core::slice::sort", "std::slice::sort",
        "std::ffi", "std::os", "std::path", "std::error", "core::panic", "std::panic",
    ];
    P.iter().any(|p| def.starts_with(p)) || def.contains("fmt::Debug") || def.contains("fmt::Display")
}

fn closure_upvars(args: &GenericArgs) -> Vec<Ty> {
    // closure args: [parent.., kind_ty, sig_as_fn_ptr, tupled_upvars]
    if let Some(GenericArgKind::Type(t)) = args.0.last() {
        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
            return ts;
        }
    }
    vec![]
}

struct DisplayTy(Ty);
impl std::fmt::Display for DisplayTy {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

pub fn dump_crate(tcx: TyCtxt<'_>) {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut cx = Cx {
        tcx,
        types: HashMap::new(),
        type_json: vec![],
        type_queue: VecDeque::new(),
        inst_ids: HashMap::new(),
        inst_queue: VecDeque::new(),
        insts: vec![],
        models: HashMap::new(),
        files: HashMap::new(),
        file_list: vec![],
        allocs: vec![],
    };
    let krate = rustc_public::local_crate();
    let mut roots = vec![];
    for f in krate.fn_defs() {
        let n = f.name().to_string();
        let short = n.splitn(2, "::").nth(1).unwrap_or(&n).to_string();
        if let Some(m) = short.strip_prefix(MODEL_PREFIX) {
            // model functions carry the modelled path in a doc-like naming table
            for (target, model) in MODELS {
                if *model == m {
                    cx.models.insert(target.to_string(), f);
                }
            }
        }
    }
    let filter = std::env::var("MIRDUMP_ROOTS").unwrap_or_default();
    for item in rustc_public::all_local_items() {
        let Ok(i) = Instance::try_from(item) else { continue };
        let n = item.name().to_string();
        let last = n.rsplit("::").next().unwrap_or(&n).to_string();
        if filter.is_empty() || filter.split(',').any(|p| last == p || (p.ends_with('*') && last.starts_with(&p[..p.len() - 1]))) {
            let id = cx.inst(i);
            roots.push(arr![last, id]);
        }
    }
    let mut all_fns = vec![];
    for f in krate.fn_defs() {
        all_fns.push(J::from(f.name().to_string()));
    }
    while let Some((i, n)) = cx.inst_queue.pop_front() {
        let j = cx.instance_json(i);
        cx.insts[n] = Some(j);
        cx.drain_types();
    }
    cx.drain_types();
    // draining types may have queued instances (function item types)
    while let Some((i, n)) = cx.inst_queue.pop_front() {
        let j = cx.instance_json(i);
        cx.insts[n] = Some(j);
        cx.drain_types();
    }
    let insts: Vec<J> = cx.insts.into_iter().map(|x| x.unwrap_or(J::Null)).collect();
    let files: Vec<J> = cx.file_list.into_iter().map(J::from).collect();
    let j = obj! {
        "crate": krate.name.to_string(),
        "roots": J::A(roots),
        "types": J::A(cx.type_json),
        "insts": J::A(insts),
        "files": J::A(files),
        "fns": J::A(all_fns),
        "allocs": J::A(cx.allocs),
    };
    let mut s = String::new();
    j.write(&mut s);
    std::fs::write(&out, s).expect("cannot write dump");
}

const MODELS: &[(&str, &str)] = &[
    ("std::iter::Iterator::collect", "collect"),
    ("std::iter::Iterator::count", "count"),
    ("std::iter::Iterator::fold", "fold"),
    ("std::iter::Iterator::try_fold", "try_fold"),
    ("std::iter::Iterator::for_each", "for_each"),
    ("std::iter::Iterator::try_for_each", "try_for_each"),
    ("std::iter::Iterator::any", "any"),
    ("std::iter::Iterator::all", "all"),
    ("std::iter::Iterator::find", "find"),
    ("std::iter::Iterator::find_map", "find_map"),
    ("std::iter::Iterator::position", "position"),
    ("std::iter::Iterator::last", "last"),
    ("std::iter::Iterator::nth", "nth"),
    ("std::iter::Extend::extend", "extend"),
    ("std::vec::from_elem", "from_elem"),
    ("std::vec::Vec::<T, A>::resize", "resize"),
    ("core::slice::<impl [T]>::contains", "contains"),
    ("std::slice::<impl [T]>::sort_by", "sort_by"),
    ("std::slice::<impl [T]>::sort_by_key", "sort_by_key"),
    ("std::slice::<impl [T]>::sort_by_cached_key", "sort_by_key"),
    ("core::slice::<impl [T]>::sort_unstable_by", "sort_by"),
    ("core::slice::<impl [T]>::sort_unstable_by_key", "sort_by_key"),
];
