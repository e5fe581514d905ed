use crate::json::J;
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocId, AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::util::IntTypeExt;
use rustc_middle::ty::{self, GenericArgs, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use rustc_abi::Size;
use std::collections::VecDeque;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    envtag: String,
    types: Vec<J>,
    tymap: FxHashMap<(Ty<'tcx>, String), usize>,
    insts: Vec<Option<J>>,
    instmap: FxHashMap<(Instance<'tcx>, String), usize>,
    queue: VecDeque<(Instance<'tcx>, usize, TypingEnv<'tcx>, String)>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}
fn tystr(t: Ty<'_>) -> String {
    with_no_trimmed_paths!(t.to_string())
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, s: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let f = |s: Span| {
            let l = sm.lookup_char_pos(s.lo());
            format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
        };
        let a = f(s);
        let b = f(s.source_callsite());
        if a == b { J::s(a) } else { J::s(format!("{b} ({a})")) }
    }

    fn tykey(&self, t: Ty<'tcx>) -> (Ty<'tcx>, String) {
        (t, if t.has_non_region_param() { self.envtag.clone() } else { String::new() })
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let t = match self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)) { Ok(x) => x, Err(_) => t };
        let key = self.tykey(t);
        if let Some(i) = self.tymap.get(&key) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(key, id);
        let tcx = self.tcx;
        let j = match t.kind() {
            ty::Bool => obj! {"k":"bool"},
            ty::Char => obj! {"k":"char"},
            ty::Int(i) => obj! {"k":"int","w":i.bit_width().unwrap_or(64),"s":true,"ps":i.bit_width().is_none()},
            ty::Uint(i) => obj! {"k":"int","w":i.bit_width().unwrap_or(64),"s":false,"ps":i.bit_width().is_none()},
            ty::Float(_) => obj! {"k":"float"},
            ty::Str => obj! {"k":"str"},
            ty::Slice(e) => { let e = self.ty(*e); obj! {"k":"slice","e":e} }
            ty::Array(e, n) => { let n = self.tyconst(*n); let e = self.ty(*e); obj! {"k":"array","e":e,"n":n} }
            ty::Ref(_, u, m) => { let u = self.ty(*u); obj! {"k":"ref","to":u,"mut":m.is_mut()} }
            ty::RawPtr(u, m) => { let u = self.ty(*u); obj! {"k":"ptr","to":u,"mut":m.is_mut()} }
            ty::Tuple(ts) => { let v: Vec<J> = ts.iter().map(|x| self.ty(x).into()).collect(); obj! {"k":"tuple","e":v} }
            ty::Adt(def, args) => {
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let targs: Vec<J> = args.types().map(|x| self.ty(x).into()).collect();
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() { J::U(def.discriminant_for_variant(tcx, vi).val) } else { J::Null };
                    let fs: Vec<J> = v.fields.iter().map(|f| {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let fty = self.ty(ft);
                        obj! {"name":f.name.to_string(),"ty":fty,"pub":f.vis.is_public()}
                    }).collect();
                    vs.push(obj! {"name":v.name.to_string(),"discr":discr,"fields":fs});
                }
                let dty = if def.is_enum() { J::from(self.ty(def.repr().discr_type().to_ty(tcx))) } else { J::Null };
                obj! {"k":"adt","ak":kind,"path":path(tcx, def.did()),"args":targs,"variants":vs,"dty":dty,"transparent":def.repr().transparent()}
            }
            ty::Closure(d, args) => {
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).into()).collect();
                obj! {"k":"closure","path":path(tcx, *d),"up":ups}
            }
            ty::FnDef(d, args) => {
                let ga = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                let c = self.callee(*d, ga);
                obj! {"k":"fndef","callee":c}
            }
            ty::FnPtr(..) => obj! {"k":"fnptr"},
            ty::Never => obj! {"k":"never"},
            ty::Dynamic(..) => obj! {"k":"dyn"},
            ty::Param(p) => obj! {"k":"param","name":p.name.to_string()},
            ty::Alias(..) => obj! {"k":"alias"},
            _ => obj! {"k":"other"},
        };
        let mut j = j.put("s", tystr(t).into());
        if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
            if l.is_sized() {
                j = j.put("size", l.size.bytes().into());
                if let ty::Adt(d, _) = t.kind() && d.is_struct() {
                    let offs: Vec<J> = (0..l.fields.count()).map(|i| l.fields.offset(i).bytes().into()).collect();
                    j = j.put("offs", offs.into());
                }
            }
        }
        if t.has_non_region_param() {
            j = j.put("env", self.envtag.clone().into());
        }
        self.types[id] = j;
        id
    }

    fn tyconst(&mut self, c: ty::Const<'tcx>) -> J {
        let c = match self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(c)) { Ok(x) => x, Err(_) => c };
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return obj! {"v":v};
        }
        let s = with_no_trimmed_paths!(format!("{c}"));
        obj! {"sym":s}
    }

    fn args_j(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(t).into());
            } else if let Some(c) = a.as_const() {
                v.push(self.tyconst(c));
            }
        }
        J::A(v)
    }

    /// Resolve a callee; returns {"i":instance} or {"u":{path,...}} when it is not resolvable here.
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let args = match tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args)) { Ok(x) => x, Err(_) => args };
        let p = path(tcx, d);
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            // constructor function used as a value
            let inst = Instance::new_raw(d, args);
            return obj! {"i":self.inst(inst)};
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
            match inst.def {
                InstanceKind::Virtual(..) => {}
                _ => {
                    let id = self.inst(inst);
                    return obj! {"i":id};
                }
            }
        }
        let targs = self.args_j(args);
        let tr = tcx.trait_of_assoc(d).map(|t| J::s(path(tcx, t))).unwrap_or(J::Null);
        let full = with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args));
        obj! {"u":obj!{"path":p,"full":full,"trait":tr,"name":tcx.item_name(d).to_string(),"targs":targs}}
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        let tag = if i.args.has_non_region_param() { self.envtag.clone() } else { String::new() };
        if let Some(x) = self.instmap.get(&(i, tag.clone())) {
            return *x;
        }
        let id = self.insts.len();
        self.insts.push(None);
        self.instmap.insert((i, tag.clone()), id);
        self.queue.push_back((i, id, self.env, tag));
        id
    }

    fn scalar_j(&mut self, s: Scalar, ty: Ty<'tcx>) -> J {
        match s {
            Scalar::Int(i) => {
                let size = i.size();
                let bits = i.to_bits(size);
                if ty.is_signed() {
                    return obj! {"v":J::N(size.sign_extend(bits))};
                }
                if ty.is_ref() || ty.is_any_ptr() || ty.is_fn_ptr() {
                    return obj! {"addr":J::U(bits)};
                }
                obj! {"v":J::U(bits)}
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                match self.tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Function { instance, .. } => { let i = self.inst(instance); obj! {"fnptr":i} }
                    GlobalAlloc::Memory(_) => {
                        let pt = ty.builtin_deref(true);
                        match pt {
                            Some(pt) if pt.is_sized(self.tcx, self.env) => obj! {"ref":self.alloc_j(prov.alloc_id(), off, pt, 0)},
                            _ => obj! {"opaque":"ptr"},
                        }
                    }
                    GlobalAlloc::Static(d) => obj! {"static":path(self.tcx, d)},
                    _ => obj! {"opaque":"ptr"},
                }
            }
        }
    }

    fn alloc_j(&mut self, a: AllocId, off: Size, ty: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let opaque = |w: &str| obj! {"opaque":w};
        if depth > 12 { return opaque("depth"); }
        let GlobalAlloc::Memory(alloc) = tcx.global_alloc(a) else { return opaque("alloc") };
        let alloc = alloc.inner();
        let Ok(lay) = tcx.layout_of(self.env.as_query_input(ty)) else { return opaque("layout") };
        match ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                match alloc.read_scalar(&tcx, AllocRange { start: off, size: lay.size }, false) {
                    Ok(s) => self.scalar_j(s, ty),
                    Err(_) => opaque("uninit"),
                }
            }
            ty::Ref(_, to, _) | ty::RawPtr(to, _) => {
                let ps = tcx.data_layout.pointer_size();
                let Ok(p) = alloc.read_scalar(&tcx, AllocRange { start: off, size: ps }, true) else { return opaque("ptr") };
                if to.is_sized(tcx, self.env) { return self.scalar_j(p, ty); }
                match to.kind() {
                    ty::Slice(_) | ty::Str => {
                        let Ok(l) = alloc.read_scalar(&tcx, AllocRange { start: off + ps, size: ps }, false) else { return opaque("len") };
                        let Scalar::Int(l) = l else { return opaque("len") };
                        let n = l.to_target_usize(tcx);
                        let Scalar::Ptr(p, _) = p else { return if n == 0 { obj! {"ref":obj!{"bytes":""}} } else { opaque("addr") } };
                        let (prov, o) = p.prov_and_relative_offset();
                        obj! {"ref":self.slice_j(prov.alloc_id(), o, *to, n, depth + 1)}
                    }
                    _ => opaque("fat"),
                }
            }
            ty::Array(e, n) => {
                let Some(n) = n.try_to_target_usize(tcx) else { return opaque("arrlen") };
                self.seq_j(a, off, *e, n, depth + 1)
            }
            ty::Tuple(ts) => {
                let fs: Vec<J> = ts.iter().enumerate().map(|(i, t)| self.alloc_j(a, off + lay.fields.offset(i), t, depth + 1)).collect();
                obj! {"agg":fs}
            }
            ty::Adt(def, args) if def.is_struct() => {
                let v = def.non_enum_variant();
                let fs: Vec<J> = v.fields.iter_enumerated().map(|(i, f)| {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let ft = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft));
                    self.alloc_j(a, off + lay.fields.offset(i.as_usize()), ft, depth + 1)
                }).collect();
                obj! {"agg":fs}
            }
            ty::Adt(def, _) if def.is_enum() => self.cv_j(ConstValue::Indirect { alloc_id: a, offset: off }, ty, depth + 1),
            _ => if lay.is_zst() { obj! {"zst":true} } else { opaque("kind") },
        }
    }

    fn seq_j(&mut self, a: AllocId, off: Size, e: Ty<'tcx>, n: u64, depth: usize) -> J {
        let tcx = self.tcx;
        let Ok(el) = tcx.layout_of(self.env.as_query_input(e)) else { return obj! {"opaque":"layout"} };
        if let ty::Uint(ty::UintTy::U8) = e.kind() {
            if let GlobalAlloc::Memory(alloc) = tcx.global_alloc(a) {
                let b = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..(off.bytes() + n) as usize);
                let mut s = String::new();
                for x in b { s.push_str(&format!("{x:02x}")); }
                return obj! {"bytes":s};
            }
        }
        if n > 4096 { return obj! {"opaque":"big"}; }
        let v: Vec<J> = (0..n).map(|i| self.alloc_j(a, off + el.size * i, e, depth)).collect();
        obj! {"arr":v}
    }

    fn slice_j(&mut self, a: AllocId, off: Size, sl: Ty<'tcx>, n: u64, depth: usize) -> J {
        match sl.kind() {
            ty::Slice(e) => self.seq_j(a, off, *e, n, depth),
            _ => self.seq_j(a, off, self.tcx.types.u8, n, depth),
        }
    }

    fn cv_j(&mut self, v: ConstValue, ty: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 { return obj! {"opaque":"depth"}; }
        match ty.kind() {
            ty::Adt(..) | ty::Tuple(_) if !ty.is_union() => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, ty) {
                    let fs: Vec<J> = d.fields.iter().map(|(v, t)| self.cv_j(*v, *t, depth + 1)).collect();
                    let mut o = obj! {"agg":fs};
                    if ty.is_enum() {
                        if let Some(vi) = d.variant { o = o.put("var", vi.as_usize().into()); }
                    }
                    return o;
                }
            }
            _ => {}
        }
        match v {
            ConstValue::Scalar(s) => self.scalar_j(s, ty),
            ConstValue::ZeroSized => obj! {"zst":true},
            ConstValue::Slice { alloc_id, meta } => {
                let Some(to) = ty.builtin_deref(true) else { return obj! {"opaque":"slice"} };
                obj! {"ref":self.slice_j(alloc_id, Size::ZERO, to, meta, depth + 1)}
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if ty.is_enum() { return obj! {"opaque":"enum"}; }
                self.alloc_j(alloc_id, offset, ty, depth + 1)
            }
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        let tid = self.ty(ty);
        let val = match c.const_ {
            mir::Const::Ty(_, ct) if ct.has_non_region_param() => {
                let s = with_no_trimmed_paths!(format!("{ct}"));
                obj! {"sym":s}
            }
            _ => {
                let generic = match c.const_ {
                    mir::Const::Unevaluated(u, _) => u.args.has_non_region_param(),
                    _ => false,
                };
                // associated consts of a concrete impl can still be evaluated inside generic code
                let ev = match c.const_.eval(tcx, self.env, c.span) { Ok(v) => Some(v), Err(_) => None };
                match ev {
                    Some(v) => self.cv_j(v, ty, 0),
                    None => match c.const_ {
                        mir::Const::Unevaluated(u, _) => {
                            let s = with_no_trimmed_paths!(tcx.def_path_str_with_args(u.def, u.args));
                            let mut o = obj! {"sym":s,"generic":generic};
                            if let Some(p) = u.promoted {
                                o = o.put("promoted", p.as_usize().into());
                            }
                            o
                        }
                        _ => obj! {"opaque":"const"},
                    },
                }
            }
        };
        obj! {"k":"const","ty":tid,"val":val}
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => obj! {"f":f.as_usize(),"ty":self.ty(t)},
                ProjectionElem::Index(l) => obj! {"i":l.as_usize()},
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => obj! {"ci":offset,"min":min_length,"fe":from_end},
                ProjectionElem::Subslice { from, to, from_end } => obj! {"ss":from,"to":to,"fe":from_end},
                ProjectionElem::Downcast(_, v) => obj! {"d":v.as_usize()},
                _ => obj! {"other":true},
            });
        }
        obj! {"l":p.local.as_usize(),"p":pr}
    }

    fn op(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => { let p = self.place(p); obj! {"k":"cp","pl":p} }
            Operand::Move(p) => { let p = self.place(p); obj! {"k":"mv","pl":p} }
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(r) => { let b = self.ty(self.tcx.types.bool); obj! {"k":"rtc","what":format!("{r:?}"),"ty":b} }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => obj! {"k":"use","o":self.op(o)},
            Rvalue::Repeat(o, n) => { let o = self.op(o); obj! {"k":"repeat","o":o,"n":self.tyconst(*n)} }
            Rvalue::Ref(_, bk, p) => { let p = self.place(p); obj! {"k":"ref","mut":matches!(bk, BorrowKind::Mut{..}),"pl":p} }
            Rvalue::Reborrow(_, m, p) => { let p = self.place(p); obj! {"k":"use","o":obj!{"k":"cp","pl":p,"rb":m.is_mut()}} }
            Rvalue::RawPtr(k, p) => { let p = self.place(p); obj! {"k":"addr","pl":p,"mut":matches!(k, RawPtrKind::Mut)} }
            Rvalue::Cast(k, o, t) => { let o = self.op(o); obj! {"k":"cast","ck":format!("{k:?}"),"o":o,"ty":self.ty(*t)} }
            Rvalue::BinaryOp(b, x) => { let l = self.op(&x.0); let r = self.op(&x.1); obj! {"k":"bin","op":format!("{b:?}"),"a":l,"b":r} }
            Rvalue::UnaryOp(u, x) => { let x = self.op(x); obj! {"k":"un","op":format!("{u:?}"),"a":x} }
            Rvalue::Discriminant(p) => { let p = self.place(p); obj! {"k":"discr","pl":p} }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); obj! {"k":"use","o":obj!{"k":"cp","pl":p}} }
            Rvalue::Aggregate(k, fs) => {
                let v: Vec<J> = fs.iter().map(|f| self.op(f)).collect();
                match &**k {
                    AggregateKind::Array(t) => obj! {"k":"agg","a":"array","ety":self.ty(*t),"f":v},
                    AggregateKind::Tuple => obj! {"k":"agg","a":"tuple","f":v},
                    AggregateKind::Adt(d, vi, args, _, af) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.ty(t);
                        obj! {"k":"agg","a":"adt","ty":t,"v":vi.as_usize(),"f":v,"uf":match af { Some(x) => J::from(x.as_usize()), None => J::Null }}
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.ty(t);
                        let inst = Instance::new_raw(*d, self.tcx.erase_and_anonymize_regions(*args));
                        let i = self.inst(inst);
                        obj! {"k":"agg","a":"closure","ty":t,"f":v,"inst":i}
                    }
                    AggregateKind::RawPtr(t, _) => obj! {"k":"agg","a":"rawptr","to":self.ty(*t),"f":v},
                    _ => obj! {"k":"agg","a":"other","f":v},
                }
            }
            x => obj! {"k":"other","s":format!("{x:?}")},
        }
    }

    fn body(&mut self, body: &Body<'tcx>) -> J {
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty).into()).collect();
        let mut names: Vec<J> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let p = self.place(&p);
                names.push(obj! {"n":v.name.to_string(),"pl":p});
            }
        }
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1);
                        st.push(obj! {"k":"as","pl":p,"rv":r,"sp":self.span(s.source_info.span)});
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(obj! {"k":"setd","pl":p,"v":variant_index.as_usize()});
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => { let o = self.op(o); st.push(obj! {"k":"assume","o":o}) }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.op(&c.src); let b = self.op(&c.dst); let n = self.op(&c.count);
                            st.push(obj! {"k":"cno","src":a,"dst":b,"n":n})
                        }
                    },
                    StatementKind::StorageDead(l) => st.push(obj! {"k":"dead","l":l.as_usize()}),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => obj! {"k":"goto","t":target.as_usize()},
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(discr);
                    let v: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::U(v), b.as_usize().into()])).collect();
                    obj! {"k":"switch","o":o,"v":v,"else":targets.otherwise().as_usize()}
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => obj! {"k":"resume"},
                TerminatorKind::Return => obj! {"k":"return"},
                TerminatorKind::Unreachable => obj! {"k":"unreachable"},
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    let p = self.place(place);
                    let ty = self.ty(pt);
                    obj! {"k":"drop","pl":p,"t":target.as_usize(),"ty":ty}
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node)).collect();
                    let d = self.place(destination);
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            ty::FnDef(d, ga) => {
                                let ga2 = ga.no_bound_vars().unwrap_or_else(|| ga.skip_binder());
                                self.callee(*d, ga2)
                            }
                            _ => { let o = self.op(func); obj! {"ptr":o} }
                        },
                        o => { let o = self.op(o); obj! {"ptr":o} }
                    };
                    obj! {"k":"call","f":f,"a":a,"d":d,"t":match target { Some(t) => J::from(t.as_usize()), None => J::Null }}
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond);
                    let (mk, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![self.op(len), self.op(index)]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow:{b:?}"), vec![self.op(x), self.op(y)]),
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".to_string(), vec![self.op(x)]),
                        AssertKind::DivisionByZero(x) => ("div0".to_string(), vec![self.op(x)]),
                        AssertKind::RemainderByZero(x) => ("rem0".to_string(), vec![self.op(x)]),
                        _ => ("other".to_string(), vec![]),
                    };
                    obj! {"k":"assert","c":c,"e":*expected,"m":mk,"ops":ops,"t":target.as_usize()}
                }
                TerminatorKind::FalseEdge { real_target, .. } => obj! {"k":"goto","t":real_target.as_usize()},
                TerminatorKind::FalseUnwind { real_target, .. } => obj! {"k":"goto","t":real_target.as_usize()},
                x => obj! {"k":"other","s":format!("{x:?}")},
            };
            bbs.push(obj! {"s":st,"t":tj.put("sp", sp),"cl":bb.is_cleanup});
        }
        obj! {"argc":body.arg_count,"locals":locals,"names":names,"bbs":bbs,"spread":match body.spread_arg { Some(l) => J::from(l.as_usize()), None => J::Null }}
    }

    fn descend(&self, d: DefId) -> bool {
        let tcx = self.tcx;
        let c = tcx.crate_name(d.krate);
        let c = c.as_str();
        if c == "std" || c == "alloc" || c == "hashbrown" || c == "std_detect" { return false; }
        if c == "core" {
            let p = path(tcx, d);
            for x in ["core::fmt", "core::panicking", "core::str", "core::unicode", "core::ub_checks", "core::panic", "core::slice::index::slice_", "core::slice::sort", "core::char", "core::num::flt2dec", "core::num::dec2flt", "core::num::imp"] {
                if p.starts_with(x) { return false; }
            }
        }
        true
    }

    fn emit(&mut self, i: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let d = i.def_id();
        let name = with_no_trimmed_paths!(tcx.def_path_str_with_args(d, i.args));
        let p = path(tcx, d);
        let mut j = obj! {
            "name":name,"path":p,"crate":tcx.crate_name(d.krate).to_string(),
            "env":self.envtag.clone(),"args":self.args_j(i.args),
        };
        let kind = match i.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(s) => match s {
                ShimKind::ClosureOnce { .. } => "closureonce",
                ShimKind::FnPtr(..) => "fnptr",
                ShimKind::Clone(..) => "clone",
                ShimKind::DropGlue(..) => "dropglue",
                ShimKind::Reify(..) => "reify",
                _ => "shim",
            },
        };
        j = j.put("kind", kind.into());
        if let Some(n) = tcx.opt_item_name(d) { j = j.put("short", n.to_string().into()); }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            j = j.put("implself", tystr(st).into());
            if let Some(t) = tcx.impl_opt_trait_id(im) {
                j = j.put("trait", path(tcx, t).into());
            }
        } else if let Some(t) = tcx.trait_of_assoc(d) {
            j = j.put("trait_default", path(tcx, t).into());
        }
        j = j.put("span", self.span(tcx.def_span(d)));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            j = j.put("pub", tcx.visibility(d).is_public().into());
            j = j.put("constfn", tcx.is_const_fn(d).into());
        }
        let has = match i.def {
            InstanceKind::Item(d) => tcx.is_mir_available(d) && self.descend(d) && (matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..))),
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) | InstanceKind::Virtual(..) => false,
            InstanceKind::Shim(s) => match s {
                ShimKind::DropGlue(..) => false,
                ShimKind::ClosureOnce { .. } | ShimKind::FnPtr(..) | ShimKind::Clone(..) => true,
                _ => false,
            },
        };
        if has {
            let b = tcx.instance_mir(i.def).clone();
            let b2 = i.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, b.clone()));
            let b2 = match b2 { Ok(b) => b, Err(_) => b };
            j = j.put("body", self.body(&b2));
            // promoted bodies (needed when they are too generic to be evaluated)
            if let InstanceKind::Item(d) = i.def && i.args.has_non_region_param() && !matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                let proms = tcx.promoted_mir(d).clone();
                let mut v = vec![];
                for pb in proms.iter() {
                    let pb2 = i.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, pb.clone()));
                    let pb2 = match pb2 { Ok(b) => b, Err(_) => pb.clone() };
                    v.push(self.body(&pb2));
                }
                j = j.put("promoted", J::A(v));
            }
        }
        j
    }
}

pub fn dump_crate(tcx: TyCtxt<'_>, out: &str) {
    let name = tcx.crate_name(LOCAL_CRATE).to_string();
    let env0 = TypingEnv::fully_monomorphized();
    let mut cx = Cx { tcx, env: env0, envtag: String::new(), types: vec![], tymap: Default::default(), insts: vec![], instmap: Default::default(), queue: Default::default() };
    let mut roots = vec![];
    let mut consts = vec![];
    let mut impls = vec![];
    let mut adts = vec![];
    let mut items = vec![];
    let mut traits = vec![];
    let defs: Vec<_> = tcx.hir_crate_items(()).definitions().collect();
    for ld in defs {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        match kind {
            DefKind::Fn | DefKind::AssocFn => {
                if !tcx.is_mir_available(d) { continue; }
                cx.env = TypingEnv::post_analysis(tcx, d);
                cx.envtag = path(tcx, d);
                let args = GenericArgs::identity_for_item(tcx, d);
                let args = tcx.erase_and_anonymize_regions(args);
                let inst = Instance::new_raw(d, args);
                let i = cx.inst(inst);
                roots.push(obj! {"i":i});
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                if path(tcx, d).contains("::_::") && false { continue; }
                let generics = tcx.generics_of(d);
                cx.env = TypingEnv::post_analysis(tcx, d);
                cx.envtag = path(tcx, d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut j = obj! {"path":path(tcx, d),"ty":cx.ty(t),"span":cx.span(tcx.def_span(d)),"kind":format!("{kind:?}")};
                if let Some(im) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    j = j.put("implself", tystr(st).into());
                    if let Some(t) = tcx.impl_opt_trait_id(im) { j = j.put("trait", path(tcx, t).into()); }
                }
                if let Some(n) = tcx.opt_item_name(d) { j = j.put("name", n.to_string().into()); }
                if !generics.requires_monomorphization(tcx) && !matches!(kind, DefKind::Static { .. }) {
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        let v = cx.cv_j(v, t, 0);
                        j = j.put("val", v);
                    }
                }
                consts.push(j);
            }
            DefKind::Impl { .. } => {
                cx.env = TypingEnv::post_analysis(tcx, d);
                cx.envtag = path(tcx, d);
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut j = obj! {"self":tystr(st),"selfty":cx.ty(st),"span":cx.span(tcx.def_span(d))};
                if let Some(t) = tcx.impl_opt_trait_id(d) {
                    j = j.put("trait", path(tcx, t).into());
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    j = j.put("traitref", with_no_trimmed_paths!(tr.to_string()).into());
                    j = j.put("unsafe", (tcx.trait_def(t).safety.is_unsafe()).into());
                }
                let its: Vec<J> = tcx.associated_item_def_ids(d).iter().map(|x| J::s(path(tcx, *x))).collect();
                // associated types
                let mut ats = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    if it.is_type() {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        ats.push(obj! {"name":it.name().to_string(),"ty":cx.ty(t),"s":tystr(t)});
                    }
                }
                j = j.put("items", its.into()).put("assoc_types", ats.into());
                impls.push(j);
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                cx.env = TypingEnv::post_analysis(tcx, d);
                cx.envtag = path(tcx, d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let id = cx.ty(t);
                adts.push(obj! {"path":path(tcx, d),"ty":id,"pub":tcx.visibility(d).is_public(),"span":cx.span(tcx.def_span(d))});
            }
            DefKind::Trait => {
                let its: Vec<J> = tcx.associated_item_def_ids(d).iter().map(|x| J::s(path(tcx, *x))).collect();
                traits.push(obj! {"path":path(tcx, d),"items":its});
            }
            _ => {}
        }
        items.push(obj! {"path":path(tcx, d),"kind":format!("{kind:?}"),"pub":match kind { DefKind::Closure | DefKind::AnonConst => J::Null, _ => if tcx.opt_item_name(d).is_some() { J::B(tcx.visibility(d).is_public()) } else { J::Null } }});
    }
    let mut n = 0usize;
    while let Some((i, id, env, tag)) = cx.queue.pop_front() {
        cx.env = env;
        cx.envtag = tag;
        let j = cx.emit(i);
        cx.insts[id] = Some(j);
        n += 1;
        if n > 60000 { panic!("too many instances"); }
    }
    let unsafe_blocks = crate_unsafe(tcx, &cx);
    let externs: Vec<J> = tcx.crates(()).iter().map(|c| J::s(tcx.crate_name(*c).to_string())).collect();
    let attrs: Vec<J> = {
        let mut v = vec![];
        for a in tcx.hir_krate_attrs() { v.push(J::s(format!("{a:?}"))); }
        v
    };
    let j = obj! {
        "crate":name.clone(),"roots":roots,"consts":consts,"impls":impls,"adts":adts,"items":items,"traits":traits,
        "unsafe":unsafe_blocks,"externs":externs,"attrs":attrs,
        "types":cx.types.clone(),
        "insts":cx.insts.iter().map(|x| x.clone().unwrap_or(J::Null)).collect::<Vec<_>>(),
    };
    let mut s = String::new();
    j.write(&mut s);
    std::fs::create_dir_all(out).unwrap();
    std::fs::write(format!("{out}/{name}.json"), s).unwrap();
}

/// Every `unsafe` block, function, impl or extern block of the crate.
fn crate_unsafe<'tcx>(tcx: TyCtxt<'tcx>, cx: &Cx<'tcx>) -> J {
    use rustc_hir as hir;
    use rustc_hir::intravisit::{self, Visitor};
    struct V<'a, 'tcx> { cx: &'a Cx<'tcx>, out: Vec<J> }
    impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
        type NestedFilter = rustc_middle::hir::nested_filter::All;
        fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.cx.tcx }
        fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
            if let hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
                let user = matches!(src, hir::UnsafeSource::UserProvided);
                let exp = b.span.from_expansion();
                let owner = path(self.cx.tcx, b.hir_id.owner.to_def_id());
                self.out.push(obj! {"kind":"block","user":user,"expansion":exp,"macros":macros(self.cx.tcx, b.span),"span":self.cx.span(b.span),"owner":owner});
            }
            intravisit::walk_block(self, b);
        }
        fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
            match i.kind {
                hir::ItemKind::Fn { sig, .. } if !sig.header.is_safe() => self.out.push(obj! {"kind":"fn","span":self.cx.span(i.span),"expansion":i.span.from_expansion(),"macros":macros(self.cx.tcx, i.span),"owner":path(self.cx.tcx, i.owner_id.to_def_id())}),
                hir::ItemKind::ForeignMod { .. } => self.out.push(obj! {"kind":"extern","span":self.cx.span(i.span),"expansion":i.span.from_expansion(),"macros":macros(self.cx.tcx, i.span),"owner":path(self.cx.tcx, i.owner_id.to_def_id())}),
                hir::ItemKind::Impl(im) => {
                    let d = i.owner_id.to_def_id();
                    if im.of_trait.is_some() && self.cx.tcx.impl_opt_trait_id(d).is_some_and(|t| self.cx.tcx.trait_def(t).safety.is_unsafe()) {
                        self.out.push(obj! {"kind":"impl","span":self.cx.span(i.span),"expansion":i.span.from_expansion(),"macros":macros(self.cx.tcx, i.span),"owner":path(self.cx.tcx, d)});
                    }
                }
                _ => {}
            }
            intravisit::walk_item(self, i);
        }
        fn visit_impl_item(&mut self, i: &'tcx hir::ImplItem<'tcx>) {
            if let hir::ImplItemKind::Fn(sig, _) = &i.kind && !sig.header.is_safe() {
                self.out.push(obj! {"kind":"fn","span":self.cx.span(i.span),"expansion":i.span.from_expansion(),"macros":macros(self.cx.tcx, i.span),"owner":path(self.cx.tcx, i.owner_id.to_def_id())});
            }
            intravisit::walk_impl_item(self, i);
        }
    }
    let mut v = V { cx, out: vec![] };
    tcx.hir_walk_toplevel_module(&mut v);
    J::A(v.out)
}

/// Crates defining the macros a span comes from, innermost first.
fn macros(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> J {
    let mut out = vec![];
    for e in sp.macro_backtrace() {
        out.push(match e.macro_def_id {
            Some(d) => J::s(tcx.crate_name(d.krate).to_string()),
            None => J::s("?"),
        });
    }
    J::A(out)
}

/// Only what X02 looks at: unsafe code, loaded crates and crate attributes.
pub fn dump_lite(tcx: TyCtxt<'_>, out: &str) {
    let cx = Cx { tcx, env: TypingEnv::fully_monomorphized(), envtag: String::new(), types: vec![], tymap: Default::default(), insts: vec![], instmap: Default::default(), queue: Default::default() };
    let name = tcx.crate_name(LOCAL_CRATE).to_string();
    let unsafe_blocks = crate_unsafe(tcx, &cx);
    let externs: Vec<J> = tcx.crates(()).iter().map(|c| J::s(tcx.crate_name(*c).to_string())).collect();
    let j = obj! {"crate":name.clone(),"unsafe":unsafe_blocks,"externs":externs};
    let mut s = String::new();
    j.write(&mut s);
    std::fs::create_dir_all(out).unwrap();
    std::fs::write(format!("{out}/{name}.json"), s).unwrap();
}
