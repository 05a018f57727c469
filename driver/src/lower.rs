//! Lowering of monomorphised MIR to a compact form with resolved layouts and callees.

use rustc_abi::{FieldsShape, Size, TagEncoding, VariantIdx, Variants};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar, BinOp, CastKind, UnOp};
use rustc_middle::ty::layout::TyAndLayout;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_middle::mir::interpret::AllocId;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TK {
    Int(u8, bool),
    Float(u8),
    Thin,
    Fat,
    Agg,
}
#[derive(Clone, Copy, Debug)]
pub struct TI {
    pub size: u64,
    pub kind: TK,
    pub unsized_: bool,
}
#[derive(Clone, Debug)]
pub enum PElem {
    Deref { fat: bool },
    Field(u64),
    Index { local: usize, el: u64 },
    ConstIdx { off: u64, from_end: bool, el: u64, arr: Option<u64> },
    Subslice { from: u64, to: u64, from_end: bool, el: u64, arr: Option<u64> },
}
#[derive(Clone, Debug)]
pub struct Place {
    pub local: usize,
    pub proj: Vec<PElem>,
    pub ti: TI,
}
#[derive(Clone, Debug)]
pub enum Opd {
    Place(Place),
    Int(i128, TI),
    Zst,
    FnItem,
    /// pointer constant (alloc, offset)
    Ptr(AllocId, u64),
    Slice(AllocId, u64),
    FnPtr(usize),
    Blob(AllocId, u64, TI),
    Unsup(String),
}
#[derive(Clone, Debug)]
pub enum Disc {
    Single(i128),
    Direct { off: u64, size: u64, signed: bool, map: Vec<(u32, i128)> },
    Niche { off: u64, size: u64, untagged: i128, start: i128, end: i128, niche_start: i128 },
    Unsup,
}
#[derive(Clone, Debug)]
pub enum Rv {
    Use(Opd),
    Repeat(Opd, u64, u64), // operand, count, element size
    Addr(Place),
    Cast(CastK, Opd, TI, TI),
    Bin(BinOp, Opd, Opd, TI, TI, u64 /* pointee size for Offset */),
    BinOv(BinOp, Opd, Opd, TI, u64, u64),
    Not(Opd, TI),
    Neg(Opd, TI),
    Meta(Opd),
    Discr(Place, Disc),
    Agg(Vec<(u64, Opd)>, Option<(Disc, u32)>),
    FatPtr(Opd, Opd),
    Runtime(bool),
    Unsup(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Int,
    FloatToInt,
    IntToFloat,
    FloatToFloat,
    Ptr,
    Transmute,
    Unsize(u64),
    /// to a trait object; the number names the concrete type
    UnsizeDyn(usize),
    PtrInt,
}
#[derive(Clone, Debug)]
pub enum Stmt {
    Assign(Place, Rv),
    SetDisc(Place, Disc, u32),
    Assume(Opd),
    CopyNonOverlapping(Opd, Opd, Opd, u64),
    Dead(usize),
}
#[derive(Clone, Debug)]
pub enum Callee {
    Inst(usize),
    Intrinsic(String, usize),
    /// a method of a trait object: the number leads to the method
    Virtual(usize),
    /// the destructor of a trait object
    DropDyn,
    Ptr(Opd),
    Unsup(String),
}
#[derive(Clone, Debug)]
pub enum Term {
    Goto(usize),
    Switch(Opd, TI, Vec<(i128, usize)>, usize),
    Return,
    Unreachable,
    Call { f: Callee, args: Vec<(Opd, TI)>, dest: Place, target: Option<usize>, line: String, untuple: bool },
    Assert { cond: Opd, expected: bool, msg: String, target: usize, line: String },
    Resume,
    Unsup(String),
}
#[derive(Debug)]
pub struct Block {
    pub stmts: Vec<Stmt>,
    pub term: Term,
}
#[derive(Debug)]
pub struct Body {
    pub name: String,
    pub nargs: usize,
    pub spread: Option<usize>,
    pub locals: Vec<TI>,
    /// tuple layout of each local (used to untuple closure arguments)
    pub tuple: Vec<Option<Vec<(u64, TI)>>>,
    pub blocks: Vec<Block>,
    pub pos: Vec<u32>,
    pub path: Vec<Vec<u32>>, // headers of the loops containing the block, outermost first
    pub local_crate: bool,
}

pub struct Lower<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub insts: Vec<Instance<'tcx>>,
    pub inst_map: HashMap<Instance<'tcx>, usize>,
    pub bodies: Vec<Option<Rc<Body>>>,
    pub intrin: Vec<(String, GenericArgsRef<'tcx>, DefId)>,
    pub tys: Vec<Ty<'tcx>>,
    /// concrete types of trait objects
    pub dyns: Vec<Ty<'tcx>>,
    pub virt: Vec<(DefId, GenericArgsRef<'tcx>)>,
    pub ptr_bytes: u64,
    pub big_endian: bool,
}

impl<'tcx> Lower<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        let dl = &tcx.data_layout;
        Lower {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            insts: vec![],
            inst_map: HashMap::new(),
            bodies: vec![],
            intrin: vec![],
            tys: vec![],
            dyns: vec![],
            virt: vec![],
            ptr_bytes: dl.pointer_size().bytes(),
            big_endian: dl.endian == rustc_abi::Endian::Big,
        }
    }
    pub fn layout(&self, ty: Ty<'tcx>) -> TyAndLayout<'tcx> {
        match self.tcx.layout_of(self.env.as_query_input(ty)) {
            Ok(l) => l,
            Err(e) => panic!("no layout for {ty:?}: {e:?}"),
        }
    }
    pub fn ti(&self, ty: Ty<'tcx>) -> TI {
        let l = self.layout(ty);
        let size = l.size.bytes();
        let kind = match ty.kind() {
            ty::Bool => TK::Int(8, false),
            ty::Char => TK::Int(32, false),
            ty::Int(_) => TK::Int((size * 8) as u8, true),
            ty::Uint(_) => TK::Int((size * 8) as u8, false),
            ty::Float(_) => TK::Float((size * 8) as u8),
            ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..) => {
                if size == self.ptr_bytes {
                    TK::Thin
                } else {
                    TK::Fat
                }
            }
            _ => TK::Agg,
        };
        TI { size, kind, unsized_: l.is_unsized() }
    }
    pub fn dyn_id(&mut self, t: Ty<'tcx>) -> usize {
        match self.dyns.iter().position(|x| *x == t) {
            Some(i) => i,
            None => {
                self.dyns.push(t);
                self.dyns.len() - 1
            }
        }
    }
    /// the method of the trait object's concrete type
    pub fn dispatch(&mut self, virt: usize, id: usize) -> Option<usize> {
        let (d, args) = self.virt[virt];
        let me = self.dyns[id];
        let args = self.tcx.mk_args_from_iter(std::iter::once(me.into()).chain(args.iter().skip(1)));
        match Instance::try_resolve(self.tcx, self.env, d, args) {
            Ok(Some(i)) if !matches!(i.def, ty::InstanceKind::Virtual(..) | ty::InstanceKind::Intrinsic(_)) => Some(self.inst_id(i)),
            _ => None,
        }
    }
    pub fn inst_id(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.inst_map.get(&i) {
            return *x;
        }
        let id = self.insts.len();
        self.insts.push(i);
        self.inst_map.insert(i, id);
        self.bodies.push(None);
        id
    }
    pub fn name(&self, id: usize) -> String {
        self.tcx.def_path_str(self.insts[id].def_id())
    }
    pub fn body(&mut self, id: usize) -> Result<Rc<Body>, String> {
        if let Some(b) = &self.bodies[id] {
            return Ok(b.clone());
        }
        let b = Rc::new(self.lower_body(self.insts[id])?);
        self.bodies[id] = Some(b.clone());
        Ok(b)
    }

    pub fn disc(&self, ty: Ty<'tcx>) -> Disc {
        let l = self.layout(ty);
        match &l.variants {
            Variants::Empty => Disc::Single(0),
            Variants::Single { index } => {
                let v = ty.discriminant_for_variant(self.tcx, *index).map(|d| self.signed_discr(ty, d.val)).unwrap_or(0);
                Disc::Single(v)
            }
            Variants::Multiple { tag, tag_encoding, tag_field, variants } => {
                let off = l.fields.offset(tag_field.as_usize()).bytes();
                let size = tag.size(&self.tcx).bytes();
                match tag_encoding {
                    TagEncoding::Direct => {
                        let signed = matches!(tag.primitive(), rustc_abi::Primitive::Int(_, true));
                        let map = variants
                            .indices()
                            .map(|i| {
                                let d = ty.discriminant_for_variant(self.tcx, i).unwrap();
                                (i.as_u32(), self.signed_discr(ty, d.val))
                            })
                            .collect();
                        Disc::Direct { off, size, signed, map }
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => Disc::Niche {
                        off,
                        size,
                        untagged: untagged_variant.as_u32() as i128,
                        start: niche_variants.start.as_u32() as i128,
                        end: niche_variants.last.as_u32() as i128,
                        niche_start: *niche_start as i128,
                    },
                }
            }
        }
    }
    fn signed_discr(&self, ty: Ty<'tcx>, v: u128) -> i128 {
        let dt = ty.discriminant_ty(self.tcx);
        let sz = self.layout(dt).size;
        match dt.kind() {
            ty::Int(_) => sz.sign_extend(v),
            _ => v as i128,
        }
    }

    fn lower_body(&mut self, inst: Instance<'tcx>) -> Result<Body, String> {
        let tcx = self.tcx;
        let did = inst.def_id();
        if let ty::InstanceKind::Item(d) = inst.def {
            if !tcx.is_mir_available(d) {
                return Err(format!("no MIR for {}", tcx.def_path_str(d)));
            }
        }
        let raw = tcx.instance_mir(inst.def);
        let body: mir::Body<'tcx> =
            inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, raw.clone()));
        let mut locals: Vec<TI> = body.local_decls.iter().map(|d| self.ti(d.ty)).collect();
        let mut tuple: Vec<_> = body
            .local_decls
            .iter()
            .map(|d| match d.ty.kind() {
                ty::Tuple(ts) => {
                    let l = self.layout(d.ty);
                    Some(ts.iter().enumerate().map(|(i, t)| (l.fields.offset(i).bytes(), self.ti(t))).collect())
                }
                _ => None,
            })
            .collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(Block { stmts: vec![], term: Term::Resume });
                continue;
            }
            let mut stmts = vec![];
            for s in &bb.statements {
                use mir::StatementKind as S;
                match &s.kind {
                    S::Assign(b) => {
                        let pl = self.place(&body, &b.0);
                        let rv = self.rvalue(&body, &b.1, b.0.ty(&body.local_decls, tcx).ty);
                        stmts.push(Stmt::Assign(pl, rv));
                    }
                    S::SetDiscriminant { place, variant_index } => {
                        let ty = place.ty(&body.local_decls, tcx).ty;
                        let d = self.disc(ty);
                        stmts.push(Stmt::SetDisc(self.place(&body, place), d, variant_index.as_u32()));
                    }
                    S::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(o) => {
                            let o = self.operand(&body, o);
                            stmts.push(Stmt::Assume(o));
                        }
                        mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let t = c.src.ty(&body.local_decls, tcx).builtin_deref(true).unwrap();
                            let sz = self.layout(t).size.bytes();
                            let (a, b, n) = (self.operand(&body, &c.src), self.operand(&body, &c.dst), self.operand(&body, &c.count));
                            stmts.push(Stmt::CopyNonOverlapping(a, b, n, sz));
                        }
                    },
                    S::StorageDead(l) => stmts.push(Stmt::Dead(l.as_usize())),
                    _ => {}
                }
            }
            let term = match &bb.terminator().kind {
                mir::TerminatorKind::Drop { place, target, .. } => self.drop_glue(&body, place, target.as_usize(), &mut locals, &mut tuple, &mut stmts, bb.terminator()),
                _ => self.terminator(&body, bb.terminator()),
            };
            blocks.push(Block { stmts, term });
        }
        let (pos, path) = wto(&blocks);
        Ok(Body {
            name: tcx.def_path_str(did),
            nargs: body.arg_count,
            spread: body.spread_arg.map(|x| x.as_usize()),
            locals,
            tuple,
            blocks,
            pos,
            path,
            local_crate: did.is_local(),
        })
    }

    /// the end of a value's life: a call of its drop glue
    fn drop_glue(&mut self, body: &mir::Body<'tcx>, p: &mir::Place<'tcx>, target: usize, locals: &mut Vec<TI>, tuple: &mut Vec<Option<Vec<(u64, TI)>>>, stmts: &mut Vec<Stmt>, t: &mir::Terminator<'tcx>) -> Term {
        let tcx = self.tcx;
        let ty = p.ty(&body.local_decls, tcx).ty;
        if !ty.needs_drop(tcx, self.env) {
            return Term::Goto(target);
        }
        let f = if let ty::Dynamic(..) = ty.kind() { Callee::DropDyn } else { Callee::Inst(self.inst_id(Instance::resolve_drop_glue(tcx, ty))) };
        let (pt, unit) = (self.ti(Ty::new_mut_ptr(tcx, ty)), self.ti(tcx.types.unit));
        let n = locals.len();
        locals.extend([pt, unit]);
        tuple.extend([None, None]);
        let (a, d) = (Place { local: n, proj: vec![], ti: pt }, Place { local: n + 1, proj: vec![], ti: unit });
        let what = self.place(body, p);
        stmts.push(Stmt::Assign(a.clone(), Rv::Addr(what)));
        Term::Call { f, args: vec![(Opd::Place(a), pt)], dest: d, target: Some(target), line: self.line(t.source_info.span), untuple: false }
    }

    fn place(&mut self, body: &mir::Body<'tcx>, p: &mir::Place<'tcx>) -> Place {
        let tcx = self.tcx;
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut proj = vec![];
        for e in p.projection.iter() {
            use mir::ProjectionElem as P;
            match e {
                P::Deref => {
                    let inner = pt.ty.builtin_deref(true).unwrap();
                    let fat = self.layout(pt.ty).size.bytes() > self.ptr_bytes;
                    let _ = inner;
                    proj.push(PElem::Deref { fat });
                }
                P::Field(f, _) => {
                    let l = self.layout(pt.ty);
                    let l = match pt.variant_index {
                        Some(v) => l.for_variant(&ty::layout::LayoutCx::new(tcx, self.env), v),
                        None => l,
                    };
                    let o = l.fields.offset(f.as_usize()).bytes();
                    if o != 0 {
                        if let Some(PElem::Field(x)) = proj.last_mut() {
                            *x += o;
                        } else {
                            proj.push(PElem::Field(o));
                        }
                    }
                }
                P::Index(l) => {
                    let el = self.elsize(pt.ty);
                    proj.push(PElem::Index { local: l.as_usize(), el });
                }
                P::ConstantIndex { offset, from_end, .. } => {
                    let el = self.elsize(pt.ty);
                    proj.push(PElem::ConstIdx { off: offset, from_end, el, arr: self.arrlen(pt.ty) });
                }
                P::Subslice { from, to, from_end } => {
                    let el = self.elsize(pt.ty);
                    proj.push(PElem::Subslice { from, to, from_end, el, arr: self.arrlen(pt.ty) });
                }
                _ => {}
            }
            pt = pt.projection_ty(tcx, e);
        }
        let ti = self.ti(pt.ty);
        Place { local: p.local.as_usize(), proj, ti }
    }
    fn arrlen(&self, t: Ty<'tcx>) -> Option<u64> {
        match t.kind() {
            ty::Array(_, n) => n.try_to_target_usize(self.tcx),
            _ => None,
        }
    }
    fn elsize(&self, t: Ty<'tcx>) -> u64 {
        match t.kind() {
            ty::Array(e, _) | ty::Slice(e) => self.layout(*e).size.bytes(),
            ty::Str => 1,
            _ => panic!("index into {t:?}"),
        }
    }

    fn operand(&mut self, body: &mir::Body<'tcx>, o: &mir::Operand<'tcx>) -> Opd {
        match o {
            mir::Operand::Copy(p) | mir::Operand::Move(p) => Opd::Place(self.place(body, p)),
            mir::Operand::RuntimeChecks(r) => {
                let b = matches!(r, mir::RuntimeChecks::OverflowChecks);
                Opd::Int(b as i128, TI { size: 1, kind: TK::Int(8, false), unsized_: false })
            }
            mir::Operand::Constant(c) => self.constant(&c.const_),
        }
    }
    fn constant(&mut self, c: &mir::Const<'tcx>) -> Opd {
        let tcx = self.tcx;
        let ty = c.ty();
        let ti = self.ti(ty);
        if let ty::FnDef(..) = ty.kind() {
            return Opd::FnItem;
        }
        if ti.size == 0 {
            return Opd::Zst;
        }
        let v = match c.eval(tcx, self.env, rustc_span::DUMMY_SP) {
            Ok(v) => v,
            Err(_) => return Opd::Unsup("constant evaluation failed".into()),
        };
        match v {
            mir::ConstValue::ZeroSized => Opd::Zst,
            mir::ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                let v = match ti.kind {
                    TK::Int(_, true) => Size::from_bytes(ti.size).sign_extend(bits),
                    _ => bits as i128,
                };
                Opd::Int(v, ti)
            }
            mir::ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                self.ptr_const(prov.alloc_id(), off.bytes())
            }
            mir::ConstValue::Slice { alloc_id, meta } => Opd::Slice(alloc_id, meta),
            mir::ConstValue::Indirect { alloc_id, offset } => Opd::Blob(alloc_id, offset.bytes(), ti),
        }
    }
    fn ptr_const(&mut self, a: AllocId, off: u64) -> Opd {
        match self.tcx.global_alloc(a) {
            GlobalAlloc::Function { instance } => Opd::FnPtr(self.inst_id(instance)),
            _ => Opd::Ptr(a, off),
        }
    }

    fn rvalue(&mut self, body: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>, dty: Ty<'tcx>) -> Rv {
        use mir::Rvalue as R;
        let tcx = self.tcx;
        match r {
            R::Use(o, _) => Rv::Use(self.operand(body, o)),
            R::CopyForDeref(p) => Rv::Use(Opd::Place(self.place(body, p))),
            R::Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                let el = self.elsize(dty);
                Rv::Repeat(self.operand(body, o), n, el)
            }
            R::Ref(_, _, p) | R::RawPtr(_, p) => Rv::Addr(self.place(body, p)),
            R::Reborrow(_, _, p) => Rv::Use(Opd::Place(self.place(body, p))),
            R::ThreadLocalRef(_) => Rv::Unsup("thread local".into()),
            R::Cast(k, o, t) => {
                let st = o.ty(&body.local_decls, tcx);
                let (a, b) = (self.ti(st), self.ti(*t));
                let ck = match k {
                    CastKind::IntToInt => CastK::Int,
                    CastKind::FloatToInt => CastK::FloatToInt,
                    CastKind::IntToFloat => CastK::IntToFloat,
                    CastKind::FloatToFloat => CastK::FloatToFloat,
                    CastKind::PtrToPtr | CastKind::FnPtrToPtr => CastK::Ptr,
                    CastKind::Transmute | CastKind::BoxDerefTransmute | CastKind::Subtype => CastK::Transmute,
                    CastKind::PointerExposeProvenance | CastKind::PointerWithExposedProvenance => CastK::PtrInt,
                    CastKind::PointerCoercion(pc, _) => {
                        use ty::adjustment::PointerCoercion as PC;
                        match pc {
                            PC::ReifyFnPointer(_) => {
                                if let ty::FnDef(d, args) = st.kind() {
                                    let i = Instance::resolve_for_fn_ptr(tcx, self.env, *d, args.no_bound_vars().unwrap());
                                    return match i {
                                        Some(i) => Rv::Use(Opd::FnPtr(self.inst_id(i))),
                                        None => Rv::Unsup("reify".into()),
                                    };
                                }
                                return Rv::Unsup("reify".into());
                            }
                            PC::ClosureFnPointer(_) => {
                                if let ty::Closure(d, args) = st.kind() {
                                    let i = Instance::resolve_closure(tcx, *d, args, ty::ClosureKind::FnOnce);
                                    return Rv::Use(Opd::FnPtr(self.inst_id(i)));
                                }
                                return Rv::Unsup("closure pointer".into());
                            }
                            PC::Unsize => {
                                // &[T; N] -> &[T]
                                let (x, y) = (st.builtin_deref(true), t.builtin_deref(true));
                                if let (Some(x), Some(y)) = (x, y) {
                                    let (x, y) = match (x.kind(), y.kind()) {
                                        (ty::Adt(..), ty::Adt(..)) => tcx.struct_lockstep_tails_for_codegen(x, y, ty::TypingEnv::fully_monomorphized()),
                                        _ => (x, y),
                                    };
                                    if let (ty::Array(_, n), ty::Slice(_)) = (x.kind(), y.kind()) {
                                        if let Some(n) = n.try_to_target_usize(tcx) {
                                            return Rv::Cast(CastK::Unsize(n), self.operand(body, o), a, b);
                                        }
                                    }
                                    if let ty::Dynamic(..) = y.kind() {
                                        if !matches!(x.kind(), ty::Dynamic(..)) && self.layout(x).is_sized() {
                                            let id = self.dyn_id(x);
                                            return Rv::Cast(CastK::UnsizeDyn(id), self.operand(body, o), a, b);
                                        }
                                    }
                                }
                                return Rv::Unsup(format!("unsize {st:?} to {t:?}"));
                            }
                            _ => CastK::Ptr,
                        }
                    }
                };
                Rv::Cast(ck, self.operand(body, o), a, b)
            }
            R::BinaryOp(op, ab) => {
                let ta = ab.0.ty(&body.local_decls, tcx);
                let tb = ab.1.ty(&body.local_decls, tcx);
                let (ia, ib) = (self.ti(ta), self.ti(tb));
                let (a, b) = (self.operand(body, &ab.0), self.operand(body, &ab.1));
                match op {
                    BinOp::AddWithOverflow | BinOp::SubWithOverflow | BinOp::MulWithOverflow => {
                        let l = self.layout(dty);
                        Rv::BinOv(*op, a, b, ia, l.fields.offset(0).bytes(), l.fields.offset(1).bytes())
                    }
                    BinOp::Offset => {
                        let t = ta.builtin_deref(true).unwrap();
                        let sz = self.layout(t).size.bytes();
                        Rv::Bin(*op, a, b, ia, ib, sz)
                    }
                    _ => Rv::Bin(*op, a, b, ia, ib, 0),
                }
            }
            R::UnaryOp(op, o) => {
                let t = self.ti(o.ty(&body.local_decls, tcx));
                let isbool = o.ty(&body.local_decls, tcx).is_bool();
                let x = self.operand(body, o);
                match op {
                    UnOp::Not => Rv::Not(x, if isbool { TI { size: 0, ..t } } else { t }),
                    UnOp::Neg => Rv::Neg(x, t),
                    UnOp::PtrMetadata => Rv::Meta(x),
                }
            }
            R::Discriminant(p) => {
                let ty = p.ty(&body.local_decls, tcx).ty;
                let d = self.disc(ty);
                Rv::Discr(self.place(body, p), d)
            }
            R::Aggregate(k, ops) => {
                let ops2: Vec<Opd> = ops.iter().map(|o| self.operand(body, o)).collect();
                match &**k {
                    mir::AggregateKind::RawPtr(..) => Rv::FatPtr(ops2[0].clone(), ops2[1].clone()),
                    mir::AggregateKind::Array(t) => {
                        let el = self.layout(*t).size.bytes();
                        Rv::Agg(ops2.into_iter().enumerate().map(|(i, o)| (i as u64 * el, o)).collect(), None)
                    }
                    kk => {
                        let l = self.layout(dty);
                        let (vi, active, is_enum) = match kk {
                            mir::AggregateKind::Adt(d, v, _, _, act) => (*v, *act, tcx.adt_def(*d).is_enum()),
                            _ => (VariantIdx::from_u32(0), None, false),
                        };
                        let vl = if is_enum { l.for_variant(&ty::layout::LayoutCx::new(tcx, self.env), vi) } else { l };
                        let mut out = vec![];
                        for (i, o) in ops2.into_iter().enumerate() {
                            let fi = active.map(|x| x.as_usize()).unwrap_or(i);
                            out.push((vl.fields.offset(fi).bytes(), o));
                        }
                        let d = if is_enum { Some((self.disc(dty), vi.as_u32())) } else { None };
                        Rv::Agg(out, d)
                    }
                }
            }
            R::WrapUnsafeBinder(o, _) => Rv::Use(self.operand(body, o)),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.source_callsite().lo());
        let mut f = format!("{}", l.file.name.prefer_local_unconditionally());
        if let Some(i) = f.find("/src/") {
            f = f[i + 1..].to_string();
        }
        format!("{}:{}", f, l.line)
    }

    fn terminator(&mut self, body: &mir::Body<'tcx>, t: &mir::Terminator<'tcx>) -> Term {
        use mir::TerminatorKind as T;
        let tcx = self.tcx;
        match &t.kind {
            T::Goto { target, .. } => Term::Goto(target.as_usize()),
            T::SwitchInt { discr, targets } => {
                let ty = discr.ty(&body.local_decls, tcx);
                let ti = self.ti(ty);
                let v = targets
                    .iter()
                    .map(|(v, b)| {
                        let v = match ti.kind {
                            TK::Int(w, true) => Size::from_bits(w as u64).sign_extend(v),
                            _ => v as i128,
                        };
                        (v, b.as_usize())
                    })
                    .collect();
                Term::Switch(self.operand(body, discr), ti, v, targets.otherwise().as_usize())
            }
            T::Return => Term::Return,
            T::Unreachable => Term::Unreachable,
            T::FalseEdge { real_target, .. } => Term::Goto(real_target.as_usize()),
            T::FalseUnwind { real_target, .. } => Term::Goto(real_target.as_usize()),
            T::UnwindResume | T::UnwindTerminate(_) => Term::Resume,
            T::Assert { cond, expected, msg, target, .. } => {
                let m = match &**msg {
                    mir::AssertKind::BoundsCheck { .. } => "index out of bounds".to_string(),
                    mir::AssertKind::Overflow(op, ..) => format!("arithmetic overflow ({op:?})"),
                    mir::AssertKind::OverflowNeg(_) => "arithmetic overflow (Neg)".to_string(),
                    mir::AssertKind::DivisionByZero(_) => "division by zero".to_string(),
                    mir::AssertKind::RemainderByZero(_) => "remainder by zero".to_string(),
                    _ => "assertion".to_string(),
                };
                Term::Assert { cond: self.operand(body, cond), expected: *expected, msg: m, target: target.as_usize(), line: self.line(t.source_info.span) }
            }
            T::Call { func, args, destination, target, .. } => {
                let fty = func.ty(&body.local_decls, tcx);
                let sig = fty.fn_sig(tcx);
                let untuple = sig.abi() == rustc_abi::ExternAbi::RustCall;
                let f = match fty.kind() {
                    ty::FnDef(d, gargs) => self.callee(*d, gargs.no_bound_vars().unwrap()),
                    ty::FnPtr(..) => Callee::Ptr(self.operand(body, func)),
                    _ => Callee::Unsup(format!("{fty:?}")),
                };
                let a = args
                    .iter()
                    .map(|x| {
                        let ty = x.node.ty(&body.local_decls, tcx);
                        (self.operand(body, &x.node), self.ti(ty))
                    })
                    .collect();
                Term::Call { f, args: a, dest: self.place(body, destination), target: target.map(|x| x.as_usize()), line: self.line(t.source_info.span), untuple }
            }
            k => Term::Unsup(format!("{k:?}").chars().take(80).collect()),
        }
    }

    pub fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> Callee {
        let tcx = self.tcx;
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(i)) => match i.def {
                ty::InstanceKind::Intrinsic(d) => {
                    let name = tcx.item_name(d).to_string();
                    let id = self.intrin.len();
                    self.intrin.push((name.clone(), i.args, d));
                    Callee::Intrinsic(name, id)
                }
                ty::InstanceKind::Virtual(d, _) => {
                    self.virt.push((d, i.args));
                    Callee::Virtual(self.virt.len() - 1)
                }
                _ => Callee::Inst(self.inst_id(i)),
            },
            _ => Callee::Unsup(format!("unresolved {}", tcx.def_path_str(d))),
        }
    }
}

pub fn succs(t: &Term) -> Vec<usize> {
    match t {
        Term::Goto(x) => vec![*x],
        Term::Switch(_, _, v, o) => {
            let mut r: Vec<usize> = v.iter().map(|x| x.1).collect();
            r.push(*o);
            r
        }
        Term::Call { target, .. } => target.iter().copied().collect(),
        Term::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}

/// Bourdoncle's weak topological order: position of each block and its enclosing loop headers.
fn wto(blocks: &[Block]) -> (Vec<u32>, Vec<Vec<u32>>) {
    struct W<'a> {
        b: &'a [Block],
        dfn: Vec<u32>,
        num: u32,
        stack: Vec<usize>,
    }
    #[derive(Debug)]
    enum E {
        V(usize),
        C(usize, Vec<E>),
    }
    impl W<'_> {
        fn visit(&mut self, v: usize, part: &mut Vec<E>) -> u32 {
            self.stack.push(v);
            self.num += 1;
            self.dfn[v] = self.num;
            let mut head = self.num;
            let mut is_loop = false;
            for s in succs(&self.b[v].term) {
                let min = if self.dfn[s] == 0 { self.visit(s, part) } else { self.dfn[s] };
                if min <= head {
                    head = min;
                    is_loop = true;
                }
            }
            if head == self.dfn[v] {
                self.dfn[v] = u32::MAX;
                let mut e = self.stack.pop().unwrap();
                if is_loop {
                    while e != v {
                        self.dfn[e] = 0;
                        e = self.stack.pop().unwrap();
                    }
                    let mut p = vec![];
                    for s in succs(&self.b[v].term) {
                        if self.dfn[s] == 0 {
                            self.visit(s, &mut p);
                        }
                    }
                    p.reverse();
                    part.push(E::C(v, p));
                } else {
                    part.push(E::V(v));
                }
            }
            head
        }
    }
    let mut w = W { b: blocks, dfn: vec![0; blocks.len()], num: 0, stack: vec![] };
    let mut part = vec![];
    w.visit(0, &mut part);
    part.reverse();
    let mut pos = vec![u32::MAX; blocks.len()];
    let mut path = vec![vec![]; blocks.len()];
    fn walk(p: &[E], pos: &mut Vec<u32>, path: &mut Vec<Vec<u32>>, cur: &mut Vec<u32>, n: &mut u32) {
        for e in p {
            match e {
                E::V(v) => {
                    pos[*v] = *n;
                    *n += 1;
                    path[*v] = cur.clone();
                }
                E::C(v, q) => {
                    cur.push(*v as u32);
                    pos[*v] = *n;
                    *n += 1;
                    path[*v] = cur.clone();
                    walk(q, pos, path, cur, n);
                    cur.pop();
                }
            }
        }
    }
    let mut n = 0;
    walk(&part, &mut pos, &mut path, &mut vec![], &mut n);
    (pos, path)
}

#[allow(dead_code)]
pub fn field_offsets(l: &rustc_abi::LayoutData<rustc_abi::FieldIdx, VariantIdx>) -> Vec<u64> {
    match &l.fields {
        FieldsShape::Arbitrary { offsets, .. } => offsets.iter().map(|x| x.bytes()).collect(),
        _ => vec![],
    }
}
