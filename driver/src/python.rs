//! The Python module: which native decoder each Python function reaches, and with what.
//!
//! The analysed crate is the binding crate; the native decoders are calls into another
//! crate and stand for themselves.  Calls into the Python runtime are modelled by what
//! they are documented to do.
use crate::guard::{impossible, search_sizes};
use crate::image::conj;
use crate::interp::*;
use crate::lower::*;
use crate::node::*;
use crate::report::*;
use rustc_abi::VariantIdx;
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

type R<T> = Result<T, Stop>;
fn unsup<T>(s: &str) -> R<T> {
    Err(Stop::Unsup(s.into()))
}

const DATA: u32 = 0;
const ARG: u32 = 1; // one object per argument
const TEXT: u32 = 8; // message of the native decoder
const NATIVE_ERR: u32 = 9; // ValueError with that message
const VALUE_ERR: u32 = 10; // ValueError with another message
const OTHER_ERR: u32 = 11; // another exception
const RUNTIME_ERR: u32 = 12; // raised by the runtime
const EXTS: u32 = 13;
const TEXT_LEN: u32 = 5;

struct NCall {
    name: String,
    args: Vec<V>,
    pc: Vec<(N, bool)>,
    /// the buffer, its size, the object it lives in
    size: Option<N>,
    ext: u32,
}
#[derive(Default)]
struct Log {
    defs: Vec<Ptr>,
    entry: Option<usize>,
    native: Vec<NCall>,
    native_ok: bool,
    args: Vec<N>,
    len: Option<N>,
    names: Vec<String>,
    required: i128,
}
thread_local! {
    static LOG: RefCell<Log> = RefCell::new(Log::default());
}

pub fn ret_ty<'tcx>(it: &Interp<'tcx>, inst: usize) -> Ty<'tcx> {
    let tcx = it.lw.tcx;
    let i = it.lw.insts[inst];
    let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(i.def_id()).instantiate(tcx, i.args).skip_norm_wip());
    tcx.normalize_erasing_regions(it.lw.env, ty::Unnormalized::new_wip(sig.output()))
}
fn blank() -> State {
    State { frames: vec![], ext: vec![], pc: vec![], refine: Default::default(), events: Default::default(), tag: 0 }
}
/// a value of the type whose pointers all lead to the given object
fn fill<'tcx>(it: &mut Interp<'tcx>, st: &mut State, off: u64, ty: Ty<'tcx>, obj: u32, d: u32) -> R<()> {
    let l = it.lw.layout(ty);
    if l.size.bytes() == 0 || d > 20 {
        return Ok(());
    }
    let at = Ptr { a: A::Ext(0), off: cst(off as i128) };
    let tcx = it.lw.tcx;
    match ty.kind() {
        ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..) => {
            it.store(st, at, it.lw.ptr_bytes, Val::Ptr(Ptr { a: A::Ext(obj), off: cst(0) }))?;
            if l.size.bytes() > it.lw.ptr_bytes {
                it.store(st, Ptr { a: A::Ext(0), off: cst((off + it.lw.ptr_bytes) as i128) }, it.lw.ptr_bytes, Val::Ptr(Ptr { a: A::Ext(obj), off: cst(0) }))?;
            }
            Ok(())
        }
        ty::Pat(inner, _) => fill(it, st, off, *inner, obj, d + 1),
        ty::Adt(def, args) if def.is_struct() || def.is_enum() => {
            let v = if def.is_enum() {
                def.variants().iter_enumerated().find(|x| x.1.name.as_str() == "Some").map(|x| x.0).unwrap_or(VariantIdx::from_u32(0))
            } else {
                VariantIdx::from_u32(0)
            };
            let vl = if def.is_enum() { l.for_variant(&ty::layout::LayoutCx::new(tcx, it.lw.env), v) } else { l };
            for (i, f) in def.variant(v).fields.iter().enumerate() {
                let fty = tcx.normalize_erasing_regions(it.lw.env, ty::Unnormalized::new_wip(f.ty(tcx, args).skip_norm_wip()));
                fill(it, st, off + vl.fields.offset(i).bytes(), fty, obj, d + 1)?;
            }
            if def.is_enum() {
                let disc = it.lw.disc(ty);
                it.write_disc(st, at, &disc, v.as_u32())?;
            }
            Ok(())
        }
        ty::Tuple(ts) => {
            for (i, t) in ts.iter().enumerate() {
                fill(it, st, off + l.fields.offset(i).bytes(), t, obj, d + 1)?;
            }
            Ok(())
        }
        ty::Int(_) | ty::Uint(_) | ty::Bool => it.store(st, at, l.size.bytes(), Val::Sc(cst(1))),
        _ => Ok(()),
    }
}
fn scratch(size: u64) -> State {
    let mut st = blank();
    let mut a = Alloc::new(size);
    a.kind = AK::Heap;
    st.ext.push(Rc::new(a));
    st
}
fn exemplar<'tcx>(it: &mut Interp<'tcx>, ty: Ty<'tcx>, obj: u32) -> R<V> {
    let mut st = scratch(it.lw.layout(ty).size.bytes());
    fill(it, &mut st, 0, ty, obj, 0)?;
    let ti = it.lw.ti(ty);
    it.read(&st, Ptr { a: A::Ext(0), off: cst(0) }, ti)
}
pub enum Pay {
    Is(V),
    Obj(u32),
}
/// Ok(v), Some(v) or Err(something leading to the object)
pub fn variant<'tcx>(it: &mut Interp<'tcx>, ty: Ty<'tcx>, var: u32, p: Pay) -> R<V> {
    let tcx = it.lw.tcx;
    let l = it.lw.layout(ty);
    let mut st = scratch(l.size.bytes());
    let ty::Adt(def, args) = ty.kind() else { return unsup("result type") };
    let v = VariantIdx::from_u32(var);
    let vl = l.for_variant(&ty::layout::LayoutCx::new(tcx, it.lw.env), v);
    if let Some(f) = def.variant(v).fields.iter().next() {
        let fty = tcx.normalize_erasing_regions(it.lw.env, ty::Unnormalized::new_wip(f.ty(tcx, args).skip_norm_wip()));
        let off = vl.fields.offset(0).bytes();
        match p {
            Pay::Is(x) => {
                let ti = it.lw.ti(fty);
                let x = match (&x, ti.kind) {
                    (V::Sc(s), TK::Agg) if ti.size == it.lw.ptr_bytes => V::Blob(Rc::new(vec![(0, ti.size as u8, *s)])),
                    _ => x,
                };
                it.write(&mut st, Ptr { a: A::Ext(0), off: cst(off as i128) }, ti, &x)?;
            }
            Pay::Obj(o) => fill(it, &mut st, off, fty, o, 0)?,
        }
    }
    let d = it.lw.disc(ty);
    it.write_disc(&mut st, Ptr { a: A::Ext(0), off: cst(0) }, &d, var)?;
    let ti = it.lw.ti(ty);
    it.read(&st, Ptr { a: A::Ext(0), off: cst(0) }, ti)
}
fn ptr_of(v: &V) -> Option<Ptr> {
    match v {
        V::Sc(Val::Ptr(p)) | V::Pair(Val::Ptr(p), _) => Some(*p),
        V::Blob(c) => c.iter().find_map(|x| match x.2 {
            Val::Ptr(p) => Some(p),
            _ => None,
        }),
        _ => None,
    }
}
fn thin(p: Ptr) -> V {
    V::Sc(Val::Ptr(p))
}
/// a value of the function's result type that is the given pointer
fn wrapped<'tcx>(it: &mut Interp<'tcx>, inst: usize, p: Ptr) -> R<V> {
    let t = ret_ty(it, inst);
    let ti = it.lw.ti(t);
    Ok(match ti.kind {
        TK::Agg if ti.size == it.lw.ptr_bytes => V::Blob(Rc::new(vec![(0, ti.size as u8, Val::Ptr(p))])),
        TK::Thin => thin(p),
        _ => return unsup("pointer-like result"),
    })
}

// ---------------------------------------------------------------- the runtime
fn h_zst<'tcx>(_: &mut Interp<'tcx>, _: &mut State, _: usize, _: &[V]) -> R<Hook> {
    Ok(Hook::Done(V::Zst))
}
/// the argument, as another kind of pointer
fn h_same<'tcx>(it: &mut Interp<'tcx>, _: &mut State, inst: usize, vs: &[V]) -> R<Hook> {
    match vs.iter().find_map(ptr_of) {
        Some(p) => Ok(Hook::Done(wrapped(it, inst, p)?)),
        None => unsup("object conversion"),
    }
}
/// the argument or an error of the runtime: here the argument
fn h_ok_same<'tcx>(it: &mut Interp<'tcx>, _: &mut State, inst: usize, vs: &[V]) -> R<Hook> {
    let t = ret_ty(it, inst);
    match vs.iter().find_map(ptr_of) {
        Some(p) => Ok(Hook::Done(variant(it, t, 0, Pay::Is(thin(p)))?)),
        None => unsup("object conversion"),
    }
}
fn h_new_bytes<'tcx>(_: &mut Interp<'tcx>, st: &mut State, _: usize, vs: &[V]) -> R<Hook> {
    let (V::Sc(Val::Sc(z)), V::Sc(Val::Sc(n))) = (&vs[0], &vs[1]) else { return unsup("bytes object made from a buffer") };
    if konst(*z) != Some(0) {
        return unsup("bytes object made from a buffer");
    }
    // the length is given as a signed number, a negative one is refused
    let n = wrap(*n, 64, false);
    st.ext.push(Rc::new(Alloc { size: n, cells: vec![], kind: AK::Event, name: "bytes".into() }));
    Ok(Hook::Done(thin(Ptr { a: A::Ext(st.ext.len() as u32 - 1), off: cst(0) })))
}
fn h_as_bytes<'tcx>(_: &mut Interp<'tcx>, st: &mut State, _: usize, vs: &[V]) -> R<Hook> {
    match vs.first().and_then(ptr_of) {
        Some(p) if p.a == A::Ext(ARG) => {
            let len = LOG.with(|l| l.borrow().len.unwrap());
            Ok(Hook::Done(V::Pair(Val::Ptr(Ptr { a: A::Ext(DATA), off: cst(0) }), Val::Sc(len))))
        }
        Some(Ptr { a: A::Ext(e), off }) if e >= EXTS => Ok(Hook::Done(V::Pair(Val::Ptr(Ptr { a: A::Ext(e), off: cst(0) }), Val::Sc(st.ext[e as usize].size)))),
        _ => unsup("bytes of an unknown object"),
    }
}
/// the object's bytes lie at an aligned address
fn h_align<'tcx>(it: &mut Interp<'tcx>, st: &mut State, inst: usize, vs: &[V]) -> R<Hook> {
    let (Some(p), V::Pair(_, Val::Sc(n))) = (ptr_of(&vs[0]), &vs[0]) else { return unsup("align_to") };
    let ga = it.lw.insts[inst].args;
    let mut tys = ga.types();
    let (a, b) = (tys.next(), tys.next());
    let (Some(a), Some(b)) = (a, b) else { return unsup("align_to") };
    let (sa, sb) = (it.lw.layout(a).size.bytes() as i128, it.lw.layout(b).size.bytes() as i128);
    if sa != 1 || konst(p.off) != Some(0) {
        return unsup("align_to");
    }
    let _ = st;
    let k = fdiv(*n, cst(sb));
    let rest = sub(*n, mulc(k, sb));
    let tail = Ptr { a: p.a, off: mulc(k, sb) };
    let t = ret_ty(it, inst);
    let l = it.lw.layout(t);
    let mut c = vec![];
    for (i, (q, n)) in [(p, cst(0)), (p, k), (tail, rest)].into_iter().enumerate() {
        let o = l.fields.offset(i).bytes() as u32;
        c.push((o, 8, Val::Ptr(q)));
        c.push((o + 8, 8, Val::Sc(n)));
    }
    c.sort_by_key(|x| x.0);
    Ok(Hook::Done(V::Blob(Rc::new(c))))
}
/// PyErr::new::<T, A>(args)
fn h_err<'tcx>(it: &mut Interp<'tcx>, st: &mut State, inst: usize, vs: &[V]) -> R<Hook> {
    let t = ret_ty(it, inst);
    let class = it.lw.insts[inst].args.types().map(|t| t.to_string()).find(|t| t.contains("Error"));
    let Some(class) = class else { return unsup("class of an exception") };
    let mut obj = OTHER_ERR;
    if class.rsplit("::").next() == Some("PyValueError") {
        obj = VALUE_ERR;
        if let Some(p) = vs.last().and_then(ptr_of) {
            let same = match p.a {
                A::Ext(TEXT) => konst(p.off) == Some(0),
                A::Ext(e) if st.ext[e as usize].kind == AK::Heap && konst(p.off) == Some(0) => {
                    let (a, b) = (&st.ext[e as usize].cells, &st.ext[TEXT as usize].cells);
                    a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x == y)
                }
                _ => false,
            };
            if same {
                obj = NATIVE_ERR;
            }
        }
    }
    Ok(Hook::Done(exemplar(it, t, obj)?))
}
fn h_native<'tcx>(it: &mut Interp<'tcx>, st: &mut State, inst: usize, vs: &[V]) -> R<Hook> {
    let did = it.lw.insts[inst].def_id();
    let tcx = it.lw.tcx;
    if did.is_local() {
        return Ok(Hook::No);
    }
    let (mut size, mut ext) = (None, 0);
    if let Some(Ptr { a: A::Ext(e), .. }) = vs.last().and_then(ptr_of) {
        size = Some(st.ext[e as usize].size);
        ext = e;
    }
    let name = tcx.item_name(did).to_string();
    let ok = LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.native.push(NCall { name, args: vs.to_vec(), pc: st.pc.clone(), size, ext });
        l.native_ok
    });
    let t = ret_ty(it, inst);
    Ok(Hook::Done(if ok {
        variant(it, t, 0, Pay::Is(V::Zst))?
    } else {
        variant(it, t, 1, Pay::Is(V::Pair(Val::Ptr(Ptr { a: A::Ext(TEXT), off: cst(0) }), Val::Sc(cst(TEXT_LEN as i128)))))?
    }))
}
fn str_at<'tcx>(it: &mut Interp<'tcx>, st: &State, p: Ptr) -> R<String> {
    let Val::Ptr(q) = it.load(st, p, 8)? else { return unsup("text") };
    let Val::Sc(n) = it.load(st, Ptr { a: p.a, off: add(p.off, cst(8)) }, 8)? else { return unsup("text") };
    let Some(n) = konst(n) else { return unsup("text") };
    let mut s = String::new();
    for i in 0..n.min(200) {
        match it.load(st, Ptr { a: q.a, off: add(q.off, cst(i)) }, 1)? {
            Val::Sc(b) => s.push(konst(b).unwrap_or(63) as u8 as char),
            _ => return unsup("text"),
        }
    }
    Ok(s)
}
fn field_off<'tcx>(it: &Interp<'tcx>, ty: Ty<'tcx>, name: &str) -> Option<(u64, Ty<'tcx>)> {
    let ty::Adt(def, args) = ty.kind() else { return None };
    let l = it.lw.layout(ty);
    let tcx = it.lw.tcx;
    let (i, f) = def.non_enum_variant().fields.iter().enumerate().find(|(_, f)| f.name.as_str() == name)?;
    let fty = tcx.normalize_erasing_regions(it.lw.env, ty::Unnormalized::new_wip(f.ty(tcx, args).skip_norm_wip()));
    Some((l.fields.offset(i).bytes(), fty))
}
/// the arguments of the call, in the order of the function's parameter list
fn h_extract_all<'tcx>(it: &mut Interp<'tcx>, st: &mut State, inst: usize, vs: &[V]) -> R<Hook> {
    let tcx = it.lw.tcx;
    let Some(desc) = ptr_of(&vs[0]) else { return unsup("function description") };
    let i = it.lw.insts[inst];
    let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(i.def_id()).instantiate(tcx, i.args).skip_norm_wip());
    let dty = tcx.normalize_erasing_regions(it.lw.env, ty::Unnormalized::new_wip(sig.inputs()[0])).builtin_deref(true).unwrap();
    let mut names = vec![];
    let Some((o, _)) = field_off(it, dty, "positional_parameter_names") else { return unsup("function description") };
    let at = |o: u64| Ptr { a: desc.a, off: add(desc.off, cst(o as i128)) };
    let (Val::Ptr(list), Val::Sc(n)) = (it.load(st, at(o), 8)?, it.load(st, at(o + 8), 8)?) else { return unsup("function description") };
    for j in 0..konst(n).unwrap_or(0) {
        let p = Ptr { a: list.a, off: add(list.off, cst(16 * j)) };
        names.push(str_at(it, st, p)?);
    }
    let Some((o, _)) = field_off(it, dty, "required_positional_parameters") else { return unsup("function description") };
    let Val::Sc(req) = it.load(st, at(o), 8)? else { return unsup("function description") };
    let Some(V::Pair(Val::Ptr(out), Val::Sc(k))) = vs.last().cloned() else { return unsup("argument slots") };
    let k = konst(k).unwrap_or(0);
    if k > 7 || k as usize != names.len() {
        return unsup("number of arguments");
    }
    for j in 0..k {
        it.store(st, Ptr { a: out.a, off: add(out.off, cst(8 * j)) }, 8, Val::Ptr(Ptr { a: A::Ext(ARG + j as u32), off: cst(0) }))?;
    }
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.names = names;
        l.required = konst(req).unwrap_or(-1);
    });
    let t = ret_ty(it, inst);
    Ok(Hook::Done(variant(it, t, 0, Pay::Is(V::Zst))?))
}
fn h_extract<'tcx>(it: &mut Interp<'tcx>, st: &mut State, inst: usize, vs: &[V]) -> R<Hook> {
    let Some(Ptr { a: A::Ext(e), .. }) = ptr_of(&vs[0]) else { return unsup("argument object") };
    let t = ret_ty(it, inst);
    let ty::Adt(_, args) = t.kind() else { return unsup("argument conversion") };
    let want = args.type_at(0);
    let i = (e.wrapping_sub(ARG)) as usize;
    let (args, len) = LOG.with(|l| {
        let l = l.borrow();
        (l.args.clone(), l.len.unwrap())
    });
    let v = match want.kind() {
        ty::Uint(u) if u.bit_width().unwrap_or(64) == 64 && i >= 1 && i < args.len() => sc(args[i]),
        ty::Ref(_, x, _) if matches!(x.kind(), ty::Slice(_)) && i == 0 => V::Pair(Val::Ptr(Ptr { a: A::Ext(DATA), off: cst(0) }), Val::Sc(len)),
        ty::Ref(..) if i == 0 => thin(Ptr { a: A::Ext(ARG), off: cst(0) }),
        _ => return unsup("argument conversion"),
    };
    let _ = st;
    Ok(Hook::Done(variant(it, t, 0, Pay::Is(v))?))
}
fn h_wrap_fn<'tcx>(it: &mut Interp<'tcx>, _: &mut State, inst: usize, vs: &[V]) -> R<Hook> {
    let Some(p) = ptr_of(&vs[0]) else { return unsup("function definition") };
    let t = ret_ty(it, inst);
    Ok(Hook::Done(variant(it, t, 0, Pay::Is(thin(p)))?))
}
fn h_add_fn<'tcx>(it: &mut Interp<'tcx>, _: &mut State, inst: usize, vs: &[V]) -> R<Hook> {
    let Some(p) = vs.last().and_then(ptr_of) else { return unsup("function definition") };
    LOG.with(|l| l.borrow_mut().defs.push(p));
    let t = ret_ty(it, inst);
    Ok(Hook::Done(variant(it, t, 0, Pay::Is(V::Zst))?))
}
fn h_tramp<'tcx>(it: &mut Interp<'tcx>, _: &mut State, inst: usize, vs: &[V]) -> R<Hook> {
    for v in vs {
        if let V::Sc(Val::Fn(i)) = v {
            LOG.with(|l| l.borrow_mut().entry = Some(*i));
        }
    }
    Ok(Hook::Done(thin(Ptr { a: A::Ext(DATA), off: cst(0) })))
}

fn pick<'tcx>(name: &str) -> Option<HookFn<'tcx>> {
    let last = name.rsplit("::").next().unwrap_or("");
    let f: HookFn<'tcx> = match last {
        _ if name.starts_with("texture2ddecoder::") && last.starts_with("decode_") => h_native as HookFn<'tcx>,
        "_wrap_pyfunction" | "wrap_pyfunction" => h_wrap_fn as HookFn<'tcx>,
        "add_function" => h_add_fn as HookFn<'tcx>,
        "fastcall_with_keywords" => h_tramp as HookFn<'tcx>,
        "extract_arguments_fastcall" => h_extract_all as HookFn<'tcx>,
        "extract_argument" => h_extract as HookFn<'tcx>,
        "unwrap_required_argument" | "PyBytes_AsString" | "into_ref" | "into_py" | "into_ptr" | "as_ptr" if name.contains("pyo3") || last.starts_with("Py") => h_same as HookFn<'tcx>,
        "from_owned_ptr_or_err" => h_ok_same as HookFn<'tcx>,
        "PyBytes_FromStringAndSize" => h_new_bytes as HookFn<'tcx>,
        "as_bytes" if name.contains("PyBytes") => h_as_bytes as HookFn<'tcx>,
        "align_to_mut" | "align_to" => h_align as HookFn<'tcx>,
        "new" if name.contains("PyErr") => h_err as HookFn<'tcx>,
        "register_decref" | "register_incref" => h_zst as HookFn<'tcx>,
        _ => return None,
    };
    Some(f)
}

/// (Python name, native name, parameters)
fn wanted() -> Vec<(String, Vec<&'static str>)> {
    let mut v: Vec<(String, Vec<&'static str>)> = vec![];
    let mut names: Vec<String> = vec![];
    for n in ["atc_rgb4", "atc_rgba8", "bc1", "bc1a", "bc2", "bc3", "bc4", "bc5", "bc6_signed", "bc6_unsigned", "bc7", "etc1", "etc2_rgb", "etc2_rgba1", "etc2_rgba8",
        "eacr", "eacr_signed", "eacrg", "eacrg_signed", "pvrtc_2bpp", "pvrtc_4bpp", "crunch", "unity_crunch"]
    {
        names.push(format!("decode_{n}"));
    }
    for (x, y) in crate::guard::ASTC_SIZES {
        names.push(format!("decode_astc_{x}_{y}"));
    }
    for n in names {
        v.push((n, vec!["data", "width", "height"]));
    }
    v.push(("decode_astc".into(), vec!["data", "width", "height", "block_width", "block_height"]));
    v
}

fn interp<'tcx>(tcx: TyCtxt<'tcx>) -> Interp<'tcx> {
    let mut it = Interp::new(tcx);
    it.trace = std::env::var("TRACE").is_ok();
    it.hook_by = Some(pick);
    it
}
fn why(it: &Interp) -> String {
    it.issues.iter().map(|i| format!("{} in {} at {}", i.what, i.func, i.line)).next().unwrap_or("no outcome".into())
}

/// the Python functions the module registers: name and entry point
fn registered<'tcx>(tcx: TyCtxt<'tcx>) -> Result<Vec<(String, Instance<'tcx>)>, String> {
    let mut init = None;
    for d in tcx.hir_body_owners() {
        if !matches!(tcx.def_kind(d), DefKind::Static { .. }) {
            continue;
        }
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        if !t.to_string().ends_with("ModuleDef") {
            continue;
        }
        let mut it = interp(tcx);
        let (o, _) = field_off(&it, t, "initializer").ok_or("module definition")?;
        let id = tcx.reserve_and_set_static_alloc(d.to_def_id());
        if let Ok(Val::Fn(i)) = it.load(&blank(), Ptr { a: A::Glob(id.0.get()), off: cst(o as i128) }, 8) {
            if init.is_some() {
                return Err("two Python modules".into());
            }
            init = Some(it.lw.insts[i]);
        }
    }
    let init = init.ok_or("no Python module found")?;
    let mut it = interp(tcx);
    let id = it.lw.inst_id(init);
    let mut st = blank();
    for i in 0..EXTS {
        st.ext.push(Rc::new(Alloc { size: cst(16), cells: vec![], kind: AK::Heap, name: "module".into() }));
    }
    LOG.with(|l| *l.borrow_mut() = Log::default());
    let ret = V::Zst;
    let nargs = it.lw.body(id).map_err(|e| e)?.nargs;
    let mut args = vec![V::Zst, thin(Ptr { a: A::Ext(DATA), off: cst(0) })];
    args.truncate(nargs);
    it.push_call(&mut st, id, args, None, 0, "entry".into()).map_err(|_| "entry of the module")?;
    let done = it.run(st);
    if done.len() != 1 || !it.issues.is_empty() {
        return Err(why(&it));
    }
    let _ = ret;
    for f in it.functions() {
        reached(&f);
    }
    let defs = LOG.with(|l| l.borrow().defs.clone());
    // PyMethodDef: name and trampoline
    let mut out = vec![];
    for p in defs {
        let mut mty = None;
        let A::Glob(_) = p.a else { return Err("function definition".into()) };
        for c in tcx.crates(()) {
            if tcx.crate_name(*c).as_str() == "pyo3" {
                mty = Some(*c);
            }
        }
        let pyo3 = mty.ok_or("no pyo3")?;
        let def = adt_named(tcx, pyo3, "PyMethodDef").ok_or("no PyMethodDef")?;
        let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
        let (o, _) = field_off(&it, t, "ml_name").ok_or("PyMethodDef")?;
        let b = blank();
        let at = |o: u64| Ptr { a: p.a, off: add(p.off, cst(o as i128)) };
        let name = str_at(&mut it, &b, at(o)).map_err(|_| "name of a function")?.trim_end_matches('\0').to_string();
        let (o, mt) = field_off(&it, t, "ml_meth").ok_or("PyMethodDef")?;
        let size = it.lw.layout(mt).size.bytes();
        let mut tramp = None;
        for k in (0..size).step_by(8) {
            if let Ok(Val::Fn(i)) = it.load(&b, at(o + k), 8) {
                tramp = Some(i);
            }
        }
        let tramp = tramp.ok_or("entry of a function")?;
        let ti = it.lw.insts[tramp];
        let mut it2 = interp(tcx);
        let id = it2.lw.inst_id(ti);
        let mut st = blank();
        st.ext.push(Rc::new(Alloc { size: cst(16), cells: vec![], kind: AK::Heap, name: "arguments".into() }));
        let a = thin(Ptr { a: A::Ext(0), off: cst(0) });
        LOG.with(|l| l.borrow_mut().entry = None);
        it2.push_call(&mut st, id, vec![a.clone(), a.clone(), sc(cst(3)), a], None, 0, "entry".into()).map_err(|_| "trampoline")?;
        it2.run(st);
        let e = LOG.with(|l| l.borrow().entry).ok_or(format!("entry of {name}: {}", why(&it2)))?;
        out.push((name, it2.lw.insts[e]));
    }
    Ok(out)
}
fn adt_named(tcx: TyCtxt<'_>, c: rustc_hir::def_id::CrateNum, name: &str) -> Option<rustc_hir::def_id::DefId> {
    let mut todo = vec![c.as_def_id()];
    let mut seen = std::collections::HashSet::new();
    while let Some(m) = todo.pop() {
        if !seen.insert(m) {
            continue;
        }
        for ch in tcx.module_children(m) {
            if let Some(d) = ch.res.opt_def_id() {
                if ch.ident.name.as_str() == name && tcx.def_kind(d) == DefKind::Struct {
                    return Some(d);
                }
                if tcx.def_kind(d) == DefKind::Mod && d.krate == c {
                    todo.push(d);
                }
            }
        }
    }
    None
}

fn one<'tcx>(tcx: TyCtxt<'tcx>, name: &str, params: &[&str], entry: Instance<'tcx>) {
    let key = |s: &str| format!("{name} {s}");
    for native_ok in [true, false] {
        let what = if native_ok { "on success" } else { "on an error" };
        reset();
        let umax = (1i128 << 64) - 1;
        let len = sym("len", 0, (1i128 << 56) - 1);
        let mut args = vec![cst(0)];
        for p in &params[1..] {
            args.push(sym(p, 0, umax));
        }
        let (w, h) = (args[1], args[2]);
        LOG.with(|l| *l.borrow_mut() = Log { native_ok, args: args.clone(), len: Some(len), ..Log::default() });
        let mut it = interp(tcx);
        let id = it.lw.inst_id(entry);
        let mut st = blank();
        for i in 0..EXTS {
            let mut a = Alloc { size: cst(16), cells: vec![], kind: AK::Heap, name: "object".into() };
            if i == DATA {
                a = Alloc { size: len, cells: vec![], kind: AK::Event, name: "data".into() };
            }
            if i == TEXT {
                a = Alloc { size: cst(TEXT_LEN as i128), cells: (0..TEXT_LEN).map(|i| (i, 1, Val::Sc(input(&format!("message{i}"), 8)))).collect(), kind: AK::Exact, name: "message".into() };
            }
            st.ext.push(Rc::new(a));
        }
        let obj = thin(Ptr { a: A::Ext(ARG), off: cst(0) });
        if it.push_call(&mut st, id, vec![V::Zst, obj.clone(), obj.clone(), sc(cst(params.len() as i128)), obj], None, 0, "entry".into()).is_err() {
            return ob("python", &key(what), St::Undecided, "entry");
        }
        let done = it.run(st);
        stat("abstract steps", it.steps);
        for f in it.functions() {
            reached(&f);
        }
        let none = (1i128, 1i128);
        let need = |a: i128, b: i128| (a.saturating_mul(b), a.saturating_mul(b));
        let lit = |c: N| search_sizes(c, w, h, len, len, &need, umax);
        let mut open = None;
        for i in &it.issues {
            if i.kind == IssueKind::Unsupported {
                open.get_or_insert(format!("{} in {} at {}", i.what, i.func, i.line));
                continue;
            }
            let c = conj(&i.cond);
            match lit(c) {
                Some((a, b, ..)) => return ob("python", &key(what), St::Violated, &format!("{name} panics for width={a} height={b}: {} in {} at {}", i.what, i.func, i.line)),
                None if impossible(c, w, h, none) => {}
                None => {
                    open.get_or_insert(format!("{} in {} at {} could not be excluded", i.what, i.func, i.line));
                }
            }
        }
        if let Some(m) = open {
            return ob("python", &key(what), St::Undecided, &m);
        }
        let log = LOG.with(|l| l.take());
        if log.names != params {
            return ob("python", &key(what), St::Violated, &format!("{name} takes ({}) instead of ({})", log.names.join(", "), params.join(", ")));
        }
        if log.required != params.len() as i128 {
            return ob("python", &key(what), St::Violated, &format!("{name} requires {} of its {} arguments", log.required, params.len()));
        }
        let too_big = lt(cst(umax), mulc(mul(w, h), 4));
        let diff = |a: N, b: N, pc: N| -> Result<(), Option<String>> {
            let c = and(pc, not(eq(a, b)));
            if a == b || impossible(c, w, h, none) {
                return Ok(());
            }
            match lit(c) {
                Some((x, y, ..)) => Err(Some(format!("width={x} height={y}"))),
                // values of other arguments
                None => {
                    let mut ev = Evaluator::new(&[c]);
                    let mut e = crate::equal::Eq::new();
                    Err(e.search(&[c], 4000, &|ev| ev.get(c) != 0).map(|w| crate::job::show_witness(&w)))
                }
            }
        };
        let mut called = cst(0);
        for n in &log.native {
            let pc = conj(&n.pc);
            let both = and(called, pc);
            if let Some((a, b, ..)) = lit(both) {
                return ob("python", &key(what), St::Violated, &format!("{name} decodes twice for width={a} height={b}"));
            }
            called = or(called, pc);
            if n.name != name {
                return ob("python", &key(what), St::Violated, &format!("{name} calls the native {}", n.name));
            }
            if n.args.len() != params.len() + 1 {
                return ob("python", &key(what), St::Undecided, "arguments of the native function");
            }
            let mut checks: Vec<(String, N, N)> = vec![];
            match &n.args[0] {
                V::Pair(Val::Ptr(Ptr { a: A::Ext(DATA), off }), Val::Sc(l)) => {
                    checks.push(("start of the data".into(), *off, cst(0)));
                    checks.push(("length of the data".into(), *l, len));
                }
                _ => return ob("python", &key(what), St::Undecided, "the data of the native call"),
            }
            for i in 1..params.len() {
                match &n.args[i] {
                    V::Sc(Val::Sc(x)) => checks.push((params[i].into(), *x, args[i])),
                    _ => return ob("python", &key(what), St::Undecided, "a number of the native call"),
                }
            }
            match (n.args.last(), n.size) {
                (Some(V::Pair(Val::Ptr(p), Val::Sc(l))), Some(size)) if n.ext >= EXTS => {
                    checks.push(("start of the image".into(), p.off, cst(0)));
                    checks.push(("length of the image".into(), *l, mul(w, h)));
                    checks.push(("size of the bytes object".into(), size, mulc(mul(w, h), 4)));
                }
                _ => return ob("python", &key(what), St::Undecided, "the image of the native call"),
            }
            for (t, a, b) in checks {
                if let Err(x) = diff(a, b, pc) {
                    return match x {
                        Some(x) => ob("python", &key(what), St::Violated, &format!("{name} hands the native decoder a wrong {t} for {x}")),
                        None => ob("python", &key(what), St::Undecided, &format!("{t} of the native call: {}", show(a))),
                    };
                }
            }
        }
        let c = xor(called, not(too_big));
        if !impossible(c, w, h, none) {
            return match lit(c) {
                Some((a, b, ..)) => ob("python", &key(what), St::Violated, &format!("{name} does not decode, or decodes where the size has no room, for width={a} height={b}")),
                None => ob("python", &key(what), St::Undecided, "when the native decoder is called"),
            };
        }
        // results
        let ret = entry_ret(&it, id);
        let disc = it.lw.disc(ret);
        let ti = it.lw.ti(ret);
        for (s, v) in &done {
            let pc = conj(&s.pc);
            if impossible(pc, w, h, none) {
                continue;
            }
            let mut tmp = scratch(ti.size);
            let at = Ptr { a: A::Ext(0), off: cst(0) };
            let d = match it.write(&mut tmp, at, ti, v).and_then(|_| it.read_disc(&tmp, at, &disc)) {
                Ok(d) => konst(d),
                Err(_) => None,
            };
            let obj = ptr_of(v).and_then(|p| if let A::Ext(e) = p.a { Some(e) } else { None });
            let big = impossible(and(pc, not(too_big)), w, h, none);
            let fits = impossible(and(pc, too_big), w, h, none);
            if !big && !fits {
                return ob("python", &key(what), St::Undecided, "results are not distinguished by size");
            }
            let good = if big {
                (d == Some(1)) && matches!(obj, Some(NATIVE_ERR) | Some(VALUE_ERR))
            } else if native_ok {
                d == Some(0) && obj.is_some() && log.native.iter().any(|n| Some(n.ext) == obj)
            } else {
                d == Some(1) && obj == Some(NATIVE_ERR)
            };
            if !good {
                if d.is_none() || obj.is_none() {
                    return ob("python", &key(what), St::Undecided, "cannot tell the result");
                }
                let got = match (d, obj.unwrap()) {
                    (Some(0), _) => "returns an object",
                    (_, NATIVE_ERR) => "raises ValueError with the native message",
                    (_, VALUE_ERR) => "raises ValueError with another message",
                    _ => "raises another exception",
                };
                let when = if big { "the size has no room" } else if native_ok { "the native decoder succeeds" } else { "the native decoder refuses" };
                return ob("python", &key(what), St::Violated, &format!("{name} {got} when {when}"));
            }
        }
        ob("python", &key(what), St::Ok, "");
    }
}
fn entry_ret<'tcx>(it: &Interp<'tcx>, id: usize) -> Ty<'tcx> {
    ret_ty(it, id)
}

pub fn python(tcx: TyCtxt<'_>) {
    let reg = match registered(tcx) {
        Ok(r) => r,
        Err(e) => return ob("python", "module", St::Undecided, &e),
    };
    let only = std::env::var("ONLY").unwrap_or_default();
    for (name, params) in wanted() {
        if !name.contains(&only) {
            continue;
        }
        let m: Vec<_> = reg.iter().filter(|r| r.0 == name).collect();
        if m.is_empty() {
            ob("python", &format!("{name} registered"), St::Violated, &format!("the module has no function {name}"));
            continue;
        }
        ob("python", &format!("{name} registered"), St::Ok, "");
        // the last registration counts
        one(tcx, &name, &params, m[m.len() - 1].1);
    }
}
