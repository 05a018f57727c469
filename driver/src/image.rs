//! Whole-image decoders: size checks, placement of blocks, bounds.
use crate::blocks::*;
use crate::equal::*;
use crate::interp::*;
use crate::job::*;
use crate::node::*;
use crate::report::*;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{Instance, TyCtxt};
use std::collections::HashMap;

pub struct Fmt {
    pub name: &'static str,
    pub block: &'static str,
    pub bw: usize,
    pub bh: usize,
    pub bytes: usize,
}
const fn f(name: &'static str, block: &'static str, bytes: usize) -> Fmt {
    Fmt { name, block, bw: 4, bh: 4, bytes }
}
pub const SIMPLE_FMT: &[Fmt] = &[
    f("decode_bc1", "decode_bc1_block", 8),
    f("decode_bc1a", "decode_bc1a_block", 8),
    f("decode_bc2", "decode_bc2_block", 16),
    f("decode_bc3", "decode_bc3_block", 16),
    f("decode_bc4", "decode_bc4_block", 8),
    f("decode_bc5", "decode_bc5_block", 16),
    f("decode_atc_rgb4", "decode_atc_rgb4_block", 8),
    f("decode_atc_rgba8", "decode_atc_rgba8_block", 16),
    f("decode_etc1", "decode_etc1_block", 8),
    f("decode_etc2_rgb", "decode_etc2_rgb_block", 8),
    f("decode_etc2_rgba1", "decode_etc2_rgba1_block", 8),
    f("decode_etc2_rgba8", "decode_etc2_rgba8_block", 16),
    f("decode_eacr", "decode_eacr_block", 8),
    f("decode_eacr_signed", "decode_eacr_signed_block", 8),
    f("decode_eacrg", "decode_eacrg_block", 16),
    f("decode_eacrg_signed", "decode_eacrg_signed_block", 16),
];

pub enum RetKind {
    Ok,
    Err,
    Other,
}
/// Result<(), &str> as the compiler lays it out: a null pointer is Ok
pub fn ret_kind(v: &V) -> RetKind {
    if let V::Blob(b) = v {
        if let Some(x) = b.iter().find(|c| c.0 == 0) {
            return ret_kind(&V::Pair(x.2, Val::Undef));
        }
        return RetKind::Other;
    }
    match v {
        V::Pair(Val::Ptr(_), _) => RetKind::Err,
        V::Pair(Val::Sc(n), _) if konst(*n) == Some(0) => RetKind::Ok,
        V::Pair(Val::Sc(n), _) if iv(*n).0 > 0 => RetKind::Err,
        _ => RetKind::Other,
    }
}

pub struct ImgRun {
    pub data: Vec<N>,
    pub old: Vec<N>,
    pub len: N,
    pub ilen: N,
    pub oks: Vec<State>,
    pub errs: Vec<State>,
    pub other: usize,
    pub issues: Vec<Issue>,
}

pub struct ImgReq<'a> {
    pub name: &'a str,
    pub nbytes: usize,
    pub texels: usize,
    pub w: N,
    pub h: N,
    pub mid: Vec<N>,
    pub post: Vec<N>,
}

pub fn run_image<'tcx>(it: &mut Interp<'tcx>, d: DefId, rq: &ImgReq) -> ImgRun {
    let inst = Instance::mono(it.lw.tcx, d);
    let id = it.lw.inst_id(inst);
    it.issues.clear();
    let pb = it.lw.ptr_bytes as u32 * 8;
    let maxlen = (1i128 << (pb - 1)) - 1;
    let len = sym("data.len()", 0, maxlen);
    let ilen = sym("image.len()", 0, maxlen / 4);
    let data = data_bytes(rq.nbytes as u32, &[]);
    let mut cells: Vec<_> = data.iter().enumerate().map(|(i, x)| (i as u32, 1u8, Val::Sc(*x))).collect();
    for i in rq.nbytes..rq.nbytes + 32 {
        cells.push((i as u32, 1u8, Val::Sc(input(&format!("next[{}]", i - rq.nbytes), 8))));
    }
    let da = Alloc { size: len, cells, kind: AK::Exact, name: "data".into() };
    let old: Vec<N> = (0..rq.texels + 16).map(|i| input(&format!("image[{i}]"), 32)).collect();
    let cells = old.iter().enumerate().map(|(i, x)| (i as u32 * 4, 4u8, Val::Sc(*x))).collect();
    let oa = Alloc { size: mulc(ilen, 4), cells, kind: AK::Exact, name: "image".into() };
    let mut st = State { frames: vec![], ext: vec![da.into(), oa.into()], pc: vec![], refine: Default::default(), events: Default::default(), tag: 0 };
    let mut args = vec![V::Pair(Val::Ptr(Ptr { a: A::Ext(0), off: cst(0) }), Val::Sc(len))];
    args.push(sc(rq.w));
    args.push(sc(rq.h));
    for x in &rq.mid {
        args.push(sc(*x));
    }
    args.push(V::Pair(Val::Ptr(Ptr { a: A::Ext(1), off: cst(0) }), Val::Sc(ilen)));
    for x in &rq.post {
        args.push(sc(*x));
    }
    let mut r = ImgRun { data, old, len, ilen, oks: vec![], errs: vec![], other: 0, issues: vec![] };
    if it.push_call(&mut st, id, args, None, 0, "entry".into()).is_err() {
        r.issues.push(Issue { kind: IssueKind::Unsupported, what: "entry signature".into(), func: rq.name.into(), line: "".into(), chain: vec![], cond: vec![] });
        return r;
    }
    let done = it.run(st);
    for (s, v) in done {
        match ret_kind(&v) {
            RetKind::Ok => r.oks.push(s),
            RetKind::Err => r.errs.push(s),
            RetKind::Other => r.other += 1,
        }
    }
    r.issues = it.issues.iter().cloned().collect();
    r
}

pub fn conj(pc: &[(N, bool)]) -> N {
    pc.iter().fold(cst(1), |a, c| and(a, if c.1 { c.0 } else { not(c.0) }))
}

fn texel(it: &mut Interp, s: &State, i: usize) -> Option<N> {
    match it.load(s, Ptr { a: A::Ext(1), off: cst(i as i128 * 4) }, 4) {
        Ok(Val::Sc(n)) => Some(wrap(n, 32, false)),
        _ => None,
    }
}

/// the summary of one block decoder over data[0..] and a buffer of opaque black
pub fn block_summary(tcx: TyCtxt<'_>, f: &Fmt) -> Option<(Vec<N>, Vec<N>, Vec<N>)> {
    let mut it = Interp::new(tcx);
    let d = locate(tcx, f.block)?;
    let r = run_block(&mut it, d, &BlockReq { name: f.block, nbytes: f.bytes as u32, texels: (f.bw * f.bh) as u32, slack: false, mid: vec![], post: vec![], fixed: vec![] });
    if !r.issues.is_empty() {
        return None;
    }
    Some((r.inp.data, r.inp.old, r.out?))
}

pub fn placed(sum: &(Vec<N>, Vec<N>, Vec<N>), data: &[N], blk: usize, bytes: usize, t: usize) -> N {
    let mut m: HashMap<N, N> = HashMap::new();
    for (i, x) in sum.0.iter().enumerate() {
        m.insert(*x, data[blk * bytes + i]);
    }
    for x in &sum.1 {
        m.insert(*x, cst(0xFF000000));
    }
    subst(sum.2[t], &m, &mut HashMap::new())
}

/// one format at one concrete size, all contents and buffer lengths
pub fn one_size(tcx: TyCtxt<'_>, f: &Fmt, w: usize, h: usize, what: &str) {
    reset();
    let nx = w.div_ceil(f.bw);
    let ny = h.div_ceil(f.bh);
    let need = nx * ny * f.bytes;
    let tag = format!("{} {}x{}", f.name, w, h);
    let d = match locate(tcx, f.name) {
        Some(d) => d,
        None => return ob(what, &tag, St::Undecided, "no such function"),
    };
    let sum = if what == "placement" {
        match block_summary(tcx, f) {
            Some(s) => Some(s),
            None => return ob(what, &tag, St::Undecided, "no summary of the block decoder"),
        }
    } else {
        None
    };
    let mut it = Interp::new(tcx);
    let r = run_image(&mut it, d, &ImgReq { name: f.name, nbytes: need, texels: w * h, w: cst(w as i128), h: cst(h as i128), mid: vec![], post: vec![] });
    stats_of(&it);
    let mut e = Eq::new();
    if what == "bounds" {
        report_issues(what, &tag, &mut e, &r.issues);
        return;
    }
    let uns = r.issues.iter().find(|i| i.kind == IssueKind::Unsupported);
    if let Some(i) = uns {
        return ob(what, &tag, St::Undecided, &format!("{} in {} at {}", i.what, i.func, i.line));
    }
    if r.other > 0 {
        return ob(what, &tag, St::Undecided, "cannot tell Ok from Err");
    }
    if what == "guard" {
        let err = r.errs.iter().fold(cst(0), |a, s| or(a, conj(&s.pc)));
        let want = or(lt(r.len, cst(need as i128)), lt(r.ilen, cst((w * h) as i128)));
        match e.equal(err, want) {
            Verdict::Equal => ob(what, &tag, St::Ok, ""),
            Verdict::Differ(wi, a, _) => ob(what, &tag, St::Violated, &format!("{} is {} for {} although it needs {} bytes and {} texels", tag, if a != 0 { "refused" } else { "accepted" }, show_witness(&wi), need, w * h)),
            Verdict::Unknown => ob(what, &tag, St::Undecided, ""),
        }
        let mut touched = None;
        for s in &r.errs {
            for c in s.ext[1].cells.iter() {
                let i = c.0 as usize / 4;
                if c.1 != 4 || i >= r.old.len() || c.2 != Val::Sc(r.old[i]) {
                    touched = Some((i, s.pc.clone()));
                }
            }
        }
        match touched {
            None => ob(what, &format!("{tag}: image untouched on error"), St::Ok, ""),
            Some((i, pc)) => {
                let roots: Vec<N> = pc.iter().map(|c| c.0).collect();
                let w = e.search(&roots, 20000, &|ev| pc.iter().all(|c| (ev.get(c.0) != 0) == c.1));
                match w {
                    Some(w) => ob(what, &format!("{tag}: image untouched on error"), St::Violated, &format!("texel {i} is written although an error is returned, for {}", show_witness(&w))),
                    None => ob(what, &format!("{tag}: image untouched on error"), St::Undecided, ""),
                }
            }
        }
        return;
    }
    // placement
    let sum = sum.unwrap();
    let ok = it.join_all_pub(r.oks.clone());
    if ok.len() != 1 {
        return ob(what, &tag, St::Undecided, &format!("{} summaries of the successful return", ok.len()));
    }
    let s = &ok[0];
    let mut st = St::Ok;
    let mut why = String::new();
    for i in 0..w * h + 16 {
        let got = match texel(&mut it, s, i) {
            Some(x) => x,
            None => {
                st = St::Undecided;
                why = format!("texel {i} has no single value");
                break;
            }
        };
        let want = if i < w * h {
            let (x, y) = (i % w, i / w);
            placed(&sum, &r.data, (y / f.bh) * nx + x / f.bw, f.bytes, (y % f.bh) * f.bw + x % f.bw)
        } else {
            r.old[i]
        };
        if got == want {
            continue;
        }
        match e.equal(got, want) {
            Verdict::Equal => {}
            Verdict::Differ(wi, a, b) => {
                st = St::Violated;
                why = if i < w * h {
                    format!("pixel ({},{}) of a {w}x{h} image is {a:#010x}; block {} texel {} decodes to {b:#010x}", i % w, i / w, (i / w / f.bh) * nx + i % w / f.bw, (i / w % f.bh) * f.bw + i % w % f.bw)
                } else {
                    format!("element {i} past the {w}x{h} image is changed")
                };
                why += &format!(" for {}", show_witness(&wi));
                break;
            }
            Verdict::Unknown => {
                st = St::Undecided;
                why = format!("texel {i} neither proved nor refuted");
            }
        }
    }
    for c in s.ext[1].cells.iter() {
        if c.0 as usize / 4 >= w * h + 16 {
            st = St::Violated;
            why = format!("element {} past the {w}x{h} image is written", c.0 / 4);
        }
    }
    ob(what, &tag, st, &why);
}

pub fn sizes(thorough: bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let e: &[usize] = if thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13] } else { &[0, 1, 3, 4, 5, 8, 9] };
    for w in e {
        for h in e {
            v.push((*w, *h));
        }
    }
    v.push((1, 33));
    v.push((33, 1));
    v.push((2, 66));
    v.push((66, 2));
    v
}

pub fn simple_images(tcx: TyCtxt<'_>, what: &str) {
    let th = std::env::var("TIER").map(|x| x == "thorough").unwrap_or(false);
    let sz = sizes(th);
    let only = std::env::var("ONLY").unwrap_or_default();
    let fm: Vec<&Fmt> = SIMPLE_FMT.iter().filter(|f| only.is_empty() || f.name == only).collect();
    let mut tasks: Vec<(usize, usize, usize)> = vec![];
    for i in 0..fm.len() {
        for (w, h) in &sz {
            tasks.push((i, *w, *h));
        }
    }
    tasks.sort_by_key(|t| std::cmp::Reverse(t.1 * t.2));
    let lost = par(tasks.len(), 8, 400, &|j| {
        let (i, w, h) = tasks[j];
        one_size(tcx, fm[i], w, h, what);
    });
    for j in lost {
        let (i, w, h) = tasks[j];
        ob(what, &format!("{} {}x{}", fm[i].name, w, h), St::Undecided, "analysis ran out of time");
    }
}
