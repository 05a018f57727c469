//! Placement and bounds of the image decoders with every block decoder kept
//! opaque: the decoded block is a set of fresh values that depend on nothing but
//! the block's position in the data.  What the block decoders do is decided
//! elsewhere; here only which block and which texel end up where.
use crate::equal::*;
use crate::image::*;
use crate::interp::*;
use crate::job::*;
use crate::node::*;
use crate::report::*;
use rustc_middle::ty::{Instance, TyCtxt};
use std::cell::RefCell;

#[derive(Clone)]
pub struct WReq {
    pub name: String,
    pub key: String,
    /// the block decoder, and the scalars it has to be given
    pub block: String,
    pub params: Vec<i128>,
    pub bw: usize,
    pub bh: usize,
    pub bytes: usize,
    /// scalars of the image decoder
    pub mid: Vec<i128>,
    pub post: Vec<i128>,
    /// bits a block defines, bits that keep their old value; the rest is opaque alpha
    pub defined: i128,
    pub kept: i128,
}

#[derive(Default)]
struct Opq {
    block: String,
    texels: usize,
    bytes: usize,
    params: Vec<i128>,
    defined: i128,
    kept: i128,
    calls: u64,
}
thread_local! {
    static OPQ: RefCell<Opq> = RefCell::new(Opq::default());
}

fn mix(name: String, old: N, defined: i128, kept: i128) -> N {
    let x = input(&name, 32);
    let v: Vec<BR> = (0..32u32)
        .map(|i| if defined >> i & 1 == 1 { BR::Bit(x, i as u8) } else if kept >> i & 1 == 1 { bit(old, i) } else { BR::One })
        .collect();
    mk_bits(v)
}

fn opaque_block<'tcx>(it: &mut Interp<'tcx>, st: &mut State, _inst: usize, vs: &[V]) -> Result<Hook, Stop> {
    let (texels, bytes, want, defined, kept) = OPQ.with(|o| {
        let mut o = o.borrow_mut();
        o.calls += 1;
        (o.texels, o.bytes, o.params.clone(), o.defined, o.kept)
    });
    let mut data = None;
    let mut outp = None;
    let mut par = vec![];
    for v in vs {
        match v {
            V::Pair(Val::Ptr(p), Val::Sc(n)) => {
                if p.a == A::Ext(0) && data.is_none() {
                    data = Some((*p, *n));
                } else {
                    outp = Some((*p, *n));
                }
            }
            V::Sc(Val::Sc(n)) => par.push(konst(*n).unwrap_or(-1)),
            _ => return Err(Stop::Unsup("argument of the block decoder".into())),
        }
    }
    let ((dp, dl), (op, ol)) = match (data, outp) {
        (Some(a), Some(b)) => (a, b),
        _ => return Err(Stop::Unsup("arguments of the block decoder".into())),
    };
    let off = match konst(dp.off) {
        Some(o) => o,
        None => return Err(Stop::Unsup("block at an unknown position".into())),
    };
    for (l, need, what) in [(dl, bytes, "bytes"), (ol, texels, "texels")] {
        let c = le(cst(need as i128), l);
        if it.decide(st, c) != Some(true) {
            st.pc.push((c, false));
            it.memory_issue(st, format!("the block decoder is given fewer than {need} {what}"));
            st.pc.pop();
            if it.decide(st, c) == Some(false) {
                return Err(Stop::Dead);
            }
        }
    }
    let tag = if par == want { String::new() } else { format!(" with {par:?}") };
    for t in 0..texels {
        let p = Ptr { a: op.a, off: add(op.off, cst(4 * t as i128)) };
        let old = match it.load(st, p, 4)? {
            Val::Sc(n) => n,
            _ => cst(0),
        };
        let v = mix(format!("block@{off}[{t}]{tag}"), old, defined, kept);
        it.store(st, p, 4, Val::Sc(v))?;
    }
    Ok(Hook::Done(V::Blob(Default::default())))
}

fn pick<'tcx>(name: &str) -> Option<HookFn<'tcx>> {
    OPQ.with(|o| {
        let o = o.borrow();
        if name == o.block || name.ends_with(&format!("::{}", o.block)) {
            Some(opaque_block as HookFn<'tcx>)
        } else {
            None
        }
    })
}

pub fn requests() -> Vec<WReq> {
    let mut v = vec![];
    for f in SIMPLE_FMT {
        let (defined, kept) = match f.name {
            "decode_bc1" | "decode_etc1" | "decode_etc2_rgb" | "decode_atc_rgb4" => (0x00FFFFFF, 0),
            "decode_bc4" | "decode_eacr" | "decode_eacr_signed" => (0x00FF0000, 0xFF00FFFF),
            "decode_bc5" | "decode_eacrg" | "decode_eacrg_signed" => (0x00FFFF00, 0xFF0000FF),
            _ => (0xFFFFFFFF, 0),
        };
        v.push(WReq { name: f.name.into(), key: f.name.into(), block: f.block.into(), params: vec![], bw: f.bw, bh: f.bh, bytes: f.bytes, mid: vec![], post: vec![], defined, kept });
    }
    let w = |name: &str, key: &str, block: &str, params: Vec<i128>, bw: usize, bh: usize| WReq {
        name: name.into(),
        key: key.into(),
        block: block.into(),
        params,
        bw,
        bh,
        bytes: 16,
        mid: vec![],
        post: vec![],
        defined: 0xFFFFFFFF,
        kept: 0,
    };
    v.push(w("decode_bc7", "decode_bc7", "decode_bc7_block", vec![], 4, 4));
    for (s, n) in [(0, "unsigned"), (1, "signed")] {
        // reserved modes leave no opaque alpha
        v.push(w(&format!("decode_bc6_{n}"), &format!("decode_bc6_{n}"), "decode_bc6_block", vec![s], 4, 4));
        let mut r = w("decode_bc6", &format!("decode_bc6 {n}"), "decode_bc6_block", vec![s], 4, 4);
        r.post = vec![s];
        v.push(r);
    }
    for (x, y) in crate::guard::ASTC_SIZES {
        v.push(w(&format!("decode_astc_{x}_{y}"), &format!("decode_astc_{x}_{y}"), "decode_astc_block", vec![*x, *y], *x as usize, *y as usize));
    }
    for x in 4..=12 {
        for y in 4..=12 {
            let mut r = w("decode_astc", &format!("decode_astc {x}x{y}"), "decode_astc_block", vec![x, y], x as usize, y as usize);
            r.mid = vec![x, y];
            v.push(r);
        }
    }
    v
}

fn one(tcx: TyCtxt<'_>, q: &WReq, w: usize, h: usize) {
    reset();
    let nx = w.div_ceil(q.bw);
    let ny = h.div_ceil(q.bh);
    let tag = format!("{} {}x{} with opaque blocks", q.key, w, h);
    let d = match locate(tcx, &q.name) {
        Some(d) => d,
        None => return ob("placement", &tag, St::Undecided, "no such function"),
    };
    OPQ.with(|o| {
        *o.borrow_mut() = Opq { block: q.block.clone(), texels: q.bw * q.bh, bytes: q.bytes, params: q.params.clone(), defined: q.defined, kept: q.kept, calls: 0 };
    });
    let mut it = Interp::new(tcx);
    it.hook_by = Some(pick);
    it.max_iter = 1_000_000;
    it.max_steps = 1_000_000_000;
    let inst = Instance::mono(tcx, d);
    let id = it.lw.inst_id(inst);
    let pb = it.lw.ptr_bytes as u32 * 8;
    let maxlen = (1i128 << (pb - 1)) - 1;
    let len = sym("data.len()", 0, maxlen);
    let ilen = sym("image.len()", 0, maxlen / 4);
    let da = Alloc { size: len, cells: vec![], kind: AK::Event, name: "data".into() };
    let old: Vec<N> = (0..w * h + 16).map(|i| input(&format!("image[{i}]"), 32)).collect();
    let cells = old.iter().enumerate().map(|(i, x)| (i as u32 * 4, 4u8, Val::Sc(*x))).collect();
    let oa = Alloc { size: mulc(ilen, 4), cells, kind: AK::Exact, name: "image".into() };
    let mut st = State { frames: vec![], ext: vec![da.into(), oa.into()], pc: vec![], refine: Default::default(), events: Default::default(), tag: 0 };
    let mut args = vec![V::Pair(Val::Ptr(Ptr { a: A::Ext(0), off: cst(0) }), Val::Sc(len)), sc(cst(w as i128)), sc(cst(h as i128))];
    for x in &q.mid {
        args.push(sc(cst(*x)));
    }
    args.push(V::Pair(Val::Ptr(Ptr { a: A::Ext(1), off: cst(0) }), Val::Sc(ilen)));
    for x in &q.post {
        args.push(sc(cst(*x)));
    }
    if it.push_call(&mut st, id, args, None, 0, "entry".into()).is_err() {
        return ob("placement", &tag, St::Undecided, "entry signature");
    }
    let done = it.run(st);
    let calls = OPQ.with(|o| o.borrow().calls);
    stat("abstract steps", it.steps);
    stat("block decoder calls", calls);
    for f in it.functions() {
        reached(&f);
    }
    let mut e = Eq::new();
    let und = |why: &str| {
        ob("placement", &tag, St::Undecided, why);
        ob("bounds", &tag, St::Undecided, why);
    };
    if it.event_reads > 0 || (calls == 0 && w * h > 0) {
        return und("the block decoder is not called as a whole");
    }
    if let Some(i) = it.issues.iter().find(|i| i.kind == IssueKind::Unsupported) {
        return und(&format!("{} in {} at {}", i.what, i.func, i.line));
    }
    let issues: Vec<Issue> = it.issues.iter().cloned().collect();
    crate::blocks::report_issues("bounds", &tag, &mut e, &issues);
    let mut oks = vec![];
    for (s, v) in done {
        match ret_kind(&v) {
            RetKind::Ok => oks.push(s),
            RetKind::Err => {}
            RetKind::Other => return ob("placement", &tag, St::Undecided, "cannot tell Ok from Err"),
        }
    }
    let ok = it.join_all_pub(oks);
    if ok.len() != 1 {
        return ob("placement", &tag, St::Undecided, &format!("{} summaries of the successful return", ok.len()));
    }
    let s = &ok[0];
    let mut st = St::Ok;
    let mut why = String::new();
    for i in 0..w * h + 16 {
        let got = match it.load(s, Ptr { a: A::Ext(1), off: cst(i as i128 * 4) }, 4) {
            Ok(Val::Sc(n)) => wrap(n, 32, false),
            _ => {
                st = St::Undecided;
                why = format!("texel {i} has no single value");
                break;
            }
        };
        let (x, y) = if w > 0 { (i % w, i / w) } else { (0, 0) };
        let (blk, t) = if w > 0 { ((y / q.bh) * nx + x / q.bw, (y % q.bh) * q.bw + x % q.bw) } else { (0, 0) };
        let want = if i < w * h { mix(format!("block@{}[{t}]", blk * q.bytes), cst(0xFF000000), q.defined, q.kept) } else { old[i] };
        if got == want {
            continue;
        }
        match e.equal(got, want) {
            Verdict::Equal => {}
            Verdict::Differ(..) => {
                st = St::Violated;
                why = if i < w * h {
                    format!("pixel ({x},{y}) of a {w}x{h} image is {}; it belongs to block {blk} (at byte {}), texel {t}", show(got), blk * q.bytes)
                } else {
                    format!("element {i} past the {w}x{h} image is changed to {}", show(got))
                };
                break;
            }
            Verdict::Unknown => {
                st = St::Undecided;
                why = format!("texel {i} neither proved nor refuted");
            }
        }
    }
    for c in s.ext[1].cells.iter() {
        if c.0 as usize / 4 >= w * h + 16 {
            st = St::Violated;
            why = format!("element {} past the {w}x{h} image is written", c.0 / 4);
        }
    }
    let _ = ny;
    ob("placement", &tag, st, &why);
}

pub fn wide(tcx: TyCtxt<'_>) {
    let th = std::env::var("TIER").map(|x| x == "thorough").unwrap_or(false);
    let only = std::env::var("ONLY").unwrap_or_default();
    let mut tasks: Vec<(WReq, usize, usize)> = vec![];
    for q in requests().into_iter().filter(|q| q.key.contains(&only)) {
        let (a, b) = (q.bw, q.bh);
        let generic = q.name == "decode_astc";
        let mut sz = vec![];
        let mut ws = vec![1, a - 1, a, a + 1, 2 * a + 1];
        let mut hs = vec![1, b - 1, b, b + 1, 2 * b + 1];
        if th {
            ws = (0..=2 * a + 2).chain([3 * a, 3 * a + 1, 5 * a - 1]).collect();
            hs = (0..=2 * b + 2).chain([3 * b, 3 * b + 1, 5 * b - 1]).collect();
        }
        if generic && !th {
            sz.push((2 * a + 1, b + 2));
            sz.push((a + 2, 2 * b + 1));
        } else {
            for w in &ws {
                for h in &hs {
                    sz.push((*w, *h));
                }
            }
            for (w, h) in [(257, 1), (1, 257), (259, 5), (6, 260), (1030, 2), (2, 1030)] {
                sz.push((w, h));
            }
        }
        for (w, h) in sz {
            tasks.push((q.clone(), w, h));
        }
        // more blocks than 16 bits can count
        if th || matches!(q.name.as_str(), "decode_bc1" | "decode_bc3" | "decode_astc_4_4" | "decode_astc_8_8" | "decode_bc7") {
            let n = if matches!(q.name.as_str(), "decode_bc1" | "decode_astc_4_4") { 65536 * a.max(b) + 3 } else { 65539 };
            tasks.push((q.clone(), n, 1));
            tasks.push((q.clone(), 1, n));
        }
    }
    tasks.sort_by_key(|t| std::cmp::Reverse(t.1 * t.2));
    let lost = par(tasks.len(), 8, 700, &|j| {
        let (q, w, h) = &tasks[j];
        one(tcx, q, *w, *h);
    });
    for j in lost {
        let (q, w, h) = &tasks[j];
        ob("placement", &format!("{} {}x{} with opaque blocks", q.key, w, h), St::Undecided, "analysis ran out of time");
    }
}
