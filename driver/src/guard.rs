//! The size checks of the image decoders, for every size at once.
use crate::equal::*;
use crate::interp::*;
use crate::job::*;
use crate::linear::*;
use crate::lower::*;
use crate::node::*;
use crate::report::*;
use crate::image::{conj, ret_kind, RetKind};
use rustc_middle::ty::{Instance, TyCtxt};
use std::collections::{HashMap, HashSet};

pub struct GReq {
    pub name: String,
    pub key: String,
    pub mid: Vec<i128>,
    pub post: Vec<i128>,
    /// (w, h, len, ilen) -> the condition under which decoding must be refused
    pub refuse: Box<dyn Fn(N, N, N, N) -> N>,
    /// block size, for a distinction by remainder
    pub block: (i128, i128),
    /// thresholds (bytes, texels) for concrete sizes, for the search of a witness
    pub need: Box<dyn Fn(i128, i128) -> (i128, i128)>,
}

/// can an error still be returned from this state?  Looks at every frame that
/// produces the result of the entry function.
fn may_fail_later(st: &State) -> bool {
    let rt = st.frames[0].body.locals[0];
    for (i, f) in st.frames.iter().enumerate() {
        if i > 0 {
            // only a frame whose result is returned by its caller as it is
            let c = &st.frames[i - 1];
            match c.body.blocks.get(c.bb).map(|b| &b.term) {
                Some(Term::Call { dest, .. }) if dest.local == 0 => {}
                Some(Term::Call { .. }) => break,
                _ if f.body.locals[0].size != rt.size => break,
                _ => {}
            }
        }
        let start: Vec<usize> = if i + 1 < st.frames.len() { vec![st.frames[i + 1].target] } else { vec![f.bb] };
        let mut seen = HashSet::new();
        let mut todo = start;
        while let Some(b) = todo.pop() {
            if b >= f.body.blocks.len() || !seen.insert(b) {
                continue;
            }
            let blk = &f.body.blocks[b];
            for s in &blk.stmts {
                match s {
                    Stmt::Assign(p, rv) if p.local == 0 => match rv {
                        Rv::Agg(_, Some((_, 0))) => {}
                        Rv::Use(Opd::Int(0, _)) => {}
                        _ => return true,
                    },
                    Stmt::SetDisc(p, _, v) if p.local == 0 && *v != 0 => return true,
                    _ => {}
                }
            }
            if let Term::Call { dest, .. } = &blk.term {
                if dest.local == 0 && f.body.locals[0].size == rt.size && rt.size > 0 {
                    // a callee that returns the result: its own frame is inspected when active
                    let active = i + 1 < st.frames.len() && b == f.bb;
                    if !active {
                        return true;
                    }
                }
            }
            todo.extend(succs(&blk.term));
        }
    }
    false
}

fn specials(max: i128) -> Vec<i128> {
    let mut v: Vec<i128> = (0..=14).collect();
    v.extend([15, 16, 17, 20, 31, 32, 33, 40, 47, 48, 63, 64, 65, 100, 144]);
    for b in [8u32, 15, 16, 24, 30, 31, 32, 33, 40, 48, 52, 58, 59, 60, 61, 62, 63] {
        for d in -4..=4i128 {
            v.push((1i128 << b) + d);
        }
    }
    for d in 0..18 {
        v.push(max - d);
    }
    v.retain(|x| *x >= 0 && *x <= max);
    v.sort();
    v.dedup();
    v
}

pub fn search_sizes(f: N, w: N, h: N, len: N, ilen: N, need: &dyn Fn(i128, i128) -> (i128, i128), umax: i128) -> Option<(i128, i128, i128, i128)> {
    let mut ev = Evaluator::new(&[f]);
    let s = specials(umax);
    let clip = |x: i128, n: N| x.clamp(0, iv(n).1);
    let mut order: Vec<(i128, i128)> = vec![];
    for a in &s {
        for b in &s {
            order.push((*a, *b));
        }
    }
    order.sort_by_key(|x| (x.0.max(x.1), x.0 + x.1));
    let two = umax + 1;
    let mut leaf: HashMap<N, i128> = HashMap::new();
    for (a, b) in order {
        if a.checked_mul(b).map(|x| x > INF / 256).unwrap_or(true) {
            continue;
        }
        let (nb, nt) = need(a, b);
        let mut ls = vec![clip(0, len), clip(nb - 1, len), clip(nb, len), clip(nb + 1, len), iv(len).1, clip(nb % two, len), clip(nb % two - 1, len)];
        let mut is = vec![clip(0, ilen), clip(nt - 1, ilen), clip(nt, ilen), clip(nt + 1, ilen), iv(ilen).1, clip(nt % two, ilen), clip(nt % two - 1, ilen)];
        ls.sort();
        ls.dedup();
        is.sort();
        is.dedup();
        for l in &ls {
            for i in &is {
                leaf.clear();
                leaf.insert(w, a);
                leaf.insert(h, b);
                leaf.insert(len, *l);
                leaf.insert(ilen, *i);
                ev.run(&leaf);
                if ev.get(f) != 0 {
                    return Some((a, b, *l, *i));
                }
            }
        }
    }
    None
}

/// the condition holds for no size
pub fn impossible(c: N, w: N, h: N, block: (i128, i128)) -> bool {
    let opaque = topo(&[c]).into_iter().any(|n| matches!(k(n), K::Op(..)));
    if !opaque {
        let mut p = Lin { budget: 4000, cases: 0, trail: vec![] };
        let r = p.never(norm_cut(norm_div(c)), &[]);
        stat("cases of the size checks", p.cases);
        if r {
            return true;
        }
    }
    // width = bw * columns - r, by remainder
    let top = |n: N, b: i128| (iv(n).1 + b - 1) / b;
    for r in 0..block.0 {
        for s in 0..block.1 {
            let x = sym(if r > 0 { "columns, at least one" } else { "columns" }, (r > 0) as i128, top(w, block.0));
            let y = sym(if s > 0 { "rows, at least one" } else { "rows" }, (s > 0) as i128, top(h, block.1));
            let m = HashMap::from([(w, sub(mulc(x, block.0), cst(r))), (h, sub(mulc(y, block.1), cst(s)))]);
            let d = subst(c, &m, &mut HashMap::new());
            let mut rows = vec![];
            for (a, n) in [(w, m[&w]), (h, m[&h])] {
                // the size itself fits its type
                let (t, k) = row_of(n).unwrap();
                rows.push((t, k - iv(a).1));
            }
            let d = norm_cut(norm_div(d));
            if std::env::var("EQDBG").is_ok() {
                println!("remainders {r} {s}: {}", show(d));
            }
            let mut p = Lin { budget: 2000, cases: 0, trail: vec![] };
            let ok = p.never(d, &rows);
            stat("cases of the size checks", p.cases);
            if !ok {
                return false;
            }
        }
    }
    true
}

pub fn all_sizes(tcx: TyCtxt<'_>, q: &GReq) {
    reset();
    let d = match locate(tcx, &q.name) {
        Some(d) => d,
        None => return ob("guard", &q.key, St::Undecided, "no such function"),
    };
    let mut it = Interp::new(tcx);
    it.cut_loops = true;
    let pb = it.lw.ptr_bytes as u32 * 8;
    let umax = (1i128 << pb) - 1;
    // no slice is larger than the address space of any machine
    let maxlen = ((1i128 << (pb - 1)) - 1).min(1 << 56);
    let (w, h) = (sym("width", 0, umax), sym("height", 0, umax));
    let len = sym("data.len()", 0, maxlen);
    let ilen = sym("image.len()", 0, maxlen / 4);
    let inst = Instance::mono(tcx, d);
    let id = it.lw.inst_id(inst);
    let da = Alloc { size: len, cells: vec![], kind: AK::Event, name: "data".into() };
    let oa = Alloc { size: mulc(ilen, 4), cells: vec![], kind: AK::Event, name: "image".into() };
    let mut st = State { frames: vec![], ext: vec![da.into(), oa.into()], pc: vec![], refine: Default::default(), events: Default::default(), tag: 0 };
    let mut args = vec![V::Pair(Val::Ptr(Ptr { a: A::Ext(0), off: cst(0) }), Val::Sc(len)), sc(w), sc(h)];
    for x in &q.mid {
        args.push(sc(cst(*x)));
    }
    args.push(V::Pair(Val::Ptr(Ptr { a: A::Ext(1), off: cst(0) }), Val::Sc(ilen)));
    for x in &q.post {
        args.push(sc(cst(*x)));
    }
    if it.push_call(&mut st, id, args, None, 0, "entry".into()).is_err() {
        return ob("guard", &q.key, St::Undecided, "entry signature");
    }
    let done = it.run(st);
    stats_guard(&it);
    let mut refused = cst(0);
    for (s, v) in &done {
        match ret_kind(v) {
            RetKind::Ok => {}
            RetKind::Err => {
                refused = or(refused, conj(&s.pc));
                if !s.events.is_empty() {
                    return ob("guard", &q.key, St::Undecided, "the image is accessed before an error is returned");
                }
            }
            RetKind::Other => return ob("guard", &q.key, St::Undecided, "cannot tell Ok from Err"),
        }
    }
    let spec = (q.refuse)(w, h, len, ilen);
    // a panic before the sizes are checked
    let mut open_issue = false;
    for i in &it.issues {
        let c = conj(&i.cond);
        match search_sizes(c, w, h, len, ilen, &q.need, umax) {
            Some((a, b, l, m)) => {
                return ob("bounds", &q.key, St::Violated, &format!("{} in {} at {} for width={a} height={b} data.len()={l} image.len()={m}", i.what, i.func, i.line));
            }
            None => {
                if !impossible(c, w, h, q.block) {
                    open_issue = true;
                    ob("bounds", &q.key, St::Undecided, &format!("{} in {} at {} could not be excluded", i.what, i.func, i.line));
                }
            }
        }
    }
    if !open_issue {
        ob("bounds", &q.key, St::Ok, "");
    }
    let proved = impossible(xor(refused, spec), w, h, q.block);
    if proved {
        if let Some((s, why)) = it.cuts.iter().find(|c| may_fail_later(&c.0)) {
            return ob("guard", &q.key, St::Undecided, &format!("an error may still be returned after {why} in {}", s.frames.last().unwrap().body.name));
        }
        return ob("guard", &q.key, St::Ok, "");
    }
    match search_sizes(xor(refused, spec), w, h, len, ilen, &q.need, umax) {
        Some((a, b, l, m)) => {
            let mut ev = Evaluator::new(&[refused]);
            ev.run(&HashMap::from([(w, a), (h, b), (len, l), (ilen, m)]));
            let (nb, nt) = (q.need)(a, b);
            if ev.get(refused) == 0 {
                // accepted so far; a later error would make it a refusal
                if let Some((s, _)) = it.cuts.iter().find(|c| may_fail_later(&c.0)) {
                    return ob("guard", &q.key, St::Undecided, &format!("an error may still be returned in {}", s.frames.last().unwrap().body.name));
                }
            }
            ob("guard", &q.key, St::Violated, &format!("width={a} height={b} data.len()={l} image.len()={m} is {}; it needs {nb} bytes and {nt} texels", if ev.get(refused) != 0 { "refused" } else { "accepted" }))
        }
        None => ob("guard", &q.key, St::Undecided, &format!("neither proved nor refuted: refused when {}", show(refused))),
    }
}
fn stats_guard(it: &Interp) {
    stat("abstract steps", it.steps as u64);
    for f in it.functions() {
        reached(&f);
    }
}

pub fn cdiv(a: N, d: i128) -> N {
    fdiv(add(a, cst(d - 1)), cst(d))
}
pub fn block_req(name: &str, key: String, mid: Vec<i128>, bw: i128, bh: i128, bytes: i128) -> GReq {
    GReq {
        name: name.into(),
        key,
        mid,
        post: vec![],
        block: (bw, bh),
        refuse: Box::new(move |w, h, l, i| or(lt(l, mulc(mul(cdiv(w, bw), cdiv(h, bh)), bytes)), lt(i, mul(w, h)))),
        need: Box::new(move |w, h| {
            let x = ((w + bw - 1) / bw).checked_mul((h + bh - 1) / bh).map(|x| smul(x, bytes)).unwrap_or(INF);
            (x, smul(w, h))
        }),
    }
}

pub const ASTC_SIZES: &[(i128, i128)] = &[(4, 4), (5, 4), (5, 5), (6, 5), (6, 6), (8, 5), (8, 6), (8, 8), (10, 5), (10, 6), (10, 8), (10, 10), (12, 10), (12, 12)];

pub fn requests(bits: u8) -> Vec<GReq> {
    let mut v = vec![];
    for f in crate::image::SIMPLE_FMT {
        v.push(block_req(f.name, format!("{} any size", f.name), vec![], f.bw as i128, f.bh as i128, f.bytes as i128));
    }
    v.push(block_req("decode_bc7", "decode_bc7 any size".into(), vec![], 4, 4, 16));
    for (b, n) in [(0, "unsigned"), (1, "signed")] {
        let mut r = block_req("decode_bc6", format!("decode_bc6 {n} any size"), vec![], 4, 4, 16);
        r.post = vec![b];
        v.push(r);
        v.push(block_req(&format!("decode_bc6_{n}"), format!("decode_bc6_{n} any size"), vec![], 4, 4, 16));
    }
    for (x, y) in ASTC_SIZES {
        v.push(block_req(&format!("decode_astc_{x}_{y}"), format!("decode_astc_{x}_{y} any size"), vec![], *x, *y, 16));
    }
    for x in 0..=14i128 {
        for y in 0..=14i128 {
            let mut r;
            let legal = (4..=12).contains(&x) && (4..=12).contains(&y);
            if legal {
                r = block_req("decode_astc", format!("decode_astc {x}x{y} any size"), vec![x, y], x, y, 16);
            } else {
                r = block_req("decode_astc", format!("decode_astc {x}x{y} refused"), vec![x, y], x.max(1), y.max(1), 16);
                r.refuse = Box::new(|_, _, _, _| cst(1));
            }
            v.push(r);
        }
    }
    for (two, bw) in [(0i128, 4i128), (1, 8)] {
        let mk = move |name: &str, post: Vec<i128>| {
            let mut r = block_req(name, format!("{name} {}bpp any size", if two == 1 { 2 } else { 4 }), vec![], bw, 4, 8);
            r.post = post;
            r.refuse = Box::new(move |w, h, l, i| {
                let (x, y) = (cdiv(w, bw), cdiv(h, 4));
                let pow = |n: N| eq(band(n, wrap(sub(n, cst(1)), bits, false), bits), cst(0));
                let none = or(eq(w, cst(0)), eq(h, cst(0)));
                let small = or(lt(l, mulc(mul(x, y), 8)), lt(i, mul(w, h)));
                or(small, and(not(none), or(not(pow(x)), not(pow(y)))))
            });
            r
        };
        v.push(mk("decode_pvrtc", vec![two]));
        v.push(mk(if two == 1 { "decode_pvrtc_2bpp" } else { "decode_pvrtc_4bpp" }, vec![]));
    }
    v
}

pub fn guards(tcx: TyCtxt<'_>) {
    let only = std::env::var("ONLY").unwrap_or_default();
    let q: Vec<GReq> = requests(tcx.data_layout.pointer_size().bits() as u8).into_iter().filter(|r| r.key.contains(&only)).collect();
    let lost = par(q.len(), 8, 300, &|i| all_sizes(tcx, &q[i]));
    for i in lost {
        ob("guard", &q[i].key, St::Undecided, "analysis ran out of time");
    }
}
