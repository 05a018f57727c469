//! Every block decoder with simple control flow against its specification.
use crate::equal::*;
use crate::interp::*;
use crate::job::*;
use crate::node::*;
use crate::spec;
use rustc_middle::ty::TyCtxt;

pub type SpecFn = fn(&[N], &[N]) -> Vec<N>;
pub const SIMPLE: &[(&str, u32, SpecFn)] = &[
    ("decode_bc1_block", 8, spec::bc1),
    ("decode_bc1a_block", 8, spec::bc1a),
    ("decode_bc2_block", 16, spec::bc2),
    ("decode_bc3_block", 16, spec::bc3),
    ("decode_bc4_block", 8, spec::bc4),
    ("decode_bc5_block", 16, spec::bc5),
    ("decode_atc_rgb4_block", 8, spec::atc_rgb4),
    ("decode_atc_rgba8_block", 16, spec::atc_rgba8),
    ("decode_etc1_block", 8, spec::etc1),
    ("decode_etc2_rgb_block", 8, spec::etc2_rgb),
    ("decode_etc2_rgba1_block", 8, spec::etc2_rgba1),
    ("decode_etc2_rgba8_block", 16, spec::etc2_rgba8),
    ("decode_eacr_block", 8, spec::eacr),
    ("decode_eacr_signed_block", 8, spec::eacr_signed),
    ("decode_eacrg_block", 16, spec::eacrg),
    ("decode_eacrg_signed_block", 16, spec::eacrg_signed),
];

pub fn probe_simple(tcx: TyCtxt<'_>) {
    let only = std::env::var("ONLY").unwrap_or_default();
    for (name, nb, sp) in SIMPLE {
        if !only.is_empty() && !name.contains(&only) {
            continue;
        }
        let t0 = std::time::Instant::now();
        reset();
        let mut it = Interp::new(tcx);
        let d = match locate(tcx, name) {
            Some(d) => d,
            None => {
                println!("{name}: missing");
                continue;
            }
        };
        let r = run_block(&mut it, d, &BlockReq { name, nbytes: *nb, texels: 16, slack: true, mid: vec![], post: vec![], fixed: vec![] });
        for i in &r.issues {
            println!("  {:?} {} in {} {}", i.kind, i.what, i.func, i.line);
        }
        let out = match &r.out {
            Some(o) => o.clone(),
            None => {
                println!("{name}: no summary");
                continue;
            }
        };
        let want = sp(&r.inp.data, &r.inp.old);
        let mut e = Eq::new();
        let mut bad = 0;
        let mut unk = 0;
        for t in 0..16 {
            for c in 0..4u8 {
                match e.equal(slice(out[t], c * 8, 8), slice(want[t], c * 8, 8)) {
                    Verdict::Equal => {}
                    Verdict::Differ(w, x, y) => {
                        bad += 1;
                        if bad < 3 {
                            println!("  texel {t} channel {c}: {x} instead of {y} for {}", show_witness(&w));
                        }
                    }
                    Verdict::Unknown => {
                        unk += 1;
                        if unk < 3 {
                            println!("  unknown: texel {t} ch {c}\n   {}\n   {}", show(slice(out[t], c * 8, 8)), show(slice(want[t], c * 8, 8)));
                        }
                    }
                }
            }
        }
        println!("{name}: bad {bad} unknown {unk} struct {} table {} split {} time {:?}", e.by_struct, e.by_table, e.by_split, t0.elapsed());
    }
}

use crate::report::*;

fn opaque(roots: &[N]) -> bool {
    topo(roots).iter().any(|x| matches!(k(*x), K::Op(OpK::Opaque(_), _, _)))
}

/// Decide one issue the interpreter raised: reachable on a concrete input, impossible, or open.
pub fn judge_issue(e: &mut Eq, i: &Issue) -> (St, String) {
    let place = format!("{} at {}", i.what, i.line);
    if i.kind == IssueKind::Unsupported {
        return (St::Undecided, format!("construct outside the analysis: {place}"));
    }
    let roots: Vec<N> = i.cond.iter().map(|c| c.0).collect();
    if roots.iter().zip(i.cond.iter()).any(|(r, c)| konst(*r).map(|v| (v != 0) != c.1).unwrap_or(false)) {
        return (St::Ok, String::new());
    }
    let conds = i.cond.clone();
    let w = e.search(&roots, 60000, &|ev| conds.iter().all(|c| (ev.get(c.0) != 0) == c.1));
    match w {
        Some(w) if !opaque(&roots) => {
            let via = if i.chain.is_empty() { String::new() } else { format!(" via {}", i.chain.join(" > ")) };
            (St::Violated, format!("{place}{via} is reached for {}", show_witness(&w)))
        }
        _ => {
            // the branch conditions may contradict each other
            let mut d = 1;
            for (c, v) in &i.cond {
                if let Some(x) = e.dd.cond(*c) {
                    let l = if *v { Some(x) } else { e.dd.apply(2, x, 1) };
                    if let Some(z) = l.and_then(|l| e.dd.apply(0, d, l)) {
                        d = z;
                    }
                }
            }
            if d == 0 {
                return (St::Ok, String::new());
            }
            (St::Undecided, format!("{place} could not be excluded: {}", i.cond.iter().map(|c| format!("{}={}", show(c.0), c.1)).collect::<Vec<_>>().join(" and ")))
        }
    }
}

/// report the issues of one run under `panic:<name>`
pub fn report_issues(group: &str, name: &str, e: &mut Eq, issues: &[Issue]) -> (u32, u32) {
    let (mut v, mut u) = (0, 0);
    for i in issues {
        let (st, d) = judge_issue(e, i);
        let key = format!("{name}: {} in {}", i.what, i.func);
        match st {
            St::Ok => continue,
            St::Violated => v += 1,
            St::Undecided => u += 1,
        }
        ob(group, &key, st, &d);
    }
    if v + u == 0 {
        ob(group, name, St::Ok, "");
    }
    (v, u)
}

pub fn stats_of(it: &Interp) {
    stat("assertions discharged", it.asserts_ok as u64);
    stat("abstract steps", it.steps as u64);
    stat("joins", it.joins as u64);
    for f in it.functions() {
        reached(&f);
    }
}

fn simple_req(name: &'static str, nb: u32) -> BlockReq<'static> {
    BlockReq { name, nbytes: nb, texels: 16, slack: true, mid: vec![], post: vec![], fixed: vec![] }
}

/// no panic, no access out of bounds, nothing written past the block's texels
pub fn chosen() -> Vec<&'static (&'static str, u32, SpecFn)> {
    let only = std::env::var("ONLY").unwrap_or_default();
    SIMPLE.iter().filter(|x| x.0.contains(&only)).collect()
}
pub fn simple_panic(tcx: TyCtxt<'_>) {
    let set = chosen();
    let lost = par(set.len(), 8, 300, &|i| {
        let (name, nb, _) = *set[i];
        reset();
        let mut it = Interp::new(tcx);
        let d = match locate(tcx, name) {
            Some(d) => d,
            None => return ob("panic", name, St::Undecided, "no such function"),
        };
        let r = run_block(&mut it, d, &simple_req(name, nb));
        let mut e = Eq::new();
        report_issues("panic", name, &mut e, &r.issues);
        stats_of(&it);
    });
    for i in lost {
        ob("panic", set[i].0, St::Undecided, "analysis ran out of time");
    }
}

/// every texel equals the specification's
pub fn simple_value(tcx: TyCtxt<'_>) {
    const PARTS: usize = 8;
    let set = chosen();
    let n = set.len();
    // slowest formats first
    let order: Vec<usize> = (0..n).rev().collect();
    let lost = par(n * PARTS, 8, 600, &|j| {
        let i = order[j / PARTS];
        let part = j % PARTS;
        let (name, nb, sp) = *set[i];
        reset();
        let mut it = Interp::new(tcx);
        let d = match locate(tcx, name) {
            Some(d) => d,
            None => {
                if part == 0 {
                    ob("value", name, St::Undecided, "no such function");
                }
                return;
            }
        };
        let r = run_block(&mut it, d, &simple_req(name, nb));
        if part == 0 {
            stats_of(&it);
        }
        let out = match &r.out {
            Some(o) if !r.issues.iter().any(|i| i.kind == IssueKind::Unsupported) => o.clone(),
            _ => {
                if part == 0 {
                    let why = r.issues.first().map(|i| format!("{} in {} at {}", i.what, i.func, i.line)).unwrap_or("the texels are not all written".into());
                    ob("value", name, St::Undecided, &format!("no summary: {why}"));
                }
                return;
            }
        };
        if part == 0 {
            for (x, _) in &r.extra {
                ob("footprint", &format!("{name}: {x}"), St::Violated, &format!("{name} writes {x}, outside its 4x4 texels"));
            }
        }
        let want = sp(&r.inp.data, &r.inp.old);
        let mut e = Eq::new();
        for t in (0..16).filter(|t| t % PARTS == part) {
            for c in 0..4u8 {
                let chn = ["blue", "green", "red", "alpha"][c as usize];
                let key = format!("{name}: texel ({},{}) {chn}", t % 4, t / 4);
                let (x, y) = (slice(out[t], c * 8, 8), slice(want[t], c * 8, 8));
                match e.equal(x, y) {
                    Verdict::Equal => ob("value", &key, St::Ok, ""),
                    Verdict::Differ(w, a, b) => ob("value", &key, St::Violated, &format!("{name} gives {a}, the format defines {b}, for {}", show_witness(&w))),
                    Verdict::Unknown => ob("value", &key, St::Undecided, "neither proved equal nor a difference found"),
                }
            }
        }
        stat("channels equal by value number", e.by_struct);
        stat("channels equal by table", e.by_table);
        stat("channels equal by decision diagram", e.by_split);
    });
    for j in lost {
        ob("value", &format!("{} part {}", set[order[j / PARTS]].0, j % PARTS), St::Undecided, "analysis ran out of time");
    }
}

/// texels depend on nothing but the block (and, for one- and two-channel formats,
/// the channels they keep)
pub fn simple_footprint(tcx: TyCtxt<'_>) {
    let set = chosen();
    let lost = par(set.len(), 8, 300, &|i| {
        let (name, nb, sp) = *set[i];
        reset();
        let mut it = Interp::new(tcx);
        let d = match locate(tcx, name) {
            Some(d) => d,
            None => return ob("footprint", name, St::Undecided, "no such function"),
        };
        let r = run_block(&mut it, d, &simple_req(name, nb));
        stats_of(&it);
        let out = match &r.out {
            Some(o) if !r.issues.iter().any(|i| i.kind == IssueKind::Unsupported) => o.clone(),
            _ => return ob("footprint", name, St::Undecided, "no summary"),
        };
        for (x, _) in &r.extra {
            ob("footprint", &format!("{name}: writes {x}"), St::Violated, &format!("{name} writes {x}, outside its 4x4 texels"));
        }
        let want = sp(&r.inp.data, &r.inp.old);
        let mut e = Eq::new();
        for t in 0..16 {
            let key = format!("{name}: texel ({},{})", t % 4, t / 4);
            let mut st = St::Ok;
            let mut why = String::new();
            for c in 0..4u8 {
                let x = slice(out[t], c * 8, 8);
                let y = slice(want[t], c * 8, 8);
                // a channel the format does not define keeps its own old value
                let keeps = y == slice(r.inp.old[t], c * 8, 8);
                if keeps {
                    if x != y {
                        match e.equal(x, y) {
                            Verdict::Equal => {}
                            Verdict::Differ(w, a, b) => {
                                st = St::Violated;
                                why = format!("channel {c} is changed from {b} to {a} for {}", show_witness(&w));
                            }
                            Verdict::Unknown => {
                                if st == St::Ok {
                                    st = St::Undecided;
                                    why = "kept channel".into();
                                }
                            }
                        }
                    }
                    continue;
                }
                let outside: Vec<N> = leaves(&[x]).into_iter().filter(|l| !r.inp.data.contains(l)).collect();
                if outside.is_empty() {
                    continue;
                }
                // the same graph over renamed leaves: does the value change with them?
                let mut m = std::collections::HashMap::new();
                for l in &outside {
                    let (_, hi) = iv(*l);
                    let nn = if let K::In(_, w) = k(*l) { input(&format!("another {}", show(*l)), *w) } else { sym(&format!("another {}", show(*l)), iv(*l).0, hi) };
                    m.insert(*l, nn);
                }
                let z = subst(x, &m, &mut Default::default());
                match e.equal(x, z) {
                    Verdict::Equal => {}
                    Verdict::Differ(w, a, b) => {
                        st = St::Violated;
                        why = format!("channel {c} depends on {}: {a} or {b} for {}", outside.iter().map(|l| show(*l)).collect::<Vec<_>>().join(","), show_witness(&w));
                    }
                    Verdict::Unknown => {
                        if st == St::Ok {
                            st = St::Undecided;
                            why = format!("depends on {}", outside.iter().map(|l| show(*l)).collect::<Vec<_>>().join(","));
                        }
                    }
                }
            }
            ob("footprint", &key, st, &why);
        }
    });
    for i in lost {
        ob("footprint", set[i].0, St::Undecided, "analysis ran out of time");
    }
}
