//! Running the analysis on one function and comparing its summary with a specification.
use crate::equal::*;
use crate::interp::*;
use crate::node::*;
use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::ty::{Instance, TyCtxt};
use std::collections::HashMap;

/// the function exported by the crate under this name, or else a unique function of that name
pub fn locate(tcx: TyCtxt<'_>, name: &str) -> Option<DefId> {
    for c in tcx.module_children_local(rustc_hir::def_id::CRATE_DEF_ID) {
        if let Res::Def(DefKind::Fn, d) = c.res {
            if c.ident.name.as_str() == name {
                return Some(d);
            }
        }
    }
    let mut v = vec![];
    for d in tcx.hir_body_owners() {
        let p = tcx.def_path_str(d.to_def_id());
        if tcx.def_kind(d) == DefKind::Fn && (p == name || p.ends_with(&format!("::{name}"))) {
            v.push(d.to_def_id());
        }
    }
    if v.len() == 1 {
        Some(v[0])
    } else {
        None
    }
}

pub struct BlockIn {
    pub data: Vec<N>,
    pub old: Vec<N>,
}
#[derive(Default, Clone)]
pub struct Stats {
    pub functions: u64,
    pub steps: u64,
    pub asserts: u64,
    pub joins: u64,
    pub reached: std::collections::BTreeSet<String>,
}
pub struct BlockRun {
    pub inp: BlockIn,
    pub out: Option<Vec<N>>,
    pub extra: Vec<(String, N)>,
    pub issues: Vec<Issue>,
    pub ret: Vec<V>,
}

pub struct BlockReq<'a> {
    pub name: &'a str,
    pub nbytes: u32,
    pub texels: u32,
    pub slack: bool,
    /// arguments between the data and the buffer, or after it
    pub mid: Vec<i128>,
    pub post: Vec<i128>,
    pub fixed: Vec<(usize, bool)>,
}

pub fn data_bytes(n: u32, fixed: &[(usize, bool)]) -> Vec<N> {
    let mut data = vec![];
    for i in 0..n as usize {
        let x = input(&format!("data[{i}]"), 8);
        let f: Vec<&(usize, bool)> = fixed.iter().filter(|y| y.0 / 8 == i).collect();
        if f.is_empty() {
            data.push(x);
        } else {
            data.push(mk_bits(
                (0..8)
                    .map(|b| match f.iter().find(|y| y.0 % 8 == b) {
                        Some((_, true)) => BR::One,
                        Some((_, false)) => BR::Zero,
                        None => BR::Bit(x, b as u8),
                    })
                    .collect(),
            ));
        }
    }
    data
}

pub fn run_block<'tcx>(it: &mut Interp<'tcx>, d: DefId, rq: &BlockReq) -> BlockRun {
    let inst = Instance::mono(it.lw.tcx, d);
    let id = it.lw.inst_id(inst);
    it.issues.clear();
    let data = data_bytes(rq.nbytes, &rq.fixed);
    let old: Vec<N> = (0..rq.texels).map(|i| input(&format!("buffer[{i}]"), 32)).collect();
    let mut cells: Vec<_> = data.iter().enumerate().map(|(i, x)| (i as u32, 1u8, Val::Sc(*x))).collect();
    if rq.slack {
        // the bytes of the following block
        for i in rq.nbytes..rq.nbytes + 32 {
            cells.push((i, 1u8, Val::Sc(input(&format!("next[{}]", i - rq.nbytes), 8))));
        }
    }
    let pb = it.lw.ptr_bytes as u32 * 8;
    let maxlen = (1i128 << (pb - 1)) - 1;
    let (len, olen) = if rq.slack {
        (sym("data.len()", rq.nbytes as i128, maxlen), sym("buffer.len()", rq.texels as i128, maxlen / 4))
    } else {
        (cst(rq.nbytes as i128), cst(rq.texels as i128))
    };
    let da = Alloc { size: len, cells, kind: AK::Exact, name: "data".into() };
    let cells = old.iter().enumerate().map(|(i, x)| (i as u32 * 4, 4u8, Val::Sc(*x))).collect();
    let oa = Alloc { size: mulc(olen, 4), cells, kind: AK::Exact, name: "buffer".into() };
    let st = State { frames: vec![], ext: vec![da.into(), oa.into()], pc: vec![], refine: Default::default(), events: Default::default(), tag: 0 };
    let mut st = st;
    let mut args = vec![V::Pair(Val::Ptr(Ptr { a: A::Ext(0), off: cst(0) }), Val::Sc(len))];
    for x in &rq.mid {
        args.push(sc(cst(*x)));
    }
    args.push(V::Pair(Val::Ptr(Ptr { a: A::Ext(1), off: cst(0) }), Val::Sc(olen)));
    for x in &rq.post {
        args.push(sc(cst(*x)));
    }
    let inp = BlockIn { data, old };
    if it.push_call(&mut st, id, args, None, 0, "entry".into()).is_err() {
        return BlockRun {
            inp,
            out: None,
            extra: vec![],
            ret: vec![],
            issues: vec![Issue { kind: IssueKind::Unsupported, what: "entry signature".into(), func: rq.name.into(), line: "".into(), chain: vec![], cond: vec![] }],
        };
    }
    let done = it.run(st);
    let ret = done.iter().map(|x| x.1.clone()).collect();
    let fin = it.join_done(done);
    let mut out = None;
    let mut extra = vec![];
    if fin.len() == 1 {
        let s = &fin[0];
        let mut v: Vec<Option<N>> = vec![None; rq.texels as usize];
        let mut ok = true;
        for i in 0..rq.texels {
            let p = Ptr { a: A::Ext(1), off: cst(i as i128 * 4) };
            match it.load(s, p, 4) {
                Ok(Val::Sc(n)) => v[i as usize] = Some(wrap(n, 32, false)),
                _ => ok = false,
            }
        }
        if ok {
            out = Some(v.into_iter().map(|x| x.unwrap()).collect());
        }
        for c in s.ext[1].cells.iter() {
            if c.0 >= rq.texels * 4 {
                if let Val::Sc(n) = c.2 {
                    extra.push((format!("buffer byte {}", c.0), n));
                }
            }
        }
    }
    BlockRun { inp, out, extra, ret, issues: it.issues.iter().cloned().collect() }
}

pub fn show_witness(w: &[(N, i128)]) -> String {
    let mut named: HashMap<String, i128> = HashMap::new();
    for (n, v) in w {
        named.insert(show(*n), *v);
    }
    let mut ks: Vec<_> = named.into_iter().collect();
    ks.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
    ks.iter().map(|(n, v)| if *v >= 0 { format!("{n}=0x{v:x}") } else { format!("{n}={v}") }).collect::<Vec<_>>().join(" ")
}
