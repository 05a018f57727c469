//! Abstract interpreter over lowered MIR.  States that reach the same program
//! point are joined (gated by the branch condition), so the result is one value
//! graph per function, not a set of executions.

use crate::lower::*;
use crate::node::*;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc};
use rustc_middle::mir::BinOp;
use rustc_middle::ty::{self, TyCtxt};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum A {
    Local(u32, u32),
    Glob(u64),
    Ext(u32),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Ptr {
    pub a: A,
    pub off: N,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Val {
    Undef,
    Sc(N),
    Ptr(Ptr),
    Fn(usize),
}
#[derive(Clone, Debug)]
pub enum V {
    Zst,
    Sc(Val),
    Pair(Val, Val),
    Blob(Rc<Vec<(u32, u8, Val)>>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum AK {
    Exact,
    /// writes are recorded, contents unknown
    Event,
    /// allocated by the analysed code
    Heap,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Alloc {
    pub size: N,
    pub cells: Vec<(u32, u8, Val)>,
    pub kind: AK,
    pub name: Rc<str>,
}
impl Alloc {
    pub fn new(size: u64) -> Self {
        Alloc { size: cst(size as i128), cells: vec![], kind: AK::Exact, name: "".into() }
    }
    /// the end of the part that may be accessed
    fn end(&self) -> i128 {
        match self.kind {
            AK::Heap => konst(self.size).unwrap_or(0),
            _ => self.cells.last().map(|c| c.0 as i128 + c.1 as i128).unwrap_or(0),
        }
    }
    fn find(&self, off: u32) -> Result<usize, usize> {
        self.cells.binary_search_by(|c| c.0.cmp(&off))
    }
    /// index of the first cell whose end lies after `off`
    fn first_overlap(&self, off: u32) -> usize {
        match self.find(off) {
            Ok(i) => i,
            Err(i) => {
                if i > 0 && self.cells[i - 1].0 + self.cells[i - 1].1 as u32 > off {
                    i - 1
                } else {
                    i
                }
            }
        }
    }
}
#[derive(Clone)]
pub struct Frame {
    pub body: Rc<Body>,
    pub inst: usize,
    pub bb: usize,
    pub locals: Vec<Option<Rc<Alloc>>>,
    pub dest: Option<(Ptr, TI)>,
    pub target: usize,
    pub path: Vec<(u32, u32)>,
    pub line: Rc<str>,
}
pub type Refine = HashMap<N, (i128, i128)>;
#[derive(Clone, Debug, PartialEq)]
pub struct Event {
    pub alloc: u32,
    pub off: N,
    pub len: N,
    /// per element source description
    pub src: Src,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Src {
    Copy(Ptr),
    Value(N, u64),
}
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub ext: Vec<Rc<Alloc>>,
    pub pc: Vec<(N, bool)>,
    pub refine: Rc<Refine>,
    pub events: Rc<Vec<Event>>,
    pub tag: u64,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum IssueKind {
    Panic,
    Memory,
    Unsupported,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Issue {
    pub kind: IssueKind,
    pub what: String,
    pub func: String,
    pub line: String,
    pub chain: Vec<String>,
    /// the condition under which the site is reached and fails
    pub cond: Vec<(N, bool)>,
}

pub enum Stop {
    Unsup(String),
    Dead,
}
type R<T> = Result<T, Stop>;
fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Unsup(s.into()))
}

pub struct GAlloc {
    bytes: Vec<u8>,
    relocs: BTreeMap<u64, (AllocId, u64)>,
    size: u64,
}

pub enum Hook {
    /// not handled, interpret the body
    No,
    Done(V),
}
pub type HookFn<'tcx> = fn(&mut Interp<'tcx>, &mut State, usize, &[V]) -> R<Hook>;

pub struct Interp<'tcx> {
    pub lw: Lower<'tcx>,
    pub issues: BTreeSet<Issue>,
    glob: HashMap<u64, Rc<GAlloc>>,
    pub hooks: HashMap<usize, HookFn<'tcx>>,
    pub hook_cache: HashMap<usize, Option<HookFn<'tcx>>>,
    pub hook_by: Option<fn(&str) -> Option<HookFn<'tcx>>>,
    pub asserts_ok: u64,
    pub asserts_seen: BTreeSet<(usize, usize)>,
    pub calls_seen: BTreeSet<usize>,
    pub steps: u64,
    pub max_steps: u64,
    pub strong_bits: usize,
    strong_cache: HashMap<(N, Vec<(N, bool)>), Option<bool>>,
    pub joins: u64,
    pub forks: u64,
    pub trace: bool,
    pub opaque: u32,
    pub no_join: bool,
    pub log: Vec<(String, Vec<N>)>,
    pub max_iter: u32,
    /// stop states at the first loop or unsupported construct and keep them
    pub cut_loops: bool,
    pub cuts: Vec<(State, String)>,
    /// reads of buffers with unknown contents
    pub event_reads: u64,
    /// values read back from arrays stand as variables from there on: (variable, value)
    pub naming: Option<Names>,
}

fn take(s: &mut State) -> State {
    std::mem::replace(s, State { frames: vec![], ext: vec![], pc: vec![], refine: Rc::new(HashMap::new()), events: Rc::new(vec![]), tag: 0 })
}
/// vtables are numbered from here
pub const DYN: usize = 1 << 40;
pub fn dyn_parts(v: Option<&V>) -> R<(Val, usize)> {
    match v {
        Some(V::Pair(a, Val::Fn(i))) if *i >= DYN => Ok((*a, *i - DYN)),
        Some(V::Blob(c)) if c.len() == 2 => match c[1].2 {
            Val::Fn(i) if i >= DYN => Ok((c[0].2, i - DYN)),
            _ => unsup("trait object"),
        },
        _ => unsup("trait object"),
    }
}
pub fn sc(n: N) -> V {
    V::Sc(Val::Sc(n))
}

impl<'tcx> Interp<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Interp {
            lw: Lower::new(tcx),
            issues: BTreeSet::new(),
            glob: HashMap::new(),
            hooks: HashMap::new(),
            hook_cache: HashMap::new(),
            hook_by: None,
            asserts_ok: 0,
            asserts_seen: BTreeSet::new(),
            calls_seen: BTreeSet::new(),
            steps: 0,
            max_steps: 40_000_000,
            strong_bits: 14,
            strong_cache: HashMap::new(),
            joins: 0,
            forks: 0,
            trace: false,
            opaque: 0,
            no_join: false,
            log: vec![],
            max_iter: 5000,
            cut_loops: false,
            cuts: vec![],
            event_reads: 0,
            naming: None,
        }
    }
    /// forget everything derived from nodes (after node::reset)
    pub fn clear(&mut self) {
        self.strong_cache.clear();
        self.opaque = 0;
        self.steps = 0;
    }
    pub fn fresh(&mut self, w: u8) -> N {
        self.opaque += 1;
        mk(K::Op(OpK::Opaque(self.opaque), Box::new([]), w))
    }

    // ------------------------------------------------------------ globals
    fn galloc(&mut self, id: u64) -> R<Rc<GAlloc>> {
        if let Some(x) = self.glob.get(&id) {
            return Ok(x.clone());
        }
        let aid = AllocId(std::num::NonZero::new(id).unwrap());
        let tcx = self.lw.tcx;
        let ca = match tcx.global_alloc(aid) {
            GlobalAlloc::Memory(m) => m,
            GlobalAlloc::Static(d) => {
                if tcx.is_mutable_static(d) {
                    return unsup("mutable static");
                }
                match tcx.eval_static_initializer(d) {
                    Ok(m) => m,
                    Err(_) => return unsup("static"),
                }
            }
            _ => return unsup("global"),
        };
        let inner = ca.inner();
        let n = inner.len();
        let bytes = inner.inspect_with_uninit_and_ptr_outside_interpreter(0..n).to_vec();
        let mut relocs = BTreeMap::new();
        for (off, prov) in inner.provenance().ptrs().iter() {
            let o = off.bytes();
            let pb = self.lw.ptr_bytes as usize;
            let raw = &bytes[o as usize..o as usize + pb];
            let mut a = 0u64;
            for i in 0..pb {
                let b = if self.lw.big_endian { raw[pb - 1 - i] } else { raw[i] };
                a |= (b as u64) << (8 * i);
            }
            relocs.insert(o, (prov.alloc_id(), a));
        }
        let r = Rc::new(GAlloc { bytes, relocs, size: n as u64 });
        self.glob.insert(id, r.clone());
        Ok(r)
    }
    fn gload(&mut self, id: u64, off: i128, size: u64) -> R<Val> {
        let g = self.galloc(id)?;
        if off < 0 || off as u64 + size > g.size {
            return unsup("constant read out of bounds");
        }
        if let Some((a, o)) = g.relocs.get(&(off as u64)) {
            return Ok(match self.lw.tcx.global_alloc(*a) {
                GlobalAlloc::Function { instance } => Val::Fn(self.lw.inst_id(instance)),
                _ => Val::Ptr(Ptr { a: A::Glob(a.0.get()), off: cst(*o as i128) }),
            });
        }
        let mut v: u128 = 0;
        for i in 0..size {
            let b = if self.lw.big_endian { g.bytes[(off as u64 + size - 1 - i) as usize] } else { g.bytes[(off as u64 + i) as usize] };
            v |= (b as u128) << (8 * i);
        }
        Ok(Val::Sc(cst(v as i128)))
    }

    // ------------------------------------------------------------ memory
    pub fn alloc_of<'a>(&self, st: &'a State, a: A) -> R<&'a Rc<Alloc>> {
        match a {
            A::Local(d, l) => match st.frames.get(d as usize).and_then(|f| f.locals.get(l as usize)).and_then(|x| x.as_ref()) {
                Some(x) => Ok(x),
                None => unsup("dangling or uninitialised local"),
            },
            A::Ext(i) => Ok(&st.ext[i as usize]),
            A::Glob(_) => unsup("write to constant memory"),
        }
    }
    fn alloc_mut<'a>(&self, st: &'a mut State, a: A) -> R<&'a mut Alloc> {
        match a {
            A::Local(d, l) => {
                let f = match st.frames.get_mut(d as usize) {
                    Some(f) => f,
                    None => return unsup("dangling local"),
                };
                let size = f.body.locals[l as usize].size;
                let s = &mut f.locals[l as usize];
                if s.is_none() {
                    *s = Some(Rc::new(Alloc::new(size)));
                }
                Ok(Rc::make_mut(s.as_mut().unwrap()))
            }
            A::Ext(i) => Ok(Rc::make_mut(&mut st.ext[i as usize])),
            A::Glob(_) => unsup("write to constant memory"),
        }
    }

    pub fn candidates(&self, st: &State, off: N) -> R<(N, i128, i128, i128)> {
        // off = base + stride*idx, idx in 0..count
        let (lo, hi) = self.riv(st, off);
        let mut stride = 0i128;
        let mut c0 = 0i128;
        match k(off) {
            K::Lin(t, c) => {
                for x in t.iter() {
                    stride = gcdi(stride, x.2.abs());
                }
                c0 = *c;
            }
            K::Bits(b) => {
                let z = b.iter().take_while(|x| !matches!(x, BR::Bit(..))).count();
                stride = 1 << z;
                for (i, x) in b.iter().enumerate() {
                    if *x == BR::One && i < z {
                        c0 += 1 << i;
                    }
                }
            }
            K::Sel(_, v) => {
                if v.iter().all(|x| konst(*x).is_some()) {
                    c0 = konst(v[0]).unwrap();
                    for x in v.iter() {
                        stride = gcdi(stride, (konst(*x).unwrap() - c0).abs());
                    }
                }
                if stride == 0 {
                    stride = 1
                }
            }
            K::Ite(..) => {
                let mut leaves = vec![];
                if ite_leaves(off, &mut leaves, 64) {
                    c0 = leaves[0];
                    for x in &leaves {
                        stride = gcdi(stride, (x - c0).abs());
                    }
                }
                if stride == 0 {
                    stride = 1
                }
            }
            _ => stride = 1,
        }
        if stride == 0 {
            stride = 1;
        }
        let base = lo + (c0 - lo).rem_euclid(stride);
        let count = (hi - base).div_euclid(stride) + 1;
        if count > 4096 || lo <= -INF || hi >= INF {
            return unsup(format!("memory access with an unbounded offset {}", show(off)));
        }
        Ok((fdiv(sub(off, cst(base)), cst(stride)), base, stride, count))
    }

    /// bytes of an allocation that may be accessed
    fn extent(&mut self, st: &State, a: A) -> R<i128> {
        Ok(match a {
            A::Glob(id) => self.galloc(id)?.size as i128,
            A::Ext(i) => st.ext[i as usize].end(),
            A::Local(d, l) => st.frames.get(d as usize).map(|f| f.body.locals[l as usize].size as i128).unwrap_or(0),
        })
    }
    /// the possible offsets of an access, restricted to the allocation; a possible
    /// offset outside of it is reported
    fn in_range(&mut self, st: &State, p: Ptr, size: u64) -> R<(N, i128, i128, i128)> {
        let ext = self.extent(st, p.a)?;
        let (idx, mut base, stride, mut count) = self.candidates(st, p.off)?;
        let mut idx = idx;
        if base < 0 || base + stride * (count - 1) + size as i128 > ext {
            let c = and(le(cst(0), p.off), le(add(p.off, cst(size as i128)), cst(ext)));
            if self.decide(st, c) != Some(true) {
                let mut s2 = st.clone();
                s2.pc.push((c, false));
                let name = match p.a {
                    A::Ext(i) => st.ext[i as usize].name.to_string(),
                    _ => "memory".into(),
                };
                self.memory_issue(&s2, format!("access outside the {ext} bytes of {name}"));
            }
            let mut drop = 0;
            while base < 0 && count > 0 {
                base += stride;
                count -= 1;
                drop += 1;
            }
            while count > 0 && base + stride * (count - 1) + size as i128 > ext {
                count -= 1;
            }
            if count == 0 {
                return Err(Stop::Dead);
            }
            idx = sub(idx, cst(drop));
        }
        Ok((idx, base, stride, count))
    }

    pub fn load(&mut self, st: &State, p: Ptr, size: u64) -> R<Val> {
        if let A::Ext(i) = p.a {
            if st.ext[i as usize].kind == AK::Event {
                self.event_reads += 1;
                return Ok(Val::Sc(self.fresh((size * 8) as u8)));
            }
        }
        if let Some(c) = konst(p.off) {
            return self.load_at(st, p.a, c, size);
        }
        if let K::Ite(c, x, y) = k(p.off) {
            let (c, x, y) = (*c, *x, *y);
            if let Some(b) = self.decide(st, c) {
                return self.load(st, Ptr { a: p.a, off: if b { x } else { y } }, size);
            }
            let (u, v) = (self.load(st, Ptr { a: p.a, off: x }, size)?, self.load(st, Ptr { a: p.a, off: y }, size)?);
            let r = self.joinval(c, u, v).ok_or(Stop::Unsup("load of mixed pointers".into()))?;
            return Ok(match (r, &mut self.naming) {
                (Val::Sc(n), Some(m)) if !matches!(p.a, A::Glob(_) | A::Ext(_)) => Val::Sc(m.name(n)),
                _ => r,
            });
        }
        let (idx, base, stride, count) = self.in_range(st, p, size)?;
        let mut v = vec![];
        let mut undef = 0;
        for i in 0..count {
            match self.load_at(st, p.a, base + stride * i, size)? {
                Val::Sc(n) => v.push(n),
                Val::Undef => {
                    undef += 1;
                    v.push(cst(0))
                }
                _ => return unsup("pointer load with a symbolic index"),
            }
        }
        if undef == count {
            return Ok(Val::Undef);
        }
        let r = sel(idx, v);
        Ok(Val::Sc(match &mut self.naming {
            Some(m) if !matches!(p.a, A::Glob(_) | A::Ext(_)) => m.name(r),
            _ => r,
        }))
    }
    fn load_at(&mut self, st: &State, a: A, off: i128, size: u64) -> R<Val> {
        if let A::Glob(id) = a {
            return self.gload(id, off, size);
        }
        let al = self.alloc_of(st, a)?;
        if off < 0 {
            self.memory_issue(st, format!("access before the start of {}", al.name));
            return Ok(Val::Sc(self.fresh((size * 8) as u8)));
        }
        let off = off as u32;
        let ci = al.first_overlap(off);
        match al.cells.get(ci) {
            Some((o, s, v)) if *o == off && *s as u64 == size => {
                let v = *v;
                if let (Val::Sc(n), true, false) = (v, self.naming.is_some(), matches!(a, A::Ext(_)) && al.kind != AK::Heap) {
                    if konst(al.size).is_none_or(|z| z >= 16) {
                        return Ok(Val::Sc(self.naming.as_mut().unwrap().name(n)));
                    }
                }
                return Ok(v);
            }
            _ => {}
        }
        if al.kind == AK::Heap {
            if konst(al.size).is_none_or(|z| off as i128 + size as i128 > z) {
                self.memory_issue(st, "access past the end of allocated memory".into());
                return Ok(Val::Sc(self.fresh((size * 8) as u8)));
            }
        } else if let A::Ext(_) = a {
            let end = al.cells.last().map(|c| c.0 + c.1 as u32).unwrap_or(0);
            if off as u64 + size > end as u64 {
                let m = format!("access to {} at byte {} outside the part that belongs to the block", al.name, off);
                self.memory_issue(st, m);
                return Ok(Val::Sc(self.fresh((size * 8) as u8)));
            }
        }
        // assemble from bytes
        let mut bits: Vec<BR> = vec![BR::Zero; size as usize * 8];
        for i in 0..size as u32 {
            let b = off + i;
            let ci = al.first_overlap(b);
            let (o, s, v) = match al.cells.get(ci) {
                Some(c) if c.0 <= b && b < c.0 + c.1 as u32 => *c,
                _ => return Ok(Val::Undef),
            };
            let n = match v {
                Val::Sc(n) => n,
                Val::Undef => return Ok(Val::Undef),
                _ => return unsup("bytes of a pointer"),
            };
            let j = b - o;
            let src = if self.lw.big_endian { s as u32 - 1 - j } else { j };
            let dst = if self.lw.big_endian { size as u32 - 1 - i } else { i };
            let by = slice(n, (src * 8) as u8, 8);
            for x in 0..8u32 {
                bits[(dst * 8 + x) as usize] = bit(by, x);
            }
        }
        Ok(Val::Sc(mk_bits(bits)))
    }
    pub fn store(&mut self, st: &mut State, p: Ptr, size: u64, v: Val) -> R<()> {
        if size == 0 {
            return Ok(());
        }
        if let A::Ext(i) = p.a {
            if st.ext[i as usize].kind == AK::Event {
                if let Val::Sc(n) = v {
                    let e = Event { alloc: i, off: p.off, len: cst(size as i128), src: Src::Value(n, size) };
                    Rc::make_mut(&mut st.events).push(e);
                    return Ok(());
                }
                return unsup("pointer store to a buffer");
            }
        }
        if let Some(c) = konst(p.off) {
            return self.store_at(st, p.a, c, size, v);
        }
        let n = match v {
            Val::Sc(n) => n,
            _ => return unsup("pointer store with a symbolic index"),
        };
        let (idx, base, stride, count) = self.in_range(st, p, size)?;
        for i in 0..count {
            let c = eq(idx, cst(i));
            if konst(c) == Some(0) {
                continue;
            }
            let old = match self.load_at(st, p.a, base + stride * i, size)? {
                Val::Sc(o) => o,
                Val::Undef => n,
                _ => return unsup("symbolic store over a pointer"),
            };
            self.store_at(st, p.a, base + stride * i, size, Val::Sc(ite(c, n, old)))?;
        }
        Ok(())
    }
    fn store_at(&mut self, st: &mut State, a: A, off: i128, size: u64, v: Val) -> R<()> {
        if off < 0 {
            self.memory_issue(st, "store before the start of a buffer".into());
            return Ok(());
        }
        let off = off as u32;
        if let A::Ext(_) = a {
            let al = self.alloc_of(st, a)?;
            if off as i128 + size as i128 > al.end() {
                let m = format!("store to {} at byte {} outside the part that belongs to the block", al.name, off);
                self.memory_issue(st, m);
                return Err(Stop::Dead);
            }
        }
        let be = self.lw.big_endian;
        let al = self.alloc_mut(st, a)?;
        let i = al.first_overlap(off);
        if let Some(c) = al.cells.get_mut(i) {
            if c.0 == off && c.1 as u64 == size {
                c.2 = v;
                return Ok(());
            }
        }
        // split partially covered cells into bytes
        let mut j = i;
        let end = off + size as u32;
        let mut repl: Vec<(u32, u8, Val)> = vec![];
        while j < al.cells.len() && al.cells[j].0 < end {
            let (o, s, val) = al.cells[j];
            if o < off || o + s as u32 > end {
                match val {
                    Val::Sc(n) => {
                        for b in 0..s as u32 {
                            let at = o + b;
                            if at < off || at >= end {
                                let src = if be { s as u32 - 1 - b } else { b };
                                repl.push((at, 1, Val::Sc(slice(n, (src * 8) as u8, 8))));
                            }
                        }
                    }
                    Val::Undef => {}
                    _ => return unsup("partial overwrite of a pointer"),
                }
            }
            j += 1;
        }
        let p = repl.iter().position(|c| c.0 >= off).unwrap_or(repl.len());
        repl.insert(p, (off, size as u8, v));
        al.cells.splice(i..j, repl);
        Ok(())
    }
    /// cells of a byte range, relative to its start
    fn load_cells(&mut self, st: &State, p: Ptr, size: u64) -> R<Vec<(u32, u8, Val)>> {
        if size == 0 {
            return Ok(vec![]);
        }
        if let A::Ext(i) = p.a {
            if st.ext[i as usize].kind == AK::Event {
                self.event_reads += 1;
            }
        }
        let c = match konst(p.off) {
            Some(c) => c,
            None => {
                // unaligned granularity is unknown: copy word-wise by the cell layout of the first candidate
                let (idx, base, stride, count) = self.in_range(st, p, size)?;
                let first = self.load_cells(st, Ptr { a: p.a, off: cst(base) }, size)?;
                let mut out = vec![];
                for (o, s, _) in first {
                    let mut v = vec![];
                    let mut ok = true;
                    for i in 0..count {
                        match self.load_at(st, p.a, base + stride * i + o as i128, s as u64)? {
                            Val::Sc(n) => v.push(n),
                            _ => {
                                ok = false;
                                v.push(cst(0))
                            }
                        }
                    }
                    if !ok {
                        return unsup("aggregate load with a symbolic index");
                    }
                    out.push((o, s, Val::Sc(sel(idx, v))));
                }
                return Ok(out);
            }
        };
        if let A::Glob(id) = p.a {
            // constant memory has no cells: bytes, except where pointers live
            let g = self.galloc(id)?;
            let mut out = vec![];
            let mut i = 0u64;
            while i < size {
                if g.relocs.contains_key(&(c as u64 + i)) {
                    out.push((i as u32, self.lw.ptr_bytes as u8, self.gload(id, c + i as i128, self.lw.ptr_bytes)?));
                    i += self.lw.ptr_bytes;
                } else {
                    out.push((i as u32, 1, self.gload(id, c + i as i128, 1)?));
                    i += 1;
                }
            }
            return Ok(out);
        }
        let be = self.lw.big_endian;
        let al = match self.alloc_of(st, p.a) {
            Ok(a) => a.clone(),
            Err(_) => return Ok(vec![]),
        };
        let c = c as u32;
        let end = c + size as u32;
        let mut out = vec![];
        let mut i = al.first_overlap(c);
        while i < al.cells.len() && al.cells[i].0 < end {
            let (o, s, v) = al.cells[i];
            if o >= c && o + s as u32 <= end {
                out.push((o - c, s, v));
            } else if let Val::Sc(n) = v {
                for b in 0..s as u32 {
                    let at = o + b;
                    if at >= c && at < end {
                        let src = if be { s as u32 - 1 - b } else { b };
                        out.push((at - c, 1, Val::Sc(slice(n, (src * 8) as u8, 8))));
                    }
                }
            } else if v != Val::Undef {
                return unsup("partial copy of a pointer");
            }
            i += 1;
        }
        Ok(out)
    }
    fn store_cells(&mut self, st: &mut State, p: Ptr, size: u64, cells: &[(u32, u8, Val)]) -> R<()> {
        let c = match konst(p.off) {
            Some(c) => c,
            None => {
                for (o, s, v) in cells {
                    self.store(st, Ptr { a: p.a, off: add(p.off, cst(*o as i128)) }, *s as u64, *v)?;
                }
                return Ok(());
            }
        };
        if let A::Local(..) = p.a {
            if c == 0 {
                let al = self.alloc_mut(st, p.a)?;
                if konst(al.size) == Some(size as i128) {
                    al.cells = cells.to_vec();
                    return Ok(());
                }
            }
            // invalidate the range, then write
            let covered: u64 = cells.iter().map(|c| c.1 as u64).sum();
            if covered < size {
                let al = self.alloc_mut(st, p.a)?;
                let (lo, hi) = (c as u32, c as u32 + size as u32);
                al.cells.retain(|x| !(x.0 >= lo && x.0 + x.1 as u32 <= hi));
            }
        }
        for (o, s, v) in cells {
            self.store(st, Ptr { a: p.a, off: cst(c + *o as i128) }, *s as u64, *v)?;
        }
        Ok(())
    }

    // ------------------------------------------------------------ refinement and deciding
    pub fn riv(&self, st: &State, n: N) -> (i128, i128) {
        if st.refine.is_empty() {
            return iv(n);
        }
        self.riv_d(st, n, 6)
    }
    fn riv_d(&self, st: &State, n: N, d: u32) -> (i128, i128) {
        let base = iv(n);
        if base.0 == base.1 {
            return base;
        }
        let mut r = st.refine.get(&n).copied().unwrap_or(base);
        r = (r.0.max(base.0), r.1.min(base.1));
        if d == 0 {
            return r;
        }
        let c = match k(n) {
            K::Lin(t, c) => {
                let (mut lo, mut hi) = (*c, *c);
                for (m, b, cf) in t.iter() {
                    let x = if *b == WHOLE { self.riv_d(st, *m, d - 1) } else { (0, 1) };
                    let x = imul(x, (*cf, *cf));
                    lo = sadd(lo, x.0);
                    hi = sadd(hi, x.1);
                }
                (lo, hi)
            }
            K::Mul(f) => {
                let mut x = (1, 1);
                for m in f.iter() {
                    x = imul(x, self.riv_d(st, *m, d - 1));
                }
                x
            }
            K::Div(a, b) => {
                let b = self.riv_d(st, *b, d - 1);
                ifdiv(self.riv_d(st, *a, d - 1), b)
            }
            K::TDiv(a, b) => itdiv(self.riv_d(st, *a, d - 1), self.riv_d(st, *b, d - 1)),
            K::Ite(c, a, b) => match self.decide_weak(st, *c, d - 1) {
                Some(true) => self.riv_d(st, *a, d - 1),
                Some(false) => self.riv_d(st, *b, d - 1),
                None => {
                    let (x, y) = (self.riv_d(st, *a, d - 1), self.riv_d(st, *b, d - 1));
                    (x.0.min(y.0), x.1.max(y.1))
                }
            },
            K::Sel(i, v) => {
                let (l, h) = self.riv_d(st, *i, d - 1);
                let l = l.clamp(0, v.len() as i128 - 1) as usize;
                let h = h.clamp(0, v.len() as i128 - 1) as usize;
                if l > h {
                    return r;
                }
                let mut x = self.riv_d(st, v[l], (d - 1).min(2));
                for m in &v[l..=h] {
                    let y = self.riv_d(st, *m, (d - 1).min(2));
                    x = (x.0.min(y.0), x.1.max(y.1));
                }
                x
            }
            K::Bits(b) => {
                // a slice of one refined node
                let mut lo = 0;
                let mut hi = 0;
                let mut i = 0;
                while i < b.len() {
                    match b[i] {
                        BR::Zero => i += 1,
                        BR::One => {
                            lo += 1i128 << i;
                            hi += 1i128 << i;
                            i += 1;
                        }
                        BR::Bit(m, p) => {
                            let mut j = i + 1;
                            while j < b.len() && b[j] == BR::Bit(m, p + (j - i) as u8) {
                                j += 1;
                            }
                            let w = j - i;
                            let sub = if p == 0 && i == 0 && j == b.len() { None } else { Some(()) };
                            let x = if sub.is_some() || true {
                                let mr = self.riv_d(st, m, d - 1);
                                let (mut l, mut h) = (0i128, (1i128 << w) - 1);
                                if mr.0 >= 0 && (mr.0 >> (p as usize + w)) == (mr.1 >> (p as usize + w)) {
                                    l = (mr.0 >> p) & ((1 << w) - 1);
                                    h = (mr.1 >> p) & ((1 << w) - 1);
                                }
                                // the same slice may itself be refined
                                let sn = mk_bits((0..w).map(|q| BR::Bit(m, p + q as u8)).collect());
                                if let Some(y) = st.refine.get(&sn) {
                                    l = l.max(y.0);
                                    h = h.min(y.1);
                                }
                                (l, h)
                            } else {
                                (0, (1i128 << w) - 1)
                            };
                            lo += x.0 << i;
                            hi += x.1 << i;
                            i = j;
                        }
                    }
                }
                (lo, hi)
            }
            K::Op(o, a, w) => {
                let v: Vec<_> = a.iter().map(|x| self.riv_d(st, *x, d - 1)).collect();
                op_iv(*o, &v, *w)
            }
            _ => r,
        };
        r = (r.0.max(c.0), r.1.min(c.1));
        if let K::Lin(..) = k(n) {
            // the negated or shifted form may be the refined one
            let m = self.lin_alias(st, n);
            r = (r.0.max(m.0), r.1.min(m.1));
        }
        r
    }
    /// facts about a linear form are stored on its constant-free part
    fn lin_alias(&self, st: &State, n: N) -> (i128, i128) {
        if let K::Lin(_, c) = k(n) {
            let c = *c;
            let base = if c != 0 { sub(n, cst(c)) } else { n };
            let mut lo = -INF;
            let mut hi = INF;
            if base != n {
                if let Some((l, h)) = st.refine.get(&base) {
                    lo = sadd(*l, c);
                    hi = sadd(*h, c);
                }
            }
            let neg = mulc(base, -1);
            if let Some((l, h)) = st.refine.get(&neg) {
                lo = lo.max(sadd(-*h, c));
                hi = hi.min(sadd(-*l, c));
            }
            return (lo, hi);
        }
        (-INF, INF)
    }
    fn decide_weak(&self, st: &State, c: N, d: u32) -> Option<bool> {
        if let Some(x) = konst(c) {
            return Some(x != 0);
        }
        if let Some(m) = neg_of(c) {
            return self.decide_weak(st, m, d).map(|x| !x);
        }
        if let Some((lo, hi)) = st.refine.get(&c) {
            if lo == hi {
                return Some(*lo != 0);
            }
        }
        match k(c) {
            K::Lt(a, b) => {
                let (x, y) = (self.riv_d(st, *a, d), self.riv_d(st, *b, d));
                if x.1 < y.0 {
                    return Some(true);
                }
                if x.0 >= y.1 {
                    return Some(false);
                }
                if konst(*b).is_none() {
                    let df = sub(*a, *b);
                    let z = self.riv_d(st, df, d);
                    if z.1 < 0 {
                        return Some(true);
                    }
                    if z.0 >= 0 {
                        return Some(false);
                    }
                }
                None
            }
            K::Eq(a, b) => {
                let (x, y) = (self.riv_d(st, *a, d), self.riv_d(st, *b, d));
                if x.1 < y.0 || y.1 < x.0 {
                    return Some(false);
                }
                if x.0 == x.1 && x == y {
                    return Some(true);
                }
                if konst(*b).is_none() {
                    let df = sub(*a, *b);
                    let z = self.riv_d(st, df, d);
                    if z.0 > 0 || z.1 < 0 {
                        return Some(false);
                    }
                }
                None
            }
            K::And(a, b) => match (self.decide_weak(st, *a, d), self.decide_weak(st, *b, d)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            K::Or(a, b) => match (self.decide_weak(st, *a, d), self.decide_weak(st, *b, d)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            K::Ite(p, a, b) => match self.decide_weak(st, *p, d) {
                Some(true) => self.decide_weak(st, *a, d),
                Some(false) => self.decide_weak(st, *b, d),
                None => match (self.decide_weak(st, *a, d), self.decide_weak(st, *b, d)) {
                    (Some(x), Some(y)) if x == y => Some(x),
                    _ => None,
                },
            },
            _ => {
                let r = self.riv_d(st, c, d);
                if r.0 == r.1 {
                    Some(r.0 != 0)
                } else {
                    None
                }
            }
        }
    }
    pub fn decide(&mut self, st: &State, c: N) -> Option<bool> {
        if let Some(x) = self.decide_weak(st, c, 6) {
            return Some(x);
        }
        self.decide_strong(st, c)
    }
    /// finite-domain check over the input bits the condition depends on
    fn decide_strong(&mut self, st: &State, c: N) -> Option<bool> {
        let sup = support(c);
        if sup.len() > self.strong_bits || sup.iter().any(|x| x.1 == WHOLE) {
            return None;
        }
        let mut rel: Vec<(N, bool)> = vec![];
        let mut all = sup.clone();
        let mut sups: Vec<_> = st.pc.iter().map(|p| (*p, support(p.0))).collect();
        // conditions that share bits, as long as the domain stays small
        loop {
            let mut progress = false;
            sups.retain(|(p, s)| {
                if s.iter().any(|x| x.1 == WHOLE) {
                    return false;
                }
                if s.is_disjoint(&all) {
                    return true;
                }
                let u: std::collections::HashSet<_> = all.union(s).copied().collect();
                if u.len() <= self.strong_bits {
                    all = u;
                    rel.push(*p);
                    progress = true;
                    return false;
                }
                true
            });
            if !progress {
                break;
            }
        }
        rel.sort();
        rel.dedup();
        let key = (c, rel.clone());
        if let Some(x) = self.strong_cache.get(&key) {
            return *x;
        }
        let bits: Vec<(N, u8)> = all.into_iter().collect();
        let mut roots = vec![c];
        roots.extend(rel.iter().map(|x| x.0));
        let mut ev = Evaluator::new(&roots);
        let (mut t, mut f) = (false, false);
        let mut leaf: HashMap<N, i128> = HashMap::new();
        for m in 0..(1u64 << bits.len()) {
            leaf.clear();
            for (i, (n, b)) in bits.iter().enumerate() {
                *leaf.entry(*n).or_insert(0) |= (((m >> i) & 1) as i128) << b;
            }
            if !ev.run(&leaf) {
                self.strong_cache.insert(key, None);
                return None;
            }
            if rel.iter().any(|(p, v)| (ev.get(*p) != 0) != *v) {
                continue;
            }
            if ev.get(c) != 0 {
                t = true;
            } else {
                f = true;
            }
            if t && f {
                break;
            }
        }
        let r = match (t, f) {
            (true, true) => None,
            (true, false) => Some(true),
            (false, _) => Some(false),
        };
        self.strong_cache.insert(key, r);
        r
    }
    /// add a fact; returns false when the state becomes impossible
    pub fn assume(&mut self, st: &mut State, c: N, v: bool) -> bool {
        if let Some(x) = konst(c) {
            return (x != 0) == v;
        }
        if let Some(m) = neg_of(c) {
            return self.assume(st, m, !v);
        }
        st.pc.push((c, v));
        let mut rf = (*st.refine).clone();
        let ok = self.refine_fact(st, &mut rf, c, v);
        st.refine = Rc::new(rf);
        ok
    }
    fn refine_fact(&self, st: &State, rf: &mut Refine, c: N, v: bool) -> bool {
        if let Some(x) = konst(c) {
            return (x != 0) == v;
        }
        if let Some(m) = neg_of(c) {
            return self.refine_fact(st, rf, m, !v);
        }
        rf.insert(c, (v as i128, v as i128));
        match k(c) {
            K::And(a, b) if v => {
                let (a, b) = (*a, *b);
                return self.refine_fact(st, rf, a, true) && self.refine_fact(st, rf, b, true);
            }
            K::Or(a, b) if !v => {
                let (a, b) = (*a, *b);
                return self.refine_fact(st, rf, a, false) && self.refine_fact(st, rf, b, false);
            }
            K::Lt(a, b) => {
                let (a, b) = (*a, *b);
                let (x, y) = (self.riv(st, a), self.riv(st, b));
                if v {
                    // a < b
                    if !self.narrow(st, rf, a, (-INF, y.1 - 1)) || !self.narrow(st, rf, b, (x.0 + 1, INF)) {
                        return false;
                    }
                    if konst(b).is_none() {
                        let d = sub(a, b);
                        return self.narrow(st, rf, d, (-INF, -1));
                    }
                } else {
                    if !self.narrow(st, rf, a, (y.0, INF)) || !self.narrow(st, rf, b, (-INF, x.1)) {
                        return false;
                    }
                    if konst(b).is_none() {
                        let d = sub(a, b);
                        return self.narrow(st, rf, d, (0, INF));
                    }
                }
            }
            K::Eq(a, b) => {
                let (a, b) = (*a, *b);
                let (x, y) = (self.riv(st, a), self.riv(st, b));
                if v {
                    return self.narrow(st, rf, a, y) && self.narrow(st, rf, b, x);
                } else if y.0 == y.1 {
                    if x.0 == y.0 {
                        return self.narrow(st, rf, a, (x.0 + 1, INF));
                    }
                    if x.1 == y.0 {
                        return self.narrow(st, rf, a, (-INF, x.1 - 1));
                    }
                }
            }
            _ => {}
        }
        true
    }
    fn narrow(&self, st: &State, rf: &mut Refine, n: N, r: (i128, i128)) -> bool {
        if konst(n).is_some() {
            let c = konst(n).unwrap();
            return c >= r.0 && c <= r.1;
        }
        let old = rf.get(&n).copied().unwrap_or_else(|| iv(n));
        let cur = self.riv(st, n);
        let nw = (old.0.max(r.0).max(cur.0), old.1.min(r.1).min(cur.1));
        if nw.0 > nw.1 {
            return false;
        }
        rf.insert(n, nw);
        // push through simple shapes
        match k(n) {
            K::Lin(t, c) => {
                if *c != 0 {
                    let base = sub(n, cst(*c));
                    let z = (sadd(nw.0, -*c), sadd(nw.1, -*c));
                    return self.narrow(st, rf, base, z);
                }
                // every term gets what the others leave
                let t = t.clone();
                if t.len() <= 6 {
                    let ivs: Vec<(i128, i128)> = t
                        .iter()
                        .map(|(m, b, f)| {
                            let x = if *b == WHOLE { rf.get(m).copied().unwrap_or_else(|| self.riv(st, *m)) } else { (0, 1) };
                            imul(x, (*f, *f))
                        })
                        .collect();
                    for (i, (m, b, f)) in t.iter().enumerate() {
                        if *b != WHOLE {
                            continue;
                        }
                        let mut lo = nw.0;
                        let mut hi = nw.1;
                        for (j, x) in ivs.iter().enumerate() {
                            if j != i {
                                lo = sadd(lo, -x.1);
                                hi = sadd(hi, -x.0);
                            }
                        }
                        // lo <= f*m <= hi
                        let z = if *f > 0 {
                            (if lo <= -INF { -INF } else { -((-lo).div_euclid(*f)) }, if hi >= INF { INF } else { hi.div_euclid(*f) })
                        } else {
                            let g = -*f;
                            (if hi >= INF { -INF } else { -(hi.div_euclid(g)) }, if lo <= -INF { INF } else { (-lo).div_euclid(g) })
                        };
                        if matches!(k(*m), K::Lin(..)) {
                            continue;
                        }
                        let o = rf.get(m).copied().unwrap_or_else(|| iv(*m));
                        let w = (o.0.max(z.0), o.1.min(z.1));
                        if w.0 > w.1 {
                            return false;
                        }
                        if w != o {
                            rf.insert(*m, w);
                        }
                    }
                }
            }
            K::Div(a, b) => {
                // lo <= a div d <= hi
                if let Some(d) = konst(*b) {
                    let z = (smul(nw.0, d), if nw.1 >= INF { INF } else { smul(nw.1, d) + d - 1 });
                    let a = *a;
                    return self.narrow(st, rf, a, z);
                }
            }
            _ => {}
        }
        true
    }

    // ------------------------------------------------------------ issues
    pub fn chain(&self, st: &State) -> Vec<String> {
        st.frames.iter().map(|f| format!("{} (from {})", f.body.name, f.line)).collect()
    }
    fn issue(&mut self, st: &State, kind: IssueKind, what: String, line: String) {
        // report the innermost function of the analysed crate
        let mut func = String::new();
        let mut l = line;
        for f in st.frames.iter().rev() {
            if f.body.local_crate {
                func = f.body.name.clone();
                break;
            }
            l = f.line.to_string();
        }
        if self.trace {
            eprintln!("issue {kind:?} {what} in {func} at {l}");
        }
        let chain = st.frames.iter().filter(|f| f.body.local_crate).map(|f| f.body.name.clone()).collect();
        self.issues.insert(Issue { kind, what, func, line: l, chain, cond: st.pc.clone() });
    }
    pub fn memory_issue(&mut self, st: &State, what: String) {
        let l = st.frames.last().map(|f| f.line.to_string()).unwrap_or_default();
        self.issue(st, IssueKind::Memory, what, l);
    }

    // ------------------------------------------------------------ places and operands
    pub fn place(&mut self, st: &State, p: &Place) -> R<(Ptr, Option<Val>)> {
        let d = (st.frames.len() - 1) as u32;
        let mut ptr = Ptr { a: A::Local(d, p.local as u32), off: cst(0) };
        let mut meta: Option<Val> = None;
        for e in &p.proj {
            match e {
                PElem::Deref { fat } => {
                    let pb = self.lw.ptr_bytes;
                    let v = self.load(st, ptr, pb)?;
                    let m = if *fat { Some(self.load(st, Ptr { a: ptr.a, off: add(ptr.off, cst(pb as i128)) }, pb)?) } else { None };
                    ptr = match v {
                        Val::Ptr(q) => q,
                        Val::Sc(n) if konst(n).is_some() => Ptr { a: A::Glob(1), off: n },
                        _ => return unsup("dereference of a non-pointer"),
                    };
                    meta = m;
                }
                PElem::Field(o) => {
                    ptr.off = add(ptr.off, cst(*o as i128));
                }
                PElem::Index { local, el } => {
                    let sz = self.lw.ptr_bytes;
                    let i = match self.load(st, Ptr { a: A::Local(d, *local as u32), off: cst(0) }, sz)? {
                        Val::Sc(n) => n,
                        _ => return unsup("index"),
                    };
                    let i = self.resolve(st, i);
                    ptr.off = add(ptr.off, mulc(i, *el as i128));
                    meta = None;
                }
                PElem::ConstIdx { off, from_end, el, arr } => {
                    let i = if *from_end {
                        let l = match (arr, meta) {
                            (Some(n), _) => cst(*n as i128),
                            (_, Some(Val::Sc(n))) => n,
                            _ => return unsup("slice pattern"),
                        };
                        sub(l, cst(*off as i128))
                    } else {
                        cst(*off as i128)
                    };
                    ptr.off = add(ptr.off, mulc(i, *el as i128));
                    meta = None;
                }
                PElem::Subslice { from, to, from_end, el, arr } => {
                    let l = match (arr, meta) {
                        (Some(n), _) => cst(*n as i128),
                        (_, Some(Val::Sc(n))) => n,
                        _ => return unsup("slice pattern"),
                    };
                    let nl = if *from_end { sub(l, cst((*from + *to) as i128)) } else { cst((*to - *from) as i128) };
                    ptr.off = add(ptr.off, cst((*from * *el) as i128));
                    meta = Some(Val::Sc(nl));
                }
            }
        }
        Ok((ptr, meta))
    }
    /// replace a value that the path conditions pin down by its constant
    pub fn resolve(&self, st: &State, n: N) -> N {
        if konst(n).is_some() || st.refine.is_empty() {
            return n;
        }
        let r = self.riv(st, n);
        if r.0 == r.1 {
            cst(r.0)
        } else {
            n
        }
    }
    pub fn read(&mut self, st: &State, p: Ptr, ti: TI) -> R<V> {
        if ti.size == 0 {
            return Ok(V::Zst);
        }
        Ok(match ti.kind {
            TK::Int(..) | TK::Float(_) | TK::Thin => V::Sc(self.load(st, p, ti.size)?),
            TK::Fat => {
                let pb = self.lw.ptr_bytes;
                let a = self.load(st, p, pb)?;
                let b = self.load(st, Ptr { a: p.a, off: add(p.off, cst(pb as i128)) }, pb)?;
                V::Pair(a, b)
            }
            TK::Agg => V::Blob(Rc::new(self.load_cells(st, p, ti.size)?)),
        })
    }
    pub fn write(&mut self, st: &mut State, p: Ptr, ti: TI, v: &V) -> R<()> {
        if ti.size == 0 {
            return Ok(());
        }
        match v {
            V::Zst => Ok(()),
            V::Sc(x) => self.store(st, p, ti.size, *x),
            V::Pair(a, b) => {
                let pb = self.lw.ptr_bytes;
                self.store(st, p, pb, *a)?;
                self.store(st, Ptr { a: p.a, off: add(p.off, cst(pb as i128)) }, pb, *b)
            }
            V::Blob(c) => self.store_cells(st, p, ti.size, &c.clone()),
        }
    }
    pub fn operand(&mut self, st: &State, o: &Opd) -> R<V> {
        Ok(match o {
            Opd::Place(p) => {
                let (ptr, _) = self.place(st, p)?;
                self.read(st, ptr, p.ti)?
            }
            Opd::Int(c, _) => sc(cst(*c)),
            Opd::Zst | Opd::FnItem => V::Zst,
            Opd::Ptr(a, off) => V::Sc(Val::Ptr(Ptr { a: A::Glob(a.0.get()), off: cst(*off as i128) })),
            Opd::Slice(a, m) => V::Pair(Val::Ptr(Ptr { a: A::Glob(a.0.get()), off: cst(0) }), Val::Sc(cst(*m as i128))),
            Opd::FnPtr(i) => V::Sc(Val::Fn(*i)),
            Opd::Blob(a, off, ti) => {
                let p = Ptr { a: A::Glob(a.0.get()), off: cst(*off as i128) };
                self.read(st, p, *ti)?
            }
            Opd::Unsup(s) => return unsup(s.clone()),
        })
    }
    /// integer operand in the range of its type
    pub fn int(&mut self, st: &State, o: &Opd, ti: TI) -> R<N> {
        let v = self.operand(st, o)?;
        self.as_int_in(st, &v, ti)
    }
    /// like `as_int`, using what the branch conditions say about the value
    pub fn as_int_in(&self, st: &State, v: &V, ti: TI) -> R<N> {
        if let (V::Sc(Val::Sc(n)), false) = (v, st.refine.is_empty()) {
            let (w, s) = match ti.kind {
                TK::Int(w, s) => (w, s),
                _ => ((ti.size * 8) as u8, false),
            };
            if w >= 32 {
                let fits = |r: (i128, i128)| if s { r.0 >= -(1i128 << (w - 1)) && r.1 < (1i128 << (w - 1)) } else { r.0 >= 0 && r.1 < (1i128 << w) };
                if !fits(iv(*n)) {
                    if fits(self.riv(st, *n)) {
                        return Ok(*n);
                    }
                } else if let K::Bits(b) = k(*n) {
                    // a wrapped value that is now known not to have wrapped
                    if b.len() == w as usize {
                        if let BR::Bit(m, p) = b[b.len() - 1] {
                            if p as usize == b.len() - 1
                                && matches!(k(m), K::Lin(..) | K::Mul(..))
                                && (0..b.len()).all(|i| bit(m, i as u32) == b[i])
                                && fits(self.riv(st, m))
                            {
                                return Ok(m);
                            }
                        }
                    }
                }
            }
        }
        self.as_int(v, ti)
    }
    pub fn as_int(&self, v: &V, ti: TI) -> R<N> {
        match v {
            V::Sc(Val::Sc(n)) => Ok(match ti.kind {
                TK::Int(w, s) => wrap(*n, w, s),
                _ => wrap(*n, (ti.size * 8) as u8, false),
            }),
            V::Sc(Val::Undef) => unsup("use of an uninitialised value"),
            V::Blob(c) if c.len() == 1 && c[0].0 == 0 => match c[0].2 {
                Val::Sc(n) => Ok(wrap(n, (ti.size * 8) as u8, matches!(ti.kind, TK::Int(_, true)))),
                _ => unsup("integer expected"),
            },
            _ => unsup("integer expected"),
        }
    }

    // ------------------------------------------------------------ rvalues
    fn binop(&mut self, st: &State, op: BinOp, a: &V, b: &V, ta: TI, tb: TI, esz: u64) -> R<N> {
        // pointers
        let pa = matches!(a, V::Sc(Val::Ptr(_)) | V::Sc(Val::Fn(_)) | V::Pair(..));
        let pb = matches!(b, V::Sc(Val::Ptr(_)) | V::Sc(Val::Fn(_)) | V::Pair(..));
        if pa || pb || matches!(ta.kind, TK::Thin | TK::Fat) {
            return self.ptr_cmp(st, op, a, b);
        }
        let _ = esz;
        if let TK::Float(w) = ta.kind {
            let x = self.as_int_in(st, a, ta)?;
            let y = self.as_int_in(st, b, tb)?;
            let f = |o, p, q, ww| crate::node::op(o, &[p, q], ww);
            return Ok(match op {
                BinOp::Add => f(OpK::FAdd, x, y, w),
                BinOp::Sub => f(OpK::FSub, x, y, w),
                BinOp::Mul => f(OpK::FMul, x, y, w),
                BinOp::Div => f(OpK::FDiv, x, y, w),
                BinOp::Lt => wrap(f(OpK::FLt, x, y, w), 1, false),
                BinOp::Gt => wrap(f(OpK::FLt, y, x, w), 1, false),
                BinOp::Le => wrap(f(OpK::FLe, x, y, w), 1, false),
                BinOp::Ge => wrap(f(OpK::FLe, y, x, w), 1, false),
                BinOp::Eq => wrap(f(OpK::FEq, x, y, w), 1, false),
                BinOp::Ne => not(wrap(f(OpK::FEq, x, y, w), 1, false)),
                _ => return unsup("float operation"),
            });
        }
        let x = self.as_int_in(st, a, ta)?;
        let y = self.as_int_in(st, b, tb)?;
        let (w, s) = match ta.kind {
            TK::Int(w, s) => (w, s),
            _ => ((ta.size * 8) as u8, false),
        };
        let r = match op {
            BinOp::Add | BinOp::AddUnchecked => add(x, y),
            BinOp::Sub | BinOp::SubUnchecked => sub(x, y),
            BinOp::Mul | BinOp::MulUnchecked => mul(x, y),
            BinOp::Div => {
                let r = if s || iv(x).0 < 0 { tdiv(x, y) } else { fdiv(x, y) };
                match &mut self.naming {
                    Some(m) if konst(y).is_some() && has_product(x) => m.name(r),
                    _ => r,
                }
            }
            BinOp::Rem => {
                if let (Some(_), _) = (konst(y), 0) {
                    trem(x, y)
                } else {
                    let r = self.riv(st, x);
                    let q = self.riv(st, y);
                    if r.0 >= 0 && q.0 > r.1 {
                        x
                    } else {
                        trem(x, y)
                    }
                }
            }
            BinOp::BitAnd => self.bw(x, y, w, s, 0),
            BinOp::BitOr => self.bw(x, y, w, s, 1),
            BinOp::BitXor => self.bw(x, y, w, s, 2),
            BinOp::Shl | BinOp::ShlUnchecked | BinOp::Shr | BinOp::ShrUnchecked => {
                let left = matches!(op, BinOp::Shl | BinOp::ShlUnchecked);
                let y = self.resolve(st, y);
                let r = self.shift(st, x, y, w, s, left)?;
                if !left && konst(y).is_some() && has_product(x) {
                    return Ok(self.naming.as_mut().map_or(r, |m| m.name(r)));
                }
                return Ok(r);
            }
            BinOp::Eq => eq(x, y),
            BinOp::Ne => not(eq(x, y)),
            BinOp::Lt => lt(x, y),
            BinOp::Le => le(x, y),
            BinOp::Gt => lt(y, x),
            BinOp::Ge => le(y, x),
            BinOp::Cmp => {
                return Ok(sub(lt(y, x), lt(x, y)));
            }
            _ => return unsup(format!("{op:?}")),
        };
        Ok(match op {
            BinOp::Add | BinOp::Sub | BinOp::Mul | BinOp::Div => {
                let r2 = self.riv(st, r);
                let fits = if s { r2.0 >= -(1i128 << (w - 1)) && r2.1 < (1i128 << (w - 1)) } else { r2.0 >= 0 && r2.1 < (1i128 << w) };
                if fits {
                    r
                } else {
                    wrap(r, w, s)
                }
            }
            _ => r,
        })
    }
    fn bw(&mut self, x: N, y: N, w: u8, s: bool, o: u8) -> N {
        let f = |p, q| match o {
            0 => band(p, q, w),
            1 => bor(p, q, w),
            _ => bxor(p, q, w),
        };
        if !s || (iv(x).0 >= 0 && iv(y).0 >= 0) {
            return f(wrap(x, w, false), wrap(y, w, false));
        }
        // signed operands: operate on the pattern, read back signed
        wrap(f(wrap(x, w, false), wrap(y, w, false)), w, true)
    }
    fn shift(&mut self, st: &State, x: N, y: N, w: u8, s: bool, left: bool) -> R<N> {
        if let Some(c) = konst(y) {
            let c = (c.rem_euclid(w as i128)) as u8;
            if left {
                let u = slice(wrap(x, w, false), 0, w - c);
                let r = mulc(u, 1i128 << c);
                // exact when it fits
                let e = mulc(x, 1i128 << c);
                let er = iv(e);
                if s && er.0 >= -(1i128 << (w - 1)) && er.1 < (1i128 << (w - 1)) {
                    return Ok(e);
                }
                return Ok(wrap(r, w, s));
            }
            return Ok(fdiv(x, cst(1i128 << c)));
        }
        // symbolic distance: one case per distance
        let (lo, hi) = self.riv(st, y);
        let hi = hi.min(w as i128 - 1);
        let lo = lo.max(0);
        if hi - lo > 127 || lo > hi {
            return unsup("shift distance");
        }
        let mut v = vec![];
        for i in 0..=hi {
            let i = i.max(lo);
            v.push(self.shift(st, x, cst(i), w, s, left)?);
        }
        Ok(sel(y, v))
    }
    fn ptr_cmp(&mut self, st: &State, op: BinOp, a: &V, b: &V) -> R<N> {
        let (x, y) = match (a, b) {
            (V::Sc(x), V::Sc(y)) => (*x, *y),
            (V::Pair(x, _), V::Pair(y, _)) => (*x, *y),
            _ => return unsup("pointer operation"),
        };
        let _ = st;
        match (x, y) {
            (Val::Ptr(p), Val::Ptr(q)) if p.a == q.a => Ok(match op {
                BinOp::Eq => eq(p.off, q.off),
                BinOp::Ne => not(eq(p.off, q.off)),
                BinOp::Lt => lt(p.off, q.off),
                BinOp::Le => le(p.off, q.off),
                BinOp::Gt => lt(q.off, p.off),
                BinOp::Ge => le(q.off, p.off),
                BinOp::Sub | BinOp::SubUnchecked => sub(p.off, q.off),
                _ => return unsup("pointer operation"),
            }),
            (Val::Ptr(_) | Val::Fn(_), Val::Sc(n)) | (Val::Sc(n), Val::Ptr(_) | Val::Fn(_)) if konst(n) == Some(0) => match op {
                BinOp::Eq => Ok(cst(0)),
                BinOp::Ne => Ok(cst(1)),
                _ => unsup("pointer operation"),
            },
            (Val::Ptr(_), Val::Ptr(_)) => match op {
                BinOp::Eq => Ok(cst(0)),
                BinOp::Ne => Ok(cst(1)),
                _ => unsup("comparison of unrelated pointers"),
            },
            (Val::Fn(p), Val::Fn(q)) => match op {
                BinOp::Eq => Ok(cst((p == q) as i128)),
                BinOp::Ne => Ok(cst((p != q) as i128)),
                _ => unsup("pointer operation"),
            },
            (Val::Sc(m), Val::Sc(n)) => Ok(match op {
                BinOp::Eq => eq(m, n),
                BinOp::Ne => not(eq(m, n)),
                BinOp::Lt => lt(m, n),
                BinOp::Le => le(m, n),
                BinOp::Gt => lt(n, m),
                BinOp::Ge => le(n, m),
                BinOp::Sub => sub(m, n),
                BinOp::Add => add(m, n),
                _ => return unsup("pointer operation"),
            }),
            _ => unsup("pointer operation"),
        }
    }
    fn cast(&mut self, st: &State, k: CastK, v: &V, from: TI, to: TI) -> R<V> {
        Ok(match k {
            CastK::Int => {
                let x = self.as_int_in(st, v, from)?;
                match to.kind {
                    TK::Int(w, s) => {
                        // a refined value may already fit
                        let r = self.riv(st, x);
                        let fits = if s { r.0 >= -(1i128 << (w - 1)) && r.1 < (1i128 << (w - 1)) } else { r.0 >= 0 && r.1 < (1i128 << w) };
                        sc(if fits { x } else { wrap(x, w, s) })
                    }
                    _ => return unsup("int cast"),
                }
            }
            CastK::FloatToInt => {
                let x = self.as_int_in(st, v, from)?;
                let fw = match from.kind {
                    TK::Float(w) => w,
                    _ => return unsup("float cast"),
                };
                match to.kind {
                    TK::Int(w, s) => sc(op(OpK::FToI(w, s), &[x], fw)),
                    _ => return unsup("float cast"),
                }
            }
            CastK::IntToFloat => {
                let x = self.as_int_in(st, v, from)?;
                sc(op(OpK::IToF(true), &[x], (to.size * 8) as u8))
            }
            CastK::FloatToFloat => {
                let x = self.as_int_in(st, v, from)?;
                sc(op(OpK::FToF((from.size * 8) as u8, (to.size * 8) as u8), &[x], (to.size * 8) as u8))
            }
            CastK::Ptr => match (v, to.kind) {
                (V::Pair(a, _), TK::Thin) => V::Sc(*a),
                (x, _) => x.clone(),
            },
            CastK::Unsize(n) => match v {
                V::Sc(p) => V::Pair(*p, Val::Sc(cst(n as i128))),
                V::Blob(c) if c.len() == 1 => V::Pair(c[0].2, Val::Sc(cst(n as i128))),
                _ => return unsup("unsize"),
            },
            CastK::UnsizeDyn(id) => match v {
                V::Sc(p) => V::Pair(*p, Val::Fn(DYN + id)),
                V::Blob(c) if c.len() == 1 => V::Pair(c[0].2, Val::Fn(DYN + id)),
                _ => return unsup("unsize"),
            },
            CastK::PtrInt => v.clone(),
            CastK::Transmute => self.retype(v, from, to)?,
        })
    }
    /// reinterpret the bytes of a value as another type
    pub fn retype(&mut self, v: &V, from: TI, to: TI) -> R<V> {
        if to.size == 0 {
            return Ok(V::Zst);
        }
        let pb = self.lw.ptr_bytes as u32;
        let cells: Vec<(u32, u8, Val)> = match v {
            V::Zst => vec![],
            V::Sc(x) => vec![(0, from.size as u8, *x)],
            V::Pair(a, b) => vec![(0, pb as u8, *a), (pb, pb as u8, *b)],
            V::Blob(c) => c.to_vec(),
        };
        match to.kind {
            TK::Agg => Ok(V::Blob(Rc::new(cells))),
            _ => {
                // go through a scratch allocation
                let mut st = State { frames: vec![], ext: vec![], pc: vec![], refine: Rc::new(HashMap::new()), events: Rc::new(vec![]), tag: 0 };
                st.ext.push(Rc::new(Alloc { size: cst(to.size as i128), cells, kind: AK::Exact, name: "transmute".into() }));
                self.read(&st, Ptr { a: A::Ext(0), off: cst(0) }, to)
            }
        }
    }

    pub fn write_disc(&mut self, st: &mut State, p: Ptr, d: &Disc, var: u32) -> R<()> {
        match d {
            Disc::Single(_) => Ok(()),
            Disc::Direct { off, size, map, .. } => {
                let v = map.iter().find(|x| x.0 == var).map(|x| x.1).unwrap_or(var as i128);
                self.store(st, Ptr { a: p.a, off: add(p.off, cst(*off as i128)) }, *size, Val::Sc(cst(v)))
            }
            Disc::Niche { off, size, untagged, start, niche_start, .. } => {
                if var as i128 != *untagged {
                    let v = (var as i128 - start + niche_start).rem_euclid(1i128 << (*size * 8).min(100));
                    self.store(st, Ptr { a: p.a, off: add(p.off, cst(*off as i128)) }, *size, Val::Sc(cst(v)))?;
                }
                Ok(())
            }
            Disc::Unsup => unsup("discriminant"),
        }
    }
    pub fn read_disc(&mut self, st: &State, p: Ptr, d: &Disc) -> R<N> {
        match d {
            Disc::Single(v) => Ok(cst(*v)),
            Disc::Direct { off, size, signed, .. } => match self.load(st, Ptr { a: p.a, off: add(p.off, cst(*off as i128)) }, *size)? {
                Val::Sc(n) => Ok(wrap(n, (*size * 8) as u8, *signed)),
                _ => unsup("discriminant of an uninitialised value"),
            },
            Disc::Niche { off, size, untagged, start, end, niche_start } => {
                match self.load(st, Ptr { a: p.a, off: add(p.off, cst(*off as i128)) }, *size)? {
                    Val::Ptr(_) | Val::Fn(_) => Ok(cst(*untagged)),
                    Val::Sc(n) => {
                        let w = (*size * 8) as u8;
                        let rel = wrap(sub(wrap(n, w, false), cst(*niche_start)), w, false);
                        let cnt = end - start + 1;
                        Ok(ite(lt(rel, cst(cnt)), add(rel, cst(*start)), cst(*untagged)))
                    }
                    Val::Undef => unsup("discriminant of an uninitialised value"),
                }
            }
            Disc::Unsup => unsup("discriminant"),
        }
    }

    fn assign(&mut self, st: &mut State, pl: &Place, rv: &Rv) -> R<()> {
        let ti = pl.ti;
        match rv {
            Rv::BinOv(op, a, b, t, o0, o1) => {
                let x = self.int(st, a, *t)?;
                let y = self.int(st, b, *t)?;
                let (w, s) = match t.kind {
                    TK::Int(w, s) => (w, s),
                    _ => return unsup("overflow op"),
                };
                let e = match op {
                    BinOp::AddWithOverflow => add(x, y),
                    BinOp::SubWithOverflow => sub(x, y),
                    _ => mul(x, y),
                };
                let (lo, hi) = if s { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, (1i128 << w) - 1) };
                let ov = or(lt(e, cst(lo)), lt(cst(hi), e));
                let (p, _) = self.place(st, pl)?;
                let fits = self.decide_weak(st, ov, 6) == Some(false);
                // the wrapped value is only consumed when the overflow flag is false or the
                // caller asked for wrapping explicitly
                let r = if fits { e } else { Self::ov_value(e, w, s) };
                self.store(st, Ptr { a: p.a, off: add(p.off, cst(*o0 as i128)) }, t.size, Val::Sc(r))?;
                self.store(st, Ptr { a: p.a, off: add(p.off, cst(*o1 as i128)) }, 1, Val::Sc(if fits { cst(0) } else { ov }))
            }
            Rv::Agg(fs, d) => {
                // evaluate first: operands may read the destination
                let mut vs = vec![];
                for (o, x) in fs {
                    let v = self.operand(st, x)?;
                    let sz = match x {
                        Opd::Place(p) => p.ti,
                        Opd::Int(_, t) | Opd::Blob(_, _, t) => *t,
                        Opd::Ptr(..) | Opd::FnPtr(_) => TI { size: self.lw.ptr_bytes, kind: TK::Thin, unsized_: false },
                        Opd::Slice(..) => TI { size: 2 * self.lw.ptr_bytes, kind: TK::Fat, unsized_: false },
                        _ => TI { size: 0, kind: TK::Agg, unsized_: false },
                    };
                    vs.push((*o, v, sz));
                }
                let (p, _) = self.place(st, pl)?;
                if let (A::Local(..), Some(0)) = (p.a, konst(p.off)) {
                    let al = self.alloc_mut(st, p.a)?;
                    if konst(al.size) == Some(ti.size as i128) {
                        al.cells.clear();
                    }
                }
                for (o, v, t) in vs {
                    self.write(st, Ptr { a: p.a, off: add(p.off, cst(o as i128)) }, t, &v)?;
                }
                if let Some((d, var)) = d {
                    self.write_disc(st, p, d, *var)?;
                }
                Ok(())
            }
            Rv::Repeat(o, n, el) => {
                let v = self.operand(st, o)?;
                let (p, _) = self.place(st, pl)?;
                let t = match o {
                    Opd::Place(p) => p.ti,
                    Opd::Int(_, t) | Opd::Blob(_, _, t) => *t,
                    _ => TI { size: *el, kind: TK::Agg, unsized_: false },
                };
                if *n > 65536 {
                    return unsup("large array");
                }
                let mut cells = vec![];
                for i in 0..*n {
                    let b = (i * el) as u32;
                    match &v {
                        V::Zst => {}
                        V::Sc(x) => cells.push((b, t.size as u8, *x)),
                        V::Pair(x, y) => {
                            let pb = self.lw.ptr_bytes as u32;
                            cells.push((b, pb as u8, *x));
                            cells.push((b + pb, pb as u8, *y));
                        }
                        V::Blob(c) => {
                            for (o, s, x) in c.iter() {
                                cells.push((b + o, *s, *x));
                            }
                        }
                    }
                }
                self.store_cells(st, p, n * el, &cells)
            }
            _ => {
                let v = self.rvalue(st, rv)?;
                let (p, _) = self.place(st, pl)?;
                self.write(st, p, ti, &v)
            }
        }
    }
    fn ov_value(e: N, w: u8, s: bool) -> N {
        wrap(e, w, s)
    }
    fn rvalue(&mut self, st: &State, rv: &Rv) -> R<V> {
        Ok(match rv {
            Rv::Use(o) => self.operand(st, o)?,
            Rv::Addr(p) => {
                let (ptr, meta) = self.place(st, p)?;
                if p.ti.unsized_ {
                    match meta {
                        Some(m) => V::Pair(Val::Ptr(ptr), m),
                        None => return unsup("reference to an unsized place"),
                    }
                } else {
                    V::Sc(Val::Ptr(ptr))
                }
            }
            Rv::Cast(k, o, a, b) => {
                let v = self.operand(st, o)?;
                self.cast(st, *k, &v, *a, *b)?
            }
            Rv::Bin(BinOp::Offset, a, b, ta, tb, sz) => {
                let v = self.operand(st, a)?;
                let i = self.int(st, b, *tb)?;
                let _ = ta;
                match v {
                    V::Sc(Val::Ptr(p)) => V::Sc(Val::Ptr(Ptr { a: p.a, off: add(p.off, mulc(i, *sz as i128)) })),
                    V::Sc(Val::Sc(n)) => sc(add(n, mulc(i, *sz as i128))),
                    _ => return unsup("pointer offset"),
                }
            }
            Rv::Bin(op, a, b, ta, tb, sz) => {
                let x = self.operand(st, a)?;
                let y = self.operand(st, b)?;
                sc(self.binop(st, *op, &x, &y, *ta, *tb, *sz)?)
            }
            Rv::Not(o, t) => {
                let v = self.operand(st, o)?;
                if t.size == 0 {
                    let x = self.as_int_in(st, &v, TI { size: 1, ..*t })?;
                    sc(not(x))
                } else {
                    let x = self.as_int_in(st, &v, *t)?;
                    // !x = -1 - x, read back in range
                    match t.kind {
                        TK::Int(_, true) => sc(sub(cst(-1), x)),
                        TK::Int(w, false) => sc(bxor(x, cst((1i128 << w) - 1), w)),
                        _ => return unsup("not"),
                    }
                }
            }
            Rv::Neg(o, t) => {
                let v = self.operand(st, o)?;
                let x = self.as_int_in(st, &v, *t)?;
                match t.kind {
                    TK::Int(w, s) => sc(wrap(mulc(x, -1), w, s)),
                    TK::Float(w) => sc(op(OpK::FNeg, &[x], w)),
                    _ => return unsup("neg"),
                }
            }
            Rv::Meta(o) => match self.operand(st, o)? {
                V::Pair(_, m) => V::Sc(m),
                V::Blob(c) if c.len() == 2 => V::Sc(c[1].2),
                V::Sc(_) => V::Zst,
                _ => return unsup("pointer metadata"),
            },
            Rv::Discr(p, d) => {
                let (ptr, _) = self.place(st, p)?;
                sc(self.read_disc(st, ptr, d)?)
            }
            Rv::FatPtr(a, b) => {
                let x = self.operand(st, a)?;
                let y = self.operand(st, b)?;
                let x = match x {
                    V::Sc(x) => x,
                    V::Pair(x, _) => x,
                    V::Blob(c) if c.len() == 1 => c[0].2,
                    _ => return unsup("raw pointer aggregate"),
                };
                match y {
                    V::Sc(y) => V::Pair(x, y),
                    V::Zst => V::Sc(x),
                    _ => return unsup("raw pointer aggregate"),
                }
            }
            Rv::Runtime(b) => sc(cst(*b as i128)),
            Rv::Unsup(s) => return unsup(s.clone()),
            Rv::BinOv(..) | Rv::Agg(..) | Rv::Repeat(..) => unreachable!(),
        })
    }

    // ------------------------------------------------------------ control flow
    pub fn jump(&mut self, st: &mut State, to: usize) {
        let f = st.frames.last_mut().unwrap();
        let from_path_has = f.path.iter().position(|x| x.0 == to as u32);
        let np: Vec<(u32, u32)> = f.body.path[to]
            .iter()
            .map(|h| {
                let old = f.path.iter().find(|x| x.0 == *h).map(|x| x.1).unwrap_or(0);
                (*h, old)
            })
            .collect();
        let mut np = np;
        if from_path_has.is_some() {
            // back edge to the header `to`
            if let Some(x) = np.iter_mut().find(|x| x.0 == to as u32) {
                x.1 += 1;
            }
            // inner loops restart
            let i = np.iter().position(|x| x.0 == to as u32).unwrap();
            for x in &mut np[i + 1..] {
                x.1 = 0;
            }
        }
        f.path = np;
        f.bb = to;
    }
    pub fn push_call(&mut self, st: &mut State, inst: usize, args: Vec<V>, dest: Option<(Ptr, TI)>, target: usize, line: Rc<str>) -> R<()> {
        if st.frames.len() > 60 {
            return unsup("call depth");
        }
        let body = match self.lw.body(inst) {
            Ok(b) => b,
            Err(e) => return unsup(e),
        };
        self.calls_seen.insert(inst);
        let mut f = Frame { locals: vec![None; body.locals.len()], body: body.clone(), inst, bb: 0, dest, target, path: vec![], line };
        if !body.path[0].is_empty() {
            f.path = body.path[0].iter().map(|h| (*h, 0)).collect();
        }
        st.frames.push(f);
        let d = (st.frames.len() - 1) as u32;
        if let Some(sp) = body.spread {
            // arguments from `sp` on are packed into a tuple
            for (i, v) in args.iter().enumerate() {
                let l = i + 1;
                if l < sp {
                    self.write(st, Ptr { a: A::Local(d, l as u32), off: cst(0) }, body.locals[l], v)?;
                }
            }
            if let Some(t) = &body.tuple[sp] {
                for (j, (o, ti)) in t.iter().enumerate() {
                    if let Some(v) = args.get(sp - 1 + j) {
                        self.write(st, Ptr { a: A::Local(d, sp as u32), off: cst(*o as i128) }, *ti, v)?;
                    }
                }
            }
        } else {
            if args.len() != body.nargs {
                return unsup(format!("{} takes {} arguments, {} given", body.name, body.nargs, args.len()));
            }
            for (i, v) in args.iter().enumerate() {
                self.write(st, Ptr { a: A::Local(d, i as u32 + 1), off: cst(0) }, body.locals[i + 1], v)?;
            }
        }
        Ok(())
    }

    /// run one block; the successors are appended to `out`, finished states to `done`
    pub fn step(&mut self, slot: &mut State, out: &mut Vec<State>, done: &mut Vec<(State, V)>) -> R<()> {
        let r = self.step_in(slot, out, done);
        r
    }
    fn step_in(&mut self, st: &mut State, out: &mut Vec<State>, done: &mut Vec<(State, V)>) -> R<()> {
        let body = st.frames.last().unwrap().body.clone();
        let bb = st.frames.last().unwrap().bb;
        let blk = &body.blocks[bb];
        for s in &blk.stmts {
            self.steps += 1;
            match s {
                Stmt::Assign(p, rv) => self.assign(st, p, rv)?,
                Stmt::SetDisc(p, d, v) => {
                    let (ptr, _) = self.place(st, p)?;
                    self.write_disc(st, ptr, d, *v)?;
                }
                Stmt::Assume(o) => {
                    let v = self.operand(st, o)?;
                    if let V::Sc(Val::Sc(n)) = v {
                        if self.decide_weak(st, n, 6).is_none() {
                            let keep = st.pc.clone();
                            if !self.assume(st, n, true) {
                                return Err(Stop::Dead);
                            }
                            st.pc = keep;
                        }
                    }
                }
                Stmt::CopyNonOverlapping(a, b, n, sz) => {
                    let src = self.operand(st, a)?;
                    let dst = self.operand(st, b)?;
                    let n = self.int(st, n, TI { size: self.lw.ptr_bytes, kind: TK::Int((self.lw.ptr_bytes * 8) as u8, false), unsized_: false })?;
                    self.memcpy(st, &src, &dst, n, *sz)?;
                }
                Stmt::Dead(l) => {
                    st.frames.last_mut().unwrap().locals[*l] = None;
                }
            }
        }
        self.steps += 1;
        match &blk.term {
            Term::Goto(t) => {
                self.jump(st, *t);
                out.push(take(st));
            }
            Term::Switch(o, ti, cases, other) => {
                let v = self.operand(st, o)?;
                let n = match v {
                    V::Sc(Val::Ptr(_)) | V::Sc(Val::Fn(_)) => {
                        // null check
                        let t = if cases.iter().any(|c| c.0 == 0) { *other } else { cases[0].1 };
                        self.jump(st, t);
                        out.push(take(st));
                        return Ok(());
                    }
                    _ => self.as_int_in(st, &v, *ti)?,
                };
                let n = self.resolve(st, n);
                let mut cur = take(st);
                for (c, t) in cases {
                    let cond = eq(n, cst(*c));
                    match self.decide(&cur, cond) {
                        Some(true) => {
                            self.jump(&mut cur, *t);
                            out.push(cur);
                            return Ok(());
                        }
                        Some(false) => continue,
                        None => {
                            self.forks += 1;
                            let mut yes = cur.clone();
                            if self.assume(&mut yes, cond, true) {
                                self.jump(&mut yes, *t);
                                out.push(yes);
                            }
                            if !self.assume(&mut cur, cond, false) {
                                return Ok(());
                            }
                        }
                    }
                }
                if matches!(body.blocks[*other].term, Term::Unreachable) && body.blocks[*other].stmts.is_empty() {
                    return Ok(());
                }
                self.jump(&mut cur, *other);
                out.push(cur);
            }
            Term::Return => {
                let d = (st.frames.len() - 1) as u32;
                let ti = body.locals[0];
                let v = if ti.size == 0 { V::Zst } else { self.read(st, Ptr { a: A::Local(d, 0), off: cst(0) }, ti)? };
                let f = st.frames.pop().unwrap();
                match f.dest {
                    Some((p, t)) => {
                        self.write(st, p, t, &v)?;
                        self.jump(st, f.target);
                        out.push(take(st));
                    }
                    None => {
                        if st.frames.is_empty() {
                            done.push((take(st), v));
                        } else {
                            self.jump(st, f.target);
                            out.push(take(st));
                        }
                    }
                }
            }
            Term::Unreachable => {
                return Err(Stop::Dead);
            }
            Term::Assert { cond, expected, msg, target, line } => {
                let v = self.operand(st, cond)?;
                let n = match v {
                    V::Sc(Val::Sc(n)) => n,
                    _ => return unsup("assert condition"),
                };
                let c = if *expected { n } else { not(n) };
                self.asserts_seen.insert((st.frames.last().unwrap().inst, bb));
                match self.decide(st, c) {
                    Some(true) => {
                        self.asserts_ok += 1;
                    }
                    r => {
                        let m = msg.clone();
                        if self.trace {
                            eprintln!("  unproved: {} under {:?}", show(c), st.pc.iter().map(|p| format!("{}{}", if p.1 { "" } else { "!" }, show(p.0))).collect::<Vec<_>>());
                        }
                        let keep = st.pc.clone();
                        st.pc.push((c, false));
                        self.issue(st, IssueKind::Panic, m, line.clone());
                        if r == Some(false) {
                            return Err(Stop::Dead);
                        }
                        st.pc = keep.clone();
                        if !self.assume(st, c, true) {
                            return Err(Stop::Dead);
                        }
                        st.pc = keep;
                    }
                }
                if msg.starts_with("arithmetic overflow") {
                    // no overflow here: the result is the exact one
                    if let Opd::Place(p) = cond {
                        let a = A::Local(st.frames.len() as u32 - 1, p.local as u32);
                        let exact: Vec<(usize, N)> = match self.alloc_of(st, a) {
                            Ok(al) => al.cells.iter().enumerate().filter_map(|(i, c)| match c.2 {
                                Val::Sc(n) => uncut(n).map(|m| (i, m)),
                                _ => None,
                            }).collect(),
                            Err(_) => vec![],
                        };
                        if !exact.is_empty() {
                            let al = self.alloc_mut(st, a)?;
                            for (i, m) in exact {
                                al.cells[i].2 = Val::Sc(m);
                            }
                        }
                    }
                }
                self.jump(st, *target);
                out.push(take(st));
            }
            Term::Call { f, args, dest, target, line, untuple } => {
                self.call(st, f, args, dest, *target, line, *untuple, out)?;
            }
            Term::Resume => return Err(Stop::Dead),
            Term::Unsup(s) => return unsup(s.clone()),
        }
        Ok(())
    }

    fn call(&mut self, st: &mut State, f: &Callee, args: &[(Opd, TI)], dest: &Place, target: Option<usize>, line: &str, untuple: bool, out: &mut Vec<State>) -> R<()> {
        let mut vs = vec![];
        for (o, _) in args {
            vs.push(self.operand(st, o)?);
        }
        let inst = match f {
            Callee::Intrinsic(name, id) => {
                if target.is_none() {
                    self.issue(st, IssueKind::Panic, format!("call to {name}"), line.to_string());
                    return Err(Stop::Dead);
                }
                let tis: Vec<TI> = args.iter().map(|x| x.1).collect();
                match self.intrinsic(st, name, *id, &vs, &tis, dest.ti)? {
                    Some(v) => {
                        let (p, _) = self.place(st, dest)?;
                        self.write(st, p, dest.ti, &v)?;
                        self.jump(st, target.unwrap());
                        out.push(take(st));
                        return Ok(());
                    }
                    None => {
                        // fall back to the library body
                        let (_, ga, d) = self.lw.intrin[*id].clone();
                        let i = ty::Instance::new_raw(d, ga);
                        self.lw.inst_id(i)
                    }
                }
            }
            Callee::Inst(i) => *i,
            Callee::Ptr(o) => match self.operand(st, o)? {
                V::Sc(Val::Fn(i)) if i < DYN => i,
                _ => return unsup("call through an unknown function pointer"),
            },
            Callee::Virtual(m) => {
                let (data, id) = dyn_parts(vs.first())?;
                vs[0] = V::Sc(data);
                match self.lw.dispatch(*m, id) {
                    Some(i) => i,
                    None => return unsup("dynamic call"),
                }
            }
            Callee::DropDyn => {
                let (data, id) = dyn_parts(vs.first())?;
                vs[0] = V::Sc(data);
                let t = self.lw.dyns[id];
                if !t.needs_drop(self.lw.tcx, self.lw.env) {
                    self.jump(st, target.unwrap());
                    out.push(take(st));
                    return Ok(());
                }
                self.lw.inst_id(ty::Instance::resolve_drop_glue(self.lw.tcx, t))
            }
            Callee::Unsup(s) => return unsup(s.clone()),
        };
        let target = match target {
            Some(t) => t,
            None => {
                let n = self.lw.name(inst);
                let short = n.rsplit("::").next().unwrap_or("").to_string();
                self.issue(st, IssueKind::Panic, format!("reachable panic ({short})"), line.to_string());
                return Err(Stop::Dead);
            }
        };
        // spread the argument tuple of a closure call
        if untuple && !vs.is_empty() {
            let last = vs.pop().unwrap();
            let (o, _) = &args[args.len() - 1];
            let fields = self.tuple_fields(o, st)?;
            match last {
                V::Zst => {
                    for _ in fields {
                        vs.push(V::Zst);
                    }
                }
                v => {
                    let (_, lt) = &args[args.len() - 1];
                    let cells = match self.retype(&v, *lt, TI { size: lt.size, kind: TK::Agg, unsized_: false })? {
                        V::Blob(c) => c,
                        _ => return unsup("argument tuple"),
                    };
                    let mut tmp = State { frames: vec![], ext: vec![], pc: vec![], refine: Rc::new(HashMap::new()), events: Rc::new(vec![]), tag: 0 };
                    tmp.ext.push(Rc::new(Alloc { size: cst(lt.size as i128), cells: cells.to_vec(), kind: AK::Exact, name: "tuple".into() }));
                    for (off, ti) in fields {
                        vs.push(self.read(&tmp, Ptr { a: A::Ext(0), off: cst(off as i128) }, ti)?);
                    }
                }
            }
        }
        // hooks
        let h = match self.hook_cache.get(&inst) {
            Some(h) => *h,
            None => {
                let h = self.hook_by.and_then(|f| f(&self.lw.name(inst)));
                self.hook_cache.insert(inst, h);
                h
            }
        };
        if let Some(h) = h {
            if let Hook::Done(v) = h(self, st, inst, &vs)? {
                let (p, _) = self.place(st, dest)?;
                self.write(st, p, dest.ti, &v)?;
                self.jump(st, target);
                out.push(take(st));
                return Ok(());
            }
        }
        let (p, _) = self.place(st, dest)?;
        if let Some(v) = self.allocator(st, inst, &vs)? {
            self.write(st, p, dest.ti, &v)?;
            self.jump(st, target);
            out.push(take(st));
            return Ok(());
        }
        self.push_call(st, inst, vs, Some((p, dest.ti)), target, line.into())?;
        out.push(take(st));
        Ok(())
    }
    /// the global allocator, which always has memory
    fn allocator(&mut self, st: &mut State, inst: usize, vs: &[V]) -> R<Option<V>> {
        let n = self.lw.name(inst);
        let n = n.rsplit("::").next().unwrap_or("");
        Ok(Some(match n {
            "__rust_no_alloc_shim_is_unstable_v2" | "__rust_dealloc" => V::Zst,
            "__rust_alloc" | "__rust_alloc_zeroed" => {
                let size = match &vs[0] {
                    V::Sc(Val::Sc(z)) => *z,
                    _ => return unsup("size of an allocation"),
                };
                let Some(z) = konst(size).filter(|z| *z > 0 && *z < 1 << 28) else { return unsup("allocation of unknown size") };
                let mut cells = vec![];
                if n == "__rust_alloc_zeroed" {
                    for i in 0..z as u32 {
                        cells.push((i, 1, Val::Sc(cst(0))));
                    }
                }
                st.ext.push(Rc::new(Alloc { size, cells, kind: AK::Heap, name: "allocated memory".into() }));
                V::Sc(Val::Ptr(Ptr { a: A::Ext(st.ext.len() as u32 - 1), off: cst(0) }))
            }
            // old pointer, old size, alignment, new size: always moves
            "__rust_realloc" => {
                let (V::Sc(Val::Ptr(old)), V::Sc(Val::Sc(o)), V::Sc(Val::Sc(z))) = (&vs[0], &vs[1], &vs[3]) else { return unsup("size of an allocation") };
                let (old, o, z) = (*old, *o, *z);
                let (Some(oz), Some(nz)) = (konst(o), konst(z).filter(|z| *z > 0 && *z < 1 << 28)) else { return unsup("allocation of unknown size") };
                st.ext.push(Rc::new(Alloc { size: z, cells: vec![], kind: AK::Heap, name: "allocated memory".into() }));
                let new = Ptr { a: A::Ext(st.ext.len() as u32 - 1), off: cst(0) };
                self.memcpy(st, &V::Sc(Val::Ptr(old)), &V::Sc(Val::Ptr(new)), cst(oz.min(nz)), 1)?;
                V::Sc(Val::Ptr(new))
            }
            _ => return Ok(None),
        }))
    }
    fn tuple_fields(&mut self, o: &Opd, st: &State) -> R<Vec<(u64, TI)>> {
        match o {
            Opd::Place(p) if p.proj.is_empty() => match &st.frames.last().unwrap().body.tuple[p.local] {
                Some(t) => Ok(t.clone()),
                None => unsup("argument tuple"),
            },
            Opd::Zst => Ok(vec![]),
            _ => unsup("argument tuple"),
        }
    }

    pub fn memcpy(&mut self, st: &mut State, src: &V, dst: &V, n: N, sz: u64) -> R<()> {
        let (s, d) = match (src, dst) {
            (V::Sc(Val::Ptr(s)), V::Sc(Val::Ptr(d))) => (*s, *d),
            _ => {
                if konst(n) == Some(0) || sz == 0 {
                    return Ok(());
                }
                return unsup("copy through a non-pointer");
            }
        };
        if let A::Ext(i) = d.a {
            if st.ext[i as usize].kind == AK::Event {
                let e = Event { alloc: i, off: d.off, len: mulc(n, sz as i128), src: Src::Copy(s) };
                Rc::make_mut(&mut st.events).push(e);
                return Ok(());
            }
        }
        let n = self.resolve(st, n);
        let n = match konst(n) {
            Some(n) => n as u64,
            None => return unsup(format!("copy of a symbolic length {}", show(n))),
        };
        let c = self.load_cells(st, s, n * sz)?;
        if konst(s.off).is_none() || konst(d.off).is_none() || true {
            // coarse cells keep values whole
            self.store_cells(st, d, n * sz, &c)?;
        }
        Ok(())
    }

    // ------------------------------------------------------------ joining
    fn conj(&self, p: &[(N, bool)]) -> N {
        let mut r = cst(1);
        for (c, v) in p {
            r = and(r, if *v { *c } else { not(*c) });
        }
        r
    }
    pub fn joinval(&self, c: N, a: Val, b: Val) -> Option<Val> {
        if a == b {
            return Some(a);
        }
        match (a, b) {
            (Val::Undef, x) | (x, Val::Undef) => Some(x),
            (Val::Sc(x), Val::Sc(y)) => Some(Val::Sc(ite(c, x, y))),
            (Val::Ptr(p), Val::Ptr(q)) if p.a == q.a => Some(Val::Ptr(Ptr { a: p.a, off: ite(c, p.off, q.off) })),
            _ => None,
        }
    }
    fn join_alloc(&self, c: N, a: &Rc<Alloc>, b: &Rc<Alloc>) -> Option<Rc<Alloc>> {
        if Rc::ptr_eq(a, b) || a == b {
            return Some(a.clone());
        }
        let mut cells = vec![];
        let (mut i, mut j) = (0, 0);
        let (x, y) = (&a.cells, &b.cells);
        while i < x.len() || j < y.len() {
            if i < x.len() && j < y.len() && x[i].0 == y[j].0 && x[i].1 == y[j].1 {
                let v = if x[i].2 == y[j].2 { x[i].2 } else { self.joinval(c, x[i].2, y[j].2)? };
                cells.push((x[i].0, x[i].1, v));
                i += 1;
                j += 1;
                continue;
            }
            // one side only: must not overlap the other
            let take_a = j >= y.len() || (i < x.len() && x[i].0 < y[j].0);
            if take_a {
                if j < y.len() && x[i].0 + x[i].1 as u32 > y[j].0 {
                    return None;
                }
                if let Some(l) = cells.last() {
                    let l: &(u32, u8, Val) = l;
                    if l.0 + l.1 as u32 > x[i].0 {
                        return None;
                    }
                }
                cells.push(x[i]);
                i += 1;
            } else {
                if i < x.len() && y[j].0 + y[j].1 as u32 > x[i].0 {
                    return None;
                }
                if let Some(l) = cells.last() {
                    if l.0 + l.1 as u32 > y[j].0 {
                        return None;
                    }
                }
                cells.push(y[j]);
                j += 1;
            }
        }
        Some(Rc::new(Alloc { size: a.size, cells, kind: a.kind.clone(), name: a.name.clone() }))
    }
    fn try_join(&self, a: &State, b: &State) -> Option<State> {
        if a.frames.len() != b.frames.len() || a.tag != b.tag || a.events != b.events {
            return None;
        }
        for (x, y) in a.frames.iter().zip(&b.frames) {
            if x.inst != y.inst || x.bb != y.bb || x.dest.map(|d| d.0) != y.dest.map(|d| d.0) || x.target != y.target {
                return None;
            }
        }
        let n = a.pc.iter().zip(&b.pc).take_while(|(x, y)| x == y).count();
        let (sa, sb) = (&a.pc[n..], &b.pc[n..]);
        // prefer the gate of the branch where the two states parted
        let (gate, cov) = if sa.len() == 1 && sb.len() == 1 && sa[0].0 == sb[0].0 {
            (if sa[0].1 { sa[0].0 } else { not(sa[0].0) }, cst(1))
        } else {
            let (ca, cb) = (self.conj(sa), self.conj(sb));
            let cov = canon_bool(or(ca, cb));
            let g = if !sa.is_empty() && !sb.is_empty() && sa[0].0 == sb[0].0 && sa[0].1 != sb[0].1 {
                // both sides hold the full branch conditions: the first element separates them
                if sa[0].1 {
                    sa[0].0
                } else {
                    not(sa[0].0)
                }
            } else {
                canon_bool(ca)
            };
            (g, cov)
        };
        let mut frames = Vec::with_capacity(a.frames.len());
        for (x, y) in a.frames.iter().zip(&b.frames) {
            let mut f = x.clone();
            for l in 0..f.locals.len() {
                f.locals[l] = match (&x.locals[l], &y.locals[l]) {
                    (None, None) => None,
                    (Some(p), None) => Some(p.clone()),
                    (None, Some(q)) => Some(q.clone()),
                    (Some(p), Some(q)) => Some(self.join_alloc(gate, p, q)?),
                };
            }
            frames.push(f);
        }
        let mut ext = vec![];
        for (p, q) in a.ext.iter().zip(&b.ext) {
            ext.push(self.join_alloc(gate, p, q)?);
        }
        let mut refine: Refine = HashMap::new();
        for (n, r) in a.refine.iter() {
            if let Some(q) = b.refine.get(n) {
                refine.insert(*n, (r.0.min(q.0), r.1.max(q.1)));
            } else {
                // the other side may imply a bound by itself
                let q = self.riv(b, *n);
                if q != iv(*n) {
                    refine.insert(*n, (r.0.min(q.0), r.1.max(q.1)));
                }
            }
        }
        let mut pc = a.pc[..n].to_vec();
        if konst(cov).is_none() {
            match neg_of(cov) {
                Some(m) => pc.push((m, false)),
                None => pc.push((cov, true)),
            }
        }
        Some(State { frames, ext, pc, refine: Rc::new(refine), events: a.events.clone(), tag: a.tag })
    }

    pub fn key(st: &State) -> Vec<u32> {
        let mut k = vec![];
        for f in &st.frames {
            for (h, i) in &f.path {
                k.push(f.body.pos[*h as usize]);
                k.push(*i);
            }
            k.push(f.body.pos[f.bb]);
            k.push(0);
        }
        k
    }

    /// Run from `st` until every state has returned; joins at equal positions.
    pub fn run(&mut self, st: State) -> Vec<(State, V)> {
        let mut work: BTreeMap<Vec<u32>, Vec<State>> = BTreeMap::new();
        let mut done = vec![];
        work.insert(Self::key(&st), vec![st]);
        let mut live_peak = 0;
        while let Some((key, mut v)) = work.pop_first() {
            // join
            if v.len() > 1 && !self.no_join {
                v = self.join_all(v);
            }
            live_peak = live_peak.max(v.len());
            let _ = key;
            let single = v.len() == 1 && work.is_empty();
            for s in v {
                let mut cur = Some(s);
                while let Some(s) = cur.take() {
                    if self.steps > self.max_steps {
                        self.issue(&s, IssueKind::Unsupported, "analysis budget exhausted".into(), "".into());
                        return done;
                    }
                    if s.frames.last().map(|f| f.path.iter().any(|x| x.1 > self.max_iter)).unwrap_or(false) {
                        self.issue(&s, IssueKind::Unsupported, "loop without a known bound".into(), s.frames.last().unwrap().line.to_string());
                        break;
                    }
                    if self.cut_loops && s.frames.iter().any(|f| !f.path.is_empty()) {
                        self.cuts.push((s, "loop".into()));
                        break;
                    }
                    let mut out = vec![];
                    let mut snapshot = s;
                    match self.step(&mut snapshot, &mut out, &mut done) {
                        Ok(()) => {}
                        Err(Stop::Dead) => {}
                        Err(Stop::Unsup(m)) if self.cut_loops => self.cuts.push((snapshot, m)),
                        Err(Stop::Unsup(m)) => {
                            let l = snapshot.frames.last().unwrap();
                            let line = format!("{} bb{}", l.line, l.bb);
                            let what = format!("cannot analyse: {m}");
                            if self.trace {
                                eprintln!("unsup in {}: {m}", l.body.name);
                            }
                            self.issue(&snapshot, IssueKind::Unsupported, what, line);
                        }
                    }
                    if single && out.len() == 1 {
                        cur = out.pop();
                        continue;
                    }
                    for o in out {
                        work.entry(Self::key(&o)).or_default().push(o);
                    }
                }
            }
            if work.values().map(|x| x.len()).sum::<usize>() > 4000 {
                let s = work.values().next().unwrap()[0].clone();
                self.issue(&s, IssueKind::Unsupported, "too many states".into(), "".into());
                return done;
            }
        }
        // join the results
        done
    }
    fn join_all(&mut self, mut v: Vec<State>) -> Vec<State> {
        // deepest condition stacks first, so branches close inside out
        loop {
            v.sort_by_key(|s| std::cmp::Reverse(s.pc.len()));
            let mut best: Option<(usize, usize, usize)> = None;
            for i in 0..v.len() {
                for j in i + 1..v.len() {
                    let n = v[i].pc.iter().zip(&v[j].pc).take_while(|(x, y)| x == y).count();
                    if best.map(|b| n > b.2).unwrap_or(true) {
                        best = Some((i, j, n));
                    }
                }
            }
            let Some((i, j, _)) = best else { return v };
            // candidates in order of common prefix
            let mut pairs = vec![];
            for a in 0..v.len() {
                for b in a + 1..v.len() {
                    let n = v[a].pc.iter().zip(&v[b].pc).take_while(|(x, y)| x == y).count();
                    pairs.push((n, a, b));
                }
            }
            pairs.sort_by_key(|p| std::cmp::Reverse(p.0));
            let _ = (i, j);
            let mut joined = None;
            for (_, a, b) in pairs {
                if let Some(s) = self.try_join(&v[a], &v[b]) {
                    joined = Some((a, b, s));
                    break;
                }
            }
            match joined {
                Some((a, b, s)) => {
                    self.joins += 1;
                    v.remove(b);
                    v.remove(a);
                    v.push(s);
                    if v.len() == 1 {
                        return v;
                    }
                }
                None => return v,
            }
        }
    }

    /// Join the final states into one (all frames are gone).
    /// names of the functions whose bodies were analysed
    pub fn functions(&self) -> Vec<String> {
        let mut v: Vec<String> = (0..self.lw.insts.len()).filter(|i| self.lw.bodies[*i].is_some()).map(|i| self.lw.name(i)).collect();
        v.sort();
        v.dedup();
        v
    }
    pub fn join_all_pub(&mut self, v: Vec<State>) -> Vec<State> {
        if v.len() <= 1 {
            return v;
        }
        self.join_all(v)
    }
    pub fn join_done(&mut self, done: Vec<(State, V)>) -> Vec<State> {
        let v: Vec<State> = done.into_iter().map(|x| x.0).collect();
        if v.len() <= 1 {
            return v;
        }
        self.join_all(v)
    }
}

fn ite_leaves(n: N, out: &mut Vec<i128>, max: usize) -> bool {
    if out.len() > max {
        return false;
    }
    match k(n) {
        K::Const(c) => {
            out.push(*c);
            true
        }
        K::Ite(_, a, b) => ite_leaves(*a, out, max) && ite_leaves(*b, out, max),
        K::Sel(_, v) => v.iter().all(|x| ite_leaves(*x, out, max)),
        _ => false,
    }
}
