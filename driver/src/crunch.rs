//! Crunch files: what the image becomes, given the symbols of the compressed streams.
//!
//! The symbol codec (bit reading and prefix codes) is replaced by a source of unknown
//! symbols, each named by its place in the file.  The description below says in which
//! order streams are opened, code tables received and symbols read, and which block
//! bytes follow from them.  The symbols that steer the control flow (chunk encodings,
//! references) are given in each case, all others are free in their alphabet.
use crate::blocks::*;
use crate::equal::*;
use crate::image::*;
use crate::interp::*;
use crate::job::*;
use crate::node::*;
use crate::python::{ret_ty, variant, Pay};
use crate::report::*;
use crate::spec;
use rustc_hir::def::DefKind;
use rustc_middle::ty::{Instance, TyCtxt};
use std::cell::RefCell;

type R<T> = Result<T, Stop>;

const DATA: u32 = 0;
const IMAGE: u32 = 1;
const COUNT: u32 = 2;
const TEXT: u32 = 3;
const LEN: i128 = 0x030000;
/// offset and size of the code tables, the palettes and the levels
const TABLES: (i128, i128) = (0x012345, 0x0234);
const COLOR_E: (i128, i128) = (0x010203, 0x010456);
const COLOR_S: (i128, i128) = (0x020304, 0x001789);
const ALPHA_E: (i128, i128) = (0x015566, 0x010078);
const ALPHA_S: (i128, i128) = (0x02089A, 0x000100);
const LEVELS: [i128; 3] = [0x00021222, 0x00023456, 0x0002A0B0];

#[derive(Clone, Debug)]
pub struct Case {
    unity: bool,
    fmt: u32,
    w: u32,
    h: u32,
    faces: u32,
    levels: usize,
    /// color endpoints, color selectors, alpha endpoints, alpha selectors
    n: [u32; 4],
    /// chunk encodings or references, in order
    steer: Vec<u32>,
    /// the event that fails
    fail: Option<usize>,
    native_ok: bool,
    /// a palette whose stream is empty
    empty: Option<usize>,
}
impl Case {
    fn key(&self) -> String {
        let f = match self.fail {
            Some(_) => ", broken stream".to_string(),
            None => String::new(),
        };
        let e = match self.empty {
            Some(i) => format!(", stream {i} empty"),
            None => String::new(),
        };
        let s = match self.steer.first() {
            Some(_) => {
                let mut h = 0u32;
                for x in &self.steer {
                    h = h.wrapping_mul(31).wrapping_add(*x);
                }
                format!("{:04x}", h & 0xffff)
            }
            None => "-".into(),
        };
        format!("{}format {} {}x{} faces {} levels {} palettes {:?} steering {s}{f}{e}{}", if self.unity { "unity " } else { "" }, self.fmt, self.w, self.h, self.faces, self.levels, self.n, if self.native_ok { "" } else { ", refused" })
    }
}

#[derive(Clone, Debug)]
enum Ev {
    Start(i128, i128),
    Recv,
    /// model: position of its Recv
    Sym(usize, N),
}

struct Src {
    ev: Vec<Ev>,
    steer: Vec<u32>,
    next: usize,
    r: Rng,
}
impl Src {
    fn start(&mut self, at: (i128, i128)) {
        self.ev.push(Ev::Start(at.0, at.1));
    }
    fn table(&mut self) -> usize {
        self.ev.push(Ev::Recv);
        self.ev.len() - 1
    }
    /// a symbol of an alphabet of n
    fn sym(&mut self, m: usize, n: u32) -> N {
        let z = if n <= 1 { cst(0) } else { ranged(&format!("symbol {}", self.ev.len()), 0, n as i128 - 1) };
        self.ev.push(Ev::Sym(m, z));
        z
    }
    /// a running sum of w bits: its next value is free and the symbol follows from it
    fn sum(&mut self, m: usize, last: N, w: u8, max: i128) -> N {
        let now = ranged(&format!("number {}", self.ev.len()), 0, max);
        self.ev.push(Ev::Sym(m, low(sub(now, last), w)));
        now
    }
    /// the step from one palette entry to the next in use
    fn delta(&mut self, m: usize, n: u32) -> N {
        let x = self.r.below(n.max(1) as u64) as u32;
        self.ev.push(Ev::Sym(m, cst(x as i128)));
        cst(x as i128)
    }
    fn steer(&mut self, m: usize) -> u32 {
        let x = self.steer[self.next % self.steer.len()];
        self.next += 1;
        self.ev.push(Ev::Sym(m, cst(x as i128)));
        x
    }
}

// ------------------------------------------------------------ the description
fn bytes_of(z: N, n: u32) -> Vec<N> {
    (0..n).map(|i| slice(z, (i * 8) as u8, 8)).collect()
}
/// joined from the lowest part up
fn lows(parts: &[(N, u8)]) -> N {
    let v: Vec<(N, u8)> = parts.iter().rev().cloned().collect();
    spec::cat(&v)
}
fn low(z: N, w: u8) -> N {
    wrap(z, w, false)
}
/// modular running sum
fn step(prev: N, d: N, n: u32) -> N {
    let s = add(prev, d);
    ite(le(cst(n as i128), s), sub(s, cst(n as i128)), s)
}
fn at(pal: &[N], i: N) -> N {
    sel(i, pal.to_vec())
}
/// the codes of a ramp in the order of the ramp: first, last, then between
fn ramp4() -> Vec<N> {
    [0, 2, 3, 1].iter().map(|x| cst(*x)).collect()
}
fn ramp8() -> Vec<N> {
    [0, 2, 3, 4, 5, 6, 7, 1].iter().map(|x| cst(*x)).collect()
}
fn is_etc(f: u32) -> bool {
    (10..=14).contains(&f)
}
fn two_halves(f: u32) -> bool {
    (10..=12).contains(&f)
}

fn color_endpoints(s: &mut Src, c: &Case) -> Vec<N> {
    s.start(COLOR_E);
    if c.unity && is_etc(c.fmt) {
        let m = s.table();
        let mut v = [cst(0); 4];
        return (0..c.n[0])
            .map(|_| {
                for (i, x) in v.iter_mut().enumerate() {
                    // the number of a modifier table: the sums of a sound file stay below 8
                    *x = s.sum(m, *x, 5, if i == 3 { 7 } else { 31 });
                }
                if two_halves(c.fmt) {
                    lows(&[(v[0], 5), (cst(0), 3), (v[1], 5), (cst(0), 3), (v[2], 5), (cst(0), 3), (v[3], 5), (cst(0), 3)])
                } else {
                    // an ETC1 block with both halves alike: differential mode, difference zero
                    let t = low(v[3], 3);
                    lows(&[(cst(0), 3), (v[0], 5), (cst(0), 3), (v[1], 5), (cst(0), 3), (v[2], 5), (cst(2), 2), (t, 3), (t, 3)])
                }
            })
            .collect();
    }
    let m5 = s.table();
    let m6 = s.table();
    let mut v = [cst(0); 6];
    (0..c.n[0])
        .map(|_| {
            for (i, x) in v.iter_mut().enumerate() {
                let g = i % 3 == 1;
                *x = s.sum(if g { m6 } else { m5 }, *x, if g { 6 } else { 5 }, if g { 63 } else { 31 });
            }
            // two 5:6:5 colours
            lows(&[(v[2], 5), (v[1], 6), (v[0], 5), (v[5], 5), (v[4], 6), (v[3], 5)])
        })
        .collect()
}
/// sixteen running numbers changed in pairs
struct Lin {
    v: Vec<N>,
    bits: u8,
}
impl Lin {
    /// pairs of differences -max..max
    fn differences(&mut self, s: &mut Src, m: usize) {
        let n = 2 * (1 << self.bits) - 1i128;
        let max = (1 << self.bits) - 1i128;
        for j in 0..8 {
            let z = s.sym(m, (n * n) as u32);
            let a = sel(z, (0..n * n).map(|x| cst(x % n - max)).collect());
            let b = sel(z, (0..n * n).map(|x| cst(x / n - max)).collect());
            self.v[2 * j] = low(add(self.v[2 * j], a), self.bits);
            self.v[2 * j + 1] = low(add(self.v[2 * j + 1], b), self.bits);
        }
    }
    /// pairs of bit patterns; the numbers are free and the symbol follows from them
    fn flips(&mut self, s: &mut Src, m: usize) {
        for j in 0..8 {
            let now = [0, 1].map(|k| ranged(&format!("selector {}.{k}", s.ev.len()), 0, (1 << self.bits) - 1));
            let d = [0, 1].map(|k| (bxor(self.v[2 * j + k], now[k], self.bits), self.bits));
            s.ev.push(Ev::Sym(m, lows(&d)));
            self.v[2 * j] = now[0];
            self.v[2 * j + 1] = now[1];
        }
    }
}
/// per palette entry: the selector words it is made of
fn color_selectors(s: &mut Src, c: &Case) -> Vec<Vec<N>> {
    s.start(COLOR_S);
    let m = s.table();
    let mut l = Lin { v: vec![cst(0); 16], bits: 2 };
    (0..c.n[1])
        .map(|_| {
            if c.unity {
                l.flips(s, m);
            } else {
                l.differences(s, m);
            }
            if !(c.unity && is_etc(c.fmt)) {
                let parts: Vec<(N, u8)> = l.v.iter().map(|x| (sel(*x, ramp4()), 2)).collect();
                return vec![lows(&parts)];
            }
            // ETC1 numbers its modifiers small, large, -small, -large and its texels by column;
            // two bytes of high bits, then two of low bits, texels 15..8 first
            let word = |turned: bool| {
                let mut b = vec![BR::Zero; 32];
                for x in 0..4usize {
                    for y in 0..4usize {
                        let lin = l.v[if turned { x * 4 + y } else { y * 4 + x }];
                        let code = sel(lin, [3, 2, 0, 1].iter().map(|x| cst(*x)).collect());
                        let t = x * 4 + y;
                        let p = if t < 8 { t + 8 } else { t - 8 };
                        b[p] = bit(code, 1);
                        b[16 + p] = bit(code, 0);
                    }
                }
                mk_bits(b)
            };
            if two_halves(c.fmt) {
                vec![word(true), word(false)]
            } else {
                vec![word(false)]
            }
        })
        .collect()
}
fn alpha_endpoints(s: &mut Src, c: &Case) -> Vec<N> {
    s.start(ALPHA_E);
    let m = s.table();
    let mut v = [cst(0); 2];
    (0..c.n[2])
        .map(|_| {
            for x in v.iter_mut() {
                *x = s.sum(m, *x, 8, 255);
            }
            lows(&[(v[0], 8), (v[1], 8)])
        })
        .collect()
}
fn alpha_selectors(s: &mut Src, c: &Case) -> Vec<Vec<N>> {
    s.start(ALPHA_S);
    let m = s.table();
    let mut l = Lin { v: vec![cst(0); 16], bits: 3 };
    (0..c.n[3])
        .map(|_| {
            if c.unity {
                l.flips(s, m);
            } else {
                l.differences(s, m);
            }
            if !(c.unity && (c.fmt == 12 || c.fmt == 14)) {
                let parts: Vec<(N, u8)> = l.v.iter().map(|x| (sel(*x, ramp8()), 3)).collect();
                return vec![lows(&parts)];
            }
            // EAC: modifiers count from the least up, 3 2 1 0 4 5 6 7; texels by column,
            // the first in the highest bits
            let word = |turned: bool| {
                let mut b = vec![BR::Zero; 48];
                for x in 0..4usize {
                    for y in 0..4usize {
                        let lin = l.v[if turned { x * 4 + y } else { y * 4 + x }];
                        let code = sel(lin, [3, 2, 1, 0, 4, 5, 6, 7].iter().map(|x| cst(*x)).collect());
                        let t = x * 4 + y;
                        for k in 0..3 {
                            let from_top = 3 * t + k;
                            b[from_top / 8 * 8 + 7 - from_top % 8] = bit(code, 2 - k as u32);
                        }
                    }
                }
                mk_bits(b)
            };
            if c.fmt == 12 {
                vec![word(true), word(false)]
            } else {
                vec![word(false)]
            }
        })
        .collect()
}

/// native decoder, bytes of the first face
struct Want {
    native: &'static str,
    bytes: Vec<N>,
}

struct Pals {
    ce: Vec<N>,
    cs: Vec<Vec<N>>,
    ae: Vec<N>,
    als: Vec<Vec<N>>,
}
fn word(p: &[Vec<N>], k: usize, i: N) -> N {
    sel(i, p.iter().map(|x| x[k.min(x.len() - 1)]).collect())
}

fn describe(c: &Case) -> (Vec<Ev>, Option<Want>) {
    let mut s = Src { ev: vec![], steer: c.steer.clone(), next: 0, r: Rng(c.steer.iter().fold(7, |a, x| a * 31 % 1000003 + *x as u64)) };
    let native = match c.fmt {
        0 => "decode_bc1",
        2..=6 => "decode_bc3",
        7 | 8 => "decode_bc5",
        9 => "decode_bc4",
        10 | 13 if c.unity => "decode_etc1",
        11 if c.unity => "decode_etc2_rgb",
        12 | 14 if c.unity => "decode_etc2_rgba8",
        _ => "",
    };
    s.start(TABLES);
    let mref = s.table();
    if c.n[0] == 0 && c.n[2] == 0 {
        return (s.ev, None);
    }
    let (mut me, mut ms) = ([0; 2], [0; 2]);
    for (i, p) in [(0, c.n[0]), (1, c.n[2])] {
        if p != 0 {
            me[i] = s.table();
            ms[i] = s.table();
        }
    }
    let mut p = Pals { ce: vec![], cs: vec![], ae: vec![], als: vec![] };
    if c.n[0] != 0 {
        p.ce = color_endpoints(&mut s, c);
        p.cs = color_selectors(&mut s, c);
    }
    if c.n[2] != 0 {
        p.ae = alpha_endpoints(&mut s, c);
        p.als = alpha_selectors(&mut s, c);
    }
    if native.is_empty() {
        // formats that only exist on paper; whether the level is opened does not matter
        return (s.ev, None);
    }
    let end = if c.levels > 1 { LEVELS[1] } else { LEN };
    s.start((LEVELS[0], end - LEVELS[0]));
    let (nbx, nby) = ((c.w.max(1) + 3) / 4, (c.h.max(1) + 3) / 4);
    // blocks of the first face, by row
    let mut out: Vec<Option<Vec<N>>> = vec![None; (nbx * nby) as usize];
    if c.unity {
        unity_level(&mut s, c, &p, mref, me, ms, nbx, nby, &mut out);
    } else {
        plain_level(&mut s, c, &p, mref, me, ms, nbx, nby, &mut out);
    }
    let bytes = out.into_iter().flat_map(|x| x.unwrap()).collect();
    (s.ev, Some(Want { native, bytes }))
}

fn tiles(e: u32) -> (u32, [usize; 4]) {
    match e {
        // one tile; two: halves; three: one half and two quarters; four
        0 => (1, [0, 0, 0, 0]),
        1 => (2, [0, 0, 1, 1]),
        2 => (2, [0, 1, 0, 1]),
        3 => (3, [0, 0, 1, 2]),
        4 => (3, [1, 2, 0, 0]),
        5 => (3, [0, 1, 0, 2]),
        6 => (3, [1, 0, 2, 0]),
        _ => (4, [0, 1, 2, 3]),
    }
}

fn plain_level(s: &mut Src, c: &Case, p: &Pals, mref: usize, me: [usize; 2], ms: [usize; 2], nbx: u32, nby: u32, out: &mut [Option<Vec<N>>]) {
    let (color, alphas) = match c.fmt {
        0 => (true, 0),
        9 => (false, 1),
        7 | 8 => (false, 2),
        _ => (true, 1),
    };
    // running indices: endpoints and selectors of alpha planes 0 and 1, then of colour
    let mut ei = [cst(0); 3];
    let mut si = [cst(0); 3];
    let (mut enc, mut left) = (0, 0);
    for f in 0..c.faces {
        for cy in 0..(nby + 1) / 2 {
            let n = (nbx + 1) / 2;
            for i in 0..n {
                let cx = if cy % 2 == 1 { n - 1 - i } else { i };
                if left == 0 {
                    enc = s.steer(mref);
                    left = 3;
                }
                left -= 1;
                let (nt, tile) = tiles(enc & 7);
                enc >>= 3;
                let mut ends: [Vec<N>; 3] = Default::default();
                for a in 0..alphas {
                    for _ in 0..nt {
                        ei[a] = step(ei[a], s.delta(me[1], c.n[2]), c.n[2]);
                        ends[a].push(at(&p.ae, ei[a]));
                    }
                }
                if color {
                    for _ in 0..nt {
                        ei[2] = step(ei[2], s.delta(me[0], c.n[0]), c.n[0]);
                        ends[2].push(at(&p.ce, ei[2]));
                    }
                }
                for q in 0..4u32 {
                    let (bx, by) = (cx * 2 + q % 2, cy * 2 + q / 2);
                    let mut b = vec![];
                    for a in 0..alphas {
                        si[a] = step(si[a], s.delta(ms[1], c.n[3]), c.n[3]);
                        b.extend(bytes_of(ends[a][tile[q as usize]], 2));
                        b.extend(bytes_of(word(&p.als, 0, si[a]), 6));
                    }
                    if color {
                        si[2] = step(si[2], s.delta(ms[0], c.n[1]), c.n[1]);
                        b.extend(bytes_of(ends[2][tile[q as usize]], 4));
                        b.extend(bytes_of(word(&p.cs, 0, si[2]), 4));
                    }
                    if f == 0 && bx < nbx && by < nby {
                        out[(by * nbx + bx) as usize] = Some(b);
                    }
                }
            }
        }
    }
}

fn unity_level(s: &mut Src, c: &Case, p: &Pals, mref: usize, me: [usize; 2], ms: [usize; 2], nbx: u32, nby: u32, out: &mut [Option<Vec<N>>]) {
    let (wid, hei) = ((nbx + 1) / 2 * 2, (nby + 1) / 2 * 2);
    let halves = two_halves(c.fmt);
    let (color, alphas) = match c.fmt {
        0 | 10 | 11 | 13 => (true, 0),
        9 => (false, 1),
        7 | 8 => (false, 2),
        _ => (true, 1),
    };
    // endpoint indices of the row above, by column: colour, alpha 0, alpha 1;
    // with two halves also those of the second half
    let mut up = vec![[cst(0); 3]; wid as usize];
    let mut up2 = vec![[cst(0); 3]; wid as usize];
    let mut refs = vec![0u32; wid as usize];
    let mut cur = [cst(0); 3];
    let mut diag = [cst(0); 3];
    for f in 0..c.faces {
        for y in 0..hei {
            let mut group = 0;
            for x in 0..wid as usize {
                // two bits of reference (and two of the second half) for this block
                // and for the one below
                let (r, second);
                if halves {
                    if y % 2 == 0 {
                        let g = s.steer(mref);
                        (r, second) = (g & 3, g >> 4 & 3);
                        refs[x] = (g >> 2 & 3) | (g >> 6 & 3) << 2;
                    } else {
                        (r, second) = (refs[x] & 3, refs[x] >> 2);
                    }
                } else {
                    second = 0;
                    if y % 2 == 0 {
                        if x % 2 == 0 {
                            group = s.steer(mref);
                        }
                        r = group >> (x % 2 * 4) & 3;
                        refs[x] = group >> (x % 2 * 4 + 2) & 3;
                    } else {
                        r = refs[x];
                    }
                }
                match r {
                    0 => {
                        if color {
                            cur[0] = step(cur[0], s.delta(me[0], c.n[0]), c.n[0]);
                        }
                        for a in 0..alphas {
                            cur[1 + a] = step(cur[1 + a], s.delta(me[1], c.n[2]), c.n[2]);
                        }
                        up[x] = cur;
                    }
                    1 => up[x] = cur,
                    3 if halves => {
                        cur = diag;
                        up[x] = cur;
                    }
                    _ => cur = up[x],
                }
                let first = cur;
                let cs = if color { s.sym(ms[0], c.n[1]) } else { cst(0) };
                let als: Vec<N> = (0..alphas).map(|_| if c.fmt >= 12 { s.delta(ms[1], c.n[3]) } else { s.sym(ms[1], c.n[3]) }).collect();
                if halves {
                    if second != 0 {
                        cur[0] = step(cur[0], s.delta(me[0], c.n[0]), c.n[0]);
                    }
                    diag = up2[x];
                    up2[x] = cur;
                }
                if f != 0 || x as u32 >= nbx || y >= nby {
                    continue;
                }
                let flip = (second >> 1 ^ 1) as usize;
                let mut b = vec![];
                for a in 0..alphas {
                    b.extend(bytes_of(at(&p.ae, first[1 + a]), 2));
                    b.extend(bytes_of(word(&p.als, flip, als[a]), 6));
                }
                if halves {
                    let part = |e: N, k: u8| slice(at(&p.ce, e), 8 * k, 5);
                    let (e0, e1) = (first[0], cur[0]);
                    let mut near = cst(1);
                    for k in 0..3 {
                        let d = sub(part(e1, k), part(e0, k));
                        near = and(near, and(le(cst(-4), d), le(d, cst(3))));
                    }
                    for k in 0..3 {
                        let d = low(sub(part(e1, k), part(e0, k)), 3);
                        let a = lows(&[(d, 3), (part(e0, k), 5)]);
                        let i = lows(&[(slice(part(e1, k), 1, 4), 4), (slice(part(e0, k), 1, 4), 4)]);
                        b.push(ite(near, a, i));
                    }
                    let t = |e: N| slice(at(&p.ce, e), 24, 3);
                    b.push(lows(&[(cst(flip as i128), 1), (near, 1), (t(e1), 3), (t(e0), 3)]));
                    b.extend(bytes_of(word(&p.cs, flip, cs), 4));
                } else if color {
                    b.extend(bytes_of(at(&p.ce, cur[0]), 4));
                    b.extend(bytes_of(word(&p.cs, 0, cs), 4));
                }
                out[(y * nbx) as usize + x] = Some(b);
            }
        }
    }
}

// ------------------------------------------------------------ the codec
struct Native {
    name: String,
    bytes: Vec<N>,
    len: N,
    w: V,
    h: V,
    image: V,
    pc: Vec<(N, bool)>,
}
#[derive(Default)]
struct Log {
    ev: Vec<Ev>,
    fail: Option<usize>,
    ok: bool,
    wrong: Vec<(String, Vec<(N, bool)>)>,
    native: Vec<Native>,
    /// the description does not say what follows
    open: bool,
    need: usize,
    entry: String,
    seen: usize,
}
thread_local! {
    static LOG: RefCell<Log> = RefCell::new(Log::default());
}
fn unsup<T>(s: &str) -> R<T> {
    Err(Stop::Unsup(s.into()))
}
/// the position in the file's events
fn tick<'tcx>(it: &mut Interp<'tcx>, st: &mut State) -> R<usize> {
    let p = Ptr { a: A::Ext(COUNT), off: cst(0) };
    let n = match it.load(st, p, 8)? {
        Val::Sc(n) => konst(n),
        _ => None,
    };
    let Some(n) = n else { return unsup("paths that read different numbers of symbols") };
    it.store(st, p, 8, Val::Sc(cst(n + 1)))?;
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.seen = l.seen.max(n as usize + 1);
    });
    Ok(n as usize)
}
fn expect(n: usize) -> Option<Ev> {
    LOG.with(|l| l.borrow().ev.get(n).cloned())
}
fn wrong<T>(st: &State, what: String) -> R<T> {
    LOG.with(|l| l.borrow_mut().wrong.push((what, st.pc.clone())));
    Err(Stop::Dead)
}
fn fails(n: usize) -> bool {
    LOG.with(|l| l.borrow().fail == Some(n))
}
fn past_end(e: &Option<Ev>) -> bool {
    e.is_none() && LOG.with(|l| l.borrow().open)
}
fn name_of(e: &Option<Ev>) -> String {
    match e {
        Some(Ev::Start(o, s)) => format!("opening the stream of {s} bytes at {o}"),
        Some(Ev::Recv) => "receiving a code table".into(),
        Some(Ev::Sym(m, _)) => format!("reading a symbol by the table received as event {m}"),
        None => "nothing".into(),
    }
}
fn h_start<'tcx>(it: &mut Interp<'tcx>, st: &mut State, _: usize, vs: &[V]) -> R<Hook> {
    let n = tick(it, st)?;
    let (Some(V::Pair(Val::Ptr(p), Val::Sc(_))), Some(V::Sc(Val::Sc(size)))) = (vs.get(1), vs.get(2)) else { return unsup("arguments of start_decoding") };
    let (off, size) = match (konst(p.off), konst(*size)) {
        (Some(a), Some(b)) if p.a == A::Ext(DATA) => (a, b),
        _ => return unsup("arguments of start_decoding"),
    };
    match expect(n) {
        Some(Ev::Start(a, b)) if a == off && b == size => {}
        e if past_end(&e) => {}
        e => return wrong(st, format!("event {n} is {} instead of {}", name_of(&Some(Ev::Start(off, size))), name_of(&e))),
    }
    Ok(Hook::Done(sc(cst((size != 0 && !fails(n)) as i128))))
}
/// the field in which the table's identity is kept
fn mark_at<'tcx>(it: &Interp<'tcx>, inst: usize, arg: usize) -> R<(u64, u64)> {
    let tcx = it.lw.tcx;
    let i = it.lw.insts[inst];
    let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(i.def_id()).instantiate(tcx, i.args).skip_norm_wip());
    let Some(t) = sig.inputs()[arg].builtin_deref(true) else { return unsup("type of a code table") };
    let rustc_middle::ty::Adt(def, _) = t.kind() else { return unsup("type of a code table") };
    let l = it.lw.layout(t);
    for (k, f) in def.non_enum_variant().fields.iter().enumerate() {
        if f.name.as_str() == "total_syms" {
            return Ok((l.fields.offset(k).bytes(), 4));
        }
    }
    unsup("type of a code table")
}
fn h_recv<'tcx>(it: &mut Interp<'tcx>, st: &mut State, inst: usize, vs: &[V]) -> R<Hook> {
    let n = tick(it, st)?;
    let Some(V::Sc(Val::Ptr(p))) = vs.get(1) else { return unsup("arguments of decode_receive_static_data_model") };
    match expect(n) {
        Some(Ev::Recv) => {}
        e if past_end(&e) => {}
        e => return wrong(st, format!("event {n} is receiving a code table instead of {}", name_of(&e))),
    }
    let (o, z) = mark_at(it, inst, 1)?;
    it.store(st, Ptr { a: p.a, off: add(p.off, cst(o as i128)) }, z, Val::Sc(cst(n as i128 + 1000)))?;
    Ok(Hook::Done(sc(cst(!fails(n) as i128))))
}
fn h_decode<'tcx>(it: &mut Interp<'tcx>, st: &mut State, inst: usize, vs: &[V]) -> R<Hook> {
    let n = tick(it, st)?;
    let Some(V::Sc(Val::Ptr(p))) = vs.get(1) else { return unsup("arguments of decode") };
    let (o, z) = mark_at(it, inst, 1)?;
    let m = match it.load(st, Ptr { a: p.a, off: add(p.off, cst(o as i128)) }, z)? {
        Val::Sc(n) => konst(n),
        _ => None,
    };
    let Some(m) = m else { return unsup("a symbol read by one of several tables") };
    let z = match expect(n) {
        Some(Ev::Sym(a, z)) if a as i128 + 1000 == m => z,
        e if past_end(&e) => cst(0),
        e if m < 1000 => return wrong(st, format!("event {n} is reading a symbol by a table that was never received instead of {}", name_of(&e))),
        e => return wrong(st, format!("event {n} is {} instead of {}", name_of(&Some(Ev::Sym(m as usize - 1000, 0))), name_of(&e))),
    };
    let t = ret_ty(it, inst);
    let v = if fails(n) { variant(it, t, 1, Pay::Is(sc(cst(0))))? } else { variant(it, t, 0, Pay::Is(sc(z)))? };
    Ok(Hook::Done(v))
}
fn h_native<'tcx>(it: &mut Interp<'tcx>, st: &mut State, inst: usize, vs: &[V]) -> R<Hook> {
    let name = it.lw.name(inst);
    let (need, ok) = LOG.with(|l| (l.borrow().need, l.borrow().ok));
    let [V::Pair(Val::Ptr(p), Val::Sc(len)), w, h, image] = vs else { return unsup("arguments of the native decoder") };
    let have = konst(*len).unwrap_or(0).max(0) as usize;
    let mut bytes = vec![];
    for i in 0..need.min(have) {
        match it.load(st, Ptr { a: p.a, off: add(p.off, cst(i as i128)) }, 1)? {
            Val::Sc(n) => bytes.push(wrap(n, 8, false)),
            _ => return unsup("data of the native decoder"),
        }
    }
    let rec = Native { name: name.rsplit("::").next().unwrap_or("").into(), bytes, len: *len, w: w.clone(), h: h.clone(), image: image.clone(), pc: st.pc.clone() };
    LOG.with(|l| l.borrow_mut().native.push(rec));
    let t = ret_ty(it, inst);
    let v = if ok { variant(it, t, 0, Pay::Is(V::Zst))? } else { variant(it, t, 1, Pay::Obj(TEXT))? };
    Ok(Hook::Done(v))
}
fn pick<'tcx>(name: &str) -> Option<HookFn<'tcx>> {
    let last = name.rsplit("::").next().unwrap_or("");
    if name.contains("symbol_codec") {
        return match last {
            "start_decoding" => Some(h_start),
            "decode_receive_static_data_model" => Some(h_recv),
            "decode" => Some(h_decode),
            _ => None,
        };
    }
    let free = !name.contains("Unpacker") && !name.contains("<") && (last.starts_with("decode_") || last.starts_with("decode_"));
    if free && !last.contains("crunch") && name.split("::").count() <= 4 && !name.starts_with("core") && !name.starts_with("alloc") {
        return Some(h_native);
    }
    None
}

// ------------------------------------------------------------ one case
fn header(c: &Case) -> Vec<N> {
    let mut d: Vec<N> = (0..70 + 4 * c.levels).map(|i| input(&format!("data[{i}]"), 8)).collect();
    let mut put = |at: usize, n: usize, v: i128| {
        for i in 0..n {
            d[at + i] = cst(v >> (8 * (n - 1 - i)) & 255);
        }
    };
    put(0, 2, 0x4878);
    put(2, 2, 70 + 4 * c.levels.max(1) as i128);
    put(6, 4, LEN - 16);
    put(12, 2, c.w as i128);
    put(14, 2, c.h as i128);
    put(16, 1, c.levels as i128);
    put(17, 1, c.faces as i128);
    put(18, 1, c.fmt as i128);
    for (i, (o, s)) in [COLOR_E, COLOR_S, ALPHA_E, ALPHA_S].into_iter().enumerate() {
        put(33 + 8 * i, 3, o);
        put(36 + 8 * i, 3, if c.empty == Some(i + 1) { 0 } else { s });
        put(39 + 8 * i, 2, c.n[i] as i128);
    }
    put(65, 2, if c.empty == Some(0) { 0 } else { TABLES.1 });
    put(67, 3, TABLES.0);
    for i in 0..c.levels {
        put(70 + 4 * i, 4, LEVELS[i.min(2)]);
    }
    d
}

fn run_case(tcx: TyCtxt<'_>, c: &Case, group: &str) {
    reset();
    let key = c.key();
    let entry = if c.unity { "decode_unity_crunch" } else { "decode_crunch" };
    let Some(d) = locate(tcx, entry) else {
        ob(group, &key, St::Undecided, "function not found");
        return;
    };
    let mut it = Interp::new(tcx);
    it.hook_by = Some(pick);
    it.trace = std::env::var("TRACE").is_ok();
    let (mut ev, mut want) = describe(c);
    if let Some(i) = c.empty {
        // the stream cannot be opened
        let at = ev.iter().enumerate().filter(|x| matches!(x.1, Ev::Start(..))).map(|x| x.0).collect::<Vec<_>>();
        let which = [TABLES, COLOR_E, COLOR_S, ALPHA_E, ALPHA_S][i];
        if let Some(p) = at.into_iter().find(|p| matches!(ev[*p], Ev::Start(a, _) if a == which.0)) {
            ev[p] = Ev::Start(which.0, 0);
            want = None;
        }
    }
    if c.fail.is_some() {
        want = None;
    }
    LOG.with(|l| {
        *l.borrow_mut() = Log { ev: ev.clone(), fail: c.fail, ok: c.native_ok, open: want.is_none() && c.fail.is_none(), need: want.as_ref().map(|w| w.bytes.len()).unwrap_or(0), ..Default::default() }
    });
    let cells: Vec<_> = header(c).into_iter().enumerate().map(|(i, x)| (i as u32, 1u8, Val::Sc(x))).collect();
    let da = Alloc { size: cst(LEN), cells, kind: AK::Exact, name: "data".into() };
    let ilen = sym("image.len()", 0, 1 << 50);
    let (w, h) = (sym("width", 0, (1 << 63) - 1), sym("height", 0, (1 << 63) - 1));
    let ia = Alloc { size: mulc(ilen, 4), cells: vec![], kind: AK::Exact, name: "image".into() };
    let mut ca = Alloc::new(8);
    ca.cells = vec![(0, 8, Val::Sc(cst(0)))];
    ca.name = "counter".into();
    let ta = Alloc::new(8);
    let mut st = State { frames: vec![], ext: vec![da.into(), ia.into(), ca.into(), ta.into()], pc: vec![], refine: Default::default(), events: Default::default(), tag: 0 };
    let image = V::Pair(Val::Ptr(Ptr { a: A::Ext(IMAGE), off: cst(0) }), Val::Sc(ilen));
    let args = vec![V::Pair(Val::Ptr(Ptr { a: A::Ext(DATA), off: cst(0) }), Val::Sc(cst(LEN))), sc(w), sc(h), image.clone()];
    let id = it.lw.inst_id(Instance::mono(tcx, d));
    if it.push_call(&mut st, id, args, None, 0, "entry".into()).is_err() {
        ob(group, &key, St::Undecided, "entry signature");
        return;
    }
    let done = it.run(st);
    let mut e = Eq::new();
    let issues: Vec<Issue> = it.issues.iter().cloned().collect();
    stats_of(&it);
    let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    // what was read, and in which order
    for (what, pc) in &log.wrong {
        let roots: Vec<N> = pc.iter().map(|x| x.0).collect();
        match e.search(&roots, 2000, &|ev| pc.iter().all(|x| (ev.get(x.0) != 0) == x.1)) {
            Some(_) => {
                ob(group, &key, St::Violated, &format!("{what} in a file with {key}"));
                return;
            }
            None => {
                ob(group, &key, St::Undecided, what);
                return;
            }
        }
    }
    let (v, u) = {
        let (mut v, mut u) = (0, 0);
        for i in &issues {
            match judge_issue(&mut e, i) {
                (St::Ok, _) => {}
                (St::Violated, t) => {
                    v += 1;
                    ob(group, &format!("{key}: {} in {}", i.what, i.func), St::Violated, &format!("{t} in a file with {key}"));
                }
                (St::Undecided, t) => {
                    u += 1;
                    ob(group, &format!("{key}: {} in {}", i.what, i.func), St::Undecided, &t);
                }
            }
        }
        (v, u)
    };
    if v + u > 0 {
        return;
    }
    let Some(want) = want else {
        // refused: an error, and no native decoder
        let bad = done.iter().any(|x| !matches!(ret_kind(&x.1), RetKind::Err));
        if !log.native.is_empty() {
            ob(group, &key, St::Violated, &format!("{} is called for a file with {key}", log.native[0].name));
        } else if done.is_empty() || done.iter().any(|x| matches!(ret_kind(&x.1), RetKind::Other)) {
            ob(group, &key, St::Undecided, "result not understood");
        } else if bad {
            ob(group, &key, St::Violated, &format!("Ok for a file with {key}"));
        } else {
            ob(group, &key, St::Ok, "");
        }
        return;
    };
    if log.seen != ev.len() {
        ob(group, &key, St::Undecided, &format!("{} of {} events reached", log.seen, ev.len()));
        return;
    }
    let all_err = !done.is_empty() && done.iter().all(|x| matches!(ret_kind(&x.1), RetKind::Err));
    if log.native.is_empty() {
        let st = if all_err { St::Violated } else { St::Undecided };
        ob(group, &key, st, &format!("{} is not called for a file with {key}", want.native));
        return;
    }
    let ok = done.iter().all(|x| matches!((ret_kind(&x.1), c.native_ok), (RetKind::Ok, true) | (RetKind::Err, false)));
    if log.native.len() != 1 || !log.native[0].pc.iter().all(|x| konst(x.0) == Some(x.1 as i128)) {
        // joined paths only
        if log.native.len() != 1 {
            ob(group, &key, St::Undecided, "several calls of a native decoder");
            return;
        }
    }
    let n = &log.native[0];
    let same = |a: &V, b: N| matches!(a, V::Sc(Val::Sc(x)) if *x == b);
    let same_image = match (&n.image, &image) {
        (V::Pair(Val::Ptr(a), Val::Sc(b)), V::Pair(Val::Ptr(x), Val::Sc(y))) => a == x && b == y,
        _ => false,
    };
    if n.name != want.native {
        ob(group, &key, St::Violated, &format!("{} instead of {} for a file with {key}", n.name, want.native));
        return;
    }
    if !same(&n.w, w) || !same(&n.h, h) {
        ob(group, &key, St::Violated, &format!("{} is given another width or height than the caller's", n.name));
        return;
    }
    if !same_image {
        ob(group, &key, St::Violated, &format!("{} is given another image than the caller's", n.name));
        return;
    }
    if !ok || done.is_empty() {
        ob(group, &key, if done.iter().any(|x| matches!(ret_kind(&x.1), RetKind::Other)) || done.is_empty() { St::Undecided } else { St::Violated }, "the native decoder's result is not returned");
        return;
    }
    if n.bytes.len() < want.bytes.len() {
        ob(group, &key, St::Violated, &format!("only {} of {} bytes for a file with {key}", n.bytes.len(), want.bytes.len()));
        return;
    }
    let mut unknown = None;
    let mut pairs = std::collections::HashSet::new();
    for (i, (a, b)) in n.bytes.iter().zip(want.bytes.iter()).enumerate() {
        if !pairs.insert((*a, *b)) {
            continue;
        }
        let mut verdict = e.equal(*a, *b);
        if matches!(verdict, Verdict::Unknown) {
            // bit by bit
            verdict = Verdict::Equal;
            for k in 0..8 {
                match e.equal(slice(*a, k, 1), slice(*b, k, 1)) {
                    Verdict::Equal => {}
                    Verdict::Unknown => verdict = Verdict::Unknown,
                    v => {
                        verdict = v;
                        break;
                    }
                }
            }
        }
        match verdict {
            Verdict::Equal => {}
            Verdict::Differ(wit, x, y) => {
                if std::env::var("EQDBG").is_ok() {
                    println!("byte {i}\n   {}\n   {}", show(*a), show(*b));
                }
                ob(group, &key, St::Violated, &format!("block byte {i} is {x} instead of {y} for {} in a file with {key}", show_witness(&wit)));
                return;
            }
            Verdict::Unknown => {
                if std::env::var("EQDBG").is_ok() {
                    println!("unknown byte {i}\n   {}\n   {}", show(*a), show(*b));
                }
                unknown = Some(i);
            }
        }
    }
    match unknown {
        Some(i) => ob(group, &key, St::Undecided, &format!("block byte {i}")),
        None => {
            stat("block bytes compared", want.bytes.len() as u64);
            stat("symbols", ev.iter().filter(|x| matches!(x, Ev::Sym(..))).count() as u64);
            ob(group, &key, St::Ok, "")
        }
    }
}

fn cases(unity: bool, thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let fm: &[u32] = if unity { &[0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14] } else { &[0, 2, 3, 4, 5, 6, 7, 8, 9] };
    for &f in fm {
        let alpha = matches!(f, 2..=9 | 12 | 14);
        let color = !matches!(f, 7..=9);
        let n = [if color { 3 } else { 0 }, if color { 2 } else { 0 }, if alpha { 2 } else { 0 }, if alpha { 3 } else { 0 }];
        let main = matches!(f, 0 | 2 | 7 | 9..=14);
        let base = Case { unity, fmt: f, w: 8, h: 8, faces: 1, levels: 1, n, steer: vec![0], fail: None, native_ok: true, empty: None };
        let top = if unity { 256 } else { 512 };
        let mut r = Rng(f as u64 * 77 + unity as u64);
        let mut steer = |k: usize| -> Vec<u32> { (0..k).map(|_| r.below(top) as u32).collect() };
        // sizes with whole and cut chunks
        for (w, h) in [(8, 8), (12, 12), (4, 8), (9, 20), (20, 9), (1, 1)] {
            v.push(Case { w, h, steer: steer(17), ..base.clone() });
            if !main {
                break;
            }
        }
        if main {
            // every chunk encoding, every reference
            if unity {
                for k in 0..8u32 {
                    v.push(Case { w: 32, h: 32, steer: (0..32).map(|i| (k * 32 + i * 37 + 5) % 256).collect(), ..base.clone() });
                }
            } else {
                for k in 0..2u32 {
                    v.push(Case { w: 40, h: 40, steer: vec![0o210 + k, 0o543, 0o076, 0o321, 0o654, 0o107 + k], ..base.clone() });
                }
            }
            // cube maps, several levels
            v.push(Case { w: 12, h: 8, faces: 2, levels: 2, steer: steer(11), ..base.clone() });
            v.push(Case { w: 4, h: 12, faces: 3, levels: 3, steer: steer(11), ..base.clone() });
            // other palette sizes
            let m = n.map(|x| if x == 0 { 0 } else { 5 });
            v.push(Case { n: m, w: 16, h: 8, steer: steer(9), ..base.clone() });
            let m = n.map(|x| if x == 0 { 0 } else { 1 });
            v.push(Case { n: m, w: 8, h: 4, steer: steer(9), ..base.clone() });
            // refused by the native decoder
            v.push(Case { native_ok: false, steer: steer(9), ..base.clone() });
            // broken streams
            let some = Case { steer: steer(9), w: 4, h: 4, ..base.clone() };
            reset();
            let k = describe(&some).0.len();
            for i in 0..k {
                if i % 3 == (f % 3) as usize || thorough {
                    v.push(Case { fail: Some(i), ..some.clone() });
                }
            }
            for i in 0..5 {
                let there = [true, color, color, alpha, alpha][i];
                if there {
                    v.push(Case { empty: Some(i), ..some.clone() });
                }
            }
            v.push(Case { n: [0; 4], ..some.clone() });
            if thorough {
                for (w, h) in [(5, 5), (16, 16), (17, 33), (33, 17), (7, 64), (64, 7), (60, 60)] {
                    for _ in 0..3 {
                        v.push(Case { w, h, steer: steer(40), ..base.clone() });
                    }
                }
                v.push(Case { w: 20, h: 20, faces: 6, levels: 3, steer: steer(29), ..base.clone() });
            }
        }
    }
    // formats without a decoder
    for f in if unity { vec![1, 15, 16, 200] } else { vec![1, 10, 11, 12, 13, 14, 15, 16, 255] } {
        v.push(Case { unity, fmt: f, w: 8, h: 8, faces: 1, levels: 1, n: [3, 2, 2, 2], steer: vec![0], fail: None, native_ok: true, empty: None });
    }
    v
}

pub fn crunch(tcx: TyCtxt<'_>, unity: bool) {
    let th = std::env::var("TIER").map(|x| x == "thorough").unwrap_or(false);
    let only = std::env::var("ONLY").unwrap_or_default();
    let group = "crunch";
    let v: Vec<Case> = cases(unity, th).into_iter().filter(|c| only.is_empty() || c.key().contains(&only)).collect();
    let lost = par(v.len(), 8, 300, &|j| run_case(tcx, &v[j], group));
    for j in lost {
        ob(group, &v[j].key(), St::Undecided, "analysis ran out of time");
    }
    stat("files described", v.len() as u64);
}

/// a method by the end of its path
pub fn method(tcx: TyCtxt<'_>, end: &str) -> Option<rustc_hir::def_id::DefId> {
    let mut v = vec![];
    for d in tcx.hir_body_owners() {
        if matches!(tcx.def_kind(d), DefKind::AssocFn | DefKind::Fn) && tcx.def_path_str(d.to_def_id()).ends_with(end) {
            v.push(d.to_def_id());
        }
    }
    if v.len() == 1 {
        Some(v[0])
    } else {
        None
    }
}
pub fn info(tcx: TyCtxt<'_>) {}
