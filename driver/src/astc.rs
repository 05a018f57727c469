//! ASTC: the format as its specification defines it, and the analysis of the decoder
//! for fixed block headers.  Everything outside the header stays symbolic.
use crate::blocks::*;
use crate::bptc::show_case;
use crate::equal::*;
use crate::interp::*;
use crate::job::*;
use crate::node::*;
use crate::report::*;
use crate::stage::*;
use crate::spec::{bgra, clampn, le as bits};
use rustc_middle::ty::TyCtxt;

/// integers below `max`: `digits` is 3 (trits), 5 (quints) or 1, `n` the plain bits of each
#[derive(Clone, Copy, PartialEq, Debug)]
struct Range {
    digits: usize,
    n: usize,
}
const fn rg(digits: usize, n: usize) -> Range {
    Range { digits, n }
}
impl Range {
    fn size(&self, count: usize) -> usize {
        match self.digits {
            3 => count * self.n + (8 * count).div_ceil(5),
            5 => count * self.n + (7 * count).div_ceil(3),
            _ => count * self.n,
        }
    }
}
/// weights, by the three bits R (from 2) without and with H
const WEIGHTS: [[Range; 6]; 2] = [[rg(1, 1), rg(3, 0), rg(1, 2), rg(5, 0), rg(3, 1), rg(1, 3)], [rg(5, 1), rg(3, 2), rg(1, 4), rg(5, 2), rg(3, 3), rg(1, 5)]];
/// endpoint values, widest first
const VALUES: [Range; 17] = [
    rg(1, 8), rg(3, 6), rg(5, 5), rg(1, 7), rg(3, 5), rg(5, 4), rg(1, 6), rg(3, 4), rg(5, 3), rg(1, 5), rg(3, 3), rg(5, 2), rg(1, 4), rg(3, 2), rg(5, 1), rg(1, 3),
    rg(3, 1),
];

#[derive(Clone, Copy, Debug)]
struct Grid {
    w: usize,
    h: usize,
    dual: bool,
    range: Range,
}
impl Grid {
    fn count(&self) -> usize {
        self.w * self.h * (1 + self.dual as usize)
    }
    fn size(&self) -> usize {
        self.range.size(self.count())
    }
    fn fits(&self, bw: usize, bh: usize) -> bool {
        self.w <= bw && self.h <= bh && self.count() <= 64 && self.size() >= 24 && self.size() <= 96
    }
}

enum Mode {
    Reserved,
    Void,
    Grid(Grid),
}
fn mode(m: usize) -> Mode {
    let f = |lo: usize, n: usize| m >> lo & ((1 << n) - 1);
    if f(0, 9) == 0x1fc {
        return Mode::Void;
    }
    let a = f(5, 2);
    let b = f(7, 2);
    let (mut dual, mut high) = (f(10, 1) == 1, f(9, 1));
    let (w, h, r);
    if f(0, 2) != 0 {
        r = f(4, 1) | f(0, 2) << 1;
        (w, h) = match f(2, 2) {
            0 => (b + 4, a + 2),
            1 => (b + 8, a + 2),
            2 => (a + 2, b + 8),
            _ if f(8, 1) == 0 => (a + 2, f(7, 1) + 6),
            _ => (f(7, 1) + 2, a + 2),
        };
    } else {
        r = f(4, 1) | f(2, 2) << 1;
        (w, h) = match b {
            0 => (12, a + 2),
            1 => (a + 2, 12),
            2 => {
                dual = false;
                high = 0;
                (a + 6, f(9, 2) + 6)
            }
            _ if a == 0 => (6, 10),
            _ if a == 1 => (10, 6),
            _ => return Mode::Reserved,
        };
    }
    if r < 2 {
        return Mode::Reserved;
    }
    Mode::Grid(Grid { w, h, dual, range: WEIGHTS[high][r - 2] })
}

/// what the header of a block says
#[derive(Clone)]
struct Head {
    bw: usize,
    bh: usize,
    mode: usize,
    parts: usize,
    /// endpoint modes; `shared` when the header gives one for all
    cem: Vec<usize>,
    shared: bool,
    /// None: symbolic
    index: Option<usize>,
}
struct Layout {
    g: Grid,
    values: usize,
    range: Range,
    config: usize,
}
impl Head {
    fn name(&self) -> String {
        let mut s = format!("{}x{} mode {:#05x} ", self.bw, self.bh, self.mode);
        if self.parts == 0 {
            return s + "whatever follows";
        }
        if self.parts > 1 {
            s += &format!("{} partitions ", self.parts);
            if let Some(i) = self.index {
                s += &format!("index {i} ");
            }
        }
        if self.cem.is_empty() {
            return s + "any endpoints";
        }
        s + &format!("endpoints {}", self.cem.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("/"))
    }
    /// None: not a legal block
    fn layout(&self) -> Option<Layout> {
        let g = match mode(self.mode) {
            Mode::Grid(g) => g,
            _ => return None,
        };
        if !g.fits(self.bw, self.bh) || (g.dual && self.parts == 4) {
            return None;
        }
        assert!(!self.cem.is_empty());
        let mut config = match (self.parts, self.shared) {
            (1, _) => 17,
            (_, true) => 29,
            (n, false) => 25 + 3 * n,
        };
        if g.dual {
            config += 2;
        }
        let values: usize = self.cem.iter().map(|c| (c / 4 + 1) * 2).sum();
        if values > 18 || config + g.size() > 128 {
            return None;
        }
        let room = 128 - config - g.size();
        let range = VALUES.iter().find(|r| r.size(values) <= room)?;
        Some(Layout { g, values, range: *range, config })
    }
    /// the header's bits
    fn fixed(&self) -> Vec<(usize, bool)> {
        let mut v: Vec<(usize, bool)> = vec![];
        let mut put = |at: usize, n: usize, x: usize| {
            for i in 0..n {
                v.push((at + i, x >> i & 1 == 1));
            }
        };
        put(0, 11, self.mode);
        if self.parts == 0 {
            return v;
        }
        put(11, 2, self.parts - 1);
        if self.cem.is_empty() {
            return v;
        }
        if self.parts == 1 {
            put(13, 4, self.cem[0]);
            return v;
        }
        if let Some(i) = self.index {
            put(13, 10, i);
        }
        if self.shared {
            put(23, 2, 0);
            put(25, 4, self.cem[0]);
            return v;
        }
        let base = self.cem.iter().map(|c| c / 4).min().unwrap().clamp(0, 2);
        put(23, 2, base + 1);
        let mut rest = vec![];
        for c in &self.cem {
            rest.push(c / 4 - base == 1);
        }
        for c in &self.cem {
            rest.push(c & 1 == 1);
            rest.push(c & 2 == 2);
        }
        // four of these bits follow the base, the others end where the weights begin
        let top = match mode(self.mode) {
            Mode::Grid(g) if g.size() <= 96 => 128 - g.size(),
            _ => 128,
        };
        let extra = 3 * self.parts - 4;
        for (i, b) in rest.iter().enumerate() {
            let at = if i < 4 { 25 + i } else { top - extra + i - 4 };
            put(at, 1, *b as usize);
        }
        v
    }
}

fn trits(t: usize) -> [usize; 5] {
    let b = |i: usize| t >> i & 1;
    let f = |hi: usize, lo: usize| t >> lo & ((1 << (hi - lo + 1)) - 1);
    let (c, t3, t4);
    if f(4, 2) == 7 {
        c = f(7, 5) << 2 | f(1, 0);
        t3 = 2;
        t4 = 2;
    } else {
        c = f(4, 0);
        if f(6, 5) == 3 {
            t4 = 2;
            t3 = b(7);
        } else {
            t4 = b(7);
            t3 = f(6, 5);
        }
    }
    let cb = |i: usize| c >> i & 1;
    if c & 3 == 3 {
        [cb(3) << 1 | (cb(2) & !cb(3) & 1), cb(4), 2, t3, t4]
    } else if c >> 2 & 3 == 3 {
        [c & 3, 2, 2, t3, t4]
    } else {
        [cb(1) << 1 | (cb(0) & !cb(1) & 1), c >> 2 & 3, cb(4), t3, t4]
    }
}
fn quints(q: usize) -> [usize; 3] {
    let b = |i: usize| q >> i & 1;
    let f = |hi: usize, lo: usize| q >> lo & ((1 << (hi - lo + 1)) - 1);
    if f(2, 1) == 3 && f(6, 5) == 0 {
        return [4, 4, b(0) << 2 | (b(4) & !b(0) & 1) << 1 | (b(3) & !b(0) & 1)];
    }
    let (q2, c);
    if f(2, 1) == 3 {
        q2 = 4;
        c = f(4, 3) << 3 | (!f(6, 5) & 3) << 1 | b(0);
    } else {
        q2 = f(6, 5);
        c = f(4, 0);
    }
    if c & 7 == 5 {
        [c >> 3 & 3, 4, q2]
    } else {
        [c & 7, c >> 3 & 3, q2]
    }
}
/// the sequence: plain bits and digit of each integer; `at(i)` is bit i of the stream
fn sequence(r: Range, count: usize, at: &dyn Fn(usize) -> BR) -> Vec<(Vec<BR>, N)> {
    let total = r.size(count);
    let get = |i: usize| if i < total { at(i) } else { BR::Zero };
    let mut out: Vec<(Vec<BR>, N)> = vec![];
    let mut pos = 0;
    while out.len() < count {
        match r.digits {
            1 => {
                out.push(((0..r.n).map(|i| get(pos + i)).collect(), cst(0)));
                pos += r.n;
            }
            d => {
                let pieces: &[usize] = if d == 3 { &[2, 2, 1, 2, 1] } else { &[3, 2, 2] };
                let mut t = vec![];
                let mut m = vec![];
                for p in pieces {
                    m.push((0..r.n).map(|i| get(pos + i)).collect::<Vec<BR>>());
                    pos += r.n;
                    for i in 0..*p {
                        t.push(get(pos + i));
                    }
                    pos += p;
                }
                let t = mk_bits(t);
                for (j, m) in m.into_iter().enumerate() {
                    let tab = if d == 3 { (0..256).map(|x| cst(trits(x)[j] as i128)).collect() } else { (0..128).map(|x| cst(quints(x)[j] as i128)).collect() };
                    out.push((m, sel(t, tab)));
                }
            }
        }
    }
    out.truncate(count);
    out
}
/// replicate a bit string from the top
fn rep(m: &[BR], to: usize) -> N {
    let n = m.len();
    mk_bits((0..to).rev().map(|i| m[n - 1 - i % n]).collect())
}
/// a picture of a bit string, most significant first: letters are plain bits from a (the lowest)
fn pic(p: &str, m: &[BR]) -> N {
    mk_bits(p.bytes().rev().map(|c| if c == b'0' { BR::Zero } else { m[(c - b'a') as usize] }).collect())
}
fn blend(m: &[BR], d: N, c: i128, b: N, w: u8) -> N {
    // T = D C + B, A is the lowest plain bit repeated; ((T ^ A) >> 2) with the bit below the top from A
    let t = add(mulc(d, c), b);
    let a = mk_bits(vec![m[0]; w as usize]);
    let x = bxor(t, a, w);
    let keep = mk_bits((0..w as usize - 1).map(|i| if i == w as usize - 2 { m[0] } else { BR::Zero }).collect());
    bor(keep, slice(x, 2, w - 2), w)
}
fn value(r: Range, m: &[BR], d: N) -> N {
    let (c, p) = match (r.digits, r.n) {
        (1, _) => return rep(m, 8),
        (3, 1) => (204, "0"),
        (3, 2) => (93, "b000b0bb0"),
        (3, 3) => (44, "cb000cbcb"),
        (3, 4) => (22, "dcb000dcb"),
        (3, 5) => (11, "edcb000ed"),
        (3, _) => (5, "fedcb000f"),
        (_, 1) => (113, "0"),
        (_, 2) => (54, "b0000bb00"),
        (_, 3) => (26, "cb0000cbc"),
        (_, 4) => (13, "dcb0000dc"),
        (_, _) => (6, "edcb0000e"),
    };
    blend(m, d, c, pic(p, m), 9)
}
fn weight(r: Range, m: &[BR], d: N) -> N {
    let x = match (r.digits, r.n) {
        (1, _) => rep(m, 6),
        (3, 0) => sel(d, vec![cst(0), cst(32), cst(63)]),
        (5, 0) => sel(d, [0, 16, 32, 47, 63].iter().map(|x| cst(*x)).collect()),
        (3, 1) => blend(m, d, 50, cst(0), 7),
        (3, 2) => blend(m, d, 23, pic("b000b0b", m), 7),
        (3, _) => blend(m, d, 11, pic("cb000cb", m), 7),
        (_, 1) => blend(m, d, 28, cst(0), 7),
        (_, _) => blend(m, d, 13, pic("b0000b0", m), 7),
    };
    add(x, lt(cst(32), x))
}

fn transfer(a: N, b: N) -> (N, N) {
    let top = slice(a, 7, 1);
    let nb = add(fdiv(b, cst(2)), mulc(top, 128));
    let x = slice(a, 1, 6);
    (sub(x, mulc(slice(a, 6, 1), 64)), nb)
}
type Pt = [N; 4];
fn contract(p: Pt) -> Pt {
    [fdiv(add(p[0], p[2]), cst(2)), fdiv(add(p[1], p[2]), cst(2)), p[2], p[3]]
}
fn each(p: Pt, f: &dyn Fn(N) -> N) -> Pt {
    [f(p[0]), f(p[1]), f(p[2]), f(p[3])]
}
fn either(c: N, a: (Pt, Pt), b: (Pt, Pt)) -> (Pt, Pt) {
    let f = |x: Pt, y: Pt| [ite(c, x[0], y[0]), ite(c, x[1], y[1]), ite(c, x[2], y[2]), ite(c, x[3], y[3])];
    (f(a.0, b.0), f(a.1, b.1))
}
fn cl8(x: N) -> N {
    clampn(x, 0, 255)
}
fn cl12(x: N) -> N {
    clampn(x, 0, 4095)
}
fn hdr_scale(v: &[N]) -> (Pt, Pt) {
    let b = |i: usize, p: u8| slice(v[i], p, 1);
    let x = [b(1, 6), b(1, 5), b(2, 6), b(2, 5), b(3, 7), b(3, 6), b(3, 5)];
    let mut byq = vec![];
    for q in 0..16usize {
        let (major, mode) = if q & 12 != 12 {
            (q >> 2, q & 3)
        } else if q != 15 {
            (q & 3, 4)
        } else {
            (0, 5)
        };
        let ohm = 1usize << mode;
        let mut red = slice(v[0], 0, 6);
        let mut green = slice(v[1], 0, 5);
        let mut blue = slice(v[2], 0, 5);
        let mut scale = slice(v[3], 0, 5);
        let mut or = |m: usize, to: &mut N, i: usize, sh: u32| {
            if ohm & m != 0 {
                *to = add(*to, mulc(x[i], 1 << sh));
            }
        };
        or(0x30, &mut green, 0, 6);
        or(0x3a, &mut green, 1, 5);
        or(0x30, &mut blue, 2, 6);
        or(0x3a, &mut blue, 3, 5);
        or(0x3d, &mut scale, 6, 5);
        or(0x2d, &mut scale, 5, 6);
        or(0x04, &mut scale, 4, 7);
        or(0x3b, &mut red, 4, 6);
        or(0x04, &mut red, 3, 6);
        or(0x10, &mut red, 5, 7);
        or(0x0f, &mut red, 2, 7);
        or(0x05, &mut red, 1, 8);
        or(0x0a, &mut red, 0, 8);
        or(0x05, &mut red, 0, 9);
        or(0x02, &mut red, 6, 9);
        or(0x01, &mut red, 3, 10);
        or(0x02, &mut red, 5, 10);
        let s = 1 << [1, 1, 2, 3, 4, 5][mode];
        red = mulc(red, s);
        green = mulc(green, s);
        blue = mulc(blue, s);
        scale = mulc(scale, s);
        if mode != 5 {
            green = sub(red, green);
            blue = sub(red, blue);
        }
        match major {
            1 => std::mem::swap(&mut red, &mut green),
            2 => std::mem::swap(&mut red, &mut blue),
            _ => {}
        }
        let one = cst(0x780);
        let lo = |z: N| cl12(sub(z, scale));
        byq.push(([lo(red), lo(green), lo(blue), one], [cl12(red), cl12(green), cl12(blue), one]));
    }
    let idx = mk_bits(vec![bit(v[0], 6), bit(v[0], 7), bit(v[1], 7), bit(v[2], 7)]);
    pick_by(idx, byq)
}
fn pick_by(idx: N, t: Vec<(Pt, Pt)>) -> (Pt, Pt) {
    let f = |e: &dyn Fn(&(Pt, Pt)) -> N| sel(idx, t.iter().map(e).collect());
    ([f(&|x| x.0[0]), f(&|x| x.0[1]), f(&|x| x.0[2]), f(&|x| x.0[3])], [f(&|x| x.1[0]), f(&|x| x.1[1]), f(&|x| x.1[2]), f(&|x| x.1[3])])
}
fn hdr_rgb(v: &[N], a0: N, a1: N) -> (Pt, Pt) {
    let b = |i: usize, p: u8| slice(v[i], p, 1);
    let x = [b(2, 6), b(3, 6), b(4, 6), b(5, 6), b(4, 5), b(5, 5)];
    let mut t = vec![];
    for q in 0..32usize {
        let (mode, major) = (q & 7, q >> 3);
        if major == 3 {
            t.push(([mulc(v[0], 16), mulc(v[2], 16), mulc(slice(v[4], 0, 7), 32), a0], [mulc(v[1], 16), mulc(v[3], 16), mulc(slice(v[5], 0, 7), 32), a1]));
            continue;
        }
        let ohm = 1usize << mode;
        let mut va = add(v[0], mulc(slice(v[1], 6, 1), 256));
        let mut vb0 = slice(v[2], 0, 6);
        let mut vb1 = slice(v[3], 0, 6);
        let mut vc = slice(v[1], 0, 6);
        let db = [7u8, 6, 7, 6, 5, 6, 5, 6][mode];
        let sx = |z: N| sub(slice(z, 0, db), mulc(slice(z, db - 1, 1), 1 << db));
        let mut vd0 = sx(v[4]);
        let mut vd1 = sx(v[5]);
        let mut or = |m: usize, to: &mut N, i: usize, sh: u32| {
            if ohm & m != 0 {
                *to = add(*to, mulc(x[i], 1 << sh));
            }
        };
        or(0xa4, &mut va, 0, 9);
        or(0x08, &mut va, 2, 9);
        or(0x50, &mut va, 4, 9);
        or(0x50, &mut va, 5, 10);
        or(0xa0, &mut va, 1, 10);
        or(0xc0, &mut va, 2, 11);
        or(0x04, &mut vc, 1, 6);
        or(0xe8, &mut vc, 3, 6);
        or(0x20, &mut vc, 2, 7);
        or(0x5b, &mut vb0, 0, 6);
        or(0x5b, &mut vb1, 1, 6);
        or(0x12, &mut vb0, 2, 7);
        or(0x12, &mut vb1, 3, 7);
        let s = 1 << ((mode >> 1) ^ 3);
        for z in [&mut va, &mut vb0, &mut vb1, &mut vc, &mut vd0, &mut vd1] {
            *z = mulc(*z, s);
        }
        let mut e1 = [cl12(va), cl12(sub(va, vb0)), cl12(sub(va, vb1)), a1];
        let mut e0 = [cl12(sub(va, vc)), cl12(sub(sub(sub(va, vb0), vc), vd0)), cl12(sub(sub(sub(va, vb1), vc), vd1)), a0];
        if major > 0 {
            e0.swap(0, major);
            e1.swap(0, major);
        }
        t.push((e0, e1));
    }
    let idx = mk_bits(vec![bit(v[1], 7), bit(v[2], 7), bit(v[3], 7), bit(v[4], 7), bit(v[5], 7)]);
    pick_by(idx, t)
}
fn endpoints(cem: usize, v: &[N], nm: &mut Names) -> (Pt, Pt) {
    let mut transfer = |a: N, b: N| {
        let (x, y) = transfer(a, b);
        (nm.name(x), nm.name(y))
    };
    let ff = cst(255);
    let one = cst(0x780);
    let gray = |x: N, a: N| [x, x, x, a];
    match cem {
        0 => (gray(v[0], ff), gray(v[1], ff)),
        1 => {
            let l0 = add(slice(v[0], 2, 6), mulc(slice(v[1], 6, 2), 64));
            let l1 = cl8(add(l0, slice(v[1], 0, 6)));
            (gray(l0, ff), gray(l1, ff))
        }
        2 => {
            let up = le(v[0], v[1]);
            let (a, b) = (mulc(v[0], 16), mulc(v[1], 16));
            (gray(ite(up, a, add(b, cst(8))), one), gray(ite(up, b, sub(a, cst(8))), one))
        }
        3 => {
            let wide = slice(v[0], 7, 1);
            let y = |n: u8, s: i128| (add(mulc(slice(v[1], n, 8 - n), 1 << (n + 4)), mulc(slice(v[0], 0, 7), s)), mulc(slice(v[1], 0, n), s));
            let (w, n) = (y(5, 4), y(4, 2));
            let y0 = ite(wide, w.0, n.0);
            let d = ite(wide, w.1, n.1);
            (gray(y0, one), gray(cl12(add(y0, d)), one))
        }
        4 => (gray(v[0], v[2]), gray(v[1], v[3])),
        5 => {
            let (l1, l0) = transfer(v[1], v[0]);
            let (a1, a0) = transfer(v[3], v[2]);
            (each(gray(l0, a0), &cl8), each(gray(add(l0, l1), add(a0, a1)), &cl8))
        }
        6 | 10 => {
            let s = |x: N| fdiv(mul(x, v[3]), cst(256));
            let (a0, a1) = if cem == 6 { (ff, ff) } else { (v[4], v[5]) };
            ([s(v[0]), s(v[1]), s(v[2]), a0], [v[0], v[1], v[2], a1])
        }
        7 => hdr_scale(v),
        8 | 12 => {
            let (a0, a1) = if cem == 8 { (ff, ff) } else { (v[6], v[7]) };
            let up = le(add(add(v[0], v[2]), v[4]), add(add(v[1], v[3]), v[5]));
            let (p, q) = ([v[0], v[2], v[4], a0], [v[1], v[3], v[5], a1]);
            either(up, (p, q), (contract(q), contract(p)))
        }
        9 | 13 => {
            let (d0, p0) = transfer(v[1], v[0]);
            let (d1, p1) = transfer(v[3], v[2]);
            let (d2, p2) = transfer(v[5], v[4]);
            let (a0, a1) = if cem == 9 {
                (ff, ff)
            } else {
                let (d, p) = transfer(v[7], v[6]);
                (p, add(p, d))
            };
            let p = [p0, p1, p2, a0];
            let q = [add(p0, d0), add(p1, d1), add(p2, d2), a1];
            let up = le(cst(0), add(add(d0, d1), d2));
            let (x, y) = either(up, (p, q), (contract(q), contract(p)));
            (each(x, &cl8), each(y, &cl8))
        }
        11 => hdr_rgb(v, one, one),
        14 => hdr_rgb(v, v[6], v[7]),
        _ => {
            let idx = mk_bits(vec![bit(v[6], 7), bit(v[7], 7)]);
            let (mut t0, mut t1) = (vec![], vec![]);
            for m in 0..4usize {
                let (x, y) = (slice(v[6], 0, 7), slice(v[7], 0, 7));
                if m == 3 {
                    t0.push(mulc(x, 32));
                    t1.push(mulc(y, 32));
                    continue;
                }
                let n = 6 - m as u8;
                let base = add(x, mulc(slice(y, n, 7 - n), 128));
                let off = sub(slice(y, 0, n), mulc(slice(y, n - 1, 1), 1 << n));
                let s = 1 << (4 - m);
                t0.push(mulc(base, s));
                t1.push(cl12(mulc(add(base, off), s)));
            }
            hdr_rgb(v, sel(idx, t0), sel(idx, t1))
        }
    }
}
fn hash52(mut p: u32) -> u32 {
    p ^= p >> 15;
    p = p.wrapping_sub(p << 17);
    p = p.wrapping_add(p << 7);
    p = p.wrapping_add(p << 4);
    p ^= p >> 5;
    p = p.wrapping_add(p << 16);
    p ^= p >> 7;
    p ^= p >> 3;
    p ^= p << 6;
    p ^ p >> 17
}
fn partition(h: &Head, index: usize, mut x: usize, mut y: usize) -> usize {
    if h.bw * h.bh < 31 {
        x *= 2;
        y *= 2;
    }
    let n = h.parts;
    let seed = index + (n - 1) * 1024;
    let r = hash52(seed as u32);
    let s1 = if seed & 2 != 0 { 4 } else { 5 };
    let s2 = if n == 3 { 6 } else { 5 };
    let (s1, s2) = if seed & 1 != 0 { (s1, s2) } else { (s2, s1) };
    let q = |i: usize| {
        let v = r >> (4 * i) & 15;
        ((v * v) >> if i % 2 == 0 { s1 } else { s2 }) as usize
    };
    let at = |i: usize, sh: usize| (q(i) * x + q(i + 1) * y + (r >> sh) as usize) & 63;
    let a = at(0, 14);
    let b = at(2, 10);
    let c = if n < 3 { 0 } else { at(4, 6) };
    let d = if n < 4 { 0 } else { at(6, 2) };
    if a >= b && a >= c && a >= d {
        0
    } else if b >= c && b >= d {
        1
    } else if c >= d {
        2
    } else {
        3
    }
}
/// 16-bit logarithmic value to eight bits
fn hdr8(c: N) -> N {
    let m = slice(c, 0, 11);
    let mt = ite(lt(m, cst(512)), mulc(m, 3), ite(lt(m, cst(1536)), sub(mulc(m, 4), cst(512)), sub(mulc(m, 5), cst(2048))));
    let h = fdiv(mt, cst(8));
    let e = slice(c, 11, 5);
    // 255 times the half-precision number, truncated and saturated
    sel(
        e,
        (0..32i128)
            .map(|x| {
                if x >= 15 {
                    cst(255)
                } else if x == 0 {
                    fdiv(mulc(h, 255), cst(1 << 24))
                } else {
                    fdiv(mulc(add(h, cst(1024)), 255), cst(1 << (25 - x)))
                }
            })
            .collect(),
    )
}
fn ldr8(c: N) -> N {
    fdiv(add(mulc(c, 255), cst(32768)), cst(65536))
}

/// what the specification computes, with the values it goes through
pub struct Spec {
    pub px: Vec<N>,
    pub names: Names,
}

fn spec(d: &[N], h: &Head) -> Spec {
    let n = h.bw * h.bh;
    let l = match h.layout() {
        Some(l) => l,
        None => return Spec { px: vec![cst(0xffff00ff); n], names: Names::default() },
    };
    let mut nm = Names::new("spec");
    let at = |i: usize| bit(d[i / 8], (i % 8) as u32);
    let start = if h.parts == 1 { 17 } else { 29 };
    let v: Vec<N> = sequence(l.range, l.values, &|i| at(start + i)).into_iter().map(|(m, x)| nm.name(value(l.range, &m, x))).collect();
    let w: Vec<N> = sequence(l.g.range, l.g.count(), &|i| at(127 - i)).into_iter().map(|(m, x)| nm.name(weight(l.g.range, &m, x))).collect();
    let mut ep: Vec<(Pt, Pt)> = vec![];
    nm.stage = 1;
    let mut pos = 0;
    for c in &h.cem {
        let k = (c / 4 + 1) * 2;
        nm.stage = 1;
        let (x, y) = endpoints(*c, &v[pos..pos + k], &mut nm);
        nm.stage = 2;
        ep.push((x.map(|z| nm.name(z)), y.map(|z| nm.name(z))));
        pos += k;
    }
    let plane = if l.g.dual {
        let extra = if h.parts > 1 && !h.shared { 3 * h.parts - 4 } else { 0 };
        let p = 128 - l.g.size() - extra - 2;
        Some(bits(d, p, 2))
    } else {
        None
    };
    // the partition of each texel
    let seed = bits(d, 13, 10);
    let mut px = vec![];
    let ds = (1024 + h.bw / 2) / (h.bw - 1);
    let dt = (1024 + h.bh / 2) / (h.bh - 1);
    for t in 0..h.bh {
        for s in 0..h.bw {
            let gs = (ds * s * (l.g.w - 1) + 32) >> 6;
            let gt = (dt * t * (l.g.h - 1) + 32) >> 6;
            let (js, fs, jt, ft) = (gs >> 4, gs & 15, gt >> 4, gt & 15);
            let w11 = (fs * ft + 8) >> 4;
            let w10 = ft - w11;
            let w01 = fs - w11;
            let w00 = 16 - fs - ft + w11;
            let np = 1 + l.g.dual as usize;
            let wt: Vec<N> = (0..np)
                .map(|p| {
                    let g = |x: usize, y: usize, k: usize| {
                        if k == 0 {
                            return cst(0);
                        }
                        mulc(w[(y * l.g.w + x) * np + p], k as i128)
                    };
                    let sum = add(add(g(js, jt, w00), g(js + 1, jt, w01)), add(g(js, jt + 1, w10), g(js + 1, jt + 1, w11)));
                    nm.stage = 1;
                    nm.name(fdiv(add(sum, cst(8)), cst(16)))
                })
                .collect();
            nm.stage = 2;
            let which = if h.parts == 1 {
                cst(0)
            } else {
                match h.index {
                    Some(i) => cst(partition(h, i, s, t) as i128),
                    None => {
                        nm.stage = 1;
                        let p = nm.name(sel(seed, (0..1024).map(|i| cst(partition(h, i, s, t) as i128)).collect()));
                        nm.stage = 2;
                        p
                    }
                }
            };
            let mut out = vec![];
            for ch in 0..4usize {
                let mine = match plane {
                    None => wt[0],
                    Some(p) => nm.name(sel(p, (0..4).map(|k| if k == ch { wt[1] } else { wt[0] }).collect())),
                };
                let hdr = |c: usize| matches!(c, 2 | 3 | 7 | 11 | 15) || (c == 14 && ch < 3);
                let between = |nm: &mut Names, a: N, b: N, hdr: bool| {
                    let two = |z: N| mulc(z, if hdr { 16 } else { 257 });
                    let x = add(add(mul(two(a), sub(cst(64), mine)), mul(two(b), mine)), cst(32));
                    nm.stage = 4;
                    let x = nm.name(fdiv(x, cst(64)));
                    nm.stage = 2;
                    if hdr {
                        hdr8(x)
                    } else {
                        ldr8(x)
                    }
                };
                if h.cem.iter().all(|c| hdr(*c) == hdr(h.cem[0])) {
                    // the endpoints of the texel's partition
                    let pick = |f: &dyn Fn(&(Pt, Pt)) -> N| sel(which, ep.iter().map(|x| f(x)).collect());
                    let (a, b) = (pick(&|x| x.0[ch]), pick(&|x| x.1[ch]));
                    nm.stage = 3;
                    let (a, b) = (nm.name(a), nm.name(b));
                    nm.stage = 2;
                    out.push(between(&mut nm, a, b, hdr(h.cem[0])));
                    continue;
                }
                let by: Vec<N> = (0..h.parts).map(|p| between(&mut nm, ep[p].0[ch], ep[p].1[ch], hdr(h.cem[p]))).collect();
                out.push(sel(which, by));
            }
            px.push(bgra(out[0], out[1], out[2], out[3]));
        }
    }
    Spec { px, names: nm }
}

fn run_head(tcx: TyCtxt<'_>, h: &Head, e: &mut Eq) {
    let fname = "decode_astc_block";
    let tag = format!("astc {}", h.name());
    let mut it = Interp::new(tcx);
    it.naming = Some(Names::new("name"));
    let d = match locate(tcx, fname) {
        Some(d) => d,
        None => return ob("value", &tag, St::Undecided, "no such function"),
    };
    let n = (h.bw * h.bh) as u32;
    let rq = BlockReq { name: fname, nbytes: 16, texels: n, slack: true, mid: vec![h.bw as i128, h.bh as i128], post: vec![], fixed: h.fixed() };
    let mut r = run_block(&mut it, d, &rq);
    let mut names = it.naming.take().unwrap().list;
    if !r.issues.is_empty() {
        // with every value spelled out
        it = Interp::new(tcx);
        r = run_block(&mut it, d, &rq);
        names.clear();
    }
    stats_of(&it);
    let (bad, _) = report_issues("panic", &tag, e, &r.issues);
    if bad > 0 {
        ob("value", &tag, St::Violated, &format!("{fname} panics: {}", first_panic(e, &r.issues)));
    }
    for (x, _) in &r.extra {
        ob("footprint", &format!("{tag}: writes {x}"), St::Violated, &format!("{fname} writes {x}, outside its {}x{} texels", h.bw, h.bh));
    }
    let out = match &r.out {
        Some(o) if !r.issues.iter().any(|i| i.kind == IssueKind::Unsupported) => o.clone(),
        _ => {
            let why = r.issues.first().map(|i| format!("{} in {} at {}", i.what, i.func, i.line)).unwrap_or("the texels are not all written".into());
            ob("value", &tag, St::Undecided, &format!("no summary: {why}"));
            if h.cem.is_empty() && want_only() != "panic" {
                // some of the blocks with this header, read further than they should be
                for (parts, c) in [(1, 0), (1, 8), (1, 12), (2, 0), (2, 8)] {
                    if h.parts == 0 || h.parts == parts {
                        run_head(tcx, &Head { parts, cem: vec![c; parts], shared: true, index: None, ..h.clone() }, e);
                    }
                }
            }
            return;
        }
    };
    if want_only() == "panic" {
        return;
    }
    let want = spec(&r.inp.data, h);
    check_texels(&tag, e, (h.bw, h.bh), &out, &want, &names, &r.inp.data);
}
pub fn first_panic(e: &mut Eq, issues: &[Issue]) -> String {
    issues.iter().map(|i| judge_issue(e, i)).find(|x| matches!(x.0, St::Violated)).map(|x| x.1).unwrap_or_default()
}
fn want_only() -> String {
    std::env::var("WANT").unwrap_or_default()
}
/// every channel of every texel against the specification
fn check_texels(tag: &str, e: &mut Eq, (bw, bh): (usize, usize), out: &[N], want: &Spec, names: &[Name], data: &[N]) {
    let fname = "decode_astc_block";
    let n = out.len().min(bh * bw);
    if want_only() == "footprint" {
        // every influence on a texel is in the block
        let own = leaves(data);
        let (full, mut memo) = spell_out(names);
        let ps: Vec<N> = out[..n].iter().map(|x| subst(*x, &full, &mut memo)).collect();
        if leaves(&ps).iter().all(|x| own.contains(x)) {
            return ob("footprint", tag, St::Ok, "");
        }
        if want.px.is_empty() {
            return ob("footprint", tag, St::Undecided, "depends on more than the block");
        }
    }
    let mut pairs = vec![];
    for t in 0..n {
        for ch in 0..4u8 {
            pairs.push((slice(out[t], ch * 8, 8), slice(want.px[t], ch * 8, 8)));
        }
    }
    let mut cuts = Counts::default();
    let mut same = 0;
    if want.px.len() < n {
        return;
    }
    let own = leaves(data);
    for (i, v) in compare(e, &pairs, names, &want.names.list, &mut cuts).into_iter().enumerate() {
        let (t, ch) = (i / 4, i % 4);
        let chn = ["blue", "green", "red", "alpha"][ch];
        let key = format!("{tag}: texel ({},{}) {chn}", t % bw, t / bw);
        match v {
            Verdict::Equal => same += 1,
            Verdict::Differ(w, a, b) => {
                ob("value", &key, St::Violated, &format!("{fname} gives {a}, the format defines {b}, for {}", show_case(data, &w)));
                let mut old: Vec<N> = w.iter().map(|x| x.0).filter(|x| !own.contains(x)).collect();
                old.truncate(4);
                if !old.is_empty() {
                    ob("footprint", &format!("{key} depends on more than the block"), St::Violated, &format!("{fname} gives {a} where the block defines {b}, with {} outside the block, for {}", old.iter().map(|x| show(*x)).collect::<Vec<_>>().join(", "), show_case(data, &w)));
                }
            }
            Verdict::Unknown => {
                ob("value", &key, St::Undecided, "neither proved equal nor a difference found");
                ob("footprint", &key, St::Undecided, "neither proved to depend on the block alone nor a difference found");
            }
        }
    }
    stat("texel channels proved equal to the format's", same);
    stat("values proved equal on the way", cuts.cuts);
    if same as usize == pairs.len() {
        ob("value", tag, St::Ok, &format!("{same} channels"));
        ob("footprint", tag, St::Ok, "");
    }
}

/// blocks of one colour
fn run_extent(tcx: TyCtxt<'_>, bw: usize, bh: usize, hdr: bool, e: &mut Eq) {
    let fname = "decode_astc_block";
    let tag = format!("astc {bw}x{bh} void extent {}", if hdr { "HDR" } else { "LDR" });
    let d = match locate(tcx, fname) {
        Some(d) => d,
        None => return ob("value", &tag, St::Undecided, "no such function"),
    };
    // without an extent: all coordinates are ones
    let mut fixed: Vec<(usize, bool)> = (0..64).map(|i| (i, true)).collect();
    fixed[0].1 = false;
    fixed[1].1 = false;
    fixed[9].1 = hdr;
    if want_only() != "" {
        // whatever the extent
        fixed.truncate(10);
    }
    let n = bw * bh;
    let mut it = Interp::new(tcx);
    let rq = BlockReq { name: fname, nbytes: 16, texels: n as u32, slack: true, mid: vec![bw as i128, bh as i128], post: vec![], fixed };
    let r = run_block(&mut it, d, &rq);
    stats_of(&it);
    let (bad, _) = report_issues("panic", &tag, e, &r.issues);
    if bad > 0 {
        ob("value", &tag, St::Violated, &format!("{fname} panics: {}", first_panic(e, &r.issues)));
    }
    for (x, _) in &r.extra {
        ob("footprint", &format!("{tag}: writes {x}"), St::Violated, &format!("{fname} writes {x}, outside its {bw}x{bh} texels"));
    }
    let out = match &r.out {
        Some(o) if !r.issues.iter().any(|i| i.kind == IssueKind::Unsupported) => o.clone(),
        _ => {
            let why = r.issues.first().map(|i| format!("{} in {} at {}", i.what, i.func, i.line)).unwrap_or("the texels are not all written".into());
            return ob("value", &tag, St::Undecided, &format!("no summary: {why}"));
        }
    };
    if want_only() == "panic" {
        return;
    }
    let data = &r.inp.data;
    let c: Vec<N> = (0..4).map(|k| if hdr { half8(add(data[8 + 2 * k], mulc(data[9 + 2 * k], 256))) } else { data[9 + 2 * k] }).collect();
    let px = bgra(c[0], c[1], c[2], c[3]);
    let mut out = out;
    if hdr {
        // infinities and NaNs are not legal here: whatever is decoded is right
        for t in out.iter_mut().take(n) {
            let by: Vec<N> = (0..4)
                .map(|ch| {
                    let k = [2, 1, 0, 3][ch];
                    ite(eq(slice(data[9 + 2 * k], 2, 5), cst(31)), slice(px, ch as u8 * 8, 8), slice(*t, ch as u8 * 8, 8))
                })
                .collect();
            *t = bgra(by[2], by[1], by[0], by[3]);
        }
    }
    check_texels(&tag, e, (bw, bh), &out, &Spec { px: if want_only() == "footprint" { vec![] } else { vec![px; n] }, names: Names::default() }, &[], data);
}
/// 255 times a half-precision number, rounded down, from 0 to 255
fn half8(h: N) -> N {
    let m = slice(h, 0, 10);
    let by = (0..32i128)
        .map(|x| match x {
            15.. => cst(255),
            0 => fdiv(mulc(m, 255), cst(1 << 24)),
            _ => fdiv(mulc(add(m, cst(1024)), 255), cst(1 << (25 - x))),
        })
        .collect();
    ite(br_node(bit(h, 15)), cst(0), sel(slice(h, 10, 5), by))
}

/// the footprints a texture may have
const SIZES: [(usize, usize); 14] =
    [(4, 4), (5, 4), (5, 5), (6, 5), (6, 6), (8, 5), (8, 6), (8, 8), (10, 5), (10, 6), (10, 8), (10, 10), (12, 10), (12, 12)];

/// every header there is: one per footprint, block mode, partition count and endpoint modes
fn heads() -> (Vec<Head>, Vec<Head>) {
    let (mut legal, mut illegal) = (vec![], vec![]);
    let mut turn = 0;
    for (bw, bh) in SIZES {
        for mode in 0..2048 {
            let any = |parts: usize| Head { bw, bh, mode, parts, cem: vec![], shared: false, index: None };
            match self::mode(mode) {
                Mode::Void => continue,
                Mode::Grid(g) if g.fits(bw, bh) => {
                    if g.dual {
                        illegal.push(any(4));
                    }
                }
                _ => {
                    illegal.push(any(0));
                    continue;
                }
            }
            let mut put = |h: Head| {
                if h.layout().is_some() {
                    legal.push(h);
                } else if h.parts < 4 || !matches!(self::mode(mode), Mode::Grid(g) if g.dual) {
                    illegal.push(h);
                }
            };
            for cem in 0..16 {
                put(Head { bw, bh, mode, parts: 1, cem: vec![cem], shared: true, index: None });
            }
            for parts in 2..5usize {
                for cem in 0..16 {
                    put(Head { bw, bh, mode, parts, cem: vec![cem; parts], shared: true, index: None });
                }
                for base in 0..3 {
                    turn += 1;
                    let mut r = Rng(turn * 0x9e3779b97f4a7c15 + 1);
                    for _ in 0..4 {
                        r.next();
                    }
                    let mut cem: Vec<usize> = (0..parts).map(|i| (base + if i == turn as usize % parts { 1 } else { r.below(2) as usize }) * 4 + r.below(4) as usize).collect();
                    // the lowest class is the base
                    cem[(turn as usize + 1) % parts] = base * 4 + r.below(4) as usize;
                    put(Head { bw, bh, mode, parts, cem, shared: false, index: Some(r.below(1024) as usize) });
                }
            }
        }
    }
    (legal, illegal)
}
/// what is particular about a header; every value of every one of these is analysed
fn traits(h: &Head, fine: bool) -> Vec<Vec<usize>> {
    let m = match mode(h.mode) {
        Mode::Grid(g) => g,
        _ => return vec![vec![0, h.mode], vec![1, h.bw, h.bh]],
    };
    let code = |r: Range| r.digits * 16 + r.n;
    match h.layout() {
        Some(l) => {
            let g = l.g;
            let kind = (h.parts, h.shared as usize);
            let mut v = vec![
                vec![2, h.mode],
                vec![3, h.bw, h.bh, g.w, g.h, g.dual as usize],
                vec![4, code(g.range), g.count()],
                vec![5, code(l.range), l.values],
                vec![6, l.config, g.dual as usize, kind.0, kind.1],
                vec![7, h.bw, h.bh, kind.0, kind.1],
                vec![8, h.cem[0], g.dual as usize, kind.0, kind.1],
            ];
            if fine {
                v.push(vec![9, g.size(), kind.0, kind.1, g.dual as usize]);
            }
            for (i, c) in h.cem.iter().enumerate() {
                v.push(if fine { vec![10, *c, i, h.parts, code(l.range)] } else { vec![10, *c, i.min(1), code(l.range)] });
            }
            v
        }
        None => {
            let mut v = vec![vec![11, h.mode], vec![12, h.bw, h.bh, h.parts, h.cem.is_empty() as usize]];
            if h.parts == 0 {
                v.push(vec![13, h.bw, h.bh, m.w, m.h]);
            }
            if !h.cem.is_empty() {
                let values: usize = h.cem.iter().map(|c| (c / 4 + 1) * 2).sum();
                v.push(vec![14, values, h.parts, h.shared as usize, if fine { m.size() } else { m.size() / 8 }]);
            }
            v
        }
    }
}
/// headers in a pseudo-random order; first those which show something new, then `more` others
fn choose(mut q: Vec<Head>, r: &mut Rng, fine: bool, more: usize) -> Vec<Head> {
    for i in (1..q.len()).rev() {
        q.swap(i, r.below(i as u64 + 1) as usize);
    }
    // cheap ones before costly ones
    q.sort_by_key(|h| {
        let hdr = h.cem.iter().any(|c| matches!(c, 2 | 3 | 7 | 11 | 14 | 15));
        let cost = h.bw * h.bh * if hdr { 6 } else { 1 };
        (cost > 64) as u8 + (cost > 150) as u8
    });
    let mut seen = std::collections::HashSet::new();
    let (mut a, mut b) = (vec![], vec![]);
    for h in q {
        let t = traits(&h, fine);
        if t.iter().any(|x| !seen.contains(x)) {
            seen.extend(t);
            a.push(h);
        } else {
            b.push(h);
        }
    }
    b.truncate(more);
    a.extend(b);
    a
}

enum Case {
    Block(Head),
    Extent(usize, usize, bool),
}

/// which: blocks | special (illegal blocks and void extents) | all
pub fn astc(tcx: TyCtxt<'_>, which: &str) {
    let only = std::env::var("ONLY").unwrap_or_default();
    let thorough = std::env::var("TIER").map(|x| x == "thorough").unwrap_or(false);
    let num = |k: &str, d: usize| std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d);
    let mut r = Rng(seed() ^ 0xa57c);
    let (mut legal, mut illegal) = heads();
    stat("legal headers there are", legal.len() as u64);
    stat("illegal headers there are", illegal.len() as u64);
    if which == "special" {
        legal.clear();
    }
    if which == "blocks" {
        illegal.clear();
    }
    let more = num("MORE", if thorough { 300 } else { 0 });
    let mut q: Vec<Case> = vec![];
    let (a, b) = if only.is_empty() { (choose(legal, &mut r, thorough, more), choose(illegal, &mut r, thorough, more)) } else { (legal, illegal) };
    q.extend(a.into_iter().chain(b).filter(|h| h.name().contains(&only)).map(Case::Block));
    if which != "blocks" && (only.is_empty() || only.contains("void")) {
        for (bw, bh) in SIZES {
            q.push(Case::Extent(bw, bh, false));
            q.push(Case::Extent(bw, bh, true));
        }
    }
    let q: Vec<Case> = q.into_iter().step_by(num("STEP", 1)).collect();
    stat("headers and void extents analysed", q.len() as u64);
    let lost = par(q.len(), 8, 300, &|i| {
        reset();
        g().narrow = true;
        let mut e = Eq::new();
        match &q[i] {
            Case::Block(h) => run_head(tcx, h, &mut e),
            Case::Extent(w, h, hdr) => run_extent(tcx, *w, *h, *hdr, &mut e),
        }
    });
    for i in lost {
        let name = match &q[i] {
            Case::Block(h) => h.name(),
            Case::Extent(w, h, hdr) => format!("{w}x{h} void extent {hdr}"),
        };
        ob("value", &format!("astc {name}"), St::Undecided, "analysis ran out of time");
    }
}
