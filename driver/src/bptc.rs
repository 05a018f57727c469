//! BC7 and BC6H (BPTC): the formats as specified, and the analysis of their decoders.
//! Mode, partition, rotation and index selection are enumerated; everything else
//! in the block stays symbolic.
use crate::blocks::*;
use crate::equal::*;
use crate::interp::*;
use crate::job::*;
use crate::node::*;
use crate::report::*;
use crate::spec::{bgra, cat, le as bits, widen};
use rustc_middle::ty::TyCtxt;

const W2: [i128; 4] = [0, 21, 43, 64];
const W3: [i128; 8] = [0, 9, 18, 27, 37, 46, 55, 64];
const W4: [i128; 16] = [0, 4, 9, 13, 17, 21, 26, 30, 34, 38, 43, 47, 51, 55, 60, 64];
const P2: [u32; 64] = [
    0xcccc, 0x8888, 0xeeee, 0xecc8, 0xc880, 0xfeec, 0xfec8, 0xec80, 0xc800, 0xffec, 0xfe80, 0xe800, 0xffe8, 0xff00, 0xfff0, 0xf000, 0xf710, 0x008e,
    0x7100, 0x08ce, 0x008c, 0x7310, 0x3100, 0x8cce, 0x088c, 0x3110, 0x6666, 0x366c, 0x17e8, 0x0ff0, 0x718e, 0x399c, 0xaaaa, 0xf0f0, 0x5a5a, 0x33cc,
    0x3c3c, 0x55aa, 0x9696, 0xa55a, 0x73ce, 0x13c8, 0x324c, 0x3bdc, 0x6996, 0xc33c, 0x9966, 0x0660, 0x0272, 0x04e4, 0x4e40, 0x2720, 0xc936, 0x936c,
    0x39c6, 0x639c, 0x9336, 0x9cc6, 0x817e, 0xe718, 0xccf0, 0x0fcc, 0x7744, 0xee22,
];
const P3: [u32; 64] = [
    0xaa685050, 0x6a5a5040, 0x5a5a4200, 0x5450a0a8, 0xa5a50000, 0xa0a05050, 0x5555a0a0, 0x5a5a5050, 0xaa550000, 0xaa555500, 0xaaaa5500, 0x90909090,
    0x94949494, 0xa4a4a4a4, 0xa9a59450, 0x2a0a4250, 0xa5945040, 0x0a425054, 0xa5a5a500, 0x55a0a0a0, 0xa8a85454, 0x6a6a4040, 0xa4a45000, 0x1a1a0500,
    0x0050a4a4, 0xaaa59090, 0x14696914, 0x69691400, 0xa08585a0, 0xaa821414, 0x50a4a450, 0x6a5a0200, 0xa9a58000, 0x5090a0a8, 0xa8a09050, 0x24242424,
    0x00aa5500, 0x24924924, 0x24499224, 0x50a50a50, 0x500aa550, 0xaaaa4444, 0x66660000, 0xa5a0a5a0, 0x50a050a0, 0x69286928, 0x44aaaa44, 0x66666600,
    0xaa444444, 0x54a854a8, 0x95809580, 0x96969600, 0xa85454a8, 0x80959580, 0xaa141414, 0x96960000, 0xaaaa1414, 0xa05050a0, 0xa0a5a5a0, 0x96000000,
    0x40804080, 0xa9a8a9a8, 0xaaaaaa44, 0x2a4a5254,
];
const A2: [usize; 64] = [
    15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 2, 8, 2, 2, 8, 8, 15, 2, 8, 2, 2, 8, 8, 2, 2, 15, 15, 6, 8, 2, 8, 15, 15, 2, 8,
    2, 2, 2, 15, 15, 6, 6, 2, 6, 8, 15, 15, 2, 2, 15, 15, 15, 15, 15, 2, 2, 15,
];
const A3: [[usize; 64]; 2] = [
    [
        3, 3, 15, 15, 8, 3, 15, 15, 8, 8, 6, 6, 6, 5, 3, 3, 3, 3, 8, 15, 3, 3, 6, 10, 5, 8, 8, 6, 8, 5, 15, 15, 8, 15, 3, 5, 6, 10, 8, 15, 15, 3, 15, 5,
        15, 15, 15, 15, 3, 15, 5, 5, 5, 8, 5, 10, 5, 10, 8, 13, 15, 12, 3, 3,
    ],
    [
        15, 8, 8, 3, 15, 15, 3, 8, 15, 15, 15, 15, 15, 15, 15, 8, 15, 8, 15, 3, 15, 8, 15, 8, 3, 15, 6, 10, 15, 15, 10, 8, 15, 3, 15, 10, 10, 8, 9, 10,
        6, 15, 8, 15, 3, 6, 6, 8, 15, 3, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 3, 15, 15, 8,
    ],
];

fn weights(n: usize) -> Vec<N> {
    match n {
        2 => W2.iter().map(|x| cst(*x)).collect(),
        3 => W3.iter().map(|x| cst(*x)).collect(),
        _ => W4.iter().map(|x| cst(*x)).collect(),
    }
}
fn lerp(a: N, b: N, idx: N, n: usize) -> N {
    // ((64 - w) a + w b + 32) / 64 for each weight
    let v = weights(n).into_iter().map(|w| {
        let w = konst(w).unwrap();
        fdiv(add(add(mulc(a, 64 - w), mulc(b, w)), cst(32)), cst(64))
    });
    sel(idx, v.collect())
}

// ------------------------------------------------------------------ BC7

struct Mode7 {
    subsets: usize,
    part: usize,
    rot: usize,
    isel: usize,
    color: usize,
    alpha: usize,
    epb: usize,
    spb: usize,
    i1: usize,
    i2: usize,
}
const fn m7(subsets: usize, part: usize, rot: usize, isel: usize, color: usize, alpha: usize, epb: usize, spb: usize, i1: usize, i2: usize) -> Mode7 {
    Mode7 { subsets, part, rot, isel, color, alpha, epb, spb, i1, i2 }
}
const MODES7: [Mode7; 8] = [
    m7(3, 4, 0, 0, 4, 0, 1, 0, 3, 0),
    m7(2, 6, 0, 0, 6, 0, 0, 1, 3, 0),
    m7(3, 6, 0, 0, 5, 0, 0, 0, 2, 0),
    m7(2, 6, 0, 0, 7, 0, 1, 0, 2, 0),
    m7(1, 0, 2, 1, 5, 6, 0, 0, 2, 3),
    m7(1, 0, 2, 0, 7, 8, 0, 0, 2, 2),
    m7(1, 0, 0, 0, 7, 7, 1, 0, 4, 0),
    m7(2, 6, 0, 0, 5, 5, 1, 0, 2, 0),
];

#[derive(Clone)]
pub struct Case {
    pub fmt: &'static str,
    pub name: String,
    pub fixed: Vec<(usize, bool)>,
    mode: usize,
    part: usize,
    rot: usize,
    isel: usize,
    signed: bool,
}

fn field(v: &mut Vec<(usize, bool)>, at: usize, n: usize, x: usize) {
    for i in 0..n {
        v.push((at + i, x >> i & 1 == 1));
    }
}

fn cases7() -> Vec<Case> {
    let mut v = vec![];
    for (mode, m) in MODES7.iter().enumerate() {
        for part in 0..1 << m.part {
            for rot in 0..1 << m.rot {
                for isel in 0..1 << m.isel {
                    let mut f = vec![];
                    field(&mut f, 0, mode + 1, 1 << mode);
                    field(&mut f, mode + 1, m.part, part);
                    field(&mut f, mode + 1 + m.part, m.rot, rot);
                    field(&mut f, mode + 1 + m.part + m.rot, m.isel, isel);
                    let mut name = format!("mode {mode}");
                    if m.part > 0 {
                        name += &format!(" partition {part}");
                    }
                    if m.rot > 0 {
                        name += &format!(" rotation {rot}");
                    }
                    if m.isel > 0 {
                        name += &format!(" index selection {isel}");
                    }
                    v.push(Case { fmt: "bc7", name, fixed: f, mode, part, rot, isel, signed: false });
                }
            }
        }
    }
    let mut f = vec![];
    field(&mut f, 0, 8, 0);
    v.push(Case { fmt: "bc7", name: "reserved mode".into(), fixed: f, mode: 8, part: 0, rot: 0, isel: 0, signed: false });
    v
}

fn subset_of(subsets: usize, part: usize, t: usize) -> (usize, bool) {
    match subsets {
        1 => (0, t == 0),
        2 => {
            let s = (P2[part] >> t & 1) as usize;
            (s, t == if s == 0 { 0 } else { A2[part] })
        }
        _ => {
            let s = (P3[part] >> (2 * t) & 3) as usize;
            (s, t == if s == 0 { 0 } else { A3[s - 1][part] })
        }
    }
}

/// the texels, and for each the bits that select its weights
fn bc7(d: &[N], c: &Case) -> (Vec<N>, Vec<Vec<N>>) {
    if c.mode == 8 {
        return (vec![cst(0); 16], vec![vec![]; 16]);
    }
    let m = &MODES7[c.mode];
    let mut pos = c.mode + 1 + m.part + m.rot + m.isel;
    let mut take = |n: usize| {
        pos += n;
        bits(d, pos - n, n)
    };
    let ne = m.subsets * 2;
    let mut raw: Vec<Vec<N>> = vec![];
    for ch in 0..4 {
        let n = if ch < 3 { m.color } else { m.alpha };
        raw.push((0..ne).map(|_| if n > 0 { take(n) } else { cst(0) }).collect());
    }
    let p: Vec<N> = if m.epb > 0 {
        (0..ne).map(|_| take(1)).collect()
    } else if m.spb > 0 {
        let s: Vec<N> = (0..m.subsets).map(|_| take(1)).collect();
        (0..ne).map(|i| s[i / 2]).collect()
    } else {
        vec![]
    };
    let mut ep: Vec<Vec<N>> = vec![];
    for ch in 0..4 {
        let n = if ch < 3 { m.color } else { m.alpha };
        ep.push(
            (0..ne)
                .map(|i| {
                    if n == 0 {
                        cst(255)
                    } else if p.is_empty() {
                        widen(raw[ch][i], n as u8, 8)
                    } else {
                        widen(cat(&[(raw[ch][i], n as u8), (p[i], 1)]), n as u8 + 1, 8)
                    }
                })
                .collect(),
        );
    }
    let index: Vec<N> = (0..16).map(|t| take(m.i1 - subset_of(m.subsets, c.part, t).1 as usize)).collect();
    let index2: Vec<N> = if m.i2 > 0 { (0..16).map(|t| take(m.i2 - (t == 0) as usize)).collect() } else { vec![] };
    assert!(pos == 128);
    let by = (0..16).map(|t| if m.i2 > 0 { vec![index[t], index2[t]] } else { vec![index[t]] }).collect();
    let px = (0..16)
        .map(|t| {
            let s = subset_of(m.subsets, c.part, t).0 * 2;
            let (mut ci, mut cn, mut ai, mut an) = (index[t], m.i1, index[t], m.i1);
            if m.i2 > 0 {
                if c.isel == 0 {
                    ai = index2[t];
                    an = m.i2;
                } else {
                    ci = index2[t];
                    cn = m.i2;
                }
            }
            let mut v: Vec<N> = (0..3).map(|ch| lerp(ep[ch][s], ep[ch][s + 1], ci, cn)).collect();
            v.push(if m.alpha == 0 { cst(255) } else { lerp(ep[3][s], ep[3][s + 1], ai, an) });
            if c.rot > 0 {
                v.swap(c.rot - 1, 3);
            }
            bgra(v[0], v[1], v[2], v[3])
        })
        .collect();
    (px, by)
}

// ------------------------------------------------------------------ BC6H

struct Mode6 {
    code: usize,
    two: bool,
    delta: bool,
    prec: usize,
    dbits: [usize; 3],
    layout: &'static str,
}
/// the order of the bits after the mode field; `r0[10:15]` runs upwards from the first
const MODES6: [Mode6; 14] = [
    Mode6 { code: 0, two: true, delta: true, prec: 10, dbits: [5, 5, 5], layout: "g2[4] b2[4] b3[4] r0[9:0] g0[9:0] b0[9:0] r1[4:0] g3[4] g2[3:0] g1[4:0] b3[0] g3[3:0] b1[4:0] b3[1] b2[3:0] r2[4:0] b3[2] r3[4:0] b3[3]" },
    Mode6 { code: 1, two: true, delta: true, prec: 7, dbits: [6, 6, 6], layout: "g2[5] g3[4] g3[5] r0[6:0] b3[0] b3[1] b2[4] g0[6:0] b2[5] b3[2] g2[4] b0[6:0] b3[3] b3[5] b3[4] r1[5:0] g2[3:0] g1[5:0] g3[3:0] b1[5:0] b2[3:0] r2[5:0] r3[5:0]" },
    Mode6 { code: 2, two: true, delta: true, prec: 11, dbits: [5, 4, 4], layout: "r0[9:0] g0[9:0] b0[9:0] r1[4:0] r0[10] g2[3:0] g1[3:0] g0[10] b3[0] g3[3:0] b1[3:0] b0[10] b3[1] b2[3:0] r2[4:0] b3[2] r3[4:0] b3[3]" },
    Mode6 { code: 6, two: true, delta: true, prec: 11, dbits: [4, 5, 4], layout: "r0[9:0] g0[9:0] b0[9:0] r1[3:0] r0[10] g3[4] g2[3:0] g1[4:0] g0[10] g3[3:0] b1[3:0] b0[10] b3[1] b2[3:0] r2[3:0] b3[0] b3[2] r3[3:0] g2[4] b3[3]" },
    Mode6 { code: 10, two: true, delta: true, prec: 11, dbits: [4, 4, 5], layout: "r0[9:0] g0[9:0] b0[9:0] r1[3:0] r0[10] b2[4] g2[3:0] g1[3:0] g0[10] b3[0] g3[3:0] b1[4:0] b0[10] b2[3:0] r2[3:0] b3[1] b3[2] r3[3:0] b3[4] b3[3]" },
    Mode6 { code: 14, two: true, delta: true, prec: 9, dbits: [5, 5, 5], layout: "r0[8:0] b2[4] g0[8:0] g2[4] b0[8:0] b3[4] r1[4:0] g3[4] g2[3:0] g1[4:0] b3[0] g3[3:0] b1[4:0] b3[1] b2[3:0] r2[4:0] b3[2] r3[4:0] b3[3]" },
    Mode6 { code: 18, two: true, delta: true, prec: 8, dbits: [6, 5, 5], layout: "r0[7:0] g3[4] b2[4] g0[7:0] b3[2] g2[4] b0[7:0] b3[3] b3[4] r1[5:0] g2[3:0] g1[4:0] b3[0] g3[3:0] b1[4:0] b3[1] b2[3:0] r2[5:0] r3[5:0]" },
    Mode6 { code: 22, two: true, delta: true, prec: 8, dbits: [5, 6, 5], layout: "r0[7:0] b3[0] b2[4] g0[7:0] g2[5] g2[4] b0[7:0] g3[5] b3[4] r1[4:0] g3[4] g2[3:0] g1[5:0] g3[3:0] b1[4:0] b3[1] b2[3:0] r2[4:0] b3[2] r3[4:0] b3[3]" },
    Mode6 { code: 26, two: true, delta: true, prec: 8, dbits: [5, 5, 6], layout: "r0[7:0] b3[1] b2[4] g0[7:0] b2[5] g2[4] b0[7:0] b3[5] b3[4] r1[4:0] g3[4] g2[3:0] g1[4:0] b3[0] g3[3:0] b1[5:0] b2[3:0] r2[4:0] b3[2] r3[4:0] b3[3]" },
    Mode6 { code: 30, two: true, delta: false, prec: 6, dbits: [6, 6, 6], layout: "r0[5:0] g3[4] b3[0] b3[1] b2[4] g0[5:0] g2[5] b2[5] b3[2] g2[4] b0[5:0] g3[5] b3[3] b3[5] b3[4] r1[5:0] g2[3:0] g1[5:0] g3[3:0] b1[5:0] b2[3:0] r2[5:0] r3[5:0]" },
    Mode6 { code: 3, two: false, delta: false, prec: 10, dbits: [10, 10, 10], layout: "r0[9:0] g0[9:0] b0[9:0] r1[9:0] g1[9:0] b1[9:0]" },
    Mode6 { code: 7, two: false, delta: true, prec: 11, dbits: [9, 9, 9], layout: "r0[9:0] g0[9:0] b0[9:0] r1[8:0] r0[10] g1[8:0] g0[10] b1[8:0] b0[10]" },
    Mode6 { code: 11, two: false, delta: true, prec: 12, dbits: [8, 8, 8], layout: "r0[9:0] g0[9:0] b0[9:0] r1[7:0] r0[10:11] g1[7:0] g0[10:11] b1[7:0] b0[10:11]" },
    Mode6 { code: 15, two: false, delta: true, prec: 16, dbits: [4, 4, 4], layout: "r0[9:0] g0[9:0] b0[9:0] r1[3:0] r0[10:15] g1[3:0] g0[10:15] b1[3:0] b0[10:15]" },
];

fn cases6() -> Vec<Case> {
    let mut v = vec![];
    for signed in [false, true] {
        let fmt = if signed { "bc6 signed" } else { "bc6 unsigned" };
        for (mode, m) in MODES6.iter().enumerate() {
            let mb = if m.code < 2 { 2 } else { 5 };
            for part in 0..if m.two { 32 } else { 1 } {
                let mut f = vec![];
                field(&mut f, 0, mb, m.code);
                if m.two {
                    field(&mut f, 77, 5, part);
                }
                let name = if m.two { format!("mode {} partition {part}", m.code) } else { format!("mode {}", m.code) };
                v.push(Case { fmt, name, fixed: f, mode, part, rot: 0, isel: 0, signed });
            }
        }
        for code in [19, 23, 27, 31] {
            let mut f = vec![];
            field(&mut f, 0, 5, code);
            v.push(Case { fmt, name: format!("reserved mode {code}"), fixed: f, mode: 99, part: 0, rot: 0, isel: 0, signed });
        }
    }
    v
}
fn sext(x: N, n: usize) -> N {
    sub(x, mulc(br_node(bit(x, n as u32 - 1)), 1 << n))
}
/// the eight-bit value of a half-precision number that is not negative: 255 times it, truncated and saturated
fn unorm(h: N) -> N {
    let e = slice(h, 10, 5);
    let m = slice(h, 0, 10);
    let v = (0..32i128)
        .map(|x| {
            if x >= 15 {
                cst(255)
            } else if x == 0 {
                fdiv(mulc(m, 255), cst(1 << 24))
            } else {
                fdiv(mulc(add(m, cst(1024)), 255), cst(1 << (25 - x)))
            }
        })
        .collect();
    sel(e, v)
}
fn bc6(d: &[N], c: &Case) -> (Vec<N>, Vec<Vec<N>>) {
    if c.mode == 99 {
        return (vec![cst(0xff000000); 16], vec![vec![]; 16]);
    }
    let m = &MODES6[c.mode];
    let mut pos = if m.code < 2 { 2 } else { 5 };
    let mut raw = [[vec![BR::Zero; 16], vec![BR::Zero; 16], vec![BR::Zero; 16], vec![BR::Zero; 16]], [vec![BR::Zero; 16], vec![BR::Zero; 16], vec![BR::Zero; 16], vec![BR::Zero; 16]], [vec![BR::Zero; 16], vec![BR::Zero; 16], vec![BR::Zero; 16], vec![BR::Zero; 16]]];
    for w in m.layout.split(' ') {
        let ch = "rgb".find(&w[0..1]).unwrap();
        let e: usize = w[1..2].parse().unwrap();
        let r = &w[3..w.len() - 1];
        let ix: Vec<usize> = match r.split_once(':') {
            None => vec![r.parse().unwrap()],
            Some((a, b)) => {
                let (a, b): (usize, usize) = (a.parse().unwrap(), b.parse().unwrap());
                // fields are stored from their low bit up, except the reversed ones
                if a > b {
                    (b..=a).collect()
                } else {
                    (a..=b).rev().collect()
                }
            }
        };
        for i in ix {
            raw[ch][e][i] = bit(d[pos / 8], (pos % 8) as u32);
            pos += 1;
        }
    }
    let part_at = pos;
    assert!(part_at == if m.two { 77 } else { 65 });
    let ne = if m.two { 4 } else { 2 };
    let mut ep: Vec<Vec<N>> = vec![];
    for ch in 0..3 {
        let mut v: Vec<N> = vec![];
        for e in 0..ne {
            let n = if e == 0 || !m.delta { m.prec } else { m.dbits[ch] };
            let x = mk_bits(raw[ch][e][..n].to_vec());
            let y = if e > 0 && m.delta {
                let s = wrap(add(sext(x, n), v[0]), m.prec as u8, false);
                if c.signed {
                    sext(s, m.prec)
                } else {
                    s
                }
            } else if c.signed {
                sext(x, n)
            } else {
                x
            };
            v.push(y);
        }
        ep.push(v.into_iter().map(|x| unquant(x, m.prec, c.signed)).collect());
    }
    pos = if m.two { 82 } else { 65 };
    let n = if m.two { 3 } else { 4 };
    let mut by = vec![];
    let px = (0..16)
        .map(|t| {
            let (s, anchor) = subset_of(if m.two { 2 } else { 1 }, c.part, t);
            let k = n - anchor as usize;
            let idx = bits(d, pos, k);
            pos += k;
            by.push(vec![idx]);
            let v: Vec<N> = (0..3)
                .map(|ch| {
                    let x = lerp(ep[ch][2 * s], ep[ch][2 * s + 1], idx, n);
                    if c.signed {
                        // negative values have no eight-bit value but zero
                        let h = fdiv(mulc(x, 31), cst(32));
                        ite(lt(x, cst(0)), cst(0), unorm(ite(lt(h, cst(0)), cst(0), h)))
                    } else {
                        unorm(fdiv(mulc(x, 31), cst(64)))
                    }
                })
                .collect();
            bgra(v[0], v[1], v[2], cst(255))
        })
        .collect();
    (px, by)
}
fn unquant(x: N, prec: usize, signed: bool) -> N {
    if !signed {
        if prec >= 15 {
            return x;
        }
        let q = fdiv(add(mulc(x, 1 << 16), cst(0x8000)), cst(1 << prec));
        return ite(eq(x, cst(0)), cst(0), ite(eq(x, cst((1 << prec) - 1)), cst(0xffff), q));
    }
    if prec >= 16 {
        return x;
    }
    let neg = lt(x, cst(0));
    let a = ite(neg, sub(cst(0), x), x);
    let q = fdiv(add(mulc(a, 1 << 15), cst(0x4000)), cst(1 << (prec - 1)));
    let u = ite(eq(a, cst(0)), cst(0), ite(lt(a, cst((1 << (prec - 1)) - 1)), q, cst(0x7fff)));
    ite(neg, sub(cst(0), u), u)
}

// ------------------------------------------------------------------ analysis

fn run_case(tcx: TyCtxt<'_>, c: &Case, e: &mut Eq) {
    let fname = if c.fmt == "bc7" { "decode_bc7_block" } else { "decode_bc6_block" };
    let mut it = Interp::new(tcx);
    let tag = format!("{} {}", c.fmt, c.name);
    let d = match locate(tcx, fname) {
        Some(d) => d,
        None => return ob("value", &tag, St::Undecided, "no such function"),
    };
    let post = if c.fmt == "bc7" { vec![] } else { vec![c.signed as i128] };
    let r = run_block(&mut it, d, &BlockReq { name: fname, nbytes: 16, texels: 16, slack: true, mid: vec![], post, fixed: c.fixed.clone() });
    stats_of(&it);
    report_issues("panic", &tag, e, &r.issues);
    for (x, _) in &r.extra {
        ob("footprint", &format!("{tag}: writes {x}"), St::Violated, &format!("{fname} writes {x}, outside its 4x4 texels"));
    }
    let out = match &r.out {
        Some(o) if !r.issues.iter().any(|i| i.kind == IssueKind::Unsupported) => o.clone(),
        _ => {
            let why = r.issues.first().map(|i| format!("{} in {} at {}", i.what, i.func, i.line)).unwrap_or("the texels are not all written".into());
            ob("value", &tag, St::Undecided, &format!("no summary: {why}"));
            return;
        }
    };
    let (want, by) = if c.fmt == "bc7" { bc7(&r.inp.data, c) } else { bc6(&r.inp.data, c) };
    let values = std::env::var("WANT").map(|x| x == "value" || x.is_empty()).unwrap_or(true);
    for t in 0..16 {
        for ch in 0..4u8 {
            let chn = ["blue", "green", "red", "alpha"][ch as usize];
            let key = format!("{tag}: texel ({},{}) {chn}", t % 4, t / 4);
            let (x, y) = (slice(out[t], ch * 8, 8), slice(want[t], ch * 8, 8));
            let sel: Vec<(N, u8)> = by[t].iter().flat_map(|n| support(*n)).collect();
            let v = if !values {
                Verdict::Equal
            } else {
                match e.tabulate_by(x, y, &sel) {
                    Some(v) => v,
                    None => e.equal(x, y),
                }
            };
            match v {
                _ if !values => {}
                Verdict::Equal => ob("value", &key, St::Ok, ""),
                Verdict::Differ(w, a, b) => ob("value", &key, St::Violated, &format!("{fname} gives {a}, the format defines {b}, for {}", show_case(&r.inp.data, &w))),
                Verdict::Unknown => {
                    if std::env::var("EQDBG").is_ok() {
                        println!("UNKNOWN {key}\n  {}\n  {}", show(x), show(y));
                    }
                    ob("value", &key, St::Undecided, "neither proved equal nor a difference found")
                }
            }
            // what a texel is made of
            if !leaves(&[x]).iter().all(|l| leaves(&r.inp.data).contains(l)) {
                let key = format!("{tag}: texel ({},{}) {chn} depends on more than the block", t % 4, t / 4);
                match e.equal(x, y) {
                    Verdict::Equal => {}
                    Verdict::Differ(w, a, b) => ob("footprint", &key, St::Violated, &format!("{fname} gives {a}, the format defines {b}, for {}", show_case(&r.inp.data, &w))),
                    Verdict::Unknown => ob("footprint", &key, St::Undecided, "influence not excluded"),
                }
            }
        }
    }
    ob("footprint", &tag, St::Ok, "");
}

/// a witness as the bytes of the block, and whatever else it names
pub fn show_case(data: &[N], w: &[(N, i128)]) -> String {
    let m: std::collections::HashMap<N, i128> = w.iter().cloned().collect();
    let mut ev = Evaluator::new(data);
    let mut full = m.clone();
    for l in leaves(data) {
        full.entry(l).or_insert(0);
    }
    ev.run(&full);
    let bytes: Vec<String> = data.iter().map(|b| format!("{:02x}", ev.get(*b))).collect();
    let ins = leaves(data);
    let other: Vec<(N, i128)> = w.iter().filter(|x| !ins.contains(&x.0)).cloned().collect();
    if other.is_empty() {
        format!("the block {}", bytes.join(" "))
    } else {
        format!("the block {} with {}", bytes.join(" "), show_witness(&other))
    }
}

pub fn bptc(tcx: TyCtxt<'_>) {
    let only = std::env::var("ONLY").unwrap_or_default();
    let mut q = cases7();
    q.extend(cases6());
    let q: Vec<Case> = q.into_iter().filter(|c| format!("{} {}", c.fmt, c.name).contains(&only)).collect();
    // cases of one mode share their tables
    let mut groups: Vec<Vec<&Case>> = vec![];
    for c in &q {
        let room = if c.fmt == "bc7" { 16 } else { 32 };
        match groups.last_mut() {
            Some(g) if g[0].fmt == c.fmt && g[0].mode == c.mode && g.len() < room => g.push(c),
            _ => groups.push(vec![c]),
        }
    }
    groups.sort_by_key(|g| g[0].fmt == "bc7");
    let lost = par(groups.len(), 8, 400, &|i| {
        reset();
        let mut e = Eq::new();
        for c in &groups[i] {
            run_case(tcx, c, &mut e);
        }
        stat("channels equal by value number", e.by_struct);
        stat("channels equal by table", e.by_table);
        stat("channels equal by decision diagram", e.by_split);
    });
    for i in lost {
        let g = &groups[i];
        ob("value", &format!("{} {} and on", g[0].fmt, g[0].name), St::Undecided, "analysis ran out of time");
    }
}
