//! The formats as their specifications define them, written directly over the
//! bits of a block.  Nothing here looks at the crate under analysis.
use crate::node::*;

/// `n` bits starting at bit `lo` of a block read as one little-endian number
pub fn le(d: &[N], lo: usize, n: usize) -> N {
    mk_bits((lo..lo + n).map(|i| bit(d[i / 8], (i % 8) as u32)).collect())
}
/// bits `hi..=lo` of an 8-byte block read as one big-endian 64-bit number (ETC numbering)
pub fn be(d: &[N], hi: usize, lo: usize) -> N {
    mk_bits((lo..=hi).map(|i| bit(d[7 - i / 8], (i % 8) as u32)).collect())
}
pub fn cat(parts: &[(N, u8)]) -> N {
    // most significant part first
    let mut v = vec![];
    for (p, w) in parts.iter().rev() {
        for i in 0..*w {
            v.push(bit(*p, i as u32));
        }
    }
    mk_bits(v)
}
pub fn widen(x: N, from: u8, to: u8) -> N {
    // bit replication
    let mut v = vec![];
    for i in 0..to {
        // bit i of the result, counted from the top
        let t = i % from;
        v.push(bit(x, (from - 1 - t) as u32));
    }
    v.reverse();
    mk_bits(v)
}
pub fn clampn(x: N, lo: i128, hi: i128) -> N {
    let l = lt(x, cst(lo));
    let h = lt(cst(hi), x);
    ite(l, cst(lo), ite(h, cst(hi), x))
}
pub fn bgra(r: N, g: N, b: N, a: N) -> N {
    cat(&[(a, 8), (r, 8), (g, 8), (b, 8)])
}
pub fn chan(t: N, c: u8) -> N {
    slice(t, c * 8, 8)
}
pub fn with_chan(t: N, c: u8, v: N) -> N {
    let p: Vec<(N, u8)> = (0..4u8).rev().map(|i| (if i == c { v } else { chan(t, i) }, 8)).collect();
    cat(&p)
}
fn avg(a: N, wa: i128, b: N, wb: i128, den: i128) -> N {
    fdiv(add(mulc(a, wa), mulc(b, wb)), cst(den))
}
type Px = Vec<N>;

fn bc1_color(d: &[N], three: Option<bool>) -> Px {
    // three: Some(alpha of the fourth entry in three-colour mode)
    let q0 = le(d, 0, 16);
    let q1 = le(d, 16, 16);
    let comp = |o: usize| [widen(le(d, o + 11, 5), 5, 8), widen(le(d, o + 5, 6), 6, 8), widen(le(d, o, 5), 5, 8)];
    let (c0, c1) = (comp(0), comp(16));
    let four = lt(q1, q0);
    let ff = cst(255);
    let mix = |f: &dyn Fn(N, N) -> N, a: N| bgra(f(c0[0], c1[0]), f(c0[1], c1[1]), f(c0[2], c1[2]), a);
    let e0 = mix(&|x, _| x, ff);
    let e1 = mix(&|_, y| y, ff);
    let e2 = mix(&|x, y| ite(four, avg(x, 2, y, 1, 3), avg(x, 1, y, 1, 2)), ff);
    let e3 = mix(&|x, y| ite(four, avg(x, 1, y, 2, 3), cst(0)), ite(four, ff, cst(if three == Some(true) { 0 } else { 255 })));
    (0..16).map(|i| sel(le(d, 32 + 2 * i, 2), vec![e0, e1, e2, e3])).collect()
}
fn bc3_channel(d: &[N]) -> Px {
    let (a, b) = (d[0], d[1]);
    let eight = lt(b, a);
    let mut e = vec![a, b];
    for i in 1..7i128 {
        let x = avg(a, 7 - i, b, i, 7);
        let y = match i {
            5 => cst(0),
            6 => cst(255),
            _ => avg(a, 5 - i, b, i, 5),
        };
        e.push(ite(eight, x, y));
    }
    (0..16).map(|i| sel(le(d, 16 + 3 * i, 3), e.clone())).collect()
}
pub fn bc1(d: &[N], _o: &[N]) -> Px {
    bc1_color(d, Some(false))
}
pub fn bc1a(d: &[N], _o: &[N]) -> Px {
    bc1_color(d, Some(true))
}
pub fn bc2(d: &[N], _o: &[N]) -> Px {
    let c = bc1_color(&d[8..], Some(false));
    (0..16).map(|i| with_chan(c[i], 3, widen(le(d, 4 * i, 4), 4, 8))).collect()
}
pub fn bc3(d: &[N], _o: &[N]) -> Px {
    let c = bc1_color(&d[8..], Some(false));
    let a = bc3_channel(d);
    (0..16).map(|i| with_chan(c[i], 3, a[i])).collect()
}
pub fn bc4(d: &[N], o: &[N]) -> Px {
    let a = bc3_channel(d);
    (0..16).map(|i| with_chan(o[i], 2, a[i])).collect()
}
pub fn bc5(d: &[N], o: &[N]) -> Px {
    let r = bc3_channel(d);
    let g = bc3_channel(&d[8..]);
    (0..16).map(|i| with_chan(with_chan(o[i], 2, r[i]), 1, g[i])).collect()
}

pub fn atc_rgb4(d: &[N], _o: &[N]) -> Px {
    // colour 0 is RGB555 with a mode bit, colour 1 is RGB565
    let dark = le(d, 15, 1);
    let c0 = [widen(le(d, 10, 5), 5, 8), widen(le(d, 5, 5), 5, 8), widen(le(d, 0, 5), 5, 8)];
    let c1 = [widen(le(d, 27, 5), 5, 8), widen(le(d, 21, 6), 6, 8), widen(le(d, 16, 5), 5, 8)];
    let ff = cst(255);
    let mix = |f: &dyn Fn(N, N) -> N| bgra(f(c0[0], c1[0]), f(c0[1], c1[1]), f(c0[2], c1[2]), ff);
    let e0 = mix(&|x, _| ite(dark, cst(0), x));
    let e1 = mix(&|x, y| {
        let s = sub(x, fdiv(y, cst(4)));
        ite(dark, ite(lt(s, cst(0)), cst(0), s), avg(x, 5, y, 3, 8))
    });
    let e2 = mix(&|x, y| ite(dark, x, avg(x, 3, y, 5, 8)));
    let e3 = mix(&|_, y| y);
    (0..16).map(|i| sel(le(d, 32 + 2 * i, 2), vec![e0, e1, e2, e3])).collect()
}
pub fn atc_rgba8(d: &[N], o: &[N]) -> Px {
    let c = atc_rgb4(&d[8..], o);
    let a = bc3_channel(d);
    (0..16).map(|i| with_chan(c[i], 3, a[i])).collect()
}

// ------------------------------------------------------------------ ETC

const ETC_MOD: [[i128; 2]; 8] = [[2, 8], [5, 17], [9, 29], [13, 42], [18, 60], [24, 80], [33, 106], [47, 183]];
const ETC_DIST: [i128; 8] = [3, 6, 11, 16, 23, 32, 41, 64];
const EAC_MOD: [[i128; 8]; 16] = [
    [-3, -6, -9, -15, 2, 5, 8, 14],
    [-3, -7, -10, -13, 2, 6, 9, 12],
    [-2, -5, -8, -13, 1, 4, 7, 12],
    [-2, -4, -6, -13, 1, 3, 5, 12],
    [-3, -6, -8, -12, 2, 5, 7, 11],
    [-3, -7, -9, -11, 2, 6, 8, 10],
    [-4, -7, -8, -11, 3, 6, 7, 10],
    [-3, -5, -8, -11, 2, 4, 7, 10],
    [-2, -6, -8, -10, 1, 5, 7, 9],
    [-2, -5, -8, -10, 1, 4, 7, 9],
    [-2, -4, -8, -10, 1, 3, 7, 9],
    [-2, -5, -7, -10, 1, 4, 6, 9],
    [-3, -4, -7, -10, 2, 3, 6, 9],
    [-1, -2, -3, -10, 0, 1, 2, 9],
    [-4, -6, -8, -9, 3, 5, 7, 8],
    [-3, -5, -7, -9, 2, 4, 6, 8],
];
fn px(x: usize, y: usize) -> usize {
    y * 4 + x
}
/// selector of texel (x, y): most significant and least significant bit
fn etc_idx(d: &[N], x: usize, y: usize) -> (N, N) {
    let p = x * 4 + y;
    (be(d, 16 + p, 16 + p), be(d, p, p))
}
fn sext3(x: N) -> N {
    sub(x, mulc(br_node(bit(x, 2)), 8))
}
/// individual / differential colours of both sub-blocks
fn etc_base(d: &[N], diff: N) -> [[N; 3]; 2] {
    let mut r = [[cst(0); 3]; 2];
    for c in 0..3 {
        let hi = 63 - 8 * c;
        let i0 = widen(be(d, hi, hi - 3), 4, 8);
        let i1 = widen(be(d, hi - 4, hi - 7), 4, 8);
        let b5 = be(d, hi, hi - 4);
        let s = wrap(add(b5, sext3(be(d, hi - 5, hi - 7))), 5, false);
        r[0][c] = ite(diff, widen(b5, 5, 8), i0);
        r[1][c] = ite(diff, widen(s, 5, 8), i1);
    }
    r
}
/// punch: the opaque bit of an RGBA1 block; a clear bit selects the modifiers with a zero and transparency
fn etc_subblocks(d: &[N], base: [[N; 3]; 2], punch: Option<N>) -> Px {
    let flip = be(d, 32, 32);
    let cw = [be(d, 39, 37), be(d, 36, 34)];
    let mut out = vec![cst(0); 16];
    let ff = cst(255);
    for y in 0..4 {
        for x in 0..4 {
            let (m, l) = etc_idx(d, x, y);
            let second = ite(flip, cst((y >= 2) as i128), cst((x >= 2) as i128));
            let mut per = vec![];
            for s in 0..2 {
                let small: Vec<N> = ETC_MOD.iter().map(|t| cst(t[0])).collect();
                let large: Vec<N> = ETC_MOD.iter().map(|t| cst(t[1])).collect();
                let mut sm = sel(cw[s], small);
                if let Some(o) = punch {
                    sm = ite(o, sm, cst(0));
                }
                let lg = sel(cw[s], large);
                let mag = ite(l, lg, sm);
                let mo = ite(m, sub(cst(0), mag), mag);
                let c: Vec<N> = (0..3).map(|i| clampn(add(base[s][i], mo), 0, 255)).collect();
                let a = match punch {
                    None => ff,
                    Some(o) => ite(and(not(o), and(m, not(l))), cst(0), ff),
                };
                per.push(bgra(c[0], c[1], c[2], a));
            }
            out[px(x, y)] = ite(second, per[1], per[0]);
        }
    }
    out
}
pub fn etc1(d: &[N], _o: &[N]) -> Px {
    let diff = be(d, 33, 33);
    etc_subblocks(d, etc_base(d, diff), None)
}
fn etc2_any(d: &[N], rgba1: bool) -> Px {
    let bit33 = be(d, 33, 33);
    let diff = if rgba1 { cst(1) } else { bit33 };
    let punch = if rgba1 { Some(bit33) } else { None };
    let ff = cst(255);
    // overflow of base + offset in one channel selects another mode
    let over = |c: usize| {
        let hi = 63 - 8 * c;
        let s = add(be(d, hi, hi - 4), sext3(be(d, hi - 5, hi - 7)));
        or(lt(s, cst(0)), lt(cst(31), s))
    };
    let normal = etc_subblocks(d, etc_base(d, diff), punch);
    let paint = |tab: [[N; 3]; 4]| -> Px {
        let mut out = vec![cst(0); 16];
        for y in 0..4 {
            for x in 0..4 {
                let (m, l) = etc_idx(d, x, y);
                let e: Vec<N> = (0..4)
                    .map(|i| {
                        let a = if i == 2 {
                            match punch {
                                Some(o) => ite(o, ff, cst(0)),
                                None => ff,
                            }
                        } else {
                            ff
                        };
                        let _ = &tab;
                        bgra(tab[i][0], tab[i][1], tab[i][2], a)
                    })
                    .collect();
                out[px(x, y)] = sel(cat(&[(m, 1), (l, 1)]), e);
            }
        }
        out
    };
    let sh = |c: [N; 3], dd: N, neg: bool| -> [N; 3] {
        let f = |x: N| clampn(if neg { sub(x, dd) } else { add(x, dd) }, 0, 255);
        [f(c[0]), f(c[1]), f(c[2])]
    };
    let dist: Vec<N> = ETC_DIST.iter().map(|x| cst(*x)).collect();
    // T
    let t = {
        let c0 = [
            widen(cat(&[(be(d, 60, 59), 2), (be(d, 57, 56), 2)]), 4, 8),
            widen(be(d, 55, 52), 4, 8),
            widen(be(d, 51, 48), 4, 8),
        ];
        let c1 = [widen(be(d, 47, 44), 4, 8), widen(be(d, 43, 40), 4, 8), widen(be(d, 39, 36), 4, 8)];
        let dd = sel(cat(&[(be(d, 35, 34), 2), (be(d, 32, 32), 1)]), dist.clone());
        paint([c0, sh(c1, dd, false), c1, sh(c1, dd, true)])
    };
    // H
    let h = {
        let q0 = [be(d, 62, 59), cat(&[(be(d, 58, 56), 3), (be(d, 52, 52), 1)]), cat(&[(be(d, 51, 51), 1), (be(d, 49, 47), 3)])];
        let q1 = [be(d, 46, 43), be(d, 42, 39), be(d, 38, 35)];
        let c0 = [widen(q0[0], 4, 8), widen(q0[1], 4, 8), widen(q0[2], 4, 8)];
        let c1 = [widen(q1[0], 4, 8), widen(q1[1], 4, 8), widen(q1[2], 4, 8)];
        let v0 = cat(&[(q0[0], 4), (q0[1], 4), (q0[2], 4)]);
        let v1 = cat(&[(q1[0], 4), (q1[1], 4), (q1[2], 4)]);
        let ge = not(lt(v0, v1));
        let dd = sel(cat(&[(be(d, 34, 34), 1), (be(d, 32, 32), 1), (ge, 1)]), dist.clone());
        paint([sh(c0, dd, false), sh(c0, dd, true), sh(c1, dd, false), sh(c1, dd, true)])
    };
    // planar
    let p = {
        let o = [
            widen(be(d, 62, 57), 6, 8),
            widen(cat(&[(be(d, 56, 56), 1), (be(d, 54, 49), 6)]), 7, 8),
            widen(cat(&[(be(d, 48, 48), 1), (be(d, 44, 43), 2), (be(d, 41, 39), 3)]), 6, 8),
        ];
        let hh = [widen(cat(&[(be(d, 38, 34), 5), (be(d, 32, 32), 1)]), 6, 8), widen(be(d, 31, 25), 7, 8), widen(be(d, 24, 19), 6, 8)];
        let vv = [widen(be(d, 18, 13), 6, 8), widen(be(d, 12, 6), 7, 8), widen(be(d, 5, 0), 6, 8)];
        let mut out = vec![cst(0); 16];
        for y in 0..4i128 {
            for x in 0..4i128 {
                let c: Vec<N> = (0..3)
                    .map(|i| {
                        let s = add(add(mulc(sub(hh[i], o[i]), x), mulc(sub(vv[i], o[i]), y)), add(mulc(o[i], 4), cst(2)));
                        clampn(fdiv(s, cst(4)), 0, 255)
                    })
                    .collect();
                out[px(x as usize, y as usize)] = bgra(c[0], c[1], c[2], ff);
            }
        }
        out
    };
    (0..16)
        .map(|i| {
            let x = ite(over(0), t[i], ite(over(1), h[i], ite(over(2), p[i], normal[i])));
            if rgba1 {
                x
            } else {
                ite(diff, x, normal[i])
            }
        })
        .collect()
}
pub fn etc2_rgb(d: &[N], _o: &[N]) -> Px {
    etc2_any(d, false)
}
pub fn etc2_rgba1(d: &[N], _o: &[N]) -> Px {
    etc2_any(d, true)
}
fn eac_mod(d: &[N], x: usize, y: usize) -> N {
    let p = x * 4 + y;
    let ix = be(d, 47 - 3 * p, 45 - 3 * p);
    let rows: Vec<N> = EAC_MOD.iter().map(|r| sel(ix, r.iter().map(|v| cst(*v)).collect())).collect();
    sel(be(d, 51, 48), rows)
}
fn eac8(d: &[N]) -> Px {
    let mut out = vec![cst(0); 16];
    let mult = be(d, 55, 52);
    for y in 0..4 {
        for x in 0..4 {
            out[px(x, y)] = clampn(add(be(d, 63, 56), mul(mult, eac_mod(d, x, y))), 0, 255);
        }
    }
    out
}
/// 11-bit channel reduced to its top 8 bits
fn eac11(d: &[N], signed: bool) -> Px {
    let mut out = vec![cst(0); 16];
    let mult = be(d, 55, 52);
    let m8 = ite(eq(mult, cst(0)), cst(1), mulc(mult, 8));
    for y in 0..4 {
        for x in 0..4 {
            let b = be(d, 63, 56);
            let v = mul(m8, eac_mod(d, x, y));
            let s = if signed {
                let b = sub(b, mulc(br_node(bit(b, 7)), 256));
                add(add(mulc(b, 8), v), cst(1023))
            } else {
                add(add(mulc(b, 8), v), cst(4))
            };
            out[px(x, y)] = fdiv(clampn(s, 0, 2047), cst(8));
        }
    }
    out
}
pub fn etc2_rgba8(d: &[N], o: &[N]) -> Px {
    let c = etc2_rgb(&d[8..], o);
    let a = eac8(d);
    (0..16).map(|i| with_chan(c[i], 3, a[i])).collect()
}
fn eac_out(r: Px, g: Option<Px>) -> Px {
    (0..16).map(|i| bgra(r[i], g.as_ref().map(|x| x[i]).unwrap_or(cst(0)), cst(0), cst(255))).collect()
}
pub fn eacr(d: &[N], _o: &[N]) -> Px {
    eac_out(eac11(d, false), None)
}
pub fn eacr_signed(d: &[N], _o: &[N]) -> Px {
    eac_out(eac11(d, true), None)
}
pub fn eacrg(d: &[N], _o: &[N]) -> Px {
    eac_out(eac11(d, false), Some(eac11(&d[8..], false)))
}
pub fn eacrg_signed(d: &[N], _o: &[N]) -> Px {
    eac_out(eac11(d, true), Some(eac11(&d[8..], true)))
}
