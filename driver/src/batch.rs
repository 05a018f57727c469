//! Evaluating a value graph over all assignments of a few input bits, many at a time.
use crate::node::*;
use std::collections::HashMap;

pub const B: usize = 256;
pub type Lane = [i64; B];

enum I {
    Const(i64),
    Leaf(usize),
    /// (source, right shift, mask, left shift), or-ed together
    Bits(Vec<(usize, u8, i64, u8)>, i64),
    /// (source, right shift, mask or -1, factor)
    Lin(Vec<(usize, u8, i64, i64)>, i64),
    Mul(Vec<usize>),
    DivC(usize, i64),
    Div(usize, usize),
    TDiv(usize, usize),
    Lt(usize, usize),
    Eq(usize, usize),
    And(usize, usize),
    Or(usize, usize),
    Xor(usize, usize),
    Ite(usize, usize, usize),
    Sel(usize, Vec<usize>),
    F32(OpK, usize, usize),
    Op(OpK, Vec<usize>, u8),
}
pub struct Batch {
    ins: Vec<I>,
    val: Vec<Lane>,
    pos: HashMap<N, usize>,
    leaves: Vec<N>,
}

fn group(b: &[BR], pos: &HashMap<N, usize>) -> (Vec<(usize, u8, i64, u8)>, i64) {
    let mut c = 0i64;
    let mut v: Vec<(usize, u8, i64, u8)> = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            BR::Zero => i += 1,
            BR::One => {
                c |= 1 << i;
                i += 1;
            }
            BR::Bit(m, p) => {
                let mut n = 1;
                while i + n < b.len() && b[i + n] == BR::Bit(m, p + n as u8) {
                    n += 1;
                }
                v.push((pos[&m], p, (1i64 << n) - 1, i as u8));
                i += n;
            }
        }
    }
    (v, c)
}

impl Batch {
    /// None: outside what 64-bit lanes hold
    pub fn new(roots: &[N]) -> Option<Batch> {
        let order = topo(roots);
        let pos: HashMap<N, usize> = order.iter().enumerate().map(|(i, x)| (*x, i)).collect();
        let mut ins = Vec::with_capacity(order.len());
        let mut leaves = vec![];
        for n in &order {
            let (lo, hi) = iv(*n);
            if lo < -(1 << 61) || hi > 1 << 61 {
                return None;
            }
            let p = |m: &N| pos[m];
            ins.push(match k(*n) {
                K::Const(c) => I::Const(*c as i64),
                K::In(..) => {
                    leaves.push(*n);
                    I::Leaf(leaves.len() - 1)
                }
                K::Sym(_) => return None,
                K::Bits(b) => {
                    if b.len() > 62 {
                        return None;
                    }
                    let (v, c) = group(b, &pos);
                    I::Bits(v, c)
                }
                K::Lin(t, c) => {
                    let mut v: Vec<(usize, u8, i64, i64)> = vec![];
                    let mut total = c.unsigned_abs();
                    let mut i = 0;
                    while i < t.len() {
                        let (m, b, f) = t[i];
                        total += f.unsigned_abs().saturating_mul(if b == WHOLE { iv(m).0.unsigned_abs().max(iv(m).1.unsigned_abs()) } else { 1 });
                        if b == WHOLE {
                            v.push((pos[&m], 0, -1, f as i64));
                            i += 1;
                            continue;
                        }
                        let mut n = 1;
                        while i + n < t.len() && b as usize + n < 120 && t[i + n].0 == m && t[i + n].1 == b + n as u8 && f.checked_shl(n as u32) == Some(t[i + n].2) && n < 40 {
                            total += t[i + n].2.unsigned_abs();
                            n += 1;
                        }
                        v.push((pos[&m], b, (1i64 << n) - 1, f as i64));
                        i += n;
                    }
                    if total > 1 << 61 {
                        return None;
                    }
                    I::Lin(v, *c as i64)
                }
                K::Mul(f) => {
                    let mut total = 1i128;
                    for x in f.iter() {
                        total = smul(total, iv(*x).0.abs().max(iv(*x).1.abs()).max(1));
                    }
                    if total > 1 << 61 {
                        return None;
                    }
                    I::Mul(f.iter().map(p).collect())
                }
                K::Div(a, b) => match konst(*b) {
                    Some(c) if c > 0 => I::DivC(p(a), c as i64),
                    _ => I::Div(p(a), p(b)),
                },
                K::TDiv(a, b) => I::TDiv(p(a), p(b)),
                K::Lt(a, b) => I::Lt(p(a), p(b)),
                K::Eq(a, b) => I::Eq(p(a), p(b)),
                K::And(a, b) => I::And(p(a), p(b)),
                K::Or(a, b) => I::Or(p(a), p(b)),
                K::Xor(a, b) => I::Xor(p(a), p(b)),
                K::Ite(c, a, b) => I::Ite(p(c), p(a), p(b)),
                K::Sel(i, v) => I::Sel(p(i), v.iter().map(p).collect()),
                K::Op(OpK::Opaque(_), ..) => return None,
                K::Op(o @ (OpK::FAdd | OpK::FSub | OpK::FMul | OpK::FDiv | OpK::FLt | OpK::FLe | OpK::FEq), a, 32) => I::F32(*o, p(&a[0]), p(&a[1])),
                K::Op(o, a, w) => {
                    if *w > 61 || a.iter().any(|x| iv(*x).1 > 1 << 61) {
                        return None;
                    }
                    I::Op(*o, a.iter().map(p).collect(), *w)
                }
            });
        }
        let mut val = vec![[0i64; B]; ins.len()];
        for (i, x) in ins.iter().enumerate() {
            if let I::Const(c) = x {
                val[i] = [*c; B];
            }
        }
        Some(Batch { ins, val, pos, leaves })
    }
    fn step(&mut self, leaf: &[Lane]) {
        for i in 0..self.ins.len() {
            let (done, rest) = self.val.split_at_mut(i);
            let r = &mut rest[0];
            match &self.ins[i] {
                I::Const(_) => {}
                I::Leaf(l) => *r = leaf[*l],
                I::Bits(v, c) => {
                    *r = [*c; B];
                    for (s, sh, m, at) in v {
                        let x = &done[*s];
                        for j in 0..B {
                            r[j] |= ((x[j] >> sh) & m) << at;
                        }
                    }
                }
                I::Lin(v, c) => {
                    *r = [*c; B];
                    for (s, sh, m, f) in v {
                        let x = &done[*s];
                        for j in 0..B {
                            r[j] += ((x[j] >> sh) & m) * f;
                        }
                    }
                }
                I::Mul(v) => {
                    *r = [1; B];
                    for s in v {
                        let x = &done[*s];
                        for j in 0..B {
                            r[j] *= x[j];
                        }
                    }
                }
                I::DivC(a, c) => {
                    let x = &done[*a];
                    if c & (c - 1) == 0 {
                        let sh = c.trailing_zeros();
                        for j in 0..B {
                            r[j] = x[j] >> sh;
                        }
                    } else {
                        for j in 0..B {
                            r[j] = x[j].div_euclid(*c);
                        }
                    }
                }
                I::Div(a, b) => {
                    for j in 0..B {
                        let d = done[*b][j];
                        r[j] = if d <= 0 { 0 } else { done[*a][j].div_euclid(d) };
                    }
                }
                I::TDiv(a, b) => {
                    for j in 0..B {
                        let d = done[*b][j];
                        r[j] = if d == 0 { 0 } else { done[*a][j] / d };
                    }
                }
                I::Lt(a, b) => {
                    let (x, y) = (&done[*a], &done[*b]);
                    for j in 0..B {
                        r[j] = (x[j] < y[j]) as i64;
                    }
                }
                I::Eq(a, b) => {
                    let (x, y) = (&done[*a], &done[*b]);
                    for j in 0..B {
                        r[j] = (x[j] == y[j]) as i64;
                    }
                }
                I::And(a, b) => {
                    let (x, y) = (&done[*a], &done[*b]);
                    for j in 0..B {
                        r[j] = x[j] & y[j];
                    }
                }
                I::Or(a, b) => {
                    let (x, y) = (&done[*a], &done[*b]);
                    for j in 0..B {
                        r[j] = x[j] | y[j];
                    }
                }
                I::Xor(a, b) => {
                    let (x, y) = (&done[*a], &done[*b]);
                    for j in 0..B {
                        r[j] = x[j] ^ y[j];
                    }
                }
                I::Ite(c, a, b) => {
                    let (z, x, y) = (&done[*c], &done[*a], &done[*b]);
                    for j in 0..B {
                        r[j] = if z[j] != 0 { x[j] } else { y[j] };
                    }
                }
                I::Sel(ix, v) => {
                    let x = &done[*ix];
                    let top = v.len() as i64 - 1;
                    for j in 0..B {
                        r[j] = done[v[x[j].clamp(0, top) as usize]][j];
                    }
                }
                I::F32(o, a, b) => {
                    let (x, y) = (&done[*a], &done[*b]);
                    let f = |z: i64| f32::from_bits(z as u32);
                    for j in 0..B {
                        let (p, q) = (f(x[j]), f(y[j]));
                        r[j] = match o {
                            OpK::FAdd => (p + q).to_bits() as i64,
                            OpK::FSub => (p - q).to_bits() as i64,
                            OpK::FMul => (p * q).to_bits() as i64,
                            OpK::FDiv => (p / q).to_bits() as i64,
                            OpK::FLt => (p < q) as i64,
                            OpK::FLe => (p <= q) as i64,
                            _ => (p == q) as i64,
                        };
                    }
                }
                I::Op(o, a, w) => {
                    let mut t: Vec<i128> = vec![0; a.len()];
                    for j in 0..B {
                        for (q, s) in a.iter().enumerate() {
                            t[q] = done[*s][j] as i128;
                        }
                        r[j] = eval_op(*o, &t, *w).unwrap_or(0) as i64;
                    }
                }
            }
        }
    }
    pub fn leaves(&self) -> &[N] {
        &self.leaves
    }
    /// evaluate on the given leaf values
    pub fn sample(&mut self, leaf: &[Lane]) {
        self.step(leaf)
    }
    pub fn at(&self, n: N) -> &Lane {
        &self.val[self.pos[&n]]
    }
    pub fn size(&self) -> usize {
        self.ins.len()
    }
    /// the first assignment of the bits (all others zero) for which a and b differ
    pub fn first_difference(&mut self, a: N, b: N, bits: &[(N, u8)]) -> Option<u64> {
        let n = bits.len();
        let total = 1u64 << n;
        let (pa, pb) = (self.pos[&a], self.pos[&b]);
        let mut per: Vec<Vec<(u8, u8)>> = vec![vec![]; self.leaves.len()];
        for (j, (z, p)) in bits.iter().enumerate() {
            if let Some(l) = self.leaves.iter().position(|x| x == z) {
                per[l].push((j as u8, *p));
            }
        }
        let range: Vec<(i64, i64)> = self.leaves.iter().map(|z| (iv(*z).0 as i64, iv(*z).1 as i64)).collect();
        let mut leaf: Vec<Lane> = vec![[0; B]; self.leaves.len()];
        let mut base = 0u64;
        while base < total {
            for (l, v) in per.iter().enumerate() {
                for j in 0..B {
                    let c = base + j as u64;
                    let mut x = 0i64;
                    for (s, p) in v {
                        x |= ((c >> s & 1) as i64) << p;
                    }
                    leaf[l][j] = x.clamp(range[l].0, range[l].1);
                }
            }
            self.step(&leaf);
            for j in 0..B {
                if base + (j as u64) < total && self.val[pa][j] != self.val[pb][j] {
                    return Some(base + j as u64);
                }
            }
            base += B as u64;
        }
        None
    }
}
