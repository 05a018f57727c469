//! Value-numbering domain: hash-consed exact integer values.
//!
//! Every scalar the abstract interpreter sees is a mathematical integer `N` (a
//! node of a shared DAG).  Machine types are views of that integer, so widths and
//! signedness do not split equal values apart.  Constructors keep a canonical
//! form: linear combinations are kept over single input bits, bit-level values as
//! vectors of bit references, and everything carries an interval.

use std::cell::UnsafeCell;
use std::collections::{BTreeMap, HashMap, HashSet};

pub type N = u32;
pub const INF: i128 = 1 << 120;
pub const WHOLE: u8 = 255;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum BR {
    Zero,
    One,
    Bit(N, u8),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum OpK {
    FAdd,
    FSub,
    FMul,
    FDiv,
    FLt,
    FLe,
    FEq,
    FNeg,
    FToI(u8, bool), // width of int, signed
    IToF(bool),     // from signed / unsigned integer, exact mathematical value
    FToF(u8, u8),   // from bits, to bits
    Ctlz(u8),
    Cttz(u8),
    Popcnt,
    Xor,
    And,
    Or,
    Shl,
    Shr,
    FAbs,
    Rem, // truncated remainder
    Opaque(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(i128),
    In(u32, u8),
    Sym(u32),
    Bits(Box<[BR]>),
    Lin(Box<[(N, u8, i128)]>, i128),
    Mul(Box<[N]>),
    Div(N, N),  // floor division, divisor positive
    TDiv(N, N), // truncated division
    Lt(N, N),
    Eq(N, N),
    And(N, N),
    Or(N, N),
    Xor(N, N),
    Ite(N, N, N),
    Sel(N, Box<[N]>),
    Op(OpK, Box<[N]>, u8), // result width in bits (unsigned pattern)
}

pub struct G {
    pub kinds: Vec<Box<K>>,
    pub iv: Vec<(i128, i128)>,
    map: HashMap<K, N>,
    pub syms: Vec<(String, i128, i128)>,
    pub atoms: Vec<String>,
    pub atom_ids: HashMap<String, usize>,
    /// inputs that do not take every value of their width
    pub limit: HashMap<u32, (i128, i128)>,
    /// narrow the arms of choices by their conditions
    pub narrow: bool,
    parts: HashMap<N, Vec<(u32, N)>>,
}

struct Cell(UnsafeCell<Option<G>>);
unsafe impl Sync for Cell {}
static GG: Cell = Cell(UnsafeCell::new(None));

#[allow(static_mut_refs)]
pub fn g() -> &'static mut G {
    unsafe {
        let r = &mut *GG.0.get();
        r.get_or_insert_with(|| G { kinds: vec![], iv: vec![], map: HashMap::new(), syms: vec![], atoms: vec![], atom_ids: HashMap::new(), limit: HashMap::new(), narrow: false, parts: HashMap::new() })
    }
}
/// Forget every node (used between independent analyses).
pub fn reset() {
    unsafe {
        *GG.0.get() = None;
    }
}

pub fn k(n: N) -> &'static K {
    &g().kinds[n as usize]
}
pub fn iv(n: N) -> (i128, i128) {
    g().iv[n as usize]
}
fn sat(x: i128) -> i128 {
    x.clamp(-INF, INF)
}
pub fn smul(a: i128, b: i128) -> i128 {
    match a.checked_mul(b) {
        Some(x) => sat(x),
        None => {
            if (a < 0) == (b < 0) {
                INF
            } else {
                -INF
            }
        }
    }
}
pub fn sadd(a: i128, b: i128) -> i128 {
    sat(a.saturating_add(b))
}
pub fn imul(a: (i128, i128), b: (i128, i128)) -> (i128, i128) {
    let p = [smul(a.0, b.0), smul(a.0, b.1), smul(a.1, b.0), smul(a.1, b.1)];
    (*p.iter().min().unwrap(), *p.iter().max().unwrap())
}
pub fn ifdiv(a: (i128, i128), b: (i128, i128)) -> (i128, i128) {
    let b = (b.0.max(1), b.1.max(1));
    let p = [a.0.div_euclid(b.0), a.0.div_euclid(b.1), a.1.div_euclid(b.0), a.1.div_euclid(b.1)];
    (*p.iter().min().unwrap(), *p.iter().max().unwrap())
}
pub fn itdiv(a: (i128, i128), b: (i128, i128)) -> (i128, i128) {
    // b has a fixed sign when it excludes zero
    if b.0 <= 0 && b.1 >= 0 {
        let m = a.0.abs().max(a.1.abs());
        return (-m, m);
    }
    let p = [a.0 / b.0, a.0 / b.1, a.1 / b.0, a.1 / b.1];
    let (mut lo, mut hi) = (*p.iter().min().unwrap(), *p.iter().max().unwrap());
    if a.0 <= 0 && a.1 >= 0 {
        lo = lo.min(0);
        hi = hi.max(0);
    }
    (lo, hi)
}
/// number of bits to hold 0..=hi
pub fn width_of(hi: i128) -> u8 {
    if hi <= 0 {
        0
    } else {
        (128 - hi.leading_zeros()) as u8
    }
}

/// n = g * p + o
fn relation(p: N, n: N) -> Option<(i128, i128)> {
    if p == n {
        return Some((1, 0));
    }
    let parts = |x: N| match k(x) {
        K::Lin(t, c) => (t.to_vec(), *c),
        _ => {
            let (mut t, mut c) = (BTreeMap::new(), 0);
            lin_into(x, 1, &mut t, &mut c);
            (t.into_iter().map(|((n, b), f)| (n, b, f)).collect(), c)
        }
    };
    let ((a, c), (b, d)) = (parts(p), parts(n));
    if a.is_empty() || a.len() != b.len() || c.abs() > 1 << 60 || d.abs() > 1 << 60 || a[0].2 == 0 || b[0].2 % a[0].2 != 0 {
        return None;
    }
    let g = b[0].2 / a[0].2;
    if g == 0 || g.abs() > 1 << 40 || !a.iter().zip(&b).all(|(x, y)| x.0 == y.0 && x.1 == y.1 && y.2 == smul(g, x.2)) {
        return None;
    }
    Some((g, d - g * c))
}
/// interval of a value where conditions are known to hold or fail
fn iv_under(n: N, facts: &[(N, bool)], depth: u32) -> (i128, i128) {
    let mut r = iv(n);
    if let K::Ite(c, a, b) = k(n) {
        if depth < 8 {
            let mut f = facts.to_vec();
            f.push((*c, true));
            let x = iv_under(*a, &f, depth + 1);
            f.last_mut().unwrap().1 = false;
            let y = iv_under(*b, &f, depth + 1);
            let u = if x.0 > x.1 {
                y
            } else if y.0 > y.1 {
                x
            } else {
                (x.0.min(y.0), x.1.max(y.1))
            };
            r = (r.0.max(u.0), r.1.min(u.1));
        }
    }
    // what the conditions say of their parts
    let mut known: Vec<(N, bool)> = facts.to_vec();
    let mut i = 0;
    let mut rounds = 0;
    while i < known.len() || rounds < 2 {
        if i >= known.len() {
            // once more, with everything that is known now
            rounds += 1;
            let n = known.len();
            for j in 0..n {
                let (c, v) = known[j];
                if let (K::And(p, q), false) | (K::Or(p, q), true) = (k(c), v) {
                    for (x, y) in [(*p, *q), (*q, *p)] {
                        let off = known.contains(&(x, !v)) || neg_of(x).is_some_and(|z| known.contains(&(z, v)));
                        if off && !known.contains(&(y, v)) {
                            known.push((y, v));
                        }
                    }
                }
            }
            continue;
        }
        let (c, v) = known[i];
        i += 1;
        let mut more = |x: (N, bool)| {
            if !known.contains(&x) {
                known.push(x);
            }
        };
        match k(c) {
            K::And(p, q) if v => {
                more((*p, true));
                more((*q, true));
            }
            K::Or(p, q) if !v => {
                more((*p, false));
                more((*q, false));
            }
            K::Lin(..) => {
                if let Some(p) = neg_of(c) {
                    more((p, !v));
                }
            }
            _ => {}
        }
    }
    // bits that are known
    if let K::Lin(t, c0) = k(n) {
        let b = t.iter().fold((*c0, *c0), |s, x| {
            let m = imul(if x.1 == WHOLE { iv(x.0) } else { (0, 1) }, (x.2, x.2));
            (sadd(s.0, m.0), sadd(s.1, m.1))
        });
        for (c, v) in &known {
            let at = match k(*c) {
                K::Bits(b) if b.len() == 1 => match b[0] {
                    BR::Bit(m, p) => (m, p),
                    _ => continue,
                },
                _ => (*c, WHOLE),
            };
            if let Some(x) = t.iter().find(|x| (x.0, x.1) == at && is_bool(*c)) {
                // the far end of what it could have been
                if *v {
                    r.0 = r.0.max(b.0 + x.2.max(0));
                    r.1 = r.1.min(b.1 + x.2.min(0));
                } else {
                    r.0 = r.0.max(b.0 - x.2.min(0));
                    r.1 = r.1.min(b.1 - x.2.max(0));
                }
            }
        }
    }
    for (c, v) in known {
        match k(c) {
            K::Lt(p, q) => {
                let mut within = |g: i128, o: i128, lo: i128, hi: i128| {
                    let (x, y) = (if lo <= -INF { -INF } else { sadd(smul(g, lo), o) }, if hi >= INF { INF } else { sadd(smul(g, hi), o) });
                    let (x, y) = if g > 0 { (x, y) } else { (if hi >= INF { -INF } else { y }, if lo <= -INF { INF } else { x }) };
                    r = (r.0.max(x), r.1.min(y));
                };
                if let Some((g, o)) = relation(*p, n) {
                    if v {
                        within(g, o, -INF, sadd(iv(*q).1, -1));
                    } else {
                        within(g, o, iv(*q).0, INF);
                    }
                }
                if let Some((g, o)) = relation(*q, n) {
                    if v {
                        within(g, o, sadd(iv(*p).0, 1), INF);
                    } else {
                        within(g, o, -INF, iv(*p).1);
                    }
                }
            }
            K::Eq(p, q) if v && (*p == n || *q == n) => {
                let o = iv(if *p == n { *q } else { *p });
                r = (r.0.max(o.0), r.1.min(o.1));
            }
            // a sign bit
            K::Bits(b) if b.len() == 1 => {
                if let BR::Bit(m, p) = b[0] {
                    let (lo, hi) = iv(n);
                    if m == n && lo < 0 && hi >= 0 && (p as u32) < 119 && hi < 1i128 << p && lo >= -(1i128 << p) {
                        if v {
                            r.1 = r.1.min(-1);
                        } else {
                            r.0 = r.0.max(0);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    r
}
fn compute_iv(kd: &K) -> (i128, i128) {
    match kd {
        K::Const(c) => (*c, *c),
        K::In(i, w) => g().limit.get(i).copied().unwrap_or((0, (1i128 << *w) - 1)),
        K::Sym(s) => {
            let s = &g().syms[*s as usize];
            (s.1, s.2)
        }
        K::Bits(b) => {
            let (mut lo, mut hi) = (0i128, 0i128);
            let mut i = 0;
            while i < b.len() {
                match b[i] {
                    BR::Zero => i += 1,
                    BR::One => {
                        lo += 1 << i;
                        hi += 1 << i;
                        i += 1;
                    }
                    BR::Bit(m, p) => {
                        let mut j = 1;
                        while i + j < b.len() && b[i + j] == BR::Bit(m, p + j as u8) {
                            j += 1;
                        }
                        let mut top = (1i128 << j) - 1;
                        let (l, h) = iv(m);
                        // the upper end of a number: no more than the number allows
                        if l >= 0 && h < INF && p as usize + j >= width_of(h) as usize {
                            top = top.min(h >> p);
                            lo += (l >> p) << i;
                        }
                        hi += top << i;
                        i += j;
                    }
                }
            }
            (lo, hi)
        }
        K::Lin(t, c) => {
            let (mut lo, mut hi) = (*c, *c);
            let mut i = 0;
            while i < t.len() {
                let (n, b, cf) = t[i];
                let mut r = if b == WHOLE { iv(n) } else { (0, 1) };
                let mut j = 1;
                if b != WHOLE && cf.abs() < 1 << 60 {
                    // the upper end of a number counts as one number
                    while i + j < t.len() && t[i + j].0 == n && t[i + j].1 as usize == b as usize + j && j < 60 && t[i + j].2 == cf << j {
                        j += 1;
                    }
                    let (l, h) = iv(n);
                    if l >= 0 && h < INF && b as usize + j >= width_of(h) as usize {
                        r = (l >> b, h >> b);
                    } else {
                        r = (0, (1 << j) - 1);
                    }
                }
                let m = imul(r, (cf, cf));
                lo = sadd(lo, m.0);
                hi = sadd(hi, m.1);
                i += j;
            }
            if let Some(r) = corners(t, *c) {
                lo = lo.max(r.0);
                hi = hi.min(r.1);
            }
            // x - d * (x div d) is a remainder
            if t.len() <= 4 && t.iter().any(|x| x.1 == WHOLE && matches!(k(x.0), K::Div(..))) {
                for (q, b, cf) in t.iter() {
                    if *b != WHOLE {
                        continue;
                    }
                    let K::Div(a, d) = k(*q) else { continue };
                    let Some(d) = konst(*d) else { continue };
                    if cf % d != 0 {
                        continue;
                    }
                    let m = -cf / d;
                    if !t.iter().any(|x| x.0 == *a && x.1 == WHOLE && x.2 == m) {
                        continue;
                    }
                    let (mut l, mut h) = (*c + (m * (d - 1)).min(0), *c + (m * (d - 1)).max(0));
                    for (n, b, cf) in t.iter().filter(|x| x.0 != *q && x.0 != *a) {
                        let r = if *b == WHOLE { iv(*n) } else { (0, 1) };
                        let m = imul(r, (*cf, *cf));
                        l = sadd(l, m.0);
                        h = sadd(h, m.1);
                    }
                    lo = lo.max(l);
                    hi = hi.min(h);
                }
            }
            (lo, hi)
        }
        K::Mul(f) => {
            let mut r = (1, 1);
            for x in f.iter() {
                r = imul(r, iv(*x));
            }
            if f.len() == 2 && f[0] == f[1] {
                r.0 = r.0.max(0);
            }
            r
        }
        K::Div(a, b) => ifdiv(iv(*a), iv(*b)),
        K::TDiv(a, b) => itdiv(iv(*a), iv(*b)),
        K::Lt(..) | K::Eq(..) | K::And(..) | K::Or(..) | K::Xor(..) => (0, 1),
        K::Ite(c, a, b) => {
            let (x, y) = if g().narrow { (iv_under(*a, &[(*c, true)], 0), iv_under(*b, &[(*c, false)], 0)) } else { (iv(*a), iv(*b)) };
            if x.0 > x.1 {
                y
            } else if y.0 > y.1 {
                x
            } else {
                (x.0.min(y.0), x.1.max(y.1))
            }
        }
        K::Sel(i, v) => {
            let (l, h) = iv(*i);
            let l = l.clamp(0, v.len() as i128 - 1) as usize;
            let h = h.clamp(0, v.len() as i128 - 1) as usize;
            let mut r = iv(v[l]);
            for x in &v[l..=h] {
                let y = iv(*x);
                r = (r.0.min(y.0), r.1.max(y.1));
            }
            r
        }
        K::Op(o, a, w) => op_iv(*o, &a.iter().map(|x| iv(*x)).collect::<Vec<_>>(), *w),
    }
}

pub fn op_iv(o: OpK, a: &[(i128, i128)], w: u8) -> (i128, i128) {
    let full = (0, if w >= 120 { INF } else { (1i128 << w) - 1 });
    match o {
        OpK::FToI(w, true) => (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1),
        OpK::FToI(w, false) => (0, (1i128 << w) - 1),
        OpK::Ctlz(w) | OpK::Cttz(w) => (0, w as i128),
        OpK::Popcnt => (0, 128),
        OpK::And => {
            let mut hi = full.1;
            for x in a {
                if x.0 >= 0 {
                    hi = hi.min(x.1);
                }
            }
            (0, hi)
        }
        OpK::Or | OpK::Xor => {
            if a[0].0 >= 0 && a[1].0 >= 0 {
                let m = width_of(a[0].1.max(a[1].1)).min(120);
                let lo = if o == OpK::Or { a[0].0.max(a[1].0) } else { 0 };
                (lo, full.1.min((1i128 << m) - 1))
            } else {
                full
            }
        }
        OpK::Shr => {
            if a[0].0 >= 0 && a[1].0 >= 0 {
                (a[0].0 >> a[1].1.min(126), a[0].1 >> a[1].0.min(126))
            } else {
                (-INF, INF)
            }
        }
        OpK::Shl => {
            if a[0].0 >= 0 && a[1].0 >= 0 && a[1].1 < 100 {
                let hi = smul(a[0].1, 1i128 << a[1].1);
                let lo = smul(a[0].0, 1i128 << a[1].0);
                (lo, hi)
            } else {
                (-INF, INF)
            }
        }
        OpK::Rem => {
            let m = a[1].0.abs().max(a[1].1.abs()) - 1;
            let hi = if a[0].1 < 0 { 0 } else { m.min(a[0].1) };
            let lo = if a[0].0 >= 0 { 0 } else { (-m).max(a[0].0) };
            (lo, hi)
        }
        _ => full,
    }
}

pub fn mk(kd: K) -> N {
    let gr = g();
    if let Some(x) = gr.map.get(&kd) {
        return *x;
    }
    let i = compute_iv(&kd);
    if i.0 == i.1 && !matches!(kd, K::Const(_)) {
        return cst(i.0);
    }
    let gr = g();
    let id = gr.kinds.len() as N;
    gr.kinds.push(Box::new(kd.clone()));
    gr.iv.push(i);
    gr.map.insert(kd, id);
    id
}

pub fn cst(c: i128) -> N {
    mk(K::Const(c))
}
pub fn input(name: &str, w: u8) -> N {
    let gr = g();
    let id = match gr.atom_ids.get(name) {
        Some(i) => *i,
        None => {
            gr.atom_ids.insert(name.to_string(), gr.atoms.len());
            gr.atoms.push(name.to_string());
            gr.atoms.len() - 1
        }
    };
    mk(K::In(id as u32, w))
}
/// a value standing as a variable: the variable, the value, the stage it belongs to, and how
/// much the variable is above the value
pub type Name = (N, N, u32, i128);
/// in order of creation
#[derive(Default)]
pub struct Names {
    pub list: Vec<Name>,
    by: HashMap<N, N>,
    tag: &'static str,
    pub stage: u32,
}
impl Names {
    pub fn new(tag: &'static str) -> Self {
        Names { list: vec![], by: HashMap::new(), tag, stage: 0 }
    }
    /// the value in terms of a variable
    pub fn name(&mut self, n: N) -> N {
        let (lo, hi) = iv(n);
        if matches!(k(n), K::Const(_) | K::In(..) | K::Sym(_)) || lo < -0x10000 || hi > 0xfffff {
            return n;
        }
        // variables count from zero
        let off = if lo >= 0 {
            0
        } else if lo >= -256 {
            256
        } else if lo >= -4096 {
            4096
        } else {
            0x10000
        };
        if off != 0 {
            if let K::Lin(t, c) = k(n) {
                if t.len() == 1 && t[0].2 == 1 && *c == -off && is_name(t[0].0) {
                    return n;
                }
            }
        }
        if let Some(v) = self.by.get(&n) {
            return add(*v, cst(-off));
        }
        let v = ranged(&format!("{}{}", self.tag, self.list.len()), lo + off, hi + off);
        self.list.push((v, n, self.stage, off));
        self.by.insert(n, v);
        add(v, cst(-off))
    }
}
pub fn has_product(n: N) -> bool {
    match k(n) {
        K::Mul(_) => true,
        K::Lin(t, _) => t.iter().any(|x| x.1 == WHOLE && matches!(k(x.0), K::Mul(_))),
        _ => false,
    }
}
/// a sum that is linear in each of a few sizes takes its extremes at the corners of their box
fn corners(t: &[(N, u8, i128)], c: i128) -> Option<(i128, i128)> {
    // one rounded-down quotient: scaled up, it lies below what it rounds
    if let [(q, _, f)] = t.iter().filter(|x| x.1 == WHOLE && matches!(k(x.0), K::Div(..))).collect::<Vec<_>>()[..] {
        let K::Div(a, d) = k(*q) else { return None };
        let (K::Lin(u, e), Some(d)) = (k(*a), konst(*d)) else { return None };
        if d > 1 << 20 || f.abs() > 1 << 40 || t.iter().chain(u.iter()).any(|x| x.2.abs() > 1 << 60) || c.abs() > 1 << 60 || e.abs() > 1 << 60 {
            return None;
        }
        let mut m: Terms = BTreeMap::new();
        for (n, b, g) in t.iter().filter(|x| x.0 != *q) {
            *m.entry((*n, *b)).or_insert(0) += g * d;
        }
        for (n, b, g) in u.iter() {
            *m.entry((*n, *b)).or_insert(0) += g * f;
        }
        let v: Vec<_> = m.into_iter().map(|((n, b), g)| (n, b, g)).collect();
        let all = c * d + e * f;
        let (lo, hi) = corners(&v, all).unwrap_or_else(|| {
            v.iter().fold((all, all), |s, x| {
                let m = imul(if x.1 == WHOLE { iv(x.0) } else { (0, 1) }, (x.2, x.2));
                (sadd(s.0, m.0), sadd(s.1, m.1))
            })
        });
        let slack = f * (d - 1);
        return Some((-((-lo.saturating_sub(slack.max(0))).div_euclid(d)), (hi - slack.min(0)).div_euclid(d)));
    }
    let mut vars: Vec<N> = vec![];
    let mut seen = |n: N| {
        if !vars.contains(&n) {
            vars.push(n)
        }
    };
    if !t.iter().any(|x| x.1 == WHOLE && matches!(k(x.0), K::Mul(_))) {
        return None;
    }
    let (mut lo0, mut hi0) = (c, c);
    for (n, b, f) in t {
        if *b != WHOLE {
            let m = imul((0, 1), (*f, *f));
            lo0 = sadd(lo0, m.0);
            hi0 = sadd(hi0, m.1);
            continue;
        }
        match k(*n) {
            K::Mul(v) => {
                for (i, x) in v.iter().enumerate() {
                    if v[..i].contains(x) {
                        return None;
                    }
                    seen(*x);
                }
            }
            _ => seen(*n),
        }
    }
    if vars.len() > 6 || vars.iter().any(|x| iv(*x).0 < -(1 << 40) || iv(*x).1 > 1 << 40) {
        return None;
    }
    let (mut lo, mut hi) = (INF, -INF);
    for m in 0..1u32 << vars.len() {
        let val = |n: N| {
            let i = vars.iter().position(|x| *x == n).unwrap();
            if m >> i & 1 == 1 {
                iv(n).1
            } else {
                iv(n).0
            }
        };
        let mut s = 0i128;
        for (n, b, f) in t {
            if *b == WHOLE {
                let x = match k(*n) {
                    K::Mul(v) => v.iter().fold(1, |a, z| smul(a, val(*z))),
                    _ => val(*n),
                };
                s = sadd(s, smul(x, *f));
            }
        }
        lo = lo.min(s);
        hi = hi.max(s);
    }
    Some((sadd(lo, lo0), sadd(hi, hi0)))
}
/// an input that is only known to lie in a range of non-negative numbers
pub fn ranged(name: &str, lo: i128, hi: i128) -> N {
    let w = width_of(hi).max(1);
    let gr = g();
    if !gr.atom_ids.contains_key(name) {
        gr.atom_ids.insert(name.to_string(), gr.atoms.len());
        gr.limit.insert(gr.atoms.len() as u32, (lo, hi));
        gr.atoms.push(name.to_string());
    }
    input(name, w)
}
pub fn sym(name: &str, lo: i128, hi: i128) -> N {
    let gr = g();
    let id = match gr.syms.iter().position(|x| x.0 == name) {
        Some(i) => i,
        None => {
            gr.syms.push((name.to_string(), lo, hi));
            gr.syms.len() - 1
        }
    };
    // never a singleton: keep the identity
    let kd = K::Sym(id as u32);
    let gr = g();
    if let Some(x) = gr.map.get(&kd) {
        return *x;
    }
    let nid = gr.kinds.len() as N;
    gr.kinds.push(Box::new(kd.clone()));
    gr.iv.push((lo, hi));
    gr.map.insert(kd, nid);
    nid
}
pub fn konst(n: N) -> Option<i128> {
    match k(n) {
        K::Const(c) => Some(*c),
        _ => None,
    }
}
pub fn is_bool(n: N) -> bool {
    let (l, h) = iv(n);
    l >= 0 && h <= 1
}

// ---------------------------------------------------------------- bits

/// bit i of the two's complement expansion of z
pub fn bit(z: N, i: u32) -> BR {
    match k(z) {
        K::Const(c) => {
            let b = if i >= 127 { *c < 0 } else { (*c >> i) & 1 == 1 };
            if b {
                BR::One
            } else {
                BR::Zero
            }
        }
        K::In(_, w) => {
            if i < *w as u32 {
                BR::Bit(z, i as u8)
            } else {
                BR::Zero
            }
        }
        K::Bits(b) => b.get(i as usize).copied().unwrap_or(BR::Zero),
        kd => {
            let (lo, hi) = iv(z);
            if lo >= 0 && (hi == 0 || i >= width_of(hi) as u32) {
                return BR::Zero;
            }
            if hi < 0 && lo >= -(1i128 << i.min(118)) {
                return BR::One;
            }
            if lo < 0 && hi >= 0 {
                // sign-extended part: refer to the lowest sign bit
                let w = width_of(hi).max(width_of(-(lo + 1))) as u32;
                if i > w {
                    return bit(z, w);
                }
            }
            match kd {
                K::Lin(t, c) => {
                    if let Some((p, y)) = part(z, i) {
                        return bit(y, i - p);
                    }
                    // divide out common powers of two
                    let mut tz = if *c == 0 { 127 } else { c.trailing_zeros() };
                    for x in t.iter() {
                        tz = tz.min(x.2.trailing_zeros());
                    }
                    if tz > 0 {
                        if i < tz {
                            return BR::Zero;
                        }
                        let t2: Vec<_> = t.iter().map(|x| (x.0, x.1, x.2 >> tz)).collect();
                        let y = mk_lin(t2, *c >> tz);
                        return bit(y, i - tz);
                    }
                    // bit 0 of a single odd term
                    if i == 0 {
                        let odd: Vec<_> = t.iter().filter(|x| x.2 & 1 == 1).collect();
                        if odd.len() == 1 && c & 1 == 0 {
                            return if odd[0].1 == WHOLE { bit(odd[0].0, 0) } else { BR::Bit(odd[0].0, odd[0].1) };
                        }
                        if odd.is_empty() {
                            return if c & 1 == 1 { BR::One } else { BR::Zero };
                        }
                    }
                    // nothing carries into the bit
                    if i < 64 {
                        let m = 1i128 << i;
                        let mut low = c.rem_euclid(m);
                        let mut odd = None;
                        let mut many = false;
                        for x in t.iter() {
                            let f = x.2.rem_euclid(m);
                            if f != 0 {
                                let r = if x.1 == WHOLE { iv(x.0) } else { (0, 1) };
                                low = if r.0 < 0 { INF } else { sadd(low, smul(f, r.1)) };
                            }
                            if x.2.div_euclid(m) & 1 == 1 {
                                many |= odd.is_some();
                                odd = Some(x);
                            }
                            if low >= m || many {
                                break;
                            }
                        }
                        let one = c.div_euclid(m) & 1 == 1;
                        if low < m && !many {
                            match odd {
                                None => return if one { BR::One } else { BR::Zero },
                                Some(x) if !one => return if x.1 == WHOLE { bit(x.0, 0) } else { BR::Bit(x.0, x.1) },
                                _ => {}
                            }
                        }
                    }
                    BR::Bit(z, i as u8)
                }
                K::Div(a, b) => {
                    if let Some(d) = konst(*b) {
                        if d.count_ones() == 1 {
                            return bit(*a, i + d.trailing_zeros());
                        }
                    }
                    BR::Bit(z, i as u8)
                }
                K::Ite(_, a, b) => {
                    let (x, y) = (bit(*a, i), bit(*b, i));
                    if x == y {
                        x
                    } else {
                        BR::Bit(z, i as u8)
                    }
                }
                K::Sel(_, v) => {
                    let x = bit(v[0], i);
                    if matches!(x, BR::Zero | BR::One) && v.iter().all(|y| bit(*y, i) == x) {
                        x
                    } else {
                        BR::Bit(z, i as u8)
                    }
                }
                _ => BR::Bit(z, i as u8),
            }
        }
    }
}

pub fn br_node(b: BR) -> N {
    match b {
        BR::Zero => cst(0),
        BR::One => cst(1),
        BR::Bit(n, 0) if is_bool(n) => n,
        b => mk_bits(vec![b]),
    }
}

pub fn mk_bits(mut b: Vec<BR>) -> N {
    while b.last() == Some(&BR::Zero) {
        b.pop();
    }
    if b.is_empty() {
        return cst(0);
    }
    if b.iter().all(|x| matches!(x, BR::Zero | BR::One)) {
        let mut c = 0i128;
        for (i, x) in b.iter().enumerate() {
            if *x == BR::One {
                c |= 1 << i;
            }
        }
        return cst(c);
    }
    // one contiguous slice of one node?
    if let BR::Bit(n, s) = b[0] {
        if b.iter().enumerate().all(|(i, x)| *x == BR::Bit(n, s + i as u8)) {
            let (lo, hi) = iv(n);
            if s == 0 && lo >= 0 && width_of(hi) as usize == b.len() {
                return n;
            }
            let w = b.len() as u8;
            match k(n) {
                K::Ite(c, x, y) => {
                    let (c, x, y) = (*c, *x, *y);
                    return ite(c, slice(x, s, w), slice(y, s, w));
                }
                K::Sel(i, v) => {
                    let (i, v) = (*i, v.clone());
                    return sel(i, v.iter().map(|x| slice(*x, s, w)).collect());
                }
                K::Lin(..) if s == 0 && w > 1 => {
                    if let Some(y) = reduce(n, w) {
                        return slice(y, s, w);
                    }
                }
                _ => {}
            }
        }
    }
    // a slice of one selection, some of whose bits were resolved separately
    for (i, x) in b.iter().enumerate() {
        if let BR::Bit(n, p) = *x {
            if matches!(k(n), K::Ite(..) | K::Sel(..)) && p as usize >= i && b.len() > 1 {
                let s = p as usize - i;
                if (0..b.len()).all(|j| bit(n, (s + j) as u32) == b[j]) {
                    return slice(n, s as u8, b.len() as u8);
                }
                break;
            }
        }
    }
    mk(K::Bits(b.into_boxed_slice()))
}

/// A sum whose terms fall into groups that do not carry into each other: the group
/// of bit i and its first bit
fn part(z: N, i: u32) -> Option<(u32, N)> {
    let K::Lin(t, c) = k(z) else { return None };
    if t.len() < 2 || t.len() > 48 || i > 62 {
        return None;
    }
    let mut hit = g().parts.get(&z).cloned();
    if hit.is_none() {
        let mut at: Vec<u32> = t.iter().map(|x| x.2.trailing_zeros()).filter(|p| *p > 0 && *p < 62).collect();
        at.sort();
        at.dedup();
        let mut cuts = vec![];
        for p in at {
            let m = 1i128 << p;
            let (mut lo, mut hi) = (c.rem_euclid(m), c.rem_euclid(m));
            let mut any = false;
            for x in t.iter().filter(|x| x.2 % m != 0) {
                let r = if x.1 == WHOLE { iv(x.0) } else { (0, 1) };
                let (a, b) = (smul(x.2, r.0), smul(x.2, r.1));
                lo = sadd(lo, a.min(b));
                hi = sadd(hi, a.max(b));
                any = true;
            }
            if any && lo >= 0 && hi < m {
                cuts.push(p);
            }
        }
        let mut v = vec![];
        if !cuts.is_empty() {
            let mut from = 0;
            cuts.push(120);
            for p in cuts {
                let (a, b) = (1i128 << from, 1i128 << p);
                let t2: Vec<_> = t.iter().filter(|x| x.2 % a == 0 && x.2 % b != 0).map(|x| (x.0, x.1, x.2 >> from)).collect();
                let c2 = c.div_euclid(a).rem_euclid(1i128 << (p - from).min(110));
                v.push((from, mk_lin(t2, if p == 120 { c.div_euclid(a) } else { c2 })));
                from = p;
            }
        }
        g().parts.insert(z, v.clone());
        hit = Some(v);
    }
    hit.unwrap().iter().rev().find(|x| x.0 <= i).map(|x| (x.0, x.1))
}

/// another sum with the same low w bits
fn reduce(z: N, w: u8) -> Option<N> {
    let K::Lin(t, c) = k(z) else { return None };
    if w >= 100 {
        return None;
    }
    // reduce the coefficients modulo 2^w
    let m = 1i128 << w;
    let red = |x: i128| {
        let y = x.rem_euclid(m);
        if y >= m / 2 {
            y - m
        } else {
            y
        }
    };
    let mut t2: Vec<_> = t.iter().map(|x| (x.0, x.1, red(x.2))).collect();
    let c2 = red(*c);
    // the low bits of a sum are the sum itself to the same modulus
    let inner: Vec<(N, i128)> = t2.iter().filter(|x| x.1 == 0 && x.2 != 0 && matches!(k(x.0), K::Lin(..))).map(|x| (x.0, x.2)).collect();
    for (n, f) in inner {
        let mut j = 0u8;
        while red(f << j) != 0 {
            j += 1;
        }
        // the sign of a small inner sum may stand for all bits above it
        let (lo, hi) = iv(n);
        if lo < 0 && hi < 1 << 40 && lo > -(1 << 40) {
            let sg = width_of(hi).max(width_of(-(lo + 1)));
            if sg >= 1 && sg < j && (0..=sg).all(|i| t2.iter().any(|x| x.0 == n && x.1 == i && x.2 == red(if i == sg { -(f << i) } else { f << i }))) {
                t2.retain(|x| !(x.0 == n && x.1 <= sg));
                t2.push((n, WHOLE, f));
                return Some(mk_lin(t2, c2));
            }
        }
        if j > 1 && (0..j).all(|i| t2.iter().any(|x| x.0 == n && x.1 == i && x.2 == red(f << i))) {
            t2.retain(|x| !(x.0 == n && x.1 < j));
            t2.push((n, WHOLE, f));
            return Some(mk_lin(t2, c2));
        }
    }
    if c2 != *c || t2.iter().zip(t.iter()).any(|(a, b)| a.2 != b.2) {
        return Some(mk_lin(t2, c2));
    }
    None
}

/// bits s..s+w of z as an unsigned integer
pub fn slice(z: N, s: u8, w: u8) -> N {
    if s == 0 {
        let (lo, hi) = iv(z);
        if lo >= 0 && width_of(hi) <= w {
            return z;
        }
    }
    match k(z) {
        K::Ite(c, x, y) => {
            let (c, x, y) = (*c, *x, *y);
            return ite(c, slice(x, s, w), slice(y, s, w));
        }
        K::Sel(i, v) => {
            let (i, v) = (*i, v.clone());
            return sel(i, v.iter().map(|x| slice(*x, s, w)).collect());
        }
        K::Lin(..) if s == 0 => {
            if let Some(y) = reduce(z, w) {
                return slice(y, s, w);
            }
        }
        _ => {}
    }
    mk_bits((0..w).map(|i| bit(z, (s + i) as u32)).collect())
}

/// interpret z as a machine integer of w bits
pub fn wrap(z: N, w: u8, signed: bool) -> N {
    let (lo, hi) = iv(z);
    if signed {
        if lo >= -(1i128 << (w - 1)) && hi < (1i128 << (w - 1)) {
            return z;
        }
        if let K::Ite(c, x, y) = k(z) {
            let (c, x, y) = (*c, *x, *y);
            return ite(c, wrap(x, w, true), wrap(y, w, true));
        }
        if let K::Sel(i, v) = k(z) {
            let (i, v) = (*i, v.clone());
            return sel(i, v.iter().map(|x| wrap(*x, w, true)).collect());
        }
        if let Some(c) = konst(z) {
            let m = 1i128 << w;
            let y = c.rem_euclid(m);
            return cst(if y >= m / 2 { y - m } else { y });
        }
        let u = slice(z, 0, w);
        let top = br_node(bit(u, w as u32 - 1));
        if konst(top) == Some(0) {
            return u;
        }
        let r = add(u, mulc(top, -(1i128 << w)));
        // u - 2^w*top is exactly the signed reading
        r
    } else {
        if lo >= 0 && hi < (1i128 << w) {
            return z;
        }
        if let Some(c) = konst(z) {
            return cst(c.rem_euclid(1i128 << w));
        }
        slice(z, 0, w)
    }
}

// ---------------------------------------------------------------- linear

type Terms = BTreeMap<(N, u8), i128>;

/// a variable that stands for a value: kept whole in sums
pub fn is_name(z: N) -> bool {
    matches!(k(z), K::In(i, _) if g().limit.contains_key(i))
}
fn lin_into(z: N, f: i128, t: &mut Terms, c: &mut i128) {
    match k(z) {
        K::Const(x) => *c += smul(*x, f),
        K::In(..) if is_name(z) => *t.entry((z, WHOLE)).or_insert(0) += f,
        K::In(_, w) => {
            for i in 0..*w {
                *t.entry((z, i)).or_insert(0) += f << i;
            }
        }
        K::Bits(b) => {
            for (i, x) in b.iter().enumerate() {
                match x {
                    BR::Zero => {}
                    BR::One => *c += f << i,
                    BR::Bit(n, p) => {
                        let key = if *p == 0 && is_bool(*n) { (*n, WHOLE) } else { (*n, *p) };
                        *t.entry(key).or_insert(0) += f << i
                    }
                }
            }
        }
        K::Lin(ts, c0) => {
            for (n, b, cf) in ts.iter() {
                *t.entry((*n, *b)).or_insert(0) += smul(*cf, f);
            }
            *c += smul(*c0, f);
        }
        _ => *t.entry((z, WHOLE)).or_insert(0) += f,
    }
}

fn mk_lin(t: Vec<(N, u8, i128)>, c: i128) -> N {
    let mut m: Terms = BTreeMap::new();
    let mut cc = c;
    for (n, b, f) in t {
        if b == WHOLE {
            lin_into(n, f, &mut m, &mut cc);
        } else {
            *m.entry((n, b)).or_insert(0) += f;
        }
    }
    finish_lin(m, cc)
}

fn finish_lin(m: Terms, c: i128) -> N {
    let mut t: Vec<(N, u8, i128)> = m.into_iter().filter(|x| x.1 != 0).map(|((n, b), f)| (n, b, f)).collect();
    if t.is_empty() {
        return cst(c);
    }
    // whole re-assembly: all bits of one opaque node with coefficients f<<i
    merge_bits(&mut t);
    if c == 0 && t.len() == 1 && t[0].1 == WHOLE && t[0].2 == 1 {
        return t[0].0;
    }
    // disjoint powers of two: a bit vector
    if c >= 0 && t.iter().all(|x| x.2 > 0 && x.2.count_ones() == 1) {
        let mut bits: Vec<BR> = vec![];
        let put = |bits: &mut Vec<BR>, i: usize, b: BR| -> bool {
            if i >= 126 {
                return false;
            }
            if bits.len() <= i {
                bits.resize(i + 1, BR::Zero);
            }
            if b == BR::Zero {
                return true;
            }
            if bits[i] != BR::Zero {
                return false;
            }
            bits[i] = b;
            true
        };
        let mut ok = true;
        for i in 0..120 {
            if (c >> i) & 1 == 1 {
                ok &= put(&mut bits, i, BR::One);
            }
        }
        for (n, b, f) in &t {
            let s = f.trailing_zeros() as usize;
            if *b == WHOLE {
                let (lo, hi) = iv(*n);
                if lo < 0 || hi >= (1i128 << 64) || matches!(k(*n), K::Sym(_) | K::Mul(_)) {
                    ok = false;
                    break;
                }
                for i in 0..width_of(hi) as usize {
                    ok &= put(&mut bits, s + i, bit(*n, i as u32));
                }
                // symbolic sizes stay linear
                if hi >= (1i128 << 40) || hi >= 1 << 28 && sized(*n) {
                    ok = false;
                    break;
                }
            } else {
                ok &= put(&mut bits, s, BR::Bit(*n, *b));
            }
            if !ok {
                break;
            }
        }
        if ok {
            return mk_bits(bits);
        }
    }
    t.sort();
    mk(K::Lin(t.into_boxed_slice(), c))
}

/// (n,0)*f + (n,1)*2f + ... over the full width of an opaque node n -> n*f
fn merge_bits(t: &mut Vec<(N, u8, i128)>) {
    let mut nodes: Vec<N> = vec![];
    for x in t.iter() {
        if x.1 == 0 && (!matches!(k(x.0), K::In(..)) || is_name(x.0)) && !nodes.contains(&x.0) {
            nodes.push(x.0);
        }
    }
    for n in nodes {
        let (lo, hi) = iv(n);
        if lo < 0 {
            continue;
        }
        let w = width_of(hi);
        let f0 = t.iter().find(|x| x.0 == n && x.1 == 0).unwrap().2;
        let full = (0..w).all(|i| t.iter().any(|x| x.0 == n && x.1 == i && x.2 == f0 << i));
        if full {
            t.retain(|x| !(x.0 == n && x.1 != WHOLE));
            if let Some(x) = t.iter_mut().find(|x| x.0 == n && x.1 == WHOLE) {
                x.2 += f0;
            } else {
                t.push((n, WHOLE, f0));
            }
        }
    }
    t.retain(|x| x.2 != 0);
}

fn lift2(a: N, b: N, f: &dyn Fn(N, N) -> N) -> Option<N> {
    match (k(a), k(b)) {
        (K::Sel(i, x), K::Sel(j, y)) if i == j && x.len() == y.len() => {
            let (i, x, y) = (*i, x.clone(), y.clone());
            Some(sel(i, x.iter().zip(y.iter()).map(|(p, q)| f(*p, *q)).collect()))
        }
        (K::Ite(c, x, y), K::Ite(d, u, v)) if c == d => {
            let (c, x, y, u, v) = (*c, *x, *y, *u, *v);
            Some(ite(c, f(x, u), f(y, v)))
        }
        (K::Sel(i, x), K::Const(_)) if x.len() <= 64 => {
            let (i, x) = (*i, x.clone());
            Some(sel(i, x.iter().map(|p| f(*p, b)).collect()))
        }
        (K::Const(_), K::Sel(i, x)) if x.len() <= 64 => {
            let (i, x) = (*i, x.clone());
            Some(sel(i, x.iter().map(|p| f(a, *p)).collect()))
        }
        (K::Ite(c, x, y), K::Const(_)) => {
            let (c, x, y) = (*c, *x, *y);
            Some(ite(c, f(x, b), f(y, b)))
        }
        (K::Const(_), K::Ite(c, x, y)) => {
            let (c, x, y) = (*c, *x, *y);
            Some(ite(c, f(a, x), f(a, y)))
        }
        _ => None,
    }
}

pub fn add(a: N, b: N) -> N {
    if let (Some(x), Some(y)) = (konst(a), konst(b)) {
        return cst(x + y);
    }
    if konst(a) == Some(0) {
        return b;
    }
    if konst(b) == Some(0) {
        return a;
    }
    if !is_bool(a) && !is_bool(b) || matches!((k(a), k(b)), (K::Sel(..), K::Sel(..))) {
        if let Some(r) = lift2(a, b, &add) {
            return r;
        }
    }
    let mut t = BTreeMap::new();
    let mut c = 0;
    lin_into(a, 1, &mut t, &mut c);
    lin_into(b, 1, &mut t, &mut c);
    finish_lin(t, c)
}
pub fn mulc(a: N, f: i128) -> N {
    if f == 1 {
        return a;
    }
    if f == 0 {
        return cst(0);
    }
    if let Some(x) = konst(a) {
        return cst(smul(x, f));
    }
    if !is_bool(a) {
        let fc = cst(f);
        if let Some(r) = lift2(a, fc, &mul) {
            return r;
        }
    }
    let mut t = BTreeMap::new();
    let mut c = 0;
    lin_into(a, f, &mut t, &mut c);
    finish_lin(t, c)
}
pub fn sub(a: N, b: N) -> N {
    if a == b {
        return cst(0);
    }
    if !is_bool(a) || !is_bool(b) {
        if let Some(r) = lift2(a, b, &sub) {
            return r;
        }
    }
    let mut t = BTreeMap::new();
    let mut c = 0;
    lin_into(a, 1, &mut t, &mut c);
    lin_into(b, -1, &mut t, &mut c);
    finish_lin(t, c)
}
pub fn not(a: N) -> N {
    sub(cst(1), a)
}
/// is n the negation (1 - x) of something? returns x
pub fn neg_of(n: N) -> Option<N> {
    if let K::Lin(t, 1) = k(n) {
        if t.len() == 1 && t[0].2 == -1 {
            let (m, b) = (t[0].0, t[0].1);
            if b == WHOLE {
                if is_bool(m) {
                    return Some(m);
                }
            } else {
                return Some(br_node(BR::Bit(m, b)));
            }
        }
    }
    None
}

/// the size expression this is the low bits of
pub fn uncut(n: N) -> Option<N> {
    if let K::Ite(c, x, y) = k(n) {
        let (c, x, y) = (*c, *x, *y);
        return match (uncut(x), uncut(y)) {
            (None, None) => None,
            (a, b) => Some(ite(c, a.unwrap_or(x), b.unwrap_or(y))),
        };
    }
    if let K::Bits(b) = k(n) {
        if let Some(BR::Bit(m, 0)) = b.first() {
            let m = *m;
            if symbolic_only(m) && b.clone().iter().enumerate().all(|(i, r)| *r == bit(m, i as u32)) {
                return Some(m);
            }
        }
    }
    None
}

fn symbolic_only(a: N) -> bool {
    match k(a) {
        K::Lin(t, _) => t.iter().all(|x| x.1 == WHOLE && big(x.0)),
        _ => big(a),
    }
}
/// made of a symbolic size: kept linear rather than cut into bits
fn sized(a: N) -> bool {
    match k(a) {
        K::Lin(t, _) => t.iter().any(|x| x.1 == WHOLE && big(x.0)),
        _ => big(a),
    }
}
fn big(a: N) -> bool {
    match k(a) {
        K::Sym(_) => true,
        K::Mul(f) => f.iter().all(|x| big(*x)),
        K::Div(x, y) => symbolic_only(*x) || symbolic_only(*y),
        K::Ite(_, x, y) => (symbolic_only(*x) || konst(*x).is_some()) && (symbolic_only(*y) || konst(*y).is_some()),
        _ => false,
    }
}

/// a factor worth multiplying out: a short sum of symbolic sizes or of named values
fn factor(a: N) -> Option<(Terms, i128)> {
    let mut t = BTreeMap::new();
    let mut c = 0;
    if symbolic_only(a) {
        lin_into(a, 1, &mut t, &mut c);
        return Some((t, c));
    }
    if !matches!(k(a), K::Lin(..) | K::Bits(..) | K::In(..)) {
        return None;
    }
    lin_into(a, 1, &mut t, &mut c);
    let mut v: Vec<_> = t.into_iter().map(|((n, b), f)| (n, b, f)).collect();
    merge_bits(&mut v);
    if v.len() > 3 || !v.iter().all(|x| x.1 == WHOLE && is_name(x.0)) {
        return None;
    }
    Some((v.into_iter().map(|x| ((x.0, x.1), x.2)).collect(), c))
}
pub fn mul(a: N, b: N) -> N {
    if let Some(x) = konst(a) {
        return mulc(b, x);
    }
    if let Some(x) = konst(b) {
        return mulc(a, x);
    }
    if let Some(r) = lift2(a, b, &mul) {
        return r;
    }
    match (k(a), k(b)) {
        (K::Sel(i, x), _) if x.len() <= 64 && x.iter().all(|y| konst(*y).is_some()) && !matches!(k(b), K::Sel(..)) => {
            let (i, x) = (*i, x.clone());
            return sel(i, x.iter().map(|y| mul(*y, b)).collect());
        }
        (_, K::Sel(i, x)) if x.len() <= 64 && x.iter().all(|y| konst(*y).is_some()) && !matches!(k(a), K::Sel(..)) => {
            let (i, x) = (*i, x.clone());
            return sel(i, x.iter().map(|y| mul(a, *y)).collect());
        }
        _ => {}
    }
    // multiplying by a boolean selects
    if is_bool(a) {
        return ite(a, b, cst(0));
    }
    if is_bool(b) {
        return ite(b, a, cst(0));
    }
    if let (Some((ta, ca)), Some((tb, cb))) = (factor(a), factor(b)) {
        // distribute
        if let ([((n, _), f)], [((m, _), e)], 0, 0) = (&ta.iter().collect::<Vec<_>>()[..], &tb.iter().collect::<Vec<_>>()[..], ca, cb) {
            if (*n, *m) != (a, b) && (*n, *m) != (b, a) {
                return mulc(mul(*n, *m), smul(**f, **e));
            }
        }
        if ta.len() + (ca != 0) as usize + tb.len() + (cb != 0) as usize > 2 {
            let mut r = cst(smul(ca, cb));
            for ((n, _), f) in &ta {
                r = add(r, mulc(*n, smul(*f, cb)));
                for ((m, _), e) in &tb {
                    r = add(r, mulc(mul(*n, *m), smul(*f, *e)));
                }
            }
            for ((m, _), e) in &tb {
                r = add(r, mulc(*m, smul(*e, ca)));
            }
            return r;
        }
    }
    // scalar multiples inside (2*x)*(y)
    if let K::Lin(t, 0) = k(a) {
        if t.len() == 1 && t[0].1 == WHOLE {
            return mulc(mul(t[0].0, b), t[0].2);
        }
    }
    if let K::Lin(t, 0) = k(b) {
        if t.len() == 1 && t[0].1 == WHOLE {
            return mulc(mul(a, t[0].0), t[0].2);
        }
    }
    let mut f = vec![];
    for x in [a, b] {
        if let K::Mul(v) = k(x) {
            f.extend(v.iter().copied());
        } else {
            f.push(x);
        }
    }
    f.sort();
    mk(K::Mul(f.into_boxed_slice()))
}

/// floor division by a positive value
pub fn fdiv(a: N, b: N) -> N {
    if let (Some(x), Some(y)) = (konst(a), konst(b)) {
        return cst(x.div_euclid(y));
    }
    if konst(b) == Some(1) {
        return a;
    }
    if let Some(r) = lift2(a, b, &fdiv) {
        return r;
    }
    if let Some(d) = konst(b) {
        let (lo, hi) = iv(a);
        if lo >= 0 && hi < d {
            return cst(0);
        }
        if d.count_ones() == 1 {
            if let K::Bits(..) | K::In(..) = k(a) {
                let s = d.trailing_zeros() as u8;
                let w = width_of(hi);
                return slice(a, s, w - s);
            }
        }
        // pull out the multiples of d
        if let K::Lin(t, c) = k(a) {
            let q: Vec<_> = t.iter().filter(|x| x.2 % d == 0).map(|x| (x.0, x.1, x.2 / d)).collect();
            let qc = c.div_euclid(d);
            if !q.is_empty() || qc != 0 {
                let r: Vec<_> = t.iter().filter(|x| x.2 % d != 0).cloned().collect();
                let rest = mk_lin(r, c.rem_euclid(d));
                let quot = mk_lin(q, qc);
                return add(quot, fdiv(rest, b));
            }
        }
        if lo >= 0 && d.count_ones() == 1 && hi < (1i128 << 40) && !(hi >= 1 << 28 && sized(a)) {
            let s = d.trailing_zeros() as u8;
            let w = width_of(hi);
            return slice(a, s, w - s);
        }
        if let K::Div(x, y) = k(a) {
            if let Some(e) = konst(*y) {
                let x = *x;
                return fdiv(x, cst(e * d));
            }
        }
    }
    mk(K::Div(a, b))
}

/// truncated (Rust) division; b is known to be non-zero
pub fn tdiv(a: N, b: N) -> N {
    let (ia, ib) = (iv(a), iv(b));
    if ia.0 >= 0 && ib.0 > 0 {
        return fdiv(a, b);
    }
    if let (Some(x), Some(y)) = (konst(a), konst(b)) {
        return cst(if y == 0 { 0 } else { x / y });
    }
    if let Some(r) = lift2(a, b, &tdiv) {
        return r;
    }
    mk(K::TDiv(a, b))
}
pub fn trem(a: N, b: N) -> N {
    if konst(b).is_some() || (iv(b).0 > 0 && iv(a).0 >= 0 && false) {
        return sub(a, mul(b, tdiv(a, b)));
    }
    if let (Some(x), Some(y)) = (konst(a), konst(b)) {
        return cst(x % y);
    }
    if iv(a).0 >= 0 && iv(b).0 > iv(a).1 {
        return a;
    }
    mk(K::Op(OpK::Rem, vec![a, b].into_boxed_slice(), 64))
}

// ---------------------------------------------------------------- booleans

pub fn lt(a: N, b: N) -> N {
    let (x, y) = (iv(a), iv(b));
    if x.1 < y.0 {
        return cst(1);
    }
    if x.0 >= y.1 || a == b {
        return cst(0);
    }
    if let Some(r) = lift2(a, b, &lt) {
        return r;
    }
    // comparison against a constant: use the canonical difference
    let d = sub(a, b);
    let (lo, hi) = iv(d);
    if hi < 0 {
        return cst(1);
    }
    if lo >= 0 {
        return cst(0);
    }
    if let Some(c) = konst(a) {
        // c < b  <=>  !(b < c+1)
        return not(lt(b, cst(c + 1)));
    }
    if let Some(c) = konst(b) {
        let (lo, hi) = iv(a);
        if lo == 0 && hi == 1 && c == 1 {
            return not(a);
        }
        // x < 2^k over bits: all higher bits are zero
        if let K::Lin(t, c0) = k(a) {
            if *c0 != 0 {
                let a2 = mk_lin(t.to_vec(), 0);
                let (l2, h2) = iv(a2);
                let _ = (l2, h2);
                return lt(a2, cst(c - *c0));
            }
            // divide by the common factor
            let mut gcd = 0i128;
            for x in t.iter() {
                gcd = gcdi(gcd, x.2.abs());
            }
            if gcd > 1 {
                let t2: Vec<_> = t.iter().map(|x| (x.0, x.1, x.2 / gcd)).collect();
                let cc = (c + gcd - 1).div_euclid(gcd);
                return lt(mk_lin(t2, 0), cst(cc));
            }
            if t.len() == 1 && t[0].2 == -1 && t[0].1 == WHOLE {
                // -x < c  <=>  x > -c
                return not(lt(t[0].0, cst(-c + 1)));
            }
        }
        if let K::Bits(bs) = k(a) {
            let z = bs.iter().take_while(|x| **x == BR::Zero).count();
            if z > 0 {
                let r = mk_bits(bs[z..].to_vec());
                let cc = (c + (1 << z) - 1) >> z;
                return lt(r, cst(cc));
            }
            if bs[bs.len() - 1] == BR::One {
                let mut v = bs.to_vec();
                let top = v.len() - 1;
                v[top] = BR::Zero;
                return lt(mk_bits(v), cst(c - (1i128 << top)));
            }
            if c == 1i128 << (bs.len() - 1) {
                return not(br_node(bs[bs.len() - 1]));
            }
        }
    }
    mk(K::Lt(a, b))
}
pub fn gcdi(a: i128, b: i128) -> i128 {
    if b == 0 {
        a
    } else {
        gcdi(b, a % b)
    }
}
pub fn le(a: N, b: N) -> N {
    not(lt(b, a))
}
pub fn eq(a: N, b: N) -> N {
    if a == b {
        return cst(1);
    }
    let (x, y) = (iv(a), iv(b));
    if x.1 < y.0 || y.1 < x.0 {
        return cst(0);
    }
    if let Some(r) = lift2(a, b, &eq) {
        return r;
    }
    let (a, b) = if konst(a).is_some() { (b, a) } else { (a, b) };
    if let Some(c) = konst(b) {
        if is_bool(a) {
            return if c == 1 { a } else { not(a) };
        }
        // bit vectors: fixed bits decide
        if let K::Bits(bs) = k(a) {
            let bs = bs.clone();
            let mut v = vec![];
            let mut cc = 0i128;
            for (i, x) in bs.iter().enumerate() {
                let want = (c >> i) & 1;
                match x {
                    BR::Zero => {
                        if want == 1 {
                            return cst(0);
                        }
                    }
                    BR::One => {
                        if want == 0 {
                            return cst(0);
                        }
                    }
                    BR::Bit(..) => {
                        // compress to the variable bits
                        if want == 1 {
                            cc |= 1 << v.len();
                        }
                        v.push(*x);
                    }
                }
            }
            if v.len() != bs.len() {
                return eq(mk_bits(v), cst(cc));
            }
        }
        if let K::Lin(t, c0) = k(a) {
            if *c0 != 0 {
                return eq(mk_lin(t.to_vec(), 0), cst(c - *c0));
            }
            let mut gcd = 0i128;
            for x in t.iter() {
                gcd = gcdi(gcd, x.2.abs());
            }
            if gcd > 1 {
                if c % gcd != 0 {
                    return cst(0);
                }
                let t2: Vec<_> = t.iter().map(|x| (x.0, x.1, x.2 / gcd)).collect();
                return eq(mk_lin(t2, 0), cst(c / gcd));
            }
        }
        return mk(K::Eq(a, b));
    }
    let d = sub(a, b);
    let (lo, hi) = iv(d);
    if lo > 0 || hi < 0 {
        return cst(0);
    }
    if symbolic_only(d) {
        // canonical sign
        if let K::Lin(t, c) = k(d) {
            let (t, c) = (t.clone(), *c);
            let s = if t[0].2 < 0 { -1 } else { 1 };
            let t2: Vec<_> = t.iter().map(|x| (x.0, x.1, x.2 * s)).collect();
            return eq(mk_lin(t2, 0), cst(-c * s));
        }
    }
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    mk(K::Eq(a, b))
}
pub fn and(a: N, b: N) -> N {
    if a == b {
        return a;
    }
    match (konst(a), konst(b)) {
        (Some(0), _) | (_, Some(0)) => return cst(0),
        (Some(_), _) => return b,
        (_, Some(_)) => return a,
        _ => {}
    }
    if neg_of(a) == Some(b) || neg_of(b) == Some(a) {
        return cst(0);
    }
    if let (Some(x), Some(y)) = (neg_of(a), neg_of(b)) {
        return not(or(x, y));
    }
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    mk(K::And(a, b))
}
pub fn or(a: N, b: N) -> N {
    if a == b {
        return a;
    }
    match (konst(a), konst(b)) {
        (Some(0), _) => return b,
        (_, Some(0)) => return a,
        (Some(_), _) | (_, Some(_)) => return cst(1),
        _ => {}
    }
    if neg_of(a) == Some(b) || neg_of(b) == Some(a) {
        return cst(1);
    }
    if let (Some(x), Some(y)) = (neg_of(a), neg_of(b)) {
        return not(and(x, y));
    }
    // a | (!a & c) = a | c
    for (p, q) in [(a, b), (b, a)] {
        if let K::And(x, y) = k(q) {
            let (x, y) = (*x, *y);
            if neg_of(x) == Some(p) || neg_of(p) == Some(x) {
                return or(p, y);
            }
            if neg_of(y) == Some(p) || neg_of(p) == Some(y) {
                return or(p, x);
            }
        }
    }
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    mk(K::Or(a, b))
}
pub fn xor(a: N, b: N) -> N {
    if a == b {
        return cst(0);
    }
    match (konst(a), konst(b)) {
        (Some(0), _) => return b,
        (_, Some(0)) => return a,
        (Some(_), _) => return not(b),
        (_, Some(_)) => return not(a),
        _ => {}
    }
    // a sum modulo two: sorted, pairs cancelled
    fn leaves(n: N, out: &mut Vec<N>, odd: &mut bool) -> bool {
        match k(n) {
            K::Xor(a, b) => {
                let (a, b) = (*a, *b);
                leaves(a, out, odd) && leaves(b, out, odd)
            }
            K::Const(c) => {
                *odd ^= *c & 1 == 1;
                true
            }
            _ => match neg_of(n) {
                Some(m) => {
                    *odd ^= true;
                    leaves(m, out, odd)
                }
                None => {
                    out.push(n);
                    out.len() <= 40
                }
            },
        }
    }
    let (mut v, mut odd) = (vec![], false);
    if leaves(a, &mut v, &mut odd) && leaves(b, &mut v, &mut odd) {
        v.sort();
        let mut w: Vec<N> = vec![];
        for x in v {
            if w.last() == Some(&x) {
                w.pop();
            } else {
                w.push(x);
            }
        }
        let mut it = w.into_iter();
        let r = match it.next() {
            None => cst(0),
            Some(f) => it.fold(f, |a, b| mk(K::Xor(a, b))),
        };
        return if odd { not(r) } else { r };
    }
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    mk(K::Xor(a, b))
}

pub fn ite(c: N, a: N, b: N) -> N {
    if a == b {
        return a;
    }
    if let Some(x) = konst(c) {
        return if x != 0 { a } else { b };
    }
    if let Some(x) = neg_of(c) {
        return ite(x, b, a);
    }
    // nested tests of the same condition
    let a = if let K::Ite(d, x, _) = k(a) {
        if *d == c {
            *x
        } else {
            a
        }
    } else {
        a
    };
    let b = if let K::Ite(d, _, y) = k(b) {
        if *d == c {
            *y
        } else {
            b
        }
    } else {
        b
    };
    if a == b {
        return a;
    }
    if let (Some(x), Some(y)) = (konst(a), konst(b)) {
        if x == 1 && y == 0 {
            return c;
        }
        if x == 0 && y == 1 {
            return not(c);
        }
    }
    if is_bool(a) && is_bool(b) {
        if konst(a) == Some(1) {
            return or(c, b);
        }
        if konst(a) == Some(0) {
            return and(not(c), b);
        }
        if konst(b) == Some(0) {
            return and(c, a);
        }
        if konst(b) == Some(1) {
            return or(not(c), a);
        }
    }
    mk(K::Ite(c, a, b))
}

/// table lookup; idx must lie in 0..v.len()
pub fn sel(idx: N, v: Vec<N>) -> N {
    if let Some(c) = konst(idx) {
        let c = c.clamp(0, v.len() as i128 - 1);
        return v[c as usize];
    }
    let (lo, hi) = iv(idx);
    let lo = lo.clamp(0, v.len() as i128 - 1) as usize;
    let hi = hi.clamp(0, v.len() as i128 - 1) as usize;
    if v[lo..=hi].iter().all(|x| *x == v[lo]) {
        return v[lo];
    }
    if lo == 0 && hi == 1 && is_bool(idx) {
        return ite(idx, v[1], v[0]);
    }
    // identity table
    if (lo..=hi).all(|i| konst(v[i]) == Some(i as i128)) {
        return idx;
    }
    if lo > 0 {
        return sel(sub(idx, cst(lo as i128)), v[lo..=hi].to_vec());
    }
    // a common table of tables: nested Sel on the same index
    let mut w: Vec<N> = v[lo..=hi].to_vec();
    for (i, x) in w.iter_mut().enumerate() {
        if let K::Sel(j, vs) = k(*x) {
            if *j == idx && i < vs.len() {
                *x = vs[i];
            }
        }
    }
    // bits of the index that are constant: compress
    if let K::Bits(bs) = k(idx) {
        let var: Vec<usize> = (0..bs.len()).filter(|i| matches!(bs[*i], BR::Bit(..))).collect();
        if var.len() < bs.len() {
            let base: usize = (0..bs.len()).filter(|i| bs[*i] == BR::One).map(|i| 1usize << i).sum();
            let nb = mk_bits(var.iter().map(|i| bs[*i]).collect());
            let mut nv = vec![];
            for m in 0..(1usize << var.len()) {
                let mut ix = base;
                for (j, p) in var.iter().enumerate() {
                    if (m >> j) & 1 == 1 {
                        ix |= 1 << p;
                    }
                }
                nv.push(w[ix.min(w.len() - 1)]);
            }
            return sel(nb, nv);
        }
        // a repeated bit makes some entries unreachable; a bit with no influence is dropped
        if bs.len() <= 10 && (1 << bs.len()) == w.len() {
            for p in 0..bs.len() {
                if (0..w.len()).all(|m| w[m] == w[m ^ (1 << p)]) {
                    let mut nb = bs.to_vec();
                    nb.remove(p);
                    let nv: Vec<N> = (0..w.len() / 2)
                        .map(|m| {
                            let low = m & ((1 << p) - 1);
                            let high = (m >> p) << (p + 1);
                            w[low | high]
                        })
                        .collect();
                    return sel(mk_bits(nb), nv);
                }
            }
        }
    }
    mk(K::Sel(idx, w.into_boxed_slice()))
}

// ---------------------------------------------------------------- bitwise machine ops

fn bitwise(a: N, b: N, w: u8, f: &dyn Fn(N, N) -> N, ok: OpK) -> N {
    let lifted = lift2(a, b, &|x, y| bitwise(x, y, w, f, ok));
    if let Some(r) = lifted {
        return r;
    }
    if w >= 32 && konst(a).is_none() && konst(b).is_none() && (symbolic_only(a) || uncut(a).is_some()) && (symbolic_only(b) || uncut(b).is_some()) {
        return op(ok, &[a.min(b), a.max(b)], w);
    }
    // a Sel against something else stays whole only when the bits do not overlap
    let v: Vec<(BR, BR)> = (0..w as u32).map(|i| (bit(a, i), bit(b, i))).collect();
    let mut out = vec![];
    for (x, y) in v {
        let r = f(br_node(x), br_node(y));
        out.push(bit(r, 0));
    }
    mk_bits(out)
}
pub fn band(a: N, b: N, w: u8) -> N {
    // masks that keep every bit the value can have
    for (x, y) in [(a, b), (b, a)] {
        if let Some(m) = konst(y) {
            let (lo, hi) = iv(x);
            if lo >= 0 && hi < INF {
                let full = (1i128 << width_of(hi)) - 1;
                if m & full == full {
                    return x;
                }
            }
            // a mask of low bits
            if m > 0 && m < (1 << 62) && (m & (m + 1)) == 0 && matches!(k(x), K::Lin(..) | K::Sel(..)) {
                return slice(x, 0, m.count_ones() as u8);
            }
        }
    }
    bitwise(a, b, w, &and, OpK::And)
}
pub fn bor(a: N, b: N, w: u8) -> N {
    if konst(a) == Some(0) {
        return b;
    }
    if konst(b) == Some(0) {
        return a;
    }
    bitwise(a, b, w, &or, OpK::Or)
}
pub fn bxor(a: N, b: N, w: u8) -> N {
    bitwise(a, b, w, &xor, OpK::Xor)
}

pub fn op(o: OpK, args: &[N], w: u8) -> N {
    // lift over selections with constant entries
    if args.iter().all(|x| konst(*x).is_some()) {
        let v: Vec<i128> = args.iter().map(|x| konst(*x).unwrap()).collect();
        if let Some(r) = eval_op(o, &v, w) {
            return cst(r);
        }
    }
    let mut args = args.to_vec();
    if matches!(o, OpK::And | OpK::Or | OpK::Xor) {
        args.sort();
    }
    mk(K::Op(o, args.into_boxed_slice(), w))
}

pub fn eval_op(o: OpK, v: &[i128], w: u8) -> Option<i128> {
    fn f(x: i128, w: u8) -> f64 {
        if w == 32 {
            f32::from_bits(x as u32) as f64
        } else {
            f64::from_bits(x as u64)
        }
    }
    fn tof(r: f64, w: u8) -> i128 {
        if w == 32 {
            (r as f32).to_bits() as i128
        } else {
            r.to_bits() as i128
        }
    }
    let mask = if w >= 120 { -1 } else { (1i128 << w) - 1 };
    // +,-,*,/ on f32 are correctly rounded when computed in f64 and rounded once
    Some(match o {
        OpK::FAdd => tof(f(v[0], w) + f(v[1], w), w),
        OpK::FSub => tof(f(v[0], w) - f(v[1], w), w),
        OpK::FMul => tof(f(v[0], w) * f(v[1], w), w),
        OpK::FDiv => tof(f(v[0], w) / f(v[1], w), w),
        // for comparisons and FNeg `w` is the operand width
        OpK::FLt => (f(v[0], w) < f(v[1], w)) as i128,
        OpK::FLe => (f(v[0], w) <= f(v[1], w)) as i128,
        OpK::FEq => (f(v[0], w) == f(v[1], w)) as i128,
        OpK::FNeg => v[0] ^ (1i128 << (w - 1)),
        OpK::FAbs => v[0] & !(1i128 << (w - 1)),
        OpK::FToI(iw, s) => {
            let x = f(v[0], w);
            if x.is_nan() {
                0
            } else {
                let (lo, hi) = if s { (-(1i128 << (iw - 1)), (1i128 << (iw - 1)) - 1) } else { (0, (1i128 << iw) - 1) };
                (x as i128).clamp(lo, hi)
            }
        }
        OpK::IToF(_) => {
            if w == 32 {
                (v[0] as f32).to_bits() as i128
            } else {
                (v[0] as f64).to_bits() as i128
            }
        }
        OpK::FToF(a, b) => tof(f(v[0], a), b),
        OpK::Ctlz(n) => {
            let x = v[0] & ((1i128 << n) - 1);
            (0..n).rev().take_while(|i| (x >> i) & 1 == 0).count() as i128
        }
        OpK::Cttz(n) => {
            let x = v[0] & ((1i128 << n) - 1);
            (0..n).take_while(|i| (x >> i) & 1 == 0).count() as i128
        }
        OpK::Popcnt => (v[0] as u128).count_ones() as i128,
        OpK::Xor => (v[0] ^ v[1]) & mask,
        OpK::And => v[0] & v[1] & mask,
        OpK::Or => (v[0] | v[1]) & mask,
        OpK::Shl => {
            if v[1] < 0 || v[1] > 64 {
                return None;
            }
            v[0] << v[1]
        }
        OpK::Shr => {
            if v[1] < 0 || v[1] > 126 {
                return None;
            }
            v[0] >> v[1]
        }
        OpK::Rem => {
            if v[1] == 0 {
                return None;
            }
            v[0] % v[1]
        }
        OpK::Opaque(_) => return None,
    })
}

// ---------------------------------------------------------------- queries

/// children of a node
pub fn kids(n: N) -> Vec<N> {
    match k(n) {
        K::Const(_) | K::In(..) | K::Sym(_) => vec![],
        K::Bits(b) => {
            let mut v: Vec<N> = b.iter().filter_map(|x| if let BR::Bit(n, _) = x { Some(*n) } else { None }).collect();
            v.dedup();
            v
        }
        K::Lin(t, _) => {
            let mut v: Vec<N> = t.iter().map(|x| x.0).collect();
            v.dedup();
            v
        }
        K::Mul(f) => f.to_vec(),
        K::Div(a, b) | K::TDiv(a, b) | K::Lt(a, b) | K::Eq(a, b) | K::And(a, b) | K::Or(a, b) | K::Xor(a, b) => vec![*a, *b],
        K::Ite(c, a, b) => vec![*c, *a, *b],
        K::Sel(i, v) => {
            let mut r = vec![*i];
            r.extend(v.iter());
            r
        }
        K::Op(_, a, _) => a.to_vec(),
    }
}

/// the set of input bits (atom node, bit) a value depends on; Sym nodes give (n, WHOLE)
pub fn support(n: N) -> HashSet<(N, u8)> {
    let mut out = HashSet::new();
    let mut seen = HashSet::new();
    let mut st = vec![n];
    while let Some(x) = st.pop() {
        if !seen.insert(x) {
            continue;
        }
        match k(x) {
            K::In(_, w) => {
                for i in 0..*w {
                    out.insert((x, i));
                }
            }
            K::Sym(_) => {
                out.insert((x, WHOLE));
            }
            K::Op(OpK::Opaque(_), a, _) => {
                if a.is_empty() {
                    out.insert((x, WHOLE));
                } else {
                    st.extend(a.iter());
                }
            }
            K::Bits(b) => {
                for y in b.iter() {
                    if let BR::Bit(m, i) = y {
                        if matches!(k(*m), K::In(..)) {
                            out.insert((*m, *i));
                        } else {
                            st.push(*m);
                        }
                    }
                }
            }
            K::Lin(t, _) => {
                for (m, i, _) in t.iter() {
                    if *i != WHOLE && matches!(k(*m), K::In(..)) {
                        out.insert((*m, *i));
                    } else {
                        st.push(*m);
                    }
                }
            }
            _ => st.extend(kids(x)),
        }
    }
    out
}

/// sub-DAG in topological order (children first)
pub fn topo(roots: &[N]) -> Vec<N> {
    let mut out = vec![];
    let mut seen = HashSet::new();
    let mut st: Vec<(N, bool)> = roots.iter().map(|x| (*x, false)).collect();
    while let Some((x, done)) = st.pop() {
        if done {
            out.push(x);
            continue;
        }
        if !seen.insert(x) {
            continue;
        }
        st.push((x, true));
        for y in kids(x) {
            if !seen.contains(&y) {
                st.push((y, false));
            }
        }
    }
    out
}

/// Evaluate a finite sub-DAG for one assignment of its leaves.
pub struct Evaluator {
    order: Vec<N>,
    pos: HashMap<N, usize>,
    pub val: Vec<i128>,
}
impl Evaluator {
    pub fn new(roots: &[N]) -> Self {
        let order = topo(roots);
        let pos = order.iter().enumerate().map(|(i, x)| (*x, i)).collect();
        let val = vec![0; order.len()];
        Evaluator { order, pos, val }
    }
    pub fn get(&self, n: N) -> i128 {
        self.val[self.pos[&n]]
    }
    /// leaves: value of each In/Sym/opaque node; `forced` overrides inner nodes
    pub fn run(&mut self, leaf: &HashMap<N, i128>) -> bool {
        for i in 0..self.order.len() {
            let n = self.order[i];
            let v = if let Some(x) = leaf.get(&n) {
                *x
            } else {
                let get = |m: N| self.val[self.pos[&m]];
                match k(n) {
                    K::Const(c) => *c,
                    K::In(..) | K::Sym(_) => 0,
                    K::Bits(b) => {
                        let mut r = 0i128;
                        for (i, x) in b.iter().enumerate() {
                            let bv = match x {
                                BR::Zero => 0,
                                BR::One => 1,
                                BR::Bit(m, p) => (get(*m) >> p) & 1,
                            };
                            r |= bv << i;
                        }
                        r
                    }
                    K::Lin(t, c) => {
                        let mut r = *c;
                        for (m, p, f) in t.iter() {
                            let x = get(*m);
                            let x = if *p == WHOLE { x } else { (x >> p) & 1 };
                            r += x * f;
                        }
                        r
                    }
                    K::Mul(f) => f.iter().map(|x| get(*x)).fold(1i128, smul),
                    K::Div(a, b) => {
                        let d = get(*b);
                        if d <= 0 {
                            0
                        } else {
                            get(*a).div_euclid(d)
                        }
                    }
                    K::TDiv(a, b) => {
                        let d = get(*b);
                        if d == 0 {
                            0
                        } else {
                            get(*a) / d
                        }
                    }
                    K::Lt(a, b) => (get(*a) < get(*b)) as i128,
                    K::Eq(a, b) => (get(*a) == get(*b)) as i128,
                    K::And(a, b) => get(*a) & get(*b),
                    K::Or(a, b) => get(*a) | get(*b),
                    K::Xor(a, b) => get(*a) ^ get(*b),
                    K::Ite(c, a, b) => {
                        if get(*c) != 0 {
                            get(*a)
                        } else {
                            get(*b)
                        }
                    }
                    K::Sel(i, v) => {
                        let x = get(*i).clamp(0, v.len() as i128 - 1);
                        get(v[x as usize])
                    }
                    K::Op(o, a, w) => {
                        let v: Vec<i128> = a.iter().map(|x| get(*x)).collect();
                        match eval_op(*o, &v, *w) {
                            Some(x) => x,
                            None => {
                                if matches!(o, OpK::Opaque(_)) {
                                    return false;
                                }
                                0
                            }
                        }
                    }
                }
            };
            self.val[i] = v;
        }
        true
    }
}

/// rewrite `n` replacing some nodes by others
pub fn subst(n: N, map: &HashMap<N, N>, memo: &mut HashMap<N, N>) -> N {
    if let Some(x) = map.get(&n) {
        return *x;
    }
    if let Some(x) = memo.get(&n) {
        return *x;
    }
    let r = match k(n).clone() {
        K::Const(_) | K::In(..) | K::Sym(_) => n,
        K::Bits(b) => {
            let v = b
                .iter()
                .map(|x| match x {
                    BR::Bit(m, i) => {
                        let y = subst(*m, map, memo);
                        bit(y, *i as u32)
                    }
                    x => *x,
                })
                .collect();
            mk_bits(v)
        }
        K::Lin(t, c) => {
            let mut r = cst(c);
            for (m, i, f) in t.iter() {
                let y = subst(*m, map, memo);
                let y = if *i == WHOLE { y } else { br_node(bit(y, *i as u32)) };
                r = add(r, mulc(y, *f));
            }
            r
        }
        K::Mul(f) => {
            let mut r = cst(1);
            for x in f.iter() {
                r = mul(r, subst(*x, map, memo));
            }
            r
        }
        K::Div(a, b) => fdiv(subst(a, map, memo), subst(b, map, memo)),
        K::TDiv(a, b) => tdiv(subst(a, map, memo), subst(b, map, memo)),
        K::Lt(a, b) => lt(subst(a, map, memo), subst(b, map, memo)),
        K::Eq(a, b) => eq(subst(a, map, memo), subst(b, map, memo)),
        K::And(a, b) => and(subst(a, map, memo), subst(b, map, memo)),
        K::Or(a, b) => or(subst(a, map, memo), subst(b, map, memo)),
        K::Xor(a, b) => xor(subst(a, map, memo), subst(b, map, memo)),
        K::Ite(c, a, b) => {
            let c = subst(c, map, memo);
            match konst(c) {
                Some(0) => subst(b, map, memo),
                Some(_) => subst(a, map, memo),
                None => ite(c, subst(a, map, memo), subst(b, map, memo)),
            }
        }
        K::Sel(i, v) => {
            let i = subst(i, map, memo);
            if let Some(c) = konst(i) {
                let c = c.clamp(0, v.len() as i128 - 1) as usize;
                subst(v[c], map, memo)
            } else {
                let v = v.iter().map(|x| subst(*x, map, memo)).collect();
                sel(i, v)
            }
        }
        K::Op(o, a, w) => {
            let a: Vec<N> = a.iter().map(|x| subst(*x, map, memo)).collect();
            op(o, &a, w)
        }
    };
    memo.insert(n, r);
    r
}

pub fn show(n: N) -> String {
    fn go(n: N, d: u32) -> String {
        if d == 0 {
            return "..".into();
        }
        match k(n) {
            K::Const(c) => format!("{c}"),
            K::In(a, _) => g().atoms[*a as usize].clone(),
            K::Sym(s) => g().syms[*s as usize].0.clone(),
            K::Bits(b) => {
                let mut s = String::from("[");
                let mut i = b.len();
                while i > 0 {
                    i -= 1;
                    match b[i] {
                        BR::Zero => s.push('0'),
                        BR::One => s.push('1'),
                        BR::Bit(m, p) => {
                            let mut q = p;
                            while i > 0 && q > 0 && b[i - 1] == BR::Bit(m, q - 1) {
                                i -= 1;
                                q -= 1;
                            }
                            s += &format!(" {}<{}:{}> ", go(m, d - 1), p, q);
                        }
                    }
                }
                s + "]"
            }
            K::Lin(t, c) => {
                let mut s = String::from("(");
                for (m, p, f) in t.iter() {
                    if *p == WHOLE {
                        s += &format!("{:+}*{}", f, go(*m, d - 1));
                    } else {
                        s += &format!("{:+}*{}<{}>", f, go(*m, d - 1), p);
                    }
                }
                s + &format!("{:+})", c)
            }
            K::Mul(f) => f.iter().map(|x| go(*x, d - 1)).collect::<Vec<_>>().join("*"),
            K::Div(a, b) => format!("({} div {})", go(*a, d - 1), go(*b, d - 1)),
            K::TDiv(a, b) => format!("({} tdiv {})", go(*a, d - 1), go(*b, d - 1)),
            K::Lt(a, b) => format!("({}<{})", go(*a, d - 1), go(*b, d - 1)),
            K::Eq(a, b) => format!("({}=={})", go(*a, d - 1), go(*b, d - 1)),
            K::And(a, b) => format!("({}&&{})", go(*a, d - 1), go(*b, d - 1)),
            K::Or(a, b) => format!("({}||{})", go(*a, d - 1), go(*b, d - 1)),
            K::Xor(a, b) => format!("({}^^{})", go(*a, d - 1), go(*b, d - 1)),
            K::Ite(c, a, b) => format!("({} ? {} : {})", go(*c, d - 1), go(*a, d - 1), go(*b, d - 1)),
            K::Sel(i, v) => {
                let e: Vec<String> = v.iter().take(4).map(|x| go(*x, d - 1)).collect();
                format!("sel({}; {}{})", go(*i, d - 1), e.join(", "), if v.len() > 4 { format!(", ..{}", v.len()) } else { String::new() })
            }
            K::Op(o, a, _) => format!("{:?}({})", o, a.iter().map(|x| go(*x, d - 1)).collect::<Vec<_>>().join(", ")),
        }
    }
    go(n, 7)
}

// ---------------------------------------------------------------- canonical boolean structure

struct Bdd {
    nodes: Vec<(N, u32, u32)>,
    uniq: HashMap<(N, u32, u32), u32>,
    memo: HashMap<(u8, u32, u32), u32>,
    leaf: HashMap<N, u32>,
}
impl Bdd {
    fn mk(&mut self, v: N, h: u32, l: u32) -> u32 {
        if h == l {
            return h;
        }
        if let Some(x) = self.uniq.get(&(v, h, l)) {
            return *x;
        }
        let i = self.nodes.len() as u32;
        self.nodes.push((v, h, l));
        self.uniq.insert((v, h, l), i);
        i
    }
    fn apply(&mut self, o: u8, a: u32, b: u32) -> Option<u32> {
        match (o, a, b) {
            (0, 0, _) | (0, _, 0) => return Some(0),
            (0, 1, x) | (0, x, 1) => return Some(x),
            (1, 1, _) | (1, _, 1) => return Some(1),
            (1, 0, x) | (1, x, 0) => return Some(x),
            (2, 0, x) | (2, x, 0) => return Some(x),
            _ => {}
        }
        if a == b {
            return Some(if o == 2 { 0 } else { a });
        }
        if o == 2 && a < 2 && b < 2 {
            return Some(a ^ b);
        }
        if let Some(x) = self.memo.get(&(o, a, b)) {
            return Some(*x);
        }
        if self.nodes.len() > 4000 {
            return None;
        }
        let va = if a < 2 { N::MAX } else { self.nodes[a as usize].0 };
        let vb = if b < 2 { N::MAX } else { self.nodes[b as usize].0 };
        let v = va.min(vb);
        let (ah, al) = if va == v { (self.nodes[a as usize].1, self.nodes[a as usize].2) } else { (a, a) };
        let (bh, bl) = if vb == v { (self.nodes[b as usize].1, self.nodes[b as usize].2) } else { (b, b) };
        let h = self.apply(o, ah, bh)?;
        let l = self.apply(o, al, bl)?;
        let r = self.mk(v, h, l);
        self.memo.insert((o, a, b), r);
        Some(r)
    }
    fn build(&mut self, n: N) -> Option<u32> {
        if let Some(c) = konst(n) {
            return Some((c != 0) as u32);
        }
        if let Some(x) = self.leaf.get(&n) {
            return Some(*x);
        }
        let r = if let Some(m) = neg_of(n) {
            let x = self.build(m)?;
            self.apply(2, x, 1)?
        } else {
            match k(n) {
                K::And(a, b) => {
                    let (x, y) = (self.build(*a)?, self.build(*b)?);
                    self.apply(0, x, y)?
                }
                K::Or(a, b) => {
                    let (x, y) = (self.build(*a)?, self.build(*b)?);
                    self.apply(1, x, y)?
                }
                K::Xor(a, b) => {
                    let (x, y) = (self.build(*a)?, self.build(*b)?);
                    self.apply(2, x, y)?
                }
                K::Ite(c, a, b) if is_bool(*a) && is_bool(*b) => {
                    let (z, x, y) = (self.build(*c)?, self.build(*a)?, self.build(*b)?);
                    let nz = self.apply(2, z, 1)?;
                    let p = self.apply(0, z, x)?;
                    let q = self.apply(0, nz, y)?;
                    self.apply(1, p, q)?
                }
                _ => self.mk(n, 1, 0),
            }
        };
        self.leaf.insert(n, r);
        Some(r)
    }
    fn emit(&self, b: u32, memo: &mut HashMap<u32, N>) -> N {
        if b < 2 {
            return cst(b as i128);
        }
        if let Some(x) = memo.get(&b) {
            return *x;
        }
        let (v, h, l) = self.nodes[b as usize];
        let (x, y) = (self.emit(h, memo), self.emit(l, memo));
        let r = ite(v, x, y);
        memo.insert(b, r);
        r
    }
}
/// the boolean skeleton of `n` over its atomic conditions, in a canonical form
pub fn canon_bool(n: N) -> N {
    if !matches!(k(n), K::And(..) | K::Or(..) | K::Xor(..) | K::Ite(..) | K::Lin(..)) {
        return n;
    }
    let mut b = Bdd { nodes: vec![(N::MAX, 0, 0), (N::MAX, 1, 1)], uniq: HashMap::new(), memo: HashMap::new(), leaf: HashMap::new() };
    match b.build(n) {
        Some(r) => b.emit(r, &mut HashMap::new()),
        None => n,
    }
}
/// the atomic conditions of a boolean skeleton
pub fn atoms_of(n: N, out: &mut Vec<N>) {
    if konst(n).is_some() {
        return;
    }
    if let Some(m) = neg_of(n) {
        return atoms_of(m, out);
    }
    match k(n) {
        K::And(a, b) | K::Or(a, b) | K::Xor(a, b) => {
            atoms_of(*a, out);
            atoms_of(*b, out);
        }
        K::Ite(c, a, b) if is_bool(*a) && is_bool(*b) => {
            atoms_of(*c, out);
            atoms_of(*a, out);
            atoms_of(*b, out);
        }
        _ => {
            if !out.contains(&n) {
                out.push(n)
            }
        }
    }
}
