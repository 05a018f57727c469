//! Deciding that two value graphs denote the same function of the input.
use crate::batch::*;
use crate::node::*;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug)]
pub enum Verdict {
    Equal,
    /// assignment of the leaves on which the two differ, with both values
    Differ(Vec<(N, i128)>, i128, i128),
    Unknown,
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
}

/// leaves of a set of graphs: In and Sym nodes, and opaque values
pub fn leaves(roots: &[N]) -> Vec<N> {
    topo(roots)
        .into_iter()
        .filter(|x| match k(*x) {
            K::In(..) | K::Sym(_) => true,
            K::Op(OpK::Opaque(_), a, _) => a.is_empty(),
            _ => false,
        })
        .collect()
}

pub fn pick(r: &mut Rng, n: N) -> i128 {
    let (lo, hi) = iv(n);
    let span = (hi - lo).max(0) as u128 + 1;
    let x = match r.below(8) {
        0 => 0u128,
        1 => span - 1,
        2 => r.below(4) as u128,
        3 => (span - 1).saturating_sub(r.below(4) as u128),
        4 => span >> (r.below(20) + 1),
        _ => r.next() as u128,
    };
    lo + (x % span) as i128
}

/// number of input bits a value depends on (None: depends on something unbounded)
pub fn nbits(s: &HashSet<(N, u8)>) -> Option<usize> {
    let mut n = 0;
    for (_, b) in s {
        if *b == WHOLE {
            return None;
        }
        n += 1;
    }
    Some(n)
}

/// decision diagrams over single input bits and opaque conditions
pub struct Dd {
    nodes: Vec<(u32, u32, u32)>,
    uniq: HashMap<(u32, u32, u32), u32>,
    memo: HashMap<(u8, u32, u32), u32>,
    vars: HashMap<(N, u8), u32>,
    of: HashMap<N, Option<u32>>,
    limit: usize,
}
impl Dd {
    pub fn new() -> Self {
        Dd { nodes: vec![(u32::MAX, 0, 0), (u32::MAX, 1, 1)], uniq: HashMap::new(), memo: HashMap::new(), vars: HashMap::new(), of: HashMap::new(), limit: 6_000_000 }
    }
    fn mk(&mut self, v: u32, h: u32, l: u32) -> u32 {
        if h == l {
            return h;
        }
        if let Some(x) = self.uniq.get(&(v, h, l)) {
            return *x;
        }
        let i = self.nodes.len() as u32;
        self.nodes.push((v, h, l));
        self.uniq.insert((v, h, l), i);
        i
    }
    pub fn apply(&mut self, o: u8, a: u32, b: u32) -> Option<u32> {
        match (o, a, b) {
            (0, 0, _) | (0, _, 0) => return Some(0),
            (0, 1, x) | (0, x, 1) => return Some(x),
            (1, 1, _) | (1, _, 1) => return Some(1),
            (1, 0, x) | (1, x, 0) => return Some(x),
            (2, 0, x) | (2, x, 0) => return Some(x),
            (2, 1, 1) => return Some(0),
            _ => {}
        }
        if a == b {
            return Some(if o == 2 { 0 } else { a });
        }
        let (a, b) = (a.min(b), a.max(b));
        if let Some(x) = self.memo.get(&(o, a, b)) {
            return Some(*x);
        }
        if self.nodes.len() > self.limit {
            return None;
        }
        let va = self.nodes[a as usize].0;
        let vb = self.nodes[b as usize].0;
        let v = va.min(vb);
        let (ah, al) = if va == v { (self.nodes[a as usize].1, self.nodes[a as usize].2) } else { (a, a) };
        let (bh, bl) = if vb == v { (self.nodes[b as usize].1, self.nodes[b as usize].2) } else { (b, b) };
        let h = self.apply(o, ah, bh)?;
        let l = self.apply(o, al, bl)?;
        let r = self.mk(v, h, l);
        self.memo.insert((o, a, b), r);
        Some(r)
    }
    fn var(&mut self, b: (N, u8)) -> u32 {
        let n = self.vars.len() as u32;
        let v = *self.vars.entry(b).or_insert(n);
        self.mk(v, 1, 0)
    }
    fn pure(n: N) -> Option<Vec<BR>> {
        match k(n) {
            K::Const(c) if *c >= 0 => Some((0..126).map(|i| if (*c >> i) & 1 == 1 { BR::One } else { BR::Zero }).collect()),
            K::In(_, w) => Some((0..*w).map(|i| BR::Bit(n, i)).collect()),
            K::Bits(b) => {
                if b.iter().all(|x| if let BR::Bit(m, _) = x { matches!(k(*m), K::In(..)) } else { true }) {
                    Some(b.to_vec())
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn br(&mut self, b: BR) -> u32 {
        match b {
            BR::Zero => 0,
            BR::One => 1,
            BR::Bit(n, i) => self.var((n, i)),
        }
    }
    /// the diagram of a condition
    pub fn cond(&mut self, n: N) -> Option<u32> {
        if let Some(c) = konst(n) {
            return Some((c != 0) as u32);
        }
        if let Some(x) = self.of.get(&n) {
            return *x;
        }
        let r = self.cond_new(n);
        self.of.insert(n, r);
        r
    }
    fn cond_new(&mut self, n: N) -> Option<u32> {
        if let Some(m) = neg_of(n) {
            let x = self.cond(m)?;
            return self.apply(2, x, 1);
        }
        match k(n) {
            K::And(a, b) => {
                let (x, y) = (self.cond(*a)?, self.cond(*b)?);
                self.apply(0, x, y)
            }
            K::Or(a, b) => {
                let (x, y) = (self.cond(*a)?, self.cond(*b)?);
                self.apply(1, x, y)
            }
            K::Xor(a, b) => {
                let (x, y) = (self.cond(*a)?, self.cond(*b)?);
                self.apply(2, x, y)
            }
            K::Ite(c, a, b) if is_bool(*a) && is_bool(*b) => {
                let (z, x, y) = (self.cond(*c)?, self.cond(*a)?, self.cond(*b)?);
                let nz = self.apply(2, z, 1)?;
                let p = self.apply(0, z, x)?;
                let q = self.apply(0, nz, y)?;
                self.apply(1, p, q)
            }
            K::Bits(b) if b.len() == 1 => {
                if let BR::Bit(m, i) = b[0] {
                    if matches!(k(m), K::In(..)) {
                        return Some(self.var((m, i)));
                    }
                    if i == 0 && is_bool(m) {
                        return self.cond(m);
                    }
                }
                self.small(n)
            }
            K::Lt(a, b) | K::Eq(a, b) => {
                let is_lt = matches!(k(n), K::Lt(..));
                if let (Some(mut x), Some(mut y)) = (Self::pure(*a), Self::pure(*b)) {
                    let l = x.len().max(y.len());
                    x.resize(l, BR::Zero);
                    y.resize(l, BR::Zero);
                    // first touch fixes the order: most significant first, both sides interleaved
                    for i in (0..l).rev() {
                        self.br(x[i]);
                        self.br(y[i]);
                    }
                    let mut r = if is_lt { 0 } else { 1 };
                    for i in 0..l {
                        let (p, q) = (self.br(x[i]), self.br(y[i]));
                        let d = self.apply(2, p, q)?;
                        let same = self.apply(2, d, 1)?;
                        let keep = self.apply(0, same, r)?;
                        r = if is_lt {
                            let less = self.apply(0, d, q)?;
                            self.apply(1, less, keep)?
                        } else {
                            keep
                        };
                    }
                    return Some(r);
                }
                self.small(n)
            }
            _ => self.small(n),
        }
    }
    /// few input bits: by its truth table; otherwise an opaque condition
    fn small(&mut self, n: N) -> Option<u32> {
        let s = support(n);
        if s.len() > 15 || s.iter().any(|x| x.1 == WHOLE) {
            return Some(self.var((n, WHOLE)));
        }
        let mut bits: Vec<(N, u8)> = s.into_iter().collect();
        bits.sort();
        for b in &bits {
            self.var(*b);
        }
        bits.sort_by_key(|b| self.vars[b]);
        let mut ev = Evaluator::new(&[n]);
        let mut leaf: HashMap<N, i128> = HashMap::new();
        let nb = bits.len();
        let mut tab = vec![0u32; 1 << nb];
        for m in 0..(1usize << nb) {
            leaf.clear();
            for (i, (z, b)) in bits.iter().enumerate() {
                // first variable = most significant index bit
                *leaf.entry(*z).or_insert(0) |= (((m >> (nb - 1 - i)) & 1) as i128) << b;
            }
            if !ev.run(&leaf) {
                return Some(self.var((n, WHOLE)));
            }
            tab[m] = (ev.get(n) != 0) as u32;
        }
        for i in (0..nb).rev() {
            let v = self.vars[&bits[i]];
            let half = 1usize << i;
            let mut nt = Vec::with_capacity(half);
            for m in 0..half {
                nt.push(self.mk(v, tab[2 * m + 1], tab[2 * m]));
            }
            tab = nt;
        }
        Some(tab[0])
    }
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1)
}

pub struct Eq {
    pub dd: Dd,
    failed: HashSet<(N, N, u32)>,
    pub given_up: HashSet<(N, N)>,
    pub max_table: usize,
    pub budget: u64,
    pub proved: HashSet<(N, N)>,
    pub rng: Rng,
    /// input bits on which some sub-goal differed
    hints: Vec<Vec<(N, i128, i128)>>,
    trail: Vec<(N, i128)>,
    pub by_struct: u64,
    pub by_table: u64,
    pub by_split: u64,
}
impl Eq {
    pub fn new() -> Self {
        Eq { dd: Dd::new(), failed: HashSet::new(), given_up: HashSet::new(), max_table: 20, budget: 400_000_000, proved: HashSet::new(), rng: Rng(seed()), hints: vec![], trail: vec![], by_struct: 0, by_table: 0, by_split: 0 }
    }
    /// look for an input on which `bad` holds for the roots
    pub fn search(&mut self, roots: &[N], tries: u32, bad: &dyn Fn(&Evaluator) -> bool) -> Option<Vec<(N, i128)>> {
        let lv = leaves(roots);
        let mut ev = Evaluator::new(roots);
        let mut m: HashMap<N, i128> = HashMap::new();
        for i in 0..tries {
            for l in &lv {
                // half of the points change only a few leaves of the previous one
                if i % 2 == 0 || !m.contains_key(l) || self.rng.below(4) == 0 {
                    let v = pick(&mut self.rng, *l);
                    m.insert(*l, v);
                }
            }
            if i % 7 == 3 && lv.len() > 1 {
                // equal leaves reach comparisons for equality
                let a = lv[self.rng.below(lv.len() as u64) as usize];
                let b = lv[self.rng.below(lv.len() as u64) as usize];
                let (lo, hi) = iv(b);
                let va = m[&a];
                if va >= lo && va <= hi {
                    m.insert(b, va);
                }
            }
            ev.run(&m);
            if bad(&ev) {
                return Some(lv.iter().map(|x| (*x, m[x])).collect());
            }
        }
        None
    }
    pub fn equal(&mut self, a: N, b: N) -> Verdict {
        if a == b {
            self.by_struct += 1;
            return Verdict::Equal;
        }
        if self.proved.contains(&(a, b)) {
            return Verdict::Equal;
        }
        if let Some(w) = self.search(&[a, b], 64, &|e| e.get(a) != e.get(b)) {
            return self.differ(a, b, w);
        }
        self.failed.clear();
        self.hints.clear();
        self.trail.clear();
        let (x, why) = {
            let t0 = std::time::Instant::now();
            let (a2, b2) = self.sweep(a, b);
            let t1 = t0.elapsed();
            let r = self.prove(a2, b2, 40, 1);
            if std::env::var("EQDBG").is_ok() {
                println!("TIME sweep {:?} prove {:?} dd {}", t1, t0.elapsed() - t1, self.dd.nodes.len());
            }
            r
        };
        if x {
            match why {
                0 => self.by_struct += 1,
                1 => self.by_table += 1,
                _ => self.by_split += 1,
            }
            self.proved.insert((a, b));
            return Verdict::Equal;
        }
        // points suggested by the sub-goals that failed
        let hints = std::mem::take(&mut self.hints);
        if !hints.is_empty() {
            let lv = leaves(&[a, b]);
            let mut ev = Evaluator::new(&[a, b]);
            let per = (40000 / hints.len()).clamp(50, 4000);
            for h in &hints {
                for _ in 0..per {
                    let mut m: HashMap<N, i128> = HashMap::new();
                    for l in &lv {
                        let v = pick(&mut self.rng, *l);
                        m.insert(*l, v);
                    }
                    for (z, mask, v) in h {
                        if let Some(x) = m.get_mut(z) {
                            *x = (*x & !mask) | v;
                        }
                    }
                    ev.run(&m);
                    if ev.get(a) != ev.get(b) {
                        let w = lv.iter().map(|x| (*x, m[x])).collect();
                        return self.differ(a, b, w);
                    }
                }
            }
        }
        if let Some(w) = self.search(&[a, b], 30000, &|e| e.get(a) != e.get(b)) {
            return self.differ(a, b, w);
        }
        Verdict::Unknown
    }
    fn differ(&self, a: N, b: N, w: Vec<(N, i128)>) -> Verdict {
        let mut ev = Evaluator::new(&[a, b]);
        ev.run(&w.iter().cloned().collect());
        Verdict::Differ(w, ev.get(a), ev.get(b))
    }
    /// give conditions with the same meaning the same name
    fn sweep(&mut self, a: N, b: N) -> (N, N) {
        let mut rep: HashMap<u32, N> = HashMap::new();
        let mut map: HashMap<N, N> = HashMap::new();
        // the widest comparators choose the variable order
        if self.dd.nodes.len() > 1_000_000 {
            self.dd = Dd::new();
        }
        let mut wide: Vec<(usize, N, N)> = vec![];
        for n in topo(&[a, b]) {
            if let K::Lt(x, y) | K::Eq(x, y) = k(n) {
                if konst(*x).is_none() && konst(*y).is_none() {
                    if let (Some(p), Some(q)) = (Dd::pure(*x), Dd::pure(*y)) {
                        wide.push((p.len().max(q.len()), *x, *y));
                    }
                }
            }
        }
        wide.sort_by(|p, q| q.cmp(p));
        for (l, x, y) in wide {
            let (p, q) = (Dd::pure(x).unwrap(), Dd::pure(y).unwrap());
            for i in (0..l).rev() {
                for z in [&p, &q] {
                    if let Some(t) = z.get(i) {
                        self.dd.br(*t);
                    }
                }
            }
        }
        let order = topo(&[a, b]);
        let mut used: HashSet<N> = HashSet::new();
        let mut st: Vec<N> = order.iter().filter_map(|n| if let K::Ite(c, _, _) = k(*n) { Some(*c) } else { None }).collect();
        while let Some(c) = st.pop() {
            if used.insert(c) {
                st.extend(kids(c).into_iter().filter(|x| is_bool(*x)));
            }
        }
        for n in order {
            if !used.contains(&n) || !is_bool(n) || konst(n).is_some() || matches!(k(n), K::In(..)) {
                continue;
            }
            if let Some(d) = self.dd.cond(n) {
                if d < 2 {
                    map.insert(n, cst(d as i128));
                    continue;
                }
                let nd = self.dd.apply(2, d, 1);
                if let Some(x) = rep.get(&d) {
                    map.insert(n, *x);
                } else if let Some(x) = nd.and_then(|z| rep.get(&z)) {
                    map.insert(n, not(*x));
                } else {
                    rep.insert(d, n);
                }
            }
        }
        let mut memo = HashMap::new();
        (subst(a, &map, &mut memo), subst(b, &map, &mut memo))
    }
    fn prove(&mut self, a: N, b: N, d: u32, ctx: u32) -> (bool, u32) {
        if a == b || self.proved.contains(&(a, b)) {
            return (true, 0);
        }
        if self.failed.contains(&(a, b, ctx)) {
            return (false, 0);
        }
        let (ia, ib) = (iv(a), iv(b));
        if ia.1 < ib.0 || ib.1 < ia.0 {
            return (false, 0);
        }
        let r = self.prove_in(a, b, d, ctx);
        if !r.0 {
            self.failed.insert((a, b, ctx));
        } else if ctx == 1 {
            self.proved.insert((a, b));
        }
        r
    }
    fn prove_in(&mut self, a: N, b: N, d: u32, ctx: u32) -> (bool, u32) {
        // the same finite function of a few input bits
        let mut s = support(a);
        s.extend(support(b));
        let nb = nbits(&s);
        if let Some(n) = nb {
            if n <= 11 && self.table(a, b, &s, ctx == 1) {
                self.proved.insert((a, b));
                return (true, 1);
            }
        }
        if d == 0 {
            return (false, 0);
        }
        match (k(a), k(b)) {
            (K::Sel(i, v), K::Sel(j, w)) if i == j && v.len() == w.len() => {
                if v.iter().zip(w.iter()).all(|(x, y)| self.prove(*x, *y, d - 1, ctx).0) {
                    return (true, 0);
                }
            }
            _ => {}
        }
        // split on the outermost condition of either side
        let pick = match (k(a), k(b)) {
            (K::Ite(c, _, _), K::Ite(e, _, _)) if c == e => Some(*c),
            _ => None,
        };
        let pick = if pick.is_some() { pick } else { match (self.condition(a), self.condition(b)) {
            (Some(x), Some(y)) => Some(if y.0 < x.0 { y.1 } else { x.1 }),
            (x, y) => x.or(y).map(|z| z.1),
        } };
        if let Some(c) = pick {
            if std::env::var("EQDBG").is_ok() { println!("SPLIT d={d} dd={} on {}", self.dd.nodes.len(), show(c)); }
            let mut ok = true;
            let bo = is_bool(c);
            let range: Vec<i128> = if bo { vec![0, 1] } else { (iv(c).0..=iv(c).1).collect() };
            for v in range {
                let mut nctx = ctx;
                if bo {
                    if let Some(x) = self.dd.cond(c) {
                        let lit = if v == 1 { Some(x) } else { self.dd.apply(2, x, 1) };
                        if let Some(z) = lit.and_then(|l| self.dd.apply(0, ctx, l)) {
                            nctx = z;
                        }
                    }
                    if nctx == 0 {
                        continue;
                    }
                }
                let mut m = HashMap::new();
                let x = self.assume(a, c, v, &mut m);
                let mut m2 = m.clone();
                let y = self.assume(b, c, v, &mut m2);
                self.trail.push((c, v));
                let proved = self.prove(x, y, d - 1, nctx).0;
                self.trail.pop();
                if !proved {
                    ok = false;
                    break;
                }
            }
            if ok {
                return (ok, 2);
            }
        } else if let (K::Lin(..), K::Lin(..)) = (k(a), k(b)) {
            // nothing left to split on
        }
        // or at least the same wherever the conditions met so far hold
        if nb.map(|n| n <= 15).unwrap_or(false) && ctx != 1 && pick.is_none() {
            let same = eq(a, b);
            if let Some(x) = self.dd.cond(same) {
                let nx = self.dd.apply(2, x, 1);
                let left = nx.and_then(|z| self.dd.apply(0, ctx, z));
                if left == Some(0) {
                    return (true, 1);
                }
                if let Some(l) = left {
                    self.hint_from(l);
                }
            }
        } else if pick.is_none() {
            self.hint_from(ctx);
        }
        if let Some(n) = nb {
            if n > 11 && n <= self.max_table && ctx == 1 {
                return (self.table(a, b, &s, true), 1);
            }
        }
        if std::env::var("EQDBG").is_ok() {
            println!("STUCK d={d} dd={}\n  {}\n  {}", self.dd.nodes.len(), show(a), show(b));
        }
        (false, 0)
    }
    /// remember input bits under which a sub-goal fails
    fn hint(&mut self, at: Vec<(N, u8, bool)>) {
        if self.hints.len() >= 400 {
            return;
        }
        let mut per: HashMap<N, (i128, i128)> = HashMap::new();
        let mut put = |z: N, p: u8, v: bool| {
            let e = per.entry(z).or_insert((0, 0));
            if e.0 >> p & 1 == 0 {
                e.0 |= 1 << p;
                e.1 |= (v as i128) << p;
            }
        };
        for (z, p, v) in at {
            put(z, p, v);
        }
        for (c, v) in &self.trail {
            match k(*c) {
                K::Bits(bs) => {
                    for (i, b) in bs.iter().enumerate() {
                        if let BR::Bit(z, p) = b {
                            if matches!(k(*z), K::In(..)) {
                                put(*z, *p, (v >> i) & 1 == 1);
                            }
                        }
                    }
                }
                K::In(_, w) => {
                    for i in 0..*w {
                        put(*c, i, (v >> i) & 1 == 1);
                    }
                }
                _ => {}
            }
        }
        self.hints.push(per.into_iter().map(|(z, (m, v))| (z, m, v)).collect());
    }
    fn hint_from(&mut self, mut d: u32) {
        if d == 0 || self.hints.len() >= 400 {
            return;
        }
        let name: HashMap<u32, (N, u8)> = self.dd.vars.iter().map(|(b, v)| (*v, *b)).collect();
        let mut at = vec![];
        while d > 1 {
            let (v, h, l) = self.dd.nodes[d as usize];
            let take = if l == 0 { true } else if h == 0 { false } else { self.rng.below(2) == 1 };
            if let Some((z, p)) = name.get(&v) {
                if *p != WHOLE {
                    at.push((*z, *p, take));
                }
            }
            d = if take { h } else { l };
        }
        self.hint(at);
    }
    /// rewrite under the assumption c = v
    fn assume(&self, n: N, c: N, v: i128, memo: &mut HashMap<N, N>) -> N {
        let mut m = HashMap::new();
        m.insert(c, cst(v));
        if let Some(x) = neg_of(c) {
            m.insert(x, cst(1 - v));
        }
        // a selector made of input bits fixes these bits
        if let K::Bits(bs) = k(c) {
            let mut per: HashMap<N, Vec<(u8, bool)>> = HashMap::new();
            for (i, b) in bs.iter().enumerate() {
                if let BR::Bit(z, p) = b {
                    if matches!(k(*z), K::In(..)) {
                        per.entry(*z).or_default().push((*p, (v >> i) & 1 == 1));
                    }
                }
            }
            for (z, f) in per {
                if let K::In(_, w) = k(z) {
                    let bits = (0..*w)
                        .map(|i| match f.iter().find(|x| x.0 == i) {
                            Some((_, true)) => BR::One,
                            Some((_, false)) => BR::Zero,
                            None => BR::Bit(z, i),
                        })
                        .collect();
                    m.insert(z, mk_bits(bits));
                }
            }
        }
        subst(n, &m, memo)
    }
    /// the next condition to split on: single input bits first, then small
    /// conditions and selectors, then wide comparisons; nearest to the root first
    fn condition(&self, n: N) -> Option<(u32, N)> {
        let mut q = std::collections::VecDeque::new();
        let mut seen = HashSet::new();
        q.push_back(n);
        let mut best: Option<(u32, N)> = None;
        let mut offer = |r: u32, c: N| {
            if best.map(|b| r < b.0).unwrap_or(true) {
                best = Some((r, c));
            }
        };
        let rank = |c: N| -> u32 {
            let inner = topo(&[c]).iter().any(|x| matches!(k(*x), K::Ite(..) | K::Sel(..)));
            match support(c).len() {
                1 => 0,
                0..=11 if !inner => 1,
                0..=11 => 3,
                _ if !inner => 3,
                _ => 5,
            }
        };
        while let Some(x) = q.pop_front() {
            if !seen.insert(x) {
                continue;
            }
            let mut conds = vec![];
            match k(x) {
                K::Ite(c, _, _) => atoms_of(*c, &mut conds),
                K::Sel(i, v) if v.len() <= 32 => {
                    let pure = match k(*i) {
                        K::Bits(bs) => bs.iter().all(|y| if let BR::Bit(m, _) = y { matches!(k(*m), K::In(..)) } else { true }),
                        K::In(..) => true,
                        _ => false,
                    };
                    if pure {
                        offer(2, *i);
                    } else {
                        offer(4, *i);
                    }
                }
                K::And(..) | K::Or(..) | K::Xor(..) => atoms_of(x, &mut conds),
                K::Bits(bs) => {
                    for y in bs.iter() {
                        if let BR::Bit(m, 0) = y {
                            if matches!(k(*m), K::Lt(..) | K::Eq(..) | K::Lin(..)) && is_bool(*m) {
                                atoms_of(*m, &mut conds);
                            }
                        }
                    }
                }
                _ => {}
            }
            for c in conds {
                offer(rank(c), c);
            }
            for y in kids(x) {
                q.push_back(y);
            }
        }
        best
    }
    fn table(&mut self, a: N, b: N, s: &HashSet<(N, u8)>, note: bool) -> bool {
        let bits: Vec<(N, u8)> = {
            let mut v: Vec<_> = s.iter().cloned().collect();
            v.sort();
            v
        };
        if let Some(mut bt) = Batch::new(&[a, b]) {
            if (bt.size() as u64) << bits.len() > self.budget * 8 {
                return false;
            }
            return match bt.first_difference(a, b, &bits) {
                None => true,
                Some(c) => {
                    if note {
                        let at: Vec<(N, u8, bool)> = bits.iter().enumerate().map(|(j, (z, p))| (*z, *p, c >> j & 1 == 1)).collect();
                        self.hint(at);
                    }
                    false
                }
            };
        }
        let mut ev = Evaluator::new(&[a, b]);
        let cost = (ev.val.len() as u64) << bits.len();
        if cost > self.budget {
            return false;
        }
        let mut leaf: HashMap<N, i128> = HashMap::new();
        for (z, _) in &bits {
            leaf.insert(*z, 0);
        }
        for m in 0u64..(1 << bits.len()) {
            // gray code: one bit changes per step
            if m > 0 {
                let p = m.trailing_zeros() as usize;
                *leaf.get_mut(&bits[p].0).unwrap() ^= 1 << bits[p].1;
            }
            ev.run(&leaf);
            if ev.get(a) != ev.get(b) {
                if !note {
                    return false;
                }
                let at: Vec<(N, u8, bool)> = bits.iter().map(|(z, p)| (*z, *p, (leaf[z] >> p) & 1 == 1)).collect();
                self.hint(at);
                return false;
            }
        }
        true
    }
}

impl Eq {
    /// equality of two values of at most 22 input bits, by complete table; None when there are more
    pub fn tabulate(&mut self, a: N, b: N) -> Option<Verdict> {
        if a == b || self.proved.contains(&(a, b)) {
            return Some(Verdict::Equal);
        }
        let mut s = support(a);
        s.extend(support(b));
        if s.len() > 24 || s.iter().any(|x| x.1 == WHOLE) {
            return None;
        }
        let mut bits: Vec<(N, u8)> = s.into_iter().collect();
        bits.sort();
        let mut bt = Batch::new(&[a, b])?;
        match bt.first_difference(a, b, &bits) {
            None => {
                self.proved.insert((a, b));
                self.by_table += 1;
                Some(Verdict::Equal)
            }
            Some(c) => {
                let mut m: HashMap<N, i128> = HashMap::new();
                for (j, (z, p)) in bits.iter().enumerate() {
                    *m.entry(*z).or_insert(0) |= ((c >> j & 1) as i128) << p;
                }
                for (z, x) in m.iter_mut() {
                    *x = (*x).clamp(iv(*z).0, iv(*z).1);
                }
                // confirmed by the reference evaluator
                let w: Vec<(N, i128)> = leaves(&[a, b]).into_iter().map(|l| (l, m.get(&l).copied().unwrap_or(0))).collect();
                let v = self.differ(a, b, w);
                match v {
                    Verdict::Differ(_, x, y) if x != y => Some(v),
                    _ => None,
                }
            }
        }
    }
    /// `tabulate` for every value of the selecting bits
    pub fn tabulate_by(&mut self, a: N, b: N, by: &[(N, u8)]) -> Option<Verdict> {
        if a == b || self.proved.contains(&(a, b)) {
            return Some(Verdict::Equal);
        }
        let mut ins: Vec<N> = by.iter().map(|x| x.0).collect();
        ins.dedup();
        for v in 0..1u32 << by.len() {
            let mut m = HashMap::new();
            for z in &ins {
                let w = if let K::In(_, w) = k(*z) { *w } else { return None };
                let bits = (0..w)
                    .map(|i| match by.iter().position(|x| x == &(*z, i)) {
                        Some(j) if v >> j & 1 == 1 => BR::One,
                        Some(_) => BR::Zero,
                        None => BR::Bit(*z, i),
                    })
                    .collect();
                m.insert(*z, mk_bits(bits));
            }
            let mut memo = HashMap::new();
            let (p, q) = (subst(a, &m, &mut memo), subst(b, &m, &mut memo));
            match self.tabulate(p, q)? {
                Verdict::Equal => {}
                Verdict::Differ(w, _, _) => {
                    let mut w: HashMap<N, i128> = w.into_iter().collect();
                    for (j, (z, p)) in by.iter().enumerate() {
                        let e = w.entry(*z).or_insert(0);
                        *e = (*e & !(1 << p)) | (((v >> j & 1) as i128) << p);
                    }
                    let w: Vec<(N, i128)> = leaves(&[a, b]).into_iter().map(|l| (l, w.get(&l).copied().unwrap_or(0))).collect();
                    return match self.differ(a, b, w) {
                        Verdict::Differ(_, x, y) if x == y => None,
                        d => Some(d),
                    };
                }
                Verdict::Unknown => return None,
            }
        }
        self.proved.insert((a, b));
        Some(Verdict::Equal)
    }
}
