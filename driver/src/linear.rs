//! Linear inequalities over integer quantities: feasibility of a conjunction by
//! elimination, and equivalence of two conditions by case distinction on the
//! comparisons they contain.
use crate::node::*;
use std::collections::{BTreeMap, HashMap};

/// sum of coefficient * variable + c <= 0
pub type Row = (BTreeMap<N, i128>, i128);

fn gcd_row(r: &mut Row) {
    let mut g = 0;
    for v in r.0.values() {
        g = gcdi(g, v.abs());
    }
    if g > 1 {
        for v in r.0.values_mut() {
            *v /= g;
        }
        // sum <= -c, rounded down
        r.1 = -((-r.1).div_euclid(g));
    }
}

/// a node as a linear form over its non-linear parts
pub fn row_of(n: N) -> Option<Row> {
    let mut m = BTreeMap::new();
    let c;
    match k(n) {
        K::Const(x) => c = *x,
        K::Lin(t, x) => {
            c = *x;
            for (v, b, f) in t.iter() {
                let v = if *b == WHOLE { *v } else { br_node(BR::Bit(*v, *b)) };
                *m.entry(v).or_insert(0) += *f;
            }
        }
        _ => {
            m.insert(n, 1);
            c = 0;
        }
    }
    m.retain(|_, v| *v != 0);
    Some((m, c))
}

/// bounds of the variables implied row by row; false on a contradiction
fn bounds(rows: &[Row]) -> Option<BTreeMap<N, (i128, i128)>> {
    let mut b: BTreeMap<N, (i128, i128)> = BTreeMap::new();
    for _ in 0..30 {
        let mut change = false;
        for (m, c) in rows {
            // least value of every term
            let low = |v: N, f: i128, b: &BTreeMap<N, (i128, i128)>| {
                let (l, h) = b.get(&v).copied().unwrap_or((-INF, INF));
                let x = if f > 0 { l } else { h };
                if x.abs() >= INF { -INF } else { smul(x, f) }
            };
            let mut inf = 0;
            let mut sum = *c;
            for (v, f) in m {
                let x = low(*v, *f, &b);
                if x <= -INF {
                    inf += 1;
                } else {
                    sum = sadd(sum, x);
                }
            }
            if inf == 0 && sum > 0 {
                return None;
            }
            if inf > 1 || sum <= -INF {
                continue;
            }
            for (v, f) in m {
                let x = low(*v, *f, &b);
                let rest = if x <= -INF {
                    sum
                } else if inf == 0 {
                    sum - x
                } else {
                    continue;
                };
                // f*v <= -rest
                let e = b.entry(*v).or_insert((-INF, INF));
                if *f > 0 {
                    let u = (-rest).div_euclid(*f);
                    if u < e.1 {
                        e.1 = u;
                        change = true;
                    }
                } else {
                    let l = -((-rest).div_euclid(-*f));
                    if l > e.0 {
                        e.0 = l;
                        change = true;
                    }
                }
                if e.0 > e.1 {
                    return None;
                }
            }
        }
        if !change {
            break;
        }
    }
    Some(b)
}

/// false: the rows have no common integer point
pub fn feasible(rows: &[Row]) -> bool {
    let mut rows: Vec<Row> = rows.to_vec();
    for r in rows.iter_mut() {
        gcd_row(r);
    }
    let b = match bounds(&rows) {
        Some(b) => b,
        None => return false,
    };
    // rows the bounds imply add nothing
    rows.retain(|(m, c)| {
        if m.len() <= 1 {
            return m.is_empty();
        }
        let mut hi = *c;
        for (v, f) in m {
            let (l, h) = b.get(v).copied().unwrap_or((-INF, INF));
            let x = if *f > 0 { h } else { l };
            if x.abs() >= INF {
                return true;
            }
            hi = sadd(hi, smul(x, *f));
        }
        hi > 0
    });
    let used: std::collections::BTreeSet<N> = rows.iter().flat_map(|r| r.0.keys().copied()).collect();
    for v in used {
        if let Some((l, h)) = b.get(&v) {
            if *l > -INF {
                rows.push((BTreeMap::from([(v, -1)]), *l));
            }
            if *h < INF {
                rows.push((BTreeMap::from([(v, 1)]), -*h));
            }
        }
    }
    loop {
        // the strongest row for each direction
        let mut best: BTreeMap<BTreeMap<N, i128>, i128> = BTreeMap::new();
        for (m, c) in rows {
            if m.is_empty() {
                if c > 0 {
                    return false;
                }
                continue;
            }
            let e = best.entry(m).or_insert(c);
            *e = (*e).max(c);
        }
        rows = best.into_iter().collect();
        if rows.is_empty() {
            return true;
        }
        if rows.len() > 400 {
            rows.sort_by_key(|r| r.0.len());
            rows.truncate(400);
        }
        // the variable with the fewest new rows
        let mut cnt: BTreeMap<N, (usize, usize)> = BTreeMap::new();
        for r in &rows {
            for (v, f) in &r.0 {
                let e = cnt.entry(*v).or_insert((0, 0));
                if *f > 0 {
                    e.0 += 1
                } else {
                    e.1 += 1
                }
            }
        }
        let (&v, _) = cnt.iter().min_by_key(|(_, (p, q))| p * q).unwrap();
        let (mut up, mut lo, mut rest) = (vec![], vec![], vec![]);
        for r in rows {
            match r.0.get(&v) {
                Some(f) if *f > 0 => up.push(r),
                Some(_) => lo.push(r),
                None => rest.push(r),
            }
        }
        for a in &up {
            for b in &lo {
                let (fa, fb) = (a.0[&v], -b.0[&v]);
                let mut m: BTreeMap<N, i128> = BTreeMap::new();
                let mut ok = true;
                for (s, r) in [(fb, a), (fa, b)] {
                    for (x, f) in &r.0 {
                        match s.checked_mul(*f) {
                            Some(z) => *m.entry(*x).or_insert(0) += z,
                            None => ok = false,
                        }
                    }
                }
                let c = fb.checked_mul(a.1).and_then(|x| fa.checked_mul(b.1).and_then(|y| x.checked_add(y)));
                m.retain(|_, f| *f != 0);
                match c {
                    Some(c) if ok => {
                        let mut r = (m, c);
                        gcd_row(&mut r);
                        rest.push(r);
                    }
                    _ => {}
                }
            }
        }
        rows = rest;
    }
}

/// facts about the variables themselves
fn facts(roots: &[N], rows: &mut Vec<Row>) {
    for n in topo(roots) {
        let lone = matches!(k(n), K::Sym(_) | K::In(..) | K::Div(..) | K::Mul(_) | K::Op(..) | K::Bits(_));
        if !lone {
            continue;
        }
        let (lo, hi) = iv(n);
        if lo > -INF {
            rows.push((BTreeMap::from([(n, -1)]), lo));
        }
        if hi < INF {
            rows.push((BTreeMap::from([(n, 1)]), -hi));
        }
        if let K::Div(a, b) = k(n) {
            if let (Some(d), Some((m, c))) = (konst(*b), row_of(*a)) {
                // d*q <= a <= d*q + d-1
                let mut r = m.clone();
                *r.entry(n).or_insert(0) -= d;
                rows.push((r.clone().into_iter().map(|(v, f)| (v, -f)).collect(), -c));
                rows.push((r, c - d + 1));
            }
        }
        if let K::Mul(f) = k(n) {
            // a product of non-negative factors is no smaller than a factor when the others are positive
            if f.iter().all(|x| iv(*x).0 >= 0) {
                for i in 0..f.len() {
                    if f.iter().enumerate().all(|(j, x)| j == i || iv(*x).0 >= 1) {
                        if let Some((m, c)) = row_of(f[i]) {
                            let mut r = m;
                            *r.entry(n).or_insert(0) -= 1;
                            rows.push((r, c));
                        }
                    }
                }
            }
        }
    }
}

/// write every rounding-up division the same way
pub fn norm_div(n: N) -> N {
    let mut cur = n;
    for _ in 0..6 {
        let mut map: HashMap<N, N> = HashMap::new();
        for x in topo(&[cur]) {
            if let K::Ite(c, a, b) = k(x) {
                // (remainder > 0 ? q+1 : q)
                let (c, mut up, mut dn) = (*c, *a, *b);
                let mut c = c;
                if let Some(m) = neg_of(c) {
                    c = m;
                    std::mem::swap(&mut up, &mut dn);
                }
                let rem = match k(c) {
                    K::Lt(z, r) if konst(*z) == Some(0) => Some(*r),
                    K::Lt(r, z) if konst(*z) == Some(1) => {
                        std::mem::swap(&mut up, &mut dn);
                        Some(*r)
                    }
                    K::Eq(r, z) if konst(*z) == Some(0) => {
                        std::mem::swap(&mut up, &mut dn);
                        Some(*r)
                    }
                    _ => None,
                };
                if let Some(r) = rem {
                    if sub(up, dn) == cst(1) {
                        // dn may be the quotient plus a constant
                        let (q, off) = match k(dn) {
                            K::Lin(t, c) if t.len() == 1 && t[0].1 == WHOLE && t[0].2 == 1 => (t[0].0, *c),
                            _ => (dn, 0),
                        };
                        if let K::Div(p, d) = k(q) {
                            if let Some(dd) = konst(*d) {
                                if sub(*p, mulc(q, dd)) == r {
                                    map.insert(x, add(fdiv(add(*p, cst(dd - 1)), *d), cst(off)));
                                }
                            }
                        }
                    }
                }
            }
        }
        for x in topo(&[cur]) {
            // exactly one bit set
            if let K::Eq(p, one) = k(x) {
                if let (K::Op(OpK::Popcnt, a, w), Some(1)) = (k(*p), konst(*one)) {
                    map.insert(x, and(not(eq(a[0], cst(0))), eq(band(a[0], wrap(sub(a[0], cst(1)), *w, false), *w), cst(0))));
                }
            }
        }
        if map.is_empty() {
            return cur;
        }
        cur = subst(cur, &map, &mut HashMap::new());
    }
    cur
}

/// a value cut to some width is the value itself when it fits
pub fn norm_cut(n: N) -> N {
    let mut map: HashMap<N, N> = HashMap::new();
    // operands of bit operations stay as they are
    let masked: std::collections::HashSet<N> = topo(&[n])
        .into_iter()
        .filter_map(|x| match k(x) {
            K::Op(OpK::And | OpK::Or | OpK::Xor, a, _) => Some(a.to_vec()),
            _ => None,
        })
        .flatten()
        .collect();
    for x in topo(&[n]) {
        if let K::Bits(b) = k(x) {
            let z = b.iter().take_while(|r| **r == BR::Zero).count();
            if let Some(BR::Bit(m, 0)) = b.get(z) {
                let m = *m;
                if matches!(k(m), K::In(..)) || masked.contains(&x) {
                    continue;
                }
                if b[z..].iter().enumerate().all(|(i, r)| *r == BR::Bit(m, i as u8)) && b.len() - z < 100 {
                    let fits = and(le(cst(0), m), lt(m, cst(1i128 << (b.len() - z))));
                    map.insert(x, ite(fits, mulc(m, 1i128 << z), x));
                }
            }
        }
    }
    if map.is_empty() {
        n
    } else {
        subst(n, &map, &mut HashMap::new())
    }
}

fn cmp_rows(n: N, v: bool) -> Option<Vec<Vec<Row>>> {
    // alternatives, each a conjunction
    match k(n) {
        K::Lt(a, b) => {
            let (m, c) = row_of(sub(*a, *b))?;
            if v {
                Some(vec![vec![(m, c + 1)]])
            } else {
                Some(vec![vec![(m.into_iter().map(|(x, f)| (x, -f)).collect(), -c)]])
            }
        }
        K::Eq(a, b) => {
            let (m, c) = row_of(sub(*a, *b))?;
            let neg: BTreeMap<N, i128> = m.iter().map(|(x, f)| (*x, -f)).collect();
            if v {
                Some(vec![vec![(m, c), (neg, -c)]])
            } else {
                Some(vec![vec![(m, c + 1)], vec![(neg, -c + 1)]])
            }
        }
        _ => Some(vec![vec![]]),
    }
}

/// a product is zero when the rows make a factor zero
fn products(rows: &mut Vec<Row>) {
    let mut muls: Vec<N> = rows.iter().flat_map(|r| r.0.keys().copied()).filter(|n| matches!(k(*n), K::Mul(_))).collect();
    muls.sort();
    muls.dedup();
    for n in muls {
        if let K::Mul(f) = k(n) {
            if !f.iter().all(|x| iv(*x).0 >= 0) {
                continue;
            }
            let pos: Vec<bool> = f
                .iter()
                .map(|x| {
                    iv(*x).0 >= 1
                        || row_of(*x).map_or(false, |(m, c)| {
                            // x <= 0
                            let mut r = rows.clone();
                            r.push((m, c));
                            facts(&[*x], &mut r);
                            !feasible(&r)
                        })
                })
                .collect();
            for i in 0..f.len() {
                if (0..f.len()).all(|j| j == i || pos[j]) {
                    if let Some((mut m, c)) = row_of(f[i]) {
                        *m.entry(n).or_insert(0) -= 1;
                        rows.push((m, c));
                        facts(&[f[i]], rows);
                    }
                }
            }
            for x in f.iter() {
                if let Some((m, c)) = row_of(*x) {
                    // x >= 1
                    let mut r = rows.clone();
                    r.push((m.iter().map(|(v, f)| (*v, -f)).collect(), 1 - c));
                    facts(&[*x], &mut r);
                    if !feasible(&r) {
                        rows.push((BTreeMap::from([(n, 1)]), 0));
                        break;
                    }
                }
            }
        }
    }
}

pub struct Lin {
    pub budget: u32,
    pub cases: u64,
    pub trail: Vec<(N, bool)>,
}
impl Lin {
    /// is the condition impossible?
    pub fn never(&mut self, f: N, rows: &[Row]) -> bool {
        if let Some(c) = konst(f) {
            if c != 0 && std::env::var("EQDBG").is_ok() {
                println!("open case: {}", self.trail.iter().map(|(n, v)| format!("{}{}", if *v { "" } else { "!" }, show(*n))).collect::<Vec<_>>().join("  "));
            }
            return c == 0;
        }
        if self.budget == 0 {
            return false;
        }
        self.budget -= 1;
        // the first comparison whose operands contain no open choice
        let mut atom = None;
        for n in topo(&[f]) {
            match k(n) {
                K::Lt(..) | K::Eq(..) => {
                    atom = Some(n);
                    break;
                }
                _ => {}
            }
        }
        let atom = match atom {
            Some(a) => a,
            None => {
                // an opaque boolean
                match topo(&[f]).into_iter().find(|n| is_bool(*n) && konst(*n).is_none() && !matches!(k(*n), K::And(..) | K::Or(..) | K::Xor(..) | K::Ite(..))) {
                    Some(a) => a,
                    None => return false,
                }
            }
        };
        for v in [true, false] {
            let m = HashMap::from([(atom, cst(v as i128))]);
            let mut g = subst(f, &m, &mut HashMap::new());
            if konst(g) == Some(0) {
                continue;
            }
            if v {
                if let K::Eq(a, b) = k(atom) {
                    if matches!(k(*a), K::Sym(_)) && konst(*b).is_some() {
                        g = subst(g, &HashMap::from([(*a, *b)]), &mut HashMap::new());
                    }
                }
            }
            let alts = match cmp_rows(atom, v) {
                Some(x) => x,
                None => return false,
            };
            for alt in alts {
                let mut r = rows.to_vec();
                r.extend(alt);
                facts(&[atom], &mut r);
                r.sort();
                r.dedup();
                products(&mut r);
                self.cases += 1;
                if !feasible(&r) {
                    continue;
                }
                self.trail.push((atom, v));
                if !self.never(g, &r) {
                    return false;
                }
                self.trail.pop();
            }
        }
        true
    }
}
