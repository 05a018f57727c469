//! Comparing many outputs of one function with a specification that names the
//! values it goes through: a value both sides compute is proved equal and then
//! stands as a free variable for everything computed from it.
use crate::batch::*;
use crate::equal::*;
use crate::node::*;
use std::collections::HashMap;

fn lanes(r: &mut Rng, lv: &[N], round: usize) -> Vec<Lane> {
    let mut out = vec![[0i64; B]; lv.len()];
    for j in 0..B {
        let style = (round * B + j) % 8;
        for (i, l) in lv.iter().enumerate() {
            let (lo, hi) = iv(*l);
            let span = (hi - lo).min(i64::MAX as i128 - 1) as u64;
            let u = |r: &mut Rng| lo as i64 + if span == u64::MAX { r.next() as i64 } else { (r.next() % (span + 1)) as i64 };
            out[i][j] = match style {
                0 | 1 | 2 => u(r),
                3 => {
                    if r.below(2) == 0 {
                        lo as i64
                    } else {
                        hi as i64
                    }
                }
                4 if i > 0 => {
                    // near an earlier leaf
                    let k = r.below(i as u64) as usize;
                    let d = r.below(5) as i64 - 2;
                    (out[k][j] + if r.below(2) == 0 { 0 } else { d }).clamp(lo as i64, hi as i64)
                }
                5 => {
                    // few bits set
                    let a = u(r);
                    let b = u(r);
                    let c = u(r);
                    (a & b & c).clamp(lo as i64, hi as i64)
                }
                6 => {
                    let a = u(r);
                    let b = u(r);
                    (a | b).clamp(lo as i64, hi as i64)
                }
                _ => match r.below(4) {
                    0 => lo as i64,
                    1 => hi as i64,
                    _ => u(r),
                },
            };
        }
    }
    out
}

/// look for inputs on which pairs differ; returns (pair, witness)
fn hunt(e: &mut Eq, pairs: &[(N, N)], rounds: usize) -> Vec<Option<Vec<(N, i128)>>> {
    let mut found: Vec<Option<Vec<(N, i128)>>> = vec![None; pairs.len()];
    let roots: Vec<N> = pairs.iter().flat_map(|p| [p.0, p.1]).collect();
    if roots.is_empty() {
        return found;
    }
    let mut bt = match Batch::new(&roots) {
        Some(b) => b,
        None => {
            for (i, (a, b)) in pairs.iter().enumerate() {
                found[i] = e.search(&[*a, *b], 50 * rounds as u32, &|v| v.get(*a) != v.get(*b));
            }
            return found;
        }
    };
    let lv = bt.leaves().to_vec();
    for k in 0..rounds {
        let l = lanes(&mut e.rng, &lv, k);
        bt.sample(&l);
        for (i, (a, b)) in pairs.iter().enumerate() {
            if found[i].is_some() {
                continue;
            }
            let (x, y) = (bt.at(*a), bt.at(*b));
            if let Some(j) = (0..B).find(|j| x[*j] != y[*j]) {
                let w: Vec<(N, i128)> = lv.iter().enumerate().map(|(q, z)| (*z, l[q][j] as i128)).collect();
                let mut ev = Evaluator::new(&[*a, *b]);
                ev.run(&w.iter().cloned().collect());
                if ev.get(*a) != ev.get(*b) {
                    let own = leaves(&[*a, *b]);
                    found[i] = Some(w.into_iter().filter(|z| own.contains(&z.0)).collect());
                }
            }
        }
        if found.iter().all(|x| x.is_some()) {
            break;
        }
    }
    found
}

#[derive(Default)]
pub struct Counts {
    pub cuts: u64,
    pub missed: u64,
    pub names: u64,
}

fn canon(ab: &[N]) -> Vec<N> {
    // the same shape over variables numbered by first use
    let mut m = HashMap::new();
    for x in topo(ab) {
        if is_name(x) {
            let (lo, hi) = iv(x);
            let v = ranged(&format!("v{}.{lo}.{hi}", m.len()), lo, hi);
            m.insert(x, v);
        }
    }
    let mut memo = HashMap::new();
    ab.iter().map(|x| subst(*x, &m, &mut memo)).collect()
}

fn same(e: &mut Eq, a: N, b: N) -> bool {
    if a == b {
        e.by_struct += 1;
        return true;
    }
    if e.proved.contains(&(a, b)) {
        return true;
    }
    let c = canon(&[a, b]);
    let (x, y) = (c[0], c[1]);
    if x == y {
        return true;
    }
    if e.given_up.contains(&(x, y)) {
        return false;
    }
    let r = match by_case(e, x, y).or_else(|| by_case(e, y, x)) {
        Some(r) => r,
        None => plainly(e, x, y),
    };
    if r {
        e.proved.insert((a, b));
        e.proved.insert((x, y));
    } else {
        e.given_up.insert((x, y));
    }
    r
}
/// when one side selects by a few input bits: for each of their values
fn by_case(e: &mut Eq, x: N, y: N) -> Option<bool> {
    let K::Sel(i, v) = k(y) else { return None };
    if v.len() > 64 {
        return None;
    }
    let idx: Vec<BR> = match k(*i) {
        K::Bits(b) => b.to_vec(),
        K::In(_, w) => (0..*w).map(|p| BR::Bit(*i, p)).collect(),
        _ => return None,
    };
    let mut by: Vec<(N, u8)> = vec![];
    for b in idx {
        if let BR::Bit(m, p) = b {
            let K::In(..) = k(m) else { return None };
            by.push((m, p));
        }
    }
    if by.len() > 6 {
        return None;
    }
    for val in 0..1u32 << by.len() {
        let mut m: HashMap<N, N> = HashMap::new();
        for (z, _) in &by {
            let K::In(_, w) = k(*z) else { return None };
            let bits = (0..*w)
                .map(|q| match by.iter().position(|b| b == &(*z, q)) {
                    Some(j) if val >> j & 1 == 1 => BR::One,
                    Some(_) => BR::Zero,
                    None => BR::Bit(*z, q),
                })
                .collect();
            m.insert(*z, mk_bits(bits));
        }
        let mut memo = HashMap::new();
        let (p, q) = (subst(x, &m, &mut memo), subst(y, &m, &mut memo));
        if p != q && !plainly(e, p, q) {
            if std::env::var("EQDBG").is_ok() {
                println!("CASE {val}\n  {:.900}\n  {:.900}", show(p), show(q));
            }
            return Some(false);
        }
    }
    Some(true)
}
fn plainly(e: &mut Eq, x: N, y: N) -> bool {
    match e.tabulate(x, y) {
        Some(Verdict::Equal) => true,
        Some(_) => false,
        None => matches!(e.equal(x, y), Verdict::Equal),
    }
}

/// every variable over the inputs alone
pub fn spell_out(names: &[Name]) -> (HashMap<N, N>, HashMap<N, N>) {
    let mut full: HashMap<N, N> = HashMap::new();
    let mut memo = HashMap::new();
    for (v, d, _, off) in names {
        let x = subst(*d, &full, &mut memo);
        full.insert(*v, add(x, cst(*off)));
    }
    (full, memo)
}

/// verdict of each pair (code, specification), each over its own variables
pub fn compare(e: &mut Eq, pairs: &[(N, N)], names: &[Name], spec: &[Name], n: &mut Counts) -> Vec<Verdict> {
    let dbg = std::env::var("EQDBG").is_ok();
    let (full, mut mf) = spell_out(names);
    let (sfull, mut ms) = spell_out(spec);
    let open: Vec<(N, N)> = pairs.iter().map(|p| (subst(p.0, &full, &mut mf), subst(p.1, &sfull, &mut ms))).collect();
    let verdict = |a: N, b: N, w: Vec<(N, i128)>| {
        let mut ev = Evaluator::new(&[a, b]);
        ev.run(&w.iter().cloned().collect());
        Verdict::Differ(w, ev.get(a), ev.get(b))
    };
    let mut out: Vec<Option<Verdict>> = hunt(e, &open, 6).into_iter().enumerate().map(|(i, w)| w.map(|w| verdict(open[i].0, open[i].1, w))).collect();
    if out.iter().all(|x| x.is_some()) {
        return out.into_iter().map(|x| x.unwrap()).collect();
    }
    // which variables may be the same: they agree on a sample
    let plain = |m: &HashMap<N, N>, x: &Name| add(m[&x.0], cst(-x.3));
    let mut roots: Vec<N> = names.iter().map(|x| plain(&full, x)).collect();
    roots.extend(spec.iter().map(|x| plain(&sfull, x)));
    let mut sigs: HashMap<N, Vec<i64>> = HashMap::new();
    let mut table: HashMap<Vec<i64>, Vec<Name>> = HashMap::new();
    if let Some(mut b) = Batch::new(&roots) {
        let lv = b.leaves().to_vec();
        for r in 0..2 {
            let l = lanes(&mut e.rng, &lv, r);
            b.sample(&l);
            for x in &roots {
                let s = sigs.entry(*x).or_default();
                if s.len() == r * B {
                    s.extend(b.at(*x));
                }
            }
        }
        for x in spec {
            table.entry(sigs[&plain(&sfull, x)].clone()).or_default().push(*x);
        }
    }
    if dbg {
        for x in spec.iter().filter(|x| x.3 != 0) {
            println!("OFF {} {:?} {:.1500}", show(x.0), iv(x.1), show(x.1));
        }
    }
    // the code's variables in terms of the specification's
    let mut code: HashMap<N, N> = HashMap::new();
    let mut used: HashMap<N, N> = HashMap::new();
    let mut memo = HashMap::new();
    for nm in names {
        let (v, d, _, off) = *nm;
        n.names += 1;
        let x = subst(d, &code, &mut memo);
        let own = plain(&full, nm);
        let cands = sigs.get(&own).and_then(|s| table.get(s)).cloned().unwrap_or_default();
        let mut hit = None;
        for c in &cands {
            let (z, y, l, o) = *c;
            // a value is compared over the stages before its own
            let up: HashMap<N, N> = spec.iter().filter(|s| s.2 >= l && used.contains_key(&s.0)).map(|s| (s.0, add(s.1, cst(s.3)))).collect();
            let mut x = x;
            for _ in 0..8 {
                let z = subst(x, &up, &mut HashMap::new());
                if z == x {
                    break;
                }
                x = z;
            }
            if own == plain(&sfull, c) || same(e, x, y) {
                hit = Some((z, off - o));
                break;
            }
            if dbg {
                println!("STAGE\n  {:.600}\n  {:.600}", show(x), show(y));
            }
        }
        match hit {
            Some((z, o)) => {
                n.cuts += 1;
                used.insert(z, z);
                code.insert(v, add(z, cst(o)));
            }
            None => {
                n.missed += !cands.is_empty() as u64;
                code.insert(v, add(x, cst(off)));
            }
        }
    }
    // the specification's other variables are spelled out
    let mut rest: HashMap<N, N> = HashMap::new();
    let mut mw = HashMap::new();
    for (z, y, _, o) in spec {
        if !used.contains_key(z) {
            let x = subst(*y, &rest, &mut mw);
            rest.insert(*z, add(x, cst(*o)));
        }
    }
    let mut left = vec![];
    for i in 0..pairs.len() {
        if out[i].is_some() {
            continue;
        }
        let (x, y) = (subst(pairs[i].0, &code, &mut memo), subst(pairs[i].1, &rest, &mut mw));
        if same(e, x, y) {
            out[i] = Some(Verdict::Equal);
        } else {
            if dbg {
                println!("LEFT\n  {:.600}\n  {:.600}", show(x), show(y));
            }
            left.push(i);
        }
    }
    let ps: Vec<(N, N)> = left.iter().map(|i| open[*i]).collect();
    for (i, w) in left.iter().zip(hunt(e, &ps, 64)) {
        out[*i] = Some(match w {
            Some(w) => verdict(open[*i].0, open[*i].1, w),
            None => Verdict::Unknown,
        });
    }
    out.into_iter().map(|x| x.unwrap()).collect()
}
