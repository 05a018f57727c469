//! PVRTC images against the format: every texel is the blend of two images, each
//! stretched from one colour per block, by the modulation its own block holds.
use crate::astc::first_panic;
use crate::blocks::*;
use crate::equal::*;
use crate::image::*;
use crate::interp::*;
use crate::job::*;
use crate::node::*;
use crate::report::*;
use crate::spec::*;
use crate::stage::*;
use rustc_middle::ty::TyCtxt;

/// sizes analysed, in texels, and whether two bits per texel are used
const QUICK: &[(usize, usize, bool)] = &[
    (4, 4, false),
    (8, 8, false),
    (16, 8, false),
    (4, 16, false),
    (16, 16, false),
    (13, 14, false),
    (5, 6, false),
    (8, 4, true),
    (16, 8, true),
    (16, 16, true),
    (32, 16, true),
    (27, 7, true),
];
const MORE: &[(usize, usize, bool)] = &[
    (8, 4, false),
    (4, 8, false),
    (8, 16, false),
    (32, 8, false),
    (8, 32, false),
    (32, 32, false),
    (31, 16, false),
    (1, 1, false),
    (4, 1, false),
    (1, 5, false),
    (8, 8, true),
    (16, 4, true),
    (64, 8, true),
    (8, 16, true),
    (16, 32, true),
    (64, 16, true),
    (1, 1, true),
    (9, 3, true),
    (3, 13, true),
];
const LARGE: &[(usize, usize, bool)] = &[
    (64, 8, false),
    (8, 64, false),
    (64, 32, false),
    (32, 64, false),
    (61, 30, false),
    (128, 8, true),
    (16, 64, true),
    (128, 16, true),
    (61, 31, true),
];

struct Img<'a> {
    d: &'a [N],
    nbx: usize,
    nby: usize,
    two: bool,
    nm: Names,
    /// the two colours of each block, red green blue alpha
    ab: Vec<[[N; 4]; 2]>,
}
impl Img<'_> {
    /// blocks are stored along a curve: the bits of the coordinates take turns,
    /// y first, as long as both sides have them; then come the longer side's
    fn block(&self, bx: usize, by: usize) -> usize {
        let (mut r, mut out, mut x, mut y) = (0, 0, bx, by);
        let mut side = self.nbx.min(self.nby);
        while side > 1 {
            out += (y % 2) << r;
            out += (x % 2) << (r + 1);
            r += 2;
            x /= 2;
            y /= 2;
            side /= 2;
        }
        out + ((if self.nbx > self.nby { x } else { y }) << r)
    }
    fn bits(&self, b: usize, lo: usize, n: usize) -> N {
        crate::spec::le(&self.d[b * 8..b * 8 + 8], lo, n)
    }
    fn colours(&mut self, b: usize) -> [[N; 4]; 2] {
        let f = |lo: usize, n: usize, to: u8| widen(self.bits(b, lo, n), n as u8, to);
        // colour A: bits 33..48, its lowest bit is the mode
        let a = {
            let solid = [f(42, 5, 5), f(37, 5, 5), f(33, 4, 5), cst(15)];
            let clear = [f(40, 4, 5), f(36, 4, 5), f(33, 3, 5), mulc(self.bits(b, 44, 3), 2)];
            let o = self.bits(b, 47, 1);
            [0, 1, 2, 3].map(|i| ite(o, solid[i], clear[i]))
        };
        let c = {
            let solid = [f(58, 5, 5), f(53, 5, 5), f(48, 5, 5), cst(15)];
            let clear = [f(56, 4, 5), f(52, 4, 5), f(48, 4, 5), mulc(self.bits(b, 60, 3), 2)];
            let o = self.bits(b, 63, 1);
            [0, 1, 2, 3].map(|i| ite(o, solid[i], clear[i]))
        };
        self.nm.stage = 0;
        [a.map(|x| self.nm.name(x)), c.map(|x| self.nm.name(x))]
    }
    fn bw(&self) -> usize {
        if self.two {
            8
        } else {
            4
        }
    }
    /// eighths of the stored modulation of a texel, if it is stored
    fn stored(&self, x: usize, y: usize) -> N {
        let b = self.block(x / self.bw(), y / 4);
        let (x, y) = (x % self.bw(), y % 4);
        let mode = self.bits(b, 32, 1);
        let four = |lo: usize, v: [i128; 4]| sel(self.bits(b, lo, 2), v.iter().map(|z| cst(*z)).collect());
        if !self.two {
            let lo = (y * 4 + x) * 2;
            return ite(mode, four(lo, [0, 4, 4, 8]), four(lo, [0, 3, 5, 8]));
        }
        let one = mulc(self.bits(b, y * 8 + x, 1), 8);
        if (x + y) % 2 == 1 {
            return one;
        }
        let k = (y * 8 + x) / 2;
        let plain = four(2 * k, [0, 3, 5, 8]);
        let high = mulc(self.bits(b, 2 * k + 1, 1), 8);
        let v = match k {
            // its low bit says how the others are made
            0 => high,
            10 => ite(self.bits(b, 0, 1), high, plain),
            _ => plain,
        };
        ite(mode, v, one)
    }
    /// eighths of colour B in a texel
    fn modulation(&self, x: usize, y: usize) -> N {
        let own = self.stored(x, y);
        if !self.two || (x + y) % 2 == 0 {
            return own;
        }
        let (w, h) = (self.nbx * 8, self.nby * 4);
        let (l, r) = (self.stored((x + w - 1) % w, y), self.stored((x + 1) % w, y));
        let (u, d) = (self.stored(x, (y + h - 1) % h), self.stored(x, (y + 1) % h));
        let b = self.block(x / 8, y / 4);
        let two = |p: N, q: N| fdiv(add(add(p, q), cst(1)), cst(2));
        let all = fdiv(add(add(add(l, r), add(u, d)), cst(2)), cst(4));
        let made = ite(self.bits(b, 0, 1), ite(self.bits(b, 20, 1), two(u, d), two(l, r)), all);
        ite(self.bits(b, 32, 1), made, own)
    }
    /// texel of an image stretched from the colours of the blocks' centres
    fn stretched(&mut self, which: usize, c: usize, x: usize, y: usize) -> N {
        let bw = self.bw();
        let (w, h) = (self.nbx * bw, self.nby * 4);
        let (x, y) = ((x + w - bw / 2) % w, (y + h - 2) % h);
        let (x0, fx, y0, fy) = (x / bw, x % bw, y / 4, y % 4);
        let (x1, y1) = ((x0 + 1) % self.nbx, (y0 + 1) % self.nby);
        let at = |x: usize, y: usize, f: usize| mulc(self.ab[self.block(x, y)][which][c], f as i128);
        let s = add(add(at(x0, y0, (bw - fx) * (4 - fy)), at(x1, y0, fx * (4 - fy))), add(at(x0, y1, (bw - fx) * fy), at(x1, y1, fx * fy)));
        self.nm.stage = 1;
        let s = self.nm.name(s);
        // a sum of 16 or 32 parts, to eight bits
        let sh = |k: u32| fdiv(s, cst(1 << k));
        let v = match (self.two, c) {
            (false, 3) => add(s, sh(4)),
            (false, _) => add(sh(1), sh(6)),
            (true, 3) => add(sh(1), sh(5)),
            (true, _) => add(sh(2), sh(7)),
        };
        self.nm.stage = 2;
        self.nm.name(v)
    }
    fn texel(&mut self, x: usize, y: usize) -> N {
        let m = self.modulation(x, y);
        self.nm.stage = 1;
        let m = self.nm.name(m);
        let mut out = vec![];
        for c in 0..4 {
            let (a, b) = (self.stretched(0, c, x, y), self.stretched(1, c, x, y));
            let v = fdiv(add(mul(a, sub(cst(8), m)), mul(b, m)), cst(8));
            out.push(v);
        }
        if !self.two {
            // one of the four codes of the second mode is a hole
            let b = self.block(x / 4, y / 4);
            let hole = and(self.bits(b, 32, 1), eq(self.bits(b, ((y % 4) * 4 + x % 4) * 2, 2), cst(2)));
            out[3] = ite(hole, cst(0), out[3]);
        }
        bgra(out[0], out[1], out[2], out[3])
    }
}

fn run(tcx: TyCtxt<'_>, (w, h, two): (usize, usize, bool), e: &mut Eq) {
    let fname = "decode_pvrtc";
    let tag = format!("pvrtc {w}x{h} {}bpp", if two { 2 } else { 4 });
    let d = match locate(tcx, fname) {
        Some(d) => d,
        None => return ob("value", &tag, St::Undecided, "no such function"),
    };
    let bw = if two { 8 } else { 4 };
    let (nbx, nby) = (w.div_ceil(bw), h.div_ceil(4));
    let rq = ImgReq { name: fname, nbytes: 8 * nbx * nby, texels: w * h, w: cst(w as i128), h: cst(h as i128), mid: vec![], post: vec![cst(two as i128)] };
    let mut it = Interp::new(tcx);
    it.naming = Some(Names::new("name"));
    let mut r = run_image(&mut it, d, &rq);
    let mut names = it.naming.take().unwrap().list;
    if !r.issues.is_empty() {
        it = Interp::new(tcx);
        r = run_image(&mut it, d, &rq);
        names.clear();
    }
    stats_of(&it);
    let (bad, _) = report_issues("bounds", &tag, e, &r.issues);
    if std::env::var("WANT").is_ok_and(|x| x == "bounds") {
        return;
    }
    if bad > 0 {
        ob("value", &tag, St::Violated, &format!("{fname} panics: {}", first_panic(e, &r.issues)));
    }
    if r.oks.len() != 1 || r.other > 0 || r.issues.iter().any(|i| i.kind == IssueKind::Unsupported) {
        let why = r.issues.first().map(|i| format!("{} in {} at {}", i.what, i.func, i.line)).unwrap_or("no single outcome".into());
        return ob("value", &tag, St::Undecided, &format!("no summary: {why}"));
    }
    let mut im = Img { d: &r.data, nbx, nby, two, nm: Names::new("spec"), ab: vec![] };
    for b in 0..nbx * nby {
        let c = im.colours(b);
        im.ab.push(c);
    }
    let mut pairs = vec![];
    for y in 0..h {
        for x in 0..w {
            let i = y * w + x;
            let got = match it.load(&r.oks[0], Ptr { a: A::Ext(1), off: cst(i as i128 * 4) }, 4) {
                Ok(Val::Sc(n)) => wrap(n, 32, false),
                _ => return ob("value", &tag, St::Undecided, &format!("texel ({x},{y}) is not a number")),
            };
            let want = im.texel(x, y);
            for c in 0..4u8 {
                pairs.push((slice(got, c * 8, 8), slice(want, c * 8, 8)));
            }
        }
    }
    for i in w * h..w * h + 16 {
        let ok = matches!(it.load(&r.oks[0], Ptr { a: A::Ext(1), off: cst(i as i128 * 4) }, 4), Ok(Val::Sc(n)) if n == r.old[i]);
        if !ok {
            ob("value", &format!("{tag}: after the image"), St::Violated, &format!("{fname} writes element {i} of an image of {} texels", w * h));
        }
    }
    let mut cuts = Counts::default();
    let mut same = 0;
    let spec = std::mem::take(&mut im.nm.list);
    for (i, v) in compare(e, &pairs, &names, &spec, &mut cuts).into_iter().enumerate() {
        let (t, ch) = (i / 4, ["blue", "green", "red", "alpha"][i % 4]);
        let key = format!("{tag}: texel ({},{}) {ch}", t % w, t / w);
        match v {
            Verdict::Equal => same += 1,
            Verdict::Differ(wit, a, b) => ob("value", &key, St::Violated, &format!("{fname} gives {a}, the format defines {b}, for {}", show_witness(&wit))),
            Verdict::Unknown => ob("value", &key, St::Undecided, "neither proved equal nor a difference found"),
        }
    }
    stat("texel channels proved equal to the format's", same);
    stat("values proved equal on the way", cuts.cuts);
    if same as usize == pairs.len() {
        ob("value", &tag, St::Ok, &format!("{same} channels"));
    }
}

pub fn pvrtc(tcx: TyCtxt<'_>) {
    let only = std::env::var("ONLY").unwrap_or_default();
    let thorough = std::env::var("TIER").map(|x| x == "thorough").unwrap_or(false);
    let mut q: Vec<(usize, usize, bool)> = QUICK.to_vec();
    q.extend(MORE);
    if thorough {
        q.extend(LARGE);
    }
    q.retain(|s| only.is_empty() || format!("{}x{}x{}", s.0, s.1, s.2) == only);
    q.sort_by_key(|s| std::cmp::Reverse(s.0 * s.1));
    stat("image sizes analysed", q.len() as u64);
    let lost = par(q.len(), 8, 400, &|i| {
        reset();
        g().narrow = true;
        let mut e = Eq::new();
        run(tcx, q[i], &mut e);
    });
    for i in lost {
        let s = q[i];
        ob("value", &format!("pvrtc {}x{} {}bpp", s.0, s.1, if s.2 { 2 } else { 4 }), St::Undecided, "analysis ran out of time");
    }
}
