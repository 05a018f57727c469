//! Compiler intrinsics.
use crate::interp::*;
use crate::lower::*;
use crate::node::*;
use rustc_middle::ty;

type R<T> = Result<T, Stop>;

impl<'tcx> Interp<'tcx> {
    /// None: use the library fallback body
    pub fn intrinsic(&mut self, st: &mut State, name: &str, id: usize, a: &[V], t: &[TI], dt: TI) -> R<Option<V>> {
        let ga = self.lw.intrin[id].1;
        let targ = |i: usize| ga.types().nth(i);
        let int = |s: &Self, i: usize| s.as_int_in(st, &a[i], t[i]);
        let ws = |x: TI| match x.kind {
            TK::Int(w, s) => (w, s),
            _ => ((x.size * 8) as u8, false),
        };
        let ptr = |i: usize| -> R<Ptr> {
            match &a[i] {
                V::Sc(Val::Ptr(p)) => Ok(*p),
                V::Pair(Val::Ptr(p), _) => Ok(*p),
                _ => Err(Stop::Unsup(format!("pointer argument of {name}"))),
            }
        };
        Ok(Some(match name {
            "size_of" | "min_align_of" | "align_of" => {
                let l = self.lw.layout(targ(0).unwrap());
                sc(cst(if name == "size_of" { l.size.bytes() } else { l.align.abi.bytes() } as i128))
            }
            "size_of_val" | "min_align_of_val" | "align_of_val" => {
                let mut ty = targ(0).unwrap();
                if let ty::Dynamic(..) = ty.kind() {
                    ty = self.lw.dyns[dyn_parts(a.first())?.1];
                }
                let l = self.lw.layout(ty);
                if name == "size_of_val" {
                    match ty.kind() {
                        ty::Slice(e) => {
                            let s = self.lw.layout(*e).size.bytes();
                            match &a[0] {
                                V::Pair(_, Val::Sc(n)) => sc(mulc(*n, s as i128)),
                                _ => return Err(Stop::Unsup("size_of_val".into())),
                            }
                        }
                        _ => sc(cst(l.size.bytes() as i128)),
                    }
                } else {
                    sc(cst(l.align.abi.bytes() as i128))
                }
            }
            "needs_drop" => sc(cst(0)),
            "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" | "forget" => V::Zst,
            "ub_checks" | "contract_checks" => sc(cst(0)),
            "overflow_checks" => sc(cst(1)),
            "likely" | "unlikely" | "black_box" => a[0].clone(),
            "assume" => V::Zst,
            "is_val_statically_known" => sc(cst(0)),
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" => {
                let (x, y) = (int(self, 0)?, int(self, 1)?);
                let (w, s) = ws(t[0]);
                let r = match name {
                    "wrapping_add" => add(x, y),
                    "wrapping_sub" => sub(x, y),
                    _ => mul(x, y),
                };
                sc(wrap(r, w, s))
            }
            "unchecked_add" | "unchecked_sub" | "unchecked_mul" => {
                let (x, y) = (int(self, 0)?, int(self, 1)?);
                let (w, s) = ws(t[0]);
                let r = match name {
                    "unchecked_add" => add(x, y),
                    "unchecked_sub" => sub(x, y),
                    _ => mul(x, y),
                };
                let r2 = self.riv(st, r);
                let ok = if s { r2.0 >= -(1i128 << (w - 1)) && r2.1 < (1i128 << (w - 1)) } else { r2.0 >= 0 && r2.1 < (1i128 << w) };
                sc(if ok { r } else { wrap(r, w, s) })
            }
            "saturating_add" | "saturating_sub" => {
                let (x, y) = (int(self, 0)?, int(self, 1)?);
                let (w, s) = ws(t[0]);
                let r = if name == "saturating_add" { add(x, y) } else { sub(x, y) };
                let (lo, hi) = if s { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, (1i128 << w) - 1) };
                let v = ite(lt(r, cst(lo)), cst(lo), ite(lt(cst(hi), r), cst(hi), r));
                sc(v)
            }
            "exact_div" | "unchecked_div" => {
                let (x, y) = (int(self, 0)?, int(self, 1)?);
                if self.riv(st, x).0 >= 0 && self.riv(st, y).0 > 0 {
                    sc(fdiv(x, y))
                } else {
                    sc(tdiv(x, y))
                }
            }
            "unchecked_rem" => {
                let (x, y) = (int(self, 0)?, int(self, 1)?);
                sc(trem(x, y))
            }
            "rotate_left" | "rotate_right" => {
                let x = int(self, 0)?;
                let y = self.as_int_in(st, &a[1], t[1])?;
                let (w, _) = ws(t[0]);
                let c = match konst(y) {
                    Some(c) => c.rem_euclid(w as i128) as u8,
                    None => return Err(Stop::Unsup("rotate distance".into())),
                };
                let c = if name == "rotate_left" { c } else { (w - c) % w };
                let u = wrap(x, w, false);
                let mut b = vec![];
                for i in 0..w as u32 {
                    b.push(bit(u, (i + w as u32 - c as u32) % w as u32));
                }
                sc(mk_bits(b))
            }
            "bswap" | "bitreverse" => {
                let x = int(self, 0)?;
                let (w, _) = ws(t[0]);
                let u = wrap(x, w, false);
                let mut b = vec![];
                for i in 0..w as u32 {
                    let j = if name == "bswap" { (w as u32 / 8 - 1 - i / 8) * 8 + i % 8 } else { w as u32 - 1 - i };
                    b.push(bit(u, j));
                }
                sc(mk_bits(b))
            }
            "ctpop" => {
                let x = int(self, 0)?;
                let (w, _) = ws(t[0]);
                let u = wrap(x, w, false);
                let mut r = cst(0);
                for i in 0..w as u32 {
                    r = add(r, br_node(bit(u, i)));
                }
                sc(r)
            }
            "ctlz" | "ctlz_nonzero" | "cttz" | "cttz_nonzero" => {
                let x = int(self, 0)?;
                let (w, _) = ws(t[0]);
                let u = wrap(x, w, false);
                // position of the first set bit, as a chain over the bits
                let mut r = cst(w as i128);
                for i in 0..w as u32 {
                    let (pos, val) = if name.starts_with("ctlz") { (i, w as i128 - 1 - i as i128) } else { (w as u32 - 1 - i, w as i128 - 1 - i as i128) };
                    r = ite(br_node(bit(u, pos)), cst(val), r);
                }
                sc(r)
            }
            "disjoint_bitor" => {
                let (x, y) = (int(self, 0)?, int(self, 1)?);
                let (w, s) = ws(t[0]);
                sc(wrap(bor(wrap(x, w, false), wrap(y, w, false), w), w, s))
            }
            "select_unpredictable" => {
                let c = int(self, 0)?;
                match self.decide(st, c) {
                    Some(true) => a[1].clone(),
                    Some(false) => a[2].clone(),
                    None => match (&a[1], &a[2]) {
                        (V::Sc(x), V::Sc(y)) => match self.joinval(c, *x, *y) {
                            Some(v) => V::Sc(v),
                            None => return Err(Stop::Unsup("select".into())),
                        },
                        _ => return Err(Stop::Unsup("select".into())),
                    },
                }
            }
            "three_way_compare" => {
                let (x, y) = (int(self, 0)?, int(self, 1)?);
                sc(sub(lt(y, x), lt(x, y)))
            }
            "discriminant_value" => return Err(Stop::Unsup("discriminant_value".into())),
            "offset" | "arith_offset" | "ptr_offset" => {
                let p = ptr(0)?;
                let i = self.as_int_in(st, &a[1], t[1])?;
                let ty = ga.type_at(0);
                let el = match name {
                    "offset" => ty.builtin_deref(true).unwrap(),
                    _ => ty,
                };
                let sz = self.lw.layout(el).size.bytes();
                V::Sc(Val::Ptr(Ptr { a: p.a, off: add(p.off, mulc(i, sz as i128)) }))
            }
            "slice_get_unchecked" => {
                let i = self.as_int_in(st, &a[1], t[1])?;
                let ptrty = ga.type_at(0);
                let sz = self.lw.layout(ptrty.builtin_deref(true).unwrap()).size.bytes();
                let p = ptr(0)?;
                V::Sc(Val::Ptr(Ptr { a: p.a, off: add(p.off, mulc(i, sz as i128)) }))
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let (p, q) = (ptr(0)?, ptr(1)?);
                if p.a != q.a {
                    return Err(Stop::Unsup("offset between different objects".into()));
                }
                let sz = self.lw.layout(targ(0).unwrap()).size.bytes().max(1);
                sc(fdiv(sub(p.off, q.off), cst(sz as i128)))
            }
            "ptr_metadata" => match &a[0] {
                V::Pair(_, m) => V::Sc(*m),
                _ => V::Zst,
            },
            "ptr_guaranteed_cmp" => sc(cst(2)),
            "copy_nonoverlapping" | "copy" => {
                let n = self.as_int_in(st, &a[2], t[2])?;
                let sz = self.lw.layout(targ(0).unwrap()).size.bytes();
                self.memcpy(st, &a[0], &a[1], n, sz)?;
                V::Zst
            }
            "write_bytes" => {
                let n = self.as_int_in(st, &a[2], t[2])?;
                let v = self.as_int_in(st, &a[1], t[1])?;
                let sz = self.lw.layout(targ(0).unwrap()).size.bytes();
                let p = ptr(0)?;
                if let A::Ext(i) = p.a {
                    // a buffer with unknown contents, filled as a whole
                    let b = &st.ext[i as usize];
                    if b.kind == AK::Event && konst(p.off) == Some(0) && b.size == mulc(n, sz as i128) {
                        let e = Event { alloc: i, off: p.off, len: b.size, src: Src::Value(v, 1) };
                        std::rc::Rc::make_mut(&mut st.events).push(e);
                        return Ok(Some(V::Zst));
                    }
                }
                let n = match konst(self.resolve(st, n)) {
                    Some(n) => n as u64,
                    None => return Err(Stop::Unsup("write_bytes of a symbolic length".into())),
                };
                // word-size cells when the byte is zero
                let step = if konst(v) == Some(0) && sz > 0 && sz <= 8 { sz } else { 1 };
                for i in 0..(n * sz / step) {
                    self.store(st, Ptr { a: p.a, off: add(p.off, cst((i * step) as i128)) }, step, Val::Sc(v))?;
                }
                V::Zst
            }
            "typed_swap_nonoverlapping" => {
                let (p, q) = (ptr(0)?, ptr(1)?);
                let ti = self.lw.ti(targ(0).unwrap());
                let x = self.read(st, p, ti)?;
                let y = self.read(st, q, ti)?;
                self.write(st, p, ti, &y)?;
                self.write(st, q, ti, &x)?;
                V::Zst
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
                let p = ptr(0)?;
                self.read(st, p, dt)?
            }
            "write_via_move" | "volatile_store" => {
                let p = ptr(0)?;
                self.write(st, p, t[1], &a[1].clone())?;
                V::Zst
            }
            "transmute" | "transmute_unchecked" => self.retype(&a[0], t[0], dt)?,
            "raw_eq" => {
                let (p, q) = (ptr(0)?, ptr(1)?);
                let sz = self.lw.layout(targ(0).unwrap()).size.bytes();
                let mut r = cst(1);
                for i in 0..sz {
                    let x = self.load(st, Ptr { a: p.a, off: add(p.off, cst(i as i128)) }, 1)?;
                    let y = self.load(st, Ptr { a: q.a, off: add(q.off, cst(i as i128)) }, 1)?;
                    match (x, y) {
                        (Val::Sc(x), Val::Sc(y)) => r = and(r, eq(wrap(x, 8, false), wrap(y, 8, false))),
                        _ => return Err(Stop::Unsup("raw_eq".into())),
                    }
                }
                sc(r)
            }
            "fabsf32" | "fabsf64" | "fabs" => {
                let x = int(self, 0)?;
                sc(op(OpK::FAbs, &[x], (t[0].size * 8) as u8))
            }
            "type_id" | "type_name" | "caller_location" | "const_eval_select" => {
                if name == "const_eval_select" {
                    // the runtime alternative
                    let f = ga.type_at(2);
                    let _ = f;
                    return self.const_select(st, id, a, t);
                }
                return Err(Stop::Unsup(name.into()));
            }
            _ => {
                let d = self.lw.intrin[id].2;
                let must = self.lw.tcx.intrinsic(d).map(|i| i.must_be_overridden).unwrap_or(true);
                if must {
                    return Err(Stop::Unsup(format!("intrinsic {name}")));
                }
                return Ok(None);
            }
        }))
    }
    fn const_select(&mut self, _st: &mut State, _id: usize, _a: &[V], _t: &[TI]) -> R<Option<V>> {
        Err(Stop::Unsup("const_eval_select".into()))
    }
}
