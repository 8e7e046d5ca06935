#![allow(unused_imports)]
//! C04 bit decomposition, C05 comparison with a constant
use crate::gad::*;
use crate::oracle::*;
use crate::small::Fp;
use fawkes_crypto::circuit::{bitify::*, bool::CBool, num::CNum};
use fawkes_crypto::core::{cs::ConstraintSystem, field::Field, signal::Signal};
use fawkes_crypto::native::num::Num;
use ff::PrimeField;
use num::bigint::BigUint;
use rand::Rng;

pub struct Dec(pub usize);
impl<F: Field> Gadget<F> for Dec {
    fn name(&self) -> String {
        format!("decomposition into {} bits", self.0)
    }
    fn build<'a, CS: ConstraintSystem<F = F>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        c_into_bits_le(&x[0], self.0).into_iter().map(|b| b.0).collect()
    }
    fn spec(&self, x: &[F]) -> Spec<F> {
        // every n-digit string denoting the value: v, v+p, ... below 2^n
        let mut v = big(x[0]);
        let p = modulus::<F>();
        let lim = BigUint::from(1u32) << self.0;
        let mut s = vec![];
        while v < lim {
            s.push(bits_of_big(&v, self.0).into_iter().map(bit).collect());
            v += &p;
        }
        Spec::Set(s)
    }
}
pub struct Strict;
impl<F: Field> Gadget<F> for Strict {
    fn name(&self) -> String {
        "strict decomposition".into()
    }
    fn build<'a, CS: ConstraintSystem<F = F>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        c_into_bits_le_strict(&x[0]).into_iter().map(|b| b.0).collect()
    }
    fn spec(&self, x: &[F]) -> Spec<F> {
        out(le_bits(x[0], F::NUM_BITS as usize).into_iter().map(bit).collect())
    }
}
pub struct Rec;
impl<F: Field> Gadget<F> for Rec {
    fn name(&self) -> String {
        "recomposition".into()
    }
    fn build<'a, CS: ConstraintSystem<F = F>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        let b: Vec<CBool<CS>> = x.iter().map(|b| b.into_bool()).collect();
        vec![c_from_bits_le(&b)]
    }
    fn spec(&self, x: &[F]) -> Spec<F> {
        let mut r = zero();
        for b in x.iter().rev() {
            r = r + r + V(*b);
        }
        out(vec![r.0])
    }
}
pub struct Cmp<F>(pub F);
impl<F: Field> Gadget<F> for Cmp<F> {
    fn name(&self) -> String {
        format!("comparison with the constant {}", big(self.0))
    }
    fn build<'a, CS: ConstraintSystem<F = F>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        let b: Vec<CBool<CS>> = x.iter().map(|b| b.into_bool()).collect();
        vec![c_comp_constant(&b, Num(self.0)).0]
    }
    fn spec(&self, x: &[F]) -> Spec<F> {
        let mut v = BigUint::from(0u32);
        for b in x.iter().rev() {
            v = (v << 1usize) + BigUint::from(if b.is_zero() { 0u32 } else { 1 });
        }
        // room for the internal accumulator
        if modulus::<F>() < BigUint::from(1u32) << ((x.len() + 1) / 2 + 1) {
            return Spec::Any;
        }
        out(vec![bit(v > big(self.0))])
    }
}
fn tiny<const P: u64>(ctx: &mut Ctx) -> R<()> {
    let xs: Vec<Fp<P>> = elems();
    let nb = Fp::<P>::NUM_BITS as usize;
    for x in &xs {
        for m in [Mode::Var, Mode::Const, Mode::Lin, Mode::Sum].iter() {
            for n in 1..nb + 1 {
                check(ctx, &Dec(n), &[*x], &[*m], Sound::Exhaustive)?;
            }
            check(ctx, &Strict, &[*x], &[*m], Sound::Exhaustive)?;
        }
    }
    for n in 1..7usize {
        for v in 0..1u64 << n {
            let b: Vec<Fp<P>> = (0..n).map(|i| bit(v >> i & 1 == 1)).collect();
            for m in ALL.iter() {
                check(ctx, &Rec, &b, &[*m], Sound::Exhaustive)?;
                check(ctx, &Rec, &b, &[*m, Mode::Const], Sound::Exhaustive)?;
            }
        }
    }
    Ok(())
}
fn real<F: Field>(ctx: &mut Ctx) -> R<()> {
    let nb = F::NUM_BITS as usize;
    let e: Vec<F> = edge(ctx);
    let mut widths: Vec<usize> = vec![1, 2, 3, 8, 31, 32, 63, 64, 65, 127, 128, 129, 192, 250, nb - 2, nb - 1, nb];
    widths.extend(ctx.lits.iter().filter_map(|l| l.to_string().parse::<usize>().ok()).filter(|l| *l >= 1 && *l <= nb));
    let extra = ctx.n(6, 120);
    for _ in 0..extra {
        widths.push(1 + ctx.rng.gen::<usize>() % nb);
    }
    widths.sort();
    widths.dedup();
    for n in widths {
        for k in 0..ctx.n(3, 10) {
            let x = if k == 0 {
                // largest value that fits
                let v = (BigUint::from(1u32) << n) - BigUint::from(1u32);
                if v < modulus::<F>() {
                    of_big::<F>(&v)
                } else {
                    (-one::<F>()).0
                }
            } else {
                pick(ctx, &e)
            };
            let s = if n < 40 || (k == 0 && n + 1 > nb) || (ctx.thorough && k < 2) { Sound::Attack } else { Sound::No };
            check(ctx, &Dec(n), &[x], &[VCL[k % 3]], s)?;
            // a value that fits
            let y = of_big::<F>(&(big(ctx.rng.gen::<F>()) % (BigUint::from(1u32) << n)));
            check(ctx, &Dec(n), &[y], &[VCL[k % 3]], s)?;
            let b: Vec<F> = (0..n).map(|_| bit(ctx.rng.gen())).collect();
            check(ctx, &Rec, &b, &[VCL[k % 3], Mode::Var], Sound::No)?;
        }
    }
    for (i, x) in e.iter().enumerate() {
        check(ctx, &Strict, &[*x], &[VCL[i % 3]], if i % if ctx.thorough { 4 } else { 20 } == 0 { Sound::Attack } else { Sound::No })?;
    }
    // a non-canonical decomposition must not be accepted: force the digits of v + p
    for v in 0..ctx.n(3, 12) as i128 {
        let x = int::<F>(v).0;
        let alt = big(x) + modulus::<F>();
        if alt < BigUint::from(1u32) << nb {
            let b = match blank(&Strict, &[x], &[Mode::Var]) {
                Ok(b) => b,
                Err(e) => return fail(format!("strict decomposition panics without a witness: {}", e), format!("{:?}", x)),
            };
            // digits other than the first are single variables
            let digits = bits_of_big(&alt, nb);
            let mut fixed = b.fixed.clone();
            let mut usable = true;
            for (i, o) in b.outs.iter().enumerate() {
                if o.len() == 1 && o[0].1 == F::one() {
                    fixed.push((o[0].0, bit(digits[i])));
                } else if i > 0 {
                    usable = false;
                }
            }
            if usable {
                let free = |_: usize| vec![F::zero(), F::one()];
                let mut hit = None;
                let mut s = crate::solve::Solver::new(&b.cons, b.nwires, &fixed, &b.outs, &free, 3000);
                s.run(&mut |w| {
                    hit = Some(w.to_vec());
                    false
                });
                if let Some(w) = hit {
                    if b.cons.iter().all(|c| crate::rcs::sat(c, &w)) {
                        return fail("strict decomposition accepts the digits of value + modulus", format!("value {} field modulus {}", big(x), modulus::<F>()));
                    }
                }
                ctx.ok(|| "overflowing digits".into());
            }
        }
    }
    Ok(())
}
pub fn c04(ctx: &mut Ctx) -> R<()> {
    tiny::<5>(ctx)?;
    tiny::<7>(ctx)?;
    tiny::<13>(ctx)?;
    tiny::<17>(ctx)?;
    tiny::<31>(ctx)?;
    if ctx.thorough {
        tiny::<61>(ctx)?;
        tiny::<101>(ctx)?;
    }
    real::<fawkes_crypto::native::bn256::Fr>(ctx)?;
    real::<fawkes_crypto::native::bls12_381::Fr>(ctx)
}
fn cmp_tiny<const P: u64>(ctx: &mut Ctx, maxlen: usize) -> R<()> {
    for n in 1..maxlen + 1 {
        for v in 0..1u64 << n {
            let b: Vec<Fp<P>> = (0..n).map(|i| bit(v >> i & 1 == 1)).collect();
            for c in elems::<Fp<P>>() {
                // the constant's bits decide the shape: all modes on a subset
                let full = (v + c.0) % 5 == 0;
                check(ctx, &Cmp(c), &b, &[Mode::Var], Sound::Exhaustive)?;
                check(ctx, &Cmp(c), &b, &[Mode::Const], Sound::Exhaustive)?;
                if full {
                    check(ctx, &Cmp(c), &b, &[Mode::Const, Mode::Var], Sound::Exhaustive)?;
                    check(ctx, &Cmp(c), &b, &[Mode::Var, Mode::Const, Mode::Lin], Sound::Exhaustive)?;
                }
            }
        }
    }
    Ok(())
}
fn cmp_real<F: Field>(ctx: &mut Ctx) -> R<()> {
    let e: Vec<F> = edge(ctx);
    let maxlen = 64 * <F as ReprLen>::zero_repr_len();
    let mut lens: Vec<usize> = vec![1, 2, 3, 4, 5, 31, 32, 33, 63, 64, 65, 127, 128, 129, 251, 252, 253, 254, 255, 256];
    lens.extend(ctx.lits.iter().filter_map(|l| l.to_string().parse::<usize>().ok()).filter(|l| *l >= 1));
    for _ in 0..ctx.n(8, 100) {
        lens.push(1 + ctx.rng.gen::<usize>() % maxlen);
    }
    lens.retain(|l| *l <= maxlen);
    lens.sort();
    lens.dedup();
    for n in lens {
        for k in 0..ctx.n(4, 16) {
            let c = pick(ctx, &e);
            let lim = BigUint::from(1u32) << n;
            let cb = big(c);
            let mut vs: Vec<BigUint> = vec![&cb % &lim, (&cb + BigUint::from(1u32)) % &lim, big(ctx.rng.gen::<F>()) % &lim, &lim - BigUint::from(1u32), BigUint::from(0u32)];
            if cb > BigUint::from(0u32) {
                vs.push((&cb - BigUint::from(1u32)) % &lim);
            }
            for v in vs {
                let b: Vec<F> = bits_of_big(&v, n).into_iter().map(bit).collect();
                check(ctx, &Cmp(c), &b, &[[Mode::Var, Mode::Lin, Mode::Const, Mode::Sum][k % 4]], if n < 20 { Sound::Attack } else { Sound::No })?;
            }
            // constants close to the width
            let c2 = of_big::<F>(&(big(ctx.rng.gen::<F>()) % (BigUint::from(1u32) << (n + 1))));
            let v = big(c2) % &lim;
            let b: Vec<F> = bits_of_big(&v, n).into_iter().map(bit).collect();
            check(ctx, &Cmp(c2), &b, &[Mode::Var], Sound::No)?;
        }
    }
    Ok(())
}
trait ReprLen {
    fn zero_repr_len() -> usize;
}
impl<F: PrimeField> ReprLen for F {
    fn zero_repr_len() -> usize {
        F::zero().into_repr().as_ref().len()
    }
}
pub fn c05(ctx: &mut Ctx) -> R<()> {
    cmp_tiny::<13>(ctx, 4)?;
    cmp_tiny::<31>(ctx, 6)?;
    if ctx.thorough {
        cmp_tiny::<101>(ctx, 8)?;
    }
    cmp_real::<fawkes_crypto::native::bn256::Fr>(ctx)?;
    cmp_real::<fawkes_crypto::native::bls12_381::Fr>(ctx)
}
