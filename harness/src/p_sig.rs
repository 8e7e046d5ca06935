//! C14, C15 EdDSA
use crate::curves::*;
use crate::gad::*;
use crate::oracle::*;
use crate::p_hash::{pos, rand_params};
use crate::small::Fp;
use blake2_rfc::blake2s::Blake2s;
use fawkes_crypto::circuit::{eddsaposeidon::*, num::CNum};
use fawkes_crypto::core::{cs::ConstraintSystem, field::Field};
use fawkes_crypto::native::{bls12_381::JubJubBLS12_381, bn256::JubJubBN256, ecc::*, eddsaposeidon::*, num::Num, poseidon::PoseidonParams};
use ff::{Field as _, PrimeField};
use num::bigint::BigUint;
use rand::Rng;

const SEED: &[u8] = b"eddsaposeidon";
const PERS: &[u8] = b"__fawkes";

fn seed_elem<F: Field>(b: &[u8]) -> F {
    let n = ((F::NUM_BITS + 7) / 8) as usize;
    let mut h = Blake2s::with_params(n, &[], &[], PERS);
    h.update(b);
    of_big(&BigUint::from_bytes_be(h.finalize().as_ref()))
}
pub fn chal<F: Field>(r: F, a: F, m: F, p: &PoseidonParams<F>) -> BigUint {
    big(pos(&[r, a, m, seed_elem(SEED)], p))
}
fn bytes<F: Field>(x: F) -> Vec<u8> {
    let n = ((F::NUM_BITS + 7) / 8) as usize;
    let b = big(x).to_bytes_be();
    let mut v = vec![0u8; n - b.len().min(n)];
    v.extend(b);
    v
}
pub fn nonce<J: JubJubParams>(sk: J::Fs, m: J::Fr) -> J::Fs {
    let mut h = Blake2s::with_params(32, &[], &[], PERS);
    h.update(&bytes(sk));
    h.update(&bytes(m));
    of_big(&BigUint::from_bytes_be(h.finalize().as_ref()))
}
fn g<J: JubJubParams>(j: &J) -> Pt<J::Fr> {
    (j.edwards_g().x.0, j.edwards_g().y.0)
}
/// oracle: the signature equation for an integer scalar
pub fn valid<J: JubJubParams>(s: &BigUint, r: J::Fr, a: J::Fr, m: J::Fr, p: &PoseidonParams<J::Fr>, j: &J) -> Option<bool> {
    let d = j.edwards_d().0;
    let pa = decompress(a, j)?;
    let pr = decompress(r, j)?;
    let h = chal(r, a, m, p);
    Some(ed_mul(g(j), s, d) == ed_add(ed_mul(pa, &h, d), pr, d))
}
fn ver<J: JubJubParams>(ctx: &mut Ctx, s: J::Fs, r: J::Fr, a: J::Fr, m: J::Fr, p: &PoseidonParams<J::Fr>, j: &J) -> R<bool> {
    let want = valid(&big(s), r, a, m, p, j).unwrap_or(false);
    let d = || format!("s {:?} r {:?} a {:?} m {:?}", s, r, a, m);
    match attempt(|| eddsaposeidon_verify(Num(s), Num(r), Num(a), Num(m), p, j)) {
        Ok(v) if v == want => {}
        Ok(v) => return fail(format!("verification returns {}, the signature equation gives {}", v, want), d()),
        Err(e) => return fail(format!("verification panics: {}", e), d()),
    }
    ctx.nontrivial += 1;
    ctx.ok(d);
    Ok(want)
}
fn sign<J: JubJubParams>(ctx: &mut Ctx, sk: J::Fs, m: J::Fr, p: &PoseidonParams<J::Fr>, j: &J) -> R<(J::Fs, J::Fr, J::Fr)> {
    let d = j.edwards_d().0;
    let i = || format!("secret key {:?} message {:?}", sk, m);
    let a = ed_mul(g(j), &big(sk), d).0;
    let (s, r) = match attempt(|| eddsaposeidon_sign(Num(sk), Num(m), p, j)) {
        Ok((s, r)) => (s.0, r.0),
        Err(e) => return fail(format!("signing panics: {}", e), i()),
    };
    if !ver(ctx, s, r, a, m, p, j)? {
        return fail("an honest signature does not satisfy the signature equation", format!("{} signature ({:?}, {:?})", i(), s, r));
    }
    let k = nonce::<J>(sk, m);
    if ed_mul(g(j), &big(k), d).0 != r {
        return fail("the nonce is not the personalised hash of the secret key and the message", i());
    }
    Ok((s, r, a))
}
fn tiny14<const P: u64, const Q: u64>(ctx: &mut Ctx, d: u64, u: u64, t: usize) -> R<()> {
    let j = Tiny::<P, Q>::new(d, u, 1);
    let p = rand_params::<Fp<P>>(ctx, t, 2, 1, 0);
    for sk in 0..Q {
        for m in 0..P {
            if ctx.thorough || m % 3 == 0 {
                sign(ctx, Fp(sk), Fp(m), &p, &j)?;
            }
        }
    }
    for a in elems::<Fp<P>>() {
        for r in elems::<Fp<P>>() {
            let both = decompress(a, &j).is_some() && decompress(r, &j).is_some();
            let m: Fp<P> = ctx.rng.gen();
            for s in 0..if both { Q } else { 1 } {
                ver(ctx, Fp(s), r, a, m, &p, &j)?;
            }
        }
    }
    Ok(())
}
fn real14<J: JubJubParams>(ctx: &mut Ctx, p: &PoseidonParams<J::Fr>, j: &J) -> R<()> {
    let ss: Vec<J::Fs> = edge(ctx);
    let ms: Vec<J::Fr> = edge(ctx);
    let d = j.edwards_d().0;
    let low = low_order(j);
    let mut prev: Option<(J::Fs, J::Fr, J::Fr, J::Fr)> = None;
    for (i, sk) in ss.iter().enumerate() {
        if !ctx.thorough && i % 5 != 0 {
            continue;
        }
        let m = pick(ctx, &ms);
        let (s, r, a) = sign(ctx, *sk, m, p, j)?;
        // alterations of every part
        let o: J::Fr = ctx.rng.gen();
        let os: J::Fs = ctx.rng.gen();
        ver(ctx, (V(s) + one()).0, r, a, m, p, j)?;
        ver(ctx, (-V(s)).0, r, a, m, p, j)?;
        ver(ctx, os, r, a, m, p, j)?;
        ver(ctx, s, (-V(r)).0, a, m, p, j)?;
        ver(ctx, s, r, (-V(a)).0, m, p, j)?;
        ver(ctx, s, r, a, (V(m) + one()).0, p, j)?;
        ver(ctx, s, o, a, m, p, j)?;
        ver(ctx, s, r, o, m, p, j)?;
        ver(ctx, s, a, r, m, p, j)?;
        if let Some((s2, r2, a2, m2)) = prev {
            ver(ctx, s2, r, a, m, p, j)?;
            ver(ctx, s, r2, a, m, p, j)?;
            ver(ctx, s, r, a2, m, p, j)?;
            ver(ctx, s2, r2, a, m2, p, j)?;
        }
        // torsion-shifted key and commitment
        let pa = decompress(a, j).unwrap();
        let pr = decompress(r, j).unwrap();
        for l in &low {
            ver(ctx, s, r, ed_add(pa, *l, d).0, m, p, j)?;
            let r2 = ed_add(pr, *l, d).0;
            ver(ctx, s, r2, a, m, p, j)?;
            // response recomputed for the shifted commitment
            let h = of_big::<J::Fs>(&chal(r2, a, m, p));
            let s2 = (V(nonce::<J>(*sk, m)) + V(h) * V(*sk)).0;
            ver(ctx, s2, r2, a, m, p, j)?;
        }
        prev = Some((s, r, a, m));
    }
    for x in &ms {
        let y = pick(ctx, &ms);
        let m = pick(ctx, &ms);
        let s = pick(ctx, &ss);
        ver(ctx, s, *x, y, m, p, j)?;
        ver(ctx, s, *x, J::Fr::zero(), m, p, j)?;
        ver(ctx, J::Fs::zero(), J::Fr::zero(), *x, m, p, j)?;
    }
    Ok(())
}
pub fn c14(ctx: &mut Ctx) -> R<()> {
    tiny14::<101, 11>(ctx, 12, 2, 4)?;
    tiny14::<109, 13>(ctx, 11, 2, 5)?;
    if ctx.thorough {
        tiny14::<149, 17>(ctx, 3, 2, 4)?;
        tiny14::<73, 11>(ctx, 5, 5, 4)?;
    }
    real14(ctx, &PoseidonParams::new(4, 8, 54), &JubJubBN256::new())?;
    real14(ctx, &PoseidonParams::new(4, 8, 54), &JubJubBLS12_381::new())
}

pub struct CVer<'p, J: JubJubParams> {
    pub p: &'p PoseidonParams<J::Fr>,
    pub j: &'p J,
}
impl<'p, J: JubJubParams> Gadget<J::Fr> for CVer<'p, J> {
    fn name(&self) -> String {
        "signature verification (s, r, a, m)".into()
    }
    fn build<'a, CS: ConstraintSystem<F = J::Fr>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        vec![c_eddsaposeidon_verify(&x[0], &x[1], &x[2], &x[3], self.p, self.j).0]
    }
    fn spec(&self, x: &[J::Fr]) -> Spec<J::Fr> {
        let s = big(x[0]);
        if s >= BigUint::from(1u32) << J::Fs::NUM_BITS as usize {
            return Spec::Any;
        }
        match valid(&s, x[1], x[2], x[3], self.p, self.j) {
            None => reject(),
            Some(b) => out(vec![bit(b)]),
        }
    }
}
fn tiny15<const P: u64, const Q: u64>(ctx: &mut Ctx, d: u64, u: u64) -> R<()> {
    let j = Tiny::<P, Q>::new(d, u, 1);
    let p = rand_params::<Fp<P>>(ctx, 4, 1, 1, 0);
    let sub: Vec<Fp<P>> = j.subgroup().into_iter().map(|p| p.0).collect();
    let lim = 1u64 << Fp::<Q>::NUM_BITS;
    let mut n = 0;
    for a in &sub {
        for r in &sub {
            let m: Fp<P> = ctx.rng.gen();
            // the accepted scalars, and one neighbour each
            for s in 0..lim {
                n += 1;
                let v = valid(&BigUint::from(s), *r, *a, m, &p, &j).unwrap();
                if ctx.thorough || (v && n % 2 == 0) || n % 23 == 0 {
                    check(ctx, &CVer { p: &p, j: &j }, &[Fp(s), *r, *a, m], &[[Mode::Var, Mode::Lin, Mode::Const][n % 3], Mode::Var, Mode::Var, Mode::Var], Sound::Exhaustive)?;
                }
            }
        }
    }
    for x in elems::<Fp<P>>() {
        if decompress(x, &j).is_none() {
            let m: Fp<P> = ctx.rng.gen();
            let o = sub[ctx.rng.gen::<usize>() % sub.len()];
            check(ctx, &CVer { p: &p, j: &j }, &[Fp(3), x, o, m], &[Mode::Var], Sound::Exhaustive)?;
            check(ctx, &CVer { p: &p, j: &j }, &[Fp(3), o, x, m], &[Mode::Var], Sound::Exhaustive)?;
        }
    }
    // constants
    for k in 0..ctx.n(6, 60) {
        let a = sub[ctx.rng.gen::<usize>() % sub.len()];
        let r = sub[ctx.rng.gen::<usize>() % sub.len()];
        let m: Fp<P> = ctx.rng.gen();
        let modes: Vec<Mode> = (0..4).map(|_| VCL[ctx.rng.gen::<usize>() % 3]).collect();
        check(ctx, &CVer { p: &p, j: &j }, &[Fp(k as u64 % lim), r, a, m], &modes, Sound::Exhaustive)?;
        check(ctx, &CVer { p: &p, j: &j }, &[Fp(k as u64 % lim), r, a, m], &[Mode::Const], Sound::No)?;
    }
    Ok(())
}
fn real15<J: JubJubParams>(ctx: &mut Ctx, p: &PoseidonParams<J::Fr>, j: &J) -> R<()> {
    let ss: Vec<J::Fs> = edge(ctx);
    let ms: Vec<J::Fr> = edge(ctx);
    let d = j.edwards_d().0;
    for k in 0..ctx.n(3, 25) {
        let sk = pick(ctx, &ss);
        let m = pick(ctx, &ms);
        let a = ed_mul(g(j), &big(sk), d).0;
        let no = nonce::<J>(sk, m);
        let r = ed_mul(g(j), &big(no), d).0;
        let s = (V(no) + V(of_big::<J::Fs>(&chal(r, a, m, p))) * V(sk)).0;
        let f = |s: &BigUint| of_big::<J::Fr>(s);
        let sn = f(&big(s));
        let md = VCL[k % 3];
        let c = CVer { p, j };
        check(ctx, &c, &[sn, r, a, m], &[md], if ctx.thorough && k == 0 { Sound::Attack } else { Sound::No })?;
        check(ctx, &c, &[sn, r, a, (V(m) + one()).0], &[Mode::Var], Sound::No)?;
        check(ctx, &c, &[(V(sn) + one()).0, r, a, m], &[Mode::Var], Sound::No)?;
        check(ctx, &c, &[sn, (-V(r)).0, a, m], &[Mode::Var], Sound::No)?;
        check(ctx, &c, &[sn, r, (-V(a)).0, m], &[Mode::Var], Sound::No)?;
        // s + order still below 2^bits
        let s2 = big(s) + order::<J>();
        if s2 < BigUint::from(1u32) << J::Fs::NUM_BITS as usize {
            check(ctx, &c, &[f(&s2), r, a, m], &[Mode::Var], Sound::No)?;
        }
        let x: J::Fr = ctx.rng.gen();
        check(ctx, &c, &[sn, x, a, m], &[Mode::Var], Sound::No)?;
        check(ctx, &c, &[sn, r, x, m], &[Mode::Var], Sound::No)?;
    }
    // identity key or commitment
    let m = pick(ctx, &ms);
    check(ctx, &CVer { p, j }, &[J::Fr::zero(), J::Fr::zero(), J::Fr::zero(), m], &[Mode::Var], Sound::No)?;
    check(ctx, &CVer { p, j }, &[J::Fr::one(), g(j).0, J::Fr::zero(), m], &[Mode::Var], Sound::No)
}
pub fn c15(ctx: &mut Ctx) -> R<()> {
    tiny15::<101, 11>(ctx, 12, 2)?;
    if ctx.thorough {
        tiny15::<109, 13>(ctx, 11, 2)?;
        tiny15::<149, 17>(ctx, 3, 2)?;
    }
    real15(ctx, &PoseidonParams::new(4, 8, 54), &JubJubBN256::new())?;
    real15(ctx, &PoseidonParams::new(4, 8, 54), &JubJubBLS12_381::new())
}
