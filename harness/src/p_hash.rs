//! C06 Poseidon, C07 Merkle roots
use crate::gad::*;
use crate::oracle::*;
use crate::small::Fp;
use fawkes_crypto::circuit::{num::CNum, poseidon::*};
use fawkes_crypto::core::{cs::ConstraintSystem, field::Field, signal::Signal, sizedvec::SizedVec};
use fawkes_crypto::native::{num::Num, poseidon::*};
use rand::Rng;
use typenum::*;

/// oracle: the Poseidon permutation written from its definition
pub fn pos<F: Field>(x: &[F], p: &PoseidonParams<F>) -> F {
    let mut s: Vec<V<F>> = x.iter().map(|x| V(*x)).collect();
    while s.len() < p.t {
        s.push(zero());
    }
    let first = p.f / 2;
    for i in 0..p.f + p.p {
        let full = i < first || i >= first + p.p;
        for j in 0..p.t {
            s[j] = s[j] + V(p.c[i].0);
            if full || j == 0 {
                s[j] = s[j] * s[j] * s[j] * s[j] * s[j];
            }
        }
        s = (0..p.t).map(|r| (0..p.t).fold(zero(), |a, c| a + V(p.m[r][c].0) * s[c])).collect();
    }
    s[0].0
}
fn n<F: Field>(x: &[F]) -> Vec<Num<F>> {
    x.iter().map(|v| Num(*v)).collect()
}
pub fn rand_params<F: Field>(ctx: &mut Ctx, t: usize, f: usize, p: usize, sp: u8) -> PoseidonParams<F> {
    let mut g = || Num(match sp {
        1 => if ctx.rng.gen() { F::zero() } else { F::one() },
        _ => ctx.rng.gen(),
    });
    PoseidonParams { c: (0..f + p).map(|_| g()).collect(), m: (0..t).map(|_| (0..t).map(|_| g()).collect()).collect(), t, f, p }
}
pub struct Hash<'p, F: Field> {
    pub p: &'p PoseidonParams<F>,
    pub salt: Option<Vec<u8>>,
}
impl<'p, F: Field> Gadget<F> for Hash<'p, F> {
    fn name(&self) -> String {
        format!("poseidon t={} f={} p={} c={:?} m={:?} salt={:?}", self.p.t, self.p.f, self.p.p, &self.p.c[..self.p.c.len().min(4)], &self.p.m[..self.p.m.len().min(4)], self.salt)
    }
    fn build<'a, CS: ConstraintSystem<F = F>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        vec![match &self.salt {
            None => c_poseidon(x, self.p),
            Some(s) => c_poseidon_with_salt(x, s, self.p),
        }]
    }
    fn spec(&self, x: &[F]) -> Spec<F> {
        let mut x = x.to_vec();
        if let Some(s) = &self.salt {
            x.push(Num::<F>::from_seed(s).0);
        }
        if x.len() > self.p.t || x.is_empty() {
            return reject();
        }
        out(vec![pos(&x, self.p)])
    }
}
fn native<F: Field>(ctx: &mut Ctx, x: &[F], p: &PoseidonParams<F>, salt: &[u8]) -> R<()> {
    let d = || format!("poseidon inputs={:?} t={} f={} p={} c={:?} m={:?}", x, p.t, p.f, p.p, p.c, p.m);
    let r = attempt(|| poseidon(&n(x), p));
    match r {
        Ok(v) => {
            if x.is_empty() || x.len() > p.t {
                return fail("a wrong number of inputs is accepted", d());
            }
            let e = pos(x, p);
            if v.0 != e {
                return fail(format!("native hash is {:?}, the permutation gives {:?}", v, e), d());
            }
        }
        Err(e) => {
            if !x.is_empty() && x.len() <= p.t {
                return fail(format!("native hash panics: {}", e), d());
            }
        }
    }
    let r = attempt(|| poseidon_with_salt(&n(x), salt, p));
    match r {
        Ok(v) => {
            if x.is_empty() || x.len() >= p.t {
                return fail("a wrong number of inputs is accepted by the salted hash", d());
            }
            let mut y = x.to_vec();
            y.push(Num::<F>::from_seed(salt).0);
            if v.0 != pos(&y, p) {
                return fail("salted hash differs from hashing the inputs followed by the salt element", format!("{} salt={:?}", d(), salt));
            }
        }
        Err(e) => {
            if !x.is_empty() && x.len() < p.t {
                return fail(format!("salted hash panics: {}", e), d());
            }
        }
    }
    ctx.ok(d);
    Ok(())
}
fn tiny06<const P: u64>(ctx: &mut Ctx) -> R<()> {
    for t in 1..6usize {
        for f in 0..6usize {
            for p in 0..4usize {
                for sp in 0..2u8 {
                    let pp = rand_params::<Fp<P>>(ctx, t, f, p, sp);
                    for k in 0..t + 2 {
                        for rep in 0..ctx.n(2, 12) {
                            let x: Vec<Fp<P>> = (0..k).map(|_| ctx.rng.gen()).collect();
                            let salt: Vec<u8> = (0..rep).map(|_| ctx.rng.gen()).collect();
                            if !ctx.only_shape {
                                native(ctx, &x, &pp, &salt)?;
                            }
                            let m: Vec<Mode> = (0..k.max(1)).map(|_| ALL[ctx.rng.gen::<usize>() % 5]).collect();
                            if k > 0 {
                                let s = if f + p < 5 { Sound::Exhaustive } else { Sound::No };
                                check(ctx, &Hash { p: &pp, salt: None }, &x, &m, s)?;
                                check(ctx, &Hash { p: &pp, salt: None }, &x, &[Mode::Const], s)?;
                                check(ctx, &Hash { p: &pp, salt: Some(salt) }, &x, &m, s)?;
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
fn real06<F: Field>(ctx: &mut Ctx) -> R<()> {
    let e: Vec<F> = edge(ctx);
    for (t, f, p) in [(1usize, 2usize, 1usize), (2, 8, 52), (3, 8, 53), (4, 8, 54), (5, 8, 54), (6, 8, 55), (3, 7, 2), (2, 0, 3), (9, 4, 3)].iter().cloned() {
        let pp = PoseidonParams::<F>::new(t, f, p);
        let rp = rand_params::<F>(ctx, t, f, p, 0);
        for k in 0..t + 3 {
            for rep in 0..ctx.n(2, 12) {
                let x: Vec<F> = (0..k).map(|_| pick(ctx, &e)).collect();
                let salt: Vec<u8> = (0..rep * 13).map(|_| ctx.rng.gen()).collect();
                if !ctx.only_shape {
                    native(ctx, &x, &pp, &salt)?;
                    native(ctx, &x, &rp, &salt)?;
                }
                if k > 0 {
                    let m: Vec<Mode> = (0..k).map(|_| ALL[ctx.rng.gen::<usize>() % 5]).collect();
                    let s = if rep == 0 && k <= 2 { Sound::Attack } else { Sound::No };
                    check(ctx, &Hash { p: &pp, salt: None }, &x, &m, s)?;
                    check(ctx, &Hash { p: &rp, salt: Some(salt) }, &x, &m, Sound::No)?;
                }
            }
        }
    }
    Ok(())
}
pub fn c06(ctx: &mut Ctx) -> R<()> {
    tiny06::<5>(ctx)?;
    tiny06::<13>(ctx)?;
    real06::<fawkes_crypto::native::bn256::Fr>(ctx)?;
    real06::<fawkes_crypto::native::bls12_381::Fr>(ctx)
}

pub struct Path<'p, F: Field, L> {
    pub p: &'p PoseidonParams<F>,
    pub l: std::marker::PhantomData<L>,
}
impl<'p, F: Field, L: Unsigned> Gadget<F> for Path<'p, F, L> {
    fn name(&self) -> String {
        format!("merkle path of length {} (leaf, siblings, path bits) t={} f={} p={}", L::USIZE, self.p.t, self.p.f, self.p.p)
    }
    fn build<'a, CS: ConstraintSystem<F = F>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        let proof = CMerkleProof::<CS, L> {
            sibling: x[1..1 + L::USIZE].iter().cloned().collect(),
            path: x[1 + L::USIZE..].iter().map(|b| b.into_bool()).collect(),
        };
        vec![c_poseidon_merkle_proof_root(&x[0], &proof, self.p)]
    }
    fn spec(&self, x: &[F]) -> Spec<F> {
        out(vec![path_root(x[0], &x[1..1 + L::USIZE], &x[1 + L::USIZE..].iter().map(|b| !b.is_zero()).collect::<Vec<_>>(), self.p)])
    }
}
pub fn path_root<F: Field>(leaf: F, sib: &[F], path: &[bool], p: &PoseidonParams<F>) -> F {
    let mut r = leaf;
    for i in 0..sib.len() {
        r = if path[i] { pos(&[sib[i], r], p) } else { pos(&[r, sib[i]], p) };
    }
    r
}
pub struct Tree<'p, F: Field> {
    pub p: &'p PoseidonParams<F>,
}
pub fn levels<F: Field>(x: &[F], p: &PoseidonParams<F>) -> Vec<Vec<F>> {
    let mut l = x.to_vec();
    let mut n = 1;
    while n < l.len() {
        n *= 2;
    }
    while l.len() < n {
        l.push(F::zero());
    }
    let mut all = vec![l.clone()];
    while l.len() > 1 {
        l = (0..l.len() / 2).map(|i| pos(&[l[2 * i], l[2 * i + 1]], p)).collect();
        all.push(l.clone());
    }
    all
}
impl<'p, F: Field> Gadget<F> for Tree<'p, F> {
    fn name(&self) -> String {
        format!("merkle tree root t={} f={} p={}", self.p.t, self.p.f, self.p.p)
    }
    fn build<'a, CS: ConstraintSystem<F = F>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        vec![c_poseidon_merkle_tree_root(x, self.p)]
    }
    fn spec(&self, x: &[F]) -> Spec<F> {
        out(vec![levels(x, self.p).last().unwrap()[0]])
    }
}
fn paths<F: Field, L: Unsigned>(ctx: &mut Ctx, p: &PoseidonParams<F>, e: &[F], reps: usize, sound: Sound) -> R<()> {
    let l = L::USIZE;
    for rep in 0..reps {
        let all = l <= 4 && rep == 0;
        for k in 0..if all { 1usize << l } else { 2 } {
            let path: Vec<bool> = (0..l).map(|i| if all { k >> i & 1 == 1 } else { ctx.rng.gen() }).collect();
            let sib: Vec<F> = (0..l).map(|_| pick(ctx, e)).collect();
            let leaf = pick(ctx, e);
            let r = path_root(leaf, &sib, &path, p);
            if !ctx.only_shape {
                let proof = MerkleProof::<F, L> { sibling: sib.iter().map(|s| Num(*s)).collect(), path: path.iter().cloned().collect() };
                let d = || format!("leaf {:?} siblings {:?} path {:?} t={} f={} p={}", leaf, sib, path, p.t, p.f, p.p);
                match attempt(|| poseidon_merkle_proof_root(Num(leaf), &proof, p)) {
                    Ok(v) if v.0 == r => {}
                    o => return fail(format!("native root is {:?}, expected {:?}", o, r), d()),
                }
                ctx.ok(d);
            }
            let mut x = vec![leaf];
            x.extend(sib);
            x.extend(path.iter().map(|b| bit::<F>(*b)));
            let m: Vec<Mode> = (0..x.len()).map(|_| ALL[ctx.rng.gen::<usize>() % 5]).collect();
            check(ctx, &Path::<F, L> { p, l: Default::default() }, &x, &m, sound)?;
            check(ctx, &Path::<F, L> { p, l: Default::default() }, &x, &[Mode::Var], Sound::No)?;
        }
    }
    Ok(())
}
fn trees<F: Field>(ctx: &mut Ctx, p: &PoseidonParams<F>, e: &[F], sizes: &[usize], sound: Sound) -> R<()> {
    for n in sizes.iter().cloned() {
        let x: Vec<F> = (0..n).map(|_| pick(ctx, e)).collect();
        let l = levels(&x, p);
        let root = l.last().unwrap()[0];
        if !ctx.only_shape {
            let d = || format!("{} leaves {:?} t={} f={} p={}", n, x, p.t, p.f, p.p);
            match attempt(|| poseidon_merkle_tree_root(&x.iter().map(|v| Num(*v)).collect::<Vec<_>>(), p)) {
                Ok(v) if v.0 == root => {}
                o => return fail(format!("native tree root is {:?}, expected {:?}", o, root), d()),
            }
            ctx.ok(d);
            // a leaf with its siblings leads to the root (length 3 trees)
            if l.len() == 4 {
                for i in 0..n {
                    let proof = MerkleProof::<F, U3> { sibling: (0..3).map(|k| Num(l[k][(i >> k) ^ 1])).collect(), path: (0..3).map(|k| i >> k & 1 == 1).collect() };
                    if attempt(|| poseidon_merkle_proof_root(Num(x[i]), &proof, p).0).ok() != Some(root) {
                        return fail("leaf path does not lead to the tree root", format!("leaf {} of {:?}", i, x));
                    }
                    ctx.ok(|| "leaf path".into());
                }
            }
        }
        let m: Vec<Mode> = (0..x.len()).map(|_| ALL[ctx.rng.gen::<usize>() % 5]).collect();
        check(ctx, &Tree { p }, &x, &m, sound)?;
        check(ctx, &Tree { p }, &x, &[Mode::Const], Sound::No)?;
    }
    Ok(())
}
fn c07f<F: Field>(ctx: &mut Ctx, ps: &[PoseidonParams<F>], big: bool) -> R<()> {
    let e: Vec<F> = if big { edge(ctx) } else { (0..5).map(|i| int::<F>(i).0).collect() };
    let s = if big { Sound::No } else { Sound::Exhaustive };
    for p in ps {
        let k = if big { ctx.n(1, 6) } else { ctx.n(3, 20) };
        paths::<F, U0>(ctx, p, &e, k, s)?;
        paths::<F, U1>(ctx, p, &e, k, s)?;
        paths::<F, U2>(ctx, p, &e, k, s)?;
        paths::<F, U3>(ctx, p, &e, k, s)?;
        paths::<F, U5>(ctx, p, &e, k, s)?;
        paths::<F, U32>(ctx, p, &e, 1, Sound::No)?;
        if big && ctx.thorough {
            paths::<F, U64>(ctx, p, &e, 2, Sound::No)?;
        }
        let mut sizes: Vec<usize> = if big { vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33] } else { (1..34).chain(vec![63, 64, 65]).collect() };
        let ls: Vec<usize> = ctx.lits.iter().filter_map(|l| l.to_string().parse::<usize>().ok()).filter(|l| *l >= 1 && *l <= if big { 40 } else { 300 }).collect();
        sizes.extend(ls);
        sizes.sort();
        sizes.dedup();
        if big && !ctx.thorough {
            sizes.retain(|s| *s < 20);
        }
        let (small, large): (Vec<usize>, Vec<usize>) = sizes.into_iter().partition(|s| *s < 10);
        trees(ctx, p, &e, &small, s)?;
        trees(ctx, p, &e, &large, Sound::No)?;
    }
    Ok(())
}
pub fn c07(ctx: &mut Ctx) -> R<()> {
    let ps: Vec<_> = vec![(2, 2, 0), (3, 1, 1), (2, 0, 1), (4, 2, 1)].into_iter().map(|(t, f, p)| rand_params::<Fp<13>>(ctx, t, f, p, 0)).collect();
    c07f(ctx, &ps, false)?;
    let mut big = vec![PoseidonParams::<fawkes_crypto::native::bn256::Fr>::new(3, 8, 53)];
    if ctx.thorough {
        big.push(PoseidonParams::new(2, 8, 54));
        big.push(PoseidonParams::new(4, 6, 10));
    }
    c07f(ctx, &big, true)?;
    let bl = vec![PoseidonParams::<fawkes_crypto::native::bls12_381::Fr>::new(3, 4, 5)];
    c07f(ctx, &bl, true)?;
    let _ = |_: SizedVec<u8, U1>| ();
    Ok(())
}
